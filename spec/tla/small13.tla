-------------------------------- MODULE small13 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small13_session_model_runs

(*
  @type: (() => Int);
*)
small13_session_model_NT == 2

VARIABLE
  (*
    @type: Int;
  *)
  small13_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small13_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  small13_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  small13_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  small13_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
small13_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  small13_session_model_ev

(*
  @type: (() => Int);
*)
small13_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  small13_session_model_verdictNow

(*
  @type: (() => Int);
*)
small13_session_model_NO == 2

(*
  @type: (() => Int);
*)
small13_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
small13_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
small13_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
small13_session_model_OK == 0

(*
  @type: (() => Int);
*)
small13_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
small13_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
small13_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
small13_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
small13_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
small13_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
small13_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
small13_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
small13_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
small13_session_model_RACE == 7

(*
  @type: (() => Int);
*)
small13_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
small13_session_model_learn(small13_session_model_s_1213, small13_session_model_op_1213,
small13_session_model_env_1213, small13_session_model_res_1213) ==
  IF <<small13_session_model_op_1213, small13_session_model_env_1213>>
    \in DOMAIN (small13_session_model_s_1213["memo"])
  THEN small13_session_model_s_1213
  ELSE [
    small13_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == small13_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<small13_session_model_op_1213, small13_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<
                small13_session_model_op_1213, small13_session_model_env_1213
              >>
            THEN small13_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
small13_session_model_KIND == 13

(*
  @type: ((Int, Int) => Int);
*)
small13_session_model_f(small13_session_model_x_67, small13_session_model_env_67) ==
  (100 * small13_session_model_env_67 + 7 * small13_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
small13_session_model_THREADS == 0 .. small13_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
small13_session_model_NOEV ==
  [kind |-> small13_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
small13_session_model_OPS == 0 .. small13_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
small13_session_model_thread(small13_session_model_s_1130, small13_session_model_t_1130) ==
  IF small13_session_model_t_1130
    \in DOMAIN (small13_session_model_s_1130["threads"])
  THEN small13_session_model_s_1130["threads"][small13_session_model_t_1130]
  ELSE small13_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
small13_session_model_returns(small13_session_model_s_1181, small13_session_model_op_1181,
small13_session_model_env_1181, small13_session_model_flags_1181, small13_session_model_res_1181) ==
  IF small13_session_model_flags_1181 >= 8
  THEN small13_session_model_R_STATUS
  ELSE IF small13_session_model_flags_1181 % 2 = 1
  THEN small13_session_model_R_ARG
  ELSE IF small13_session_model_flags_1181 > 0
  THEN small13_session_model_R_ENV
  ELSE IF <<small13_session_model_op_1181, small13_session_model_env_1181>>
      \in DOMAIN (small13_session_model_s_1181["memo"])
    /\ small13_session_model_s_1181["memo"][
      <<small13_session_model_op_1181, small13_session_model_env_1181>>
    ]
      /= small13_session_model_res_1181
  THEN small13_session_model_R_RESULT
  ELSE small13_session_model_OK

(*
  @type: ((Int) => Int);
*)
small13_session_model_key(small13_session_model_op_82) ==
  IF small13_session_model_KIND = 3
  THEN small13_session_model_op_82 % small13_session_model_NO \div 2
  ELSE small13_session_model_op_82

(*
  @type: (() => Bool);
*)
small13_session_model_refines ==
  small13_session_model_verdictNow = small13_session_model_OK

(*
  @type: (() => Bool);
*)
small13_session_model_init ==
  small13_session_model_runs
      = [
        small13_session_model_t_112 \in small13_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ small13_session_model_scratch = 0
    /\ small13_session_model_cache = SetAsFun({})
    /\ small13_session_model_last
      = [
        small13_session_model_t_130 \in small13_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ small13_session_model_table = 0
    /\ small13_session_model_lib = small13_session_model_START
    /\ small13_session_model_ev = small13_session_model_NOEV
    /\ small13_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
small13_session_model_verdict(small13_session_model_s_1360, small13_session_model_e_1360) ==
  IF small13_session_model_e_1360["kind"] = small13_session_model_CALL
  THEN IF (small13_session_model_thread(small13_session_model_s_1360, small13_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN small13_session_model_R_PROTOCOL
  ELSE small13_session_model_OK
  ELSE IF small13_session_model_e_1360["kind"] = small13_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  small13_session_model_t ==
    small13_session_model_thread(small13_session_model_s_1360, small13_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((small13_session_model_t)["busy"])
    \/ (small13_session_model_t)["op"] /= small13_session_model_e_1360["op"]
  THEN small13_session_model_R_PROTOCOL
  ELSE small13_session_model_returns(small13_session_model_s_1360, small13_session_model_e_1360[
    "op"
  ], (small13_session_model_t)["env"], small13_session_model_e_1360["flags"], small13_session_model_e_1360[
    "res"
  ])
  ELSE IF small13_session_model_e_1360["kind"] = small13_session_model_FRESH
    \/ small13_session_model_e_1360["kind"] = small13_session_model_OBSERVED
  THEN small13_session_model_returns(small13_session_model_s_1360, small13_session_model_e_1360[
    "op"
  ], small13_session_model_e_1360["env"], small13_session_model_e_1360["flags"],
  small13_session_model_e_1360["res"])
  ELSE IF small13_session_model_e_1360["kind"] = small13_session_model_ATOMIC
  THEN IF (small13_session_model_thread(small13_session_model_s_1360, small13_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN small13_session_model_R_PROTOCOL
  ELSE small13_session_model_returns(small13_session_model_s_1360, small13_session_model_e_1360[
    "op"
  ], (small13_session_model_thread(small13_session_model_s_1360, small13_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], small13_session_model_e_1360["flags"], small13_session_model_e_1360["res"])
  ELSE IF small13_session_model_e_1360["kind"] = small13_session_model_SETENV
  THEN IF (small13_session_model_thread(small13_session_model_s_1360, small13_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN small13_session_model_R_PROTOCOL
  ELSE small13_session_model_OK
  ELSE IF small13_session_model_e_1360["kind"] = small13_session_model_RACE
  THEN small13_session_model_R_RACE
  ELSE small13_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
small13_session_model_after(small13_session_model_s_1519, small13_session_model_e_1519) ==
  IF small13_session_model_e_1519["kind"] = small13_session_model_CALL
  THEN [
    small13_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == small13_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {small13_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = small13_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (small13_session_model_thread(small13_session_model_s_1519, small13_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = small13_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = small13_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF small13_session_model_e_1519["kind"] = small13_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  small13_session_model_t ==
    small13_session_model_thread(small13_session_model_s_1519, small13_session_model_e_1519[
      "thread"
    ])
  IN
  small13_session_model_learn([
    small13_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == small13_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {small13_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = small13_session_model_e_1519["thread"]
            THEN [ (small13_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], small13_session_model_e_1519["op"], (small13_session_model_t)["env"], small13_session_model_e_1519[
    "res"
  ])
  ELSE IF small13_session_model_e_1519["kind"] = small13_session_model_FRESH
    \/ small13_session_model_e_1519["kind"] = small13_session_model_OBSERVED
  THEN small13_session_model_learn(small13_session_model_s_1519, small13_session_model_e_1519[
    "op"
  ], small13_session_model_e_1519["env"], small13_session_model_e_1519["res"])
  ELSE IF small13_session_model_e_1519["kind"] = small13_session_model_ATOMIC
  THEN small13_session_model_learn(small13_session_model_s_1519, small13_session_model_e_1519[
    "op"
  ], (small13_session_model_thread(small13_session_model_s_1519, small13_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], small13_session_model_e_1519["res"])
  ELSE IF small13_session_model_e_1519["kind"] = small13_session_model_SETENV
  THEN [
    small13_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == small13_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {small13_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = small13_session_model_e_1519["thread"]
            THEN [
              (small13_session_model_thread(small13_session_model_s_1519, small13_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = small13_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF small13_session_model_e_1519["kind"] = small13_session_model_NEWPROC
  THEN [ small13_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE small13_session_model_s_1519

(*
  @type: (() => Bool);
*)
small13_session_model_silent ==
  small13_session_model_ev' := (small13_session_model_NOEV)
    /\ small13_session_model_verdictNow' := 0
    /\ small13_session_model_lib' := small13_session_model_lib

(*
  @type: (() => Bool);
*)
small13_session_model_consistent ==
  \A small13_session_model_t_884 \in small13_session_model_THREADS:
    (small13_session_model_runs[small13_session_model_t_884]["pc"] > 0)
      = (small13_session_model_thread(small13_session_model_lib, small13_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == small13_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
small13_session_model_emit(small13_session_model_e_165) ==
  small13_session_model_ev' := small13_session_model_e_165
    /\ small13_session_model_verdictNow'
      := (small13_session_model_verdict(small13_session_model_lib, small13_session_model_e_165))
    /\ small13_session_model_lib'
      := (small13_session_model_after(small13_session_model_lib, small13_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
small13_session_model_reduce(small13_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small13_session_model_r ==
    small13_session_model_runs[small13_session_model_t_383]
  IN
  (small13_session_model_r)["pc"] = 1
    /\ small13_session_model_runs'
      := [
        small13_session_model_runs EXCEPT
          ![small13_session_model_t_383] =
            [
              [
                [
                  [ (small13_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (small13_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF small13_session_model_KIND = 1
                    THEN (small13_session_model_r)["arg"] + 1
                    ELSE (small13_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF small13_session_model_KIND = 4
                    /\ (small13_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF small13_session_model_KIND = 6
                  THEN 0
                  ELSE (small13_session_model_r)["env"]
            ]
      ]
    /\ small13_session_model_scratch'
      := (IF small13_session_model_KIND = 2
      THEN (small13_session_model_r)["arg"]
      ELSE small13_session_model_scratch)
    /\ small13_session_model_cache'
      := (IF small13_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == small13_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(small13_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = small13_session_model_t_383 % 2
          THEN (small13_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE small13_session_model_cache)
    /\ small13_session_model_last' := small13_session_model_last
    /\ small13_session_model_table' := small13_session_model_table
    /\ small13_session_model_silent

(*
  @type: ((Int) => Bool);
*)
small13_session_model_compute(small13_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small13_session_model_r ==
    small13_session_model_runs[small13_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  small13_session_model_x ==
    IF small13_session_model_KIND = 2
    THEN small13_session_model_scratch
    ELSE IF small13_session_model_KIND = 13
    THEN small13_session_model_cache[(small13_session_model_t_659 % 2)]
    ELSE (small13_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  small13_session_model_k ==
    small13_session_model_key((small13_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  small13_session_model_shared ==
    (small13_session_model_KIND = 3 \/ small13_session_model_KIND = 5)
      \/ small13_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  small13_session_model_hit ==
    (small13_session_model_shared
        /\ small13_session_model_k \in DOMAIN small13_session_model_cache)
      /\ (small13_session_model_KIND = 9 \/ (small13_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  small13_session_model_slot ==
    small13_session_model_last[
      (IF small13_session_model_KIND = 7 THEN small13_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  small13_session_model_again ==
    ((small13_session_model_KIND = 7
          /\ (small13_session_model_slot)["tag"]
            = (small13_session_model_r)["op"] % small13_session_model_NO \div 2)
        /\ (small13_session_model_r)["env"] = 0)
      \/ ((small13_session_model_KIND = 11
          /\ (small13_session_model_slot)["tag"]
            = (small13_session_model_r)["op"])
        /\ (small13_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  small13_session_model_true_ ==
    small13_session_model_f((small13_session_model_x), (IF small13_session_model_KIND
        = 4
      \/ small13_session_model_KIND = 6
    THEN small13_session_model_lib["threads"][small13_session_model_t_659][
      "env"
    ]
    ELSE (small13_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  small13_session_model_y ==
    IF small13_session_model_hit
    THEN small13_session_model_cache[(small13_session_model_k)]
    ELSE IF small13_session_model_again
    THEN (small13_session_model_slot)["out"]
    ELSE IF (small13_session_model_KIND = 8 /\ small13_session_model_table = 1)
      \/ (small13_session_model_KIND = 12 /\ small13_session_model_table = 0)
    THEN 0
    ELSE small13_session_model_true_
  IN
  (small13_session_model_r)["pc"] = 2
    /\ small13_session_model_runs'
      := [
        small13_session_model_runs EXCEPT
          ![small13_session_model_t_659] =
            [
              [ (small13_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = small13_session_model_y
            ]
      ]
    /\ small13_session_model_scratch' := small13_session_model_scratch
    /\ small13_session_model_cache'
      := (IF (small13_session_model_shared
          /\ (small13_session_model_KIND = 9
            \/ (small13_session_model_r)["env"] = 0))
        /\ ~small13_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == small13_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(small13_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = small13_session_model_k
          THEN small13_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE small13_session_model_cache)
    /\ small13_session_model_last'
      := (IF small13_session_model_KIND = 7
        /\ (small13_session_model_r)["env"] = 0
      THEN [
        small13_session_model_last EXCEPT
          ![small13_session_model_t_659] =
            [tag |->
                (small13_session_model_r)["op"]
                  % small13_session_model_NO \div 2,
              out |-> small13_session_model_y]
      ]
      ELSE IF small13_session_model_KIND = 11
        /\ (small13_session_model_r)["env"] = 0
      THEN [
        small13_session_model_last EXCEPT
          ![0] =
            [
              (small13_session_model_slot) EXCEPT
                !["tag"] = (small13_session_model_r)["op"]
            ]
      ]
      ELSE small13_session_model_last)
    /\ small13_session_model_table'
      := (IF small13_session_model_KIND = 10
      THEN 2
      ELSE IF small13_session_model_KIND = 8 /\ small13_session_model_table = 0
      THEN 1
      ELSE small13_session_model_table)
    /\ small13_session_model_silent

(*
  @type: (() => Bool);
*)
small13_session_model_startup ==
  small13_session_model_KIND = 12
    /\ small13_session_model_table = 0
    /\ small13_session_model_runs' := small13_session_model_runs
    /\ small13_session_model_scratch' := small13_session_model_scratch
    /\ small13_session_model_cache' := small13_session_model_cache
    /\ small13_session_model_last' := small13_session_model_last
    /\ small13_session_model_table' := 2
    /\ small13_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (small13_session_model_refines /\ small13_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
small13_session_model_call(small13_session_model_t_234, small13_session_model_op_234) ==
  small13_session_model_runs[small13_session_model_t_234]["pc"] = 0
    /\ small13_session_model_runs'
      := [
        small13_session_model_runs EXCEPT
          ![small13_session_model_t_234] =
            [
              [
                [
                  small13_session_model_runs[small13_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = small13_session_model_op_234
              ] EXCEPT
                !["arg"] = small13_session_model_op_234
            ]
      ]
    /\ small13_session_model_scratch' := small13_session_model_scratch
    /\ small13_session_model_cache' := small13_session_model_cache
    /\ small13_session_model_last' := small13_session_model_last
    /\ small13_session_model_table' := small13_session_model_table
    /\ small13_session_model_emit([kind |-> small13_session_model_CALL,
      thread |-> small13_session_model_t_234,
      op |-> small13_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
small13_session_model_setenv(small13_session_model_t_286, small13_session_model_m_286) ==
  small13_session_model_runs[small13_session_model_t_286]["pc"] = 0
    /\ small13_session_model_runs'
      := [
        small13_session_model_runs EXCEPT
          ![small13_session_model_t_286] =
            [
              small13_session_model_runs[small13_session_model_t_286] EXCEPT
                !["env"] = small13_session_model_m_286
            ]
      ]
    /\ small13_session_model_scratch' := small13_session_model_scratch
    /\ small13_session_model_cache' := small13_session_model_cache
    /\ small13_session_model_last' := small13_session_model_last
    /\ small13_session_model_table' := small13_session_model_table
    /\ small13_session_model_emit([kind |-> small13_session_model_SETENV,
      thread |-> small13_session_model_t_286,
      op |-> 0,
      env |-> small13_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
small13_session_model_return(small13_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small13_session_model_r ==
    small13_session_model_runs[small13_session_model_t_768]
  IN
  (small13_session_model_r)["pc"] = 3
    /\ small13_session_model_runs'
      := [
        small13_session_model_runs EXCEPT
          ![small13_session_model_t_768] =
            [ (small13_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ small13_session_model_scratch' := small13_session_model_scratch
    /\ small13_session_model_cache' := small13_session_model_cache
    /\ small13_session_model_last'
      := (IF small13_session_model_KIND = 11
        /\ (small13_session_model_r)["env"] = 0
      THEN [
        small13_session_model_last EXCEPT
          ![0] =
            [
              small13_session_model_last[0] EXCEPT
                !["out"] = (small13_session_model_r)["local"]
            ]
      ]
      ELSE small13_session_model_last)
    /\ small13_session_model_table'
      := (IF small13_session_model_KIND = 8 /\ small13_session_model_table = 1
      THEN 2
      ELSE small13_session_model_table)
    /\ small13_session_model_emit([kind |-> small13_session_model_RETURN,
      thread |-> small13_session_model_t_768,
      op |-> (small13_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (small13_session_model_r)["arg"] /= (small13_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (small13_session_model_r)["env"]
            /= small13_session_model_lib["threads"][small13_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (small13_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
small13_session_model_fresh(small13_session_model_op_831, small13_session_model_m_831) ==
  small13_session_model_runs' := small13_session_model_runs
    /\ small13_session_model_scratch' := small13_session_model_scratch
    /\ small13_session_model_cache' := small13_session_model_cache
    /\ small13_session_model_last' := small13_session_model_last
    /\ small13_session_model_table' := small13_session_model_table
    /\ small13_session_model_emit([kind |-> small13_session_model_FRESH,
      thread |-> 0,
      op |-> small13_session_model_op_831,
      env |-> small13_session_model_m_831,
      flags |-> 0,
      res |->
        small13_session_model_f(small13_session_model_op_831, small13_session_model_m_831)])

(*
  @type: (() => Bool);
*)
small13_session_model_step ==
  \E small13_session_model_t \in small13_session_model_THREADS:
    \E small13_session_model_o \in small13_session_model_OPS:
      \E small13_session_model_m \in 0 .. 1:
        small13_session_model_call(small13_session_model_t, small13_session_model_o)
          \/ small13_session_model_setenv(small13_session_model_t, small13_session_model_m)
          \/ small13_session_model_reduce(small13_session_model_t)
          \/ small13_session_model_compute(small13_session_model_t)
          \/ small13_session_model_return(small13_session_model_t)
          \/ small13_session_model_fresh(small13_session_model_o, small13_session_model_m)
          \/ small13_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == small13_session_model_step

================================================================================
