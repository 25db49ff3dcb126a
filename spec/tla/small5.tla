-------------------------------- MODULE small5 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small5_session_model_runs

(*
  @type: (() => Int);
*)
small5_session_model_NT == 2

VARIABLE
  (*
    @type: Int;
  *)
  small5_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  small5_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  small5_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  small5_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  small5_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
small5_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  small5_session_model_ev

(*
  @type: (() => Int);
*)
small5_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  small5_session_model_verdictNow

(*
  @type: (() => Int);
*)
small5_session_model_NO == 2

(*
  @type: (() => Int);
*)
small5_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
small5_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
small5_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
small5_session_model_OK == 0

(*
  @type: (() => Int);
*)
small5_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
small5_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
small5_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
small5_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
small5_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
small5_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
small5_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
small5_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
small5_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
small5_session_model_RACE == 7

(*
  @type: (() => Int);
*)
small5_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
small5_session_model_learn(small5_session_model_s_1213, small5_session_model_op_1213,
small5_session_model_env_1213, small5_session_model_res_1213) ==
  IF <<small5_session_model_op_1213, small5_session_model_env_1213>>
    \in DOMAIN (small5_session_model_s_1213["memo"])
  THEN small5_session_model_s_1213
  ELSE [
    small5_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == small5_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<small5_session_model_op_1213, small5_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<small5_session_model_op_1213, small5_session_model_env_1213>>
            THEN small5_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
small5_session_model_KIND == 5

(*
  @type: ((Int, Int) => Int);
*)
small5_session_model_f(small5_session_model_x_67, small5_session_model_env_67) ==
  (100 * small5_session_model_env_67 + 7 * small5_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
small5_session_model_THREADS == 0 .. small5_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
small5_session_model_NOEV ==
  [kind |-> small5_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
small5_session_model_OPS == 0 .. small5_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
small5_session_model_thread(small5_session_model_s_1130, small5_session_model_t_1130) ==
  IF small5_session_model_t_1130
    \in DOMAIN (small5_session_model_s_1130["threads"])
  THEN small5_session_model_s_1130["threads"][small5_session_model_t_1130]
  ELSE small5_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
small5_session_model_returns(small5_session_model_s_1181, small5_session_model_op_1181,
small5_session_model_env_1181, small5_session_model_flags_1181, small5_session_model_res_1181) ==
  IF small5_session_model_flags_1181 >= 8
  THEN small5_session_model_R_STATUS
  ELSE IF small5_session_model_flags_1181 % 2 = 1
  THEN small5_session_model_R_ARG
  ELSE IF small5_session_model_flags_1181 > 0
  THEN small5_session_model_R_ENV
  ELSE IF <<small5_session_model_op_1181, small5_session_model_env_1181>>
      \in DOMAIN (small5_session_model_s_1181["memo"])
    /\ small5_session_model_s_1181["memo"][
      <<small5_session_model_op_1181, small5_session_model_env_1181>>
    ]
      /= small5_session_model_res_1181
  THEN small5_session_model_R_RESULT
  ELSE small5_session_model_OK

(*
  @type: ((Int) => Int);
*)
small5_session_model_key(small5_session_model_op_82) ==
  IF small5_session_model_KIND = 3
  THEN small5_session_model_op_82 % small5_session_model_NO \div 2
  ELSE small5_session_model_op_82

(*
  @type: (() => Bool);
*)
small5_session_model_refines ==
  small5_session_model_verdictNow = small5_session_model_OK

(*
  @type: (() => Bool);
*)
small5_session_model_init ==
  small5_session_model_runs
      = [
        small5_session_model_t_112 \in small5_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ small5_session_model_scratch = 0
    /\ small5_session_model_cache = SetAsFun({})
    /\ small5_session_model_last
      = [
        small5_session_model_t_130 \in small5_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ small5_session_model_table = 0
    /\ small5_session_model_lib = small5_session_model_START
    /\ small5_session_model_ev = small5_session_model_NOEV
    /\ small5_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
small5_session_model_verdict(small5_session_model_s_1360, small5_session_model_e_1360) ==
  IF small5_session_model_e_1360["kind"] = small5_session_model_CALL
  THEN IF (small5_session_model_thread(small5_session_model_s_1360, small5_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN small5_session_model_R_PROTOCOL
  ELSE small5_session_model_OK
  ELSE IF small5_session_model_e_1360["kind"] = small5_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  small5_session_model_t ==
    small5_session_model_thread(small5_session_model_s_1360, small5_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((small5_session_model_t)["busy"])
    \/ (small5_session_model_t)["op"] /= small5_session_model_e_1360["op"]
  THEN small5_session_model_R_PROTOCOL
  ELSE small5_session_model_returns(small5_session_model_s_1360, small5_session_model_e_1360[
    "op"
  ], (small5_session_model_t)["env"], small5_session_model_e_1360["flags"], small5_session_model_e_1360[
    "res"
  ])
  ELSE IF small5_session_model_e_1360["kind"] = small5_session_model_FRESH
    \/ small5_session_model_e_1360["kind"] = small5_session_model_OBSERVED
  THEN small5_session_model_returns(small5_session_model_s_1360, small5_session_model_e_1360[
    "op"
  ], small5_session_model_e_1360["env"], small5_session_model_e_1360["flags"], small5_session_model_e_1360[
    "res"
  ])
  ELSE IF small5_session_model_e_1360["kind"] = small5_session_model_ATOMIC
  THEN IF (small5_session_model_thread(small5_session_model_s_1360, small5_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN small5_session_model_R_PROTOCOL
  ELSE small5_session_model_returns(small5_session_model_s_1360, small5_session_model_e_1360[
    "op"
  ], (small5_session_model_thread(small5_session_model_s_1360, small5_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], small5_session_model_e_1360["flags"], small5_session_model_e_1360["res"])
  ELSE IF small5_session_model_e_1360["kind"] = small5_session_model_SETENV
  THEN IF (small5_session_model_thread(small5_session_model_s_1360, small5_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN small5_session_model_R_PROTOCOL
  ELSE small5_session_model_OK
  ELSE IF small5_session_model_e_1360["kind"] = small5_session_model_RACE
  THEN small5_session_model_R_RACE
  ELSE small5_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
small5_session_model_after(small5_session_model_s_1519, small5_session_model_e_1519) ==
  IF small5_session_model_e_1519["kind"] = small5_session_model_CALL
  THEN [
    small5_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == small5_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {small5_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = small5_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (small5_session_model_thread(small5_session_model_s_1519, small5_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = small5_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = small5_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF small5_session_model_e_1519["kind"] = small5_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  small5_session_model_t ==
    small5_session_model_thread(small5_session_model_s_1519, small5_session_model_e_1519[
      "thread"
    ])
  IN
  small5_session_model_learn([
    small5_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == small5_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {small5_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = small5_session_model_e_1519["thread"]
            THEN [ (small5_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], small5_session_model_e_1519["op"], (small5_session_model_t)["env"], small5_session_model_e_1519[
    "res"
  ])
  ELSE IF small5_session_model_e_1519["kind"] = small5_session_model_FRESH
    \/ small5_session_model_e_1519["kind"] = small5_session_model_OBSERVED
  THEN small5_session_model_learn(small5_session_model_s_1519, small5_session_model_e_1519[
    "op"
  ], small5_session_model_e_1519["env"], small5_session_model_e_1519["res"])
  ELSE IF small5_session_model_e_1519["kind"] = small5_session_model_ATOMIC
  THEN small5_session_model_learn(small5_session_model_s_1519, small5_session_model_e_1519[
    "op"
  ], (small5_session_model_thread(small5_session_model_s_1519, small5_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], small5_session_model_e_1519["res"])
  ELSE IF small5_session_model_e_1519["kind"] = small5_session_model_SETENV
  THEN [
    small5_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == small5_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {small5_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = small5_session_model_e_1519["thread"]
            THEN [
              (small5_session_model_thread(small5_session_model_s_1519, small5_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = small5_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF small5_session_model_e_1519["kind"] = small5_session_model_NEWPROC
  THEN [ small5_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE small5_session_model_s_1519

(*
  @type: (() => Bool);
*)
small5_session_model_silent ==
  small5_session_model_ev' := (small5_session_model_NOEV)
    /\ small5_session_model_verdictNow' := 0
    /\ small5_session_model_lib' := small5_session_model_lib

(*
  @type: (() => Bool);
*)
small5_session_model_consistent ==
  \A small5_session_model_t_884 \in small5_session_model_THREADS:
    (small5_session_model_runs[small5_session_model_t_884]["pc"] > 0)
      = (small5_session_model_thread(small5_session_model_lib, small5_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == small5_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
small5_session_model_emit(small5_session_model_e_165) ==
  small5_session_model_ev' := small5_session_model_e_165
    /\ small5_session_model_verdictNow'
      := (small5_session_model_verdict(small5_session_model_lib, small5_session_model_e_165))
    /\ small5_session_model_lib'
      := (small5_session_model_after(small5_session_model_lib, small5_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
small5_session_model_reduce(small5_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small5_session_model_r ==
    small5_session_model_runs[small5_session_model_t_383]
  IN
  (small5_session_model_r)["pc"] = 1
    /\ small5_session_model_runs'
      := [
        small5_session_model_runs EXCEPT
          ![small5_session_model_t_383] =
            [
              [
                [
                  [ (small5_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (small5_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF small5_session_model_KIND = 1
                    THEN (small5_session_model_r)["arg"] + 1
                    ELSE (small5_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF small5_session_model_KIND = 4
                    /\ (small5_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF small5_session_model_KIND = 6
                  THEN 0
                  ELSE (small5_session_model_r)["env"]
            ]
      ]
    /\ small5_session_model_scratch'
      := (IF small5_session_model_KIND = 2
      THEN (small5_session_model_r)["arg"]
      ELSE small5_session_model_scratch)
    /\ small5_session_model_cache'
      := (IF small5_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == small5_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(small5_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = small5_session_model_t_383 % 2
          THEN (small5_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE small5_session_model_cache)
    /\ small5_session_model_last' := small5_session_model_last
    /\ small5_session_model_table' := small5_session_model_table
    /\ small5_session_model_silent

(*
  @type: ((Int) => Bool);
*)
small5_session_model_compute(small5_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small5_session_model_r ==
    small5_session_model_runs[small5_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  small5_session_model_x ==
    IF small5_session_model_KIND = 2
    THEN small5_session_model_scratch
    ELSE IF small5_session_model_KIND = 13
    THEN small5_session_model_cache[(small5_session_model_t_659 % 2)]
    ELSE (small5_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  small5_session_model_k ==
    small5_session_model_key((small5_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  small5_session_model_shared ==
    (small5_session_model_KIND = 3 \/ small5_session_model_KIND = 5)
      \/ small5_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  small5_session_model_hit ==
    (small5_session_model_shared
        /\ small5_session_model_k \in DOMAIN small5_session_model_cache)
      /\ (small5_session_model_KIND = 9 \/ (small5_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  small5_session_model_slot ==
    small5_session_model_last[
      (IF small5_session_model_KIND = 7 THEN small5_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  small5_session_model_again ==
    ((small5_session_model_KIND = 7
          /\ (small5_session_model_slot)["tag"]
            = (small5_session_model_r)["op"] % small5_session_model_NO \div 2)
        /\ (small5_session_model_r)["env"] = 0)
      \/ ((small5_session_model_KIND = 11
          /\ (small5_session_model_slot)["tag"] = (small5_session_model_r)["op"])
        /\ (small5_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  small5_session_model_true_ ==
    small5_session_model_f((small5_session_model_x), (IF small5_session_model_KIND
        = 4
      \/ small5_session_model_KIND = 6
    THEN small5_session_model_lib["threads"][small5_session_model_t_659]["env"]
    ELSE (small5_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  small5_session_model_y ==
    IF small5_session_model_hit
    THEN small5_session_model_cache[(small5_session_model_k)]
    ELSE IF small5_session_model_again
    THEN (small5_session_model_slot)["out"]
    ELSE IF (small5_session_model_KIND = 8 /\ small5_session_model_table = 1)
      \/ (small5_session_model_KIND = 12 /\ small5_session_model_table = 0)
    THEN 0
    ELSE small5_session_model_true_
  IN
  (small5_session_model_r)["pc"] = 2
    /\ small5_session_model_runs'
      := [
        small5_session_model_runs EXCEPT
          ![small5_session_model_t_659] =
            [
              [ (small5_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = small5_session_model_y
            ]
      ]
    /\ small5_session_model_scratch' := small5_session_model_scratch
    /\ small5_session_model_cache'
      := (IF (small5_session_model_shared
          /\ (small5_session_model_KIND = 9
            \/ (small5_session_model_r)["env"] = 0))
        /\ ~small5_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == small5_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(small5_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = small5_session_model_k
          THEN small5_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE small5_session_model_cache)
    /\ small5_session_model_last'
      := (IF small5_session_model_KIND = 7
        /\ (small5_session_model_r)["env"] = 0
      THEN [
        small5_session_model_last EXCEPT
          ![small5_session_model_t_659] =
            [tag |->
                (small5_session_model_r)["op"] % small5_session_model_NO \div 2,
              out |-> small5_session_model_y]
      ]
      ELSE IF small5_session_model_KIND = 11
        /\ (small5_session_model_r)["env"] = 0
      THEN [
        small5_session_model_last EXCEPT
          ![0] =
            [
              (small5_session_model_slot) EXCEPT
                !["tag"] = (small5_session_model_r)["op"]
            ]
      ]
      ELSE small5_session_model_last)
    /\ small5_session_model_table'
      := (IF small5_session_model_KIND = 10
      THEN 2
      ELSE IF small5_session_model_KIND = 8 /\ small5_session_model_table = 0
      THEN 1
      ELSE small5_session_model_table)
    /\ small5_session_model_silent

(*
  @type: (() => Bool);
*)
small5_session_model_startup ==
  small5_session_model_KIND = 12
    /\ small5_session_model_table = 0
    /\ small5_session_model_runs' := small5_session_model_runs
    /\ small5_session_model_scratch' := small5_session_model_scratch
    /\ small5_session_model_cache' := small5_session_model_cache
    /\ small5_session_model_last' := small5_session_model_last
    /\ small5_session_model_table' := 2
    /\ small5_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (small5_session_model_refines /\ small5_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
small5_session_model_call(small5_session_model_t_234, small5_session_model_op_234) ==
  small5_session_model_runs[small5_session_model_t_234]["pc"] = 0
    /\ small5_session_model_runs'
      := [
        small5_session_model_runs EXCEPT
          ![small5_session_model_t_234] =
            [
              [
                [
                  small5_session_model_runs[small5_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = small5_session_model_op_234
              ] EXCEPT
                !["arg"] = small5_session_model_op_234
            ]
      ]
    /\ small5_session_model_scratch' := small5_session_model_scratch
    /\ small5_session_model_cache' := small5_session_model_cache
    /\ small5_session_model_last' := small5_session_model_last
    /\ small5_session_model_table' := small5_session_model_table
    /\ small5_session_model_emit([kind |-> small5_session_model_CALL,
      thread |-> small5_session_model_t_234,
      op |-> small5_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
small5_session_model_setenv(small5_session_model_t_286, small5_session_model_m_286) ==
  small5_session_model_runs[small5_session_model_t_286]["pc"] = 0
    /\ small5_session_model_runs'
      := [
        small5_session_model_runs EXCEPT
          ![small5_session_model_t_286] =
            [
              small5_session_model_runs[small5_session_model_t_286] EXCEPT
                !["env"] = small5_session_model_m_286
            ]
      ]
    /\ small5_session_model_scratch' := small5_session_model_scratch
    /\ small5_session_model_cache' := small5_session_model_cache
    /\ small5_session_model_last' := small5_session_model_last
    /\ small5_session_model_table' := small5_session_model_table
    /\ small5_session_model_emit([kind |-> small5_session_model_SETENV,
      thread |-> small5_session_model_t_286,
      op |-> 0,
      env |-> small5_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
small5_session_model_return(small5_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  small5_session_model_r ==
    small5_session_model_runs[small5_session_model_t_768]
  IN
  (small5_session_model_r)["pc"] = 3
    /\ small5_session_model_runs'
      := [
        small5_session_model_runs EXCEPT
          ![small5_session_model_t_768] =
            [ (small5_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ small5_session_model_scratch' := small5_session_model_scratch
    /\ small5_session_model_cache' := small5_session_model_cache
    /\ small5_session_model_last'
      := (IF small5_session_model_KIND = 11
        /\ (small5_session_model_r)["env"] = 0
      THEN [
        small5_session_model_last EXCEPT
          ![0] =
            [
              small5_session_model_last[0] EXCEPT
                !["out"] = (small5_session_model_r)["local"]
            ]
      ]
      ELSE small5_session_model_last)
    /\ small5_session_model_table'
      := (IF small5_session_model_KIND = 8 /\ small5_session_model_table = 1
      THEN 2
      ELSE small5_session_model_table)
    /\ small5_session_model_emit([kind |-> small5_session_model_RETURN,
      thread |-> small5_session_model_t_768,
      op |-> (small5_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (small5_session_model_r)["arg"] /= (small5_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (small5_session_model_r)["env"]
            /= small5_session_model_lib["threads"][small5_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (small5_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
small5_session_model_fresh(small5_session_model_op_831, small5_session_model_m_831) ==
  small5_session_model_runs' := small5_session_model_runs
    /\ small5_session_model_scratch' := small5_session_model_scratch
    /\ small5_session_model_cache' := small5_session_model_cache
    /\ small5_session_model_last' := small5_session_model_last
    /\ small5_session_model_table' := small5_session_model_table
    /\ small5_session_model_emit([kind |-> small5_session_model_FRESH,
      thread |-> 0,
      op |-> small5_session_model_op_831,
      env |-> small5_session_model_m_831,
      flags |-> 0,
      res |->
        small5_session_model_f(small5_session_model_op_831, small5_session_model_m_831)])

(*
  @type: (() => Bool);
*)
small5_session_model_step ==
  \E small5_session_model_t \in small5_session_model_THREADS:
    \E small5_session_model_o \in small5_session_model_OPS:
      \E small5_session_model_m \in 0 .. 1:
        small5_session_model_call(small5_session_model_t, small5_session_model_o)
          \/ small5_session_model_setenv(small5_session_model_t, small5_session_model_m)
          \/ small5_session_model_reduce(small5_session_model_t)
          \/ small5_session_model_compute(small5_session_model_t)
          \/ small5_session_model_return(small5_session_model_t)
          \/ small5_session_model_fresh(small5_session_model_o, small5_session_model_m)
          \/ small5_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == small5_session_model_step

================================================================================
