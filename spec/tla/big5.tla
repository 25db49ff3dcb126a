--------------------------------- MODULE big5 ---------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  big5_session_model_runs

(*
  @type: (() => Int);
*)
big5_session_model_NT == 3

VARIABLE
  (*
    @type: Int;
  *)
  big5_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  big5_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  big5_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  big5_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  big5_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
big5_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  big5_session_model_ev

(*
  @type: (() => Int);
*)
big5_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  big5_session_model_verdictNow

(*
  @type: (() => Int);
*)
big5_session_model_NO == 2

(*
  @type: (() => Int);
*)
big5_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
big5_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
big5_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
big5_session_model_OK == 0

(*
  @type: (() => Int);
*)
big5_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
big5_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
big5_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
big5_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
big5_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
big5_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
big5_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
big5_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
big5_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
big5_session_model_RACE == 7

(*
  @type: (() => Int);
*)
big5_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
big5_session_model_learn(big5_session_model_s_1213, big5_session_model_op_1213, big5_session_model_env_1213,
big5_session_model_res_1213) ==
  IF <<big5_session_model_op_1213, big5_session_model_env_1213>>
    \in DOMAIN (big5_session_model_s_1213["memo"])
  THEN big5_session_model_s_1213
  ELSE [
    big5_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == big5_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<big5_session_model_op_1213, big5_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<big5_session_model_op_1213, big5_session_model_env_1213>>
            THEN big5_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
big5_session_model_KIND == 5

(*
  @type: ((Int, Int) => Int);
*)
big5_session_model_f(big5_session_model_x_67, big5_session_model_env_67) ==
  (100 * big5_session_model_env_67 + 7 * big5_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
big5_session_model_THREADS == 0 .. big5_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
big5_session_model_NOEV ==
  [kind |-> big5_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
big5_session_model_OPS == 0 .. big5_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
big5_session_model_thread(big5_session_model_s_1130, big5_session_model_t_1130) ==
  IF big5_session_model_t_1130 \in DOMAIN (big5_session_model_s_1130["threads"])
  THEN big5_session_model_s_1130["threads"][big5_session_model_t_1130]
  ELSE big5_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
big5_session_model_returns(big5_session_model_s_1181, big5_session_model_op_1181,
big5_session_model_env_1181, big5_session_model_flags_1181, big5_session_model_res_1181) ==
  IF big5_session_model_flags_1181 >= 8
  THEN big5_session_model_R_STATUS
  ELSE IF big5_session_model_flags_1181 % 2 = 1
  THEN big5_session_model_R_ARG
  ELSE IF big5_session_model_flags_1181 > 0
  THEN big5_session_model_R_ENV
  ELSE IF <<big5_session_model_op_1181, big5_session_model_env_1181>>
      \in DOMAIN (big5_session_model_s_1181["memo"])
    /\ big5_session_model_s_1181["memo"][
      <<big5_session_model_op_1181, big5_session_model_env_1181>>
    ]
      /= big5_session_model_res_1181
  THEN big5_session_model_R_RESULT
  ELSE big5_session_model_OK

(*
  @type: ((Int) => Int);
*)
big5_session_model_key(big5_session_model_op_82) ==
  IF big5_session_model_KIND = 3
  THEN big5_session_model_op_82 % big5_session_model_NO \div 2
  ELSE big5_session_model_op_82

(*
  @type: (() => Bool);
*)
big5_session_model_refines ==
  big5_session_model_verdictNow = big5_session_model_OK

(*
  @type: (() => Bool);
*)
big5_session_model_init ==
  big5_session_model_runs
      = [
        big5_session_model_t_112 \in big5_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ big5_session_model_scratch = 0
    /\ big5_session_model_cache = SetAsFun({})
    /\ big5_session_model_last
      = [
        big5_session_model_t_130 \in big5_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ big5_session_model_table = 0
    /\ big5_session_model_lib = big5_session_model_START
    /\ big5_session_model_ev = big5_session_model_NOEV
    /\ big5_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
big5_session_model_verdict(big5_session_model_s_1360, big5_session_model_e_1360) ==
  IF big5_session_model_e_1360["kind"] = big5_session_model_CALL
  THEN IF (big5_session_model_thread(big5_session_model_s_1360, big5_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN big5_session_model_R_PROTOCOL
  ELSE big5_session_model_OK
  ELSE IF big5_session_model_e_1360["kind"] = big5_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  big5_session_model_t ==
    big5_session_model_thread(big5_session_model_s_1360, big5_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((big5_session_model_t)["busy"])
    \/ (big5_session_model_t)["op"] /= big5_session_model_e_1360["op"]
  THEN big5_session_model_R_PROTOCOL
  ELSE big5_session_model_returns(big5_session_model_s_1360, big5_session_model_e_1360[
    "op"
  ], (big5_session_model_t)["env"], big5_session_model_e_1360["flags"], big5_session_model_e_1360[
    "res"
  ])
  ELSE IF big5_session_model_e_1360["kind"] = big5_session_model_FRESH
    \/ big5_session_model_e_1360["kind"] = big5_session_model_OBSERVED
  THEN big5_session_model_returns(big5_session_model_s_1360, big5_session_model_e_1360[
    "op"
  ], big5_session_model_e_1360["env"], big5_session_model_e_1360["flags"], big5_session_model_e_1360[
    "res"
  ])
  ELSE IF big5_session_model_e_1360["kind"] = big5_session_model_ATOMIC
  THEN IF (big5_session_model_thread(big5_session_model_s_1360, big5_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN big5_session_model_R_PROTOCOL
  ELSE big5_session_model_returns(big5_session_model_s_1360, big5_session_model_e_1360[
    "op"
  ], (big5_session_model_thread(big5_session_model_s_1360, big5_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], big5_session_model_e_1360["flags"], big5_session_model_e_1360["res"])
  ELSE IF big5_session_model_e_1360["kind"] = big5_session_model_SETENV
  THEN IF (big5_session_model_thread(big5_session_model_s_1360, big5_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN big5_session_model_R_PROTOCOL
  ELSE big5_session_model_OK
  ELSE IF big5_session_model_e_1360["kind"] = big5_session_model_RACE
  THEN big5_session_model_R_RACE
  ELSE big5_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
big5_session_model_after(big5_session_model_s_1519, big5_session_model_e_1519) ==
  IF big5_session_model_e_1519["kind"] = big5_session_model_CALL
  THEN [
    big5_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == big5_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {big5_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = big5_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (big5_session_model_thread(big5_session_model_s_1519, big5_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = big5_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = big5_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF big5_session_model_e_1519["kind"] = big5_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  big5_session_model_t ==
    big5_session_model_thread(big5_session_model_s_1519, big5_session_model_e_1519[
      "thread"
    ])
  IN
  big5_session_model_learn([
    big5_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == big5_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {big5_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = big5_session_model_e_1519["thread"]
            THEN [ (big5_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], big5_session_model_e_1519["op"], (big5_session_model_t)["env"], big5_session_model_e_1519[
    "res"
  ])
  ELSE IF big5_session_model_e_1519["kind"] = big5_session_model_FRESH
    \/ big5_session_model_e_1519["kind"] = big5_session_model_OBSERVED
  THEN big5_session_model_learn(big5_session_model_s_1519, big5_session_model_e_1519[
    "op"
  ], big5_session_model_e_1519["env"], big5_session_model_e_1519["res"])
  ELSE IF big5_session_model_e_1519["kind"] = big5_session_model_ATOMIC
  THEN big5_session_model_learn(big5_session_model_s_1519, big5_session_model_e_1519[
    "op"
  ], (big5_session_model_thread(big5_session_model_s_1519, big5_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], big5_session_model_e_1519["res"])
  ELSE IF big5_session_model_e_1519["kind"] = big5_session_model_SETENV
  THEN [
    big5_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == big5_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {big5_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = big5_session_model_e_1519["thread"]
            THEN [
              (big5_session_model_thread(big5_session_model_s_1519, big5_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = big5_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF big5_session_model_e_1519["kind"] = big5_session_model_NEWPROC
  THEN [ big5_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE big5_session_model_s_1519

(*
  @type: (() => Bool);
*)
big5_session_model_silent ==
  big5_session_model_ev' := (big5_session_model_NOEV)
    /\ big5_session_model_verdictNow' := 0
    /\ big5_session_model_lib' := big5_session_model_lib

(*
  @type: (() => Bool);
*)
big5_session_model_consistent ==
  \A big5_session_model_t_884 \in big5_session_model_THREADS:
    (big5_session_model_runs[big5_session_model_t_884]["pc"] > 0)
      = (big5_session_model_thread(big5_session_model_lib, big5_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == big5_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
big5_session_model_emit(big5_session_model_e_165) ==
  big5_session_model_ev' := big5_session_model_e_165
    /\ big5_session_model_verdictNow'
      := (big5_session_model_verdict(big5_session_model_lib, big5_session_model_e_165))
    /\ big5_session_model_lib'
      := (big5_session_model_after(big5_session_model_lib, big5_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
big5_session_model_reduce(big5_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  big5_session_model_r == big5_session_model_runs[big5_session_model_t_383]
  IN
  (big5_session_model_r)["pc"] = 1
    /\ big5_session_model_runs'
      := [
        big5_session_model_runs EXCEPT
          ![big5_session_model_t_383] =
            [
              [
                [
                  [ (big5_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (big5_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF big5_session_model_KIND = 1
                    THEN (big5_session_model_r)["arg"] + 1
                    ELSE (big5_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF big5_session_model_KIND = 4
                    /\ (big5_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF big5_session_model_KIND = 6
                  THEN 0
                  ELSE (big5_session_model_r)["env"]
            ]
      ]
    /\ big5_session_model_scratch'
      := (IF big5_session_model_KIND = 2
      THEN (big5_session_model_r)["arg"]
      ELSE big5_session_model_scratch)
    /\ big5_session_model_cache'
      := (IF big5_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == big5_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in {(big5_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = big5_session_model_t_383 % 2
          THEN (big5_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE big5_session_model_cache)
    /\ big5_session_model_last' := big5_session_model_last
    /\ big5_session_model_table' := big5_session_model_table
    /\ big5_session_model_silent

(*
  @type: ((Int) => Bool);
*)
big5_session_model_compute(big5_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  big5_session_model_r == big5_session_model_runs[big5_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  big5_session_model_x ==
    IF big5_session_model_KIND = 2
    THEN big5_session_model_scratch
    ELSE IF big5_session_model_KIND = 13
    THEN big5_session_model_cache[(big5_session_model_t_659 % 2)]
    ELSE (big5_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  big5_session_model_k == big5_session_model_key((big5_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  big5_session_model_shared ==
    (big5_session_model_KIND = 3 \/ big5_session_model_KIND = 5)
      \/ big5_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  big5_session_model_hit ==
    (big5_session_model_shared
        /\ big5_session_model_k \in DOMAIN big5_session_model_cache)
      /\ (big5_session_model_KIND = 9 \/ (big5_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  big5_session_model_slot ==
    big5_session_model_last[
      (IF big5_session_model_KIND = 7 THEN big5_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  big5_session_model_again ==
    ((big5_session_model_KIND = 7
          /\ (big5_session_model_slot)["tag"]
            = (big5_session_model_r)["op"] % big5_session_model_NO \div 2)
        /\ (big5_session_model_r)["env"] = 0)
      \/ ((big5_session_model_KIND = 11
          /\ (big5_session_model_slot)["tag"] = (big5_session_model_r)["op"])
        /\ (big5_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  big5_session_model_true_ ==
    big5_session_model_f((big5_session_model_x), (IF big5_session_model_KIND = 4
      \/ big5_session_model_KIND = 6
    THEN big5_session_model_lib["threads"][big5_session_model_t_659]["env"]
    ELSE (big5_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  big5_session_model_y ==
    IF big5_session_model_hit
    THEN big5_session_model_cache[(big5_session_model_k)]
    ELSE IF big5_session_model_again
    THEN (big5_session_model_slot)["out"]
    ELSE IF (big5_session_model_KIND = 8 /\ big5_session_model_table = 1)
      \/ (big5_session_model_KIND = 12 /\ big5_session_model_table = 0)
    THEN 0
    ELSE big5_session_model_true_
  IN
  (big5_session_model_r)["pc"] = 2
    /\ big5_session_model_runs'
      := [
        big5_session_model_runs EXCEPT
          ![big5_session_model_t_659] =
            [
              [ (big5_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = big5_session_model_y
            ]
      ]
    /\ big5_session_model_scratch' := big5_session_model_scratch
    /\ big5_session_model_cache'
      := (IF (big5_session_model_shared
          /\ (big5_session_model_KIND = 9 \/ (big5_session_model_r)["env"] = 0))
        /\ ~big5_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == big5_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(big5_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = big5_session_model_k
          THEN big5_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE big5_session_model_cache)
    /\ big5_session_model_last'
      := (IF big5_session_model_KIND = 7 /\ (big5_session_model_r)["env"] = 0
      THEN [
        big5_session_model_last EXCEPT
          ![big5_session_model_t_659] =
            [tag |-> (big5_session_model_r)["op"] % big5_session_model_NO \div 2,
              out |-> big5_session_model_y]
      ]
      ELSE IF big5_session_model_KIND = 11 /\ (big5_session_model_r)["env"] = 0
      THEN [
        big5_session_model_last EXCEPT
          ![0] =
            [
              (big5_session_model_slot) EXCEPT
                !["tag"] = (big5_session_model_r)["op"]
            ]
      ]
      ELSE big5_session_model_last)
    /\ big5_session_model_table'
      := (IF big5_session_model_KIND = 10
      THEN 2
      ELSE IF big5_session_model_KIND = 8 /\ big5_session_model_table = 0
      THEN 1
      ELSE big5_session_model_table)
    /\ big5_session_model_silent

(*
  @type: (() => Bool);
*)
big5_session_model_startup ==
  big5_session_model_KIND = 12
    /\ big5_session_model_table = 0
    /\ big5_session_model_runs' := big5_session_model_runs
    /\ big5_session_model_scratch' := big5_session_model_scratch
    /\ big5_session_model_cache' := big5_session_model_cache
    /\ big5_session_model_last' := big5_session_model_last
    /\ big5_session_model_table' := 2
    /\ big5_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (big5_session_model_refines /\ big5_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
big5_session_model_call(big5_session_model_t_234, big5_session_model_op_234) ==
  big5_session_model_runs[big5_session_model_t_234]["pc"] = 0
    /\ big5_session_model_runs'
      := [
        big5_session_model_runs EXCEPT
          ![big5_session_model_t_234] =
            [
              [
                [
                  big5_session_model_runs[big5_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = big5_session_model_op_234
              ] EXCEPT
                !["arg"] = big5_session_model_op_234
            ]
      ]
    /\ big5_session_model_scratch' := big5_session_model_scratch
    /\ big5_session_model_cache' := big5_session_model_cache
    /\ big5_session_model_last' := big5_session_model_last
    /\ big5_session_model_table' := big5_session_model_table
    /\ big5_session_model_emit([kind |-> big5_session_model_CALL,
      thread |-> big5_session_model_t_234,
      op |-> big5_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
big5_session_model_setenv(big5_session_model_t_286, big5_session_model_m_286) ==
  big5_session_model_runs[big5_session_model_t_286]["pc"] = 0
    /\ big5_session_model_runs'
      := [
        big5_session_model_runs EXCEPT
          ![big5_session_model_t_286] =
            [
              big5_session_model_runs[big5_session_model_t_286] EXCEPT
                !["env"] = big5_session_model_m_286
            ]
      ]
    /\ big5_session_model_scratch' := big5_session_model_scratch
    /\ big5_session_model_cache' := big5_session_model_cache
    /\ big5_session_model_last' := big5_session_model_last
    /\ big5_session_model_table' := big5_session_model_table
    /\ big5_session_model_emit([kind |-> big5_session_model_SETENV,
      thread |-> big5_session_model_t_286,
      op |-> 0,
      env |-> big5_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
big5_session_model_return(big5_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  big5_session_model_r == big5_session_model_runs[big5_session_model_t_768]
  IN
  (big5_session_model_r)["pc"] = 3
    /\ big5_session_model_runs'
      := [
        big5_session_model_runs EXCEPT
          ![big5_session_model_t_768] =
            [ (big5_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ big5_session_model_scratch' := big5_session_model_scratch
    /\ big5_session_model_cache' := big5_session_model_cache
    /\ big5_session_model_last'
      := (IF big5_session_model_KIND = 11 /\ (big5_session_model_r)["env"] = 0
      THEN [
        big5_session_model_last EXCEPT
          ![0] =
            [
              big5_session_model_last[0] EXCEPT
                !["out"] = (big5_session_model_r)["local"]
            ]
      ]
      ELSE big5_session_model_last)
    /\ big5_session_model_table'
      := (IF big5_session_model_KIND = 8 /\ big5_session_model_table = 1
      THEN 2
      ELSE big5_session_model_table)
    /\ big5_session_model_emit([kind |-> big5_session_model_RETURN,
      thread |-> big5_session_model_t_768,
      op |-> (big5_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (big5_session_model_r)["arg"] /= (big5_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (big5_session_model_r)["env"]
            /= big5_session_model_lib["threads"][big5_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (big5_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
big5_session_model_fresh(big5_session_model_op_831, big5_session_model_m_831) ==
  big5_session_model_runs' := big5_session_model_runs
    /\ big5_session_model_scratch' := big5_session_model_scratch
    /\ big5_session_model_cache' := big5_session_model_cache
    /\ big5_session_model_last' := big5_session_model_last
    /\ big5_session_model_table' := big5_session_model_table
    /\ big5_session_model_emit([kind |-> big5_session_model_FRESH,
      thread |-> 0,
      op |-> big5_session_model_op_831,
      env |-> big5_session_model_m_831,
      flags |-> 0,
      res |->
        big5_session_model_f(big5_session_model_op_831, big5_session_model_m_831)])

(*
  @type: (() => Bool);
*)
big5_session_model_step ==
  \E big5_session_model_t \in big5_session_model_THREADS:
    \E big5_session_model_o \in big5_session_model_OPS:
      \E big5_session_model_m \in 0 .. 1:
        big5_session_model_call(big5_session_model_t, big5_session_model_o)
          \/ big5_session_model_setenv(big5_session_model_t, big5_session_model_m)
          \/ big5_session_model_reduce(big5_session_model_t)
          \/ big5_session_model_compute(big5_session_model_t)
          \/ big5_session_model_return(big5_session_model_t)
          \/ big5_session_model_fresh(big5_session_model_o, big5_session_model_m)
          \/ big5_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == big5_session_model_step

================================================================================
