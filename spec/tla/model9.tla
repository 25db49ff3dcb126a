-------------------------------- MODULE model9 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model9_session_model_runs

(*
  @type: (() => Int);
*)
model9_session_model_NT == 2

VARIABLE
  (*
    @type: Int;
  *)
  model9_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  model9_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  model9_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  model9_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  model9_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model9_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  model9_session_model_ev

(*
  @type: (() => Int);
*)
model9_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  model9_session_model_verdictNow

(*
  @type: (() => Int);
*)
model9_session_model_NO == 2

(*
  @type: (() => Int);
*)
model9_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model9_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
model9_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
model9_session_model_OK == 0

(*
  @type: (() => Int);
*)
model9_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
model9_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
model9_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
model9_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
model9_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
model9_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
model9_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
model9_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
model9_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
model9_session_model_RACE == 7

(*
  @type: (() => Int);
*)
model9_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model9_session_model_learn(model9_session_model_s_1213, model9_session_model_op_1213,
model9_session_model_env_1213, model9_session_model_res_1213) ==
  IF <<model9_session_model_op_1213, model9_session_model_env_1213>>
    \in DOMAIN (model9_session_model_s_1213["memo"])
  THEN model9_session_model_s_1213
  ELSE [
    model9_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == model9_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<model9_session_model_op_1213, model9_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<model9_session_model_op_1213, model9_session_model_env_1213>>
            THEN model9_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
model9_session_model_KIND == 9

(*
  @type: ((Int, Int) => Int);
*)
model9_session_model_f(model9_session_model_x_67, model9_session_model_env_67) ==
  (100 * model9_session_model_env_67 + 7 * model9_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
model9_session_model_THREADS == 0 .. model9_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
model9_session_model_NOEV ==
  [kind |-> model9_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
model9_session_model_OPS == 0 .. model9_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model9_session_model_thread(model9_session_model_s_1130, model9_session_model_t_1130) ==
  IF model9_session_model_t_1130
    \in DOMAIN (model9_session_model_s_1130["threads"])
  THEN model9_session_model_s_1130["threads"][model9_session_model_t_1130]
  ELSE model9_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
model9_session_model_returns(model9_session_model_s_1181, model9_session_model_op_1181,
model9_session_model_env_1181, model9_session_model_flags_1181, model9_session_model_res_1181) ==
  IF model9_session_model_flags_1181 >= 8
  THEN model9_session_model_R_STATUS
  ELSE IF model9_session_model_flags_1181 % 2 = 1
  THEN model9_session_model_R_ARG
  ELSE IF model9_session_model_flags_1181 > 0
  THEN model9_session_model_R_ENV
  ELSE IF <<model9_session_model_op_1181, model9_session_model_env_1181>>
      \in DOMAIN (model9_session_model_s_1181["memo"])
    /\ model9_session_model_s_1181["memo"][
      <<model9_session_model_op_1181, model9_session_model_env_1181>>
    ]
      /= model9_session_model_res_1181
  THEN model9_session_model_R_RESULT
  ELSE model9_session_model_OK

(*
  @type: ((Int) => Int);
*)
model9_session_model_key(model9_session_model_op_82) ==
  IF model9_session_model_KIND = 3
  THEN model9_session_model_op_82 % model9_session_model_NO \div 2
  ELSE model9_session_model_op_82

(*
  @type: (() => Bool);
*)
model9_session_model_refines ==
  model9_session_model_verdictNow = model9_session_model_OK

(*
  @type: (() => Bool);
*)
model9_session_model_init ==
  model9_session_model_runs
      = [
        model9_session_model_t_112 \in model9_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ model9_session_model_scratch = 0
    /\ model9_session_model_cache = SetAsFun({})
    /\ model9_session_model_last
      = [
        model9_session_model_t_130 \in model9_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ model9_session_model_table = 0
    /\ model9_session_model_lib = model9_session_model_START
    /\ model9_session_model_ev = model9_session_model_NOEV
    /\ model9_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
model9_session_model_verdict(model9_session_model_s_1360, model9_session_model_e_1360) ==
  IF model9_session_model_e_1360["kind"] = model9_session_model_CALL
  THEN IF (model9_session_model_thread(model9_session_model_s_1360, model9_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model9_session_model_R_PROTOCOL
  ELSE model9_session_model_OK
  ELSE IF model9_session_model_e_1360["kind"] = model9_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model9_session_model_t ==
    model9_session_model_thread(model9_session_model_s_1360, model9_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((model9_session_model_t)["busy"])
    \/ (model9_session_model_t)["op"] /= model9_session_model_e_1360["op"]
  THEN model9_session_model_R_PROTOCOL
  ELSE model9_session_model_returns(model9_session_model_s_1360, model9_session_model_e_1360[
    "op"
  ], (model9_session_model_t)["env"], model9_session_model_e_1360["flags"], model9_session_model_e_1360[
    "res"
  ])
  ELSE IF model9_session_model_e_1360["kind"] = model9_session_model_FRESH
    \/ model9_session_model_e_1360["kind"] = model9_session_model_OBSERVED
  THEN model9_session_model_returns(model9_session_model_s_1360, model9_session_model_e_1360[
    "op"
  ], model9_session_model_e_1360["env"], model9_session_model_e_1360["flags"], model9_session_model_e_1360[
    "res"
  ])
  ELSE IF model9_session_model_e_1360["kind"] = model9_session_model_ATOMIC
  THEN IF (model9_session_model_thread(model9_session_model_s_1360, model9_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model9_session_model_R_PROTOCOL
  ELSE model9_session_model_returns(model9_session_model_s_1360, model9_session_model_e_1360[
    "op"
  ], (model9_session_model_thread(model9_session_model_s_1360, model9_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], model9_session_model_e_1360["flags"], model9_session_model_e_1360["res"])
  ELSE IF model9_session_model_e_1360["kind"] = model9_session_model_SETENV
  THEN IF (model9_session_model_thread(model9_session_model_s_1360, model9_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model9_session_model_R_PROTOCOL
  ELSE model9_session_model_OK
  ELSE IF model9_session_model_e_1360["kind"] = model9_session_model_RACE
  THEN model9_session_model_R_RACE
  ELSE model9_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model9_session_model_after(model9_session_model_s_1519, model9_session_model_e_1519) ==
  IF model9_session_model_e_1519["kind"] = model9_session_model_CALL
  THEN [
    model9_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == model9_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {model9_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = model9_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (model9_session_model_thread(model9_session_model_s_1519, model9_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = model9_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = model9_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF model9_session_model_e_1519["kind"] = model9_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model9_session_model_t ==
    model9_session_model_thread(model9_session_model_s_1519, model9_session_model_e_1519[
      "thread"
    ])
  IN
  model9_session_model_learn([
    model9_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == model9_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {model9_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = model9_session_model_e_1519["thread"]
            THEN [ (model9_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], model9_session_model_e_1519["op"], (model9_session_model_t)["env"], model9_session_model_e_1519[
    "res"
  ])
  ELSE IF model9_session_model_e_1519["kind"] = model9_session_model_FRESH
    \/ model9_session_model_e_1519["kind"] = model9_session_model_OBSERVED
  THEN model9_session_model_learn(model9_session_model_s_1519, model9_session_model_e_1519[
    "op"
  ], model9_session_model_e_1519["env"], model9_session_model_e_1519["res"])
  ELSE IF model9_session_model_e_1519["kind"] = model9_session_model_ATOMIC
  THEN model9_session_model_learn(model9_session_model_s_1519, model9_session_model_e_1519[
    "op"
  ], (model9_session_model_thread(model9_session_model_s_1519, model9_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], model9_session_model_e_1519["res"])
  ELSE IF model9_session_model_e_1519["kind"] = model9_session_model_SETENV
  THEN [
    model9_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == model9_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {model9_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = model9_session_model_e_1519["thread"]
            THEN [
              (model9_session_model_thread(model9_session_model_s_1519, model9_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = model9_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF model9_session_model_e_1519["kind"] = model9_session_model_NEWPROC
  THEN [ model9_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE model9_session_model_s_1519

(*
  @type: (() => Bool);
*)
model9_session_model_silent ==
  model9_session_model_ev' := (model9_session_model_NOEV)
    /\ model9_session_model_verdictNow' := 0
    /\ model9_session_model_lib' := model9_session_model_lib

(*
  @type: (() => Bool);
*)
model9_session_model_consistent ==
  \A model9_session_model_t_884 \in model9_session_model_THREADS:
    (model9_session_model_runs[model9_session_model_t_884]["pc"] > 0)
      = (model9_session_model_thread(model9_session_model_lib, model9_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == model9_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
model9_session_model_emit(model9_session_model_e_165) ==
  model9_session_model_ev' := model9_session_model_e_165
    /\ model9_session_model_verdictNow'
      := (model9_session_model_verdict(model9_session_model_lib, model9_session_model_e_165))
    /\ model9_session_model_lib'
      := (model9_session_model_after(model9_session_model_lib, model9_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
model9_session_model_reduce(model9_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model9_session_model_r ==
    model9_session_model_runs[model9_session_model_t_383]
  IN
  (model9_session_model_r)["pc"] = 1
    /\ model9_session_model_runs'
      := [
        model9_session_model_runs EXCEPT
          ![model9_session_model_t_383] =
            [
              [
                [
                  [ (model9_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (model9_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF model9_session_model_KIND = 1
                    THEN (model9_session_model_r)["arg"] + 1
                    ELSE (model9_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF model9_session_model_KIND = 4
                    /\ (model9_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF model9_session_model_KIND = 6
                  THEN 0
                  ELSE (model9_session_model_r)["env"]
            ]
      ]
    /\ model9_session_model_scratch'
      := (IF model9_session_model_KIND = 2
      THEN (model9_session_model_r)["arg"]
      ELSE model9_session_model_scratch)
    /\ model9_session_model_cache'
      := (IF model9_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == model9_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(model9_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = model9_session_model_t_383 % 2
          THEN (model9_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE model9_session_model_cache)
    /\ model9_session_model_last' := model9_session_model_last
    /\ model9_session_model_table' := model9_session_model_table
    /\ model9_session_model_silent

(*
  @type: ((Int) => Bool);
*)
model9_session_model_compute(model9_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model9_session_model_r ==
    model9_session_model_runs[model9_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  model9_session_model_x ==
    IF model9_session_model_KIND = 2
    THEN model9_session_model_scratch
    ELSE IF model9_session_model_KIND = 13
    THEN model9_session_model_cache[(model9_session_model_t_659 % 2)]
    ELSE (model9_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  model9_session_model_k ==
    model9_session_model_key((model9_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  model9_session_model_shared ==
    (model9_session_model_KIND = 3 \/ model9_session_model_KIND = 5)
      \/ model9_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  model9_session_model_hit ==
    (model9_session_model_shared
        /\ model9_session_model_k \in DOMAIN model9_session_model_cache)
      /\ (model9_session_model_KIND = 9 \/ (model9_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  model9_session_model_slot ==
    model9_session_model_last[
      (IF model9_session_model_KIND = 7 THEN model9_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  model9_session_model_again ==
    ((model9_session_model_KIND = 7
          /\ (model9_session_model_slot)["tag"]
            = (model9_session_model_r)["op"] % model9_session_model_NO \div 2)
        /\ (model9_session_model_r)["env"] = 0)
      \/ ((model9_session_model_KIND = 11
          /\ (model9_session_model_slot)["tag"] = (model9_session_model_r)["op"])
        /\ (model9_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  model9_session_model_true_ ==
    model9_session_model_f((model9_session_model_x), (IF model9_session_model_KIND
        = 4
      \/ model9_session_model_KIND = 6
    THEN model9_session_model_lib["threads"][model9_session_model_t_659]["env"]
    ELSE (model9_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  model9_session_model_y ==
    IF model9_session_model_hit
    THEN model9_session_model_cache[(model9_session_model_k)]
    ELSE IF model9_session_model_again
    THEN (model9_session_model_slot)["out"]
    ELSE IF (model9_session_model_KIND = 8 /\ model9_session_model_table = 1)
      \/ (model9_session_model_KIND = 12 /\ model9_session_model_table = 0)
    THEN 0
    ELSE model9_session_model_true_
  IN
  (model9_session_model_r)["pc"] = 2
    /\ model9_session_model_runs'
      := [
        model9_session_model_runs EXCEPT
          ![model9_session_model_t_659] =
            [
              [ (model9_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = model9_session_model_y
            ]
      ]
    /\ model9_session_model_scratch' := model9_session_model_scratch
    /\ model9_session_model_cache'
      := (IF (model9_session_model_shared
          /\ (model9_session_model_KIND = 9
            \/ (model9_session_model_r)["env"] = 0))
        /\ ~model9_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == model9_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(model9_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = model9_session_model_k
          THEN model9_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE model9_session_model_cache)
    /\ model9_session_model_last'
      := (IF model9_session_model_KIND = 7
        /\ (model9_session_model_r)["env"] = 0
      THEN [
        model9_session_model_last EXCEPT
          ![model9_session_model_t_659] =
            [tag |->
                (model9_session_model_r)["op"] % model9_session_model_NO \div 2,
              out |-> model9_session_model_y]
      ]
      ELSE IF model9_session_model_KIND = 11
        /\ (model9_session_model_r)["env"] = 0
      THEN [
        model9_session_model_last EXCEPT
          ![0] =
            [
              (model9_session_model_slot) EXCEPT
                !["tag"] = (model9_session_model_r)["op"]
            ]
      ]
      ELSE model9_session_model_last)
    /\ model9_session_model_table'
      := (IF model9_session_model_KIND = 10
      THEN 2
      ELSE IF model9_session_model_KIND = 8 /\ model9_session_model_table = 0
      THEN 1
      ELSE model9_session_model_table)
    /\ model9_session_model_silent

(*
  @type: (() => Bool);
*)
model9_session_model_startup ==
  model9_session_model_KIND = 12
    /\ model9_session_model_table = 0
    /\ model9_session_model_runs' := model9_session_model_runs
    /\ model9_session_model_scratch' := model9_session_model_scratch
    /\ model9_session_model_cache' := model9_session_model_cache
    /\ model9_session_model_last' := model9_session_model_last
    /\ model9_session_model_table' := 2
    /\ model9_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (model9_session_model_refines /\ model9_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
model9_session_model_call(model9_session_model_t_234, model9_session_model_op_234) ==
  model9_session_model_runs[model9_session_model_t_234]["pc"] = 0
    /\ model9_session_model_runs'
      := [
        model9_session_model_runs EXCEPT
          ![model9_session_model_t_234] =
            [
              [
                [
                  model9_session_model_runs[model9_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = model9_session_model_op_234
              ] EXCEPT
                !["arg"] = model9_session_model_op_234
            ]
      ]
    /\ model9_session_model_scratch' := model9_session_model_scratch
    /\ model9_session_model_cache' := model9_session_model_cache
    /\ model9_session_model_last' := model9_session_model_last
    /\ model9_session_model_table' := model9_session_model_table
    /\ model9_session_model_emit([kind |-> model9_session_model_CALL,
      thread |-> model9_session_model_t_234,
      op |-> model9_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
model9_session_model_setenv(model9_session_model_t_286, model9_session_model_m_286) ==
  model9_session_model_runs[model9_session_model_t_286]["pc"] = 0
    /\ model9_session_model_runs'
      := [
        model9_session_model_runs EXCEPT
          ![model9_session_model_t_286] =
            [
              model9_session_model_runs[model9_session_model_t_286] EXCEPT
                !["env"] = model9_session_model_m_286
            ]
      ]
    /\ model9_session_model_scratch' := model9_session_model_scratch
    /\ model9_session_model_cache' := model9_session_model_cache
    /\ model9_session_model_last' := model9_session_model_last
    /\ model9_session_model_table' := model9_session_model_table
    /\ model9_session_model_emit([kind |-> model9_session_model_SETENV,
      thread |-> model9_session_model_t_286,
      op |-> 0,
      env |-> model9_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
model9_session_model_return(model9_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model9_session_model_r ==
    model9_session_model_runs[model9_session_model_t_768]
  IN
  (model9_session_model_r)["pc"] = 3
    /\ model9_session_model_runs'
      := [
        model9_session_model_runs EXCEPT
          ![model9_session_model_t_768] =
            [ (model9_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ model9_session_model_scratch' := model9_session_model_scratch
    /\ model9_session_model_cache' := model9_session_model_cache
    /\ model9_session_model_last'
      := (IF model9_session_model_KIND = 11
        /\ (model9_session_model_r)["env"] = 0
      THEN [
        model9_session_model_last EXCEPT
          ![0] =
            [
              model9_session_model_last[0] EXCEPT
                !["out"] = (model9_session_model_r)["local"]
            ]
      ]
      ELSE model9_session_model_last)
    /\ model9_session_model_table'
      := (IF model9_session_model_KIND = 8 /\ model9_session_model_table = 1
      THEN 2
      ELSE model9_session_model_table)
    /\ model9_session_model_emit([kind |-> model9_session_model_RETURN,
      thread |-> model9_session_model_t_768,
      op |-> (model9_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (model9_session_model_r)["arg"] /= (model9_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (model9_session_model_r)["env"]
            /= model9_session_model_lib["threads"][model9_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (model9_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
model9_session_model_fresh(model9_session_model_op_831, model9_session_model_m_831) ==
  model9_session_model_runs' := model9_session_model_runs
    /\ model9_session_model_scratch' := model9_session_model_scratch
    /\ model9_session_model_cache' := model9_session_model_cache
    /\ model9_session_model_last' := model9_session_model_last
    /\ model9_session_model_table' := model9_session_model_table
    /\ model9_session_model_emit([kind |-> model9_session_model_FRESH,
      thread |-> 0,
      op |-> model9_session_model_op_831,
      env |-> model9_session_model_m_831,
      flags |-> 0,
      res |->
        model9_session_model_f(model9_session_model_op_831, model9_session_model_m_831)])

(*
  @type: (() => Bool);
*)
model9_session_model_step ==
  \E model9_session_model_t \in model9_session_model_THREADS:
    \E model9_session_model_o \in model9_session_model_OPS:
      \E model9_session_model_m \in 0 .. 1:
        model9_session_model_call(model9_session_model_t, model9_session_model_o)
          \/ model9_session_model_setenv(model9_session_model_t, model9_session_model_m)
          \/ model9_session_model_reduce(model9_session_model_t)
          \/ model9_session_model_compute(model9_session_model_t)
          \/ model9_session_model_return(model9_session_model_t)
          \/ model9_session_model_fresh(model9_session_model_o, model9_session_model_m)
          \/ model9_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == model9_session_model_step

================================================================================
