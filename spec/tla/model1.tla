-------------------------------- MODULE model1 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model1_session_model_runs

(*
  @type: (() => Int);
*)
model1_session_model_NT == 2

VARIABLE
  (*
    @type: Int;
  *)
  model1_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  model1_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  model1_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  model1_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  model1_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model1_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  model1_session_model_ev

(*
  @type: (() => Int);
*)
model1_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  model1_session_model_verdictNow

(*
  @type: (() => Int);
*)
model1_session_model_NO == 2

(*
  @type: (() => Int);
*)
model1_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model1_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
model1_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
model1_session_model_OK == 0

(*
  @type: (() => Int);
*)
model1_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
model1_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
model1_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
model1_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
model1_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
model1_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
model1_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
model1_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
model1_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
model1_session_model_RACE == 7

(*
  @type: (() => Int);
*)
model1_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model1_session_model_learn(model1_session_model_s_1213, model1_session_model_op_1213,
model1_session_model_env_1213, model1_session_model_res_1213) ==
  IF <<model1_session_model_op_1213, model1_session_model_env_1213>>
    \in DOMAIN (model1_session_model_s_1213["memo"])
  THEN model1_session_model_s_1213
  ELSE [
    model1_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == model1_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<model1_session_model_op_1213, model1_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<model1_session_model_op_1213, model1_session_model_env_1213>>
            THEN model1_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
model1_session_model_KIND == 1

(*
  @type: ((Int, Int) => Int);
*)
model1_session_model_f(model1_session_model_x_67, model1_session_model_env_67) ==
  (100 * model1_session_model_env_67 + 7 * model1_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
model1_session_model_THREADS == 0 .. model1_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
model1_session_model_NOEV ==
  [kind |-> model1_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
model1_session_model_OPS == 0 .. model1_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model1_session_model_thread(model1_session_model_s_1130, model1_session_model_t_1130) ==
  IF model1_session_model_t_1130
    \in DOMAIN (model1_session_model_s_1130["threads"])
  THEN model1_session_model_s_1130["threads"][model1_session_model_t_1130]
  ELSE model1_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
model1_session_model_returns(model1_session_model_s_1181, model1_session_model_op_1181,
model1_session_model_env_1181, model1_session_model_flags_1181, model1_session_model_res_1181) ==
  IF model1_session_model_flags_1181 >= 8
  THEN model1_session_model_R_STATUS
  ELSE IF model1_session_model_flags_1181 % 2 = 1
  THEN model1_session_model_R_ARG
  ELSE IF model1_session_model_flags_1181 > 0
  THEN model1_session_model_R_ENV
  ELSE IF <<model1_session_model_op_1181, model1_session_model_env_1181>>
      \in DOMAIN (model1_session_model_s_1181["memo"])
    /\ model1_session_model_s_1181["memo"][
      <<model1_session_model_op_1181, model1_session_model_env_1181>>
    ]
      /= model1_session_model_res_1181
  THEN model1_session_model_R_RESULT
  ELSE model1_session_model_OK

(*
  @type: ((Int) => Int);
*)
model1_session_model_key(model1_session_model_op_82) ==
  IF model1_session_model_KIND = 3
  THEN model1_session_model_op_82 % model1_session_model_NO \div 2
  ELSE model1_session_model_op_82

(*
  @type: (() => Bool);
*)
model1_session_model_refines ==
  model1_session_model_verdictNow = model1_session_model_OK

(*
  @type: (() => Bool);
*)
model1_session_model_init ==
  model1_session_model_runs
      = [
        model1_session_model_t_112 \in model1_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ model1_session_model_scratch = 0
    /\ model1_session_model_cache = SetAsFun({})
    /\ model1_session_model_last
      = [
        model1_session_model_t_130 \in model1_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ model1_session_model_table = 0
    /\ model1_session_model_lib = model1_session_model_START
    /\ model1_session_model_ev = model1_session_model_NOEV
    /\ model1_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
model1_session_model_verdict(model1_session_model_s_1360, model1_session_model_e_1360) ==
  IF model1_session_model_e_1360["kind"] = model1_session_model_CALL
  THEN IF (model1_session_model_thread(model1_session_model_s_1360, model1_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model1_session_model_R_PROTOCOL
  ELSE model1_session_model_OK
  ELSE IF model1_session_model_e_1360["kind"] = model1_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model1_session_model_t ==
    model1_session_model_thread(model1_session_model_s_1360, model1_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((model1_session_model_t)["busy"])
    \/ (model1_session_model_t)["op"] /= model1_session_model_e_1360["op"]
  THEN model1_session_model_R_PROTOCOL
  ELSE model1_session_model_returns(model1_session_model_s_1360, model1_session_model_e_1360[
    "op"
  ], (model1_session_model_t)["env"], model1_session_model_e_1360["flags"], model1_session_model_e_1360[
    "res"
  ])
  ELSE IF model1_session_model_e_1360["kind"] = model1_session_model_FRESH
    \/ model1_session_model_e_1360["kind"] = model1_session_model_OBSERVED
  THEN model1_session_model_returns(model1_session_model_s_1360, model1_session_model_e_1360[
    "op"
  ], model1_session_model_e_1360["env"], model1_session_model_e_1360["flags"], model1_session_model_e_1360[
    "res"
  ])
  ELSE IF model1_session_model_e_1360["kind"] = model1_session_model_ATOMIC
  THEN IF (model1_session_model_thread(model1_session_model_s_1360, model1_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model1_session_model_R_PROTOCOL
  ELSE model1_session_model_returns(model1_session_model_s_1360, model1_session_model_e_1360[
    "op"
  ], (model1_session_model_thread(model1_session_model_s_1360, model1_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], model1_session_model_e_1360["flags"], model1_session_model_e_1360["res"])
  ELSE IF model1_session_model_e_1360["kind"] = model1_session_model_SETENV
  THEN IF (model1_session_model_thread(model1_session_model_s_1360, model1_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model1_session_model_R_PROTOCOL
  ELSE model1_session_model_OK
  ELSE IF model1_session_model_e_1360["kind"] = model1_session_model_RACE
  THEN model1_session_model_R_RACE
  ELSE model1_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model1_session_model_after(model1_session_model_s_1519, model1_session_model_e_1519) ==
  IF model1_session_model_e_1519["kind"] = model1_session_model_CALL
  THEN [
    model1_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == model1_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {model1_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = model1_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (model1_session_model_thread(model1_session_model_s_1519, model1_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = model1_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = model1_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF model1_session_model_e_1519["kind"] = model1_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model1_session_model_t ==
    model1_session_model_thread(model1_session_model_s_1519, model1_session_model_e_1519[
      "thread"
    ])
  IN
  model1_session_model_learn([
    model1_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == model1_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {model1_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = model1_session_model_e_1519["thread"]
            THEN [ (model1_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], model1_session_model_e_1519["op"], (model1_session_model_t)["env"], model1_session_model_e_1519[
    "res"
  ])
  ELSE IF model1_session_model_e_1519["kind"] = model1_session_model_FRESH
    \/ model1_session_model_e_1519["kind"] = model1_session_model_OBSERVED
  THEN model1_session_model_learn(model1_session_model_s_1519, model1_session_model_e_1519[
    "op"
  ], model1_session_model_e_1519["env"], model1_session_model_e_1519["res"])
  ELSE IF model1_session_model_e_1519["kind"] = model1_session_model_ATOMIC
  THEN model1_session_model_learn(model1_session_model_s_1519, model1_session_model_e_1519[
    "op"
  ], (model1_session_model_thread(model1_session_model_s_1519, model1_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], model1_session_model_e_1519["res"])
  ELSE IF model1_session_model_e_1519["kind"] = model1_session_model_SETENV
  THEN [
    model1_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == model1_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {model1_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = model1_session_model_e_1519["thread"]
            THEN [
              (model1_session_model_thread(model1_session_model_s_1519, model1_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = model1_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF model1_session_model_e_1519["kind"] = model1_session_model_NEWPROC
  THEN [ model1_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE model1_session_model_s_1519

(*
  @type: (() => Bool);
*)
model1_session_model_silent ==
  model1_session_model_ev' := (model1_session_model_NOEV)
    /\ model1_session_model_verdictNow' := 0
    /\ model1_session_model_lib' := model1_session_model_lib

(*
  @type: (() => Bool);
*)
model1_session_model_consistent ==
  \A model1_session_model_t_884 \in model1_session_model_THREADS:
    (model1_session_model_runs[model1_session_model_t_884]["pc"] > 0)
      = (model1_session_model_thread(model1_session_model_lib, model1_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == model1_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
model1_session_model_emit(model1_session_model_e_165) ==
  model1_session_model_ev' := model1_session_model_e_165
    /\ model1_session_model_verdictNow'
      := (model1_session_model_verdict(model1_session_model_lib, model1_session_model_e_165))
    /\ model1_session_model_lib'
      := (model1_session_model_after(model1_session_model_lib, model1_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
model1_session_model_reduce(model1_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model1_session_model_r ==
    model1_session_model_runs[model1_session_model_t_383]
  IN
  (model1_session_model_r)["pc"] = 1
    /\ model1_session_model_runs'
      := [
        model1_session_model_runs EXCEPT
          ![model1_session_model_t_383] =
            [
              [
                [
                  [ (model1_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (model1_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF model1_session_model_KIND = 1
                    THEN (model1_session_model_r)["arg"] + 1
                    ELSE (model1_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF model1_session_model_KIND = 4
                    /\ (model1_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF model1_session_model_KIND = 6
                  THEN 0
                  ELSE (model1_session_model_r)["env"]
            ]
      ]
    /\ model1_session_model_scratch'
      := (IF model1_session_model_KIND = 2
      THEN (model1_session_model_r)["arg"]
      ELSE model1_session_model_scratch)
    /\ model1_session_model_cache'
      := (IF model1_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == model1_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(model1_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = model1_session_model_t_383 % 2
          THEN (model1_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE model1_session_model_cache)
    /\ model1_session_model_last' := model1_session_model_last
    /\ model1_session_model_table' := model1_session_model_table
    /\ model1_session_model_silent

(*
  @type: ((Int) => Bool);
*)
model1_session_model_compute(model1_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model1_session_model_r ==
    model1_session_model_runs[model1_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  model1_session_model_x ==
    IF model1_session_model_KIND = 2
    THEN model1_session_model_scratch
    ELSE IF model1_session_model_KIND = 13
    THEN model1_session_model_cache[(model1_session_model_t_659 % 2)]
    ELSE (model1_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  model1_session_model_k ==
    model1_session_model_key((model1_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  model1_session_model_shared ==
    (model1_session_model_KIND = 3 \/ model1_session_model_KIND = 5)
      \/ model1_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  model1_session_model_hit ==
    (model1_session_model_shared
        /\ model1_session_model_k \in DOMAIN model1_session_model_cache)
      /\ (model1_session_model_KIND = 9 \/ (model1_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  model1_session_model_slot ==
    model1_session_model_last[
      (IF model1_session_model_KIND = 7 THEN model1_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  model1_session_model_again ==
    ((model1_session_model_KIND = 7
          /\ (model1_session_model_slot)["tag"]
            = (model1_session_model_r)["op"] % model1_session_model_NO \div 2)
        /\ (model1_session_model_r)["env"] = 0)
      \/ ((model1_session_model_KIND = 11
          /\ (model1_session_model_slot)["tag"] = (model1_session_model_r)["op"])
        /\ (model1_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  model1_session_model_true_ ==
    model1_session_model_f((model1_session_model_x), (IF model1_session_model_KIND
        = 4
      \/ model1_session_model_KIND = 6
    THEN model1_session_model_lib["threads"][model1_session_model_t_659]["env"]
    ELSE (model1_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  model1_session_model_y ==
    IF model1_session_model_hit
    THEN model1_session_model_cache[(model1_session_model_k)]
    ELSE IF model1_session_model_again
    THEN (model1_session_model_slot)["out"]
    ELSE IF (model1_session_model_KIND = 8 /\ model1_session_model_table = 1)
      \/ (model1_session_model_KIND = 12 /\ model1_session_model_table = 0)
    THEN 0
    ELSE model1_session_model_true_
  IN
  (model1_session_model_r)["pc"] = 2
    /\ model1_session_model_runs'
      := [
        model1_session_model_runs EXCEPT
          ![model1_session_model_t_659] =
            [
              [ (model1_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = model1_session_model_y
            ]
      ]
    /\ model1_session_model_scratch' := model1_session_model_scratch
    /\ model1_session_model_cache'
      := (IF (model1_session_model_shared
          /\ (model1_session_model_KIND = 9
            \/ (model1_session_model_r)["env"] = 0))
        /\ ~model1_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == model1_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(model1_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = model1_session_model_k
          THEN model1_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE model1_session_model_cache)
    /\ model1_session_model_last'
      := (IF model1_session_model_KIND = 7
        /\ (model1_session_model_r)["env"] = 0
      THEN [
        model1_session_model_last EXCEPT
          ![model1_session_model_t_659] =
            [tag |->
                (model1_session_model_r)["op"] % model1_session_model_NO \div 2,
              out |-> model1_session_model_y]
      ]
      ELSE IF model1_session_model_KIND = 11
        /\ (model1_session_model_r)["env"] = 0
      THEN [
        model1_session_model_last EXCEPT
          ![0] =
            [
              (model1_session_model_slot) EXCEPT
                !["tag"] = (model1_session_model_r)["op"]
            ]
      ]
      ELSE model1_session_model_last)
    /\ model1_session_model_table'
      := (IF model1_session_model_KIND = 10
      THEN 2
      ELSE IF model1_session_model_KIND = 8 /\ model1_session_model_table = 0
      THEN 1
      ELSE model1_session_model_table)
    /\ model1_session_model_silent

(*
  @type: (() => Bool);
*)
model1_session_model_startup ==
  model1_session_model_KIND = 12
    /\ model1_session_model_table = 0
    /\ model1_session_model_runs' := model1_session_model_runs
    /\ model1_session_model_scratch' := model1_session_model_scratch
    /\ model1_session_model_cache' := model1_session_model_cache
    /\ model1_session_model_last' := model1_session_model_last
    /\ model1_session_model_table' := 2
    /\ model1_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (model1_session_model_refines /\ model1_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
model1_session_model_call(model1_session_model_t_234, model1_session_model_op_234) ==
  model1_session_model_runs[model1_session_model_t_234]["pc"] = 0
    /\ model1_session_model_runs'
      := [
        model1_session_model_runs EXCEPT
          ![model1_session_model_t_234] =
            [
              [
                [
                  model1_session_model_runs[model1_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = model1_session_model_op_234
              ] EXCEPT
                !["arg"] = model1_session_model_op_234
            ]
      ]
    /\ model1_session_model_scratch' := model1_session_model_scratch
    /\ model1_session_model_cache' := model1_session_model_cache
    /\ model1_session_model_last' := model1_session_model_last
    /\ model1_session_model_table' := model1_session_model_table
    /\ model1_session_model_emit([kind |-> model1_session_model_CALL,
      thread |-> model1_session_model_t_234,
      op |-> model1_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
model1_session_model_setenv(model1_session_model_t_286, model1_session_model_m_286) ==
  model1_session_model_runs[model1_session_model_t_286]["pc"] = 0
    /\ model1_session_model_runs'
      := [
        model1_session_model_runs EXCEPT
          ![model1_session_model_t_286] =
            [
              model1_session_model_runs[model1_session_model_t_286] EXCEPT
                !["env"] = model1_session_model_m_286
            ]
      ]
    /\ model1_session_model_scratch' := model1_session_model_scratch
    /\ model1_session_model_cache' := model1_session_model_cache
    /\ model1_session_model_last' := model1_session_model_last
    /\ model1_session_model_table' := model1_session_model_table
    /\ model1_session_model_emit([kind |-> model1_session_model_SETENV,
      thread |-> model1_session_model_t_286,
      op |-> 0,
      env |-> model1_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
model1_session_model_return(model1_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model1_session_model_r ==
    model1_session_model_runs[model1_session_model_t_768]
  IN
  (model1_session_model_r)["pc"] = 3
    /\ model1_session_model_runs'
      := [
        model1_session_model_runs EXCEPT
          ![model1_session_model_t_768] =
            [ (model1_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ model1_session_model_scratch' := model1_session_model_scratch
    /\ model1_session_model_cache' := model1_session_model_cache
    /\ model1_session_model_last'
      := (IF model1_session_model_KIND = 11
        /\ (model1_session_model_r)["env"] = 0
      THEN [
        model1_session_model_last EXCEPT
          ![0] =
            [
              model1_session_model_last[0] EXCEPT
                !["out"] = (model1_session_model_r)["local"]
            ]
      ]
      ELSE model1_session_model_last)
    /\ model1_session_model_table'
      := (IF model1_session_model_KIND = 8 /\ model1_session_model_table = 1
      THEN 2
      ELSE model1_session_model_table)
    /\ model1_session_model_emit([kind |-> model1_session_model_RETURN,
      thread |-> model1_session_model_t_768,
      op |-> (model1_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (model1_session_model_r)["arg"] /= (model1_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (model1_session_model_r)["env"]
            /= model1_session_model_lib["threads"][model1_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (model1_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
model1_session_model_fresh(model1_session_model_op_831, model1_session_model_m_831) ==
  model1_session_model_runs' := model1_session_model_runs
    /\ model1_session_model_scratch' := model1_session_model_scratch
    /\ model1_session_model_cache' := model1_session_model_cache
    /\ model1_session_model_last' := model1_session_model_last
    /\ model1_session_model_table' := model1_session_model_table
    /\ model1_session_model_emit([kind |-> model1_session_model_FRESH,
      thread |-> 0,
      op |-> model1_session_model_op_831,
      env |-> model1_session_model_m_831,
      flags |-> 0,
      res |->
        model1_session_model_f(model1_session_model_op_831, model1_session_model_m_831)])

(*
  @type: (() => Bool);
*)
model1_session_model_step ==
  \E model1_session_model_t \in model1_session_model_THREADS:
    \E model1_session_model_o \in model1_session_model_OPS:
      \E model1_session_model_m \in 0 .. 1:
        model1_session_model_call(model1_session_model_t, model1_session_model_o)
          \/ model1_session_model_setenv(model1_session_model_t, model1_session_model_m)
          \/ model1_session_model_reduce(model1_session_model_t)
          \/ model1_session_model_compute(model1_session_model_t)
          \/ model1_session_model_return(model1_session_model_t)
          \/ model1_session_model_fresh(model1_session_model_o, model1_session_model_m)
          \/ model1_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == model1_session_model_step

================================================================================
