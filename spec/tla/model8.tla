-------------------------------- MODULE model8 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model8_session_model_runs

(*
  @type: (() => Int);
*)
model8_session_model_NT == 2

VARIABLE
  (*
    @type: Int;
  *)
  model8_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  model8_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  model8_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  model8_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  model8_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model8_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  model8_session_model_ev

(*
  @type: (() => Int);
*)
model8_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  model8_session_model_verdictNow

(*
  @type: (() => Int);
*)
model8_session_model_NO == 2

(*
  @type: (() => Int);
*)
model8_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model8_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
model8_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
model8_session_model_OK == 0

(*
  @type: (() => Int);
*)
model8_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
model8_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
model8_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
model8_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
model8_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
model8_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
model8_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
model8_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
model8_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
model8_session_model_RACE == 7

(*
  @type: (() => Int);
*)
model8_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model8_session_model_learn(model8_session_model_s_1213, model8_session_model_op_1213,
model8_session_model_env_1213, model8_session_model_res_1213) ==
  IF <<model8_session_model_op_1213, model8_session_model_env_1213>>
    \in DOMAIN (model8_session_model_s_1213["memo"])
  THEN model8_session_model_s_1213
  ELSE [
    model8_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == model8_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<model8_session_model_op_1213, model8_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<model8_session_model_op_1213, model8_session_model_env_1213>>
            THEN model8_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
model8_session_model_KIND == 8

(*
  @type: ((Int, Int) => Int);
*)
model8_session_model_f(model8_session_model_x_67, model8_session_model_env_67) ==
  (100 * model8_session_model_env_67 + 7 * model8_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
model8_session_model_THREADS == 0 .. model8_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
model8_session_model_NOEV ==
  [kind |-> model8_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
model8_session_model_OPS == 0 .. model8_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model8_session_model_thread(model8_session_model_s_1130, model8_session_model_t_1130) ==
  IF model8_session_model_t_1130
    \in DOMAIN (model8_session_model_s_1130["threads"])
  THEN model8_session_model_s_1130["threads"][model8_session_model_t_1130]
  ELSE model8_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
model8_session_model_returns(model8_session_model_s_1181, model8_session_model_op_1181,
model8_session_model_env_1181, model8_session_model_flags_1181, model8_session_model_res_1181) ==
  IF model8_session_model_flags_1181 >= 8
  THEN model8_session_model_R_STATUS
  ELSE IF model8_session_model_flags_1181 % 2 = 1
  THEN model8_session_model_R_ARG
  ELSE IF model8_session_model_flags_1181 > 0
  THEN model8_session_model_R_ENV
  ELSE IF <<model8_session_model_op_1181, model8_session_model_env_1181>>
      \in DOMAIN (model8_session_model_s_1181["memo"])
    /\ model8_session_model_s_1181["memo"][
      <<model8_session_model_op_1181, model8_session_model_env_1181>>
    ]
      /= model8_session_model_res_1181
  THEN model8_session_model_R_RESULT
  ELSE model8_session_model_OK

(*
  @type: ((Int) => Int);
*)
model8_session_model_key(model8_session_model_op_82) ==
  IF model8_session_model_KIND = 3
  THEN model8_session_model_op_82 % model8_session_model_NO \div 2
  ELSE model8_session_model_op_82

(*
  @type: (() => Bool);
*)
model8_session_model_refines ==
  model8_session_model_verdictNow = model8_session_model_OK

(*
  @type: (() => Bool);
*)
model8_session_model_init ==
  model8_session_model_runs
      = [
        model8_session_model_t_112 \in model8_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ model8_session_model_scratch = 0
    /\ model8_session_model_cache = SetAsFun({})
    /\ model8_session_model_last
      = [
        model8_session_model_t_130 \in model8_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ model8_session_model_table = 0
    /\ model8_session_model_lib = model8_session_model_START
    /\ model8_session_model_ev = model8_session_model_NOEV
    /\ model8_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
model8_session_model_verdict(model8_session_model_s_1360, model8_session_model_e_1360) ==
  IF model8_session_model_e_1360["kind"] = model8_session_model_CALL
  THEN IF (model8_session_model_thread(model8_session_model_s_1360, model8_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model8_session_model_R_PROTOCOL
  ELSE model8_session_model_OK
  ELSE IF model8_session_model_e_1360["kind"] = model8_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model8_session_model_t ==
    model8_session_model_thread(model8_session_model_s_1360, model8_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((model8_session_model_t)["busy"])
    \/ (model8_session_model_t)["op"] /= model8_session_model_e_1360["op"]
  THEN model8_session_model_R_PROTOCOL
  ELSE model8_session_model_returns(model8_session_model_s_1360, model8_session_model_e_1360[
    "op"
  ], (model8_session_model_t)["env"], model8_session_model_e_1360["flags"], model8_session_model_e_1360[
    "res"
  ])
  ELSE IF model8_session_model_e_1360["kind"] = model8_session_model_FRESH
    \/ model8_session_model_e_1360["kind"] = model8_session_model_OBSERVED
  THEN model8_session_model_returns(model8_session_model_s_1360, model8_session_model_e_1360[
    "op"
  ], model8_session_model_e_1360["env"], model8_session_model_e_1360["flags"], model8_session_model_e_1360[
    "res"
  ])
  ELSE IF model8_session_model_e_1360["kind"] = model8_session_model_ATOMIC
  THEN IF (model8_session_model_thread(model8_session_model_s_1360, model8_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model8_session_model_R_PROTOCOL
  ELSE model8_session_model_returns(model8_session_model_s_1360, model8_session_model_e_1360[
    "op"
  ], (model8_session_model_thread(model8_session_model_s_1360, model8_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], model8_session_model_e_1360["flags"], model8_session_model_e_1360["res"])
  ELSE IF model8_session_model_e_1360["kind"] = model8_session_model_SETENV
  THEN IF (model8_session_model_thread(model8_session_model_s_1360, model8_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model8_session_model_R_PROTOCOL
  ELSE model8_session_model_OK
  ELSE IF model8_session_model_e_1360["kind"] = model8_session_model_RACE
  THEN model8_session_model_R_RACE
  ELSE model8_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model8_session_model_after(model8_session_model_s_1519, model8_session_model_e_1519) ==
  IF model8_session_model_e_1519["kind"] = model8_session_model_CALL
  THEN [
    model8_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == model8_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {model8_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = model8_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (model8_session_model_thread(model8_session_model_s_1519, model8_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = model8_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = model8_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF model8_session_model_e_1519["kind"] = model8_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model8_session_model_t ==
    model8_session_model_thread(model8_session_model_s_1519, model8_session_model_e_1519[
      "thread"
    ])
  IN
  model8_session_model_learn([
    model8_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == model8_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {model8_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = model8_session_model_e_1519["thread"]
            THEN [ (model8_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], model8_session_model_e_1519["op"], (model8_session_model_t)["env"], model8_session_model_e_1519[
    "res"
  ])
  ELSE IF model8_session_model_e_1519["kind"] = model8_session_model_FRESH
    \/ model8_session_model_e_1519["kind"] = model8_session_model_OBSERVED
  THEN model8_session_model_learn(model8_session_model_s_1519, model8_session_model_e_1519[
    "op"
  ], model8_session_model_e_1519["env"], model8_session_model_e_1519["res"])
  ELSE IF model8_session_model_e_1519["kind"] = model8_session_model_ATOMIC
  THEN model8_session_model_learn(model8_session_model_s_1519, model8_session_model_e_1519[
    "op"
  ], (model8_session_model_thread(model8_session_model_s_1519, model8_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], model8_session_model_e_1519["res"])
  ELSE IF model8_session_model_e_1519["kind"] = model8_session_model_SETENV
  THEN [
    model8_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == model8_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {model8_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = model8_session_model_e_1519["thread"]
            THEN [
              (model8_session_model_thread(model8_session_model_s_1519, model8_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = model8_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF model8_session_model_e_1519["kind"] = model8_session_model_NEWPROC
  THEN [ model8_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE model8_session_model_s_1519

(*
  @type: (() => Bool);
*)
model8_session_model_silent ==
  model8_session_model_ev' := (model8_session_model_NOEV)
    /\ model8_session_model_verdictNow' := 0
    /\ model8_session_model_lib' := model8_session_model_lib

(*
  @type: (() => Bool);
*)
model8_session_model_consistent ==
  \A model8_session_model_t_884 \in model8_session_model_THREADS:
    (model8_session_model_runs[model8_session_model_t_884]["pc"] > 0)
      = (model8_session_model_thread(model8_session_model_lib, model8_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == model8_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
model8_session_model_emit(model8_session_model_e_165) ==
  model8_session_model_ev' := model8_session_model_e_165
    /\ model8_session_model_verdictNow'
      := (model8_session_model_verdict(model8_session_model_lib, model8_session_model_e_165))
    /\ model8_session_model_lib'
      := (model8_session_model_after(model8_session_model_lib, model8_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
model8_session_model_reduce(model8_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model8_session_model_r ==
    model8_session_model_runs[model8_session_model_t_383]
  IN
  (model8_session_model_r)["pc"] = 1
    /\ model8_session_model_runs'
      := [
        model8_session_model_runs EXCEPT
          ![model8_session_model_t_383] =
            [
              [
                [
                  [ (model8_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (model8_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF model8_session_model_KIND = 1
                    THEN (model8_session_model_r)["arg"] + 1
                    ELSE (model8_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF model8_session_model_KIND = 4
                    /\ (model8_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF model8_session_model_KIND = 6
                  THEN 0
                  ELSE (model8_session_model_r)["env"]
            ]
      ]
    /\ model8_session_model_scratch'
      := (IF model8_session_model_KIND = 2
      THEN (model8_session_model_r)["arg"]
      ELSE model8_session_model_scratch)
    /\ model8_session_model_cache'
      := (IF model8_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == model8_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(model8_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = model8_session_model_t_383 % 2
          THEN (model8_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE model8_session_model_cache)
    /\ model8_session_model_last' := model8_session_model_last
    /\ model8_session_model_table' := model8_session_model_table
    /\ model8_session_model_silent

(*
  @type: ((Int) => Bool);
*)
model8_session_model_compute(model8_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model8_session_model_r ==
    model8_session_model_runs[model8_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  model8_session_model_x ==
    IF model8_session_model_KIND = 2
    THEN model8_session_model_scratch
    ELSE IF model8_session_model_KIND = 13
    THEN model8_session_model_cache[(model8_session_model_t_659 % 2)]
    ELSE (model8_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  model8_session_model_k ==
    model8_session_model_key((model8_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  model8_session_model_shared ==
    (model8_session_model_KIND = 3 \/ model8_session_model_KIND = 5)
      \/ model8_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  model8_session_model_hit ==
    (model8_session_model_shared
        /\ model8_session_model_k \in DOMAIN model8_session_model_cache)
      /\ (model8_session_model_KIND = 9 \/ (model8_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  model8_session_model_slot ==
    model8_session_model_last[
      (IF model8_session_model_KIND = 7 THEN model8_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  model8_session_model_again ==
    ((model8_session_model_KIND = 7
          /\ (model8_session_model_slot)["tag"]
            = (model8_session_model_r)["op"] % model8_session_model_NO \div 2)
        /\ (model8_session_model_r)["env"] = 0)
      \/ ((model8_session_model_KIND = 11
          /\ (model8_session_model_slot)["tag"] = (model8_session_model_r)["op"])
        /\ (model8_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  model8_session_model_true_ ==
    model8_session_model_f((model8_session_model_x), (IF model8_session_model_KIND
        = 4
      \/ model8_session_model_KIND = 6
    THEN model8_session_model_lib["threads"][model8_session_model_t_659]["env"]
    ELSE (model8_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  model8_session_model_y ==
    IF model8_session_model_hit
    THEN model8_session_model_cache[(model8_session_model_k)]
    ELSE IF model8_session_model_again
    THEN (model8_session_model_slot)["out"]
    ELSE IF (model8_session_model_KIND = 8 /\ model8_session_model_table = 1)
      \/ (model8_session_model_KIND = 12 /\ model8_session_model_table = 0)
    THEN 0
    ELSE model8_session_model_true_
  IN
  (model8_session_model_r)["pc"] = 2
    /\ model8_session_model_runs'
      := [
        model8_session_model_runs EXCEPT
          ![model8_session_model_t_659] =
            [
              [ (model8_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = model8_session_model_y
            ]
      ]
    /\ model8_session_model_scratch' := model8_session_model_scratch
    /\ model8_session_model_cache'
      := (IF (model8_session_model_shared
          /\ (model8_session_model_KIND = 9
            \/ (model8_session_model_r)["env"] = 0))
        /\ ~model8_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == model8_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(model8_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = model8_session_model_k
          THEN model8_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE model8_session_model_cache)
    /\ model8_session_model_last'
      := (IF model8_session_model_KIND = 7
        /\ (model8_session_model_r)["env"] = 0
      THEN [
        model8_session_model_last EXCEPT
          ![model8_session_model_t_659] =
            [tag |->
                (model8_session_model_r)["op"] % model8_session_model_NO \div 2,
              out |-> model8_session_model_y]
      ]
      ELSE IF model8_session_model_KIND = 11
        /\ (model8_session_model_r)["env"] = 0
      THEN [
        model8_session_model_last EXCEPT
          ![0] =
            [
              (model8_session_model_slot) EXCEPT
                !["tag"] = (model8_session_model_r)["op"]
            ]
      ]
      ELSE model8_session_model_last)
    /\ model8_session_model_table'
      := (IF model8_session_model_KIND = 10
      THEN 2
      ELSE IF model8_session_model_KIND = 8 /\ model8_session_model_table = 0
      THEN 1
      ELSE model8_session_model_table)
    /\ model8_session_model_silent

(*
  @type: (() => Bool);
*)
model8_session_model_startup ==
  model8_session_model_KIND = 12
    /\ model8_session_model_table = 0
    /\ model8_session_model_runs' := model8_session_model_runs
    /\ model8_session_model_scratch' := model8_session_model_scratch
    /\ model8_session_model_cache' := model8_session_model_cache
    /\ model8_session_model_last' := model8_session_model_last
    /\ model8_session_model_table' := 2
    /\ model8_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (model8_session_model_refines /\ model8_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
model8_session_model_call(model8_session_model_t_234, model8_session_model_op_234) ==
  model8_session_model_runs[model8_session_model_t_234]["pc"] = 0
    /\ model8_session_model_runs'
      := [
        model8_session_model_runs EXCEPT
          ![model8_session_model_t_234] =
            [
              [
                [
                  model8_session_model_runs[model8_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = model8_session_model_op_234
              ] EXCEPT
                !["arg"] = model8_session_model_op_234
            ]
      ]
    /\ model8_session_model_scratch' := model8_session_model_scratch
    /\ model8_session_model_cache' := model8_session_model_cache
    /\ model8_session_model_last' := model8_session_model_last
    /\ model8_session_model_table' := model8_session_model_table
    /\ model8_session_model_emit([kind |-> model8_session_model_CALL,
      thread |-> model8_session_model_t_234,
      op |-> model8_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
model8_session_model_setenv(model8_session_model_t_286, model8_session_model_m_286) ==
  model8_session_model_runs[model8_session_model_t_286]["pc"] = 0
    /\ model8_session_model_runs'
      := [
        model8_session_model_runs EXCEPT
          ![model8_session_model_t_286] =
            [
              model8_session_model_runs[model8_session_model_t_286] EXCEPT
                !["env"] = model8_session_model_m_286
            ]
      ]
    /\ model8_session_model_scratch' := model8_session_model_scratch
    /\ model8_session_model_cache' := model8_session_model_cache
    /\ model8_session_model_last' := model8_session_model_last
    /\ model8_session_model_table' := model8_session_model_table
    /\ model8_session_model_emit([kind |-> model8_session_model_SETENV,
      thread |-> model8_session_model_t_286,
      op |-> 0,
      env |-> model8_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
model8_session_model_return(model8_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model8_session_model_r ==
    model8_session_model_runs[model8_session_model_t_768]
  IN
  (model8_session_model_r)["pc"] = 3
    /\ model8_session_model_runs'
      := [
        model8_session_model_runs EXCEPT
          ![model8_session_model_t_768] =
            [ (model8_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ model8_session_model_scratch' := model8_session_model_scratch
    /\ model8_session_model_cache' := model8_session_model_cache
    /\ model8_session_model_last'
      := (IF model8_session_model_KIND = 11
        /\ (model8_session_model_r)["env"] = 0
      THEN [
        model8_session_model_last EXCEPT
          ![0] =
            [
              model8_session_model_last[0] EXCEPT
                !["out"] = (model8_session_model_r)["local"]
            ]
      ]
      ELSE model8_session_model_last)
    /\ model8_session_model_table'
      := (IF model8_session_model_KIND = 8 /\ model8_session_model_table = 1
      THEN 2
      ELSE model8_session_model_table)
    /\ model8_session_model_emit([kind |-> model8_session_model_RETURN,
      thread |-> model8_session_model_t_768,
      op |-> (model8_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (model8_session_model_r)["arg"] /= (model8_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (model8_session_model_r)["env"]
            /= model8_session_model_lib["threads"][model8_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (model8_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
model8_session_model_fresh(model8_session_model_op_831, model8_session_model_m_831) ==
  model8_session_model_runs' := model8_session_model_runs
    /\ model8_session_model_scratch' := model8_session_model_scratch
    /\ model8_session_model_cache' := model8_session_model_cache
    /\ model8_session_model_last' := model8_session_model_last
    /\ model8_session_model_table' := model8_session_model_table
    /\ model8_session_model_emit([kind |-> model8_session_model_FRESH,
      thread |-> 0,
      op |-> model8_session_model_op_831,
      env |-> model8_session_model_m_831,
      flags |-> 0,
      res |->
        model8_session_model_f(model8_session_model_op_831, model8_session_model_m_831)])

(*
  @type: (() => Bool);
*)
model8_session_model_step ==
  \E model8_session_model_t \in model8_session_model_THREADS:
    \E model8_session_model_o \in model8_session_model_OPS:
      \E model8_session_model_m \in 0 .. 1:
        model8_session_model_call(model8_session_model_t, model8_session_model_o)
          \/ model8_session_model_setenv(model8_session_model_t, model8_session_model_m)
          \/ model8_session_model_reduce(model8_session_model_t)
          \/ model8_session_model_compute(model8_session_model_t)
          \/ model8_session_model_return(model8_session_model_t)
          \/ model8_session_model_fresh(model8_session_model_o, model8_session_model_m)
          \/ model8_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == model8_session_model_step

================================================================================
