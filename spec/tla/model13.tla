-------------------------------- MODULE model13 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model13_session_model_runs

(*
  @type: (() => Int);
*)
model13_session_model_NT == 3

VARIABLE
  (*
    @type: Int;
  *)
  model13_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  model13_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  model13_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  model13_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  model13_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model13_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  model13_session_model_ev

(*
  @type: (() => Int);
*)
model13_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  model13_session_model_verdictNow

(*
  @type: (() => Int);
*)
model13_session_model_NO == 2

(*
  @type: (() => Int);
*)
model13_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model13_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
model13_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
model13_session_model_OK == 0

(*
  @type: (() => Int);
*)
model13_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
model13_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
model13_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
model13_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
model13_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
model13_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
model13_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
model13_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
model13_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
model13_session_model_RACE == 7

(*
  @type: (() => Int);
*)
model13_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model13_session_model_learn(model13_session_model_s_1213, model13_session_model_op_1213,
model13_session_model_env_1213, model13_session_model_res_1213) ==
  IF <<model13_session_model_op_1213, model13_session_model_env_1213>>
    \in DOMAIN (model13_session_model_s_1213["memo"])
  THEN model13_session_model_s_1213
  ELSE [
    model13_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == model13_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<model13_session_model_op_1213, model13_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<
                model13_session_model_op_1213, model13_session_model_env_1213
              >>
            THEN model13_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
model13_session_model_KIND == 13

(*
  @type: ((Int, Int) => Int);
*)
model13_session_model_f(model13_session_model_x_67, model13_session_model_env_67) ==
  (100 * model13_session_model_env_67 + 7 * model13_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
model13_session_model_THREADS == 0 .. model13_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
model13_session_model_NOEV ==
  [kind |-> model13_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
model13_session_model_OPS == 0 .. model13_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model13_session_model_thread(model13_session_model_s_1130, model13_session_model_t_1130) ==
  IF model13_session_model_t_1130
    \in DOMAIN (model13_session_model_s_1130["threads"])
  THEN model13_session_model_s_1130["threads"][model13_session_model_t_1130]
  ELSE model13_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
model13_session_model_returns(model13_session_model_s_1181, model13_session_model_op_1181,
model13_session_model_env_1181, model13_session_model_flags_1181, model13_session_model_res_1181) ==
  IF model13_session_model_flags_1181 >= 8
  THEN model13_session_model_R_STATUS
  ELSE IF model13_session_model_flags_1181 % 2 = 1
  THEN model13_session_model_R_ARG
  ELSE IF model13_session_model_flags_1181 > 0
  THEN model13_session_model_R_ENV
  ELSE IF <<model13_session_model_op_1181, model13_session_model_env_1181>>
      \in DOMAIN (model13_session_model_s_1181["memo"])
    /\ model13_session_model_s_1181["memo"][
      <<model13_session_model_op_1181, model13_session_model_env_1181>>
    ]
      /= model13_session_model_res_1181
  THEN model13_session_model_R_RESULT
  ELSE model13_session_model_OK

(*
  @type: ((Int) => Int);
*)
model13_session_model_key(model13_session_model_op_82) ==
  IF model13_session_model_KIND = 3
  THEN model13_session_model_op_82 % model13_session_model_NO \div 2
  ELSE model13_session_model_op_82

(*
  @type: (() => Bool);
*)
model13_session_model_refines ==
  model13_session_model_verdictNow = model13_session_model_OK

(*
  @type: (() => Bool);
*)
model13_session_model_init ==
  model13_session_model_runs
      = [
        model13_session_model_t_112 \in model13_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ model13_session_model_scratch = 0
    /\ model13_session_model_cache = SetAsFun({})
    /\ model13_session_model_last
      = [
        model13_session_model_t_130 \in model13_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ model13_session_model_table = 0
    /\ model13_session_model_lib = model13_session_model_START
    /\ model13_session_model_ev = model13_session_model_NOEV
    /\ model13_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
model13_session_model_verdict(model13_session_model_s_1360, model13_session_model_e_1360) ==
  IF model13_session_model_e_1360["kind"] = model13_session_model_CALL
  THEN IF (model13_session_model_thread(model13_session_model_s_1360, model13_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model13_session_model_R_PROTOCOL
  ELSE model13_session_model_OK
  ELSE IF model13_session_model_e_1360["kind"] = model13_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model13_session_model_t ==
    model13_session_model_thread(model13_session_model_s_1360, model13_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((model13_session_model_t)["busy"])
    \/ (model13_session_model_t)["op"] /= model13_session_model_e_1360["op"]
  THEN model13_session_model_R_PROTOCOL
  ELSE model13_session_model_returns(model13_session_model_s_1360, model13_session_model_e_1360[
    "op"
  ], (model13_session_model_t)["env"], model13_session_model_e_1360["flags"], model13_session_model_e_1360[
    "res"
  ])
  ELSE IF model13_session_model_e_1360["kind"] = model13_session_model_FRESH
    \/ model13_session_model_e_1360["kind"] = model13_session_model_OBSERVED
  THEN model13_session_model_returns(model13_session_model_s_1360, model13_session_model_e_1360[
    "op"
  ], model13_session_model_e_1360["env"], model13_session_model_e_1360["flags"],
  model13_session_model_e_1360["res"])
  ELSE IF model13_session_model_e_1360["kind"] = model13_session_model_ATOMIC
  THEN IF (model13_session_model_thread(model13_session_model_s_1360, model13_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model13_session_model_R_PROTOCOL
  ELSE model13_session_model_returns(model13_session_model_s_1360, model13_session_model_e_1360[
    "op"
  ], (model13_session_model_thread(model13_session_model_s_1360, model13_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], model13_session_model_e_1360["flags"], model13_session_model_e_1360["res"])
  ELSE IF model13_session_model_e_1360["kind"] = model13_session_model_SETENV
  THEN IF (model13_session_model_thread(model13_session_model_s_1360, model13_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model13_session_model_R_PROTOCOL
  ELSE model13_session_model_OK
  ELSE IF model13_session_model_e_1360["kind"] = model13_session_model_RACE
  THEN model13_session_model_R_RACE
  ELSE model13_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model13_session_model_after(model13_session_model_s_1519, model13_session_model_e_1519) ==
  IF model13_session_model_e_1519["kind"] = model13_session_model_CALL
  THEN [
    model13_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == model13_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {model13_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = model13_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (model13_session_model_thread(model13_session_model_s_1519, model13_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = model13_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = model13_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF model13_session_model_e_1519["kind"] = model13_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model13_session_model_t ==
    model13_session_model_thread(model13_session_model_s_1519, model13_session_model_e_1519[
      "thread"
    ])
  IN
  model13_session_model_learn([
    model13_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == model13_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {model13_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = model13_session_model_e_1519["thread"]
            THEN [ (model13_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], model13_session_model_e_1519["op"], (model13_session_model_t)["env"], model13_session_model_e_1519[
    "res"
  ])
  ELSE IF model13_session_model_e_1519["kind"] = model13_session_model_FRESH
    \/ model13_session_model_e_1519["kind"] = model13_session_model_OBSERVED
  THEN model13_session_model_learn(model13_session_model_s_1519, model13_session_model_e_1519[
    "op"
  ], model13_session_model_e_1519["env"], model13_session_model_e_1519["res"])
  ELSE IF model13_session_model_e_1519["kind"] = model13_session_model_ATOMIC
  THEN model13_session_model_learn(model13_session_model_s_1519, model13_session_model_e_1519[
    "op"
  ], (model13_session_model_thread(model13_session_model_s_1519, model13_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], model13_session_model_e_1519["res"])
  ELSE IF model13_session_model_e_1519["kind"] = model13_session_model_SETENV
  THEN [
    model13_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == model13_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {model13_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = model13_session_model_e_1519["thread"]
            THEN [
              (model13_session_model_thread(model13_session_model_s_1519, model13_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = model13_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF model13_session_model_e_1519["kind"] = model13_session_model_NEWPROC
  THEN [ model13_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE model13_session_model_s_1519

(*
  @type: (() => Bool);
*)
model13_session_model_silent ==
  model13_session_model_ev' := (model13_session_model_NOEV)
    /\ model13_session_model_verdictNow' := 0
    /\ model13_session_model_lib' := model13_session_model_lib

(*
  @type: (() => Bool);
*)
model13_session_model_consistent ==
  \A model13_session_model_t_884 \in model13_session_model_THREADS:
    (model13_session_model_runs[model13_session_model_t_884]["pc"] > 0)
      = (model13_session_model_thread(model13_session_model_lib, model13_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == model13_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
model13_session_model_emit(model13_session_model_e_165) ==
  model13_session_model_ev' := model13_session_model_e_165
    /\ model13_session_model_verdictNow'
      := (model13_session_model_verdict(model13_session_model_lib, model13_session_model_e_165))
    /\ model13_session_model_lib'
      := (model13_session_model_after(model13_session_model_lib, model13_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
model13_session_model_reduce(model13_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model13_session_model_r ==
    model13_session_model_runs[model13_session_model_t_383]
  IN
  (model13_session_model_r)["pc"] = 1
    /\ model13_session_model_runs'
      := [
        model13_session_model_runs EXCEPT
          ![model13_session_model_t_383] =
            [
              [
                [
                  [ (model13_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (model13_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF model13_session_model_KIND = 1
                    THEN (model13_session_model_r)["arg"] + 1
                    ELSE (model13_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF model13_session_model_KIND = 4
                    /\ (model13_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF model13_session_model_KIND = 6
                  THEN 0
                  ELSE (model13_session_model_r)["env"]
            ]
      ]
    /\ model13_session_model_scratch'
      := (IF model13_session_model_KIND = 2
      THEN (model13_session_model_r)["arg"]
      ELSE model13_session_model_scratch)
    /\ model13_session_model_cache'
      := (IF model13_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == model13_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(model13_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = model13_session_model_t_383 % 2
          THEN (model13_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE model13_session_model_cache)
    /\ model13_session_model_last' := model13_session_model_last
    /\ model13_session_model_table' := model13_session_model_table
    /\ model13_session_model_silent

(*
  @type: ((Int) => Bool);
*)
model13_session_model_compute(model13_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model13_session_model_r ==
    model13_session_model_runs[model13_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  model13_session_model_x ==
    IF model13_session_model_KIND = 2
    THEN model13_session_model_scratch
    ELSE IF model13_session_model_KIND = 13
    THEN model13_session_model_cache[(model13_session_model_t_659 % 2)]
    ELSE (model13_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  model13_session_model_k ==
    model13_session_model_key((model13_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  model13_session_model_shared ==
    (model13_session_model_KIND = 3 \/ model13_session_model_KIND = 5)
      \/ model13_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  model13_session_model_hit ==
    (model13_session_model_shared
        /\ model13_session_model_k \in DOMAIN model13_session_model_cache)
      /\ (model13_session_model_KIND = 9 \/ (model13_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  model13_session_model_slot ==
    model13_session_model_last[
      (IF model13_session_model_KIND = 7 THEN model13_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  model13_session_model_again ==
    ((model13_session_model_KIND = 7
          /\ (model13_session_model_slot)["tag"]
            = (model13_session_model_r)["op"] % model13_session_model_NO \div 2)
        /\ (model13_session_model_r)["env"] = 0)
      \/ ((model13_session_model_KIND = 11
          /\ (model13_session_model_slot)["tag"]
            = (model13_session_model_r)["op"])
        /\ (model13_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  model13_session_model_true_ ==
    model13_session_model_f((model13_session_model_x), (IF model13_session_model_KIND
        = 4
      \/ model13_session_model_KIND = 6
    THEN model13_session_model_lib["threads"][model13_session_model_t_659][
      "env"
    ]
    ELSE (model13_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  model13_session_model_y ==
    IF model13_session_model_hit
    THEN model13_session_model_cache[(model13_session_model_k)]
    ELSE IF model13_session_model_again
    THEN (model13_session_model_slot)["out"]
    ELSE IF (model13_session_model_KIND = 8 /\ model13_session_model_table = 1)
      \/ (model13_session_model_KIND = 12 /\ model13_session_model_table = 0)
    THEN 0
    ELSE model13_session_model_true_
  IN
  (model13_session_model_r)["pc"] = 2
    /\ model13_session_model_runs'
      := [
        model13_session_model_runs EXCEPT
          ![model13_session_model_t_659] =
            [
              [ (model13_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = model13_session_model_y
            ]
      ]
    /\ model13_session_model_scratch' := model13_session_model_scratch
    /\ model13_session_model_cache'
      := (IF (model13_session_model_shared
          /\ (model13_session_model_KIND = 9
            \/ (model13_session_model_r)["env"] = 0))
        /\ ~model13_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == model13_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(model13_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = model13_session_model_k
          THEN model13_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE model13_session_model_cache)
    /\ model13_session_model_last'
      := (IF model13_session_model_KIND = 7
        /\ (model13_session_model_r)["env"] = 0
      THEN [
        model13_session_model_last EXCEPT
          ![model13_session_model_t_659] =
            [tag |->
                (model13_session_model_r)["op"]
                  % model13_session_model_NO \div 2,
              out |-> model13_session_model_y]
      ]
      ELSE IF model13_session_model_KIND = 11
        /\ (model13_session_model_r)["env"] = 0
      THEN [
        model13_session_model_last EXCEPT
          ![0] =
            [
              (model13_session_model_slot) EXCEPT
                !["tag"] = (model13_session_model_r)["op"]
            ]
      ]
      ELSE model13_session_model_last)
    /\ model13_session_model_table'
      := (IF model13_session_model_KIND = 10
      THEN 2
      ELSE IF model13_session_model_KIND = 8 /\ model13_session_model_table = 0
      THEN 1
      ELSE model13_session_model_table)
    /\ model13_session_model_silent

(*
  @type: (() => Bool);
*)
model13_session_model_startup ==
  model13_session_model_KIND = 12
    /\ model13_session_model_table = 0
    /\ model13_session_model_runs' := model13_session_model_runs
    /\ model13_session_model_scratch' := model13_session_model_scratch
    /\ model13_session_model_cache' := model13_session_model_cache
    /\ model13_session_model_last' := model13_session_model_last
    /\ model13_session_model_table' := 2
    /\ model13_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (model13_session_model_refines /\ model13_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
model13_session_model_call(model13_session_model_t_234, model13_session_model_op_234) ==
  model13_session_model_runs[model13_session_model_t_234]["pc"] = 0
    /\ model13_session_model_runs'
      := [
        model13_session_model_runs EXCEPT
          ![model13_session_model_t_234] =
            [
              [
                [
                  model13_session_model_runs[model13_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = model13_session_model_op_234
              ] EXCEPT
                !["arg"] = model13_session_model_op_234
            ]
      ]
    /\ model13_session_model_scratch' := model13_session_model_scratch
    /\ model13_session_model_cache' := model13_session_model_cache
    /\ model13_session_model_last' := model13_session_model_last
    /\ model13_session_model_table' := model13_session_model_table
    /\ model13_session_model_emit([kind |-> model13_session_model_CALL,
      thread |-> model13_session_model_t_234,
      op |-> model13_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
model13_session_model_setenv(model13_session_model_t_286, model13_session_model_m_286) ==
  model13_session_model_runs[model13_session_model_t_286]["pc"] = 0
    /\ model13_session_model_runs'
      := [
        model13_session_model_runs EXCEPT
          ![model13_session_model_t_286] =
            [
              model13_session_model_runs[model13_session_model_t_286] EXCEPT
                !["env"] = model13_session_model_m_286
            ]
      ]
    /\ model13_session_model_scratch' := model13_session_model_scratch
    /\ model13_session_model_cache' := model13_session_model_cache
    /\ model13_session_model_last' := model13_session_model_last
    /\ model13_session_model_table' := model13_session_model_table
    /\ model13_session_model_emit([kind |-> model13_session_model_SETENV,
      thread |-> model13_session_model_t_286,
      op |-> 0,
      env |-> model13_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
model13_session_model_return(model13_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model13_session_model_r ==
    model13_session_model_runs[model13_session_model_t_768]
  IN
  (model13_session_model_r)["pc"] = 3
    /\ model13_session_model_runs'
      := [
        model13_session_model_runs EXCEPT
          ![model13_session_model_t_768] =
            [ (model13_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ model13_session_model_scratch' := model13_session_model_scratch
    /\ model13_session_model_cache' := model13_session_model_cache
    /\ model13_session_model_last'
      := (IF model13_session_model_KIND = 11
        /\ (model13_session_model_r)["env"] = 0
      THEN [
        model13_session_model_last EXCEPT
          ![0] =
            [
              model13_session_model_last[0] EXCEPT
                !["out"] = (model13_session_model_r)["local"]
            ]
      ]
      ELSE model13_session_model_last)
    /\ model13_session_model_table'
      := (IF model13_session_model_KIND = 8 /\ model13_session_model_table = 1
      THEN 2
      ELSE model13_session_model_table)
    /\ model13_session_model_emit([kind |-> model13_session_model_RETURN,
      thread |-> model13_session_model_t_768,
      op |-> (model13_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (model13_session_model_r)["arg"] /= (model13_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (model13_session_model_r)["env"]
            /= model13_session_model_lib["threads"][model13_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (model13_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
model13_session_model_fresh(model13_session_model_op_831, model13_session_model_m_831) ==
  model13_session_model_runs' := model13_session_model_runs
    /\ model13_session_model_scratch' := model13_session_model_scratch
    /\ model13_session_model_cache' := model13_session_model_cache
    /\ model13_session_model_last' := model13_session_model_last
    /\ model13_session_model_table' := model13_session_model_table
    /\ model13_session_model_emit([kind |-> model13_session_model_FRESH,
      thread |-> 0,
      op |-> model13_session_model_op_831,
      env |-> model13_session_model_m_831,
      flags |-> 0,
      res |->
        model13_session_model_f(model13_session_model_op_831, model13_session_model_m_831)])

(*
  @type: (() => Bool);
*)
model13_session_model_step ==
  \E model13_session_model_t \in model13_session_model_THREADS:
    \E model13_session_model_o \in model13_session_model_OPS:
      \E model13_session_model_m \in 0 .. 1:
        model13_session_model_call(model13_session_model_t, model13_session_model_o)
          \/ model13_session_model_setenv(model13_session_model_t, model13_session_model_m)
          \/ model13_session_model_reduce(model13_session_model_t)
          \/ model13_session_model_compute(model13_session_model_t)
          \/ model13_session_model_return(model13_session_model_t)
          \/ model13_session_model_fresh(model13_session_model_o, model13_session_model_m)
          \/ model13_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == model13_session_model_step

================================================================================
