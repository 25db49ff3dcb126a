-------------------------------- MODULE model12 --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model12_session_model_runs

(*
  @type: (() => Int);
*)
model12_session_model_NT == 2

VARIABLE
  (*
    @type: Int;
  *)
  model12_session_model_scratch

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  model12_session_model_cache

VARIABLE
  (*
    @type: (Int -> { out: Int, tag: Int });
  *)
  model12_session_model_last

VARIABLE
  (*
    @type: Int;
  *)
  model12_session_model_table

VARIABLE
  (*
    @type: { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) };
  *)
  model12_session_model_lib

(*
  @type: (() => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model12_session_model_START == [memo |-> SetAsFun({}), threads |-> SetAsFun({})]

VARIABLE
  (*
    @type: { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int };
  *)
  model12_session_model_ev

(*
  @type: (() => Int);
*)
model12_session_model_NEWPROC == 4

VARIABLE
  (*
    @type: Int;
  *)
  model12_session_model_verdictNow

(*
  @type: (() => Int);
*)
model12_session_model_NO == 2

(*
  @type: (() => Int);
*)
model12_session_model_CALL == 0

(*
  @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model12_session_model_IDLE == [busy |-> FALSE, op |-> 0, env |-> 0, arg |-> 0]

(*
  @type: (() => Int);
*)
model12_session_model_R_PROTOCOL == 14

(*
  @type: (() => Int);
*)
model12_session_model_OK == 0

(*
  @type: (() => Int);
*)
model12_session_model_RETURN == 1

(*
  @type: (() => Int);
*)
model12_session_model_R_STATUS == 9

(*
  @type: (() => Int);
*)
model12_session_model_R_ARG == 10

(*
  @type: (() => Int);
*)
model12_session_model_R_ENV == 11

(*
  @type: (() => Int);
*)
model12_session_model_R_RESULT == 12

(*
  @type: (() => Int);
*)
model12_session_model_FRESH == 2

(*
  @type: (() => Int);
*)
model12_session_model_OBSERVED == 6

(*
  @type: (() => Int);
*)
model12_session_model_ATOMIC == 5

(*
  @type: (() => Int);
*)
model12_session_model_SETENV == 3

(*
  @type: (() => Int);
*)
model12_session_model_RACE == 7

(*
  @type: (() => Int);
*)
model12_session_model_R_RACE == 15

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model12_session_model_learn(model12_session_model_s_1213, model12_session_model_op_1213,
model12_session_model_env_1213, model12_session_model_res_1213) ==
  IF <<model12_session_model_op_1213, model12_session_model_env_1213>>
    \in DOMAIN (model12_session_model_s_1213["memo"])
  THEN model12_session_model_s_1213
  ELSE [
    model12_session_model_s_1213 EXCEPT
      !["memo"] =
        LET (*
          @type: (() => (<<Int, Int>> -> Int));
        *)
        __quint_var0 == model12_session_model_s_1213["memo"]
        IN
        LET (*
          @type: (() => Set(<<Int, Int>>));
        *)
        __quint_var1 == DOMAIN __quint_var0
        IN
        [
          __quint_var2 \in
            {<<model12_session_model_op_1213, model12_session_model_env_1213>>}
              \union __quint_var1 |->
            IF __quint_var2
              = <<
                model12_session_model_op_1213, model12_session_model_env_1213
              >>
            THEN model12_session_model_res_1213
            ELSE (__quint_var0)[__quint_var2]
        ]
  ]

(*
  @type: (() => Int);
*)
model12_session_model_KIND == 12

(*
  @type: ((Int, Int) => Int);
*)
model12_session_model_f(model12_session_model_x_67, model12_session_model_env_67) ==
  (100 * model12_session_model_env_67 + 7 * model12_session_model_x_67) + 3

(*
  @type: (() => Set(Int));
*)
model12_session_model_THREADS == 0 .. model12_session_model_NT - 1

(*
  @type: (() => { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int });
*)
model12_session_model_NOEV ==
  [kind |-> model12_session_model_NEWPROC,
    thread |-> 0,
    op |-> 0,
    env |-> 0,
    flags |-> 0,
    res |-> 0]

(*
  @type: (() => Set(Int));
*)
model12_session_model_OPS == 0 .. model12_session_model_NO - 1

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int) => { arg: Int, busy: Bool, env: Int, op: Int });
*)
model12_session_model_thread(model12_session_model_s_1130, model12_session_model_t_1130) ==
  IF model12_session_model_t_1130
    \in DOMAIN (model12_session_model_s_1130["threads"])
  THEN model12_session_model_s_1130["threads"][model12_session_model_t_1130]
  ELSE model12_session_model_IDLE

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, Int, Int, Int, Int) => Int);
*)
model12_session_model_returns(model12_session_model_s_1181, model12_session_model_op_1181,
model12_session_model_env_1181, model12_session_model_flags_1181, model12_session_model_res_1181) ==
  IF model12_session_model_flags_1181 >= 8
  THEN model12_session_model_R_STATUS
  ELSE IF model12_session_model_flags_1181 % 2 = 1
  THEN model12_session_model_R_ARG
  ELSE IF model12_session_model_flags_1181 > 0
  THEN model12_session_model_R_ENV
  ELSE IF <<model12_session_model_op_1181, model12_session_model_env_1181>>
      \in DOMAIN (model12_session_model_s_1181["memo"])
    /\ model12_session_model_s_1181["memo"][
      <<model12_session_model_op_1181, model12_session_model_env_1181>>
    ]
      /= model12_session_model_res_1181
  THEN model12_session_model_R_RESULT
  ELSE model12_session_model_OK

(*
  @type: ((Int) => Int);
*)
model12_session_model_key(model12_session_model_op_82) ==
  IF model12_session_model_KIND = 3
  THEN model12_session_model_op_82 % model12_session_model_NO \div 2
  ELSE model12_session_model_op_82

(*
  @type: (() => Bool);
*)
model12_session_model_refines ==
  model12_session_model_verdictNow = model12_session_model_OK

(*
  @type: (() => Bool);
*)
model12_session_model_init ==
  model12_session_model_runs
      = [
        model12_session_model_t_112 \in model12_session_model_THREADS |->
          [pc |-> 0, op |-> 0, arg |-> 0, local |-> 0, env |-> 0]
      ]
    /\ model12_session_model_scratch = 0
    /\ model12_session_model_cache = SetAsFun({})
    /\ model12_session_model_last
      = [
        model12_session_model_t_130 \in model12_session_model_THREADS |->
          [tag |-> -1, out |-> 0]
      ]
    /\ model12_session_model_table = 0
    /\ model12_session_model_lib = model12_session_model_START
    /\ model12_session_model_ev = model12_session_model_NOEV
    /\ model12_session_model_verdictNow = 0

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Int);
*)
model12_session_model_verdict(model12_session_model_s_1360, model12_session_model_e_1360) ==
  IF model12_session_model_e_1360["kind"] = model12_session_model_CALL
  THEN IF (model12_session_model_thread(model12_session_model_s_1360, model12_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model12_session_model_R_PROTOCOL
  ELSE model12_session_model_OK
  ELSE IF model12_session_model_e_1360["kind"] = model12_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model12_session_model_t ==
    model12_session_model_thread(model12_session_model_s_1360, model12_session_model_e_1360[
      "thread"
    ])
  IN
  IF ~((model12_session_model_t)["busy"])
    \/ (model12_session_model_t)["op"] /= model12_session_model_e_1360["op"]
  THEN model12_session_model_R_PROTOCOL
  ELSE model12_session_model_returns(model12_session_model_s_1360, model12_session_model_e_1360[
    "op"
  ], (model12_session_model_t)["env"], model12_session_model_e_1360["flags"], model12_session_model_e_1360[
    "res"
  ])
  ELSE IF model12_session_model_e_1360["kind"] = model12_session_model_FRESH
    \/ model12_session_model_e_1360["kind"] = model12_session_model_OBSERVED
  THEN model12_session_model_returns(model12_session_model_s_1360, model12_session_model_e_1360[
    "op"
  ], model12_session_model_e_1360["env"], model12_session_model_e_1360["flags"],
  model12_session_model_e_1360["res"])
  ELSE IF model12_session_model_e_1360["kind"] = model12_session_model_ATOMIC
  THEN IF (model12_session_model_thread(model12_session_model_s_1360, model12_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model12_session_model_R_PROTOCOL
  ELSE model12_session_model_returns(model12_session_model_s_1360, model12_session_model_e_1360[
    "op"
  ], (model12_session_model_thread(model12_session_model_s_1360, model12_session_model_e_1360[
    "thread"
  ]))[
    "env"
  ], model12_session_model_e_1360["flags"], model12_session_model_e_1360["res"])
  ELSE IF model12_session_model_e_1360["kind"] = model12_session_model_SETENV
  THEN IF (model12_session_model_thread(model12_session_model_s_1360, model12_session_model_e_1360[
    "thread"
  ]))[
    "busy"
  ]
  THEN model12_session_model_R_PROTOCOL
  ELSE model12_session_model_OK
  ELSE IF model12_session_model_e_1360["kind"] = model12_session_model_RACE
  THEN model12_session_model_R_RACE
  ELSE model12_session_model_OK

(*
  @type: (({ memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) }, { env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => { memo: (<<Int, Int>> -> Int), threads: (Int -> { arg: Int, busy: Bool, env: Int, op: Int }) });
*)
model12_session_model_after(model12_session_model_s_1519, model12_session_model_e_1519) ==
  IF model12_session_model_e_1519["kind"] = model12_session_model_CALL
  THEN [
    model12_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var3 == model12_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var4 == DOMAIN __quint_var3 IN
        [
          __quint_var5 \in
            {model12_session_model_e_1519["thread"]} \union __quint_var4 |->
            IF __quint_var5 = model12_session_model_e_1519["thread"]
            THEN [
              [
                [
                  (model12_session_model_thread(model12_session_model_s_1519, model12_session_model_e_1519[
                    "thread"
                  ])) EXCEPT
                    !["busy"] = TRUE
                ] EXCEPT
                  !["op"] = model12_session_model_e_1519["op"]
              ] EXCEPT
                !["arg"] = model12_session_model_e_1519["op"]
            ]
            ELSE (__quint_var3)[__quint_var5]
        ]
  ]
  ELSE IF model12_session_model_e_1519["kind"] = model12_session_model_RETURN
  THEN LET (*
    @type: (() => { arg: Int, busy: Bool, env: Int, op: Int });
  *)
  model12_session_model_t ==
    model12_session_model_thread(model12_session_model_s_1519, model12_session_model_e_1519[
      "thread"
    ])
  IN
  model12_session_model_learn([
    model12_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var6 == model12_session_model_s_1519["threads"]
        IN
        LET (*@type: (() => Set(Int)); *) __quint_var7 == DOMAIN __quint_var6 IN
        [
          __quint_var8 \in
            {model12_session_model_e_1519["thread"]} \union __quint_var7 |->
            IF __quint_var8 = model12_session_model_e_1519["thread"]
            THEN [ (model12_session_model_t) EXCEPT !["busy"] = FALSE ]
            ELSE (__quint_var6)[__quint_var8]
        ]
  ], model12_session_model_e_1519["op"], (model12_session_model_t)["env"], model12_session_model_e_1519[
    "res"
  ])
  ELSE IF model12_session_model_e_1519["kind"] = model12_session_model_FRESH
    \/ model12_session_model_e_1519["kind"] = model12_session_model_OBSERVED
  THEN model12_session_model_learn(model12_session_model_s_1519, model12_session_model_e_1519[
    "op"
  ], model12_session_model_e_1519["env"], model12_session_model_e_1519["res"])
  ELSE IF model12_session_model_e_1519["kind"] = model12_session_model_ATOMIC
  THEN model12_session_model_learn(model12_session_model_s_1519, model12_session_model_e_1519[
    "op"
  ], (model12_session_model_thread(model12_session_model_s_1519, model12_session_model_e_1519[
    "thread"
  ]))[
    "env"
  ], model12_session_model_e_1519["res"])
  ELSE IF model12_session_model_e_1519["kind"] = model12_session_model_SETENV
  THEN [
    model12_session_model_s_1519 EXCEPT
      !["threads"] =
        LET (*
          @type: (() => (Int -> { arg: Int, busy: Bool, env: Int, op: Int }));
        *)
        __quint_var9 == model12_session_model_s_1519["threads"]
        IN
        LET (*
          @type: (() => Set(Int));
        *)
        __quint_var10 == DOMAIN __quint_var9
        IN
        [
          __quint_var11 \in
            {model12_session_model_e_1519["thread"]} \union __quint_var10 |->
            IF __quint_var11 = model12_session_model_e_1519["thread"]
            THEN [
              (model12_session_model_thread(model12_session_model_s_1519, model12_session_model_e_1519[
                "thread"
              ])) EXCEPT
                !["env"] = model12_session_model_e_1519["env"]
            ]
            ELSE (__quint_var9)[__quint_var11]
        ]
  ]
  ELSE IF model12_session_model_e_1519["kind"] = model12_session_model_NEWPROC
  THEN [ model12_session_model_s_1519 EXCEPT !["threads"] = SetAsFun({}) ]
  ELSE model12_session_model_s_1519

(*
  @type: (() => Bool);
*)
model12_session_model_silent ==
  model12_session_model_ev' := (model12_session_model_NOEV)
    /\ model12_session_model_verdictNow' := 0
    /\ model12_session_model_lib' := model12_session_model_lib

(*
  @type: (() => Bool);
*)
model12_session_model_consistent ==
  \A model12_session_model_t_884 \in model12_session_model_THREADS:
    (model12_session_model_runs[model12_session_model_t_884]["pc"] > 0)
      = (model12_session_model_thread(model12_session_model_lib, model12_session_model_t_884))[
        "busy"
      ]

(*
  @type: (() => Bool);
*)
q_init == model12_session_model_init

(*
  @type: (({ env: Int, flags: Int, kind: Int, op: Int, res: Int, thread: Int }) => Bool);
*)
model12_session_model_emit(model12_session_model_e_165) ==
  model12_session_model_ev' := model12_session_model_e_165
    /\ model12_session_model_verdictNow'
      := (model12_session_model_verdict(model12_session_model_lib, model12_session_model_e_165))
    /\ model12_session_model_lib'
      := (model12_session_model_after(model12_session_model_lib, model12_session_model_e_165))

(*
  @type: ((Int) => Bool);
*)
model12_session_model_reduce(model12_session_model_t_383) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model12_session_model_r ==
    model12_session_model_runs[model12_session_model_t_383]
  IN
  (model12_session_model_r)["pc"] = 1
    /\ model12_session_model_runs'
      := [
        model12_session_model_runs EXCEPT
          ![model12_session_model_t_383] =
            [
              [
                [
                  [ (model12_session_model_r) EXCEPT !["pc"] = 2 ] EXCEPT
                    !["local"] = (model12_session_model_r)["arg"]
                ] EXCEPT
                  !["arg"] =
                    IF model12_session_model_KIND = 1
                    THEN (model12_session_model_r)["arg"] + 1
                    ELSE (model12_session_model_r)["arg"]
              ] EXCEPT
                !["env"] =
                  IF model12_session_model_KIND = 4
                    /\ (model12_session_model_r)["op"] = 0
                  THEN 1
                  ELSE IF model12_session_model_KIND = 6
                  THEN 0
                  ELSE (model12_session_model_r)["env"]
            ]
      ]
    /\ model12_session_model_scratch'
      := (IF model12_session_model_KIND = 2
      THEN (model12_session_model_r)["arg"]
      ELSE model12_session_model_scratch)
    /\ model12_session_model_cache'
      := (IF model12_session_model_KIND = 13
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var12 == model12_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var13 == DOMAIN __quint_var12 IN
      [
        __quint_var14 \in
          {(model12_session_model_t_383 % 2)} \union __quint_var13 |->
          IF __quint_var14 = model12_session_model_t_383 % 2
          THEN (model12_session_model_r)["arg"]
          ELSE (__quint_var12)[__quint_var14]
      ]
      ELSE model12_session_model_cache)
    /\ model12_session_model_last' := model12_session_model_last
    /\ model12_session_model_table' := model12_session_model_table
    /\ model12_session_model_silent

(*
  @type: ((Int) => Bool);
*)
model12_session_model_compute(model12_session_model_t_659) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model12_session_model_r ==
    model12_session_model_runs[model12_session_model_t_659]
  IN
  LET (*
    @type: (() => Int);
  *)
  model12_session_model_x ==
    IF model12_session_model_KIND = 2
    THEN model12_session_model_scratch
    ELSE IF model12_session_model_KIND = 13
    THEN model12_session_model_cache[(model12_session_model_t_659 % 2)]
    ELSE (model12_session_model_r)["local"]
  IN
  LET (*
    @type: (() => Int);
  *)
  model12_session_model_k ==
    model12_session_model_key((model12_session_model_r)["op"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  model12_session_model_shared ==
    (model12_session_model_KIND = 3 \/ model12_session_model_KIND = 5)
      \/ model12_session_model_KIND = 9
  IN
  LET (*
    @type: (() => Bool);
  *)
  model12_session_model_hit ==
    (model12_session_model_shared
        /\ model12_session_model_k \in DOMAIN model12_session_model_cache)
      /\ (model12_session_model_KIND = 9 \/ (model12_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => { out: Int, tag: Int });
  *)
  model12_session_model_slot ==
    model12_session_model_last[
      (IF model12_session_model_KIND = 7 THEN model12_session_model_t_659 ELSE 0)
    ]
  IN
  LET (*
    @type: (() => Bool);
  *)
  model12_session_model_again ==
    ((model12_session_model_KIND = 7
          /\ (model12_session_model_slot)["tag"]
            = (model12_session_model_r)["op"] % model12_session_model_NO \div 2)
        /\ (model12_session_model_r)["env"] = 0)
      \/ ((model12_session_model_KIND = 11
          /\ (model12_session_model_slot)["tag"]
            = (model12_session_model_r)["op"])
        /\ (model12_session_model_r)["env"] = 0)
  IN
  LET (*
    @type: (() => Int);
  *)
  model12_session_model_true_ ==
    model12_session_model_f((model12_session_model_x), (IF model12_session_model_KIND
        = 4
      \/ model12_session_model_KIND = 6
    THEN model12_session_model_lib["threads"][model12_session_model_t_659][
      "env"
    ]
    ELSE (model12_session_model_r)["env"]))
  IN
  LET (*
    @type: (() => Int);
  *)
  model12_session_model_y ==
    IF model12_session_model_hit
    THEN model12_session_model_cache[(model12_session_model_k)]
    ELSE IF model12_session_model_again
    THEN (model12_session_model_slot)["out"]
    ELSE IF (model12_session_model_KIND = 8 /\ model12_session_model_table = 1)
      \/ (model12_session_model_KIND = 12 /\ model12_session_model_table = 0)
    THEN 0
    ELSE model12_session_model_true_
  IN
  (model12_session_model_r)["pc"] = 2
    /\ model12_session_model_runs'
      := [
        model12_session_model_runs EXCEPT
          ![model12_session_model_t_659] =
            [
              [ (model12_session_model_r) EXCEPT !["pc"] = 3 ] EXCEPT
                !["local"] = model12_session_model_y
            ]
      ]
    /\ model12_session_model_scratch' := model12_session_model_scratch
    /\ model12_session_model_cache'
      := (IF (model12_session_model_shared
          /\ (model12_session_model_KIND = 9
            \/ (model12_session_model_r)["env"] = 0))
        /\ ~model12_session_model_hit
      THEN LET (*
        @type: (() => (Int -> Int));
      *)
      __quint_var15 == model12_session_model_cache
      IN
      LET (*@type: (() => Set(Int)); *) __quint_var16 == DOMAIN __quint_var15 IN
      [
        __quint_var17 \in {(model12_session_model_k)} \union __quint_var16 |->
          IF __quint_var17 = model12_session_model_k
          THEN model12_session_model_y
          ELSE (__quint_var15)[__quint_var17]
      ]
      ELSE model12_session_model_cache)
    /\ model12_session_model_last'
      := (IF model12_session_model_KIND = 7
        /\ (model12_session_model_r)["env"] = 0
      THEN [
        model12_session_model_last EXCEPT
          ![model12_session_model_t_659] =
            [tag |->
                (model12_session_model_r)["op"]
                  % model12_session_model_NO \div 2,
              out |-> model12_session_model_y]
      ]
      ELSE IF model12_session_model_KIND = 11
        /\ (model12_session_model_r)["env"] = 0
      THEN [
        model12_session_model_last EXCEPT
          ![0] =
            [
              (model12_session_model_slot) EXCEPT
                !["tag"] = (model12_session_model_r)["op"]
            ]
      ]
      ELSE model12_session_model_last)
    /\ model12_session_model_table'
      := (IF model12_session_model_KIND = 10
      THEN 2
      ELSE IF model12_session_model_KIND = 8 /\ model12_session_model_table = 0
      THEN 1
      ELSE model12_session_model_table)
    /\ model12_session_model_silent

(*
  @type: (() => Bool);
*)
model12_session_model_startup ==
  model12_session_model_KIND = 12
    /\ model12_session_model_table = 0
    /\ model12_session_model_runs' := model12_session_model_runs
    /\ model12_session_model_scratch' := model12_session_model_scratch
    /\ model12_session_model_cache' := model12_session_model_cache
    /\ model12_session_model_last' := model12_session_model_last
    /\ model12_session_model_table' := 2
    /\ model12_session_model_silent

(*
  @type: (() => Bool);
*)
q_inv == (model12_session_model_refines /\ model12_session_model_consistent)

(*
  @type: ((Int, Int) => Bool);
*)
model12_session_model_call(model12_session_model_t_234, model12_session_model_op_234) ==
  model12_session_model_runs[model12_session_model_t_234]["pc"] = 0
    /\ model12_session_model_runs'
      := [
        model12_session_model_runs EXCEPT
          ![model12_session_model_t_234] =
            [
              [
                [
                  model12_session_model_runs[model12_session_model_t_234] EXCEPT
                    !["pc"] = 1
                ] EXCEPT
                  !["op"] = model12_session_model_op_234
              ] EXCEPT
                !["arg"] = model12_session_model_op_234
            ]
      ]
    /\ model12_session_model_scratch' := model12_session_model_scratch
    /\ model12_session_model_cache' := model12_session_model_cache
    /\ model12_session_model_last' := model12_session_model_last
    /\ model12_session_model_table' := model12_session_model_table
    /\ model12_session_model_emit([kind |-> model12_session_model_CALL,
      thread |-> model12_session_model_t_234,
      op |-> model12_session_model_op_234,
      env |-> 0,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int, Int) => Bool);
*)
model12_session_model_setenv(model12_session_model_t_286, model12_session_model_m_286) ==
  model12_session_model_runs[model12_session_model_t_286]["pc"] = 0
    /\ model12_session_model_runs'
      := [
        model12_session_model_runs EXCEPT
          ![model12_session_model_t_286] =
            [
              model12_session_model_runs[model12_session_model_t_286] EXCEPT
                !["env"] = model12_session_model_m_286
            ]
      ]
    /\ model12_session_model_scratch' := model12_session_model_scratch
    /\ model12_session_model_cache' := model12_session_model_cache
    /\ model12_session_model_last' := model12_session_model_last
    /\ model12_session_model_table' := model12_session_model_table
    /\ model12_session_model_emit([kind |-> model12_session_model_SETENV,
      thread |-> model12_session_model_t_286,
      op |-> 0,
      env |-> model12_session_model_m_286,
      flags |-> 0,
      res |-> 0])

(*
  @type: ((Int) => Bool);
*)
model12_session_model_return(model12_session_model_t_768) ==
  LET (*
    @type: (() => { arg: Int, env: Int, local: Int, op: Int, pc: Int });
  *)
  model12_session_model_r ==
    model12_session_model_runs[model12_session_model_t_768]
  IN
  (model12_session_model_r)["pc"] = 3
    /\ model12_session_model_runs'
      := [
        model12_session_model_runs EXCEPT
          ![model12_session_model_t_768] =
            [ (model12_session_model_r) EXCEPT !["pc"] = 0 ]
      ]
    /\ model12_session_model_scratch' := model12_session_model_scratch
    /\ model12_session_model_cache' := model12_session_model_cache
    /\ model12_session_model_last'
      := (IF model12_session_model_KIND = 11
        /\ (model12_session_model_r)["env"] = 0
      THEN [
        model12_session_model_last EXCEPT
          ![0] =
            [
              model12_session_model_last[0] EXCEPT
                !["out"] = (model12_session_model_r)["local"]
            ]
      ]
      ELSE model12_session_model_last)
    /\ model12_session_model_table'
      := (IF model12_session_model_KIND = 8 /\ model12_session_model_table = 1
      THEN 2
      ELSE model12_session_model_table)
    /\ model12_session_model_emit([kind |-> model12_session_model_RETURN,
      thread |-> model12_session_model_t_768,
      op |-> (model12_session_model_r)["op"],
      env |-> 0,
      flags |->
        (IF (model12_session_model_r)["arg"] /= (model12_session_model_r)["op"]
        THEN 1
        ELSE 0)
          + (IF (model12_session_model_r)["env"]
            /= model12_session_model_lib["threads"][model12_session_model_t_768][
              "env"
            ]
          THEN 2
          ELSE 0),
      res |-> (model12_session_model_r)["local"]])

(*
  @type: ((Int, Int) => Bool);
*)
model12_session_model_fresh(model12_session_model_op_831, model12_session_model_m_831) ==
  model12_session_model_runs' := model12_session_model_runs
    /\ model12_session_model_scratch' := model12_session_model_scratch
    /\ model12_session_model_cache' := model12_session_model_cache
    /\ model12_session_model_last' := model12_session_model_last
    /\ model12_session_model_table' := model12_session_model_table
    /\ model12_session_model_emit([kind |-> model12_session_model_FRESH,
      thread |-> 0,
      op |-> model12_session_model_op_831,
      env |-> model12_session_model_m_831,
      flags |-> 0,
      res |->
        model12_session_model_f(model12_session_model_op_831, model12_session_model_m_831)])

(*
  @type: (() => Bool);
*)
model12_session_model_step ==
  \E model12_session_model_t \in model12_session_model_THREADS:
    \E model12_session_model_o \in model12_session_model_OPS:
      \E model12_session_model_m \in 0 .. 1:
        model12_session_model_call(model12_session_model_t, model12_session_model_o)
          \/ model12_session_model_setenv(model12_session_model_t, model12_session_model_m)
          \/ model12_session_model_reduce(model12_session_model_t)
          \/ model12_session_model_compute(model12_session_model_t)
          \/ model12_session_model_return(model12_session_model_t)
          \/ model12_session_model_fresh(model12_session_model_o, model12_session_model_m)
          \/ model12_session_model_startup

(*
  @type: (() => Bool);
*)
q_step == model12_session_model_step

================================================================================
