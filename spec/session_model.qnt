// Implementation models of the library under the session contract, for all interleavings of
// a few threads and operations: what kinds of library state break property C16, and which do not.
//
// A call is executed in the small steps the code really takes: copy the argument, reduce its range in
// local storage, look up / compute, deliver.  KIND selects the implementation:
//   0  stateless (this library)
//   1  range reduction in the caller's storage (the defect of the Fortran Clausen functions, fixed in a6e292a)
//   2  a static scratch variable shared by all threads
//   3  a cache keyed by a part of the argument only
//   4  rounding mode switched for the computation and not restored on one path
//   5  a cache keyed by the full argument, filled atomically (allowed)
//   6  round to nearest forced for the computation and left behind
//   7  every thread remembers its last call and compares arguments by a part of them (== and signed zeros)
//   8  a table filled on first use, announced before it is complete
//   9  a cache keyed by the full argument, but not by the rounding mode
//  10  a table filled on first use in one step (allowed)
//  11  a shared cache of one entry, key and value written in two steps
//  12  a table filled when the process starts up, by an initialiser that may run after the first calls
//  13  scratch storage for each thread, but only two of them: two threads do not see what three do
// Processes of their own (`fresh`) are what exposes kind 3: within one process a wrong cache is consistent.
module session_model {
  import session.* from "./session"
  const KIND: int
  const NT: int        // threads
  const NO: int        // operations; op and op + NO/2 agree in the part of the argument a broken cache looks at

  type Slot = { tag: int, out: int }
  type Run = { pc: int, op: int, arg: int, local: int, env: int }
  var runs: int -> Run
  var scratch: int                // static storage, kinds 2
  var cache: int -> int           // kinds 3, 5, 9; by slot: 13
  var last: int -> Slot           // kind 7 by thread, kind 11 one for all
  var table: int                  // kinds 8, 10, 12: 0 not there, 1 announced, 2 complete
  var lib: Lib                    // the contract's view
  var ev: Ev                      // last event
  var verdictNow: int

  pure val THREADS = 0.to(NT - 1)
  pure val OPS = 0.to(NO - 1)
  pure def f(x: int, env: int): int = 100 * env + 7 * x + 3      // any injective function will do
  pure def key(op: int): int = if (KIND == 3) op % (NO / 2) else op

  pure val NOEV: Ev = { kind: NEWPROC, thread: 0, op: 0, env: 0, flags: 0, res: 0 }
  action init = all {
    runs' = THREADS.mapBy(t => { pc: 0, op: 0, arg: 0, local: 0, env: 0 }),
    scratch' = 0, cache' = Map(), last' = THREADS.mapBy(t => { tag: -1, out: 0 }), table' = 0, lib' = START, ev' = NOEV, verdictNow' = 0,
  }

  action emit(e: Ev): bool = all { ev' = e, verdictNow' = verdict(lib, e), lib' = after(lib, e) }
  action silent = all { ev' = NOEV, verdictNow' = 0, lib' = lib }

  action call(t: int, op: int): bool = all {
    runs.get(t).pc == 0,
    runs' = runs.set(t, { ...runs.get(t), pc: 1, op: op, arg: op }),
    scratch' = scratch, cache' = cache, last' = last, table' = table,
    emit({ kind: CALL, thread: t, op: op, env: 0, flags: 0, res: 0 }),
  }
  action setenv(t: int, m: int): bool = all {
    runs.get(t).pc == 0,
    runs' = runs.set(t, { ...runs.get(t), env: m }),
    scratch' = scratch, cache' = cache, last' = last, table' = table,
    emit({ kind: SETENV, thread: t, op: 0, env: m, flags: 0, res: 0 }),
  }
  // copy and reduce the argument
  action reduce(t: int): bool = {
    val r = runs.get(t)
    all {
      r.pc == 1,
      runs' = runs.set(t, { ...r, pc: 2, local: r.arg, arg: if (KIND == 1) r.arg + 1 else r.arg,
                            env: if (KIND == 4 and r.op == 0) 1 else if (KIND == 6) 0 else r.env }),
      scratch' = if (KIND == 2) r.arg else scratch,
      cache' = if (KIND == 13) cache.put(t % 2, r.arg) else cache, last' = last, table' = table,
      silent,
    }
  }
  // compute
  action compute(t: int): bool = {
    val r = runs.get(t)
    val x = if (KIND == 2) scratch else if (KIND == 13) cache.get(t % 2) else r.local
    val k = key(r.op)
    val shared = KIND == 3 or KIND == 5 or KIND == 9
    val hit = shared and cache.keys().contains(k) and (KIND == 9 or r.env == 0)
    val slot = last.get(if (KIND == 7) t else 0)
    val again = (KIND == 7 and slot.tag == r.op % (NO / 2) and r.env == 0) or (KIND == 11 and slot.tag == r.op and r.env == 0)
    val true_ = f(x, if (KIND == 4 or KIND == 6) lib.threads.get(t).env else r.env)
    val y = if (hit) cache.get(k) else if (again) slot.out
            else if ((KIND == 8 and table == 1) or (KIND == 12 and table == 0)) 0 else true_   // an incomplete table
    all {
      r.pc == 2,
      runs' = runs.set(t, { ...r, pc: 3, local: y }),
      scratch' = scratch,
      cache' = if (shared and (KIND == 9 or r.env == 0) and not(hit)) cache.put(k, y) else cache,
      last' = if (KIND == 7 and r.env == 0) last.set(t, { tag: r.op % (NO / 2), out: y })
              else if (KIND == 11 and r.env == 0) last.set(0, { ...slot, tag: r.op })      // the value follows on return
              else last,
      table' = if (KIND == 10) 2 else if (KIND == 8 and table == 0) 1 else table,
      silent,
    }
  }
  action return(t: int): bool = {
    val r = runs.get(t)
    all {
      r.pc == 3,
      runs' = runs.set(t, { ...r, pc: 0 }),
      scratch' = scratch, cache' = cache,
      last' = if (KIND == 11 and r.env == 0) last.set(0, { ...last.get(0), out: r.local }) else last,
      table' = if (KIND == 8 and table == 1) 2 else table,
      emit({ kind: RETURN, thread: t, op: r.op, env: 0,
             flags: (if (r.arg != r.op) 1 else 0) + (if (r.env != lib.threads.get(t).env) 2 else 0), res: r.local }),
    }
  }
  // the initialisers of the library run
  action startup = all {
    KIND == 12, table == 0,
    runs' = runs, scratch' = scratch, cache' = cache, last' = last, table' = 2,
    silent,
  }
  // the same library started anew
  action fresh(op: int, m: int): bool = all {
    runs' = runs, scratch' = scratch, cache' = cache, last' = last, table' = table,
    emit({ kind: FRESH, thread: 0, op: op, env: m, flags: 0, res: f(op, m) }),
  }
  action step = {
    nondet t = THREADS.oneOf()
    nondet o = OPS.oneOf()
    nondet m = 0.to(1).oneOf()
    any { call(t, o), setenv(t, m), reduce(t), compute(t), return(t), fresh(o, m), startup }
  }

  // every event of the implementation is one the contract allows
  val refines = verdictNow == OK
  // the contract's view of a busy thread is the implementation's
  val consistent = THREADS.forall(t => (runs.get(t).pc > 0) == thread(lib, t).busy)
}
module model0 { import session_model(KIND = 0, NT = 3, NO = 4).* from "./session_model" }
module model1 { import session_model(KIND = 1, NT = 2, NO = 2).* from "./session_model" }
module model2 { import session_model(KIND = 2, NT = 2, NO = 2).* from "./session_model" }
module model3 { import session_model(KIND = 3, NT = 2, NO = 2).* from "./session_model" }
module model4 { import session_model(KIND = 4, NT = 2, NO = 2).* from "./session_model" }
module model6 { import session_model(KIND = 6, NT = 2, NO = 2).* from "./session_model" }
module model7 { import session_model(KIND = 7, NT = 2, NO = 2).* from "./session_model" }
module model8 { import session_model(KIND = 8, NT = 2, NO = 2).* from "./session_model" }
module model9 { import session_model(KIND = 9, NT = 2, NO = 2).* from "./session_model" }
module model11 { import session_model(KIND = 11, NT = 2, NO = 2).* from "./session_model" }
module model12 { import session_model(KIND = 12, NT = 2, NO = 2).* from "./session_model" }
module model13 { import session_model(KIND = 13, NT = 3, NO = 2).* from "./session_model" }
module model5 { import session_model(KIND = 5, NT = 3, NO = 4).* from "./session_model" }
// for exhaustive exploration by TLC: two threads, two operations, two rounding modes
module small0 { import session_model(KIND = 0, NT = 2, NO = 2).* from "./session_model" }
module small5 { import session_model(KIND = 5, NT = 2, NO = 2).* from "./session_model" }
module small10 { import session_model(KIND = 10, NT = 2, NO = 2).* from "./session_model" }
module small13 { import session_model(KIND = 13, NT = 2, NO = 2).* from "./session_model" }
module big0 { import session_model(KIND = 0, NT = 3, NO = 2).* from "./session_model" }
module big5 { import session_model(KIND = 5, NT = 3, NO = 2).* from "./session_model" }
