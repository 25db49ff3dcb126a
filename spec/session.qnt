// The library as a service used by concurrent clients (property C16).
//
// A session is a history of calls of any number of threads in any number of processes.
// The only state the contract allows is on the client's side: which call a thread is in, the rounding environment
// it has chosen, the storage its argument lives in.  The library has none, so the result
// of a call is a function of the operation (function, order, argument bits) and of the
// caller's environment -- the map `memo` below, which is filled by the first observation and must
// explain all others, whatever happened before, after or concurrently.
module session {
  // an operation is an index into the session's table of (function, order, argument); results are opaque
  type Thread = { busy: bool, op: int, env: int, arg: int }
  type Lib = { memo: (int, int) -> int, threads: int -> Thread }
  // kinds of events
  pure val CALL = 0
  pure val RETURN = 1
  pure val FRESH = 2      // a call and its return in a process of its own
  pure val SETENV = 3     // the client changes its rounding mode
  pure val NEWPROC = 4    // what follows happens in a new process
  pure val ATOMIC = 5     // call immediately followed by its return
  pure val OBSERVED = 6   // a result some thread got, time and thread not recorded
  pure val RACE = 7       // the recorder saw conflicting unsynchronised accesses of library memory
  // flags of a return: what the recorder found changed in the caller's world
  type Ev = { kind: int, thread: int, op: int, env: int, flags: int, res: int }

  // verdicts
  pure val OK = 0
  pure val R_STATUS = 9
  pure val R_ARG = 10
  pure val R_ENV = 11
  pure val R_RESULT = 12
  pure val R_PROTOCOL = 14
  pure val R_RACE = 15

  pure val IDLE: Thread = { busy: false, op: 0, env: 0, arg: 0 }
  pure val START: Lib = { memo: Map(), threads: Map() }
  pure def thread(s: Lib, t: int): Thread = if (s.threads.keys().contains(t)) s.threads.get(t) else IDLE

  // is this return explained?  flags: 1 argument changed, 2 rounding mode, 4 other control bits; 8.. abnormal end
  pure def returns(s: Lib, op: int, env: int, flags: int, res: int): int =
    if (flags >= 8) R_STATUS
    else if (flags % 2 == 1) R_ARG
    else if (flags > 0) R_ENV
    else if (s.memo.keys().contains((op, env)) and s.memo.get((op, env)) != res) R_RESULT
    else OK
  pure def learn(s: Lib, op: int, env: int, res: int): Lib =
    if (s.memo.keys().contains((op, env))) s else { ...s, memo: s.memo.put((op, env), res) }

  pure def verdict(s: Lib, e: Ev): int =
    if (e.kind == CALL) (if (thread(s, e.thread).busy) R_PROTOCOL else OK)
    else if (e.kind == RETURN) {
      pure val t = thread(s, e.thread)
      if (not(t.busy) or t.op != e.op) R_PROTOCOL else returns(s, e.op, t.env, e.flags, e.res)
    }
    else if (e.kind == FRESH or e.kind == OBSERVED) returns(s, e.op, e.env, e.flags, e.res)
    else if (e.kind == ATOMIC) (if (thread(s, e.thread).busy) R_PROTOCOL else returns(s, e.op, thread(s, e.thread).env, e.flags, e.res))
    else if (e.kind == SETENV) (if (thread(s, e.thread).busy) R_PROTOCOL else OK)
    else if (e.kind == RACE) R_RACE
    else OK

  // the state after an event (also after a rejected one, so the rest of a trace is still judged)
  pure def after(s: Lib, e: Ev): Lib =
    if (e.kind == CALL) { ...s, threads: s.threads.put(e.thread, { ...thread(s, e.thread), busy: true, op: e.op, arg: e.op }) }
    else if (e.kind == RETURN) {
      pure val t = thread(s, e.thread)
      learn({ ...s, threads: s.threads.put(e.thread, { ...t, busy: false }) }, e.op, t.env, e.res)
    }
    else if (e.kind == FRESH or e.kind == OBSERVED) learn(s, e.op, e.env, e.res)
    else if (e.kind == ATOMIC) learn(s, e.op, thread(s, e.thread).env, e.res)
    else if (e.kind == SETENV) { ...s, threads: s.threads.put(e.thread, { ...thread(s, e.thread), env: e.env }) }
    else if (e.kind == NEWPROC) { ...s, threads: Map() }
    else s
}
