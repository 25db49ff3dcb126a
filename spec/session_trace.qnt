// Trace validation of recorded sessions against `session`.  One transition consumes a segment of events
// in the order in which they were recorded; every event is judged by session::verdict.
module session_trace {
  import session.* from "./session"
  const SEGMENTS: List[int]

  // 16 bits count; per event 212 bits: kind 3, thread 8, env 3, op 24, flags 8, result 166
  pure val EB = 212
  pure def unpack(v: int): Ev = {
    kind: v % 8, thread: v / 2^3 % 256, env: v / 2^11 % 8, op: v / 2^14 % 2^24, flags: v / 2^38 % 256, res: v / 2^46 % 2^166
  }

  var pos: int
  var lib: Lib
  var accepted: int
  var rejected: List[(int, int, int)]     // (segment, index, verdict)

  type Acc = { s: Lib, rest: int, ok: int, bad: List[(int, int, int)] }
  pure def consume(s0: Lib, k: int, seg: int): Acc =
    range(0, seg % 2^16).foldl({ s: s0, rest: seg / 2^16, ok: 0, bad: [] }, (a, i) => {
      pure val e = unpack(a.rest % 2^EB)
      pure val v = verdict(a.s, e)
      { s: after(a.s, e), rest: a.rest / 2^EB, ok: if (v == OK) a.ok + 1 else a.ok, bad: if (v == OK) a.bad else a.bad.append((k, i, v)) }
    })

  action init = all { pos' = 0, lib' = START, accepted' = 0, rejected' = [] }
  action step = all {
    pos < SEGMENTS.length(),
    val r = consume(lib, pos, SEGMENTS[pos])
    all {
      pos' = pos + 1,
      lib' = r.s,
      accepted' = accepted + r.ok,
      rejected' = rejected.concat(r.bad),
    }
  }
}
