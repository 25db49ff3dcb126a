// Trace validation: replays a recorded session of the real library against the contract.
//
// The trace module (generated) provides SEGMENTS: each is one big integer holding a header
// and up to a few dozen events.  One transition consumes one segment; a rejected event is recorded and
// the rest of the trace is still judged.
module conformance {
  import fixed.* from "./fixed"
  import api.* from "./api"
  import contract.* from "./contract"
  import relations.* from "./relations"

  const SEGMENTS: List[int]

  var pos: int                                 // segments consumed
  var accepted: int                            // events accepted
  var rejected: List[(int, int, int, int)]     // (segment, index, code, ratio)
  var worst: (int, int, int)                   // (ratio, segment, index) of the accepted event closest to the limit

  pure def judgeSegment(seg: int): List[(int, int)] = {
    pure val h = unpackHead(seg)
    range(0, h.count).foldl((seg / 2^HBITS, []), (s, i) =>
      (s._1 / 2^EBITS, s._2.append(judge(h, unpackEvent(s._1 % 2^EBITS)))))._2
  }

  action init = all {
    pos' = 0,
    accepted' = 0,
    rejected' = [],
    worst' = (0, 0, 0),
  }

  action step = all {
    pos < SEGMENTS.length(),
    val v = judgeSegment(SEGMENTS[pos])
    all {
      pos' = pos + 1,
      accepted' = accepted + v.select(x => x._1 == OK).length(),
      rejected' = range(0, v.length()).foldl(rejected, (l, i) =>
        if (v[i]._1 == OK) l else l.append((pos, i, v[i]._1, v[i]._2))),
      worst' = range(0, v.length()).foldl(worst, (w, i) =>
        if (v[i]._1 == OK and v[i]._2 > w._1) (v[i]._2, pos, i) else w),
    }
  }
}
