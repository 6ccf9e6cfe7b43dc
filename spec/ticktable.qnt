// Every tick there is: its price, the tick of that price, and the tick of the price just below it.
module ticktable {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"

  type Op = { kind: str, from: int, n: int }
  type Ans = { ok: bool, hang: bool, r: List[int], at: List[int], below: List[int], constsKept: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int
  var at: int        // the next tick to ask for
  var last: int      // the price of the tick before it (0: none asked yet)

  pure val NOOP: Op = { kind: "none", from: 0, n: 0 }
  pure val NOANS: Ans = { ok: true, hang: false, r: List(), at: List(), below: List(), constsKept: true }
  pure val CHUNK = 512
  pure val SEGMENTS = 16
  pure val NAMES = ["segment 0", "segment 1", "segment 2", "segment 3", "segment 4", "segment 5", "segment 6", "segment 7",
    "segment 8", "segment 9", "segment 10", "segment 11", "segment 12", "segment 13", "segment 14", "segment 15"]
  pure def firstOf(k: int): int = MIN_TICK + ((2 * MAX_TICK + 1) * k) / SEGMENTS
  pure def lastOf(k: int): int = firstOf(k + 1) - 1
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  pure def judge(o: Op, a: Ans, prev: int): Set[str] =
    if (a.hang or not(a.ok)) Set("C13 admissible request refused")
    else if (a.r.length() != o.n or a.at.length() != o.n or a.below.length() != o.n) Set("C13 price of a tick")
    else {
      val idx = range(0, o.n)
      lab(idx.foldl(true, (b, i) => b and a.r[i] == sqrtAt(o.from + i)), "C13 price of a tick")
        .union(lab(idx.foldl((true, prev), (b, i) => (b._1 and b._2 < a.r[i], a.r[i]))._1, "C13 prices do not increase with the tick"))
        // the price of the last tick is itself outside the range
        .union(lab(idx.foldl(true, (b, i) => b and a.at[i] == (if (o.from + i == MAX_TICK) MIN_TICK - 1 else o.from + i)), "C13 tick of a tick's price"))
        .union(lab(idx.foldl(true, (b, i) => b and a.below[i] == o.from + i - 1), "C13 tick just below a tick's price"))
        .union(lab(a.constsKept, "C11 a shared constant or table was modified by price arithmetic"))
    }

  action init = {
    nondet n = 0.to(SEGMENTS - 1).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n, at' = MIN_TICK - 1, last' = 0 }
  }
  action choose = {
    val f = if (at < MIN_TICK) firstOf(prof) else at
    all {
      op' = if (f > lastOf(prof)) { ...NOOP, kind: "end" } else { kind: "ticks", from: f, n: imin(CHUNK, lastOf(prof) - f + 1) },
      ans' = ans, bad' = Set(), tags' = Set(), prof' = prof, at' = f, last' = last
    }
  }
  action observe = all {
    bad' = judge(op, ans, last),
    tags' = if (op.from + op.n > lastOf(prof)) Set(("complete", NAMES[prof])) else Set(("ticks", "chunk")),
    at' = op.from + op.n, last' = if (ans.r.length() > 0) ans.r[ans.r.length() - 1] else last,
    op' = op, ans' = ans, prof' = prof
  }
}
