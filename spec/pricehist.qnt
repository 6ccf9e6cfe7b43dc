// The price history of a strategy: the last N squared prices, their mean and their standard deviation.
module pricehist {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import rand.* from "./rand"

  // kind: new (window n) or add (prices ps, one after the other)
  type Op = { kind: str, n: int, ps: List[int] }
  type Ans = { ok: bool, hang: bool, taken: List[bool], avg: int, vol: int, argsKept: bool, oldKept: bool, constsKept: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int
  var win: int
  var seen: List[int]     // the squares accepted, newest last, at most `win`
  var count: int

  pure val NOOP: Op = { kind: "none", n: 0, ps: List() }
  pure val NOANS: Ans = { ok: true, hang: false, taken: List(), avg: 0, vol: 0, argsKept: true, oldKept: true, constsKept: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  pure def admissible(p: int): bool = p * p < 2^230
  pure def sum(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  // snapshots that are still missing count as zero
  pure def mean(l: List[int], n: int): int = sum(l) / n
  pure def deviation(l: List[int], n: int): int = {
    val m = mean(l, n)
    isqrt((l.foldl(0, (s, x) => s + (x - m) * (x - m)) + (n - l.length()) * m * m) / (n - 1))
  }
  pure def pushed(l: List[int], x: int, n: int): List[int] = {
    val a = l.append(x)
    if (a.length() > n) a.slice(a.length() - n, a.length()) else a
  }
  pure def after(l: List[int], o: Op, n: int): List[int] =
    o.ps.foldl(if (o.kind == "new") List() else l, (s, p) => if (admissible(p)) pushed(s, p * p, n) else s)

  pure def judge(o: Op, a: Ans, l: List[int], n: int): Set[str] =
    if (a.hang or not(a.ok)) Set("C23 admissible request refused")
    else Set()
      .union(lab(range(0, o.ps.length()).foldl(true, (b, i) => b and (a.taken[i] or not(admissible(o.ps[i])))), "C23 price refused though its square fits"))
      .union(lab(range(0, o.ps.length()).foldl(true, (b, i) => b and (not(a.taken[i]) or admissible(o.ps[i]))), "C23 price accepted though its square does not fit"))
      .union(lab(a.avg == mean(l, n), "C23 average"))
      .union(lab(n < 2 or a.vol == deviation(l, n), "C23 volatility"))
      .union(lab(a.argsKept, "C23 a recorded price changed its argument"))
      .union(lab(a.oldKept, "C23 an earlier result changed"))
      .union(lab(a.argsKept and a.oldKept and a.constsKept, "C11 price history modified a value that is not its own"))

  pure def genSnap(p: int, r: int): int = {
    val m = pk(r, 0, 24)
    if (m == 0) 2^115 + pk(r, 8, 5) - 2 else if (m == 1) 0 else if (m == 2) genWord(r / 2^8) else if (m == 3) 2^(115 + pk(r, 8, 141)) + pk(r, 20, 3) - 1
    else if (m < 8) logU(r / 2^8, 115) else if (m < 14) 1350174849792634181862360983626536 + pk(r, 8, 2^100) - 2^99
    // prices far apart and prices close together
    else if (m < 18) P96 + pk(r, 8, 2^20) else if (m < 20) P96 else sqrtAt(pk(r, 8, 400000) - 200000)
  }
  pure def genOp(n: int, p: int, r1: int, r2: int): Op = {
    val fresh = n == 0 or pk(r1, 0, 24) == 0
    val k = { val m = pk(r1, 8, 10)
      if (m < 2) 1 + pk(r1, 16, 2) else if (m < 7) 2 + pk(r1, 16, 12) else if (m < 9) 2 + pk(r1, 16, 100) else 200 + pk(r1, 16, 200) }
    val c = { val m = pk(r1, 40, 8)
      if (m == 0) 0 else if (m < 6) 1 else if (m == 6) pk(r1, 48, 8) else pk(r1, 48, 30) }
    { kind: if (fresh) "new" else "add", n: if (fresh) k else n, ps: range(0, c).foldl(List(), (l, i) => l.append(genSnap(p, r2 / 2^(64 * i)))) }
  }

  action init = {
    nondet n = 0.to(3).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n, win' = 0, seen' = List(), count' = 0 }
  }
  action choose = {
    nondet r1 = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^2400 - 1).oneOf()
    all { op' = genOp(win, prof, r1, r2), ans' = ans, bad' = Set(), tags' = Set(), prof' = prof, win' = win, seen' = seen, count' = count }
  }
  action observe = {
    val n = op.n
    val l = after(seen, op, n)
    val c = op.ps.select(p => admissible(p)).length() + (if (op.kind == "new") 0 else count)
    all {
      bad' = judge(op, ans, l, n), win' = n, seen' = l, count' = c, op' = op, ans' = ans, prof' = prof,
      tags' = Set((op.kind, if (n == 1) "window of one" else if (n < 20) "small window" else "large window"),
        (op.kind, if (c == 0) "empty" else if (c < n) "partly filled" else if (c == n) "just full" else if (c < 2 * n) "wrapped" else "wrapped more than once"))
        .union(if (op.ps.select(p => not(admissible(p))).length() > 0) Set((op.kind, "refused price")) else Set())
    }
  }
}
