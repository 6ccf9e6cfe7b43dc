// The program: what its runs report, for given values (values) and for whole history files (program, unsaved).
module metricstrace {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"
  import strategy.* from "./strategy"
  import market.* from "./market"
  import executor.* from "./executor"
  import historygen.* from "./historygen"
  import metrics.* from "./metrics"
  import rand.* from "./rand"

  // values: one run whose strategy is worth v[0], v[1], ...
  // program: the program on a file of txs, update interval `hours`; the results of runs `muls` are looked at closely
  // twice: the same program on the same file once more; together: several runs evaluated at once, worth many[0], many[1], ...
  // unsaved: the same with results that cannot be written (how: 0 the directory is a file, 1 no space, 2 no such directory, 3 target is a directory)
  type Op = { kind: str, v: List[int], hours: int, txs: List[Tx], muls: List[int], how: int, many: List[List[int]] }
  // count, inOrder, allFinite, sameWindow: over all results; from, to: times; failed: the program ended with an error
  type Ans = { ok: bool, hang: bool, bound: bool, results: List[Reported], count: int, inOrder: bool, allFinite: bool, from: int, to: int, amount: int, failed: bool, same: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int

  pure val NOOP: Op = { kind: "none", v: List(), hours: 0, txs: List(), muls: List(), how: 0, many: List() }
  pure val NOANS: Ans = { ok: true, hang: false, bound: true, results: List(), count: 0, inOrder: true, allFinite: true, from: 0, to: 0, amount: 0, failed: false, same: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  // the program's fixed parameters
  pure val PROGRAM_PRICE = 1350174849792634181862360983626536
  pure val DAY = 86400
  pure def planOf(o: Op, mul: int): Plan = { name: "bandsfill", x: 100, y: mul, a0: 1000000, a1: 366874042000000, script: [(0, 0, 0)],
    begin: o.txs[0].ts + 30 * DAY, end: 90000000000000, upd: 3600 * o.hours, snap: 3600, prices: 864 }
  pure def lastTs(o: Op): int = o.txs[o.txs.length() - 1].ts

  pure val LABELS = ["C25 return", "C25 max drawdown", "C25 hourly deviation", "C25 daily deviation", "C25 weekly deviation",
    "C25 hourly downside deviation", "C25 daily downside deviation", "C25 weekly downside deviation",
    "C25 hourly value at risk", "C25 daily value at risk", "C25 weekly value at risk"]
  pure def judgeResult(v: List[int], a: Reported): Set[str] =
    if (not(a.finite)) Set("C25 a number is not finite")
    else wrong(a, v).map(i => LABELS[i]).union(lab(a.end == v[v.length() - 1], "C25 end amount"))
  pure def judge(o: Op, vs: List[List[int]], a: Ans): Set[str] =
    if (not(a.bound)) Set()
    else if (o.kind == "together") (if (a.hang or not(a.ok)) Set("C22 evaluations at the same time crash or race") else lab(a.same, "C22 a run evaluated among others is reported differently"))
    else if (o.kind == "twice") (if (a.hang or not(a.ok)) Set("C22 the program fails on an admissible history") else
      lab(a.same, "C22 the program run again saves other results")
        .union(lab(a.results.length() == o.muls.length() and range(0, o.muls.length()).foldl(true, (b, i) => b and a.results[i].mul == o.muls[i] and a.results[i].end == vs[i][vs[i].length() - 1]),
          "C22 a run among the program's runs ends with another value than alone")))
    else if (a.hang or not(a.ok)) Set("C25 the program fails on an admissible history")
    else if (o.kind == "unsaved") lab(a.failed, "C25 results that were not saved are not reported")
    else if (o.kind == "values") judgeResult(o.v, a.results[0])
    else lab(not(a.failed), "C25 the program reports a failure although it saved its results")
      .union(lab(a.count == 65535 and a.inOrder, "C25 one result per parameter, in order"))
      .union(lab(a.allFinite, "C25 a number is not finite"))
      .union(lab(a.from == o.txs[0].ts and a.to == lastTs(o), "C25 start or end time of the history"))
      .union(lab(a.amount == 2000000, "C25 start amount"))
      .union(lab(a.results.foldl(true, (b, r) => b and r.window == DAY and r.upd == 3600 * o.hours), "C25 a result states other parameters"))
      .union(if (a.results.length() != o.muls.length()) Set("C25 a result is missing") else
        range(0, o.muls.length()).foldl(Set(), (s, i) => s.union(lab(a.results[i].mul == o.muls[i], "C25 one result per parameter, in order")).union(judgeResult(vs[i], a.results[i]))))

  // ------------------------------------------------------------------ choosing
  // profiles: 0 values, 1 program, 2-5 unsaved in one of four ways, 6 together, 7 twice
  pure def genValues(r: int): List[int] = {
    val m = pk(r, 0, 10)
    val n = { val k = pk(r, 8, 20)
      if (k == 0) 1 else if (k == 1) 2 else if (k == 2) 3 else if (k < 10) 3 + pk(r, 16, 40) else if (k < 14) 20 * pk(r, 16, 5) + pk(r, 20, 3) + 3 else if (k < 17) 24 + pk(r, 16, 130) else if (k < 19) 168 + pk(r, 16, 350) else 500 + pk(r, 16, 700) }
    val v0 = if (pk(r, 40, 3) == 0) 1 + pk(r, 44, 200) else if (pk(r, 40, 3) == 1) 2000000 else 1 + logU(r / 2^44, 100)
    range(1, n).foldl([v0], (l, i) => {
      val q = r / 2^(200 + 40 * (i % 490))
      val x = l[i - 1]
      l.append(imax(1,
        if (m == 0) x                                                           // constant
        else if (m == 1) x + x / 64                                             // steady growth
        else if (m == 2) x - x / 100                                            // steady loss
        else if (m < 6) x + (x * (pk(q, 0, 2001) - 1000)) / 100000              // within a percent
        else if (m == 6) x + pk(q, 0, 3) - 1
        else if (m == 7) (if (pk(q, 0, 12) == 0) (x * (1 + pk(q, 4, 40))) / 20 else x)
        else if (m == 8) 1 + logU(q, 60)                                        // anything
        else x + (x * (pk(q, 0, 2001) - 900)) / 20000))
    })
  }
  pure def genProgram(r: int): Op = {
    val first = if (pk(r, 0, 4) == 0) pk(r, 4, 10^6) else 1620000000 + pk(r, 4, 10^6)
    val p0 = newPool(500, PROGRAM_PRICE)
    val long = pk(r, 30, 3) == 0
    val early = 2 + pk(r, 32, 12)
    val n = early + (if (pk(r, 40, 8) == 0) 0 else if (long) 150 + pk(r, 44, 150) else 5 + pk(r, 44, 60))
    val o = { ...NOOP, kind: "program", hours: { val m = pk(r, 60, 4)
        if (m == 0) 1 else if (m < 3) 24 else 1 + pk(r, 64, 100) } }
    val wide: Tx = { kind: "Mint", ts: first, l: -887200, u: 887200, amt: 2^58 + pk(r, 80, 2^66), a0: 0, a1: 0 }
    val near: Tx = { kind: "Mint", ts: first + pk(r, 160, 5000), l: 190000 + 10 * pk(r, 170, 200), u: 196000 + 10 * pk(r, 180, 200), amt: 2^50 + pk(r, 190, 2^64), a0: 0, a1: 0 }
    val z = { ...o, txs: [wide, near], muls: [1] }
    val e0 = [wide, near].foldl(opening(planOf(z, 1000), p0, first), (e, t) => onTx(e, t))
    val small = pk(r, 260, 3)
    val g = range(2, n).foldl({ e: e0, txs: [wide, near], led: Map(((-887200, 887200) -> wide.amt), ((near.l, near.u) -> near.amt)), ts: near.ts, dead: false }, (g, i) =>
      if (g.dead) g else {
        val q = r / 2^(400 + 600 * i)
        val gap = if (i < early) (if (pk(q, 0, 3) == 0) 864 * 100 else pk(q, 4, 4 * DAY)) else if (i == early) 30 * DAY + pk(q, 4, 3 * DAY)
          else { val m = pk(q, 0, 10)
            if (m == 0) 0 else if (m < 6) pk(q, 4, 3601) + 1800 else if (m < 9) 3600 else pk(q, 4, 2 * DAY) }
        val ts = g.ts + gap
        val home = p0.tick
        // mostly swaps of moderate size, both ways
        val zfo = if (g.e.s.p.tick > home + 400) true else if (g.e.s.p.tick < home - 400) false else pk(q, 40, 2) == 0
        val a = 1 + towards(g.e.s.p, g.e.s.p.tick + (if (zfo) -1 else 1) * (1 + pk(q, 48, if (small == 0) 5 else 300)), zfo, true)
        val k = pk(q, 60, 10)
        val b: Market = { kind: "swapin", l: 0, u: 0, amt: a, amt2: 0, zfo: zfo }
        val c = genMarket(g.e.s.p, g.led, home, q / 2^64)
        val m = if (k < 8 or c.kind == "swapin" or c.kind == "swapout") (if (k == 9 and small == 0) { ...NOMARKET, kind: "idle" } else b) else c
        val t = txOf(m, ts, q / 2^200)
        val e = onTx(g.e, t)
        if (e.ok) { ...g, e: e, txs: g.txs.append(t), led: ledgerAfter(g.led, m), ts: ts } else { ...g, dead: true }
      })
    val muls = [1, 1 + pk(r, 300, 65535), 1024 + pk(r, 320, 10000), 65535]
    val full = { ...o, txs: g.txs, muls: muls }
    if (g.dead or muls.foldl(false, (b, m) => b or not(runAll(planOf(full, m), p0, g.txs).ok))) { ...NOOP, kind: "end" } else full
  }
  pure def genUnsaved(prof_: int): Op = {
    { ...NOOP, kind: "unsaved", how: prof_ - 2, hours: 24, muls: List(), txs: [
      { kind: "Mint", ts: 1000, l: -887200, u: 887200, amt: 2^60, a0: 0, a1: 0 }, { kind: "Flash", ts: 5000, l: 0, u: 0, amt: 0, a0: 10^6, a1: 10^9 }] }
  }
  action init = {
    nondet n = 0.to(7).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n }
  }
  action choose = {
    nondet r = 0.to(2^(if (prof == 1 or prof >= 6) 200000 else 20000) - 1).oneOf()
    all { op' = if (prof == 0) { ...NOOP, kind: "values", v: genValues(r % 2^20000) } else if (prof == 1) genProgram(r) else if (prof == 7) { val o = genProgram(r)
          if (o.kind == "program") { ...o, kind: "twice" } else o }
        else if (prof == 6) { ...NOOP, kind: "together", many: range(0, 2 + pk(r, 199900, 7)).foldl(List(), (l, i) => l.append(genValues((r / 2^(20000 * i)) % 2^20000))) }
        else genUnsaved(prof),
      ans' = ans, bad' = Set(), tags' = Set(), prof' = prof }
  }
  pure def tagsOf(o: Op, vs: List[List[int]], a: Ans): Set[(str, str)] =
    Set((o.kind, if (a.bound) "bound" else "not bound")).union(if (o.kind == "unsaved") Set((o.kind, ["directory is a file", "no space", "no such directory", "target is a directory"][o.how]))
      else if (o.kind == "together") Set((o.kind, if (o.many.length() < 5) "up to four runs" else "more than four runs"))
      else vs.foldl(Set(), (s, v) => { val n = v.length()
        s.union(Set((o.kind, if (n == 1) "one value" else if (n == 2) "two values" else if (n <= 24) "less than a day" else if (n <= 168) "days" else "weeks")))
          .union(if (v.foldl(true, (b, x) => b and x == v[0])) Set((o.kind, "constant")) else Set((o.kind, if (drawdown(v) < 0) "falls" else "never falls")))
          .union(if (n > 40) Set((o.kind, "more than forty values")) else Set())
          .union(if (n > 481) Set((o.kind, "more than twenty days")) else Set()) }))
  action observe = {
    val p0 = newPool(500, PROGRAM_PRICE)
    val vs = if (op.kind == "values") [op.v] else if (op.kind == "program" or op.kind == "twice") op.muls.foldl(List(), (l, m) => l.append(runAll(planOf(op, m), p0, op.txs).values)) else List()
    all { bad' = judge(op, vs, ans), tags' = tagsOf(op, vs, ans), op' = op, ans' = ans, prof' = prof }
  }
}
