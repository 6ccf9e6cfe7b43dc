// Whole backtests: histories, schedules and strategies, one run or several at once.
module exectrace {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"
  import strategy.* from "./strategy"
  import market.* from "./market"
  import stratgen.* from "./stratgen"
  import executor.* from "./executor"
  import historygen.* from "./historygen"
  import rand.* from "./rand"

  // runs share the pool, the start amounts and the transactions; together: also executed at once
  type Op = { kind: str, fee: int, price: int, mints: List[Market], txs: List[Tx], runs: List[Plan], together: bool, ranges: Set[(int, int)] }
  type Out = { calls: List[Call], values: List[int], p: Pool, extra: int, same: bool, sameTogether: bool }
  type Ans = { ok: bool, hang: bool, outs: List[Out], base: Pool, txsKept: bool, argsKept: bool, constsKept: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int

  pure val NOPOOL: Pool = newPool(500, P96)
  pure val NOOP: Op = { kind: "none", fee: 500, price: P96, mints: List(), txs: List(), runs: List(), together: false, ranges: Set() }
  pure val NOANS: Ans = { ok: true, hang: false, outs: List(), base: NOPOOL, txsKept: true, argsKept: true, constsKept: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)
  pure def basePool(o: Op): Pool = o.mints.foldl(newPool(o.fee, o.price), (p, m) => mint(p, m.l, m.u, m.amt).p)

  pure def whats(l: List[Call]): List[str] = l.foldl(List(), (a, c) => a.append(c.what))
  pure def every(n: int, f: (int) => bool): bool = range(0, n).foldl(true, (b, i) => b and f(i))
  pure def exists2(l: List[int], f: (int) => bool): bool = l.foldl(false, (b, i) => b or f(i))
  pure def situation(c: Call): Call = { ...c, r0: 0, r1: 0, after: 0 }

  pure def judgeOne(e: Exec, a: Out): Set[str] = {
    val n = e.calls.length()
    val names = whats(a.calls) == whats(e.calls)
    val moments = names and every(n, i => situation(a.calls[i]) == situation(e.calls[i]))
    // what the recorded values have to be, given what the strategy answered
    val told = a.calls.foldl(List(), (l, c) => if (c.what.in(Set("start", "amounts", "burnall")) and c.after < PRICED) l.append(valued(c.r0, c.r1, c.after)) else l)
    lab(names, "C19 the schedule of the strategy's actions")
      .union(lab(moments or not(names), "C19 an action happens at another moment"))
      .union(lab(moments or not(names), "C20 a transaction was applied differently"))
      .union(lab(not(moments) or every(n, i => a.calls[i].after == e.calls[i].after), "C18 the strategy moved the price"))
      .union(lab(not(moments) or every(n, i => e.calls[i].what.in(Set("amounts", "snapshot")) or (a.calls[i].r0 == e.calls[i].r0 and a.calls[i].r1 == e.calls[i].r1)), "C17 reported amounts"))
      .union(lab(not(moments) or every(n, i => e.calls[i].what != "amounts" or (a.calls[i].r0 == e.calls[i].r0 and a.calls[i].r1 == e.calls[i].r1)), "C21 worth of assets and open positions"))
      .union(lab(not(moments) or (a.p == e.s.p and a.extra == 0), "C20 the pool at the end"))
      .union(lab(a.values == told, "C21 recorded values are not those of the strategy's answers"))
      .union(lab(a.values.length() == e.values.length(), "C21 number of recorded values"))
      .union(lab(a.values == e.values, "C21 recorded values"))
      .union(lab(a.same, "C22 a second run differs"))
      .union(lab(a.sameTogether, "C22 a run among others differs"))
  }
  pure def judge(o: Op, b: Pool, es: List[Exec], a: Ans): Set[str] =
    if (a.hang or not(a.ok)) Set("C19 admissible run refused", "C20 admissible run refused", "C21 admissible run refused")
      .union(lab(not(o.together), "C22 concurrent runs crash or race"))
    else range(0, es.length()).foldl(Set(), (s, i) => s.union(judgeOne(es[i], a.outs[i])))
      .union(lab(a.base == b, "C20 the caller's pool changed"))
      .union(lab(a.txsKept, "C20 the caller's transactions changed"))
      .union(lab(a.base == b and a.txsKept and a.argsKept, "C22 the shared pool, amounts or transactions changed"))
      .union(lab(a.base == b and a.txsKept and a.argsKept and a.constsKept, "C11 a run modified a value that is not its own"))

  // ------------------------------------------------------------------ choosing
  pure def genRun(g: Setup, first: int, sc: int, n: int, r: int): Plan = {
    val hist = needsHistory(g.name)
    pure def f(q) = { val m = pk(q, 0, 6)
      imax(1, if (m == 0) 1 else if (m == 1) sc else if (m == 2) 2 * sc else if (m == 3) sc / 3 else pk(q, 4, 6 * sc)) }
    val beg = { val m = pk(r, 100, 12)
      if (hist) first + (if (m < 5) sc else pk(r, 104, sc * 6) + 1)
      else if (m == 0) first - pk(r, 104, 100) else if (m < 4) first else if (m < 7) first + sc else if (m == 11) first + 100 * sc * n else first + pk(r, 104, sc * 6) }
    val fin = { val m = pk(r, 140, 18)
      if (m == 0) first - pk(r, 144, 2) else if (m == 1) beg - 1 + pk(r, 144, 2) else if (m < 5) first + pk(r, 144, 2 * sc * n) else 90000000000000 }
    pure def trade(q) = { val m = pk(q, 0, 4)
      if (m < 2) 0 else (if (m == 2) 1 else -1) * logU(q / 4, 70) }
    { name: g.name, x: g.x, y: g.y, a0: g.a0, a1: g.a1, begin: beg, end: fin, upd: f(r), snap: f(r / 2^30), prices: f(r / 2^60),
      script: if (g.name == "stub") range(0, 1 + pk(r, 180, 6)).foldl(List(), (l, i) => l.append((logU(r / 2^(200 + 240 * i), 100), logU(r / 2^(320 + 240 * i), 60),
          trade(r / 2^(200 + 240 * i + 110))))) else [(0, 0, 0)] }
  }
  // profiles: 0-11 one run of that strategy, 12 one run of a stub, 13 several runs at once, 14 several of the program's kind
  action init = {
    nondet n = 0.to(14).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n }
  }
  pure def kindFor(pf: int, i: int, r: int): str =
    if (pf < 12) KINDS[pf] else if (pf == 12) "stub" else if (pf == 14) "bandsfill" else KINDS[pk(r, 0, 12)]
  pure def genOp(pf: int, r1: int, r2: int, r3: int): Op = {
    val together = pf > 12
    val k0 = kindFor(pf, 0, r3)
    val g0 = genSetup(if (together) "bandsfill" else k0, r1, r2)
    val first = { val m = pk(r3, 20, 3)
      if (m == 0) 0 else if (m == 1) 1620000000 else pk(r3, 24, 10^6) }
    val sc = 1 + pk(r3, 50, 300)
    val n = if (together) 4 + pk(r3, 60, 16) else 2 + pk(r3, 60, 38)
    val more = if (together) 1 + pk(r3, 70, 4) else 0
    val runs = range(0, 1 + more).foldl(List(), (l, i) => {
      val kd = kindFor(pf, i, r3 / 2^(80 + 8 * i))
      val g = genSetup(kd, r1 / 2^(i + 1), r2 / 2^(i + 1))
      l.append(genRun({ ...g, name: kd, a0: g0.a0, a1: g0.a1, x: if (together and needsHistory(kd)) 2 + pk(r1, 100 + i, 5) else g.x }, first, sc, n, r3 / 2^(120 + 90 * i)))
    })
    val o = { ...NOOP, kind: if (together) "together" else "alone", fee: g0.fee, price: g0.price, mints: g0.mints, together: together }
    val p = basePool(o)
    val g = range(0, n).foldl({ e: opening(runs[0], p, first), txs: List(), led: o.mints.foldl(Map(), (m, x) => ledgerAfter(m, x)), ts: first, dead: false },
      (g, i) => genTx(g, sc, p.tick, r3 / 2^(1800 + 1200 * i)))
    val es = if (g.dead) List() else runs.foldl(List(), (l, r) => l.append(runAll(r, p, g.txs)))
    val good = es.select(e => e.ok)
    if (good == List()) { ...NOOP, kind: "end" }
    else { ...o, txs: g.txs, runs: good.foldl(List(), (l, e) => l.append(e.plan)), ranges: good.foldl(Set(), (s, e) => s.union(e.s.p.pos.keys())) }
  }
  action choose = {
    nondet r1 = 0.to(2^300 - 1).oneOf()
    nondet r2 = 0.to(2^600 - 1).oneOf()
    nondet r3 = 0.to(2^50000 - 1).oneOf()
    all { op' = genOp(prof, r1, r2, r3), ans' = ans, bad' = Set(), tags' = Set(), prof' = prof }
  }
  pure def tagsOf(o: Op, es: List[Exec]): Set[(str, str)] = {
    val t = o.txs
    val n = t.length()
    es.foldl(Set(), (s, e) => { val r = e.plan
      s.union(Set((if (o.together) "together" else "alone", r.name),
        ("start", if (not(e.started)) "never" else if (t[0].ts >= r.begin) "first transaction" else "later transaction"),
        ("end", if (r.end < t[0].ts) "before the first transaction" else if (e.over) "inside the history" else if (r.end == t[n - 1].ts) "on the last transaction" else "after the history")))
      .union(e.calls.foldl(Set(), (z, c) => z.union(Set(("call", c.what))).union(if (c.after != c.price) Set(("call", if (c.what == "start") "start moves the price" else "another call moves the price")) else Set())))
      .union(if (e.calls.length() > 1 and e.calls[0].what == "snapshot") Set(("schedule", "history before the start")) else Set())
      .union(if (range(1, n).exists2(i => t[i].ts == t[i - 1].ts)) Set(("schedule", "tied timestamps")) else Set())
      .union(if (range(1, n).exists2(i => t[i].ts - t[i - 1].ts > 2 * r.snap)) Set(("schedule", "a gap of several value snapshots")) else Set())
      .union(if (range(1, n).exists2(i => t[i].ts - t[i - 1].ts > 2 * r.upd)) Set(("schedule", "a gap of several rebalances")) else Set())
      .union(if (range(1, n).exists2(i => t[i].ts - t[i - 1].ts > 2 * r.prices)) Set(("schedule", "a gap of several price snapshots")) else Set())
    }).union(t.foldl(Set(), (z, x) => z.union(Set(("transaction", if (x.kind == "Swap") (if (x.a0 > 0) "swap of token0" else if (x.a1 > 0) "swap of token1" else "swap of nothing")
        else if (x.kind == "Flash") (if (x.a0 == 0 and x.a1 == 0) "flash of nothing" else if (x.a0 == 0) "flash of token1" else if (x.a1 == 0) "flash of token0" else "Flash")
        else if (x.kind.in(Set("Mint", "Burn"))) x.kind else "another kind")))))
  }
  action observe = {
    val p = basePool(op)
    val es = op.runs.foldl(List(), (l, r) => l.append(runAll(r, p, op.txs)))
    all { bad' = judge(op, p, es, ans), tags' = tagsOf(op, es), op' = op, ans' = ans, prof' = prof }
  }
}
