// Behaviours of one strategy on its pool: its own operations, snapshots, valuations and market activity in between.
module strattrace {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"
  import strategy.* from "./strategy"
  import market.* from "./market"
  import stratgen.* from "./stratgen"
  import rand.* from "./rand"

  // new: a strategy (name, x, y, assets a0, a1) on a pool (fee, price) with market liquidity `mints`
  // start, rebalance, burnall, amounts, snapshot: the strategy; mint, burn, swapin, swapout, flash: the market
  type Op = { kind: str, name: str, x: int, y: int, a0: int, a1: int, m: Market, fee: int, price: int, mints: List[Market], ranges: Set[(int, int)] }
  type Ans = {
    ok: bool, hang: bool, has: bool, r0: int, r1: int, hasIdle: bool, i0: int, i1: int, p: Pool, extra: int,
    hasLim: bool, lim: int, dir: bool, base: Pool, argsKept: bool, oldKept: bool, constsKept: bool
  }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int
  var st: Strat
  var base: Pool
  var led: (int, int) -> int    // market liquidity
  var step: int

  pure val NOPOOL: Pool = newPool(500, P96)
  pure val NOOP: Op = { kind: "none", name: "none", x: 0, y: 0, a0: 0, a1: 0, m: NOMARKET, fee: 0, price: 0, mints: List(), ranges: Set() }
  pure val NOANS: Ans = { ok: true, hang: false, has: false, r0: 0, r1: 0, hasIdle: true, i0: 0, i1: 0, p: NOPOOL, extra: 0, hasLim: false, lim: 0, dir: false, base: NOPOOL,
    argsKept: true, oldKept: true, constsKept: true }
  pure val NOSTRAT: Strat = opened("none", 0, 0, 0, 0, NOPOOL)
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  pure def basePool(o: Op): Pool = o.mints.foldl(newPool(o.fee, o.price), (p, m) => mint(p, m.l, m.u, m.amt).p)
  pure def expected(s: Strat, o: Op): Done =
    if (o.kind == "new") { ok: true, r0: 0, r1: 0, s: opened(o.name, o.x, o.y, o.a0, o.a1, basePool(o)) }
    else if (o.kind == "start") start(s)
    else if (o.kind == "rebalance") rebalance(s)
    else if (o.kind == "burnall") burnAll(s)
    else if (o.kind == "amounts") { val w = worth(s)
      { ok: true, r0: w._1, r1: w._2, s: s } }
    else if (o.kind == "snapshot") snapshot(s)
    else { val r = applyMarket(s.p, o.m)
      { ok: r.ok, r0: 0, r1: 0, s: { ...s, p: r.p } } }
  pure def isMarket(o: Op): bool = not(o.kind.in(Set("new", "start", "rebalance", "burnall", "amounts", "snapshot")))

  // tick liquidity where it belongs
  pure def sameLiquidity(a: Pool, b: Pool): bool = and {
    a.ticks.keys() == b.ticks.keys(),
    a.ticks.keys().forall(i => a.ticks.get(i).net == b.ticks.get(i).net and a.ticks.get(i).gross == b.ticks.get(i).gross),
    a.pos.keys().union(b.pos.keys()).forall(r => posOf(a, r).liq == posOf(b, r).liq)
  }
  pure def open(p: Pool): Set[(int, int)] = p.pos.keys().filter(r => p.pos.get(r).liq != 0 or p.pos.get(r).w0 != 0 or p.pos.get(r).w1 != 0)

  pure def judge(s: Strat, o: Op, e: Done, a: Ans, b: Pool): Set[str] =
    if (a.hang or not(a.ok)) (if (isMarket(o)) Set("C20 admissible transaction refused")
      else Set("C17 admissible request refused").union(if (o.kind == "start" or o.kind == "rebalance") Set("C18 admissible request refused") else Set()))
    else {
      val own = not(isMarket(o)) and o.kind != "new"
      val moves = o.kind.in(Set("start", "rebalance", "burnall"))
      val before = total(s.a0, s.a1, s.p)
      val after = total(a.i0, a.i1, a.p)
      val wanted = total(e.s.a0, e.s.a1, e.s.p)
      val slack = s.held.length() + e.s.held.length()
      lab(not(moves) or a.has and a.r0 == e.r0 and a.r1 == e.r1, "C17 reported amounts")
        .union(lab(not(a.hasIdle) or a.i0 == e.s.a0 and a.i1 == e.s.a1, "C17 idle assets"))
        .union(lab(not(a.hasIdle) or a.i0 >= 0 and a.i1 >= 0, "C17 idle assets are negative"))
        .union(lab(not(a.hasIdle) or after == wanted, "C17 assets and what the positions can withdraw"))
        .union(lab(not(a.hasIdle) or not(own) or s.kind == "swap" or and {
            after._1 <= before._1, after._2 <= before._2, before._1 - after._1 <= slack, before._2 - after._2 <= slack }, "C17 assets appeared or vanished"))
        .union(lab(o.kind != "burnall" or (open(a.p) == Set() and a.extra == 0), "C17 liquidation leaves a position"))
        .union(lab(o.kind != "amounts" or (a.p == s.p and (not(a.hasIdle) or (a.i0 == s.a0 and a.i1 == s.a1))), "C17 valuation changed something"))
        .union(lab(o.kind != "amounts" or (a.r0 == e.r0 and a.r1 == e.r1), "C21 worth of assets and open positions"))
        .union(lab(isMarket(o) or (sameLiquidity(a.p, e.s.p) and a.extra == 0), "C18 liquidity is not where the rule puts it"))
        .union(lab(isMarket(o) or (a.p.price == e.s.p.price and a.p.tick == e.s.p.tick and a.p.liq == e.s.p.liq), "C18 price or active liquidity after the strategy's turn"))
        .union(lab(s.kind != "limit" or not(a.hasLim) or e.s.lim == a.lim and e.s.dir == a.dir, "C18 where the limit order is said to lie"))
        .union(lab(o.kind != "snapshot" or a.p == s.p, "C18 a snapshot changed the pool"))
        .union(lab(a.base == b and a.argsKept, "C22 the shared pool or amounts changed"))
        .union(lab(a.base == b and a.argsKept and a.oldKept and a.constsKept, "C11 a strategy modified a value that is not its own"))
    }

  // ------------------------------------------------------------------ choosing
  pure def genNew(pf: int, r1: int, r2: int): Op = {
    val g = genSetup(KINDS[pf % 12], r1, r2)
    { ...NOOP, kind: "new", name: g.name, x: g.x, y: g.y, a0: g.a0, a1: g.a1, fee: g.fee, price: g.price, mints: g.mints }
  }
  // the input that carries the price exactly to a target
  pure def carry(p: Pool, target: int): Market = {
    val zfo = target < p.price
    val w = swap(p, zfo, 2^120, target)
    { ...NOMARKET, kind: "swapin", zfo: zfo, amt: if (not(w.ok) or target == p.price) 0 else if (zfo) w.r0 else w.r1 }
  }
  // ends of what the rule places, or of what is held, and their neighbours
  pure def marks(s: Strat): List[int] = {
    val iv = if (s.kind == "constant") (true, s.cl, s.cu) else if (s.kind == "none") (false, 0, 0) else interval(s)
    s.held.foldl(if (iv._1 and iv._2 < iv._3) [iv._2, iv._3, iv._2, iv._3] else List(), (l, h) => l.concat([h.l, h.u]))
  }
  pure def aimed(s: Strat, ld: (int, int) -> int, r: int): Market = {
    // or ends of what others hold
    val ms = if (pk(r, 90, 3) > 0) marks(s) else ld.keys().fold(List(), (l, x) => if (x._2 - x._1 > 500000) l else l.append(x._1).append(x._2))
    if (ms == List()) NOMARKET else {
      val k = pk(r, 0, 10)
      val t = ms[pk(r, 8, ms.length())] + (if (k == 0) 1 else if (k == 1) -1 else 0)
      if (t <= MIN_TICK or t >= MAX_TICK) NOMARKET
      else carry(s.p, sqrtAt(t) + (if (k < 6) 0 else if (k == 6) 1 else pk(r, 20, sqrtAt(t + 1) - sqrtAt(t))))
    }
  }
  pure def atEnd(s: Strat): bool = s.p.price == sqrtAt(s.p.tick + 1) or marks(s).foldl(false, (b, t) => b or t == s.p.tick or t == s.p.tick + 1)
  // profiles: the kind of strategy (mod 12)
  pure def genOp(s: Strat, ld: (int, int) -> int, home: int, n: int, r1: int, r2: int): Op = {
    val k = pk(r1, 0, 100)
    val hist = needsHistory(s.kind)
    val started = n > (if (hist) 2 + imin(s.win, 9) else 1)
    val a = if (pk(r2, 400, 3) == 0) aimed(s, ld, r2 / 2^404) else NOMARKET
    val moves = if (a.amt > 0 and applyMarket(s.p, a).ok) a else genMarket(s.p, ld, home, r2)
    if (not(started)) (if (hist and k < 92 and n % 2 == 1) { ...NOOP, kind: "snapshot" } else { ...NOOP, kind: "market", m: moves })
    else if (n <= (if (hist) 3 + imin(s.win, 9) else 2)) { ...NOOP, kind: "start" }
    // without positions there is little left to see
    else if (s.held == List() and s.kind != "none" and pk(r1, 200, 4) == 0) { ...NOOP, kind: "end" }
    else if (k < 20 or k >= 60 and k < 80 and atEnd(s)) { ...NOOP, kind: "rebalance" }
    else if (k < 24) { ...NOOP, kind: "burnall" }
    else if (k < 34) { ...NOOP, kind: "amounts" }
    else if (k < (if (hist) 60 else 38)) { ...NOOP, kind: "snapshot" }
    else { ...NOOP, kind: "market", m: moves }
  }

  action init = {
    nondet n = 0.to(11).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n, st' = NOSTRAT, base' = NOPOOL, led' = Map(), step' = 0 }
  }
  action choose = {
    nondet r1 = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^512 - 1).oneOf()
    val o = if (step == 0) genNew(prof, r1, r2) else genOp(st, led, base.tick, step, r1, r2)
    val e = expected(st, o)
    all {
      op' = if (e.ok) { ...o, ranges: st.p.pos.keys().union(e.s.p.pos.keys()) } else { ...NOOP, kind: "end" },
      ans' = ans, bad' = Set(), tags' = Set(), prof' = prof, st' = st, base' = base, led' = led, step' = step
    }
  }
  pure def tagsOf(s: Strat, o: Op, e: Done): Set[(str, str)] = {
    val k = if (o.kind == "market") o.m.kind else o.kind
    Set((s.kind, k)).union(if (k == "start" or k == "rebalance") Set(
        (s.kind, if (e.s.held.length() == 0) "holds nothing" else if (e.s.held.length() == 1) "holds one position" else if (e.s.held.length() == 2) "holds two positions" else "holds three positions"),
        (s.kind, if (s.p.tick < 0) "negative tick" else "positive tick")) else Set())
      .union(if (k == "rebalance" and e.s.held.select(h => h.l == 0).length() > 0) Set((s.kind, "holds from tick 0")) else Set())
      .union(if (k == "rebalance" and e.s.held.select(h => h.u == 0).length() > 0) Set((s.kind, "holds up to tick 0")) else Set())
      .union(if (k == "rebalance" and s.held.length() > 0 and s.held[0].l <= s.p.tick and s.p.tick < s.held[0].u) Set((s.kind, "rebalances in range")) else if (k == "rebalance") Set((s.kind, "rebalances out of range")) else Set())
      .union(if (k == "rebalance" and s.kind != "none") { val iv = if (s.kind == "constant") (true, s.cl, s.cu) else interval(s)
          (if (iv._2 == s.p.tick and iv._2 < iv._3) Set((s.kind, "at the lower end of its rule")) else Set()).union(if (iv._3 == s.p.tick and iv._2 < iv._3) Set((s.kind, "at the upper end of its rule")) else Set())
            .union(if (e.s.p.price == sqrtAt(s.p.tick + 1)) Set((s.kind, "the price rests on the upper end of its tick")) else Set()) } else Set())
      .union(if (k == "rebalance" and e.r0 + e.r1 == 0) Set((s.kind, "nothing left")) else Set())
      .union(if (k == "start" and s.squares.length() < s.win) Set((s.kind, "starts with a partly filled history")) else Set())
      .union(if (k == "rebalance" and s.kind == "swap" and e.s.p.price != s.p.price) Set((s.kind, if (e.s.p.price > s.p.price) "swaps token1" else "swaps token0")) else Set())
      .union(if ((k == "start" or k == "rebalance") and s.kind == "swap" and e.s.p.price != s.p.price and e.s.p.price.in(Set(MIN_SQRT + 1, MAX_SQRT - 1)))
          Set((s.kind, if (e.s.p.price > s.p.price) "uses up the pool's token0" else "uses up the pool's token1")) else Set())
  }
  action observe = {
    val e = expected(st, op)
    val b = if (op.kind == "new") e.s.p else base
    all {
      bad' = judge(if (op.kind == "new") e.s else st, op, e, ans, b), tags' = tagsOf(st, op, e), op' = op, ans' = ans, prof' = prof,
      st' = if (ans.hang) st else { ...e.s, p: ans.p, a0: if (ans.hasIdle) ans.i0 else e.s.a0, a1: if (ans.hasIdle) ans.i1 else e.s.a1 },
      base' = if (ans.hang) base else ans.base,
      led' = if (op.kind == "new") op.mints.foldl(Map(), (m, x) => ledgerAfter(m, x)) else if (op.kind == "market") ledgerAfter(led, op.m) else led,
      step' = step + 1
    }
  }
}
