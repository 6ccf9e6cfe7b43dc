// The backtest: what happens at each transaction of a history, and when.
module executor {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"
  import strategy.* from "./strategy"

  // a transaction of the history; kinds other than Mint, Burn, Swap and Flash have no effect
  type Tx = { kind: str, ts: int, l: int, u: int, amt: int, a0: int, a1: int }
  // strategy and schedule of one run; "stub": a strategy that answers from a script,
  // trading first when it starts or rebalances (an input of token0, or of token1 when negative)
  type Plan = { name: str, x: int, y: int, a0: int, a1: int, script: List[(int, int, int)], begin: int, end: int, upd: int, snap: int, prices: int }
  // one call of the strategy: the pool just before (price, tick, liquidity, fees, initialized ticks), answers, price after
  type Call = { what: str, r0: int, r1: int, price: int, tick: int, liq: int, fg0: int, fg1: int, n: int, gross: int, moment: int, after: int }
  type Exec = {
    ok: bool, s: Strat, plan: Plan, started: bool, over: bool, nextUpd: int, nextSnap: int, nextPrice: int,
    answered: int, calls: List[Call], values: List[int]
  }
  pure val NEVER = 2^63 - 1

  pure def opening(r: Plan, p: Pool, first: int): Exec = {
    ok: true, s: opened(r.name, r.x, r.y, r.a0, r.a1, p), plan: r, started: false, over: false,
    nextUpd: NEVER, nextSnap: NEVER, nextPrice: first, answered: 0, calls: List(), values: List()
  }
  pure def callOf(what: str, p: Pool, r0: int, r1: int, after: int): Call = {
    val z = p.ticks.keys().fold((0, 0), (a, i) => (a._1 + p.ticks.get(i).gross, a._2 + i * p.ticks.get(i).net))
    { what: what, r0: r0, r1: r1, price: p.price, tick: p.tick, liq: p.liq, fg0: p.fg0, fg1: p.fg1, n: p.ticks.keys().size(), gross: z._1, moment: z._2, after: after }
  }
  // what amounts are worth in token0 at a price, rounded down
  pure def valued(a0: int, a1: int, price: int): int = a0 + (a1 * P192) / (price * price)
  pure val PRICED = P128   // prices whose square fits in a word

  pure def traded(s: Strat, x: int): Done = if (x == 0) { ok: true, r0: 0, r1: 0, s: s } else {
    val w = swap(s.p, x > 0, if (x > 0) x else -x, 0)
    { ok: w.ok and not(w.walk.fuel), r0: 0, r1: 0, s: { ...s, p: w.p } }
  }
  // an action of the strategy; recorded: its answer is valued and kept
  pure def act(e: Exec, what: str, recorded: bool): Exec = if (not(e.ok)) e else {
    val stub = e.s.kind == "stub"
    val said = if (what == "snapshot") (0, 0, 0) else e.plan.script[e.answered % e.plan.script.length()]
    val d = if (stub) { ...traded(e.s, if (what == "start" or what == "rebalance") said._3 else 0), r0: said._1, r1: said._2 }
      else if (what == "start") start(e.s)
      else if (what == "rebalance") rebalance(e.s)
      else if (what == "burnall") burnAll(e.s)
      else if (what == "amounts") { val w = worth(e.s)
        { ok: true, r0: w._1, r1: w._2, s: e.s } }
      else snapshot(e.s)
    if (not(d.ok) or recorded and d.s.p.price >= PRICED) { ...e, ok: false } else {
      ...e, s: d.s, answered: e.answered + (if (stub and what != "snapshot") 1 else 0),
      calls: e.calls.append(callOf(what, e.s.p, d.r0, d.r1, d.s.p.price)),
      values: if (recorded) e.values.append(valued(d.r0, d.r1, d.s.p.price)) else e.values
    }
  }
  pure def apply(p: Pool, t: Tx): Answer =
    if (t.kind == "Mint") mint(p, t.l, t.u, t.amt)
    else if (t.kind == "Burn") burn(p, t.l, t.u, t.amt)
    else if (t.kind == "Flash") flash(p, t.a0, t.a1)
    else if (t.kind == "Swap" and (t.a0 > 0 or t.a1 > 0)) { val w = swap(p, t.a0 > 0, if (t.a0 > 0) t.a0 else t.a1, 0)
      { ok: w.ok and not(w.walk.fuel), r0: w.r0, r1: w.r1, p: w.p } }
    else { ok: true, r0: 0, r1: 0, p: p }

  // one transaction: start, price snapshot, value snapshot, rebalance, and then the transaction itself
  pure def onTx(e: Exec, t: Tx): Exec =
    if (not(e.ok) or e.over) e else if (t.ts > e.plan.end) { ...e, over: true } else {
      val e1 = if (not(e.started) and t.ts >= e.plan.begin)
        { ...act(e, "start", true), started: true, nextUpd: t.ts + e.plan.upd, nextSnap: t.ts + e.plan.snap } else e
      val e2 = if (t.ts >= e1.nextPrice) { ...act(e1, "snapshot", false), nextPrice: e1.nextPrice + e.plan.prices } else e1
      val e3 = if (t.ts >= e2.nextSnap) { ...act(e2, "amounts", true), nextSnap: e2.nextSnap + e.plan.snap } else e2
      val e4 = if (t.ts >= e3.nextUpd) { ...act(e3, "rebalance", false), nextUpd: e3.nextUpd + e.plan.upd } else e3
      if (not(e4.ok)) e4 else { val r = apply(e4.s.p, t)
        { ...e4, ok: r.ok, s: { ...e4.s, p: r.p } } }
    }
  pure def finish(e: Exec): Exec = act(e, "burnall", true)
  pure def runAll(r: Plan, p: Pool, txs: List[Tx]): Exec = finish(txs.foldl(opening(r, p, txs[0].ts), (e, t) => onTx(e, t)))
}
