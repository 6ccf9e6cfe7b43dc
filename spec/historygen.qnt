// Histories of transactions: admissible ones, with ties, gaps and transactions that have no effect.
module historygen {
  import ints.* from "./ints"
  import pool.* from "./pool"
  import strategy.* from "./strategy"
  import market.* from "./market"
  import executor.* from "./executor"
  import rand.* from "./rand"

  pure def noise(r: int): int = if (pk(r, 0, 3) == 0) 0 else (if (pk(r, 2, 2) == 0) 1 else -1) * logU(r / 2^8, 120)
  pure def txOf(m: Market, ts: int, r: int): Tx = {
    val t = { kind: "", ts: ts, l: m.l, u: m.u, amt: m.amt, a0: noise(r), a1: noise(r / 2^150) }
    if (m.kind == "mint") { ...t, kind: "Mint" }
    else if (m.kind == "burn") { ...t, kind: "Burn" }
    else if (m.kind == "flash") { ...t, kind: "Flash", a0: m.amt, a1: m.amt2 }
    else if (m.kind == "swapin") { ...t, kind: "Swap", a0: if (m.zfo) m.amt else -iabs(t.a0), a1: if (m.zfo) -iabs(t.a1) else m.amt, amt: iabs(noise(r / 2^300)) }
    else if (pk(r, 460, 2) == 0) { ...t, kind: "Swap", a0: -iabs(t.a0), a1: -iabs(t.a1) }
    else { ...t, kind: ["Collect", "", "swap", "SetFeeProtocol"][pk(r, 461, 4)] }
  }
  type Gen = { e: Exec, txs: List[Tx], led: (int, int) -> int, ts: int, dead: bool }
  pure def genGap(plan: Plan, sc: int, r: int): int = { val m = pk(r, 0, 10)
    if (m == 0) 0 else if (m < 3) sc else if (m < 6) 1 + pk(r, 8, sc) else if (m == 6) plan.snap else if (m == 7) plan.upd
    else if (m == 8) plan.prices else pk(r, 8, 6 * imax(plan.upd, imax(plan.snap, plan.prices))) }
  pure def genTx(g: Gen, sc: int, home: int, r: int): Gen = if (g.dead) g else {
    val ts = if (g.txs == List()) g.ts else g.ts + genGap(g.e.plan, sc, r)
    // after the end nothing counts any more, not even what would be refused
    val m = if (ts > g.e.plan.end and pk(r, 40, 2) == 0) { kind: "mint", l: pk(r, 44, 10), u: 0, amt: 0, amt2: 0, zfo: true } else genMarket(g.e.s.p, g.led, home, r / 2^48)
    val t = txOf(m, ts, r / 2^600)
    val e1 = onTx(g.e, t)
    if (e1.ok) { ...g, e: e1, txs: g.txs.append(t), led: if (e1.over) g.led else ledgerAfter(g.led, m), ts: ts }
    else { val e2 = onTx(g.e, { ...t, kind: "Collect" })
      if (e2.ok) { ...g, e: e2, txs: g.txs.append({ ...t, kind: "Collect" }), ts: ts } else { ...g, dead: true } }
  }
}
