// Market activity on a pool: anonymous liquidity, swaps and flashes.
module market {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"
  import rand.* from "./rand"

  // kind: mint, burn (l, u, amt); swapin, swapout (zfo, amt, no limit); flash (amt, amt2)
  type Market = { kind: str, l: int, u: int, amt: int, amt2: int, zfo: bool }
  pure val NOMARKET: Market = { kind: "none", l: 0, u: 0, amt: 0, amt2: 0, zfo: true }
  pure def applyMarket(p: Pool, m: Market): Answer =
    if (m.kind == "mint") mint(p, m.l, m.u, m.amt)
    else if (m.kind == "burn") burn(p, m.l, m.u, m.amt)
    else if (m.kind == "flash") flash(p, m.amt, m.amt2)
    else if (m.kind == "swapin" or m.kind == "swapout") { val w = swap(p, m.zfo, if (m.kind == "swapin") m.amt else -m.amt, 0)
      { ok: w.ok and not(w.walk.fuel), r0: w.r0, r1: w.r1, p: w.p } }
    else { ok: true, r0: 0, r1: 0, p: p }

  pure def ledgerAfter(m: (int, int) -> int, o: Market): (int, int) -> int = {
    val d = if (o.kind == "mint") o.amt else if (o.kind == "burn") -o.amt else 0
    val r = (o.l, o.u)
    val v = (if (m.keys().contains(r)) m.get(r) else 0) + d
    if (d == 0) m else if (v == 0) m.keys().exclude(Set(r)).mapBy(x => m.get(x)) else m.put(r, v)
  }

  // the input (output) that carries the price about to a tick at the liquidity in range
  pure def towards(p: Pool, t: int, zfo: bool, input: bool): int = {
    val pt = sqrtAt(imax(MIN_TICK, imin(MAX_TICK, t)))
    if (p.liq == 0) 1
    else if (input) { val a = if (zfo) amount0(pt, p.price, p.liq, true) else amount1(p.price, pt, p.liq, true)
      a + mulDivUp(a, p.fee, 1000000 - p.fee) }
    else (if (zfo) amount1(pt, p.price, p.liq, false) else amount0(p.price, pt, p.liq, false))
  }
  // home: the tick prices tend to return to
  pure def genMarket(p: Pool, led: (int, int) -> int, home: int, r: int): Market = {
    val k = pk(r, 0, 100)
    val zfo = if (p.price < 2 * MIN_SQRT) false else if (p.price > MAX_SQRT / 2) true
      else if (p.tick > home + 100) pk(r, 8, 3) > 0 else if (p.tick < home - 100) pk(r, 8, 3) == 0 else pk(r, 8, 2) == 0
    val m = pk(r, 16, 16)
    val dir = if (zfo) -1 else 1
    val near = nextTick(p.ticks.keys(), p.sp, if (zfo and pk(r, 20, 2) == 0) p.tick - 1 else p.tick, zfo)._1
    val amt = if (m < 4) imax(1, towards(p, near, zfo, k < 70) + pk(r, 24, 3) - 1)
      else if (m < 12) 1 + towards(p, p.tick + dir * (1 + pk(r, 24, if (m < 7) 40 else 8)) * (if (m < 8) p.sp else 10), zfo, k < 70) * (1 + pk(r, 40, 1000)) / 700
      else if (m < 15) 1 + pk(r, 24, 1000) else 1 + towards(p, p.tick + dir * pk(r, 24, 30000), zfo, k < 70)
    val a = floorTo(p.tick, p.sp) + (pk(r, 64, 41) - 20) * p.sp
    val l = imax(-887200, a)
    val u = imin(887200, l + p.sp * (1 + pk(r, 80, 40)))
    val owned = led.keys()
    val pick = owned.fold((0, (l, u)), (s, x) => if (s._1 == pk(r, 96, imax(1, owned.size()))) (s._1 + 1, x) else (s._1 + 1, s._2))._2
    if (k < 55) { ...NOMARKET, kind: "swapin", zfo: zfo, amt: amt }
    else if (k < 70) { ...NOMARKET, kind: "swapin", zfo: zfo, amt: 1 + amt / 3 }
    else if (k < 78) { ...NOMARKET, kind: "swapout", zfo: zfo, amt: amt }
    else if (k < 88 and l < u) { ...NOMARKET, kind: "mint", l: floorTo(l, p.sp), u: floorTo(u, p.sp), amt: 1 + logU(r / 2^104, 80) }
    else if (k < 93 and owned != Set()) { ...NOMARKET, kind: "burn", l: pick._1, u: pick._2, amt: { val v = led.get(pick)
      // never all of the wide liquidity, so that the price stays in reach
      if (pick._2 - pick._1 > 1000000) v / 4 else if (m < 8) v else 1 + pk(r, 200, v) } }
    else if (p.liq > 0) { ...NOMARKET, kind: "flash", amt: if (m > 10) 0 else logU(r / 2^104, 90), amt2: if (m < 4 or m == 15) 0 else logU(r / 2^208, 90) }
    else { ...NOMARKET, kind: "swapin", zfo: zfo, amt: amt }
  }
}
