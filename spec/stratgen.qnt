// Initial situations for strategies: pool, market liquidity, assets and parameters.
module stratgen {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import pool.* from "./pool"
  import strategy.* from "./strategy"
  import market.* from "./market"
  import rand.* from "./rand"

  type Setup = { name: str, x: int, y: int, a0: int, a1: int, fee: int, price: int, mints: List[Market] }
  pure val SPACED = [500, 3000, 10000, 500, 500]
  // a price that strategies with and without history can have
  pure def genStart(kind: str, r: int): int = {
    val m = pk(r, 0, 12)
    val hist = needsHistory(kind)
    val t = if (m < 5) pk(r, 8, 4000) - 2000 else if (m < 7) 190000 + pk(r, 8, 20000) else if (m < 9) -200000 + pk(r, 8, 20000)
      else if (m == 9) (if (hist) 262000 + pk(r, 8, 800) else MAX_TICK - 1 - pk(r, 8, 5000)) else if (m == 10) MIN_TICK + pk(r, 8, 5000)
      else if (hist) MIN_TICK + pk(r, 8, 1100000) else MIN_TICK + pk(r, 8, 2 * MAX_TICK - 10)
    // on the spacing grid, on a tick, half way between grid points, or anywhere
    val u = { val k = pk(r, 40, 8)
      if (k == 0) floorTo(t, 600) else if (k == 1) floorTo(t, 600) + 30 else if (k == 2) floorTo(t, 10) + 5 else t }
    val v = imax(MIN_TICK, imin(MAX_TICK - 1, u))
    if (pk(r, 60, 3) == 0) imax(MIN_SQRT, sqrtAt(v) + pk(r, 64, 2)) else sqrtAt(v) + pk(r, 64, sqrtAt(v + 1) - sqrtAt(v))
  }
  // a width in ticks; sometimes one that puts an end of the range at tick 0 or half way between two ticks of the grid
  pure def genWidth(sp: int, t: int, r: int): int = { val m = pk(r, 0, 15)
    if (m == 0) pk(r, 8, 4) else if (m == 1) sp / 2 + pk(r, 8, 3) - 1 else if (m == 2) sp * pk(r, 8, 40) + sp / 2 + pk(r, 16, 3) - 1 else if (m < 5) sp * (1 + pk(r, 8, 4)) else if (m < 9) sp + pk(r, 8, 2000)
    else if (m < 11) pk(r, 8, 20000) else if (m == 11) pk(r, 8, 400000) else imax(0, iabs(t) + pk(r, 8, sp) - sp / 2) }
  pure def genAssets(r: int): int = { val m = pk(r, 0, 10)
    if (m == 0) 0 else if (m == 1) 1 + pk(r, 8, 5) else if (m < 8) logU(r / 2^8, 70) else logU(r / 2^8, 95) }
  pure def genSetup(kind: str, r1: int, r2: int): Setup = {
    val fee = SPACED[pk(r1, 0, 5)]
    val sp = spacingOf(fee)
    val price = genStart(kind, r1 / 2^8)
    val t = tickOf(price)
    val mult = { val m = pk(r1, 200, 8)
      if (m == 0) 1 + pk(r1, 208, 4) else if (m < 4) 1024 else 1 + pk(r1, 208, 65535) }
    val win = 2 + (if (pk(r1, 130, 3) == 0) 0 else if (pk(r1, 132, 8) == 0) pk(r1, 136, 120) else pk(r1, 136, 12))
    val w = genWidth(sp, t, r1 / 2^140)
    // market: wide liquidity most of the time, some narrow
    val wide = { ...NOMARKET, kind: "mint", l: -887200 + (if (sp == 60) 20 else 0), u: 887200 - (if (sp == 60) 20 else 0), amt: 2^40 + logU(r2, 80) }
    val near = { ...NOMARKET, kind: "mint", l: imax(-887200, floorTo(t, sp) - sp * (1 + pk(r2, 100, 60))), u: imin(887200, ceilTo(t + 1, sp) + sp * (1 + pk(r2, 110, 60))), amt: 1 + logU(r2 / 2^120, 80) }
    { name: kind, fee: fee, price: price, a0: genAssets(r2 / 2^200), a1: genAssets(r2 / 2^320),
      x: if (kind.in(Set("bands", "bandsfill", "vol"))) win else w,
      y: if (kind == "average") win else if (kind == "two") (if (pk(r1, 230, 4) == 0) genWidth(sp, t, r1 / 2^232) else sp * (1 + pk(r1, 232, 50))) else mult,
      // only narrow liquidity: it can be used up
      mints: { val m = pk(r2, 440, 16)
        if (m < 2 or near.l >= near.u) [wide] else if (m == 2) [] else if (m == 3 or kind == "swap" and m < 9) [near] else [wide, near] } }
  }
}
