// The twelve liquidity-provision strategies: what each holds, where its rule places liquidity, what it is worth.
module strategy {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"

  // kinds, with the meaning of their parameters x and y
  //   none                      holds its assets
  //   v2                        the full range
  //   constant  x width         an interval around the price at the start, kept
  //   price     x width         an interval around the current price
  //   swap      x width         the same, after swapping half of what would be left over
  //   two       x width, y      an interval around the price and a second one of width y beside it
  //   average   x width, y win  an interval around the average price
  //   fill      x width         an interval around the price, the rest on one side up to its end
  //   limit     x width         an interval around the price, half of the rest 10 ticks beside the price
  //   bands     x win, y mult   average price +- scaled volatility
  //   bandsfill x win, y mult   the same, the rest filled up on one side (when rebalancing)
  //   vol       x win, y mult   current price +- scaled volatility
  pure val KINDS = ["none", "v2", "constant", "price", "swap", "two", "average", "fill", "limit", "bands", "bandsfill", "vol"]
  pure def windowOf(kind: str, x: int, y: int): int =
    if (kind == "average") y else if (kind.in(Set("bands", "bandsfill", "vol"))) x else 0
  pure def needsHistory(kind: str): bool = kind.in(Set("average", "bands", "bandsfill", "vol"))

  type Held = { l: int, u: int, liq: int }
  type Strat = {
    kind: str, x: int, y: int, a0: int, a1: int, p: Pool, held: List[Held],
    win: int, squares: List[int],     // price history, newest last
    cl: int, cu: int,                 // the interval of `constant`
    lim: int, dir: bool               // the far end of the last order of `limit`, and whether it lies above the price
  }
  // ok: the rule has a meaning here (its intervals exist); why not otherwise
  type Done = { ok: bool, r0: int, r1: int, s: Strat }

  pure def opened(kind: str, x: int, y: int, a0: int, a1: int, p: Pool): Strat =
    { kind: kind, x: x, y: y, a0: a0, a1: a1, p: p, held: List(), win: windowOf(kind, x, y), squares: List(), cl: 0, cu: 0, lim: 0, dir: false }

  // ---------- price history ----------
  pure def snapshot(s: Strat): Done =
    if (not(needsHistory(s.kind))) { ok: true, r0: 0, r1: 0, s: s }
    else if (s.p.price >= 2^115) { ok: false, r0: 0, r1: 0, s: s }
    else {
      val l = s.squares.append(s.p.price * s.p.price)
      { ok: true, r0: 0, r1: 0, s: { ...s, squares: if (l.length() > s.win) l.slice(l.length() - s.win, l.length()) else l } }
    }
  pure def average(s: Strat): int = s.squares.foldl(0, (a, x) => a + x) / s.win
  pure def volatility(s: Strat): int = {
    val m = average(s)
    isqrt((s.squares.foldl(0, (a, x) => a + (x - m) * (x - m)) + (s.win - s.squares.length()) * m * m) / (s.win - 1))
  }

  // ---------- where the main interval goes ----------
  pure def aligned(s: Strat, t: int): int = roundTo(t, s.p.sp)
  // a band around a price: the ends of the tick range where it exceeds them
  pure def band(mid: int, half: int): (bool, int, int) = {
    val lo = mid - half
    val hi = mid + half
    (hi >= MIN_SQRT and lo < MAX_SQRT, if (lo < MIN_SQRT) MIN_TICK else tickOf(lo), if (hi > MAX_SQRT) MAX_TICK else tickOf(imin(hi, MAX_SQRT - 1)))
  }
  pure def halfBand(s: Strat): int = isqrt((volatility(s) * s.y) / 1024)
  // (exists, lower, upper)
  pure def interval(s: Strat): (bool, int, int) =
    if (s.kind == "v2") (true, -887270, 887270)
    else if (s.kind == "average") {
      val m = isqrt(average(s))
      if (m < MIN_SQRT) (false, 0, 0) else { val t = tickOf(m)
        (true, aligned(s, t - s.x), aligned(s, t + s.x)) }
    }
    else if (s.kind == "bands" or s.kind == "bandsfill") band(isqrt(average(s)), halfBand(s))
    else if (s.kind == "vol") band(s.p.price, halfBand(s))
    else (true, aligned(s, s.p.tick - s.x), aligned(s, s.p.tick + s.x))

  // ---------- minting what the assets buy ----------
  pure def inTable(l: int, u: int): bool = and { MIN_TICK <= l, l <= MAX_TICK, MIN_TICK <= u, u <= MAX_TICK }
  pure def place(d: Done, l: int, u: int, half: bool): Done =
    if (not(d.ok)) d else if (not(inTable(l, u)) or l > u) { ...d, ok: false } else {
      val s = d.s
      val full = liqForAmounts(s.p.price, sqrtAt(l), sqrtAt(u), s.a0, s.a1)
      val liq = if (half) full / 2 else full
      if (liq == 0) d
      // liquidity beyond 128 bits has no meaning in the contract
      else if (liq >= P128) { ...d, ok: false } else {
        val m = mintStrategy(s.p, l, u, liq)
        { ...d, s: { ...s, p: m.p, a0: s.a0 - m.r0, a1: s.a1 - m.r1, held: s.held.append({ l: l, u: u, liq: liq }) } }
      }
    }
  // half of what the interval would leave over is swapped first, by the exchange rule of thumb 1 : 512
  pure def swapHalf(d: Done, l: int, u: int): Done =
    if (not(d.ok)) d else if (not(inTable(l, u)) or l > u) { ...d, ok: false } else {
      val s = d.s
      val liq = liqForAmounts(s.p.price, sqrtAt(l), sqrtAt(u), s.a0, s.a1)
      val used = amountsForLiq(s.p.price, sqrtAt(l), sqrtAt(u), liq)
      val d0 = s.a0 - used._1
      val d1 = s.a1 - used._2
      val first = d0 * 512 > d1
      val amt = if (first) d0 / 2 else d1 / 2
      if (liq >= P128 or d0 * 512 >= P256) { ...d, ok: false }
      else if (amt <= 0) d else {
        val w = swap(s.p, first, amt, 0)
        if (not(w.ok) or w.walk.fuel) { ...d, ok: false }
        else { ...d, s: { ...s, p: w.p, a0: s.a0 - w.r0, a1: s.a1 - w.r1 } }
      }
    }

  pure def ordered(d: Done, t: int, up: bool): Done = if (d.ok and d.s.kind == "limit") { ...d, s: { ...d.s, lim: t, dir: up } } else d

  // all positions of the rule, for the assets held; fresh: at the start
  pure def provide(d: Done, fresh: bool): Done =
    if (d.s.kind == "none") d else {
      val s = d.s
      val iv = if (s.kind == "constant" and not(fresh)) (true, s.cl, s.cu) else interval(s)
      val d0 = if (s.kind == "constant" and fresh) { ...d, s: { ...s, cl: iv._2, cu: iv._3 } } else d
      if (not(iv._1)) { ...d, ok: false } else {
        val main = place(if (s.kind == "swap") swapHalf(d0, iv._2, iv._3) else d0, iv._2, iv._3, false)
        val t = main.s.p.tick
        val up = ceilTo(t, s.p.sp)
        val down = floorTo(t, s.p.sp)
        if (not(main.ok)) main
        else if (s.kind == "two" or s.kind == "limit") {
          val w = if (s.kind == "two") s.y else 10
          val above = if (main.s.a0 != 0) ordered(place(main, up, up + w, s.kind == "limit"), up + w, true) else main
          if (above.ok and above.s.a1 != 0) ordered(place(above, down - w, down, s.kind == "limit"), down - w, false) else above
        }
        else if (s.kind == "fill" or s.kind == "bandsfill" and not(fresh) and iv._2 <= t and t <= iv._3) {
          if (main.s.a0 != 0) (if (up < iv._3) place(main, up, iv._3, false) else main)
          else if (main.s.a1 != 0) (if (iv._2 < down) place(main, iv._2, down, false) else main)
          else main
        }
        else main
      }
    }

  // ---------- the strategy's own operations ----------
  // the same range may be held twice; its fees are credited with the first burn and collected then
  pure def liquidated(s: Strat): Strat = {
    val r = s.held.foldl((s.p, s.a0, s.a1), (a, h) => {
      val b = burnStrategy(a._1, h.l, h.u, h.liq)
      val c = collect(b.p, h.l, h.u)
      (c.p, a._2 + c.r0, a._3 + c.r1)
    })
    { ...s, p: r._1, a0: r._2, a1: r._3, held: List() }
  }
  pure def burnAll(s: Strat): Done = { val l = liquidated(s)
    { ok: true, r0: l.a0, r1: l.a1, s: l } }
  pure def start(s: Strat): Done = provide({ ok: true, r0: s.a0, r1: s.a1, s: s }, true)
  pure def rebalance(s: Strat): Done = if (s.kind == "none") { ok: true, r0: s.a0, r1: s.a1, s: s } else provide(burnAll(s), false)
  // assets and open positions at the current price; fees not yet collected are not counted
  pure def worth(s: Strat): (int, int) = s.held.foldl((s.a0, s.a1), (a, h) => {
    val w = amountsForLiq(s.p.price, sqrtAt(h.l), sqrtAt(h.u), h.liq)
    (a._1 + w._1, a._2 + w._2)
  })
  // idle assets and everything the positions can withdraw
  pure def total(a0: int, a1: int, p: Pool): (int, int) = p.pos.keys().fold((a0, a1), (a, r) => {
    val w = withdrawable(p, r)
    (a._1 + w._1, a._2 + w._2)
  })
}
