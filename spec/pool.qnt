// The concentrated-liquidity pool: state and transitions (Uniswap v3 core, with the anonymous market
// operations Mint/Burn and the accounted strategy operations MintStrategy/BurnStrategy/CollectStrategy).
module pool {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"

  type Tick = { net: int, gross: int, o0: int, o1: int }
  type Position = { liq: int, l0: int, l1: int, w0: int, w1: int }
  type Range = (int, int)
  type Pool = {
    fee: int, sp: int, price: int, tick: int, liq: int, fg0: int, fg1: int,
    ticks: int -> Tick, pos: (int, int) -> Position
  }

  pure def spacingOf(fee: int): int = if (fee == 500) 10 else if (fee == 3000) 60 else 200

  pure def without(m: int -> Tick, k: int): int -> Tick = m.keys().exclude(Set(k)).mapBy(x => m.get(x))

  // ---------- opening a pool ----------
  pure def validNew(fee: int, p: int): bool = 0 <= fee and fee <= 1000000 and validSqrt(p)
  pure def newPool(fee: int, p: int): Pool = {
    fee: fee, sp: spacingOf(fee), price: p, tick: tickOf(p), liq: 0, fg0: 0, fg1: 0, ticks: Map(), pos: Map()
  }

  // ---------- the tick bitmap: nearest initialized tick within one 256-tick word ----------
  pure def wordLo(tick: int, sp: int): int = fdiv(fdiv(tick, sp), 256) * 256 * sp
  pure def wordHi(tick: int, sp: int): int = (fdiv(fdiv(tick, sp) + 1, 256) * 256 + 255) * sp
  // (tick found, is it initialized)
  pure def nextTick(ks: Set[int], sp: int, tick: int, lte: bool): (int, bool) =
    if (lte) {
      val lo = wordLo(tick, sp)
      val c = ks.filter(k => lo <= k and k <= tick)
      if (c == Set()) (lo, false) else (maxOf(c, lo), true)
    } else {
      val hi = wordHi(tick, sp)
      val c = ks.filter(k => tick < k and k <= hi)
      if (c == Set()) (hi, false) else (minOf(c, hi), true)
    }

  // ---------- liquidity ----------
  pure def validRange(l: int, u: int): bool = l < u and MIN_TICK <= l and u <= MAX_TICK

  // fees per unit of liquidity earned outside a tick start at zero above the price and at the global value below
  pure def touchTick(p: Pool, i: int, netDelta: int, grossDelta: int): int -> Tick = {
    val old = if (p.ticks.keys().contains(i)) p.ticks.get(i)
              else { net: 0, gross: 0, o0: if (i <= p.tick) p.fg0 else 0, o1: if (i <= p.tick) p.fg1 else 0 }
    val g = old.gross + grossDelta
    if (g == 0) without(p.ticks, i) else p.ticks.put(i, { ...old, net: old.net + netDelta, gross: g })
  }

  // growth inside a range; an uninitialized tick has the value it would be initialized with
  pure def outside0(p: Pool, i: int): int =
    if (p.ticks.keys().contains(i)) p.ticks.get(i).o0 else if (i <= p.tick) p.fg0 else 0
  pure def outside1(p: Pool, i: int): int =
    if (p.ticks.keys().contains(i)) p.ticks.get(i).o1 else if (i <= p.tick) p.fg1 else 0
  pure def inside(p: Pool, l: int, u: int, fg: int, ol: int, ou: int): int = {
    val below = if (p.tick >= l) ol else fg - ol
    val above = if (p.tick < u) ou else fg - ou
    wrap(fg - below - above)
  }
  pure def inside0(p: Pool, l: int, u: int): int = inside(p, l, u, p.fg0, outside0(p, l), outside0(p, u))
  pure def inside1(p: Pool, l: int, u: int): int = inside(p, l, u, p.fg1, outside1(p, l), outside1(p, u))

  // liquidity added to (or removed from) a range: ticks and active liquidity
  pure def shiftLiquidity(p: Pool, l: int, u: int, d: int): Pool =
    if (d == 0) p else {
      val t1 = touchTick(p, l, d, d)
      val t2 = touchTick({ ...p, ticks: t1 }, u, -d, d)
      { ...p, ticks: t2, liq: if (l <= p.tick and p.tick < u) p.liq + d else p.liq }
    }

  // tokens for a liquidity change of a range at the current price (positive: charged, negative: paid)
  pure def tokens0(p: Pool, l: int, u: int, d: int): int =
    if (d == 0 or p.tick >= u) 0
    else if (p.tick < l) amount0Signed(sqrtAt(l), sqrtAt(u), d)
    else amount0Signed(p.price, sqrtAt(u), d)
  pure def tokens1(p: Pool, l: int, u: int, d: int): int =
    if (d == 0 or p.tick < l) 0
    else if (p.tick < u) amount1Signed(sqrtAt(l), p.price, d)
    else amount1Signed(sqrtAt(l), sqrtAt(u), d)

  pure val NOPOS: Position = { liq: 0, l0: 0, l1: 0, w0: 0, w1: 0 }
  pure def posOf(p: Pool, r: (int, int)): Position = if (p.pos.keys().contains(r)) p.pos.get(r) else NOPOS

  // fees earned by a position since its last update
  pure def earned0(q: Position, in0: int): int = mulDiv(wrap(in0 - q.l0), q.liq, P128)
  pure def earned1(q: Position, in1: int): int = mulDiv(wrap(in1 - q.l1), q.liq, P128)

  type Answer = { ok: bool, r0: int, r1: int, p: Pool }
  pure def refuse(p: Pool): Answer = { ok: false, r0: 0, r1: 0, p: p }

  // accounted liquidity change of a position
  pure def modifyPosition(p: Pool, l: int, u: int, d: int): Answer = {
    val p1 = shiftLiquidity(p, l, u, d)
    // growth inside is taken after the ticks are initialized and before they are cleared: same values as before
    val in0 = inside0(p, l, u)
    val in1 = inside1(p, l, u)
    val q = posOf(p, (l, u))
    val a0 = tokens0(p, l, u, d)
    val a1 = tokens1(p, l, u, d)
    val q2 = {
      liq: q.liq + d, l0: in0, l1: in1,
      w0: q.w0 + earned0(q, in0) + (if (d < 0) -a0 else 0),
      w1: q.w1 + earned1(q, in1) + (if (d < 0) -a1 else 0)
    }
    { ok: true, r0: if (d < 0) -a0 else a0, r1: if (d < 0) -a1 else a1, p: { ...p1, pos: p.pos.put((l, u), q2) } }
  }

  pure def mintStrategy(p: Pool, l: int, u: int, amt: int): Answer =
    if (amt <= 0 or not(validRange(l, u))) refuse(p) else modifyPosition(p, l, u, amt)

  // amt = 0 is a poke: fees are credited, no liquidity moves
  pure def burnStrategy(p: Pool, l: int, u: int, amt: int): Answer =
    if (amt < 0 or not(validRange(l, u)) or not(p.pos.keys().contains((l, u))) or posOf(p, (l, u)).liq < amt) refuse(p)
    else modifyPosition(p, l, u, -amt)

  pure def collect(p: Pool, l: int, u: int): Answer =
    if (not(p.pos.keys().contains((l, u)))) refuse(p) else {
      val q = p.pos.get((l, u))
      { ok: true, r0: q.w0, r1: q.w1, p: { ...p, pos: p.pos.put((l, u), { ...q, w0: 0, w1: 0 }) } }
    }

  // anonymous market liquidity
  pure def mint(p: Pool, l: int, u: int, amt: int): Answer =
    if (amt <= 0 or not(validRange(l, u))) refuse(p)
    else { ok: true, r0: 0, r1: 0, p: shiftLiquidity(p, l, u, amt) }

  pure def grossAt(p: Pool, i: int): int = if (p.ticks.keys().contains(i)) p.ticks.get(i).gross else 0
  pure def canBurn(p: Pool, l: int, u: int, amt: int): bool = or {
    amt == 0,
    and { amt > 0, grossAt(p, l) >= amt, grossAt(p, u) >= amt, not(l <= p.tick and p.tick < u) or p.liq >= amt }
  }
  pure def burn(p: Pool, l: int, u: int, amt: int): Answer =
    if (not(validRange(l, u)) or not(canBurn(p, l, u, amt))) refuse(p)
    else { ok: true, r0: 0, r1: 0, p: shiftLiquidity(p, l, u, -amt) }

  // ---------- flash ----------
  pure def flash(p: Pool, a0: int, a1: int): Answer =
    if (p.liq <= 0) refuse(p) else {
      val f0 = mulDivUp(a0, p.fee, 1000000)
      val f1 = mulDivUp(a1, p.fee, 1000000)
      { ok: true, r0: f0, r1: f1,
        p: { ...p, fg0: wrap(p.fg0 + mulDiv(f0, P128, p.liq)), fg1: wrap(p.fg1 + mulDiv(f1, P128, p.liq)) } }
    }

  // ---------- swap ----------
  // limit 0 means no limit; amt > 0 exact input, amt < 0 exact output
  pure def limitOf(zfo: bool, limit: int): int =
    if (limit != 0) limit else if (zfo) MIN_SQRT + 1 else MAX_SQRT - 1
  pure def validSwap(p: Pool, zfo: bool, amt: int, limit: int): bool = {
    val lim = limitOf(zfo, limit)
    and { amt != 0, if (zfo) lim < p.price and lim > MIN_SQRT else lim > p.price and lim < MAX_SQRT }
  }

  type Walk = {
    rem: int, calc: int, price: int, tick: int, liq: int, fg: int, ticks: int -> Tick,
    // per step: (tick the step ran in, growth added, fee, stopped exactly on a boundary going down)
    hist: List[(int, int)], fees: int, steps: int, crossed: int, fuel: bool
  }
  type SwapAnswer = { ok: bool, r0: int, r1: int, p: Pool, walk: Walk }

  pure def walkStep(p: Pool, zfo: bool, exactIn: bool, lim: int, w: Walk): Walk = {
    val nt = nextTick(w.ticks.keys(), p.sp, w.tick, zfo)
    val tn = imax(MIN_TICK, imin(MAX_TICK, nt._1))
    val pn = sqrtAt(tn)
    val target = if (zfo) imax(pn, lim) else imin(pn, lim)
    val s = swapStep(w.price, target, w.liq, w.rem, p.fee)
    val g = if (w.liq > 0) mulDiv(s.fee, P128, w.liq) else 0
    val fg2 = wrap(w.fg + g)
    val crossing = s.nxt == pn and nt._2
    val tk = if (crossing) w.ticks.get(tn) else { net: 0, gross: 0, o0: 0, o1: 0 }
    {
      rem: if (exactIn) w.rem - (s.amtIn + s.fee) else w.rem + s.amtOut,
      calc: if (exactIn) w.calc - s.amtOut else w.calc + s.amtIn + s.fee,
      price: s.nxt,
      tick: if (s.nxt == pn) (if (zfo) tn - 1 else tn)
            else if (s.nxt != w.price) tickOf(s.nxt) else w.tick,
      liq: if (crossing) (if (zfo) w.liq - tk.net else w.liq + tk.net) else w.liq,
      fg: fg2,
      ticks: if (crossing)
          w.ticks.put(tn, { ...tk,
            o0: wrap((if (zfo) fg2 else p.fg0) - tk.o0),
            o1: wrap((if (zfo) p.fg1 else fg2) - tk.o1) })
        else w.ticks,
      hist: if (g > 0) w.hist.append((w.tick, g)) else w.hist,
      fees: w.fees + s.fee, steps: w.steps + 1, crossed: w.crossed + (if (crossing) 1 else 0), fuel: false
    }
  }

  pure def walkDone(lim: int, w: Walk): bool = w.rem == 0 or w.price == lim
  // 45 * 45 steps: more than the 694 words of spacing 10 plus every initialized tick a run can hold
  pure def walkAll(p: Pool, zfo: bool, exactIn: bool, lim: int, w0: Walk): Walk = {
    val w = range(0, 45).foldl(w0, (wa, _) => if (walkDone(lim, wa)) wa else
      range(0, 45).foldl(wa, (wb, _) => if (walkDone(lim, wb)) wb else walkStep(p, zfo, exactIn, lim, wb)))
    { ...w, fuel: not(walkDone(lim, w)) }
  }

  pure def walkStart(p: Pool, zfo: bool, amt: int): Walk = {
    rem: amt, calc: 0, price: p.price, tick: p.tick, liq: p.liq, fg: if (zfo) p.fg0 else p.fg1,
    ticks: p.ticks, hist: List(), fees: 0, steps: 0, crossed: 0, fuel: false
  }

  pure def swap(p: Pool, zfo: bool, amt: int, limit: int): SwapAnswer =
    if (not(validSwap(p, zfo, amt, limit)))
      { ok: false, r0: 0, r1: 0, p: p, walk: walkStart(p, zfo, amt) }
    else {
      val exactIn = amt > 0
      val w = walkAll(p, zfo, exactIn, limitOf(zfo, limit), walkStart(p, zfo, amt))
      val used = amt - w.rem
      { ok: true,
        r0: if (zfo == exactIn) used else w.calc,
        r1: if (zfo == exactIn) w.calc else used,
        p: { ...p, price: w.price, tick: w.tick, liq: w.liq, ticks: w.ticks,
             fg0: if (zfo) w.fg else p.fg0, fg1: if (zfo) p.fg1 else w.fg },
        walk: w }
    }

  // ---------- what a position could withdraw now ----------
  pure def withdrawable(p: Pool, r: (int, int)): (int, int) = {
    val q = p.pos.get(r)
    (q.w0 + earned0(q, inside0(p, r._1, r._2)) - tokens0(p, r._1, r._2, -q.liq),
     q.w1 + earned1(q, inside1(p, r._1, r._2)) - tokens1(p, r._1, r._2, -q.liq))
  }
}
