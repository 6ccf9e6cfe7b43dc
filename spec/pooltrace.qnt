// Behaviours of pools: requests chosen by the specification, answers observed on the implementation,
// and one predicate per property over (history, state before, request, answer, state after).
// The driver alternates `choose` (a request is chosen), the implementation's answer (variable `ans`),
// and `observe` (the answer is judged, the specification continues from the observed state).
module pooltrace {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import pool.* from "./pool"

  type Op = {
    kind: str, h: int, h2: int, l: int, u: int, amt: int, amt2: int, zfo: bool, limit: int, fee: int
  }
  type Ans = {
    ok: bool, hang: bool, r0: int, r1: int,
    states: int -> Pool,          // every pool after the request, as observed
    extra: int -> int,            // observed positions that belong to no requested range
    scan: int -> Set[int],        // initialized ticks found by searching upwards from the lowest tick
    argsKept: bool,               // the caller's numbers are unchanged
    oldKept: bool,                // values returned earlier are unchanged
    constsKept: bool              // shared constants and tables are unchanged
  }
  // history of one pool
  type Ghost = {
    led: (int, int) -> int,              // liquidity per range, all owners
    anon: (int, int) -> int,             // of which anonymous
    ent: (int, int) -> (int, int),       // fee growth while in range, since the position's last update
    cred: (int, int) -> (int, int),      // tokens credited to the position and not yet collected
    bal: (int, int)                      // tokens held: paid in minus paid out
  }

  var cur: int -> Pool      // last observed states
  var gh: int -> Ghost
  var op: Op
  var ans: Ans
  var bad: Set[str]         // properties violated by the last answer: "C01 ..." etc.
  var tags: Set[(str, str)] // what the last step exercised
  var prof: int             // profile of the run: which kinds of requests are frequent

  pure val NOOP: Op = { kind: "none", h: 0, h2: 0, l: 0, u: 0, amt: 0, amt2: 0, zfo: true, limit: 0, fee: 0 }
  pure val NOANS: Ans = { ok: true, hang: false, r0: 0, r1: 0, states: Map(), extra: Map(), scan: Map(),
    argsKept: true, oldKept: true, constsKept: true }
  pure val NEWGHOST: Ghost = { led: Map(), anon: Map(), ent: Map(), cred: Map(), bal: (0, 0) }

  // ------------------------------------------------------------------ ghosts
  pure def addTo(m: (int, int) -> int, k: (int, int), d: int): (int, int) -> int = {
    val v = (if (m.keys().contains(k)) m.get(k) else 0) + d
    if (v == 0) m.keys().exclude(Set(k)).mapBy(x => m.get(x)) else m.put(k, v)
  }
  pure def get0(m: (int, int) -> int, k: (int, int)): int = if (m.keys().contains(k)) m.get(k) else 0

  pure def get00(m: (int, int) -> (int, int), k: (int, int)): (int, int) = if (m.keys().contains(k)) m.get(k) else (0, 0)

  pure def inRangeSum(led: (int, int) -> int, tick: int): int =
    led.keys().fold(0, (s, r) => if (r._1 <= tick and tick < r._2) s + led.get(r) else s)
  pure def netAt(led: (int, int) -> int, i: int): int =
    led.keys().fold(0, (s, r) => s + (if (r._1 == i) led.get(r) else 0) - (if (r._2 == i) led.get(r) else 0))
  pure def grossSum(led: (int, int) -> int, i: int): int =
    led.keys().fold(0, (s, r) => s + (if (r._1 == i or r._2 == i) led.get(r) else 0))
  pure def boundsOf(led: (int, int) -> int): Set[int] =
    led.keys().map(r => r._1).union(led.keys().map(r => r._2))

  // ------------------------------------------------------------------ what the specification expects
  type Exp = { ok: bool, r0: int, r1: int, p: Pool, hist: List[(int, int)], crossed: int, steps: int, fuel: bool }
  pure def ofAnswer(a: Answer): Exp =
    { ok: a.ok, r0: a.r0, r1: a.r1, p: a.p, hist: List(), crossed: 0, steps: 0, fuel: false }
  pure def ofSwap(a: SwapAnswer): Exp =
    { ok: a.ok, r0: a.r0, r1: a.r1, p: a.p, hist: a.walk.hist, crossed: a.walk.crossed, steps: a.walk.steps, fuel: a.walk.fuel }

  pure def isSwap(o: Op): bool = o.kind == "swapin" or o.kind == "swapout"

  pure def expected(p: Pool, o: Op): Exp =
    if (o.kind == "mints") ofAnswer(mintStrategy(p, o.l, o.u, o.amt))
    else if (o.kind == "burns") ofAnswer(burnStrategy(p, o.l, o.u, o.amt))
    else if (o.kind == "collect") ofAnswer(collect(p, o.l, o.u))
    else if (o.kind == "mint") ofAnswer(mint(p, o.l, o.u, o.amt))
    else if (o.kind == "burn") ofAnswer(burn(p, o.l, o.u, o.amt))
    else if (o.kind == "flash") ofAnswer(flash(p, o.amt, o.amt2))
    else if (o.kind == "swapin") ofSwap(swap(p, o.zfo, o.amt, o.limit))
    else if (o.kind == "swapout") ofSwap(swap(p, o.zfo, -o.amt, o.limit))
    else ofAnswer({ ok: true, r0: 0, r1: 0, p: p })

  // ------------------------------------------------------------------ the history after an accepted request
  pure def growthWhile(hist: List[(int, int)], r: (int, int)): int =
    hist.foldl(0, (s, h) => if (r._1 <= h._1 and h._1 < r._2) s + h._2 else s)

  pure def nextGhost(g: Ghost, p: Pool, o: Op, e: Exp): Ghost = {
    val r = (o.l, o.u)
    // what an update credits: the fees since the last one and, when burning, the tokens
    val held = get0(g.led, r) - get0(g.anon, r)
    val out = if (o.kind == "burns") (e.r0, e.r1) else (0, 0)
    val credits = g.cred.put(r, (get00(g.cred, r)._1 + mulDiv(wrap(get00(g.ent, r)._1), held, P128) + out._1,
                                 get00(g.cred, r)._2 + mulDiv(wrap(get00(g.ent, r)._2), held, P128) + out._2))
    if (o.kind == "mints") { ...g, cred: credits,
      led: addTo(g.led, r, o.amt), ent: g.ent.put(r, (0, 0)), bal: (g.bal._1 + e.r0, g.bal._2 + e.r1) }
    else if (o.kind == "burns") { ...g, cred: credits,
      led: addTo(g.led, r, -o.amt), ent: g.ent.put(r, (0, 0)) }
    else if (o.kind == "collect") { ...g, cred: g.cred.put(r, (0, 0)), bal: (g.bal._1 - e.r0, g.bal._2 - e.r1) }
    else if (o.kind == "mint") { ...g,
      led: addTo(g.led, r, o.amt), anon: addTo(g.anon, r, o.amt),
      bal: (g.bal._1 + tokens0(p, o.l, o.u, o.amt), g.bal._2 + tokens1(p, o.l, o.u, o.amt)) }
    else if (o.kind == "burn") { ...g,
      led: addTo(g.led, r, -o.amt), anon: addTo(g.anon, r, -o.amt),
      bal: (g.bal._1 + tokens0(p, o.l, o.u, -o.amt), g.bal._2 + tokens1(p, o.l, o.u, -o.amt)) }
    else if (o.kind == "flash") { ...g,
      ent: g.ent.keys().mapBy(k => if (k._1 <= p.tick and p.tick < k._2)
          (g.ent.get(k)._1 + mulDiv(e.r0, P128, p.liq), g.ent.get(k)._2 + mulDiv(e.r1, P128, p.liq)) else g.ent.get(k)),
      bal: (g.bal._1 + e.r0, g.bal._2 + e.r1) }
    else if (isSwap(o)) { ...g,
      ent: g.ent.keys().mapBy(k => { val d = growthWhile(e.hist, k)
        if (o.zfo) (g.ent.get(k)._1 + d, g.ent.get(k)._2) else (g.ent.get(k)._1, g.ent.get(k)._2 + d) }),
      bal: (g.bal._1 + e.r0, g.bal._2 + e.r1) }
    else g
  }

  // ------------------------------------------------------------------ the properties
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  pure def sameMarket(a: Pool, b: Pool): bool = and {
    a.price == b.price, a.tick == b.tick, a.liq == b.liq, a.fg0 == b.fg0, a.fg1 == b.fg1
  }
  pure def samePos(a: Pool, b: Pool): bool = a.pos == b.pos

  // C01
  pure def swapExact(e: Exp, a: Ans, q: Pool): Set[str] =
    lab(a.r0 == e.r0 and a.r1 == e.r1, "C01 swap amounts")
      .union(lab(q.price == e.p.price and q.tick == e.p.tick, "C01 price and tick after swap"))
      .union(lab(q.liq == e.p.liq, "C01 active liquidity after swap"))
      .union(lab(q.fg0 == e.p.fg0 and q.fg1 == e.p.fg1, "C01 fee growth after swap"))

  // C02
  pure def swapProgress(p: Pool, o: Op, a: Ans, q: Pool): Set[str] = {
    val lim = limitOf(o.zfo, o.limit)
    val paid = if (o.zfo) a.r0 else a.r1
    val got = -(if (o.zfo) a.r1 else a.r0)
    val rest = if (o.kind == "swapin") o.amt - paid else o.amt - got
    lab(if (o.zfo) q.price <= p.price else q.price >= p.price, "C02 price moved against the trade")
      .union(lab(if (o.zfo) q.price >= lim else q.price <= lim, "C02 price passed the limit"))
      .union(lab(paid >= 0 and got >= 0, "C02 tokens flowed the wrong way"))
      .union(lab(rest >= 0, "C02 more taken or paid than requested"))
      .union(lab(rest == 0 or q.price == lim, "C02 stopped early"))
  }

  // C03: the state follows the ledger
  pure def ledgerHolds(led: (int, int) -> int, q: Pool, cand: Set[int]): Set[str] =
    lab(q.liq == inRangeSum(led, q.tick), "C03 active liquidity differs from in-range ledger")
      .union(lab(cand.union(q.ticks.keys()).forall(i => {
        val g = grossSum(led, i)
        if (g == 0) not(q.ticks.keys().contains(i))
        else and { q.ticks.keys().contains(i), q.ticks.get(i).gross == g, q.ticks.get(i).net == netAt(led, i) }
      }), "C03 tick liquidity differs from ledger"))

  // C04
  pure def tickMatches(p: Pool, o: Op, e: Exp, q: Pool): Set[str] =
    lab(and {
      MIN_TICK <= q.tick, q.tick < MAX_TICK, sqrtAt(q.tick) <= q.price,
      q.price < sqrtAt(q.tick + 1) or (q.price == sqrtAt(q.tick + 1) and
        ((isSwap(o) and o.zfo) or (q.price == p.price and q.tick == p.tick)))
    }, "C04 tick does not match price")
      .union(lab(isSwap(o) or (q.price == p.price and q.tick == p.tick), "C04 price moved without a swap"))
      .union(lab(q.price != e.p.price or q.tick == e.p.tick, "C04 the price is on the other side of its boundary"))

  // C05
  pure def liquidityAmounts(p: Pool, o: Op, e: Exp, a: Ans, q: Pool): Set[str] =
    if (o.kind == "mints") lab(a.r0 == e.r0 and a.r1 == e.r1, "C05 minted amounts")
    else if (o.kind == "burns") lab(a.r0 == e.r0 and a.r1 == e.r1, "C05 burned amounts").union(lab(
      posOf(q, (o.l, o.u)).w0 == posOf(e.p, (o.l, o.u)).w0 and posOf(q, (o.l, o.u)).w1 == posOf(e.p, (o.l, o.u)).w1,
      "C05 burned amounts not credited"))
    else Set()

  // C06
  pure def feesExact(p: Pool, g: Ghost, o: Op, e: Exp, q: Pool): Set[str] = {
    val r = (o.l, o.u)
    val before = posOf(p, r)
    val after = posOf(q, r)
    val en = if (g.ent.keys().contains(r)) g.ent.get(r) else (0, 0)
    lab(q.fg0 == e.p.fg0 and q.fg1 == e.p.fg1, "C06 global fee growth")
      .union(lab(q.ticks.keys().forall(i => e.p.ticks.keys().contains(i) implies and {
          q.ticks.get(i).o0 == e.p.ticks.get(i).o0, q.ticks.get(i).o1 == e.p.ticks.get(i).o1 }), "C06 fee growth outside ticks"))
      .union(lab((o.kind == "mints" or o.kind == "burns") implies and {
          after.l0 == posOf(e.p, r).l0, after.l1 == posOf(e.p, r).l1 }, "C06 fee snapshot of the position"))
      .union(lab((o.kind == "mints" or o.kind == "burns") implies and {
          after.w0 - before.w0 - (if (o.kind == "burns") e.r0 else 0) == mulDiv(wrap(en._1), before.liq, P128),
          after.w1 - before.w1 - (if (o.kind == "burns") e.r1 else 0) == mulDiv(wrap(en._2), before.liq, P128)
        }, "C06 fees credited to the position"))
  }

  // C07
  pure def ownPositionOnly(p: Pool, g: Ghost, o: Op, q: Pool, ex: int, exBefore: int): Set[str] = {
    val r = (o.l, o.u)
    val touches = o.kind == "mints" or o.kind == "burns" or o.kind == "collect"
    lab(p.pos.keys().union(q.pos.keys()).forall(k => (touches and k == r) or (
        p.pos.keys().contains(k) and q.pos.keys().contains(k) and p.pos.get(k) == q.pos.get(k))), "C07 another position changed")
      .union(lab(ex <= exBefore, "C07 a position appeared that no range asked for"))
      .union(lab((o.kind == "mints" or o.kind == "burns") implies and {
          posOf(q, r).w0 >= posOf(p, r).w0, posOf(q, r).w1 >= posOf(p, r).w1 }, "C07 what the position was owed is lost"))
      .union(lab((o.kind == "mints" or o.kind == "burns") implies and {
          q.pos.keys().contains(r),
          posOf(q, r).liq == posOf(p, r).liq + (if (o.kind == "mints") o.amt else -o.amt) }, "C07 position liquidity"))
      .union(lab(q.pos.keys().forall(k => q.pos.get(k).liq == get0(g.led, k) - get0(g.anon, k)), "C07 positions differ from ledger"))
  }

  // C08
  pure def collectExact(p: Pool, g: Ghost, o: Op, a: Ans, q: Pool): Set[str] =
    if (o.kind != "collect") Set() else {
      val r = (o.l, o.u)
      val b = posOf(p, r)
      lab(a.r0 == b.w0 and a.r1 == b.w1, "C08 paid amount")
        .union(lab((a.r0, a.r1) == get00(g.cred, r), "C08 paid other than what was credited"))
        .union(lab(posOf(q, r) == { ...b, w0: 0, w1: 0 }, "C08 position after collect"))
        .union(lab(sameMarket(p, q) and p.ticks == q.ticks and p.pos.keys() == q.pos.keys() and
            p.pos.keys().forall(k => k == r or p.pos.get(k) == q.pos.get(k)), "C08 collect changed something else"))
    }

  // C09
  pure def flashExact(p: Pool, o: Op, e: Exp, q: Pool): Set[str] =
    if (o.kind != "flash") Set() else
      lab(q.fg0 == e.p.fg0 and q.fg1 == e.p.fg1, "C09 fee growth of a flash")
        .union(lab(q == { ...p, fg0: q.fg0, fg1: q.fg1 }, "C09 flash changed something else"))

  // C10: the balance covers what can be withdrawn
  pure def solvent(g: Ghost, q: Pool): Set[str] = {
    val c = q.pos.keys().fold((0, 0), (s, r) => { val w = withdrawable(q, r)
      (s._1 + w._1, s._2 + w._2) })
    val d = g.anon.keys().fold(c, (s, r) =>
      (s._1 - tokens0(q, r._1, r._2, -(g.anon.get(r))), s._2 - tokens1(q, r._1, r._2, -(g.anon.get(r)))))
    lab(g.bal._1 >= d._1 and g.bal._2 >= d._2, "C10 balance does not cover withdrawals")
  }

  // C12
  pure def refusedCleanly(p: Pool, q: Pool, exBefore: int, ex: int): Set[str] =
    lab(p == q and ex == exBefore, "C12 refused request changed the pool")

  // history as the implementation's own answers tell it: what it charged and paid
  pure def paidGhost(g: Ghost, o: Op, e: Exp, a: Ans): Ghost =
    if (o.kind == "mints" or isSwap(o)) { ...g, bal: (g.bal._1 - e.r0 + a.r0, g.bal._2 - e.r1 + a.r1) }
    else if (o.kind == "collect") { ...g, bal: (g.bal._1 + e.r0 - a.r0, g.bal._2 + e.r1 - a.r1) }
    else g

  pure def exOf(m: int -> int, h: int): int = if (m.keys().contains(h)) m.get(h) else 0

  pure def judgeOne(p: Pool, g: Ghost, g2: Ghost, o: Op, e: Exp, a: Ans, q: Pool, exBefore: int): Set[str] = {
    val ex = exOf(a.extra, o.h)
    val owner = if (isSwap(o)) Set("C01 admissible swap refused", "C02 admissible swap refused")
      else if (o.kind == "mints" or o.kind == "burns") Set("C05 admissible request refused")
      else if (o.kind == "collect") Set("C08 collect refused")
      else if (o.kind == "flash") Set("C09 admissible flash refused")
      else Set()
    if (a.hang) (if (isSwap(o)) Set("C02 swap does not terminate", "C01 swap does not terminate") else Set("C12 request does not return"))
    else if (o.kind == "collect" and not(p.pos.keys().contains((o.l, o.u))))
      lab(p == q and (not(a.ok) or (a.r0 == 0 and a.r1 == 0)), "C08 collect without a position paid or changed something")
    else if (e.ok and not(a.ok)) owner.union(Set("C12 admissible request refused")).union(refusedCleanly(p, q, exBefore, ex))
    else if (not(e.ok) and a.ok)
      Set("C12 inadmissible request accepted").union(if (o.kind == "flash") Set("C09 flash without liquidity accepted") else Set())
    else if (not(e.ok)) refusedCleanly(p, q, exBefore, ex)
    else (if (isSwap(o)) swapExact(e, a, q).union(swapProgress(p, o, a, q)) else Set())
      .union(ledgerHolds(g2.led, q, boundsOf(g.led).union(Set(o.l, o.u))))
      .union(tickMatches(p, o, e, q))
      .union(liquidityAmounts(p, o, e, a, q))
      .union(feesExact(p, g, o, e, q))
      .union(ownPositionOnly(p, g2, o, q, ex, exBefore))
      .union(collectExact(p, g, o, a, q))
      .union(flashExact(p, o, e, q))
      .union(solvent(g2, q))
      .union(lab(a.scan.get(o.h) == q.ticks.keys(), "C14 search from below finds other ticks than are initialized"))
  }

  // C11
  pure def isolated(before: int -> Pool, o: Op, a: Ans): Set[str] =
    lab(before.keys().forall(h => h == o.h or ((o.kind == "clone" or o.kind == "new") and h == o.h2) or
        before.get(h) == a.states.get(h)), "C11 another pool changed")
      .union(lab(a.argsKept, "C11 an argument was modified"))
      .union(lab(a.oldKept, "C11 an earlier result was modified"))
      .union(lab(a.constsKept, "C11 a shared constant or table was modified"))
      .union(if (o.kind == "clone")
          lab(and { a.ok, before.get(o.h) == a.states.get(o.h), before.get(o.h) == a.states.get(o.h2) }, "C11 clone differs from its original")
        else Set())

  // what a step exercised: (kind of request, feature)
  pure def tagsOf(p: Pool, o: Op, e: Exp, a: Ans): Set[(str, str)] = {
    val k = o.kind
    Set(if (e.ok) "accepted" else "refused")
      .union(if (isSwap(o) and e.ok) Set(
          if (e.crossed == 0) "crosses no tick" else if (e.crossed == 1) "crosses one tick" else "crosses several ticks",
          if (e.steps <= 1) "1 step" else if (e.steps <= 5) "2-5 steps" else if (e.steps <= 50) "6-50 steps" else ">50 steps",
          if (o.zfo) "down" else "up", if (o.limit == 0) "no limit" else if (e.p.price == o.limit) "stops at limit" else "limit not reached",
          if (p.tick < 0) "negative tick" else "positive tick",
 if (e.p.price == p.price) (if (restsOnUpperEnd(p) and o.zfo) "stays on the upper end of the tick" else "price stays") else "price moves",
          if (e.p.liq == 0) "ends without liquidity" else "ends with liquidity",
          if (e.p.price == sqrtAt(tickOf(e.p.price))) "ends on a tick" else "ends between ticks") else Set())
      .union(if (k == "burns" and o.amt == 0) Set("poke") else Set())
      .union(if (e.fuel) Set("OUT OF FUEL") else Set())
      .union(if ((k == "mints" or k == "burns" or k == "mint" or k == "burn") and e.ok)
          Set(if (p.tick < o.l) "range above" else if (p.tick < o.u) "range around" else "range below",
              if (p.ticks.keys().size() > e.p.ticks.keys().size()) "clears a tick" else "clears no tick") else Set())
      .union(if (e.ok and not(isSwap(o)) and restsOnUpperEnd(p)) Set("at the upper end of the tick") else Set())
      .union(if ((k == "mints" or k == "mint") and e.ok and Set(o.l, o.u).exists(i => e.p.ticks.get(i).net == 0)) Set("a tick nets to nothing") else Set())
      .union(if (k == "flash" and e.ok and imax(o.amt, o.amt2) >= 2^240) Set("huge") else Set())
      .union(if (k == "flash" and e.ok and (e.p.fg0 < p.fg0 or e.p.fg1 < p.fg1)) Set("fee growth goes round") else Set())
      .union(if (k == "burns" and e.ok and e.r1 > 0 and o.amt % P96 == 0) Set("comes out even") else Set())
      .union(if (k == "collect" and e.ok and (e.r0 > 0 or e.r1 > 0)) Set("pays") else Set())
      .map(f => (k, f))
  }

  // ------------------------------------------------------------------ choosing requests
  pure def pk(r: int, k: int, m: int): int = (r / 2^k) % m
  pure def logU(r: int, bits: int): int = { val b = pk(r, 0, bits)
    2^b + pk(r, 16, 2^b) }
  // k-th element of a set, in iteration order
  pure def pickOf(s: Set[int], k: int, d: int): int = s.fold((0, d), (a, x) => if (a._1 == k) (a._1 + 1, x) else (a._1 + 1, a._2))._2
  pure def pickRange(s: Set[(int, int)], k: int, d: (int, int)): (int, int) =
    s.fold((0, d), (a, x) => if (a._1 == k) (a._1 + 1, x) else (a._1 + 1, a._2))._2
  pure def clampTick(t: int): int = imax(MIN_TICK, imin(MAX_TICK, t))

  // a tick of interest
  pure def genTick(p: Pool, r: int): int = {
    val m = pk(r, 0, 16)
    val al = floorTo(p.tick, p.sp)
    val d = logU(r / 2^8, 11) * p.sp
    val s = if (pk(r, 4, 2) == 0) d else -d
    clampTick(
      if (m < 4 and p.ticks.keys() != Set()) pickOf(p.ticks.keys(), pk(r, 8, p.ticks.keys().size()), al)
      else if (m < 9) al + s
      else if (m < 11) wordLo(p.tick, p.sp) + (pk(r, 8, 5) - 2) * 256 * p.sp + (pk(r, 16, 3) - 1) * p.sp
      else if (m == 11) p.tick + pk(r, 8, 3) - 1
      else if (m == 12) (if (pk(r, 8, 2) == 0) floorTo(MAX_TICK, p.sp) else -floorTo(MAX_TICK, p.sp))
      else if (m == 13) (if (pk(r, 8, 2) == 0) MAX_TICK else MIN_TICK)
      else if (m == 14) p.tick + pk(r, 16, 1000) - 500
      else MIN_TICK + floorTo(pk(r, 16, 2 * MAX_TICK), p.sp) - 2)
  }
  // a range that is easily taken for a known one: same sum, same width, mirrored, same digits, same low bits, ...
  pure def twin(p: Pool, k: (int, int), r: int): (int, int) = {
    val m = pk(r, 0, 11)
    val d = p.sp * (1 + pk(r, 8, imax(1, (k._2 - k._1) / (2 * p.sp))))
    val e = if (pk(r, 4, 2) == 0) d else -d
    val scale = [887272, 1774544, 65536, 65536, 1000000, 100000][pk(r, 32, 6)]
    val steps = 1 + pk(r, 40, 3)
    val bits = [65536, 32768, 256, 131072][pk(r, 32, 4)]
    val digits = 10^(1 + pk(r, 32, 5))
    val t =
      if (m == 0) (-k._2, -k._1)
      else if (m == 1) (k._1 + e, k._2 - e)
      else if (m == 2) (k._1 + e, k._2 + e)
      // the same number when the lower tick is scaled and the upper one added
      else if (m == 3 or m == 9) (k._1 + steps, k._2 - steps * scale)
      else if (m == 4 or m == 10) (k._1 - steps, k._2 + steps * scale)
      else if (m == 5) (k._1 + (if (pk(r, 5, 2) == 0) bits else 0), k._2 + bits)
      else if (m == 6) (k._1 - bits, k._2 - (if (pk(r, 5, 2) == 0) bits else 0))
      // the same decimal digits, divided elsewhere
      else if (m == 7) {
        val width = 0.to(6).filter(i => 10^i <= k._2).size()
        val cut = 10^pk(r, 32, imax(1, width))
        val lead = k._2 / cut
        val up = 0.to(6).filter(i => 10^i <= lead).size()
        if (k._2 < 10) (k._1 - 1, k._2) else (k._1 * 10^up + (if (k._1 < 0) -lead else lead), k._2 % cut)
      }
      else (if (k._1 % digits == 0 or k._2 < 0) (k._1, k._2 + p.sp) else (k._1 / digits, iabs(k._1 % digits) * 10^(0.to(6).filter(i => 10^i <= imax(1, k._2)).size()) + k._2))
    if (MIN_TICK <= t._1 and t._1 < t._2 and t._2 <= MAX_TICK) t
    else if (-MAX_TICK <= -k._2 and k._1 != -k._2) (-k._2, -k._1)
    else if (k._1 + p.sp < k._2) (k._1 + p.sp, k._2 - 1) else k
  }
  pure def genRange(p: Pool, g: Ghost, r: int): (int, int) = {
    val known = g.led.keys().union(p.pos.keys())
    if (pk(r, 0, 10) < 4 and known != Set()) pickRange(known, pk(r, 8, known.size()), (0, 1))
    else if (pk(r, 0, 10) == 5 and p.pos.keys() != Set()) twin(p, pickRange(p.pos.keys(), pk(r, 8, p.pos.keys().size()), (0, 1)), r / 2^16)
    else if (pk(r, 0, 10) == 4 and g.led.keys() != Set()) {
      // next to a known range
      val k = pickRange(g.led.keys(), pk(r, 8, g.led.keys().size()), (0, 1))
      val d = (1 + pk(r, 24, 100)) * p.sp
      if (pk(r, 4, 2) == 0 and k._2 + d <= MAX_TICK) (k._2, k._2 + d) else if (k._1 - d >= MIN_TICK) (k._1 - d, k._1) else k
    }
    else {
      val a = genTick(p, r / 2^16)
      val b = genTick(p, r / 2^80)
      if (a < b) (a, b) else if (b < a) (b, a) else if (a + p.sp <= MAX_TICK) (a, a + p.sp) else (a - p.sp, a)
    }
  }
  // liquidity: mostly comparable, sometimes tiny or huge
  pure def genLiq(r: int, big: bool): int = {
    val m = pk(r, 0, 8)
    // a multiple of 2^96 makes amounts of token1 come out even
    if (m == 0) 1 + pk(r, 8, 3) else if (m < 5) 2^50 + pk(r, 8, 2^60) else if (m == 5) P96 * (1 + pk(r, 8, 2^pk(r, 40, 8)))
    else logU(r / 2^8, if (big) 122 else 90)
  }
  // the liquidity of a range that adjoins, so that the shared tick nets to nothing
  pure def genLiqFor(g: Ghost, l: int, u: int, r: int, big: bool): int = {
    val room = P128 - 1 - g.led.keys().fold(0, (s, k) => s + g.led.get(k))
    val adj = g.led.keys().filter(k => (k._1 == u or k._2 == l) and g.led.get(k) <= room)
    // nearly all there can be
    if (big and pk(r, 236, 8) == 0 and room > 2^120) room / 2 + pk(r, 8, room / 3)
    else if (adj != Set() and pk(r, 240, 3) > 0) g.led.get(pickRange(adj, pk(r, 244, adj.size()), (l, u))) else genLiq(r, big)
  }
  // the input (output) that exactly carries the price to a tick when nothing else is in the way
  pure def toTick(p: Pool, t: int, zfo: bool, input: bool): int = {
    val pt = sqrtAt(clampTick(t))
    if (p.liq == 0) 1
    else if (input) {
      val a = if (zfo) amount0(pt, p.price, p.liq, true) else amount1(p.price, pt, p.liq, true)
      a + mulDivUp(a, p.fee, 1000000 - p.fee)
    } else (if (zfo) amount1(pt, p.price, p.liq, false) else amount0(p.price, pt, p.liq, false))
  }
  pure def genSwapAmt(p: Pool, zfo: bool, input: bool, r: int): int = {
    // with very much liquidity the smallest amounts matter
    val m = if (p.liq > 2^125 and pk(r, 250, 4) > 0) 9 else pk(r, 0, 16)
    val nt = nextTick(p.ticks.keys(), p.sp, if (zfo and pk(r, 4, 2) == 0) p.tick - 1 else p.tick, zfo)._1
    if (m < 4) imax(1, toTick(p, nt, zfo, input) + pk(r, 8, 3) - 1)
    else if (m < 9) 1 + (toTick(p, p.tick + (if (zfo) -1 else 1) * (1 + pk(r, 8, 300)) * p.sp, zfo, input) * pk(r, 40, 1000)) / 700
    else if (m < 11) 1 + pk(r, 8, if (p.liq > 2^125) 2 else 100)
    else if (m < 15) logU(r / 2^8, 118)
    else if (pk(r, 8, 3) == 0) P255 - 1 - pk(r, 16, 2^20) else logU(r / 2^16, 254)
  }
  pure def genLimit(p: Pool, zfo: bool, r: int): int = {
    val m = pk(r, 0, 20)
    val dir = if (zfo) -1 else 1
    val nt = nextTick(p.ticks.keys(), p.sp, p.tick, zfo)._1
    if (m < 10) 0
    else if (m < 13) sqrtAt(clampTick(nt)) + pk(r, 8, 3) - 1
    else if (m < 15) sqrtAt(clampTick(p.tick + dir * (1 + pk(r, 8, 400)))) + pk(r, 24, 3) - 1
    else if (m == 15) p.price + dir * (1 + pk(r, 8, 2^(4 + pk(r, 100, 60))))
    else if (m == 16) (if (zfo) MIN_SQRT + 1 else MAX_SQRT - 1)
    else if (m == 17) imax(1, p.price + dir * logU(r / 2^8, 90))
    else if (m == 18) p.price - dir * (pk(r, 8, 3))
    else if (zfo) MIN_SQRT - pk(r, 8, 2) else MAX_SQRT + pk(r, 8, 2)
  }

  pure def startPrice(r: int): int = {
    val m = pk(r, 0, 16)
    val t = if (m < 5) pk(r, 8, 6000) - 3000 else if (m < 8) pk(r, 8, 200000) + 100000 else if (m < 11) -200000 - pk(r, 8, 100000)
      else if (m == 11) MIN_TICK + pk(r, 8, 3000) else if (m == 12) MAX_TICK - 1 - pk(r, 8, 3000) else MIN_TICK + pk(r, 8, 2 * MAX_TICK)
    val a = sqrtAt(t)
    val b = sqrtAt(t + 1)
    // powers of two, which divide without remainder
    if (m == 15) 2^(33 + pk(r, 8, 127))
    else if (pk(r, 60, 3) == 0) imax(MIN_SQRT, a + pk(r, 64, 3) - 1) else a + pk(r, 64, b - a)
  }
  pure def badPrice(r: int): int =
    if (pk(r, 4, 4) == 0) MIN_SQRT - 1 - pk(r, 8, 1000) else if (pk(r, 4, 4) == 1) MAX_SQRT + pk(r, 8, 2) * pk(r, 9, 2^90)
    else if (pk(r, 4, 4) == 2) 0 else logU(r / 2^8, 31)

  pure def genNew(r: int, h2: int): Op = {
    val fee = if (pk(r, 0, 2) == 0) 500 else if (pk(r, 1, 2) == 0) 3000 else 10000
    if (pk(r, 8, 16) == 0) { ...NOOP, kind: "new", h: h2, h2: h2, fee: fee, amt: badPrice(r / 2^16) }
    else if (pk(r, 8, 32) == 1) { ...NOOP, kind: "new", h: h2, h2: h2, fee: if (pk(r, 13, 2) == 0) 1000001 + pk(r, 16, 1000) else -1 - pk(r, 16, 10), amt: startPrice(r / 2^16) }
    else { ...NOOP, kind: "new", h: h2, h2: h2, fee: fee, amt: startPrice(r / 2^16) }
  }

  // weights per profile: cumulative thresholds out of 100 for
  // mints, burns, collect, mint, burn, swapin, swapout, flash, clone, new (rest: inadmissible liquidity requests)
  pure val WEIGHTS: List[List[int]] = [
    [16, 28, 34, 44, 52, 72, 85, 90, 92, 93],   // 0 mixed
    [8, 12, 14, 26, 30, 66, 97, 98, 98, 98],    // 1 swaps
    [22, 42, 48, 64, 78, 88, 94, 96, 97, 97],   // 2 liquidity
    [18, 40, 60, 64, 66, 78, 88, 98, 98, 98],   // 3 fees and collects
    [14, 24, 30, 40, 46, 58, 68, 72, 96, 98],   // 4 clones
    [10, 20, 26, 32, 40, 50, 60, 66, 68, 76],   // 5 inadmissible requests
    [10, 16, 20, 26, 30, 40, 48, 97, 98, 98]    // 6 flashes
  ]

  // the price is the upper end of its tick: a downward swap stopped exactly there
  pure def restsOnUpperEnd(p: Pool): bool = p.price == sqrtAt(p.tick + 1)

  pure def genOp(cu: int -> Pool, g: int -> Ghost, pf: int, r1: int, r2: int, r3: int): Op = {
    val w = WEIGHTS[pf % 7]
    val k = pk(r1, 0, 100)
    val h = pickOf(cu.keys(), pk(r1, 16, cu.keys().size()), 0)
    val p = cu.get(h)
    val gg = g.get(h)
    val rg = genRange(p, gg, r2)
    val big = pf >= 7 and pf < 14
    val o = { ...NOOP, h: h, h2: h, l: rg._1, u: rg._2 }
    val owned = p.pos.keys().filter(x => p.pos.get(x).liq > 0)
    val or1 = pickRange(owned, pk(r2, 8, imax(1, owned.size())), rg)
    val an = gg.anon.keys()
    val ar = pickRange(an, pk(r2, 8, imax(1, an.size())), rg)
    val m = pk(r1, 24, 16)
    // a burned share of the available liquidity
    pure def share(x: int): int =
      if (m < 5) x else if (m < 7) x / 2 else if (m < 9) imin(x, 1) else if (m < 11) imax(0, x - 1) else if (m < 12) x + 1
      else if (m < 14) 0 else 1 + pk(r3, 0, imax(1, x))
    // profiles from 21: little liquidity, so that a unit too much in a rounding adds up: small swaps of one kind
    // and mostly one direction (21, 22), or liquidity that comes in pieces and leaves at once (23)
    val lean = pf >= 21
    val thin = if (lean and owned != Set()) p.pos.get(or1).liq else 1
    val zl = if (p.liq == 0) p.tick >= or1._2 else if (p.fee == 500) pk(r1, 32, 16) > 0 else if (p.fee == 3000) pk(r1, 32, 16) == 0 else pk(r1, 32, 2) == 0
    if (lean and p.ticks.keys() == Set()) { ...o, kind: "mints", amt: 2^pk(r3, 0, 14) * (1000 + pk(r3, 8, 9000)),
      l: imax(floorTo(MIN_TICK, p.sp) + p.sp, floorTo(p.tick, p.sp) - p.sp * (1 + pk(r2, 0, 4000 / p.sp))),
      u: imin(floorTo(MAX_TICK, p.sp), floorTo(p.tick, p.sp) + p.sp * (1 + pk(r2, 16, 4000 / p.sp))) }
    else if (pf == 23 and owned != Set() and k < 70) { ...o, kind: "mints", l: or1._1, u: or1._2, amt: 1 + pk(r3, 0, if (k < 50) 50 else thin) }
    else if (pf == 23 and owned != Set() and k < 92) { ...o, kind: if (k < 84) "burns" else "collect", l: or1._1, u: or1._2, amt: if (k < 80) thin else thin / 2 }
    else if (lean and owned != Set() and k < 86) { ...o, kind: if (pf == 21) "swapin" else "swapout", zfo: zl, amt: 1 + pk(r3, 0, 40 + thin / 512) }
    else if (lean and owned != Set() and k < 97) { ...o, kind: if (k < 93) "burns" else "collect", l: or1._1, u: or1._2, amt: if (k < 91) 0 else thin / 3 }
    // profiles from 14: one position with nearly all the liquidity there can be, and many of the smallest swaps
    else if (pf >= 14 and p.ticks.keys() == Set()) { ...o, kind: "mints", amt: 2^127 + pk(r3, 0, 2^127),
      l: imax(MIN_TICK, floorTo(p.tick, p.sp) - p.sp * (1 + pk(r2, 0, 100))), u: imin(MAX_TICK, floorTo(p.tick, p.sp) + p.sp * (1 + pk(r2, 16, 100))) }
    else if (pf >= 14 and k < 70) { ...o, kind: "swapin", zfo: pk(r1, 32, 3) > 0, amt: 1 + pk(r3, 0, 2) }
    else if (pf >= 14 and k < 80 and owned != Set()) { ...o, kind: "burns", l: or1._1, u: or1._2, amt: 0 }
    else if (p.ticks.keys() == Set() and k < 70) { ...o, kind: if (k < 35) "mints" else "mint", amt: genLiqFor(gg, rg._1, rg._2, r3, big) }
    else if (restsOnUpperEnd(p) and pk(r1, 56, 8) == 1)
      { ...o, kind: if (pk(r1, 60, 3) == 0) "swapout" else "swapin", zfo: pk(r1, 62, 4) > 0, amt: 1 + pk(r3, 0, 2) }
    else if (restsOnUpperEnd(p) and pk(r1, 56, 8) == 0) { ...o, kind: "clone", h2: pk(r1, 40, 3) }
    else if (k < w[0]) { ...o, kind: "mints", amt: genLiqFor(gg, rg._1, rg._2, r3, big) }
    else if (k < w[1]) (if (owned == Set()) { ...o, kind: "mints", amt: genLiqFor(gg, rg._1, rg._2, r3, big) }
                        else { ...o, kind: "burns", l: or1._1, u: or1._2, amt: share(p.pos.get(or1).liq) })
    else if (k < w[2]) { val c = pickRange(p.pos.keys(), pk(r2, 8, imax(1, p.pos.keys().size())), rg)
                         { ...o, kind: "collect", l: c._1, u: c._2 } }
    else if (k < w[3]) { ...o, kind: "mint", amt: genLiqFor(gg, rg._1, rg._2, r3, big) }
    else if (k < w[4]) (if (an == Set()) { ...o, kind: "mint", amt: genLiqFor(gg, rg._1, rg._2, r3, big) }
                        else { ...o, kind: "burn", l: ar._1, u: ar._2, amt: { val s = share(gg.anon.get(ar))
                          // beyond the range's own liquidity: enough to exceed what its ticks hold
                          if (s <= gg.anon.get(ar)) s else 1 + imax(grossAt(p, ar._1), grossAt(p, ar._2)) } })
    else if (k < w[5]) { val z = pk(r1, 32, 2) == 0
                         { ...o, kind: "swapin", zfo: z, amt: genSwapAmt(p, z, true, r3), limit: genLimit(p, z, r2) } }
    else if (k < w[6]) { val z = pk(r1, 32, 2) == 0
                         { ...o, kind: "swapout", zfo: z, amt: genSwapAmt(p, z, false, r3), limit: genLimit(p, z, r2) } }
    else if (k < w[7]) {
      // up to what one flash may add to the fee growth
      val bits = if (pk(r1, 48, 3) == 0) 255 else 127
      val most = imin(P255 - 1, if (p.liq > 0) ((p.liq * P128 - 1) * 1000000) / imax(1, p.fee) else P255 - 1)
      // sometimes so much that two of them make the fee growth go round
      pure def lent(r: int): int = if (pk(r1, 50, 5) == 0) most - most / 8 * pk(r, 8, 6) else imin(most, logU(r, bits))
      { ...o, kind: "flash", amt: if (m < 3) 0 else lent(r3), amt2: if (m > 12 or m == 0) 0 else lent(r2) }
    }
    else if (k < w[8]) { ...o, kind: "clone", h2: pk(r1, 40, 3) }
    else if (k < w[9]) genNew(r3, pk(r1, 40, 3))
    else if (m < 2) { ...o, kind: if (m == 0) "mints" else "mint", l: rg._2, u: rg._1, amt: genLiq(r3, false) }
    else if (m < 4) { ...o, kind: if (m == 2) "mints" else "mint", u: rg._1, amt: genLiq(r3, false) }
    else if (m < 6) { ...o, kind: if (m == 4) "mints" else "mint", l: MIN_TICK - 1 - pk(r3, 0, 3), amt: genLiq(r3, false) }
    else if (m < 8) { ...o, kind: if (m == 6) "mints" else "mint", u: MAX_TICK + 1 + pk(r3, 0, 3), amt: genLiq(r3, false) }
    else if (m < 10) { ...o, kind: if (m == 8) "mints" else "mint", amt: if (pk(r3, 0, 2) == 0) 0 else -logU(r3, 100) }
    else if (m < 11) { ...o, kind: "burns", amt: 1 + posOf(p, rg).liq + pk(r3, 0, 1000) }
    else if (m < 12) { ...o, kind: "burn", amt: 1 + imax(grossAt(p, rg._1), grossAt(p, rg._2)) + pk(r3, 0, 1000) }
    else if (m < 13) { ...o, kind: "burn", amt: 0 }
    else if (m < 14) { ...o, kind: "collect" }
    else if (m < 15) { ...o, kind: "swapin", zfo: pk(r1, 32, 2) == 0, amt: 0 }
    else { ...o, kind: "burns", l: rg._2, u: rg._1, amt: pk(r3, 0, 3) }
  }

  // ------------------------------------------------------------------ the machine
  action init = {
    nondet n = 0.to(13).oneOf()
    all { cur' = Map(), gh' = Map(), op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n }
  }
  action choose = {
    nondet r1 = 0.to(2^256 - 1).oneOf()
    nondet r2 = 0.to(2^256 - 1).oneOf()
    nondet r3 = 0.to(2^256 - 1).oneOf()
    all { cur' = cur, gh' = gh, ans' = ans, bad' = Set(), tags' = Set(), prof' = prof,
      op' = if (cur.keys() == Set()) genNew(r1, 0) else genOp(cur, gh, prof, r1, r2, r3) }
  }

  pure def judgeNew(before: int -> Pool, o: Op, a: Ans): Set[str] = {
    val want = validNew(o.fee, o.amt)
    if (a.hang) Set("C12 request does not return")
    else if (want and not(a.ok)) Set("C12 admissible pool refused", "C04 pool cannot be opened")
    else if (not(want)) lab(not(a.ok), "C12 inadmissible pool opened")
    else lab(a.states.get(o.h2) == newPool(o.fee, o.amt), "C04 new pool")
  }

  action observe = {
    val isNew = op.kind == "new"
    val p = if (isNew or not(cur.keys().contains(op.h))) newPool(500, P96) else cur.get(op.h)
    val g = if (gh.keys().contains(op.h)) gh.get(op.h) else NEWGHOST
    val e = expected(p, op)
    val follow = ans.ok and e.ok and not(ans.hang)
    val g1 = if (follow) nextGhost(g, p, op, e) else g
    val g2 = if (follow) paidGhost(g1, op, e, ans) else g
    all {
      bad' = (if (isNew) judgeNew(cur, op, ans)
              else if (op.kind == "clone") lab(ans.ok, "C12 clone refused").union(if (ans.hang or not(ans.ok)) Set() else
                lab(Set(op.h, op.h2).forall(h => ans.states.get(h).price == p.price and ans.states.get(h).tick == p.tick),
                  "C04 cloning changed price or tick"))
              else judgeOne(p, g, g2, op, e, ans, if (ans.hang) p else ans.states.get(op.h), exOf(ans.extra, op.h)))
             .union(if (ans.hang) Set() else isolated(cur, op, ans)),
      tags' = if (isNew) Set(("new", if (validNew(op.fee, op.amt)) "accepted" else "refused")) else tagsOf(p, op, e, ans),
      cur' = ans.states,
      gh' = if (isNew) (if (ans.ok) gh.put(op.h2, NEWGHOST) else gh)
            else if (op.kind == "clone") (if (ans.ok) gh.put(op.h2, g) else gh)
            else gh.put(op.h, g2),
      op' = op, ans' = ans, prof' = prof
    }
  }
}
