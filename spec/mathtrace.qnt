// The arithmetic under the pool: requests to the exported functions, judged against the definitions.
module mathtrace {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  import swapmath.* from "./swapmath"
  import rand.* from "./rand"

  type Op = { kind: str, a: int, b: int, c: int, d: int, e: int, up: bool }
  type Ans = { ok: bool, hang: bool, r: List[int], argsKept: bool, constsKept: bool }
  var op: Op
  var ans: Ans
  var bad: Set[str]
  var tags: Set[(str, str)]
  var prof: int

  pure val NOOP: Op = { kind: "none", a: 0, b: 0, c: 0, d: 0, e: 0, up: false }
  pure val NOANS: Ans = { ok: true, hang: false, r: List(), argsKept: true, constsKept: true }
  pure def lab(cond: bool, name: str): Set[str] = if (cond) Set() else Set(name)

  // ------------------------------------------------------------------ what the definitions say
  // (admissible, result); inadmissible requests are not judged unless the definition says they are refused
  type Want = { refuse: bool, r: List[int] }
  pure def is(r: List[int]): Want = { refuse: false, r: r }
  pure val REFUSE: Want = { refuse: true, r: List() }

  pure def want(o: Op): Want =
    if (o.kind == "muldiv") is([mulDiv(o.a, o.b, o.c)])
    else if (o.kind == "muldivup") is([mulDivUp(o.a, o.b, o.c)])
    else if (o.kind == "amt0") is([amount0(o.a, o.b, o.c, o.up)])
    else if (o.kind == "amt1") is([amount1(o.a, o.b, o.c, o.up)])
    else if (o.kind == "amt0r") is([amount0Signed(o.a, o.b, o.c)])
    else if (o.kind == "amt1r") is([amount1Signed(o.a, o.b, o.c)])
    else if (o.kind == "nextin") (if (o.b == 0 or o.a == 0) REFUSE else is([nextFromInput(o.a, o.b, o.c, o.up)]))
    else if (o.kind == "nextout") (if (o.b == 0 or o.a == 0) REFUSE else is([nextFromOutput(o.a, o.b, o.c, o.up)]))
    else if (o.kind == "step") { val s = swapStep(o.a, o.b, o.c, o.d, o.e)
      is([s.nxt, s.amtIn, s.amtOut, s.fee]) }
    else if (o.kind == "liq") is([liqForAmounts(o.a, o.b, o.c, o.d, o.e)])
    else if (o.kind == "amounts") { val r = amountsForLiq(o.a, o.b, o.c, o.d)
      is([r._1, r._2]) }
    else if (o.kind == "afford") {
      // a pool at price a, the range (b, c), amounts d and e: liquidity, what minting it costs, what burning it
      // pays, and what the liquidity is said to be worth
      val pa = sqrtAt(o.b)
      val pb = sqrtAt(o.c)
      val l = liqForAmounts(o.a, pa, pb, o.d, o.e)
      if (l == 0) is([0]) else {
        val t = tickOf(o.a)
        val worth = amountsForLiq(o.a, pa, pb, l)
        is([l,
          if (t >= o.c) 0 else amount0(if (t < o.b) pa else o.a, pb, l, true), if (t < o.b) 0 else amount1(pa, if (t < o.c) o.a else pb, l, true),
          if (t >= o.c) 0 else amount0(if (t < o.b) pa else o.a, pb, l, false), if (t < o.b) 0 else amount1(pa, if (t < o.c) o.a else pb, l, false),
          worth._1, worth._2])
      }
    }
    else if (o.kind == "sqrt") is([sqrtAt(o.a)])
    else if (o.kind == "tickof") (if (validSqrt(o.a)) is([tickOf(o.a)]) else REFUSE)
    else if (o.kind == "round") is([roundTo(o.a, o.b)])
    else if (o.kind == "ceil") is([ceilTo(o.a, o.b)])
    else if (o.kind == "floor") is([floorTo(o.a, o.b)])
    else if (o.kind == "msb") is([bitLen(o.a) - 1])
    else is([])

  // results beyond a word (liquidity beyond 128 bits) are refused by the contract and not judged
  // both sides of a range the price is inside of are computed, and the larger one may be beyond a word
  pure def sidesFit(p: int, pa: int, pb: int, x: int, y: int): bool = {
    val a = imin(pa, pb)
    val b = imax(pa, pb)
    p <= a or p >= b or (liqFor0(p, b, x) < P256 and liqFor1(a, p, y) < P256)
  }
  pure def fits(o: Op, w: Want): bool = and {
    w.r.foldl(true, (b, x) => b and -P255 <= x and x < P256),
    not(o.kind == "afford" and w.r[0] >= P128),
    if (o.kind == "liq") sidesFit(o.a, o.b, o.c, o.d, o.e)
    else if (o.kind == "afford") sidesFit(o.a, sqrtAt(o.b), sqrtAt(o.c), o.d, o.e)
    else true
  }

  // ------------------------------------------------------------------ judging
  pure def isC13(k: str): bool = k.in(Set("sqrt", "tickof", "round", "ceil", "floor", "msb"))
  pure def isC16(k: str): bool = k.in(Set("liq", "amounts", "afford"))
  // the value differs: one name per kind of request
  pure def wrong(k: str): str =
    if (k == "muldiv") "C15 floor of a product and quotient" else if (k == "muldivup") "C15 ceiling of a product and quotient"
    else if (k == "amt0" or k == "amt0r") "C15 amount of token0 between prices" else if (k == "amt1" or k == "amt1r") "C15 amount of token1 between prices"
    else if (k == "nextin") "C15 price after an input" else if (k == "nextout") "C15 price after an output"
    else if (k == "step") "C15 swap step" else if (k == "liq") "C16 liquidity for amounts" else if (k == "amounts") "C16 amounts for liquidity"
    else if (k == "afford") "C16 liquidity computed, minted and burned"
    else if (k == "sqrt") "C13 price of a tick" else if (k == "tickof") "C13 tick of a price" else if (k == "msb") "C13 most significant bit"
    else "C13 alignment of a tick"
  pure def refusedName(k: str): str =
    if (isC13(k)) "C13 admissible request refused" else if (isC16(k)) "C16 admissible request refused" else "C15 admissible request refused"

  // rounding in favour of the pool, judged on the answer itself
  pure def stepSound(o: Op, r: List[int]): Set[str] = {
    val zfo = o.a >= o.b
    lab(if (o.d >= 0) r[1] + r[3] <= o.d else r[2] <= -o.d, "C15 step takes or gives more than remained")
      .union(lab(if (zfo) r[0] >= o.b and r[0] <= o.a else r[0] <= o.b and r[0] >= o.a, "C15 price beyond the target"))
      // the amounts moved, exactly as fractions: in at least, out at most
      .union(lab(if (zfo) r[1] * r[0] * o.a >= o.c * P96 * (o.a - r[0]) and r[2] * P96 <= o.c * (o.a - r[0])
                 else r[1] * P96 >= o.c * (r[0] - o.a) and r[2] * r[0] * o.a <= o.c * P96 * (r[0] - o.a), "C15 rounding favours the trader"))
      .union(lab(r[3] * (1000000 - o.e) >= r[1] * o.e or r[0] != o.b, "C15 fee rounded down"))
  }
  pure def affordSound(o: Op, r: List[int]): Set[str] =
    if (r.length() < 7) Set() else
      lab(r[1] <= o.d and r[2] <= o.e, "C16 minting costs more than the amounts")
        .union(lab(r[5] == r[3] and r[6] == r[4], "C16 amounts for liquidity differ from what burning pays"))

  pure def judge(o: Op, a: Ans): Set[str] = {
    val w = want(o)
    val base =
      if (a.hang) Set(refusedName(o.kind))
      else if (w.refuse) lab(not(a.ok), if (isC13(o.kind)) "C13 price outside the range accepted" else "C15 inadmissible request accepted")
      else if (not(fits(o, w))) Set()
      else if (not(a.ok)) Set(refusedName(o.kind))
      else lab(a.r == w.r, wrong(o.kind))
        .union(if (o.kind == "step" and a.r.length() == 4) stepSound(o, a.r) else Set())
        .union(if (o.kind == "afford") affordSound(o, a.r) else Set())
        .union(if (o.kind == "liq") lab(a.r == want({ ...o, b: o.c, c: o.b }).r, "C16 order of the range prices matters") else Set())
    base.union(lab(a.argsKept, if (isC13(o.kind)) "C13 argument modified" else if (isC16(o.kind)) "C16 argument modified" else "C15 argument modified"))
      .union(lab(a.argsKept, "C11 an argument was modified by price arithmetic"))
      .union(lab(a.constsKept, "C11 a shared constant or table was modified by price arithmetic"))
  }

  pure def situation(o: Op): str =
    if (o.kind == "step") {
      val s = swapStep(o.a, o.b, o.c, o.d, o.e)
      if (s.nxt == o.b) (if (o.d >= 0) "exact input reaches the target" else "exact output reaches the target")
      else if (s.nxt == o.a) "price does not move"
      else if (o.d >= 0) "exact input stops before the target" else "exact output stops before the target"
    }
    else if (o.kind == "nextin" and o.up) (if (o.a * o.c >= P256) "product overflows a word" else if (o.a * o.c + o.b * P96 >= P256) "sum overflows a word" else "product fits a word")
    else if (o.kind == "nextin") (if (o.c >= P160) "amount beyond 160 bits" else "amount within 160 bits")
    else if (o.kind == "liq" or o.kind == "amounts" or o.kind == "afford") {
      val pa = if (o.kind == "afford") sqrtAt(o.b) else imin(o.b, o.c)
      val pb = if (o.kind == "afford") sqrtAt(o.c) else imax(o.b, o.c)
      if (o.a < pa) "price below the range" else if (o.a == pa) "price on the lower end" else if (o.a < pb) "price inside" else if (o.a == pb) "price on the upper end" else "price above the range" }
    else if (o.kind == "muldiv" or o.kind == "muldivup") (if (o.a * o.b < P256) "product fits a word" else if (o.a * o.b < o.c) "zero" else "product needs two words")
    else if (o.kind == "tickof") (if (not(validSqrt(o.a))) "outside" else if (sqrtAt(tickOf(o.a)) == o.a) "on a tick" else if (sqrtAt(tickOf(o.a) + 1) == o.a + 1) "just below a tick" else "between ticks")
    else if (o.a < 0 or (o.kind == "amt0r" or o.kind == "amt1r") and o.c < 0) "negative" else "not negative"

  // ------------------------------------------------------------------ choosing requests
  pure def genFee(r: int): int = { val m = pk(r, 0, 8)
    if (m < 2) 500 else if (m < 4) 3000 else if (m < 6) 10000 else if (m == 6) pk(r, 8, 3) else pk(r, 8, 1000000) }

  pure def genStep(r1: int, r2: int, r3: int): Op = {
    val p = genPrice(r1)
    val t = genPrice2(p, r2)
    val l = genLiq128(r3)
    val fee = genFee(r3 / 2^180)
    val zfo = p >= t
    val m = pk(r2, 200, 12)
    val inT = if (zfo) amount0(t, p, l, true) else amount1(p, t, l, true)
    val outT = if (zfo) amount1(t, p, l, false) else amount0(p, t, l, false)
    val exactIn = pk(r2, 220, 2) == 0
    // around exactly what reaches the target; a share of it; anything
    val base = if (exactIn) inT + mulDivUp(inT, fee, 1000000 - fee) else outT
    val rem = if (m < 4) imax(0, base + pk(r1, 300, 5) - 2) else if (m < 7) (base * pk(r1, 300, 1000)) / 1000 else if (m == 7) pk(r1, 300, 3) else genAmount(r1 / 2^300)
    { kind: "step", a: p, b: t, c: l, d: if (exactIn) rem else -(imax(1, rem)), e: fee, up: false }
  }
  pure def genMulDiv(r1: int, r2: int, r3: int): Op = {
    val a = genWord(r1)
    val b = genWord(r2)
    val d = imax(1, genWord(r3))
    val lo = a * b / (P256 - 1) + 1
    val m = pk(r3, 600, 8)
    // exact multiples and their neighbours, and divisors that only just leave room
    val d2 = if (a * b / d < P256 - 1 and m < 5) d else if (m < 6) imin(P256 - 1, lo + pk(r3, 610, 3)) else imax(imin(P256 - 1, lo), imax(a, b))
    { kind: if (pk(r3, 590, 2) == 0) "muldiv" else "muldivup", a: a, b: b, c: d2, d: 0, e: 0, up: false }
  }
  pure def genNext(r1: int, r2: int, r3: int): Op = {
    val p = genPrice(r1)
    val l = genLiq128(r2)
    val zfo = pk(r3, 0, 2) == 0
    if (pk(r3, 1, 2) == 0) { kind: "nextin", a: p, b: l, c: if (zfo and p > 0 and pk(r3, 630, 5) == 0) (P256 - 1 - pk(r3, 640, 1 + l * P96)) / p
        else if (pk(r3, 600, 8) == 0) P160 + pk(r3, 610, 5) - 2 else genAmount(r3 / 2^8), d: 0, e: 0, up: zfo }
    else {
      val t = genPrice2(p, r3 / 2^100)
      // an output the liquidity can pay
      val z = p >= t
      val room = if (z) amount1(t, p, l, false) else amount0(p, t, l, false)
      { kind: "nextout", a: p, b: l, c: if (pk(r3, 600, 2) == 0) room else room * pk(r3, 610, 1000) / 1000, d: 0, e: 0, up: z }
    }
  }
  pure def genAmt(r1: int, r2: int, r3: int): Op = {
    val p = genPrice(r1)
    val t = genPrice2(p, r2)
    val l = genLiq128(r3)
    val k = pk(r3, 600, 6)
    { kind: if (k < 2) "amt0" else if (k < 4) "amt1" else if (k == 4) "amt0r" else "amt1r", a: p, b: t,
      c: if (k >= 4 and pk(r3, 610, 2) == 0) -l else l, d: 0, e: 0, up: pk(r3, 620, 2) == 0 }
  }
  pure def genLiquidity(r1: int, r2: int, r3: int): Op = {
    val k = pk(r3, 600, 6)
    val pa = genPrice(r1)
    val q = genPrice2(pa, r2)
    val pb = if (q == pa) pa + 1 else q
    val m = pk(r3, 610, 8)
    val p = if (m == 0) pa else if (m == 1) pb else if (m < 6) imin(pa, pb) + pk(r3, 620, imax(1, iabs(pb - pa))) else genPrice2(pa, r2 / 2^300)
    val bits = if (pk(r3, 920, 6) == 0) 200 else 112
    val x0 = if (pk(r3, 900, 8) == 0) 0 else logU(r3 / 2^20, bits)
    val x1 = if (pk(r3, 910, 8) == 0) 0 else logU(r3 / 2^260, bits)
    if (k < 2) { kind: "liq", a: p, b: pa, c: pb, d: x0, e: x1, up: false }
    else if (k < 4) { kind: "amounts", a: p, b: pa, c: pb, d: genLiq128(r3 / 2^20), e: 0, up: false }
    else {
      val ta = tickOf(pa)
      val tb = tickOf(pb)
      val tl = imin(ta, tb)
      val tu = if (ta == tb) tl + 1 else imax(ta, tb)
      { kind: "afford", a: if (m == 7) sqrtAt(imin(tu, MAX_TICK - 1)) else if (m == 6) sqrtAt(tl) else p, b: tl, c: tu, d: x0, e: x1, up: false }
    }
  }
  pure def genTickOp(r1: int, r2: int, r3: int): Op = {
    val k = pk(r3, 600, 8)
    if (k == 0 and pk(r3, 604, 2) == 0) { ...NOOP, kind: "sqrt", a: MIN_TICK + pk(r1, 0, 2 * MAX_TICK + 1) }
    else if (k > 0 and k < 4) { ...NOOP, kind: "tickof", a: { val m = pk(r3, 610, 24)
      if (m == 0) MIN_SQRT - 1 - pk(r1, 0, 5) else if (m == 1) MAX_SQRT + pk(r1, 0, 5) else if (m == 2) genWord(r1) else if (m == 3) MIN_SQRT + pk(r1, 0, 5) else if (m == 4) MAX_SQRT - 1 - pk(r1, 0, 5)
      else if (m < 10) { val t = MIN_TICK + pk(r1, 0, 2 * MAX_TICK)
        imax(MIN_SQRT, sqrtAt(t) + pk(r1, 100, 3) - 1) } else genPrice(r1) } }
    else if (k == 7) { ...NOOP, kind: "msb", a: imax(1, genWord(r1)) }
    else {
      val unit = { val m = pk(r3, 630, 8)
        if (m < 2) 10 else if (m < 4) 60 else if (m < 6) 200 else if (m == 6) 1 + pk(r2, 0, 200) else 1 + pk(r2, 0, 20000) }
      val x = if (pk(r3, 620, 2) == 0) MIN_TICK + pk(r1, 0, 2 * MAX_TICK + 1) else pk(r1, 0, 2000) - 1000
      // multiples, halves and their neighbours
      val near = x / unit * unit + (if (pk(r3, 640, 4) == 0) unit / 2 else 0) + (if (pk(r3, 642, 2) == 0) 0 else pk(r3, 643, 3) - 1)
      { ...NOOP, kind: { val m = pk(r3, 610, 3)
          if (m == 0) "round" else if (m == 1) "ceil" else "floor" },
        a: if (pk(r3, 650, 3) == 0) x else imax(MIN_TICK, imin(MAX_TICK, near)), b: unit }
    }
  }

  // a number that differs from x in one place
  pure def shifted(x: int, q: int, lo: int, hi: int): int = {
    val m = pk(q, 0, 5)
    val d = if (m == 0) 1 else if (m == 1) P64 * (1 + pk(q, 8, 2^60)) else if (m == 2) 2^pk(q, 8, 256) else if (m == 3) P128 * (1 + pk(q, 8, 2^30)) else P64
    val y = if (pk(q, 3, 2) == 0) x + d else x - d
    if (y < lo or y > hi) x else y
  }
  // the request before again, or one that differs in a single place: what was remembered must not answer it
  pure def after(o: Op, q: int): Op = {
    val m = pk(q, 0, 4)
    val r = q / 16
    if (m == 0) o
    else if (o.kind.in(Set("muldiv", "muldivup"))) { if (m == 1) { ...o, kind: if (o.kind == "muldiv") "muldivup" else "muldiv" }
      else if (m == 2) { ...o, a: shifted(o.a, r, 0, o.a) } else { ...o, c: shifted(o.c, r, o.c, P256 - 1) } }
    else if (o.kind == "step") { if (m == 1) { ...o, a: shifted(o.a, r, MIN_SQRT, MAX_SQRT - 1) }
      else if (m == 2) { ...o, b: shifted(o.b, r, MIN_SQRT, MAX_SQRT - 1) } else { ...o, c: shifted(o.c, r, 1, P128 - 1) } }
    else if (o.kind == "nextin") { ...o, c: shifted(o.c, r, 0, o.c) }
    else if (o.kind.in(Set("amt0", "amt1", "amt0r", "amt1r"))) { if (m == 1) { ...o, up: not(o.up) }
      else if (m == 2) { ...o, a: shifted(o.a, r, MIN_SQRT, MAX_SQRT - 1) } else { ...o, b: shifted(o.b, r, MIN_SQRT, MAX_SQRT - 1) } }
    else if (o.kind == "liq") { if (m == 1) { ...o, a: shifted(o.a, r, MIN_SQRT, MAX_SQRT - 1) }
      else if (m == 2) { ...o, d: shifted(o.d, r, 0, o.d) } else { ...o, e: shifted(o.e, r, 0, o.e) } }
    else if (o.kind == "amounts") { if (m == 1) { ...o, a: shifted(o.a, r, MIN_SQRT, MAX_SQRT - 1) } else { ...o, c: shifted(o.c, r, 0, o.c) } }
    else if (o.kind == "tickof") { ...o, a: shifted(o.a, r, 0, P256 - 1) }
    else if (o.kind.in(Set("round", "ceil", "floor"))) { ...o, a: imax(MIN_TICK, imin(MAX_TICK, o.a + pk(r, 0, 3) - 1)), kind: if (m == 1) "round" else if (m == 2) "ceil" else "floor" }
    else o
  }

  action init = {
    nondet n = 0.to(5).oneOf()
    all { op' = NOOP, ans' = NOANS, bad' = Set(), tags' = Set(), prof' = n }
  }
  // profiles: 0 steps, 1 multiply-divide, 2 next prices, 3 amounts, 4 liquidity, 5 ticks
  action choose = {
    nondet r1 = 0.to(2^1024 - 1).oneOf()
    nondet r2 = 0.to(2^1024 - 1).oneOf()
    nondet r3 = 0.to(2^1024 - 1).oneOf()
    all { ans' = ans, bad' = Set(), tags' = Set(), prof' = prof,
      op' = if (op.kind != "none" and pk(r1, 1010, 6) == 0) after(op, r2 / 2^940) else if (prof == 0) genStep(r1, r2, r3) else if (prof == 1) genMulDiv(r1, r2, r3) else if (prof == 2) genNext(r1, r2, r3)
        else if (prof == 3) genAmt(r1, r2, r3) else if (prof == 4) genLiquidity(r1, r2, r3) else genTickOp(r1, r2, r3) }
  }
  action observe = all {
    bad' = judge(op, ans), tags' = Set((op.kind, situation(op)), (op.kind, if (ans.ok) "accepted" else "refused")),
    op' = op, ans' = ans, prof' = prof
  }
}
