// The pool specification on its own, as a state machine: do the promises of the listed properties hold of it?
// Every position is accounted, so that everything the pool has to pay out is known.
module poolmodel {
  import ints.* from "../ints"
  import tickmath.* from "../tickmath"
  import swapmath.* from "../swapmath"
  import pool.* from "../pool"
  import market.* from "../market"
  import rand.* from "../rand"

  var p: Pool
  var bal: (int, int)             // tokens paid in minus tokens paid out
  var opened: (int, int) -> int   // liquidity per range
  var last: SwapAnswer
  var swapped: { zfo: bool, amt: int, before: Pool }

  pure val NOSWAP: SwapAnswer = { ok: false, r0: 0, r1: 0, p: newPool(500, P96), walk: walkStart(newPool(500, P96), true, 0) }
  action init = {
    nondet r = 0.to(2^400 - 1).oneOf()
    val q = newPool([500, 3000, 10000][pk(r, 0, 3)], genPrice(r / 2^8))
    all { p' = q, bal' = (0, 0), opened' = Map(), last' = NOSWAP, swapped' = { zfo: true, amt: 0, before: q } }
  }
  pure def genRange(q: Pool, r: int): (int, int) = {
    val l = imax(-887200 / q.sp * q.sp, floorTo(q.tick, q.sp) + (pk(r, 0, 41) - 20) * q.sp)
    (l, imin(887200 / q.sp * q.sp, l + q.sp * (1 + pk(r, 16, 60))))
  }
  action liquidity(r: int): bool = {
    val known = opened.keys()
    val fresh = genRange(p, r)
    val use = pk(r, 40, 3) > 0 and known != Set()
    val g = if (use) known.fold((0, fresh), (s, x) => if (s._1 == pk(r, 42, known.size())) (s._1 + 1, x) else (s._1 + 1, s._2))._2 else fresh
    val held = if (known.contains(g)) opened.get(g) else 0
    val burns = use and pk(r, 60, 2) == 0
    val amt = if (burns) (if (pk(r, 64, 3) == 0) held else pk(r, 70, held + 1)) else 1 + logU(r / 2^70, 90)
    val a = if (burns) burnStrategy(p, g._1, g._2, amt) else mintStrategy(p, g._1, g._2, amt)
    val c = if (burns) collect(a.p, g._1, g._2) else a
    all {
      g._1 < g._2, MIN_TICK <= g._1, g._2 <= MAX_TICK, a.ok,
      p' = c.p, bal' = if (burns) (bal._1 - c.r0, bal._2 - c.r1) else (bal._1 + a.r0, bal._2 + a.r1),
      opened' = opened.put(g, held + (if (burns) -amt else amt)), last' = NOSWAP, swapped' = { ...swapped, before: c.p, amt: 0 }
    }
  }
  action trade(r: int): bool = {
    val m = genMarket(p, Map(), p.tick, r)
    val w = swap(p, m.zfo, if (m.kind == "swapout") -m.amt else m.amt, if (pk(r, 300, 4) == 0) (if (m.zfo) imax(MIN_SQRT + 1, p.price - p.price / 50) else imin(MAX_SQRT - 1, p.price + p.price / 50)) else 0)
    all {
      m.kind.in(Set("swapin", "swapout")), w.ok, not(w.walk.fuel),
      p' = w.p, bal' = (bal._1 + w.r0, bal._2 + w.r1), opened' = opened, last' = w,
      swapped' = { zfo: m.zfo, amt: if (m.kind == "swapout") -m.amt else m.amt, before: p }
    }
  }
  action flashes(r: int): bool = {
    val f = flash(p, logU(r, 90), logU(r / 2^128, 90))
    all { f.ok, p' = f.p, bal' = (bal._1 + f.r0, bal._2 + f.r1), opened' = opened, last' = NOSWAP, swapped' = { ...swapped, before: f.p, amt: 0 } }
  }
  action step = {
    nondet r = 0.to(2^500 - 1).oneOf()
    any { liquidity(r), trade(r), flashes(r) }
  }

  def total(f: ((int, int)) => bool): int = opened.keys().filter(r => f(r)).fold(0, (s, r) => s + opened.get(r))
  // C03
  val bookkeeping = and {
    p.liq == total(r => r._1 <= p.tick and p.tick < r._2),
    p.ticks.keys().forall(t => p.ticks.get(t).net == total(r => r._1 == t) - total(r => r._2 == t) and p.ticks.get(t).gross == total(r => r._1 == t or r._2 == t) and p.ticks.get(t).gross > 0),
    opened.keys().forall(r => opened.get(r) == 0 or p.ticks.keys().contains(r._1) and p.ticks.keys().contains(r._2))
  }
  // C04: the tick is the one of the price, or the one below when the price sits on its lower boundary after moving down
  val position = p.tick == tickOf(p.price) or p.price == sqrtAt(p.tick + 1)
  // C05, C06, C08: whatever the positions can withdraw is there
  val solvent = {
    val w = opened.keys().fold((0, 0), (s, r) => { val x = withdrawable(p, r)
      (s._1 + x._1, s._2 + x._2) })
    bal._1 >= w._1 and bal._2 >= w._2
  }
  // C02
  val directed = if (swapped.amt == 0) true else and {
    if (swapped.zfo) p.price <= swapped.before.price and last.r0 >= 0 and last.r1 <= 0 else p.price >= swapped.before.price and last.r0 <= 0 and last.r1 >= 0,
    if (swapped.amt > 0) (if (swapped.zfo) last.r0 else last.r1) <= swapped.amt else -(if (swapped.zfo) last.r1 else last.r0) <= -swapped.amt
  }
  val inv = bookkeeping and position and solvent and directed
}
