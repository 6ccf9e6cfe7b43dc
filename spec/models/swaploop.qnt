// The loop of a swap, abstractly: a few words of a few ticks, any initialized ticks, any start, any limit, and at every
// step the amount may run out anywhere. Shows, by an inductive invariant, that the loop always makes progress and ends
// (C02), passes exactly the initialized ticks between where it started and where it is, each once (C01, C03), never
// passes the limit (C02), and keeps the tick the one of the price (C04).
module swaploop {
  pure val LO = -6
  pure val HI = 6
  pure val WORD = 4
  pure val TICKS = LO.to(HI)
  // prices: 2 t is the price of tick t, 2 t + 1 lies between the prices of t and t + 1
  pure val PRICES = (2 * LO).to(2 * HI)
  pure def floorBy(a: int, d: int): int = if (a >= 0) a / d else -((d - 1 - a) / d)
  pure def tickOf(x: int): int = floorBy(x, 2)

  var marks: Set[int]             // the initialized ticks
  var down: bool
  var limit: int
  var start: int                  // the tick at the beginning
  var begin: int                  // the price at the beginning
  var price: int
  var tick: int
  var passed: Set[int]
  var steps: int
  var done: bool

  // the next tick to look at, within one word
  def nearest: int =
    if (down) {
      val w = floorBy(tick, WORD) * WORD
      TICKS.fold(w, (b, t) => if (t.in(marks) and t <= tick and t > b) t else b)
    } else {
      val w = floorBy(tick + 1, WORD) * WORD
      TICKS.fold(w + WORD - 1, (b, t) => if (t.in(marks) and t > tick and t < b) t else b)
    }

  // the price belongs to the tick, or sits on its upper end
  pure def fits(x: int, t: int): bool = tickOf(x) == t or x == 2 * (t + 1)
  action init = {
    nondet m = TICKS.powerset().oneOf()
    nondet d = Set(true, false).oneOf()
    nondet l = PRICES.oneOf()
    nondet x = PRICES.oneOf()
    nondet t = (LO - 1).to(HI).oneOf()
    all {
      2 * LO < l, l < 2 * HI, if (d) l < x else x < l, fits(x, t), 2 * LO <= x, x < 2 * HI,
      marks' = m, down' = d, limit' = l, start' = t, begin' = x, price' = x, tick' = t, passed' = Set(), steps' = 0, done' = false
    }
  }
  action step = {
    val n = nearest
    val stop = if (n < LO) LO else if (n > HI) HI else n
    val goal = if (down) (if (2 * stop < limit) limit else 2 * stop) else (if (2 * stop > limit) limit else 2 * stop)
    nondet x = PRICES.oneOf()
    nondet out = Set(true, false).oneOf()
    all {
      not(done),
      if (down) goal <= x and x <= price else price <= x and x <= goal,
      // short of the goal the amount has run out
      x == goal or out,
      price' = x,
      passed' = if (x == 2 * stop and stop.in(marks)) passed.union(Set(stop)) else passed,
      tick' = if (x == 2 * stop) (if (down) stop - 1 else stop) else if (x != price) tickOf(x) else tick,
      steps' = steps + 1,
      done' = (out or x == limit),
      marks' = marks, down' = down, limit' = limit, start' = start, begin' = begin
    }
  }
  val way = if (down) start - tick else tick - start
  val inv = and {
    fits(price, tick),
    passed == marks.filter(t => if (down) tick < t and t <= start else start < t and t <= tick),
    if (down) limit <= price and price <= begin else begin <= price and price <= limit,
    // every step but the last moves the tick: there are no more steps than ticks
    steps <= way + 1,
    // where it has not ended there is a further step
    done or price != limit
  }
  val inductive = and {
    marks.in(TICKS.powerset()), down.in(Bool), limit.in(PRICES), start.in((LO - 1).to(HI)), begin.in(PRICES), price.in(PRICES),
    tick.in((LO - 1).to(HI)), passed.in(TICKS.powerset()), steps.in(0.to(2 * (HI - LO))), done.in(Bool),
    2 * LO < limit, limit < 2 * HI, fits(begin, start), begin < 2 * HI, if (down) limit < begin else begin < limit,
    inv,
    done or steps <= way
  }
}
