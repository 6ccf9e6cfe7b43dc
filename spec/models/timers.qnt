// One timer of a backtest, abstractly, for histories of any length (C19): counted in whole multiples of its interval from
// where it is based, however far apart the transactions are. Shows by an inductive invariant that the k-th action is never
// before it is due, that the timer never drifts from the multiples, that there are never more actions than intervals have
// begun, and that, where no two transactions are further apart than an interval, every action is on time: nothing due is
// left over after a transaction. The twin re-bases the timer on the transaction that triggered it (the mistake).
module timers {
  const KEEPS: bool
  pure val NEVER = 1000000000
  var interval: int
  var now: int
  var started: bool
  var base: int           // when the first action is due
  var due: int            // when the next one is
  var taken: int          // actions so far
  var elapsed: int        // ghost: taken * interval
  var last: int           // time of the last action
  var lastDue: int        // ghost: when that action was due
  var dense: bool         // no gap longer than the interval since the start

  action init = {
    nondet i = 1.to(1000000).oneOf()
    all {
      interval' = i, now' = 0, started' = false, base' = NEVER, due' = NEVER, taken' = 0, elapsed' = 0, last' = 0, lastDue' = 0, dense' = true
    }
  }
  action step = {
    nondet gap = 0.to(3000000).oneOf()
    nondet go = Bool.oneOf()
    val t = now + gap
    if (not(started)) all {
      now' = t, started' = go, base' = if (go) t + interval else base, due' = if (go) t + interval else due, dense' = true,
      taken' = taken, elapsed' = elapsed, last' = last, lastDue' = lastDue, interval' = interval
    } else {
      val acts = t >= due
      all {
        now' = t, started' = true, base' = base, interval' = interval, dense' = (dense and gap <= interval),
        due' = if (acts) (if (KEEPS) due + interval else t + interval) else due,
        taken' = if (acts) taken + 1 else taken, elapsed' = if (acts) elapsed + interval else elapsed,
        last' = if (acts) t else last, lastDue' = if (acts) base + elapsed else lastDue
      }
    }
  }
  val inv = started implies and {
    due == base + elapsed,                         // multiples of the interval, no drift
    taken > 0 implies last >= lastDue and lastDue == base + elapsed - interval,   // never early
    base + elapsed - interval <= now,              // never more actions than intervals begun
    dense implies now < due                        // always up to date, if it can be
  }
  val inductive = and {
    interval.in(1.to(1000000)), now.in(Int), started.in(Bool), base.in(Int), due.in(Int), taken.in(Int), elapsed.in(Int),
    last.in(Int), lastDue.in(Int), dense.in(Bool),
    now >= 0, taken >= 0, elapsed >= 0, last <= now, (taken == 0) == (elapsed == 0), taken > 0 implies elapsed >= interval,
    not(started) implies taken == 0,
    inv
  }
}
module kept { import timers(KEEPS = true).* }
module rebased { import timers(KEEPS = false).* }
