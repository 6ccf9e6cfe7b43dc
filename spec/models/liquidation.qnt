// A strategy and its pool, abstractly, in one token: it places what it holds in a few ranges, the ranges earn fees, it
// takes everything out, any number of times and in any order. Shows, by an inductive invariant, that what it holds and what
// its positions can withdraw is what it started with and earned, less one unit for every rounding; that the value it
// reports is never more than that; and that after liquidating everything is in its hands (C17). A strategy that keeps its
// positions listed when it liquidates (as the code once did) reports more than there is.
module liquidation {
  const CLEARS: bool
  pure val START = 1000000
  pure val RANGES = 1.to(3)
  var held: int
  var listed: int -> int          // the positions of the strategy, by range
  var pool: int -> int            // the liquidity in the pool
  var owed: int -> int
  var fees: int
  var lost: int                   // to rounding
  var moves: int                  // roundings so far

  def total(f: int -> int): int = f.get(1) + f.get(2) + f.get(3)
  action init = all {
    held' = START, listed' = RANGES.mapBy(r => 0), pool' = RANGES.mapBy(r => 0), owed' = RANGES.mapBy(r => 0), fees' = 0, lost' = 0, moves' = 0
  }
  // place x in a range: one more may be paid than it is worth
  action place(r: int, x: int, e: int): bool = all {
    x > 0, e == 0 or e == 1, x + e <= held,
    held' = held - x - e, listed' = listed.set(r, listed.get(r) + x), pool' = pool.set(r, pool.get(r) + x), owed' = owed,
    fees' = fees, lost' = lost + e, moves' = moves + 1
  }
  action earn(r: int, x: int): bool = all {
    x >= 0, pool.get(r) > 0, owed' = owed.set(r, owed.get(r) + x), fees' = fees + x,
    held' = held, listed' = listed, pool' = pool, lost' = lost, moves' = moves
  }
  // burn and collect every listed position: one less may be paid than it is worth
  action liquidate(e: int -> int): bool = all {
    RANGES.forall(r => e.get(r).in(0.to(1)) and (pool.get(r) == 0 implies e.get(r) == 0)),
    held' = held + total(pool) + total(owed) - total(e),
    listed' = if (CLEARS) RANGES.mapBy(r => 0) else listed,
    pool' = RANGES.mapBy(r => 0), owed' = RANGES.mapBy(r => 0), fees' = fees, lost' = lost + total(e), moves' = moves + 3
  }
  action step = {
    nondet r = RANGES.oneOf()
    nondet x = Int.oneOf()
    nondet e = RANGES.setOfMaps(0.to(1)).oneOf()
    any { place(r, x, e.get(1)), earn(r, x), liquidate(e) }
  }
  val inv = and {
    held + total(pool) + total(owed) + lost == START + fees,
    0 <= lost, lost <= moves, held >= 0,
    // the value it reports
    held + total(listed) <= START + fees,
    total(listed) == 0 implies held == START + fees - lost
  }
  val inductive = and {
    held.in(Int), listed.in(RANGES.setOfMaps(Int)), pool.in(RANGES.setOfMaps(Int)), owed.in(RANGES.setOfMaps(Int)),
    fees.in(Int), lost.in(Int), moves.in(Int), fees >= 0,
    RANGES.forall(r => pool.get(r) >= 0 and owed.get(r) >= 0 and pool.get(r) == listed.get(r) and (owed.get(r) > 0 implies pool.get(r) > 0)),
    inv
  }
}
module cleared { import liquidation(CLEARS = true).* }
module listed { import liquidation(CLEARS = false).* }
