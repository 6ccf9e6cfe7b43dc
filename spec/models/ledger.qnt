// The record of who is owed what, abstractly: positions in a table, found by a key made from the two ticks of the range.
// Shows, by an inductive invariant, that with a key that tells ranges apart every range has what was paid in for it, is
// owed what was earned by it and burned from it, and is paid that exactly once (C07, C08). With a key that is the sum of the
// ticks (as the code once had it) two ranges share a record, and one is paid what the other is owed.
module ledger {
  const SUM: bool
  pure val TICKS = (-1).to(2)
  pure val RANGES: Set[(int, int)] = tuples(TICKS, TICKS).filter(r => r._1 < r._2)
  pure val KEYS = (-10).to(40)
  pure def key(r: (int, int)): int = if (SUM) r._1 + r._2 else (r._1 + 1) * 8 + r._2
  var liq: int -> int             // the table: liquidity and what is owed, by key
  var owed: int -> int
  var mine: (int, int) -> int     // ghosts, by range: liquidity, what was credited, what was paid out
  var credited: (int, int) -> int
  var paid: (int, int) -> int

  action init = all {
    liq' = KEYS.mapBy(k => 0), owed' = KEYS.mapBy(k => 0),
    mine' = RANGES.mapBy(r => 0), credited' = RANGES.mapBy(r => 0), paid' = RANGES.mapBy(r => 0)
  }
  action mint(r: (int, int), x: int): bool = all {
    x > 0,
    liq' = liq.set(key(r), liq.get(key(r)) + x), mine' = mine.set(r, mine.get(r) + x),
    owed' = owed, credited' = credited, paid' = paid
  }
  // what is burned is owed, and so is what it earned; refused when there is less than that
  action burn(r: (int, int), x: int, gain: int): bool = all {
    0 <= x, x <= liq.get(key(r)), 0 <= gain,
    liq' = liq.set(key(r), liq.get(key(r)) - x), mine' = mine.set(r, mine.get(r) - x),
    owed' = owed.set(key(r), owed.get(key(r)) + gain), credited' = credited.set(r, credited.get(r) + gain),
    paid' = paid
  }
  action collect(r: (int, int)): bool = all {
    paid' = paid.set(r, paid.get(r) + owed.get(key(r))), owed' = owed.set(key(r), 0),
    liq' = liq, mine' = mine, credited' = credited
  }
  action step = {
    nondet r = RANGES.oneOf()
    nondet x = Int.oneOf()
    nondet g = Int.oneOf()
    any { mint(r, x), burn(r, x, g), collect(r) }
  }
  val inv = RANGES.forall(r => and {
    mine.get(r) >= 0, liq.get(key(r)) == mine.get(r),
    // nobody is paid more than is due, and all that is not yet paid is owed
    paid.get(r) <= credited.get(r), owed.get(key(r)) == credited.get(r) - paid.get(r)
  })
  val inductive = and {
    liq.in(KEYS.setOfMaps(Int)), owed.in(KEYS.setOfMaps(Int)), mine.in(RANGES.setOfMaps(Int)), credited.in(RANGES.setOfMaps(Int)),
    paid.in(RANGES.setOfMaps(Int)), KEYS.forall(k => owed.get(k) >= 0), inv
  }
}
module apart { import ledger(SUM = false).* }
module summed { import ledger(SUM = true).* }
