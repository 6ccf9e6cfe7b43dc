// What a pool owes against what it was paid, abstractly, for one token: charges are rounded up, payments and fee growth
// down, with small denominators, few ranges and small liquidities but any number of steps, any prices between the
// ticks and any fees. Shows, by an inductive invariant, that the pool can always pay out everything (C10).
module solvency {
  pure val Q = 4                  // fixed point of the price
  pure val M = 8                  // fixed point of the fee growth
  pure val TICKS = [3, 8, 15]     // the prices of the ticks
  pure val LAST = 20
  pure val ZONES = 0.to(3)        // zone j lies below tick j, the last one above all
  pure val RANGES: Set[(int, int)] = Set((0, 1), (0, 2), (1, 2))
  pure val LIQS = 0.to(2)

  var p: int                      // the price, in units of 1/Q
  var zone: int
  var liq: (int, int) -> int
  var growth: int -> int          // fee growth while the price was in the zone
  var last: (int, int) -> int
  var owed: (int, int) -> int
  var bal: int

  pure def times(l: int, x: int): int = if (l == 0) 0 else if (l == 1) x else if (l == 2) x + x else if (l == 3) x + x + x else if (l == 4) 4 * x else if (l == 5) 5 * x else 6 * x
  pure def down(x: int, d: int): int = x / d
  pure def up(x: int, d: int): int = (x + d - 1) / d
  pure def lower(r: (int, int)): int = TICKS[r._1]
  pure def upper(r: (int, int)): int = TICKS[r._2]
  pure def bottom(z: int): int = if (z == 0) 0 else TICKS[z - 1]
  pure def top(z: int): int = if (z == 3) LAST else TICKS[z]
  def inside(r: (int, int)): int = ZONES.fold(0, (s, z) => if (r._1 < z and z <= r._2) s + growth.get(z) else s)
  def held(r: (int, int)): int = (if (p < lower(r)) lower(r) else if (p > upper(r)) upper(r) else p) - lower(r)
  def active: int = RANGES.fold(0, (s, r) => if (r._1 < zone and zone <= r._2) s + liq.get(r) else s)

  action init = all {
    p' = 5, zone' = 1, liq' = RANGES.mapBy(r => 0), growth' = ZONES.mapBy(z => 0), last' = RANGES.mapBy(r => 0),
    owed' = RANGES.mapBy(r => 0), bal' = 0
  }
  // the fees of the position are settled with every change
  def settled(r: (int, int)): int = owed.get(r) + down(times(liq.get(r), inside(r) - last.get(r)), M)
  action mint(r: (int, int), d: int): bool = all {
    d > 0, (liq.get(r) + d).in(LIQS),
    liq' = liq.set(r, liq.get(r) + d), last' = last.set(r, inside(r)), owed' = owed.set(r, settled(r)),
    bal' = bal + up(times(d, held(r)), Q), p' = p, zone' = zone, growth' = growth
  }
  action burn(r: (int, int), d: int): bool = all {
    d >= 0, d <= liq.get(r),
    liq' = liq.set(r, liq.get(r) - d), last' = last.set(r, inside(r)), owed' = owed.set(r, settled(r) + down(times(d, held(r)), Q)),
    bal' = bal, p' = p, zone' = zone, growth' = growth
  }
  action collect(r: (int, int)): bool = all {
    owed' = owed.set(r, 0), bal' = bal - owed.get(r), liq' = liq, last' = last, p' = p, zone' = zone, growth' = growth
  }
  pure def share(x: int, l: int): int = if (l == 1) x else if (l == 2) x / 2 else if (l == 3) x / 3 else if (l == 4) x / 4 else if (l == 5) x / 5 else x / 6
  // one step of a swap that sells this token, or of a flash when the price stays
  action rise(dest: int, fee: int): bool = all {
    p <= dest, dest <= top(zone), fee >= 0,
    p' = dest, bal' = bal + up(times(active, dest - p), Q) + fee,
    growth' = if (active == 0) growth else growth.set(zone, growth.get(zone) + share(M * fee, active)),
    zone' = zone, liq' = liq, last' = last, owed' = owed
  }
  // one step of a swap that buys this token
  action fall(dest: int): bool = all {
    bottom(zone) <= dest, dest <= p,
    p' = dest, bal' = bal - down(times(active, p - dest), Q),
    zone' = zone, liq' = liq, last' = last, owed' = owed, growth' = growth
  }
  action passing(z: int): bool = all {
    z.in(ZONES), (z == zone + 1 and p == top(zone)) or (z == zone - 1 and p == bottom(zone)),
    zone' = z, p' = p, liq' = liq, growth' = growth, last' = last, owed' = owed, bal' = bal
  }
  action step = any {
    { nondet r = RANGES.oneOf()
      nondet d = LIQS.oneOf()
      any { mint(r, d), burn(r, d), collect(r) } },
    { nondet dest = Int.oneOf()
      nondet fee = Int.oneOf()
      any { rise(dest, fee), fall(dest) } },
    passing(zone + 1), passing(zone - 1)
  }
  // what everybody can withdraw now
  val due = RANGES.fold(0, (s, r) => s + settled(r) + down(times(liq.get(r), held(r)), Q))
  val inv = bal >= due
  // the same without rounding
  val exact = RANGES.fold(0, (s, r) => s + M * times(liq.get(r), held(r)) + Q * times(liq.get(r), inside(r) - last.get(r)) + Q * M * owed.get(r))
  val inductive = and {
    p.in(Int), zone.in(ZONES), liq.in(RANGES.setOfMaps(LIQS)), growth.in(ZONES.setOfMaps(Int)), last.in(RANGES.setOfMaps(Int)),
    owed.in(RANGES.setOfMaps(Int)), bal.in(Int),
    bottom(zone) <= p, p <= top(zone),
    RANGES.forall(r => last.get(r) <= inside(r) and owed.get(r) >= 0),
    Q * M * bal >= exact
  }
}
