// Fee growth per unit of liquidity, abstractly. Each tick stores the growth outside it, initialized by convention and
// flipped when the price passes it. Shows, by an inductive invariant (every history, any amounts), that the growth
// inside a range since it was opened is exactly the growth that happened while the price was in the range (C06).
module feegrowth {
  pure val TICKS = 0.to(2)
  pure val ZONES = (-1).to(2)     // zone j: the price is in [j, j + 1)
  pure val RANGES: Set[(int, int)] = tuples(TICKS, TICKS).filter(r => r._1 < r._2)
  var global: int
  var outside: int -> int
  var users: int -> int           // open ranges that use the tick
  var tick: int
  var opened: (int, int) -> bool
  var last: (int, int) -> int     // growth inside when the range was opened
  // ghosts: growth while the price was in the range, since it was opened; growth per zone; what initialization assumed
  var earned: (int, int) -> int
  var zone: int -> int
  var assumed: int -> int

  action init = all {
    global' = 0, outside' = TICKS.mapBy(t => 0), users' = TICKS.mapBy(t => 0), tick' = 1,
    opened' = RANGES.mapBy(r => false), last' = RANGES.mapBy(r => 0), earned' = RANGES.mapBy(r => 0),
    zone' = ZONES.mapBy(z => 0), assumed' = TICKS.mapBy(t => 0)
  }
  def fresh(t: int): int = if (t <= tick) global else 0
  def at(t: int): int = if (users.get(t) > 0) outside.get(t) else fresh(t)
  def inside(r: (int, int)): int = {
    val below = if (tick >= r._1) at(r._1) else global - at(r._1)
    val above = if (tick < r._2) at(r._2) else global - at(r._2)
    global - below - above
  }
  def growth(a: int, b: int): int = ZONES.fold(0, (s, z) => if (a <= z and z < b) s + zone.get(z) else s)
  def below(t: int): int = growth(-1, t)
  def above(t: int): int = growth(t, 3)
  action open(r: (int, int)): bool = all {
    not(opened.get(r)),
    opened' = opened.set(r, true), last' = last.set(r, inside(r)), earned' = earned.set(r, 0),
    outside' = outside.set(r._1, at(r._1)).set(r._2, at(r._2)),
    users' = users.set(r._1, users.get(r._1) + 1).set(r._2, users.get(r._2) + 1),
    assumed' = TICKS.mapBy(t => if ((t == r._1 or t == r._2) and users.get(t) == 0) above(t) else assumed.get(t)),
    global' = global, tick' = tick, zone' = zone
  }
  action close(r: (int, int)): bool = all {
    opened.get(r), opened' = opened.set(r, false),
    users' = users.set(r._1, users.get(r._1) - 1).set(r._2, users.get(r._2) - 1),
    outside' = outside, last' = last, earned' = earned, global' = global, tick' = tick, zone' = zone, assumed' = assumed
  }
  action grow(d: int): bool = all {
    d >= 0,
    global' = global + d, zone' = zone.set(tick, zone.get(tick) + d),
    earned' = RANGES.mapBy(r => if (r._1 <= tick and tick < r._2) earned.get(r) + d else earned.get(r)),
    outside' = outside, users' = users, tick' = tick, opened' = opened, last' = last, assumed' = assumed
  }
  action passing(t: int, dest: int): bool = all {
    tick' = dest,
    outside' = if (users.get(t) > 0) outside.set(t, global - outside.get(t)) else outside,
    global' = global, users' = users, opened' = opened, last' = last, earned' = earned, zone' = zone, assumed' = assumed
  }
  action step = any {
    { nondet r = RANGES.oneOf()
      any { open(r), close(r) } },
    { nondet d = Int.oneOf()
      grow(d) },
    all { tick < 2, passing(tick + 1, tick + 1) },
    all { tick > -1, passing(tick, tick - 1) }
  }
  // the same with small amounts, for the simulator
  action walk = any {
    { nondet r = RANGES.oneOf()
      any { open(r), close(r) } },
    { nondet d = Set(1, 3, 7).oneOf()
      grow(d) },
    all { tick < 2, passing(tick + 1, tick + 1) },
    all { tick > -1, passing(tick, tick - 1) }
  }
  val inv = RANGES.forall(r => opened.get(r) implies inside(r) - last.get(r) == earned.get(r))
  val inductive = and {
    global.in(Int), outside.in(TICKS.setOfMaps(Int)), users.in(TICKS.setOfMaps(Int)), tick.in(ZONES), opened.in(RANGES.setOfMaps(Bool)),
    last.in(RANGES.setOfMaps(Int)), earned.in(RANGES.setOfMaps(Int)), zone.in(ZONES.setOfMaps(Int)), assumed.in(TICKS.setOfMaps(Int)),
    TICKS.forall(t => users.get(t) == RANGES.fold(0, (s, r) => if (opened.get(r) and (r._1 == t or r._2 == t)) s + 1 else s)),
    global == growth(-1, 3),
    TICKS.forall(t => users.get(t) > 0 implies outside.get(t) == (if (tick >= t) below(t) + assumed.get(t) else above(t) - assumed.get(t))),
    RANGES.forall(r => opened.get(r) implies last.get(r) + earned.get(r) == growth(r._1, r._2) + assumed.get(r._2) - assumed.get(r._1))
  }
}
