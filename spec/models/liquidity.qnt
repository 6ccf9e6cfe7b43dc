// Liquidity bookkeeping of a pool, abstractly: ranges over a few ticks, a current tick that moves one boundary at a
// time. Shows that net and gross liquidity per tick and the active liquidity always describe the open ranges (C03).
module liquidity {
  pure val TICKS = 0.to(2)
  pure val RANGES: Set[(int, int)] = tuples(TICKS, TICKS).filter(r => r._1 < r._2)
  var open: (int, int) -> int     // liquidity of every range (what users hold)
  var net: int -> int
  var gross: int -> int
  var active: int
  var tick: int                   // the price lies in [tick, tick + 1)

  pure def covers(r: (int, int), t: int): bool = r._1 <= t and t < r._2

  action init = all {
    open' = RANGES.mapBy(r => 0), net' = TICKS.mapBy(t => 0), gross' = TICKS.mapBy(t => 0), active' = 0, tick' = 1
  }
  action shift(r: (int, int), d: int): bool = all {
    open.get(r) + d >= 0,
    open' = open.set(r, open.get(r) + d),
    net' = net.set(r._1, net.get(r._1) + d).set(r._2, net.get(r._2) - d),
    gross' = gross.set(r._1, gross.get(r._1) + d).set(r._2, gross.get(r._2) + d),
    active' = if (covers(r, tick)) active + d else active,
    tick' = tick
  }
  action up = all { tick < 2, tick' = tick + 1, active' = active + net.get(tick + 1), open' = open, net' = net, gross' = gross }
  action down = all { tick > -1, tick' = tick - 1, active' = active - net.get(tick), open' = open, net' = net, gross' = gross }
  action step = any {
    { nondet r = RANGES.oneOf()
      nondet d = Int.oneOf()
      shift(r, d) },
    up, down
  }
  def total(f: ((int, int)) => bool): int = RANGES.filter(r => f(r)).fold(0, (s, r) => s + open.get(r))
  val activeRight = active == total(r => covers(r, tick))
  val netRight = TICKS.forall(t => net.get(t) == total(r => r._1 == t) - total(r => r._2 == t))
  val grossRight = TICKS.forall(t => gross.get(t) == total(r => r._1 == t or r._2 == t))
  val typed = and {
    open.in(RANGES.setOfMaps(Int)), net.in(TICKS.setOfMaps(Int)), gross.in(TICKS.setOfMaps(Int)), active.in(Int), tick.in((-1).to(2)),
    RANGES.forall(r => open.get(r) >= 0)
  }
  val inductive = typed and activeRight and netRight and grossRight
  val inv = activeRight and netRight and grossRight
}
