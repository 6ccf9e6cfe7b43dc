// A change of liquidity in the pool's own steps: checks, then the two ticks, the position and the active liquidity, each
// written on its own. A request that is refused stops where it is. Shows, by an inductive invariant, that a pool that checks
// everything before it writes is unchanged by a refusal, and consistent whenever no request is under way (C12, C03); one that finds out
// about the position's liquidity only when it gets there (as the code once did) is not.
module refusal {
  const FIRST: bool               // the position is checked before the ticks are written
  pure val RANGES: Set[(int, int)] = Set((0, 1), (0, 2), (1, 2))
  pure val TICKS = 0.to(2)
  var held: (int, int) -> int     // positions
  var gross: int -> int           // ticks
  var at: str                     // idle, asked, lower, upper
  var rng: (int, int)           // the request under way
  var delta: int
  // the state when the request was made
  var held0: (int, int) -> int
  var gross0: int -> int
  var refused: bool

  def touching(h: (int, int) -> int, t: int): int = RANGES.fold(0, (s, r) => if (r._1 == t or r._2 == t) s + h.get(r) else s)
  action same = all { held' = held, gross' = gross, rng' = rng, delta' = delta, held0' = held0, gross0' = gross0 }
  action init = all {
    held' = RANGES.mapBy(r => 0), gross' = TICKS.mapBy(t => 0), at' = "idle", rng' = (0, 1), delta' = 0,
    held0' = RANGES.mapBy(r => 0), gross0' = TICKS.mapBy(t => 0), refused' = false
  }
  action ask(r: (int, int), d: int): bool = all {
    at == "idle", at' = "asked", rng' = r, delta' = d, held' = held, gross' = gross, held0' = held, gross0' = gross, refused' = false
  }
  val enough = held.get(rng) + delta >= 0
  // what a tick refuses by itself
  def tickOk(t: int): bool = gross.get(t) + delta >= 0
  action refuse = all { at' = "idle", refused' = true, same }
  action write(t: int, phase: str): bool = all {
    gross' = gross.set(t, gross.get(t) + delta), at' = phase,
    held' = held, rng' = rng, delta' = delta, held0' = held0, gross0' = gross0, refused' = refused
  }
  action proceed = any {
    all { at == "asked", if (FIRST and not(enough) or not(tickOk(rng._1))) refuse else write(rng._1, "lower") },
    all { at == "lower", if (not(tickOk(rng._2))) refuse else write(rng._2, "upper") },
    all { at == "upper", if (not(enough)) refuse else all {
      held' = held.set(rng, held.get(rng) + delta), at' = "idle",
      gross' = gross, rng' = rng, delta' = delta, held0' = held0, gross0' = gross0, refused' = refused } }
  }
  action step = any {
    { nondet r = RANGES.oneOf()
      nondet d = Int.oneOf()
      ask(r, d) },
    proceed
  }
  val inv = and {
    refused implies held == held0 and gross == gross0,
    at == "idle" implies TICKS.forall(t => gross.get(t) == touching(held, t)),
    RANGES.forall(r => held.get(r) >= 0)
  }
  // while a request is under way
  def pending(t: int): int = if (at == "lower" and t == rng._1 or at == "upper" and (t == rng._1 or t == rng._2)) delta else 0
  val inductive = and {
    held.in(RANGES.setOfMaps(Int)), gross.in(TICKS.setOfMaps(Int)), at.in(Set("idle", "asked", "lower", "upper")),
    rng.in(RANGES), delta.in(Int), held0.in(RANGES.setOfMaps(Int)), gross0.in(TICKS.setOfMaps(Int)), refused.in(Bool),
    RANGES.forall(r => held.get(r) >= 0),
    TICKS.forall(t => gross.get(t) == touching(held, t) + pending(t)),
    at.in(Set("lower", "upper")) implies enough,
    at != "idle" implies held == held0 and not(refused),
    at == "asked" implies gross == gross0,
    refused implies held == held0 and gross == gross0
  }
}
module checkedfirst { import refusal(FIRST = true).* }
module checkedlate { import refusal(FIRST = false).* }
