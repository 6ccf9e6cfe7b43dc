// Several runs at once, abstractly: every run works on a copy of the shared pool and on copies of the amounts, in any
// interleaving with the others. Shows that each ends with the result it has alone and that the shared state stays as
// it was (C22). With `shared` copies (the mistake) the invariant fails; see the run `mistake`.
module isolation {
  const COPIES: bool
  pure val RUNS = 1.to(3)
  pure val TXS = [3, -2, 5]            // the effect of a transaction on the pool: x -> 2 x + tx + id
  var base: int                        // the shared pool
  var mine: int -> int                 // the copy of each run
  var made: int -> bool
  var pc: int -> int
  var result: int -> int

  pure def effect(x: int, t: int, id: int): int = 2 * x + t + id
  pure def alone(id: int): int = TXS.foldl(7, (x, t) => effect(x, t, id))

  action init = all {
    base' = 7, mine' = RUNS.mapBy(r => 0), made' = RUNS.mapBy(r => false), pc' = RUNS.mapBy(r => 0), result' = RUNS.mapBy(r => 0)
  }
  action step = {
    nondet r = RUNS.oneOf()
    if (not(made.get(r))) all { made' = made.set(r, true), mine' = mine.set(r, base), base' = base, pc' = pc, result' = result }
    else if (pc.get(r) < TXS.length()) {
      val x = effect(if (COPIES) mine.get(r) else base, TXS[pc.get(r)], r)
      all { mine' = mine.set(r, x), base' = if (COPIES) base else x, pc' = pc.set(r, pc.get(r) + 1), made' = made,
        result' = if (pc.get(r) + 1 == TXS.length()) result.set(r, x) else result }
    }
    else all { made' = made, mine' = mine, base' = base, pc' = pc, result' = result }
  }
  pure def upTo(id: int, n: int): int = 0.to(2).fold(7, (x, k) => if (k < n) effect(x, TXS[k], id) else x)
  // whatever the order, a run is where it would be alone
  val inductive = and {
    base.in(Int), mine.in(RUNS.setOfMaps(Int)), made.in(RUNS.setOfMaps(Bool)), pc.in(RUNS.setOfMaps(0.to(3))), result.in(RUNS.setOfMaps(Int)),
    RUNS.forall(r => (not(made.get(r)) implies pc.get(r) == 0) and (made.get(r) implies mine.get(r) == upTo(r, pc.get(r)))),
    inv
  }
  val inv = base == 7 and RUNS.forall(r => pc.get(r) == TXS.length() implies result.get(r) == alone(r))
}
module isolated { import isolation(COPIES = true).* }
module entangled { import isolation(COPIES = false).* }
