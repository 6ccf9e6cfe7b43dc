// Values behind references, abstractly: pools whose fields refer to cells of a heap, clones, callers with amounts of
// their own. Shows, by an inductive invariant, that clones which copy every cell and operations which copy their
// arguments behave as if there were no references: nobody sees what another does (C11). With one field shared by clones,
// or with an argument kept instead of copied, somebody does.
module sharing {
  const CLONED: Set[int]          // the fields whose cells a clone copies
  const COPIED: bool              // an operation copies its argument
  pure val POOLS = 1.to(2)
  pure val CALLER = 3             // its fields are the amounts it passes
  pure val FIELDS = 1.to(2)
  pure val CELLS = 1.to(7)
  pure val PLACES: Set[(int, int)] = tuples(1.to(3), FIELDS)
  var heap: int -> int
  var ref: (int, int) -> int
  var used: Set[int]
  var made: int -> bool
  var seen: (int, int) -> int     // ghost: what each holder should see

  pure val START: Set[(int, int)] = PLACES.filter(p => p._1 != 2)
  pure def cellOf(p: (int, int)): int = if (p._1 == 1) p._2 else if (p._1 == 3) p._2 + 2 else 0
  action init = all {
    heap' = CELLS.mapBy(c => 0), ref' = PLACES.mapBy(p => cellOf(p)), used' = 1.to(4),
    made' = POOLS.mapBy(p => p == 1), seen' = PLACES.mapBy(p => 0)
  }
  // pool 2 becomes a clone of pool 1
  action clone = {
    nondet c = CELLS.exclude(used).oneOf()
    nondet d = CELLS.exclude(used).oneOf()
    val own = Map(1 -> if (1.in(CLONED)) c else ref.get((1, 1)), 2 -> if (2.in(CLONED)) d else ref.get((1, 2)))
    all {
      made.get(1), not(made.get(2)), c != d,
      heap' = heap.set(c, heap.get(ref.get((1, 1)))).set(d, heap.get(ref.get((1, 2)))),
      ref' = ref.set((2, 1), own.get(1)).set((2, 2), own.get(2)),
      used' = used.union(Set(own.get(1), own.get(2))), made' = made.set(2, true),
      seen' = seen.set((2, 1), seen.get((1, 1))).set((2, 2), seen.get((1, 2)))
    }
  }
  // somebody changes what one of its fields refers to
  action change = {
    nondet p = PLACES.oneOf()
    nondet v = 0.to(2).oneOf()
    all {
      p._1 == CALLER or made.get(p._1),
      heap' = heap.set(ref.get(p), v), seen' = seen.set(p, v), ref' = ref, used' = used, made' = made
    }
  }
  // a pool takes over an amount of the caller
  action take = {
    nondet p = PLACES.oneOf()
    nondet a = FIELDS.oneOf()
    all {
      p._1 != CALLER, made.get(p._1),
      heap' = if (COPIED) heap.set(ref.get(p), heap.get(ref.get((CALLER, a)))) else heap,
      ref' = if (COPIED) ref else ref.set(p, ref.get((CALLER, a))),
      seen' = seen.set(p, seen.get((CALLER, a))), used' = used, made' = made
    }
  }
  action step = any { clone, change, take }
  val live: Set[(int, int)] = PLACES.filter(p => p._1 == CALLER or made.get(p._1))
  val inv = live.forall(p => heap.get(ref.get(p)) == seen.get(p))
  val inductive = and {
    heap.in(CELLS.setOfMaps(0.to(2))), ref.in(PLACES.setOfMaps(0.to(7))), used.in(CELLS.powerset()), made.in(POOLS.setOfMaps(Bool)),
    seen.in(PLACES.setOfMaps(0.to(2))), made.get(1), inv,
    live.forall(p => ref.get(p).in(used)),
    live.forall(p => live.forall(q => p != q implies ref.get(p) != ref.get(q)))
  }
}
module copied { import sharing(CLONED = Set(1, 2), COPIED = true).* }
module shared { import sharing(CLONED = Set(1), COPIED = true).* }
module kept { import sharing(CLONED = Set(1, 2), COPIED = false).* }
