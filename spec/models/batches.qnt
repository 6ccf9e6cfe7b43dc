// The program's runs, abstractly: parameters are worked off in batches, the runs of a batch go on at once and finish in
// any order, each writing its own slot; the results are saved when the last batch has ended. Shows, by an inductive
// invariant, that whatever the order, exactly one result per parameter is saved, each in its place (C25).
module batches {
  pure val RUNS = 7
  pure val BATCH = 3
  pure val ALL = 0.to(RUNS - 1)
  pure def metrics(i: int): int = 10 * i + 7    // the result of run i, whatever it is

  var upcoming: int                   // the parameter to come
  var going: Set[int]
  var slots: int -> int           // 0: empty
  var inBatch: int
  var waiting: bool
  var saved: bool
  var file: int -> int

  action init = all {
    upcoming' = 0, going' = Set(), slots' = ALL.mapBy(i => 0), inBatch' = 0, waiting' = false, saved' = false, file' = ALL.mapBy(i => 0)
  }
  val full = inBatch == BATCH or upcoming == RUNS
  action launch = all {
    not(waiting), not(saved), not(full),
    going' = going.union(Set(upcoming)), upcoming' = upcoming + 1, inBatch' = inBatch + 1,
    slots' = slots, waiting' = waiting, saved' = saved, file' = file
  }
  action wait = all {
    not(waiting), not(saved), full, inBatch > 0,
    waiting' = true, upcoming' = upcoming, going' = going, slots' = slots, inBatch' = inBatch, saved' = saved, file' = file
  }
  action finish(i: int): bool = all {
    i.in(going), going' = going.exclude(Set(i)), slots' = slots.set(i, metrics(i)),
    upcoming' = upcoming, inBatch' = inBatch, waiting' = waiting, saved' = saved, file' = file
  }
  action resume = all {
    waiting, going == Set(), waiting' = false, inBatch' = 0, saved' = (upcoming == RUNS), file' = if (upcoming == RUNS) slots else file,
    upcoming' = upcoming, going' = going, slots' = slots
  }
  action step = any {
    launch, wait, resume,
    { nondet i = ALL.oneOf()
      finish(i) }
  }
  val inv = and {
    saved implies ALL.forall(i => file.get(i) == metrics(i)),
    not(saved) implies ALL.forall(i => file.get(i) == 0),
    // it can always go on
    saved or going != Set() or waiting or not(full) or inBatch > 0
  }
  val inductive = and {
    upcoming.in(0.to(RUNS)), going.in(ALL.powerset()), slots.in(ALL.setOfMaps(Int)), inBatch.in(0.to(BATCH)), waiting.in(Bool), saved.in(Bool),
    file.in(ALL.setOfMaps(Int)),
    ALL.forall(i => slots.get(i) == (if (i < upcoming and not(i.in(going))) metrics(i) else 0)),
    going.forall(i => upcoming - inBatch <= i and i < upcoming), inBatch <= upcoming,
    upcoming < RUNS or saved or inBatch > 0,
    saved implies upcoming == RUNS and going == Set() and inBatch == 0 and not(waiting),
    waiting implies full,
    inv
  }
}
