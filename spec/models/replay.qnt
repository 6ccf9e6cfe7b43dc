// A backtest as a replay: a history of any changes, a strategy that may start, change the pool or be valued at any
// transaction. Shows, by an inductive invariant, that the pool is always the history so far and what the strategy did, every
// transaction once and in its order, and that a value is one of the moment before its transaction (C20, C21); a backtest
// that values after the transaction is not like that.
module replay {
  const BEFORE: bool               // values before the transaction
  pure val N = 4
  pure val ALL = 0.to(3)
  var tx: int -> int               // the history: the change each transaction makes
  var at: int                      // the transaction at hand
  var phase: str                   // valuing, acting, applying
  var pool: int
  var own: int                     // what the strategy changed so far
  var done: int -> int             // how often a transaction was applied
  var value: int -> int            // what was recorded at a transaction
  var recorded: int -> bool
  var ownThen: int -> int          // what the strategy had changed by then

  def sofar(k: int): int = ALL.fold(0, (s, i) => if (i < k) s + tx.get(i) else s)
  action kept = all { tx' = tx, ownThen' = ownThen, value' = value, recorded' = recorded }
  action init = {
    nondet h = ALL.setOfMaps(Int).oneOf()
    all { tx' = h, at' = 0, phase' = "valuing", pool' = 0, own' = 0, done' = ALL.mapBy(i => 0), value' = ALL.mapBy(i => 0),
      recorded' = ALL.mapBy(i => false), ownThen' = ALL.mapBy(i => 0) }
  }
  action record = all { value' = value.set(at, pool), recorded' = recorded.set(at, true), ownThen' = ownThen.set(at, own), tx' = tx }
  action following = all { at' = at + 1, phase' = "valuing" }
  action step = any {
    all { at < N, phase == "valuing", if (BEFORE) any { record, kept } else kept,
      at' = at, phase' = "acting", pool' = pool, own' = own, done' = done },
    { nondet d = Int.oneOf()
      all { at < N, phase == "acting", pool' = pool + d, own' = own + d, at' = at, phase' = "applying", done' = done, kept } },
    all { at < N, phase == "applying", pool' = pool + tx.get(at), done' = done.set(at, done.get(at) + 1), own' = own, kept,
      if (BEFORE) following else all { at' = at, phase' = "late" } },
    all { at < N, phase == "late", any { record, kept }, following, pool' = pool, own' = own, done' = done },
    all { at == N, at' = at, phase' = phase, pool' = pool, own' = own, done' = done, kept }
  }
  val inv = and {
    ALL.forall(i => done.get(i) == (if (i < at or i == at and phase == "late") 1 else 0)),
    ALL.forall(i => recorded.get(i) implies value.get(i) == sofar(i) + ownThen.get(i))
  }
  val inductive = and {
    tx.in(ALL.setOfMaps(Int)), at.in(0.to(4)), phase.in(Set("valuing", "acting", "applying")), pool.in(Int), own.in(Int),
    done.in(ALL.setOfMaps(0.to(1))), value.in(ALL.setOfMaps(Int)), recorded.in(ALL.setOfMaps(Bool)), ownThen.in(ALL.setOfMaps(Int)),
    pool == sofar(at) + own,
    inv
  }
}
module valuedbefore { import replay(BEFORE = true).* }
module valuedafter { import replay(BEFORE = false).* }
