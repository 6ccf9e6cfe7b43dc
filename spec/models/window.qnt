// The price history, abstractly: a ring of fixed size with running sums refines "the last n prices" (C23).
module window {
  pure val N = 3
  var ring: int -> int
  var idx: int
  var sum: int
  var squares: int
  var last: int -> int            // ghost: the k-th last price added, however many there were
  action init = all { ring' = 0.to(N - 1).mapBy(i => 0), idx' = 0, sum' = 0, squares' = 0, last' = 1.to(N).mapBy(k => 0) }
  action step = {
    nondet x = 0.to(1000000).oneOf()
    val old = ring.get(idx)
    all { ring' = ring.set(idx, x), idx' = (idx + 1) % N, sum' = sum - old + x, squares' = squares - old * old + x * x, 
      last' = 1.to(N).mapBy(k => if (k == 1) x else last.get(k - 1)) }
  }
  val inv = and {
    sum == 1.to(N).fold(0, (s, k) => s + last.get(k)),
    squares == 1.to(N).fold(0, (s, k) => s + last.get(k) * last.get(k)),
    1.to(N).forall(k => ring.get((idx - k + N) % N) == last.get(k))
  }
  val inductive = and {
    ring.in(0.to(N - 1).setOfMaps(Int)), idx.in(0.to(N - 1)), sum.in(Int), squares.in(Int), last.in(1.to(N).setOfMaps(Int)),
    inv
  }
}
