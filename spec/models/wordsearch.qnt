// The search for the next initialized tick, abstractly: a sorted array, a binary search, and the ends of the word. Shows,
// by an inductive invariant over all sorted arrays of up to five ticks and all ticks, that the search ends and that its
// answer is the one defined without an array: the nearest initialized tick inside the word, or the end of the word (C14).
module wordsearch {
  pure val INDEX = 0.to(4)
  pure val SPACING = 3
  pure val WORD = 4
  pure def floorBy(a: int, d: int): int = if (a >= 0) a / d else -((d - 1 - a) / d)

  var ticks: int -> int           // the first n are the initialized ticks, increasing
  var n: int
  var asked: int
  var down: bool
  var l: int
  var r: int
  var steps: int
  var at: int                     // the last tick not above the one asked for; -1: there is none
  var done: bool

  val below = n == 0 or asked < ticks.get(0)
  val beyond = n > 0 and asked >= ticks.get(n - 1)
  val sorted = INDEX.forall(i => i + 1 < n implies ticks.get(i) < ticks.get(i + 1))

  // what the array and the word end give
  val lowEnd = floorBy(floorBy(asked, SPACING), WORD) * WORD * SPACING
  val highEnd = ((floorBy(floorBy(asked, SPACING) + 1, WORD) + 1) * WORD - 1) * SPACING
  val said: (int, bool) =
    if (down) {
      if (at == -1 or ticks.get(at) < lowEnd) (lowEnd, false) else (ticks.get(at), true)
    } else {
      if (at == n - 1 or ticks.get(at + 1) > highEnd) (highEnd, false) else (ticks.get(at + 1), true)
    }
  // what is meant
  val inside = INDEX.filter(i => i < n and (if (down) lowEnd <= ticks.get(i) and ticks.get(i) <= asked else asked < ticks.get(i) and ticks.get(i) <= highEnd))
  val meant = if (said._2) inside.exists(i => ticks.get(i) == said._1 and inside.forall(j => if (down) ticks.get(j) <= said._1 else said._1 <= ticks.get(j)))
    else inside == Set() and said._1 == (if (down) lowEnd else highEnd)

  action init = {
    nondet t = INDEX.setOfMaps(Int).oneOf()
    nondet m = 0.to(5).oneOf()
    nondet q = Int.oneOf()
    nondet d = Bool.oneOf()
    all {
      INDEX.forall(i => i + 1 < m implies t.get(i) < t.get(i + 1)),
      ticks' = t, n' = m, asked' = q, down' = d, l' = 0, r' = m - 1, steps' = 0,
      // at the ends there is nothing to search
      done' = (m == 0 or q < t.get(0) or q >= t.get(m - 1)),
      at' = if (m == 0 or q < t.get(0)) -1 else if (q >= t.get(m - 1)) m - 1 else 0
    }
  }
  action step = {
    val i = (l + r) / 2
    val hit = ticks.get(i) <= asked and (i == n - 1 or ticks.get(i + 1) > asked)
    all {
      not(done),
      ticks' = ticks, n' = n, asked' = asked, down' = down, steps' = steps + 1,
      done' = hit, at' = if (hit) i else at,
      l' = if (not(hit) and ticks.get(i) < asked) i + 1 else l,
      r' = if (not(hit) and ticks.get(i) >= asked) i - 1 else r
    }
  }
  val inv = (done implies meant) and steps <= n
  val inductive = and {
    ticks.in(INDEX.setOfMaps(Int)), n.in(0.to(5)), asked.in(Int), down.in(Bool), l.in(0.to(5)), r.in((-1).to(4)), steps.in(0.to(5)),
    at.in((-1).to(4)), done.in(Bool), sorted, steps <= n,
    if (done) and {
      at < n, (at == -1) == below, at >= 0 implies ticks.get(at) <= asked,
      at >= 0 and at < n - 1 implies asked < ticks.get(at + 1)
    } else and {
      not(below), not(beyond), 0 <= l, l <= r, r <= n - 1, at == 0,
      ticks.get(l) <= asked, r == n - 1 or asked < ticks.get(r + 1),
      // at least one place less after every step
      steps + r - l <= n - 1
    }
  }
}
