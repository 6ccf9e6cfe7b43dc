// The schedule of a backtest, abstractly: timers advanced once per transaction. Shows that the k-th action of a timer
// happens at the first transaction that is not before its due time and not used up by an earlier action (C19), that
// nothing happens after the end, and the number of actions never exceeds the elapsed intervals.
module schedule {
  pure val NEVER = 1000000
  pure val UPD = 3
  pure val SNAP = 2
  pure val PRICE = 4
  var now: int
  var n: int            // transactions seen
  var begin: int
  var end: int
  var first: int
  var startedAt: int    // time of the starting transaction, or NEVER
  var over: bool
  var nextUpd: int
  var nextSnap: int
  var nextPrice: int
  var upds: List[(int, int)]    // (index of the transaction, its time)
  var snaps: List[(int, int)]
  var prices: List[(int, int)]
  var times: List[int]

  action init = {
    nondet b = 0.to(6).oneOf()
    nondet e = 2.to(14).oneOf()
    all {
      now' = 0, n' = 0, begin' = b, end' = e, first' = 0, startedAt' = NEVER, over' = false,
      nextUpd' = NEVER, nextSnap' = NEVER, nextPrice' = 0, upds' = List(), snaps' = List(), prices' = List(), times' = List()
    }
  }
  action step = {
    nondet gap = 0.to(9).oneOf()
    val t = if (n == 0) 0 else now + gap
    val gone = over or t > end
    val starts = not(gone) and startedAt == NEVER and t >= begin
    val nu = if (starts) t + UPD else nextUpd
    val ns = if (starts) t + SNAP else nextSnap
    val p = not(gone) and t >= nextPrice
    val s = not(gone) and t >= ns
    val u = not(gone) and t >= nu
    all {
      n < 9,
      now' = t, n' = n + 1, over' = gone, startedAt' = if (starts) t else startedAt, begin' = begin, end' = end, first' = first,
      nextPrice' = if (p) nextPrice + PRICE else nextPrice, nextSnap' = if (s) ns + SNAP else ns, nextUpd' = if (u) nu + UPD else nu,
      prices' = if (p) prices.append((n, t)) else prices, snaps' = if (s) snaps.append((n, t)) else snaps,
      upds' = if (u) upds.append((n, t)) else upds, times' = times.append(t)
    }
  }
  // k-th action (from 1) of a timer based at b with interval i
  def right(l: List[(int, int)], b: int, i: int): bool = l.indices().forall(k => {
    val due = b + k * i
    val from = if (k == 0) 0 else l[k - 1]._1 + 1
    and {
      l[k]._2 >= due, l[k]._2 <= end, k == 0 or l[k]._1 > l[k - 1]._1,
      // no transaction in between was due
      from.to(l[k]._1 - 1).forall(j => times[j] < due or j < times.length() and times[j] < b)
    }
  })
  val inv = and {
    right(prices, first, PRICE),
    if (startedAt == NEVER) snaps == List() and upds == List() else right(snaps, startedAt + SNAP, SNAP) and right(upds, startedAt + UPD, UPD),
    startedAt == NEVER or startedAt >= begin and startedAt <= end,
    // started at the first transaction that was due
    times.indices().forall(j => times[j] >= begin and times[j] <= end implies startedAt <= times[j])
  }
}
