// Statistics of a list of recorded values, exactly (returns: fixed-point logarithms).
module metrics {
  import ints.* from "./ints"

  // ---------- natural logarithm of x / y, scaled by 2^100 ----------
  pure val LP = 2^100
  pure val LN2 = 878668439483319573618263538048     // floor(ln 2 * 2^100)
  // ln(m / 2^120) for m in [0.7, 1.42] * 2^120: 2 artanh((m - 1) / (m + 1))
  pure def lnNear(m: int): int = {
    val one = 2^120
    val z = ((m - one) * one) / (m + one)
    val z2 = (z * z) / one
    val s = range(0, 26).foldl((z, 0), (a, i) => (if (a._1 == 0) 0 else (a._1 * z2) / one, a._2 + a._1 / (2 * i + 1)))
    (2 * s._2) / 2^20
  }
  pure def lnRatio(x: int, y: int): int = {
    val k = bitLen(x) - bitLen(y)
    // x / y * 2^-k lies in (1/2, 2)
    val m = if (k >= 0) (x * 2^120) / (y * 2^k) else (x * 2^(-k) * 2^120) / y
    val half = 1879812259125035246445576347481445757    // about sqrt(2) * 2^120
    if (m > half) k * LN2 + LN2 + lnNear(m / 2) else if (2 * m < half) k * LN2 - LN2 + lnNear(2 * m) else k * LN2 + lnNear(m)
  }

  // ---------- which values count ----------
  pure def everyNth(v: List[int], n: int): List[int] = v.foldl((0, List()), (a, x) => (a._1 + 1, if (a._1 % n == 0) a._2.append(x) else a._2))._2
  pure def returns(v: List[int]): List[int] = if (v == List()) List() else
    v.slice(1, v.length()).foldl((v[0], List()), (a, x) => (x, a._2.append(lnRatio(x, a._1))))._2

  // ---------- statistics; reported numbers are scaled by 2^200 ----------
  pure val FP = 2^200
  pure def near(x: int, y: int, tol: int): bool = iabs(x - y) <= tol

  // return on investment: (end - start) / start
  pure def returnRight(x: int, v: List[int]): bool = {
    val s = v[0]
    val e = v[v.length() - 1]
    iabs(x * s - (e - s) * FP) <= ((s + e) * FP) / 2^44
  }
  // largest relative fall below the highest value so far, as a number <= 0
  pure def drawdown(v: List[int]): int = v.foldl((0, 0), (a, x) => {
    val peak = imax(a._1, x)
    (peak, imin(a._2, -(((peak - x) * FP) / peak)))
  })._2
  pure def drawdownRight(x: int, v: List[int]): bool = x <= 0 and near(x, drawdown(v), FP / 2^44)

  pure def sum(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def squares(l: List[int]): int = l.foldl(0, (a, x) => a + x * x)
  // with one or two values there is no deviation
  pure def few(r: List[int]): bool = r.length() < 2
  // x (scaled 2^200) squared against a square sum (scaled LP^2), up to the rounding of double precision
  pure def squareRight(x: int, sq: int, whole: int, r: List[int]): bool = {
    val y = x / 2^100
    x >= 0 and near(y * y, sq, whole / 2^38 + (LP * LP) / 2^90 + (r.foldl(0, (a, q) => imax(a, iabs(q))) * LP) / 2^50)
  }
  // sample standard deviation of the returns
  pure def deviationRight(x: int, r: List[int]): bool = if (few(r)) x == 0 else {
    val n = r.length()
    squareRight(x, (n * squares(r) - sum(r) * sum(r)) / (n * (n - 1)), squares(r) / (n - 1), r)
  }
  // root mean square of the negative returns over all returns
  pure def downsideRight(x: int, r: List[int]): bool = if (few(r)) x == 0 else {
    val q = squares(r.select(y => y < 0)) / r.length()
    squareRight(x, q, q, r)
  }
  // value at risk: the return with a twentieth of the returns (rounded down) below it
  pure def riskRight(x: int, r: List[int]): bool = if (few(r)) x == 0 else {
    val y = x / 2^100
    val tol = (LP + iabs(y)) / 2^44
    val k = r.length() / 20
    val below = r.select(q => q < y - tol).length()
    val upTo = r.select(q => q <= y + tol).length()
    below <= k and k < upTo and r.select(q => near(q, y, tol)).length() > 0
  }

  // what a result reports; nums: return, drawdown, deviations (hourly, daily, weekly), downside (3), value at risk (3)
  type Reported = { end: int, mul: int, window: int, upd: int, finite: bool, nums: List[int] }
  pure val NAMES = ["return", "max drawdown", "hourly deviation", "daily deviation", "weekly deviation",
    "hourly downside", "daily downside", "weekly downside", "hourly value at risk", "daily value at risk", "weekly value at risk"]
  // names of the numbers that are wrong
  pure def wrong(a: Reported, v: List[int]): Set[int] = {
    val h = returns(v)
    val d = returns(everyNth(v, 24))
    val w = returns(everyNth(v, 168))
    val right = [returnRight(a.nums[0], v), drawdownRight(a.nums[1], v),
      deviationRight(a.nums[2], h), deviationRight(a.nums[3], d), deviationRight(a.nums[4], w),
      downsideRight(a.nums[5], h), downsideRight(a.nums[6], d), downsideRight(a.nums[7], w),
      riskRight(a.nums[8], h), riskRight(a.nums[9], d), riskRight(a.nums[10], w)]
    0.to(10).filter(i => not(right[i]))
  }

  run lnTest = all {
    assert(iabs(lnRatio(2, 1) - LN2) < 1000), assert(iabs(lnRatio(1, 2) + LN2) < 1000), assert(lnRatio(7, 7) == 0),
    assert(iabs(lnRatio(10, 1) - 2918873375210475425442079017696) < 2000), // ln 10
    assert(iabs(lnRatio(3 * 10^20, 7 * 10^30) - (lnRatio(3, 7) - 10 * lnRatio(10, 1))) < 20000),
  }
}
