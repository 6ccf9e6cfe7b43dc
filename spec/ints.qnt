// Integers: floor division, 256-bit words, full-precision multiply-divide.
// Quint's `/` and `%` truncate towards zero; everything signed goes through fdiv/fmod.
module ints {
  pure val P32 = 2^32
  pure val P64 = 2^64
  pure val P96 = 2^96
  pure val P128 = 2^128
  pure val P160 = 2^160
  pure val P192 = 2^192
  pure val P255 = 2^255
  pure val P256 = 2^256

  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def iabs(a: int): int = if (a < 0) -a else a

  pure def fmod(a: int, b: int): int = { val r = a % b
    if (r < 0) r + b else r }
  pure def fdiv(a: int, b: int): int = (a - fmod(a, b)) / b
  pure def cdiv(a: int, b: int): int = -(fdiv(-a, b))

  // 256-bit words
  pure def wrap(x: int): int = fmod(x, P256)
  pure def signed(x: int): int = if (x >= P255) x - P256 else x

  // exact floor/ceiling of a*b/d for non-negative operands
  pure def mulDiv(a: int, b: int, d: int): int = (a * b) / d
  pure def mulDivUp(a: int, b: int, d: int): int = (a * b + d - 1) / d

  // number of bits
  pure def bitLen(x: int): int = {
    val r = [256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((x, 0), (acc, k) =>
      if (acc._1 >= 2^k) (acc._1 / 2^k, acc._2 + k) else acc)
    if (r._1 >= 1) r._2 + 1 else 0
  }

  // integer square root: Newton from above, monotonically decreasing
  pure def isqrt(x: int): int =
    if (x < 2) x else {
      val start = 2^((bitLen(x) + 1) / 2)
      val r = range(0, 12).foldl((start, false), (acc, _) =>
        if (acc._2) acc else {
          val n = (acc._1 + x / acc._1) / 2
          if (n >= acc._1) (acc._1, true) else (n, false)
        })
      // 12 quadratically converging steps are enough for 520 bits; finish exactly in any case
      range(0, 4).foldl(r._1, (s, _) => if (s * s > x) s - 1 else s)
    }

  // sum, minimum, maximum over a set of integers
  pure def minOf(s: Set[int], dflt: int): int = s.fold((false, dflt), (a, x) =>
    if (not(a._1) or x < a._2) (true, x) else a)._2
  pure def maxOf(s: Set[int], dflt: int): int = s.fold((false, dflt), (a, x) =>
    if (not(a._1) or x > a._2) (true, x) else a)._2

  // ---- consistency of these definitions (quint test) ----
  run fdivTest = all {
    assert(fdiv(-7, 2) == -4), assert(fmod(-7, 2) == 1), assert(cdiv(-7, 2) == -3), assert(cdiv(7, 2) == 4),
    assert(fdiv(-256, 256) == -1), assert(wrap(-1) == P256 - 1), assert(signed(wrap(-5)) == -5),
    assert(bitLen(0) == 0), assert(bitLen(1) == 1), assert(bitLen(255) == 8), assert(bitLen(256) == 9),
    assert(bitLen(2^511) == 512),
  }
  run isqrtTest = {
    nondet x = 0.to(2^512).oneOf()
    val s = isqrt(x)
    assert(s * s <= x and (s + 1) * (s + 1) > x)
  }
}
