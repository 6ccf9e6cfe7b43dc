// Derived randomness: independent draws from one large random number.
module rand {
  import ints.* from "./ints"
  import tickmath.* from "./tickmath"
  // number number `k` (bits) of r, below m
  pure def pk(r: int, k: int, m: int): int = (r / 2^k) % m
  // uniform number of bits below `bits`, then uniform
  pure def logU(r: int, bits: int): int = { val b = pk(r, 0, bits)
    2^b + pk(r, 16, 2^b) }
  // k-th element of a set, in iteration order
  pure def pickOf(s: Set[int], k: int, d: int): int = s.fold((0, d), (a, x) => if (a._1 == k) (a._1 + 1, x) else (a._1 + 1, a._2))._2
  // a word: uniform, few bits, near a power of two, near the ends, sparse limbs
  pure def genWord(r: int): int = {
    val m = pk(r, 0, 16)
    val x = pk(r, 300, P256)
    wrap(if (m < 2) pk(r, 8, 4) else if (m < 5) logU(r / 2^8, 256) else if (m < 7) 2^pk(r, 8, 256) + pk(r, 16, 5) - 2
      else if (m == 7) -1 - pk(r, 8, 4) else if (m == 8) P255 + pk(r, 8, 5) - 2
      else if (m == 9) x - (x / P64) % P64 * P64 else if (m == 10) x - (x / P128) % P64 * P128
      else if (m == 11) x - (x % P64) else if (m == 12) x % P192 else if (m == 13) x % P128
      else if (m == 14) x % P64 else x)
  }
  // a price in the admissible range
  pure def genPrice(r: int): int = {
    val m = pk(r, 0, 16)
    val t = if (m < 4) pk(r, 8, 6000) - 3000 else if (m < 6) pk(r, 8, 200000) + 100000 else if (m < 8) -200000 - pk(r, 8, 100000)
      else if (m == 8) MIN_TICK + pk(r, 8, 3000) else if (m == 9) MAX_TICK - 1 - pk(r, 8, 3000) else MIN_TICK + pk(r, 8, 2 * MAX_TICK)
    val a = sqrtAt(t)
    val b = sqrtAt(t + 1)
    if (m == 15) if (pk(r, 5, 3) == 0) 2^(33 + pk(r, 8, 127)) else imax(MIN_SQRT, imin(MAX_SQRT - 1, logU(r / 2^8, 160)))
    else if (pk(r, 60, 3) == 0) imax(MIN_SQRT, a + pk(r, 64, 3) - 1) else a + pk(r, 64, b - a)
  }
  // a second price: anywhere, near, on a near tick, or the same
  pure def genPrice2(p: int, r: int): int = {
    val m = pk(r, 0, 16)
    val s = if (pk(r, 4, 2) == 0) 1 else -1
    imax(MIN_SQRT, imin(MAX_SQRT - 1,
      // powers of two, which divide without remainder
      if (2^(bitLen(p) - 1) == p and pk(r, 250, 2) == 0) (if (s > 0) p * 2^pk(r, 8, 4) else p / 2^pk(r, 8, 4))
      else if (m < 5) genPrice(r / 2^8) else if (m < 8) p + s * logU(r / 2^8, 100) else if (m < 10) p + s * pk(r, 8, 4)
      else if (m < 15) sqrtAt(imax(MIN_TICK, imin(MAX_TICK - 1, tickOf(p) + s * pk(r, 8, 2000)))) else p))
  }
  pure def genLiq128(r: int): int = {
    val m = pk(r, 0, 10)
    if (m == 0) 0 else if (m == 1) 1 + pk(r, 8, 3) else if (m == 2) 2^pk(r, 8, 4) * P96 * (1 + pk(r, 16, 2^pk(r, 40, 24))) else if (m < 6) logU(r / 2^8, 100) else if (m == 6) P128 - 1 - pk(r, 8, 3) else logU(r / 2^8, 128)
  }
  pure def genAmount(r: int): int = {
    val m = pk(r, 0, 10)
    if (m == 0) pk(r, 8, 4) else if (m < 7) logU(r / 2^8, 120) else if (m == 7) P255 - 1 - pk(r, 8, 2^20) else logU(r / 2^8, 255)
  }
}
