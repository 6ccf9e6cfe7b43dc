// Ticks and prices: sqrt(1.0001)^tick as a Q64.96, exactly as Uniswap v3's TickMath.
module tickmath {
  import ints.* from "./ints"

  pure val MIN_TICK = -887272
  pure val MAX_TICK = 887272
  pure val MIN_SQRT = 4295128739
  pure val MAX_SQRT = 1461446703485210103287273052203988822378723970342

  pure val BITS: List[(int, int)] = [
    (1, 0xfffcb933bd6fad37aa2d162d1a594001), (2, 0xfff97272373d413259a46990580e213a),
    (4, 0xfff2e50f5f656932ef12357cf3c7fdcc), (8, 0xffe5caca7e10e4e61c3624eaa0941cd0),
    (16, 0xffcb9843d60f6159c9db58835c926644), (32, 0xff973b41fa98c081472e6896dfb254c0),
    (64, 0xff2ea16466c96a3843ec78b326b52861), (128, 0xfe5dee046a99a2a811c461f1969c3053),
    (256, 0xfcbe86c7900a88aedcffc83b479aa3a4), (512, 0xf987a7253ac413176f2b074cf7815e54),
    (1024, 0xf3392b0822b70005940c7a398e4b70f3), (2048, 0xe7159475a2c29b7443b29c7fa6e889d9),
    (4096, 0xd097f3bdfd2022b8845ad8f792aa5825), (8192, 0xa9f746462d870fdf8a65dc1f90e061e5),
    (16384, 0x70d869a156d2a1b890bb3df62baf32f7), (32768, 0x31be135f97d08fd981231505542fcfa6),
    (65536, 0x9aa508b5b7a84e1c677de54f3e99bc9), (131072, 0x5d6af8dedb81196699c329225ee604),
    (262144, 0x2216e584f5fa1ea926041bedfe98), (524288, 0x48a170391f7dc42444e8fa2)
  ]

  pure def ratioX128(absTick: int): int =
    BITS.foldl(P128, (r, b) => if ((absTick / b._1) % 2 == 1) (r * b._2) / P128 else r)

  // price of a tick, rounded up from Q128.128 to Q64.96
  pure def sqrtAt(tick: int): int = {
    val r = ratioX128(iabs(tick))
    val q = if (tick > 0) (P256 - 1) / r else r
    (q + P32 - 1) / P32
  }

  // is t the largest tick whose price does not exceed p?
  pure def isTickOf(t: int, p: int): bool =
    MIN_TICK <= t and t <= MAX_TICK and sqrtAt(t) <= p and (t == MAX_TICK or p < sqrtAt(t + 1))

  pure def validSqrt(p: int): bool = MIN_SQRT <= p and p < MAX_SQRT

  // definition by bisection
  pure def tickOfBisect(p: int): int =
    range(0, 21).foldl((MIN_TICK, MAX_TICK), (lh, _) =>
      if (lh._1 >= lh._2) lh else {
        val mid = fdiv(lh._1 + lh._2 + 1, 2)
        if (sqrtAt(mid) <= p) (mid, lh._2) else (lh._1, mid - 1)
      })._1

  // the same tick, found from an estimate of the binary logarithm (fast path)
  pure def tickOf(p: int): int = {
    val r128 = p * P32
    val msb = bitLen(r128) - 1
    val r0 = if (msb >= 128) r128 / 2^(msb - 127) else r128 * 2^(127 - msb)
    val l = range(0, 14).foldl((r0, (msb - 128) * P64), (a, i) => {
      val sq = (a._1 * a._1) / 2^127
      if (sq >= P128) (sq / 2, a._2 + 2^(63 - i)) else (sq, a._2)
    })
    val logSqrt = l._2 * 255738958999603826347141
    val lo = fdiv(logSqrt - 3402992956809132418596140100660247210, P128)
    val hi = fdiv(logSqrt + 291339464771989622907027621153398088495, P128)
    if (isTickOf(hi, p)) hi else if (isTickOf(lo, p)) lo else tickOfBisect(p)
  }

  // alignment to the tick spacing
  pure def floorTo(x: int, unit: int): int = fdiv(x, unit) * unit
  pure def ceilTo(x: int, unit: int): int = cdiv(x, unit) * unit
  pure def roundTo(x: int, unit: int): int =   // nearest multiple, halves away from zero
    if (x >= 0) ((2 * x + unit) / (2 * unit)) * unit else -(((2 * (-x) + unit) / (2 * unit)) * unit)

  run endsTest = all {
    assert(sqrtAt(MIN_TICK) == MIN_SQRT), assert(sqrtAt(MAX_TICK) == MAX_SQRT), assert(sqrtAt(0) == P96),
    assert(tickOf(MIN_SQRT) == MIN_TICK), assert(tickOf(MAX_SQRT - 1) == MAX_TICK - 1), assert(tickOf(P96) == 0),
    assert(tickOf(P96 - 1) == -1),
    assert(roundTo(-15, 10) == -20), assert(roundTo(15, 10) == 20), assert(roundTo(-14, 10) == -10),
    assert(ceilTo(-15, 10) == -10), assert(floorTo(-15, 10) == -20), assert(ceilTo(-20, 10) == -20),
  }
  run tickOfTest = {
    nondet p = MIN_SQRT.to(MAX_SQRT - 1).oneOf()
    nondet e = 33.to(160).oneOf()
    nondet t = MIN_TICK.to(MAX_TICK - 1).oneOf()
    val q = imin(MAX_SQRT - 1, imax(MIN_SQRT, p % 2^e))
    val m = fdiv(MIN_SQRT + MAX_SQRT, 2)
    all {
      assert(tickOf(q) == tickOfBisect(q)), assert(isTickOf(tickOf(q), q)),
      assert(tickOf(sqrtAt(t)) == t), assert(sqrtAt(t) < sqrtAt(t + 1)),
      assert(t == MIN_TICK or tickOf(sqrtAt(t) - 1) == t - 1)
    }
  }
}
