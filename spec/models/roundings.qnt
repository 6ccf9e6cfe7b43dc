// The roundings of amounts and prices, completely for small numbers: every pair of prices up to LAST, every liquidity and
// amount up to a bound, with fixed point Q in the place of 2^96. Shows what the directions of rounding are for
// (C05, C10, C15, C16): charges cover, payments are covered, pieces never beat the whole, a price reached with an
// input is affordable and one reached for an output yields it, and liquidity bought with an amount costs no more.
module roundings {
  pure val Q = 6
  pure val FIRST = 3
  pure val LAST = 30
  pure val LIQS = 0.to(12)
  pure val AMTS = 0.to(20)
  var a: int
  var b: int                      // a < b

  pure def down(x: int, d: int): int = x / d
  pure def up(x: int, d: int): int = (x + d - 1) / d
  pure def down0(p: int, q: int, l: int): int = down(down(l * Q * (q - p), q), p)
  pure def up0(p: int, q: int, l: int): int = up(up(l * Q * (q - p), q), p)
  pure def down1(p: int, q: int, l: int): int = down(l * (q - p), Q)
  pure def up1(p: int, q: int, l: int): int = up(l * (q - p), Q)
  pure def liq0(p: int, q: int, x: int): int = down(x * down(p * q, Q), q - p)
  pure def liq1(p: int, q: int, x: int): int = down(x * Q, q - p)

  action init = all { a' = FIRST, b' = FIRST + 1 }
  action step = all {
    a < LAST - 1 or b < LAST,
    a' = if (b < LAST) a else a + 1, b' = if (b < LAST) b + 1 else a + 2
  }

  // two roundings in a row are as good as one
  val exact = LIQS.forall(l => {
    val x = l * Q * (b - a)
    and { up0(a, b, l) == up(x, a * b), down0(a, b, l) == down(x, a * b), down0(a, b, l) <= up0(a, b, l), up0(a, b, l) <= down0(a, b, l) + 1 }
  })
  val pieces = LIQS.forall(l => 0.to(l).forall(k => and {
    up0(a, b, k) + up0(a, b, l - k) >= up0(a, b, l), up1(a, b, k) + up1(a, b, l - k) >= up1(a, b, l),
    down0(a, b, k) + down0(a, b, l - k) <= down0(a, b, l), down1(a, b, k) + down1(a, b, l - k) <= down1(a, b, l)
  }))
  val parts = LIQS.forall(l => (a + 1).to(b - 1).forall(m => and {
    up0(a, m, l) + up0(m, b, l) >= up0(a, b, l), up1(a, m, l) + up1(m, b, l) >= up1(a, b, l),
    down0(a, m, l) + down0(m, b, l) <= down0(a, b, l), down1(a, m, l) + down1(m, b, l) <= down1(a, b, l),
    // there and back never pays
    up0(a, m, l) >= down0(a, m, l), up1(a, m, l) >= down1(a, m, l)
  }))
  // the price a is left with an input or for an output
  val moves = LIQS.forall(l => l == 0 or AMTS.forall(x => {
    val in1 = a + down(x * Q, l)
    val in0 = up(l * Q * a, l * Q + x * a)
    val out1 = a - up(x * Q, l)
    val out0 = up(l * Q * a, l * Q - x * a)
    and {
      up1(a, in1, l) <= x, up1(a, in1 + 1, l) > x,
      in0 <= a, up0(in0, a, l) <= x,
      out1 <= 0 or down1(out1, a, l) >= x and down1(out1 + 1, a, l) < x or x == 0,
      l * Q <= x * a or (out0 >= a and down0(a, out0, l) >= x and (x == 0 or down0(a, out0 - 1, l) < x))
    }
  }))
  val liquidity = AMTS.forall(x => and {
    up0(a, b, liq0(a, b, x)) <= x,
    up1(a, b, liq1(a, b, x)) <= x, up1(a, b, liq1(a, b, x) + 1) > x,
    // the factor is rounded before it is used: less liquidity than there could be, never more
    liq0(a, b, x) <= down(x * a * b, Q * (b - a))
  })
  val inv = exact and pieces and parts and moves and liquidity
}
