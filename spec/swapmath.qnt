// Amounts between prices, price movement by amounts, and a single swap step (Uniswap v3 SqrtPriceMath, SwapMath).
module swapmath {
  import ints.* from "./ints"

  pure val MAX_FEE = 1000000

  // token0 between two prices for a liquidity
  pure def amount0(pa: int, pb: int, liq: int, up: bool): int = {
    val a = imin(pa, pb)
    val b = imax(pa, pb)
    if (up) cdiv(mulDivUp(liq * P96, b - a, b), a) else mulDiv(liq * P96, b - a, b) / a
  }
  // token1 between two prices for a liquidity
  pure def amount1(pa: int, pb: int, liq: int, up: bool): int = {
    val d = iabs(pb - pa)
    if (up) mulDivUp(liq, d, P96) else mulDiv(liq, d, P96)
  }

  // signed liquidity: adding rounds up what is charged, removing rounds down what is paid (as a negative number)
  pure def amount0Signed(pa: int, pb: int, liq: int): int =
    if (liq < 0) -amount0(pa, pb, -liq, false) else amount0(pa, pb, liq, true)
  pure def amount1Signed(pa: int, pb: int, liq: int): int =
    if (liq < 0) -amount1(pa, pb, -liq, false) else amount1(pa, pb, liq, true)

  // nxt price after adding/removing an amount of token0: rounded up
  pure def nextFrom0(p: int, liq: int, amt: int, add: bool): int =
    if (amt == 0) p else {
      val n1 = liq * P96
      val product = amt * p
      if (add) {
        if (product < P256 and n1 + product < P256) mulDivUp(n1, p, n1 + product)
        else cdiv(n1, n1 / p + amt)
      } else mulDivUp(n1, p, n1 - product)
    }
  // nxt price after adding/removing an amount of token1: rounded down
  pure def nextFrom1(p: int, liq: int, amt: int, add: bool): int =
    if (add) p + mulDiv(amt, P96, liq) else p - mulDivUp(amt, P96, liq)

  pure def nextFromInput(p: int, liq: int, amt: int, zeroForOne: bool): int =
    if (zeroForOne) nextFrom0(p, liq, amt, true) else nextFrom1(p, liq, amt, true)
  pure def nextFromOutput(p: int, liq: int, amt: int, zeroForOne: bool): int =
    if (zeroForOne) nextFrom1(p, liq, amt, false) else nextFrom0(p, liq, amt, false)

  type Step = { nxt: int, amtIn: int, amtOut: int, fee: int }

  // one step from `cur` towards `target`; `rem` >= 0 is an exact input, < 0 an exact output
  pure def swapStep(cur: int, target: int, liq: int, rem: int, feePips: int): Step = {
    val zfo = cur >= target
    val exactIn = rem >= 0
    val inToTarget = if (zfo) amount0(target, cur, liq, true) else amount1(cur, target, liq, true)
    val outToTarget = if (zfo) amount1(target, cur, liq, false) else amount0(cur, target, liq, false)
    val remLessFee = mulDiv(rem, MAX_FEE - feePips, MAX_FEE)
    val nxt =
      if (exactIn) {
        if (remLessFee >= inToTarget) target else nextFromInput(cur, liq, remLessFee, zfo)
      } else {
        if (-rem >= outToTarget) target else nextFromOutput(cur, liq, -rem, zfo)
      }
    val reached = nxt == target
    val amtIn =
      if (reached and exactIn) inToTarget
      else if (zfo) amount0(nxt, cur, liq, true) else amount1(cur, nxt, liq, true)
    val out0 =
      if (reached and not(exactIn)) outToTarget
      else if (zfo) amount1(nxt, cur, liq, false) else amount0(cur, nxt, liq, false)
    val amtOut = if (not(exactIn) and out0 > -rem) -rem else out0
    val fee = if (exactIn and not(reached)) rem - amtIn else mulDivUp(amtIn, feePips, MAX_FEE - feePips)
    { nxt: nxt, amtIn: amtIn, amtOut: amtOut, fee: fee }
  }

  // ---- liquidity for amounts (Uniswap v3-periphery LiquidityAmounts) ----
  pure def liqFor0(pa: int, pb: int, amt: int): int = {
    val a = imin(pa, pb)
    val b = imax(pa, pb)
    mulDiv(amt, mulDiv(a, b, P96), b - a)
  }
  pure def liqFor1(pa: int, pb: int, amt: int): int = mulDiv(amt, P96, iabs(pb - pa))
  pure def liqForAmounts(p: int, pa: int, pb: int, amt0: int, amt1: int): int = {
    val a = imin(pa, pb)
    val b = imax(pa, pb)
    if (a == b) 0   // an empty range holds no liquidity
    else if (p <= a) liqFor0(a, b, amt0)
    else if (p < b) imin(liqFor0(p, b, amt0), liqFor1(a, p, amt1))
    else liqFor1(a, b, amt1)
  }
  pure def amountsForLiq(p: int, pa: int, pb: int, liq: int): (int, int) = {
    val a = imin(pa, pb)
    val b = imax(pa, pb)
    if (p <= a) (amount0(a, b, liq, false), 0)
    else if (p < b) (amount0(p, b, liq, false), amount1(a, p, liq, false))
    else (0, amount1(a, b, liq, false))
  }
}
