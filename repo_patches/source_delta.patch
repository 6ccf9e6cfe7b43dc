From 97a0e7ee91cc4360abc0eadb42f4882dfe609df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 01/20] fix: position Clone copies TokensOwed0 from TokensOwed0

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From 3411ace6fdf626689390314293dc6a6183d1ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 02/20] fix: TickData Clone copies the tick values instead of
 sharing them

---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..fbe7489 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From ba04a3976d4c176baa7422e7de6818944a727e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 03/20] fix: give every tick range its own position key

---
 lib/pool/pool.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..cae6ff1 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -88,6 +89,12 @@ func (p *Pool) Clone() *Pool {
 		Positions:            positions,
 	}
 }
+
+// positionKey identifies the position of a tick range. Ticks can be negative, so they are written as decimal numbers.
+func positionKey(tickLower, tickUpper int) string {
+	return strconv.Itoa(tickLower) + ":" + strconv.Itoa(tickUpper)
+}
+
 func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *position.Info) {
 	var clearLower, clearUpper bool
 
@@ -97,7 +104,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +174,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := positionKey(tickLower, tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From 10e85c7e348dcb9bd43814fa8b818b81a33585c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 04/20] fix: round negative ticks down when looking for the
 next initialized tick

---
 lib/tickdata/tickdata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index fbe7489..53a0c7e 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -174,6 +174,10 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	// Go truncates towards zero, but the word of a negative tick is found by rounding down.
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed--
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From 4accbf66f597281e51498776ae95edd33bc4545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 05/20] fix: deduct the swap fee from large amounts without
 overflow

---
 lib/swapmath/swapmath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0


From 8df5c9a03468f14b00f4fe22af8b63c689ebf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 06/20] fix: forget burned positions in BurnAll of every
 strategy

---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..861c97d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..0c08b57 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From 78def55080b8064da380ca2a321be9b431de7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 07/20] fix: skip the position instead of failing when the
 assets buy no liquidity

---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 861c97d..352900b 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -74,6 +74,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0c08b57..12b1fea 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -75,6 +75,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..c223bbe 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -94,6 +94,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From 9d8b3ec4b838df9ababc660786a2afe387b0c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 08/20] fix: burning zero liquidity does not initialize ticks

---
 lib/pool/pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index cae6ff1..8f02273 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -193,6 +193,11 @@ func (p *Pool) Mint(tickLower int, tickUpper int, amount *ui.Int) {
 }
 
 func (p *Pool) Burn(tickLower int, tickUpper int, amount *ui.Int) {
+	p.checkTicks(tickLower, tickUpper)
+	if amount.IsZero() {
+		// A poke moves no liquidity, it must not initialize ticks.
+		return
+	}
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
 	p.modifyPosition(tickLower, tickUpper, amountMinus)
-- 
2.43.0


From f88e0225e6642e60579767d832205d3863fab3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 09/20] fix: refuse to burn more liquidity than there is

---
 lib/pool/pool.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index 8f02273..49ef141 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -161,6 +161,8 @@ func (p *Pool) MintStrategy(tickLower int, tickUpper int, amount *ui.Int) (amoun
 
 // BurnStrategy doesn't actually pay out. It just updates the position.
 func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.Int, *ui.Int) {
+	owned := p.Positions[positionKey(tickLower, tickUpper)]
+	invariant.Invariant(owned != nil && owned.Liquidity.Cmp(amount) >= 0, "burn exceeds the liquidity of the position")
 
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
@@ -198,6 +200,11 @@ func (p *Pool) Burn(tickLower int, tickUpper int, amount *ui.Int) {
 		// A poke moves no liquidity, it must not initialize ticks.
 		return
 	}
+	invariant.Invariant(p.TickData.GetTick(tickLower).LiquidityGross.Cmp(amount) >= 0, "burn exceeds the liquidity of tickLower")
+	invariant.Invariant(p.TickData.GetTick(tickUpper).LiquidityGross.Cmp(amount) >= 0, "burn exceeds the liquidity of tickUpper")
+	if p.TickCurrent >= tickLower && p.TickCurrent < tickUpper {
+		invariant.Invariant(p.Liquidity.Cmp(amount) >= 0, "burn exceeds the active liquidity")
+	}
 	amountMinus := new(ui.Int)
 	amountMinus.Neg(amount)
 	p.modifyPosition(tickLower, tickUpper, amountMinus)
-- 
2.43.0


From 32a08278d891dd9d63cfeaf4c35b0dd99ac03f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 10/20] fix: find no initialized tick in an empty pool instead
 of failing

---
 lib/tickdata/tickdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 53a0c7e..c655bb2 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -181,7 +181,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-		if t.isBelowSmallest(tick) {
+		if len(t.ticks) == 0 || t.isBelowSmallest(tick) {
 			return minimum, false
 		}
 
@@ -191,7 +191,7 @@ func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bo
 	} else {
 		wordPos := (compressed + 1) >> 8
 		maximum := (((wordPos + 1) << 8) - 1) * t.tickSpacing
-		if t.isAtOrAboveLargest(tick) {
+		if len(t.ticks) == 0 || t.isAtOrAboveLargest(tick) {
 			return maximum, false
 		}
 		index := t.nextInitializedTick(tick, lte).Index
-- 
2.43.0


From b9faacbf0c220a5bf357a9af55d0667a5c4baa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 11/20] fix: take price snapshots at the configured interval

---
 lib/executor/executor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..f9c48ef 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -49,7 +49,7 @@ func (e *Execution) Run() {
 	nextUpdate := math.MaxInt64
 	nextSnapshot := math.MaxInt64
 	// We need some Snapshots for Init(), the easiest way is to get Snapshots from the first transaction
-	nextPriceSnapshot := 0
+	nextPriceSnapshot := transactions[0].Timestamp
 	//limitRebalance := false
 	for _, trans := range transactions {
 
@@ -83,7 +83,7 @@ func (e *Execution) Run() {
 		//	limitRebalance = false
 		//}
 		//Price Snapshot
-		if trans.Timestamp > nextPriceSnapshot {
+		if trans.Timestamp >= nextPriceSnapshot {
 			e.Strategy.MakeSnapshot()
 			nextPriceSnapshot += e.PricesSnapshotsInterval
 		}
-- 
2.43.0


From be589573eb8ccbb4ea36f423933a3ed46ff2825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 12/20] fix: keep the variance of equal returns from turning
 negative

---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index de5b2ab..a1c5a53 100644
--- a/main.go
+++ b/main.go
@@ -175,7 +175,8 @@ func calculateStd(prices []*ui.Int) float64 {
 	quotient := n * (n - 1)
 	sum2 = sum2 / float64(quotient)
 
-	variance := sum1 - sum2
+	// Rounding can push the difference of equal sums below zero
+	variance := math.Max(0, sum1-sum2)
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0


From b22ba32c945b0c9181dba198d7a816f1e0c61bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 13/20] fix: report results that cannot be saved

---
 main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/main.go b/main.go
index a1c5a53..44fa105 100644
--- a/main.go
+++ b/main.go
@@ -278,9 +278,7 @@ func saveFile(results []result.RunResult, filename string, startTime, endTime in
 		Results:     results,
 	}
 	err = encoder.Encode(toSave)
-	if err != nil {
-		return
-	}
+	check(err)
 
 }
 
-- 
2.43.0


From 3dbd00fcc8144a5bd346c400e48d75633a419131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 14/20] fix: parsing hex replaces the old value

---
 uint256/conversion.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index c0e6655..1b2606d 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -79,6 +79,7 @@ func (z *Int) fromHex(hex string) error {
 	if len(hex) > 66 {
 		return ErrBig256Range
 	}
+	z.Clear()
 	end := len(hex)
 	for i := 0; i < 4; i++ {
 		start := end - 16
-- 
2.43.0


From 4774290e668601c466ebf91e835196b8b728052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 15/20] fix: move the price by large token1 amounts without
 overflow

---
 lib/sqrtprice_math/sqrtprice_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..fa44c4f 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -98,7 +98,7 @@ func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int
 		if amount.Cmp(MaxUint160) <= 0 {
 			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
 		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
+			quotient = fm.MulDiv(amount, cons.Q96, liquidity)
 		}
 		return new(ui.Int).Add(sqrtPX96, quotient)
 	}
-- 
2.43.0


From 72da0b000caa5c642d2c018ef2e81e13a0c57af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 16/20] fix: divide by a divisor that is longer than the
 numerator

---
 uint256/uint256.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..ac75e99 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,12 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	if uLen < dLen {
+		// The divisor is longer than the numerator, the quotient is zero.
+		copy(rem[:], u[:uLen])
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From e9d04fe8a1f2cae7855af2a85607630b7042d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 17/20] fix: refuse snapshot prices whose square wraps around
 256 bits

Prices.Add squared the price modulo 2^256 before checking that the square
fits 230 bits, so a price such as 2^128 was accepted and stored as 0.
---
 lib/prices/prices.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..d80a70b 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -26,7 +26,8 @@ func (p *Prices) Add(price *ui.Int) {
 	// Todo Fix this so it never overflows
 	priceSquareX192 := new(ui.Int).Mul(price, price)
 
-	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
+	// The square fits 230 bits exactly if the price fits 115 bits; the square itself may already have wrapped.
+	shifted := new(ui.Int).Rsh(price, 115)
 	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
 
 	p.prices[p.index] = priceSquareX192
-- 
2.43.0


From d0975e01c17927cd9004fcf576176b4a3f3ba793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 18/20] fix: an empty range holds no liquidity instead of
 dividing by zero

---
 lib/liquidity_amounts/liquidity_amounts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/liquidity_amounts/liquidity_amounts.go b/lib/liquidity_amounts/liquidity_amounts.go
index 999fe4c..030b742 100644
--- a/lib/liquidity_amounts/liquidity_amounts.go
+++ b/lib/liquidity_amounts/liquidity_amounts.go
@@ -25,7 +25,10 @@ func GetLiquidityForAmount(sqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, amount0,
 	if sqrtRatioAX96.Cmp(sqrtRatioBX96) > 0 {
 		sqrtRatioAX96, sqrtRatioBX96 = sqrtRatioBX96, sqrtRatioAX96
 	}
-	if sqrtRatioX96.Cmp(sqrtRatioAX96) <= 0 {
+	if sqrtRatioAX96.Cmp(sqrtRatioBX96) == 0 {
+		// An empty range holds no liquidity
+		liquidity = ui.NewInt(0)
+	} else if sqrtRatioX96.Cmp(sqrtRatioAX96) <= 0 {
 		liquidity = getLiquidityForAmount0(sqrtRatioAX96, sqrtRatioBX96, amount0)
 	} else if sqrtRatioX96.Cmp(sqrtRatioBX96) < 0 {
 		liquidity0 := getLiquidityForAmount0(sqrtRatioX96, sqrtRatioBX96, amount0)
-- 
2.43.0


From 9ccebb6ab6b336757c3dcc31d97185e6e04c064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 19/20] fix: report the amounts held when rebalancing without
 provision

---
 lib/strategy/no_provision.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/strategy/no_provision.go b/lib/strategy/no_provision.go
index 5cbdbe5..2b1b9c8 100644
--- a/lib/strategy/no_provision.go
+++ b/lib/strategy/no_provision.go
@@ -12,9 +12,9 @@ type NoProvisionStrategy struct {
 	Pool    *pool.Pool
 }
 
-func (s *NoProvisionStrategy) Rebalance() (*ui.Int, *ui.Int) {
-	//TODO implement me
-	return nil, nil
+func (s *NoProvisionStrategy) Rebalance() (currAmount0, currAmount1 *ui.Int) {
+	currAmount0, currAmount1 = s.BurnAll()
+	return
 }
 
 func (s *NoProvisionStrategy) MakeSnapshot() {
-- 
2.43.0


From b10f674e6c960a21b4bd345b6dc42660226f9b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 20/20] fix: create executions that start after the last
 transaction

---
 lib/executor/executor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index f9c48ef..f6be950 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -24,6 +24,10 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 	maxTime := transactions[len(transactions)-1].Timestamp
 	length := (maxTime - startTime) / updateInterval
+	if length < 0 {
+		// The start lies after the last transaction
+		length = 0
+	}
 	snapshots := make([]*ui.Int, 0, length)
 
 	return &Execution{
-- 
2.43.0

