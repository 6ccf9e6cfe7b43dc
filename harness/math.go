package main

import (
	"math/big"
	"uniswap-simulator/lib/fullmath"
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

func init() { suites["math"] = func() Suite { return &mathSuite{consts: newConstants()} } }

type mathSuite struct {
	consts *constants
	n      int
}

func (s *mathSuite) Reset() {}

// a stretch of ticks: prices and the ticks of the prices and of the prices just below (MIN_TICK-1: refused)
func (s *mathSuite) ticks(from, n int) Rec {
	var r, at, below []interface{}
	tickOf := func(p *ui.Int) interface{} {
		t := -887273
		attempt(func() { t = tickmath.TM.GetTickAtSqrtRatio(p) })
		return N(t)
	}
	ok := attempt(func() {
		for i := from; i < from+n; i++ {
			p := tickmath.TM.GetSqrtRatioAtTick(i)
			r = append(r, U(p))
			at = append(at, tickOf(p.Clone()))
			below = append(below, tickOf(fromBig(bigOf(p).Sub(bigOf(p), big.NewInt(1)))))
		}
	})
	return Rec{"ok": ok, "hang": false, "r": nn(r), "at": nn(at), "below": nn(below), "constsKept": s.consts.kept()}
}

func (s *mathSuite) Do(op Rec) Rec {
	setPhase(1)
	if op.str("kind") == "ticks" {
		return s.ticks(op.int("from"), op.int("n"))
	}
	ba, bb, bc, bd, be := op.big("a"), op.big("b"), op.big("c"), op.big("d"), op.big("e")
	a, b, c, d, e := fromBig(ba), fromBig(bb), fromBig(bc), fromBig(bd), fromBig(be)
	up := op.bool("up")
	var args keeper
	for _, x := range []*ui.Int{a, b, c, d, e} {
		args.add(x)
	}
	var r []interface{}
	add := func(xs ...*ui.Int) {
		for _, x := range xs {
			r = append(r, U(x))
		}
	}
	ok := attempt(func() {
		switch op.str("kind") {
		case "muldiv":
			add(fullmath.MulDiv(a, b, c))
		case "muldivup":
			add(fullmath.MulDivRoundingUp(a, b, c))
		case "amt0":
			add(sqrtprice_math.GetAmount0Delta(a, b, c, up))
		case "amt1":
			add(sqrtprice_math.GetAmount1Delta(a, b, c, up))
		case "amt0r":
			r = append(r, S(sqrtprice_math.GetAmount0DeltaRounded(a, b, c)))
		case "amt1r":
			r = append(r, S(sqrtprice_math.GetAmount1DeltaRounded(a, b, c)))
		case "nextin":
			add(sqrtprice_math.GetNextSqrtPriceFromInput(a, b, c, up))
		case "nextout":
			add(sqrtprice_math.GetNextSqrtPriceFromOutput(a, b, c, up))
		case "step":
			p, i, o, f := swapmath.ComputeSwapStep(a, b, c, d, int(be.Int64()))
			add(p, i, o, f)
		case "liq":
			add(la.GetLiquidityForAmount(a, b, c, d, e))
		case "amounts":
			x, y := la.GetAmountsForLiquidity(a, b, c, d)
			add(x, y)
		case "afford":
			l, u := int(bb.Int64()), int(bc.Int64())
			pa, pb := tickmath.TM.GetSqrtRatioAtTick(l), tickmath.TM.GetSqrtRatioAtTick(u)
			liq := la.GetLiquidityForAmount(a, pa, pb, d, e)
			add(liq)
			if !liq.IsZero() {
				p := pool.NewPool("0", "1", 500, a.Clone())
				x, y := p.MintStrategy(l, u, liq)
				add(x, y)
				x, y = p.BurnStrategy(l, u, liq)
				add(x, y)
				x, y = la.GetAmountsForLiquidity(p.SqrtRatioX96, pa, pb, liq)
				add(x, y)
			}
		case "sqrt":
			add(tickmath.TM.GetSqrtRatioAtTick(int(ba.Int64())))
		case "tickof":
			r = append(r, N(tickmath.TM.GetTickAtSqrtRatio(a)))
		case "round":
			r = append(r, N(tickmath.Round(int(ba.Int64()), int(bb.Int64()))))
		case "ceil":
			r = append(r, N(tickmath.Ceil(int(ba.Int64()), int(bb.Int64()))))
		case "floor":
			r = append(r, N(tickmath.Floor(int(ba.Int64()), int(bb.Int64()))))
		case "msb":
			r = append(r, N(int(tickmath.MostSignificantBit(a))))
		default:
			panic("unknown request")
		}
	})
	if !ok {
		r = nil
	}
	s.n++
	var ts []int
	if s.n%16 == 0 {
		for t := -2000; t < 2000; t++ {
			ts = append(ts, t)
		}
	}
	kept := true
	if s.n%16 == 0 {
		kept = s.consts.intact(ts)
	} else {
		kept = s.consts.kept()
	}
	return Rec{"ok": ok, "hang": false, "r": nn(r), "argsKept": args.kept(), "constsKept": kept}
}
