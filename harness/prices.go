package main

import (
	"uniswap-simulator/lib/prices"
	ui "uniswap-simulator/uint256"
)

func init() { suites["prices"] = func() Suite { return &priceSuite{consts: newConstants()} } }

type priceSuite struct {
	consts *constants
	p      *prices.Prices
	n      int
	old    keeper
}

func (s *priceSuite) Reset() { s.p, s.n, s.old = nil, 0, keeper{} }

func (s *priceSuite) Do(op Rec) Rec {
	setPhase(1)
	var taken []interface{}
	var avg, vol *ui.Int
	argsKept := true
	ok := attempt(func() {
		if op.str("kind") == "new" {
			s.n, s.old = op.int("n"), keeper{}
			s.p = prices.NewPrices(s.n)
		}
		for _, x := range op.list("ps") {
			live := fromBig(toBig(x))
			before := *live
			taken = append(taken, attempt(func() { s.p.Add(live) }))
			argsKept = argsKept && *live == before
			// the live price moves on
			live.SetAllOne()
		}
		avg = s.p.Average()
		vol = new(ui.Int)
		if s.n > 1 {
			vol = s.p.Volatility()
		}
	})
	r := Rec{"ok": ok, "hang": false, "taken": nn(taken), "avg": U(avg), "vol": U(vol), "argsKept": argsKept,
		"oldKept": s.old.kept(), "constsKept": s.consts.kept()}
	s.old.restore()
	if ok {
		// results belong to the caller
		for _, x := range []*ui.Int{avg, vol} {
			if s.n%2 == 0 {
				x.SetAllOne()
			}
			s.old.add(x)
		}
		s.old.trim(6)
	}
	return r
}
