package main

import (
	"sort"
	"uniswap-simulator/lib/tickdata"
	ui "uniswap-simulator/uint256"
)

func init() { suites["ticks"] = func() Suite { return &tickSuite{consts: newConstants()} } }

type tickSuite struct {
	consts *constants
	td     *tickdata.TickData
	known  map[int]bool
}

func (s *tickSuite) Reset() { s.td, s.known = tickdata.NewTickData(10), map[int]bool{} }

func (s *tickSuite) Do(op Rec) Rec {
	setPhase(1)
	if op.bool("fresh") {
		s.td, s.known = tickdata.NewTickData(op.int("sp")), map[int]bool{}
	}
	var args keeper
	word := func(r Rec, k string) *ui.Int {
		x := fromBig(r.big(k))
		args.add(x)
		return x
	}
	var cleared, net, down, up, inside []interface{}
	ok := attempt(func() {
		for _, x := range op.list("acts") {
			a := Rec(x.(map[string]interface{}))
			idx := a.int("idx")
			s.known[idx] = true
			switch a.int("what") {
			case 0, 1:
				cleared = append(cleared, s.td.UpdateTick(idx, a.int("cur"), word(a, "delta"), word(a, "fg0"), word(a, "fg1"), a.int("what") == 1))
			case 2:
				s.td.ClearTick(idx)
			case 3:
				net = append(net, S(s.td.Cross(idx, word(a, "fg0"), word(a, "fg1"))))
			}
		}
		for _, x := range op.list("qs") {
			q := int(toBig(x).Int64())
			t, f := s.td.NextInitializedTickWithinOneWord(q, true)
			down = append(down, tup(t, f))
			t, f = s.td.NextInitializedTickWithinOneWord(q, false)
			up = append(up, tup(t, f))
		}
		for _, x := range op.list("inside") {
			r := Rec(x.(map[string]interface{})).list("#tup")
			l, u := int(toBig(r[0]).Int64()), int(toBig(r[1]).Int64())
			x, y := s.td.GetFeeGrowthInside(l, u, op.int("cur"), word(op, "fg0"), word(op, "fg1"))
			inside = append(inside, tup(U(x), U(y)))
		}
	})
	setPhase(2)
	ks := []int{}
	for k := range s.known {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var ticks [][2]interface{}
	for _, k := range ks {
		var t tickdata.Tick
		if attempt(func() { t = s.td.GetTick(k) }) {
			ticks = append(ticks, [2]interface{}{k, Rec{"net": S(t.LiquidityNet), "gross": S(t.LiquidityGross),
				"o0": U(t.FeeGrowthOutside0X128), "o1": U(t.FeeGrowthOutside1X128)}})
		}
	}
	return Rec{"ok": ok, "hang": false, "cleared": nn(cleared), "net": nn(net), "down": nn(down), "up": nn(up), "ticks": mp(ticks),
		"inside": nn(inside), "argsKept": args.kept(), "constsKept": s.consts.kept()}
}
