package main

import (
	"math/big"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/strategy"
	ui "uniswap-simulator/uint256"
)

func init() { suites["strat"] = func() Suite { return &stratSuite{consts: newConstants()} } }

func newStrategy(kind string, a0, a1 *ui.Int, p *pool.Pool, x, y int) strategy.Strategy {
	switch kind {
	case "none":
		return strategy.NewNoProvisionStrategy(a0, a1, p)
	case "v2":
		return strategy.NewV2Strategy(a0, a1, p)
	case "constant":
		return strategy.NewConstantIntervalStrategy(a0, a1, p, x)
	case "price":
		return strategy.NewIntervalAroundPriceStrategy(a0, a1, p, x)
	case "swap":
		return strategy.NewIntervalAroundPriceAndSwapStrategy(a0, a1, p, x)
	case "two":
		return strategy.NewTwoIntervalAroundPriceStrategy(a0, a1, p, x, y)
	case "average":
		return strategy.NewIntervalAroundAverageStrategy(a0, a1, p, x, y)
	case "fill":
		return strategy.NewFillUpStrategy(a0, a1, p, x)
	case "limit":
		return strategy.NewLimitOrderStrategy(a0, a1, p, x)
	case "bands":
		return strategy.NewBollingerBandsStrategy(a0, a1, p, x, y)
	case "bandsfill":
		return strategy.NewBollingerBandsFillUpStrategy(a0, a1, p, x, y)
	case "vol":
		return strategy.NewVolatilitySizedIntervalStrategy(a0, a1, p, x, y)
	}
	panic("verif: no strategy " + kind)
}

// keyOf learns the key of a range in the position map from a pool of its own.
var keyCache = map[rng]string{}

func keyOf(r rng) string {
	k, known := keyCache[r]
	if !known {
		attempt(func() {
			p := pool.NewPool("token0", "token1", 500, fromBig(new(big.Int).Lsh(big.NewInt(1), 96)))
			p.MintStrategy(r.l, r.u, ui.NewInt(1))
			for key := range positionsOf(p) {
				k = key
			}
		})
		keyCache[r] = k
	}
	return k
}

// observeRanges describes a pool; extra: positions of other ranges that hold something.
func observeRanges(p *pool.Pool, ranges []rng, cand map[int]bool) (Rec, int) {
	h := &handle{p: p, keys: map[rng]string{}}
	named := map[string]bool{}
	for _, r := range ranges {
		if k := keyOf(r); k != "" {
			h.keys[r] = k
			named[k] = true
		}
	}
	attempt(func() {
		for _, t := range scanUp(p) {
			cand[t] = true
		}
	})
	o, _ := observePool(h, cand)
	extra := 0
	for k, i := range positionsOf(p) {
		if !named[k] && !(i.Liquidity.IsZero() && i.TokensOwed0.IsZero() && i.TokensOwed1.IsZero()) {
			extra++
		}
	}
	return o, extra
}

func rangesOf(op Rec) (r []rng) {
	for _, x := range op.list("ranges") {
		t := x.(map[string]interface{})["#tup"].([]interface{})
		r = append(r, rng{int(toBig(t[0]).Int64()), int(toBig(t[1]).Int64())})
	}
	return
}

// applyMarket makes one request of the market.
func applyMarket(p *pool.Pool, m Rec, args *keeper) {
	amt, amt2 := fromBig(m.big("amt")), fromBig(m.big("amt2"))
	zero := new(ui.Int)
	for _, x := range []*ui.Int{amt, amt2, zero} {
		args.add(x)
	}
	in, out := p.Token0, p.Token1
	if !m.bool("zfo") {
		in, out = out, in
	}
	switch m.str("kind") {
	case "mint":
		p.Mint(m.int("l"), m.int("u"), amt)
	case "burn":
		p.Burn(m.int("l"), m.int("u"), amt)
	case "flash":
		p.Flash(amt, amt2)
	case "swapin":
		p.ExactInputSwap(amt, in, zero)
	case "swapout":
		neg := fromBig(new(big.Int).Neg(m.big("amt")))
		args.add(neg)
		p.ExactOutputSwap(neg, out, zero)
	case "none":
	default:
		panic("verif: no market request " + m.str("kind"))
	}
}

type stratSuite struct {
	s      strategy.Strategy
	base   *pool.Pool
	cand   map[int]bool
	consts *constants
	args   keeper
	old    keeper
}

func (s *stratSuite) Reset() {
	s.s, s.base = nil, nil
	s.cand = map[int]bool{}
	s.args, s.old = keeper{}, keeper{}
}

func (s *stratSuite) Do(op Rec) Rec {
	setPhase(1)
	var r0, r1 *ui.Int
	m := Rec(op["m"].(map[string]interface{}))
	ok := attempt(func() {
		switch op.str("kind") {
		case "new":
			s.base = pool.NewPool("token0", "token1", op.int("fee"), fromBig(op.big("price")))
			for _, x := range op.list("mints") {
				m := Rec(x.(map[string]interface{}))
				s.cand[m.int("l")], s.cand[m.int("u")] = true, true
				applyMarket(s.base, m, &s.args)
			}
			a0, a1 := fromBig(op.big("a0")), fromBig(op.big("a1"))
			s.args.add(a0)
			s.args.add(a1)
			s.s = newStrategy(op.str("name"), a0, a1, s.base, op.int("x"), op.int("y"))
		case "start":
			r0, r1 = s.s.Init()
		case "rebalance":
			r0, r1 = s.s.Rebalance()
		case "burnall":
			r0, r1 = s.s.BurnAll()
		case "amounts":
			r0, r1 = s.s.GetAmounts()
		case "snapshot":
			s.s.MakeSnapshot()
		default:
			s.cand[m.int("l")], s.cand[m.int("u")] = true, true
			applyMarket(s.s.GetPool(), m, &s.args)
		}
	})
	setPhase(2)
	has := r0 != nil && r1 != nil
	s.old.add(r0)
	s.old.add(r1)
	i0, i1 := intField(s.s, "Amount0"), intField(s.s, "Amount1")
	var rs = rangesOf(op)
	for _, r := range rs {
		s.cand[r.l], s.cand[r.u] = true, true
	}
	p, extra := observeRanges(s.s.GetPool(), rs, s.cand)
	base, baseExtra := observeRanges(s.base, nil, s.cand)
	if baseExtra > 0 {
		base["pos"] = mp([][2]interface{}{{tup(N(0), N(0)), Rec{"liq": N(baseExtra), "l0": N(0), "l1": N(0), "w0": N(0), "w1": N(0)}}})
	}
	ans := Rec{"ok": ok, "hang": false, "has": has, "r0": S(r0), "r1": S(r1), "hasIdle": i0 != nil && i1 != nil, "i0": S(i0), "i1": S(i1),
		"p": p, "extra": extra, "base": base, "argsKept": s.args.kept(), "oldKept": s.old.kept()}
	// where a limit order is said to lie
	lim, has := s.s.(interface {
		GetCurrentLimitTick() int
		GetDirection() bool
	})
	ans["hasLim"], ans["lim"], ans["dir"] = has, 0, false
	if has {
		ans["lim"], ans["dir"] = lim.GetCurrentLimitTick(), lim.GetDirection()
	}
	s.args.restore()
	s.args.trim(100)
	s.old.restore()
	s.old.trim(40)
	var ts []int
	for t := range s.cand {
		ts = append(ts, t)
	}
	ans["constsKept"] = s.consts.intact(ts)
	return ans
}
