package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/position"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

func init() { suites["pool"] = func() Suite { return &poolSuite{consts: newConstants()} } }

type rng struct{ l, u int }

// one pool under observation; which key of the position map belongs to which range is learned from mints
type handle struct {
	p    *pool.Pool
	keys map[rng]string
}

type poolSuite struct {
	h      map[int]*handle
	cand   map[int]bool
	consts *constants
	old    keeper
	flip   bool
}

func (s *poolSuite) Reset() {
	s.h = map[int]*handle{}
	s.cand = map[int]bool{}
	s.old = keeper{}
}

func positionsOf(p *pool.Pool) map[string]*position.Info {
	r := map[string]*position.Info{}
	it := reflect.ValueOf(p.Positions).MapRange()
	for it.Next() {
		switch i := it.Value().Interface().(type) {
		case *position.Info:
			r[fmt.Sprint(it.Key().Interface())] = i
		case position.Info:
			r[fmt.Sprint(it.Key().Interface())] = &i
		}
	}
	return r
}

// scanUp lists the initialized ticks found by searching upwards from below the lowest tick.
func scanUp(p *pool.Pool) (r []int) {
	t := tickmath.MinTick - 1
	for n := 0; n < 100000 && t < tickmath.MaxTick; n++ {
		next, init := p.TickData.NextInitializedTickWithinOneWord(t, false)
		if next <= t {
			return append(r, -1<<40)
		}
		if init {
			r = append(r, next)
		}
		t = next
	}
	return
}

func observeTicks(p *pool.Pool, cand map[int]bool) interface{} {
	var ts []int
	for t := range cand {
		ts = append(ts, t)
	}
	sort.Ints(ts)
	var out [][2]interface{}
	for _, i := range ts {
		attempt(func() {
			t := p.TickData.GetTick(i)
			out = append(out, [2]interface{}{N(i), Rec{"net": S(t.LiquidityNet), "gross": U(t.LiquidityGross),
				"o0": U(t.FeeGrowthOutside0X128), "o1": U(t.FeeGrowthOutside1X128)}})
		})
	}
	return mp(out)
}

func observePool(h *handle, cand map[int]bool) (Rec, int) {
	p := h.p
	ps := positionsOf(p)
	var rs []rng
	for r := range h.keys {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].l < rs[j].l || rs[i].l == rs[j].l && rs[i].u < rs[j].u })
	var pos [][2]interface{}
	known := 0
	for _, r := range rs {
		i := ps[h.keys[r]]
		if i == nil {
			continue
		}
		known++
		pos = append(pos, [2]interface{}{tup(N(r.l), N(r.u)), Rec{"liq": U(i.Liquidity), "l0": U(i.FeeGrowthInside0LastX128),
			"l1": U(i.FeeGrowthInside1LastX128), "w0": U(i.TokensOwed0), "w1": U(i.TokensOwed1)}})
	}
	return Rec{"fee": N(p.Fee), "sp": N(p.TickSpacing), "price": U(p.SqrtRatioX96), "tick": N(p.TickCurrent), "liq": U(p.Liquidity),
		"fg0": U(p.FeeGrowthGlobal0X128), "fg1": U(p.FeeGrowthGlobal1X128), "ticks": observeTicks(p, cand), "pos": mp(pos)}, len(ps) - known
}

func (s *poolSuite) observe(op Rec, ans Rec) Rec {
	setPhase(2)
	var states, extra [][2]interface{}
	var hs []int
	for i := range s.h {
		hs = append(hs, i)
	}
	sort.Ints(hs)
	var scan []interface{}
	if h := s.h[op.int("h")]; h != nil {
		ok := attempt(func() {
			for _, t := range scanUp(h.p) {
				scan = append(scan, N(t))
				s.cand[t] = true
			}
		})
		if !ok {
			scan = append(scan, N(-1<<41))
		}
	}
	for _, i := range hs {
		st, ex := observePool(s.h[i], s.cand)
		states = append(states, [2]interface{}{N(i), st})
		extra = append(extra, [2]interface{}{N(i), N(ex)})
	}
	ans["states"], ans["extra"] = mp(states), mp(extra)
	ans["scan"] = mp([][2]interface{}{{N(op.int("h")), set(scan)}})
	ans["oldKept"] = s.old.kept()
	s.old.restore()
	s.old.trim(200)
	var ts []int
	for t := range s.cand {
		ts = append(ts, t, t-1, t+1)
	}
	for _, h := range s.h {
		for d := -600; d <= 600; d++ {
			ts = append(ts, h.p.TickCurrent+d)
		}
	}
	ans["constsKept"] = s.consts.intact(ts)
	return ans
}

func (s *poolSuite) Do(op Rec) Rec {
	setPhase(1)
	kind := op.str("kind")
	h := s.h[op.int("h")]
	l, u := op.int("l"), op.int("u")
	amt, amt2, limit := fromBig(op.big("amt")), fromBig(op.big("amt2")), fromBig(op.big("limit"))
	var args keeper
	args.add(amt)
	args.add(amt2)
	args.add(limit)
	var r0, r1 *ui.Int
	ok := false
	if h == nil && kind != "new" {
		panic("request for a pool that does not exist")
	}
	before := map[string]*position.Info{}
	if h != nil {
		before = positionsOf(h.p)
	}
	token := func(zero bool) string {
		if zero {
			return h.p.Token0
		}
		return h.p.Token1
	}
	switch kind {
	case "new":
		var p *pool.Pool
		ok = attempt(func() { p = pool.NewPool("token0", "token1", op.int("fee"), amt) })
		if ok {
			s.h[op.int("h2")] = &handle{p: p, keys: map[rng]string{}}
			s.old.add(amt)
		}
	case "clone":
		var p *pool.Pool
		ok = attempt(func() { p = h.p.Clone() })
		if ok {
			keys := map[rng]string{}
			for r, k := range h.keys {
				keys[r] = k
			}
			s.h[op.int("h2")] = &handle{p: p, keys: keys}
		}
	case "mints":
		ok = attempt(func() { r0, r1 = h.p.MintStrategy(l, u, amt) })
	case "burns":
		ok = attempt(func() { r0, r1 = h.p.BurnStrategy(l, u, amt) })
	case "collect":
		ok = attempt(func() { r0, r1 = h.p.CollectStrategy(l, u) })
	case "mint":
		ok = attempt(func() { h.p.Mint(l, u, amt) })
	case "burn":
		ok = attempt(func() { h.p.Burn(l, u, amt) })
	case "flash":
		ok = attempt(func() { h.p.Flash(amt, amt2) })
	case "swapin":
		ok = attempt(func() { r0, r1 = h.p.ExactInputSwap(amt, token(op.bool("zfo")), limit) })
	case "swapout":
		neg := fromBig(new(big.Int).Neg(op.big("amt")))
		args.add(neg)
		// the token bought
		ok = attempt(func() { r0, r1 = h.p.ExactOutputSwap(neg, token(!op.bool("zfo")), limit) })
	default:
		panic("unknown request " + kind)
	}
	if kind != "new" && kind != "clone" {
		s.cand[l], s.cand[u] = true, true
	}
	if h != nil && (kind == "mints" || kind == "burns") && ok {
		if _, known := h.keys[rng{l, u}]; !known {
			var fresh []string
			for k := range positionsOf(h.p) {
				if before[k] == nil {
					fresh = append(fresh, k)
				}
			}
			if len(fresh) == 1 {
				h.keys[rng{l, u}] = fresh[0]
			}
		}
	}
	s.old.add(r0)
	s.old.add(r1)
	ans := Rec{"ok": ok, "hang": false, "r0": S(r0), "r1": S(r1), "argsKept": args.kept()}
	if s.flip {
		ans["ok"] = !ok
	}
	return s.observe(op, ans)
}
