package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sync"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/strategy"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

func init() { suites["exec"] = func() Suite { return &execSuite{consts: newConstants()} } }

type execSuite struct {
	consts *constants
	cand   map[int]bool
}

func (s *execSuite) Reset() { s.cand = map[int]bool{} }

// recorder notes every call of a strategy and the state of its pool just before.
type recorder struct {
	strategy.Strategy
	calls []interface{}
}

func (r *recorder) note(what string, f func() (*ui.Int, *ui.Int)) (*ui.Int, *ui.Int) {
	p := r.Strategy.GetPool()
	ts := scanUp(p)
	gross, moment := B(new(big.Int)), B(new(big.Int))
	func() {
		g, m := new(big.Int), new(big.Int)
		for _, i := range ts {
			attempt(func() {
				t := p.TickData.GetTick(i)
				g.Add(g, bigOf(t.LiquidityGross))
				x := signedBig(t.LiquidityNet)
				m.Add(m, x.Mul(x, big.NewInt(int64(i))))
			})
		}
		gross, moment = B(g), B(m)
	}()
	c := Rec{"what": what, "price": U(p.SqrtRatioX96), "tick": N(p.TickCurrent), "liq": U(p.Liquidity),
		"fg0": U(p.FeeGrowthGlobal0X128), "fg1": U(p.FeeGrowthGlobal1X128), "n": N(len(ts)), "gross": gross, "moment": moment}
	r0, r1 := f()
	c["r0"], c["r1"], c["after"] = S(r0), S(r1), U(p.SqrtRatioX96)
	r.calls = append(r.calls, c)
	return r0, r1
}
func (r *recorder) Init() (*ui.Int, *ui.Int)       { return r.note("start", r.Strategy.Init) }
func (r *recorder) Rebalance() (*ui.Int, *ui.Int)  { return r.note("rebalance", r.Strategy.Rebalance) }
func (r *recorder) BurnAll() (*ui.Int, *ui.Int)    { return r.note("burnall", r.Strategy.BurnAll) }
func (r *recorder) GetAmounts() (*ui.Int, *ui.Int) { return r.note("amounts", r.Strategy.GetAmounts) }
func (r *recorder) MakeSnapshot() {
	r.note("snapshot", func() (*ui.Int, *ui.Int) { r.Strategy.MakeSnapshot(); return new(ui.Int), new(ui.Int) })
}

// stub answers from a script; it trades first when it starts or rebalances.
type stub struct {
	p      *pool.Pool
	script []said
	n      int
}
type said struct {
	a0, a1 *ui.Int
	trade  *big.Int
}

func (s *stub) next(trades bool) (*ui.Int, *ui.Int) {
	x := s.script[s.n%len(s.script)]
	s.n++
	if trades && x.trade.Sign() != 0 {
		token := "token0"
		if x.trade.Sign() < 0 {
			token = "token1"
		}
		s.p.ExactInputSwap(fromBig(new(big.Int).Abs(x.trade)), token, new(ui.Int))
	}
	return x.a0.Clone(), x.a1.Clone()
}
func (s *stub) Init() (*ui.Int, *ui.Int)       { return s.next(true) }
func (s *stub) Rebalance() (*ui.Int, *ui.Int)  { return s.next(true) }
func (s *stub) BurnAll() (*ui.Int, *ui.Int)    { return s.next(false) }
func (s *stub) GetAmounts() (*ui.Int, *ui.Int) { return s.next(false) }
func (s *stub) GetPool() *pool.Pool            { return s.p }
func (s *stub) MakeSnapshot()                  {}

type outcome struct {
	values []interface{}
	raw    []*ui.Int
	s      strategy.Strategy
}

func (s *execSuite) Do(op Rec) Rec {
	setPhase(1)
	var args keeper
	word := func(m Rec, k string) *ui.Int {
		w := fromBig(m.big(k))
		args.add(w)
		return w
	}
	var base *pool.Pool
	var txs, before []transaction.Transaction
	var plans []Rec
	var outs []interface{}
	rs := rangesOf(op)
	for _, r := range rs {
		s.cand[r.l], s.cand[r.u] = true, true
	}
	var a0, a1 *ui.Int
	create := func(r Rec, wrap func(strategy.Strategy) strategy.Strategy) *executor.Execution {
		var st strategy.Strategy
		if r.str("name") == "stub" {
			x := &stub{p: base.Clone()}
			for _, y := range r.list("script") {
				t := y.(map[string]interface{})["#tup"].([]interface{})
				x.script = append(x.script, said{fromBig(toBig(t[0])), fromBig(toBig(t[1])), toBig(t[2])})
			}
			st = x
		} else {
			st = newStrategy(r.str("name"), a0, a1, base, r.int("x"), r.int("y"))
		}
		return executor.CreateExecution(wrap(st), r.int("begin"), r.int("end"), r.int("upd"), r.int("snap"), r.int("prices"), txs)
	}
	plain := func(s strategy.Strategy) strategy.Strategy { return s }
	values := func(e *executor.Execution) (l []interface{}) {
		for _, v := range e.AmountUSDSnapshots {
			l = append(l, U(v))
		}
		return nn(l)
	}
	full := func(p *pool.Pool) (Rec, int) { return observeRanges(p, rs, s.cand) }
	ok := attempt(func() {
		base = pool.NewPool("token0", "token1", op.int("fee"), fromBig(op.big("price")))
		for _, x := range op.list("mints") {
			m := Rec(x.(map[string]interface{}))
			s.cand[m.int("l")], s.cand[m.int("u")] = true, true
			applyMarket(base, m, &args)
		}
		for i, x := range op.list("txs") {
			t := Rec(x.(map[string]interface{}))
			l, u := t.int("l"), t.int("u")
			s.cand[l], s.cand[u] = true, true
			txs = append(txs, transaction.Transaction{Type: t.str("kind"), ID: fmt.Sprintf("0x%x", i/3), Timestamp: t.int("ts"), TickLower: l, TickUpper: u,
				Amount: word(t, "amt"), Amount0: word(t, "a0"), Amount1: word(t, "a1"), SqrtPriceX96: word(t, "amt"), Tick: l + u, UseX96: l%2 == 0})
		}
		before = append(before, txs...)
		for _, x := range op.list("runs") {
			plans = append(plans, Rec(x.(map[string]interface{})))
		}
		a0, a1 = word(plans[0], "a0"), word(plans[0], "a1")
		for _, r := range plans {
			rec := &recorder{}
			e := create(r, func(s strategy.Strategy) strategy.Strategy { rec.Strategy = s; return rec })
			e.Run()
			p, extra := full(rec.Strategy.GetPool())
			v := values(e)
			// once more
			e2 := create(r, plain)
			e2.Run()
			p2, x2 := full(e2.Strategy.GetPool())
			same := reflect.DeepEqual(v, values(e2)) && reflect.DeepEqual(p, p2) && extra == x2 && reflect.DeepEqual(v, values(e))
			outs = append(outs, Rec{"calls": nn(rec.calls), "values": v, "p": p, "extra": extra, "same": same, "sameTogether": true})
		}
		if op.bool("together") {
			var es []*executor.Execution
			var wg sync.WaitGroup
			// created one after the other while the earlier ones run, as the program does
			oks := make([]bool, 2*len(plans))
			for k := 0; k < 2*len(plans); k++ {
				k, e := k, create(plans[k%len(plans)], plain)
				es = append(es, e)
				wg.Add(1)
				go func() {
					defer wg.Done()
					oks[k] = attempt(e.Run)
				}()
			}
			wg.Wait()
			for k, e := range es {
				o := outs[k%len(plans)].(Rec)
				p, extra := full(e.Strategy.GetPool())
				if !oks[k] || !reflect.DeepEqual(o["values"], values(e)) || !reflect.DeepEqual(o["p"], p) || o["extra"] != extra {
					o["sameTogether"] = false
				}
			}
		}
	})
	setPhase(2)
	bp, baseExtra := observeRanges(base, nil, s.cand)
	if baseExtra > 0 {
		bp["liq"] = N(-1)
	}
	kept := len(txs) == len(before)
	for i := range txs {
		kept = kept && txs[i] == before[i]
	}
	argsKept := args.kept()
	kept = kept && argsKept
	var ts []int
	for t := range s.cand {
		ts = append(ts, t)
	}
	if len(s.cand) > 3000 {
		s.cand = map[int]bool{}
	}
	return Rec{"ok": ok, "hang": false, "outs": nn(outs), "base": bp, "txsKept": kept, "argsKept": argsKept, "constsKept": s.consts.intact(ts)}
}
