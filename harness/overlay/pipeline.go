package main

// Added to the program by the checks (go build -overlay): reports on runs whose strategies are worth given amounts, all at once.

import (
	"bufio"
	"encoding/json"
	"math/big"
	"os"
	"sync"
	"uniswap-simulator/lib/executor"
	ppool "uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/result"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

type verifScripted struct {
	p *ppool.Pool
	v []*ui.Int
	n int
}

func (s *verifScripted) next() (*ui.Int, *ui.Int) {
	x := s.v[s.n]
	s.n++
	return x.Clone(), new(ui.Int)
}
func (s *verifScripted) Init() (*ui.Int, *ui.Int)       { return s.next() }
func (s *verifScripted) GetAmounts() (*ui.Int, *ui.Int) { return s.next() }
func (s *verifScripted) BurnAll() (*ui.Int, *ui.Int)    { return s.next() }
func (s *verifScripted) Rebalance() (*ui.Int, *ui.Int)  { return new(ui.Int), new(ui.Int) }
func (s *verifScripted) GetPool() *ppool.Pool           { return s.p }
func (s *verifScripted) MakeSnapshot()                  {}

func init() {
	if os.Getenv("VERIF_PIPELINE_LOOP") == "" {
		return
	}
	out := json.NewEncoder(os.Stdout)
	os.Stdout = os.Stderr
	in := bufio.NewReader(os.Stdin)
	dec := json.NewDecoder(in)
	one := ui.Int{0, 1 << 32, 0, 0}
	out.Encode([]int{}) // ready
	for {
		var runs [][]string
		if dec.Decode(&runs) != nil {
			os.Exit(0)
		}
		results := make([]result.RunResult, len(runs))
		var wg sync.WaitGroup
		for k, words := range runs {
			s := &verifScripted{p: ppool.NewPool("a", "b", 500, &one)}
			for _, w := range words {
				b, _ := new(big.Int).SetString(w, 10)
				var x ui.Int
				for i := 0; i < 4; i++ {
					x[i] = new(big.Int).And(new(big.Int).Rsh(b, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64()
				}
				s.v = append(s.v, &x)
			}
			// the first value at the start, one at every hour, the last when liquidating; a single value: never started
			var txs []ent.Transaction
			begin := 0
			for i := 0; i+1 < len(words); i++ {
				txs = append(txs, ent.Transaction{Type: "Nothing", Timestamp: 3600 * i})
			}
			if len(txs) == 0 {
				txs = []ent.Transaction{{Type: "Nothing", Timestamp: 0}}
				begin = 3600
			}
			wg.Add(1)
			go runAndAppend(&wg, executor.CreateExecution(s, begin, 90000000000000, 3600*24*365*100, 3600, 3600, txs), k, 77+k, 86400, 7200, results)
		}
		wg.Wait()
		for k := range results {
			// the number of the run says nothing
			if results[k].MultiplierX10 == 77+k {
				results[k].MultiplierX10 = 77
			}
		}
		if out.Encode(results) != nil {
			os.Exit(3)
		}
	}
}
