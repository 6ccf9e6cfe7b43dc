package main

// Added to the program by the checks (go build -overlay): answers what the program reads from its data file.

import (
	"bufio"
	"encoding/json"
	"math/big"
	"os"
	ui "uniswap-simulator/uint256"
)

func verifInt(x *ui.Int) string {
	if x == nil {
		return "nil"
	}
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(x[i]))
	}
	if x[3]>>63 == 1 {
		r.Sub(r, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return r.String()
}

func init() {
	if os.Getenv("VERIF_READER_LOOP") == "" {
		return
	}
	out := json.NewEncoder(os.Stdout)
	os.Stdout = os.Stderr
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		l := []map[string]interface{}{}
		for _, t := range getTransactions() {
			l = append(l, map[string]interface{}{"type": t.Type, "id": t.ID, "ts": t.Timestamp, "a": verifInt(t.Amount), "a0": verifInt(t.Amount0),
				"a1": verifInt(t.Amount1), "price": verifInt(t.SqrtPriceX96), "tick": t.Tick, "lo": t.TickLower, "hi": t.TickUpper, "x96": t.UseX96})
		}
		out.Encode(l)
	}
	os.Exit(0)
}
