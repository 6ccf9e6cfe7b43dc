package main

import (
	"bufio"
	"encoding/json"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

func init() { suites["tx"] = func() Suite { return newTxSuite() } }

type txSuite struct {
	consts *constants
	dir    string
	cmd    *exec.Cmd
	in     *bufio.Writer
	out    *bufio.Reader
}

func newTxSuite() *txSuite {
	s := &txSuite{consts: newConstants()}
	if r := os.Getenv("VERIF_READER"); r != "" {
		s.dir, _ = os.MkdirTemp(os.Getenv("HARNESS_CWD"), "reader")
		os.Mkdir(filepath.Join(s.dir, "data"), 0755)
		s.cmd = exec.Command(r)
		s.cmd.Dir = s.dir
		s.cmd.Env = append(os.Environ(), "VERIF_READER_LOOP=1")
		w, _ := s.cmd.StdinPipe()
		o, _ := s.cmd.StdoutPipe()
		if s.cmd.Start() != nil {
			s.cmd = nil
		} else {
			s.in, s.out = bufio.NewWriter(w), bufio.NewReaderSize(o, 1<<20)
		}
	}
	return s
}
func (s *txSuite) Reset() {}

var typeNames = []string{"Swap", "Mint", "Burn", "Flash"}

func typeIndex(t string) int {
	for i, n := range typeNames {
		if n == t {
			return i
		}
	}
	return -1
}

var decimal = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)

func field(name string, v interface{}) Rec {
	f := Rec{"name": name, "sort": "bad", "v": 0, "text": nn(nil)}
	amount := map[string]bool{"amount": true, "amount0": true, "amount1": true, "sqrtPriceX96": true}[name]
	switch x := v.(type) {
	case json.Number:
		if b, ok := new(big.Int).SetString(string(x), 10); ok {
			f["sort"], f["v"] = "num", B(b)
		}
	case string:
		if b, ok := new(big.Int).SetString(x, 10); amount && ok && decimal.MatchString(x) {
			f["sort"], f["v"] = "dec", B(b)
		} else if !amount {
			f["sort"], f["text"] = "text", ints([]byte(x))
		}
	}
	return f
}
func dec(s string) interface{} {
	if s == "" {
		return 0
	}
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return itfBig{"1"}
	}
	return B(b)
}

func (s *txSuite) Do(op Rec) Rec {
	setPhase(1)
	var args keeper
	var txs []transaction.Transaction
	for _, x := range op.list("txs") {
		t := Rec(x.(map[string]interface{}))
		word := func(k string) *ui.Int {
			w := fromBig(t.big(k))
			args.add(w)
			return w
		}
		var id []byte
		for _, c := range t.list("id") {
			id = append(id, byte(toBig(c).Int64()))
		}
		tx := transaction.Transaction{Type: typeNames[t.int("typ")], ID: string(id), Timestamp: t.int("ts"), Amount: word("a"), Amount0: word("a0"),
			Amount1: word("a1"), SqrtPriceX96: word("price"), Tick: t.int("tick"), TickLower: t.int("lo"), TickUpper: t.int("hi"), UseX96: t.bool("x96")}
		if op.bool("absent") {
			if tx.Type != "Swap" {
				tx.SqrtPriceX96 = nil
			}
			if tx.Type == "Swap" || tx.Type == "Flash" {
				tx.Amount = nil
			}
		}
		txs = append(txs, tx)
	}
	before := append([]transaction.Transaction{}, txs...)
	var written, read, reader []interface{}
	again, has := true, false
	ok := attempt(func() {
		all, err := json.Marshal(txs)
		if err != nil {
			panic(err)
		}
		// each on its own, by value and by pointer, is the same
		var parts []string
		for i := range txs {
			a, _ := json.Marshal(txs[i])
			b, _ := json.Marshal(&txs[i])
			again = again && string(a) == string(b)
			parts = append(parts, string(a))
		}
		again = again && string(all) == "["+strings.Join(parts, ",")+"]"
		var objs []json.RawMessage
		if err := json.Unmarshal(all, &objs); err != nil {
			panic(err)
		}
		for _, o := range objs {
			// the fields in order, twice named ones included
			d := json.NewDecoder(strings.NewReader(string(o)))
			d.UseNumber()
			d.Token()
			var fs []interface{}
			for d.More() {
				k, _ := d.Token()
				var v interface{}
				if err := d.Decode(&v); err != nil {
					panic(err)
				}
				fs = append(fs, field(k.(string), v))
			}
			written = append(written, nn(fs))
		}
		var ins []transaction.TransactionInput
		if err := json.Unmarshal(all, &ins); err != nil {
			panic(err)
		}
		for _, t := range ins {
			x, _ := strconv.ParseBool(t.UseX96)
			read = append(read, Rec{"typ": typeIndex(t.Type), "id": ints([]byte(t.ID)), "ts": t.Timestamp, "a": dec(t.Amount), "a0": dec(t.Amount0), "a1": dec(t.Amount1),
				"price": dec(t.SqrtPriceX96), "tick": t.Tick, "lo": t.TickLower, "hi": t.TickUpper, "x96": x})
		}
		if s.cmd != nil {
			has = true
			if err := os.WriteFile(filepath.Join(s.dir, "data", "transactions_insample.json"), all, 0644); err != nil {
				panic(err)
			}
			s.in.WriteString("read\n")
			s.in.Flush()
			line, err := s.out.ReadBytes('\n')
			if err != nil {
				// the program gave up on the file
				return
			}
			var l []map[string]interface{}
			d := json.NewDecoder(newReader(line))
			d.UseNumber()
			d.Decode(&l)
			for _, m := range l {
				t := Rec(m)
				reader = append(reader, Rec{"typ": typeIndex(t.str("type")), "id": ints([]byte(t.str("id"))), "ts": t["ts"], "a": dec(t.str("a")), "a0": dec(t.str("a0")),
					"a1": dec(t.str("a1")), "price": dec(t.str("price")), "tick": t["tick"], "lo": t["lo"], "hi": t["hi"], "x96": t["x96"]})
			}
		}
	})
	kept := args.kept()
	for i := range txs {
		kept = kept && txs[i] == before[i]
	}
	return Rec{"ok": ok, "hang": false, "written": nn(written), "read": nn(read), "hasReader": has, "reader": nn(reader), "again": again,
		"argsKept": kept, "constsKept": s.consts.kept()}
}
