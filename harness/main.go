// The conformance harness: executes the requests chosen by the specification on the real code and answers
// with what can be observed afterwards. One JSON request per line on stdin, one JSON answer per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	rd "runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
	ui "uniswap-simulator/uint256"
)

// Suite executes the requests of one specification module.
type Suite interface {
	Reset()
	Do(op Rec) Rec
}

var suites = map[string]func() Suite{}

// Rec is a record of the specification, as received or sent.
type Rec map[string]interface{}

func (r Rec) big(k string) *big.Int { return toBig(r[k]) }
func (r Rec) int(k string) int      { return int(toBig(r[k]).Int64()) }
func (r Rec) str(k string) string   { return r[k].(string) }
func (r Rec) bool(k string) bool    { return r[k].(bool) }
func (r Rec) list(k string) []interface{} {
	v := r[k]
	if m, ok := v.(map[string]interface{}); ok {
		v = m["#set"]
	}
	l, _ := v.([]interface{})
	return l
}
func (r Rec) rec(k string) Rec { return Rec(r[k].(map[string]interface{})) }

func toBig(v interface{}) *big.Int {
	n, ok := v.(json.Number)
	if !ok {
		panic(fmt.Sprintf("not an integer: %v", v))
	}
	b, ok := new(big.Int).SetString(string(n), 10)
	if !ok {
		panic("not an integer: " + string(n))
	}
	return b
}
func toU(b *big.Int) *ui.Int { r, _ := ui.FromBig(b); return r }

// answers: integers in ITF notation
type itfBig struct {
	V string `json:"#bigint"`
}
type itfSet struct {
	V []interface{} `json:"#set"`
}
type itfMap struct {
	V [][2]interface{} `json:"#map"`
}
type itfTup struct {
	V []interface{} `json:"#tup"`
}

func B(b *big.Int) interface{} { return itfBig{b.String()} }

// U reads a word as unsigned, S as two's complement. The bytes are read through the limbs, not through
// the conversions of the type itself.
func bigOf(x *ui.Int) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(x[i]))
	}
	return r
}

var p256 = new(big.Int).Lsh(big.NewInt(1), 256)
var p255 = new(big.Int).Lsh(big.NewInt(1), 255)

func fromBig(b *big.Int) *ui.Int {
	m := new(big.Int).Mod(b, p256)
	r := new(ui.Int)
	for i := 0; i < 4; i++ {
		r[i] = new(big.Int).And(new(big.Int).Rsh(m, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64()
	}
	return r
}

func U(x *ui.Int) interface{} {
	if x == nil {
		return itfBig{"-1"}
	}
	return B(bigOf(x))
}
func S(x *ui.Int) interface{} {
	if x == nil {
		return itfBig{"0"}
	}
	return B(signedBig(x))
}
func signedBig(x *ui.Int) *big.Int {
	b := bigOf(x)
	if b.Cmp(p255) >= 0 {
		b.Sub(b, p256)
	}
	return b
}
func N(i int) interface{}              { return i }
func set(v []interface{}) interface{}  { return itfSet{nn(v)} }
func tup(v ...interface{}) interface{} { return itfTup{v} }
func mp(v [][2]interface{}) interface{} {
	if v == nil {
		v = [][2]interface{}{}
	}
	return itfMap{v}
}
func nn(v []interface{}) []interface{} {
	if v == nil {
		return []interface{}{}
	}
	return v
}

// attempt runs f and reports whether it returned normally.
func attempt(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			lastPanic = fmt.Sprint(r)
			if debug && atomic.LoadInt32(&phase) == 1 {
				fmt.Fprintln(os.Stderr, "panic:", r)
				rd.PrintStack()
			}
		}
	}()
	f()
	return true
}

var lastPanic string
var debug = os.Getenv("HARNESS_DEBUG") != ""

// phase of the current request, reported when it does not return: 0 idle, 1 executing, 2 observing
var phase int32

func setPhase(p int32) { atomic.StoreInt32(&phase, p) }

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var cpuLimit = 10 * time.Second
var wallLimit = 120 * time.Second

func main() {
	mk, ok := suites[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such suite: "+os.Args[1])
		os.Exit(4)
	}
	// what the code prints must not end up among the answers
	real := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	s := mk()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(real, 1<<20)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		d := json.NewDecoder(newReader(line))
		d.UseNumber()
		var req map[string]interface{}
		if err := d.Decode(&req); err != nil {
			fmt.Fprintln(os.Stderr, "bad request:", err)
			os.Exit(4)
		}
		if _, ok := req["reset"]; ok {
			s.Reset()
			enc.Encode(Rec{"reset": true})
			out.Flush()
			continue
		}
		done := make(chan Rec, 1)
		setPhase(0)
		go func() { done <- s.Do(Rec(req)) }()
		var ans Rec
		start, wall := cpu(), time.Now()
		t := time.NewTicker(200 * time.Millisecond)
	wait:
		for {
			select {
			case ans = <-done:
				break wait
			case <-t.C:
				if cpu()-start > cpuLimit || time.Since(wall) > wallLimit {
					enc.Encode(Rec{"hang": int(atomic.LoadInt32(&phase))})
					out.Flush()
					os.Exit(3)
				}
			}
		}
		t.Stop()
		if err := enc.Encode(ans); err != nil {
			fmt.Fprintln(os.Stderr, "bad answer:", err)
			os.Exit(4)
		}
		out.Flush()
	}
}
