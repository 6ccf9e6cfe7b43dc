package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"time"
)

func init() { suites["metrics"] = func() Suite { return newMetricsSuite() } }

type metricsSuite struct {
	dir, program string
	cmd          *exec.Cmd
	in           *bufio.Writer
	out          *json.Decoder
	results      string
}

func newMetricsSuite() *metricsSuite {
	wallLimit = 400 * time.Second
	s := &metricsSuite{program: os.Getenv("VERIF_PROGRAM")}
	s.dir, _ = os.MkdirTemp(os.Getenv("HARNESS_CWD"), "program")
	s.startPipeline()
	return s
}
func (s *metricsSuite) startPipeline() {
	s.cmd = nil
	p := os.Getenv("VERIF_PIPELINE")
	if p == "" {
		return
	}
	c := exec.Command(p)
	c.Dir = s.dir
	c.Env = append(os.Environ(), "VERIF_PIPELINE_LOOP=1", "GORACE=halt_on_error=1 exitcode=66")
	w, _ := c.StdinPipe()
	o, _ := c.StdoutPipe()
	if c.Start() == nil {
		s.cmd, s.in, s.out = c, bufio.NewWriter(w), json.NewDecoder(o)
		s.out.UseNumber()
		var ready []interface{}
		s.out.Decode(&ready)
	}
}
func (s *metricsSuite) Reset() {}

var numbers = []string{"return_on_investment", "max_draw_down", "standard_deviation_hourly", "standard_deviation_daily", "standard_deviation_weekly",
	"downward_deviation_hourly", "downward_deviation_daily", "downward_deviation_weekly", "VaR95_hourly", "VaR95_daily", "VaR95_weekly"}

// scaled gives a double exactly, times 2^200 (rounded towards zero).
func scaled(f float64) interface{} {
	x := new(big.Float).SetPrec(2000).SetFloat64(f)
	x.SetMantExp(x, 200)
	b, _ := x.Int(nil)
	return B(b)
}
func whole(m map[string]interface{}, k string) int {
	if n, ok := m[k].(json.Number); ok {
		if i, err := strconv.Atoi(string(n)); err == nil {
			return i
		}
	}
	return -1
}
func reported(m map[string]interface{}) (Rec, bool) {
	r := Rec{"mul": whole(m, "multiplierX10"), "window": whole(m, "history_window"), "upd": whole(m, "update_interval")}
	end, _ := m["end_amount"].(string)
	b, ok := new(big.Int).SetString(end, 10)
	if !ok || b.String() != end {
		b = big.NewInt(-1)
	}
	r["end"] = B(b)
	finite := true
	var nums []interface{}
	for _, k := range numbers {
		n, ok := m[k].(json.Number)
		f, err := strconv.ParseFloat(string(n), 64)
		if !ok || err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
			finite = false
			f = 0
		}
		nums = append(nums, scaled(f))
	}
	r["finite"], r["nums"] = finite, nums
	return r, finite
}

func (s *metricsSuite) values(op Rec) Rec {
	ans := answer()
	if s.cmd == nil {
		ans["bound"] = false
		return ans
	}
	m, ok := s.ask(texts(op.list("v")))
	if !ok {
		// not encodable: some number is not finite, or the program gave up
		ans["ok"] = false
		return ans
	}
	r, _ := reported(m[0])
	ans["results"] = []interface{}{r}
	return ans
}

func texts(l []interface{}) (t []string) {
	for _, x := range l {
		t = append(t, toBig(x).String())
	}
	return
}

// ask has the program evaluate runs of given worth, all at once.
func (s *metricsSuite) ask(runs ...[]string) ([]map[string]interface{}, bool) {
	json.NewEncoder(s.in).Encode(runs)
	s.in.Flush()
	var m []map[string]interface{}
	if s.out.Decode(&m) == nil && len(m) == len(runs) {
		return m, true
	}
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.startPipeline()
	return nil, false
}

// together evaluates each run alone and then all of them at once, several times.
func (s *metricsSuite) together(op Rec) Rec {
	ans := answer()
	if s.cmd == nil {
		ans["bound"] = false
		return ans
	}
	var runs [][]string
	var alone []map[string]interface{}
	for _, x := range op.list("many") {
		runs = append(runs, texts(x.([]interface{})))
		m, ok := s.ask(runs[len(runs)-1])
		if !ok {
			ans["ok"] = false
			return ans
		}
		alone = append(alone, m[0])
	}
	for k := 0; k < 8; k++ {
		m, ok := s.ask(runs...)
		if !ok {
			ans["ok"] = false
			return ans
		}
		if !reflect.DeepEqual(m, alone) {
			ans["same"] = false
		}
	}
	return ans
}

func answer() Rec {
	return Rec{"ok": true, "hang": false, "bound": true, "results": nn(nil), "count": 0, "inOrder": true, "allFinite": true, "from": -1, "to": -1, "amount": -1, "failed": false, "same": true}
}

func (s *metricsSuite) run(op Rec, file string, prepare func()) (failed bool) {
	os.RemoveAll(filepath.Join(s.dir, "results"))
	os.MkdirAll(filepath.Join(s.dir, "data"), 0755)
	var txs []Rec
	for _, x := range op.list("txs") {
		t := Rec(x.(map[string]interface{}))
		r := Rec{"type": t.str("kind"), "id": "0x1#" + t.str("kind"), "timestamp": t.int("ts"), "amount0": t.big("a0").String(), "amount1": t.big("a1").String()}
		switch t.str("kind") {
		case "Mint", "Burn":
			r["amount"], r["tickLower"], r["tickUpper"] = t.big("amt").String(), t.int("l"), t.int("u")
		case "Swap":
			r["sqrtPriceX96"], r["tick"], r["useX96"] = "12345", 17, "false"
		}
		txs = append(txs, r)
	}
	b, _ := json.Marshal(txs)
	os.WriteFile(filepath.Join(s.dir, "data", "transactions_insample.json"), b, 0644)
	prepare()
	c := exec.Command(s.program, "-n", strconv.Itoa(op.int("hours")), "-file", file)
	c.Dir = s.dir
	var log bytes.Buffer
	c.Stdout, c.Stderr = &log, &log
	err := c.Run()
	if err != nil && debug {
		l := log.Bytes()
		if len(l) > 3000 {
			l = l[:3000]
		}
		os.Stderr.Write(l)
	}
	return err != nil
}

func (s *metricsSuite) read(op Rec, file string, ans Rec) bool {
	p := filepath.Join(s.dir, "results", file)
	if i, err := os.Lstat(p); err != nil || !i.Mode().IsRegular() {
		return false
	}
	f, err := os.ReadFile(p)
	if err != nil {
		return false
	}
	d := json.NewDecoder(bytes.NewReader(f))
	d.UseNumber()
	var m map[string]interface{}
	if d.Decode(&m) != nil {
		return false
	}
	ans["from"], ans["to"] = whole(m, "start_time"), whole(m, "end_time")
	if a, ok := m["start_amount"].(string); ok {
		if n, err := strconv.Atoi(a); err == nil {
			ans["amount"] = n
		}
	}
	l, _ := m["results"].([]interface{})
	inOrder, finite := true, true
	for i, x := range l {
		y, ok := x.(map[string]interface{})
		if !ok || whole(y, "multiplierX10") != i+1 {
			inOrder = false
		}
		if _, f := reported(y); !f {
			finite = false
		}
	}
	ans["count"], ans["inOrder"], ans["allFinite"] = len(l), inOrder, finite
	var out []interface{}
	for _, x := range op.list("muls") {
		if i := int(toBig(x).Int64()) - 1; i < len(l) {
			if y, ok := l[i].(map[string]interface{}); ok {
				r, _ := reported(y)
				out = append(out, r)
			}
		}
	}
	ans["results"] = nn(out)
	return true
}

func (s *metricsSuite) Do(op Rec) Rec {
	setPhase(1)
	ans := answer()
	switch op.str("kind") {
	case "values":
		return s.values(op)
	case "program":
		failed := s.run(op, "out.json", func() {})
		if s.read(op, "out.json", ans) {
			ans["failed"] = failed
		} else {
			ans["ok"] = false
		}
	case "together":
		return s.together(op)
	case "twice":
		text := func() []byte {
			failed := s.run(op, "out.json", func() {})
			if failed || !s.read(op, "out.json", ans) {
				ans["ok"] = false
				return nil
			}
			b, _ := os.ReadFile(filepath.Join(s.dir, "results", "out.json"))
			return b
		}
		first := text()
		ans["same"] = bytes.Equal(first, text())
	case "unsaved":
		res := filepath.Join(s.dir, "results")
		file := "out.json"
		failed := s.run(op, map[int]string{2: "missing/out.json"}[op.int("how")]+map[bool]string{true: file}[op.int("how") != 2], func() {
			switch op.int("how") {
			case 0:
				os.WriteFile(res, []byte("x"), 0644)
			case 1:
				os.MkdirAll(res, 0755)
				os.Symlink("/dev/full", filepath.Join(res, file))
			case 3:
				os.MkdirAll(filepath.Join(res, file), 0755)
			}
		})
		if op.int("how") == 2 {
			file = "missing/out.json"
		}
		// reported, or saved after all
		ans["failed"] = failed || s.read(op, file, answer())
	}
	os.RemoveAll(filepath.Join(s.dir, "results"))
	return ans
}
