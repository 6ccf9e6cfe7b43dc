package main

import (
	"bytes"
	"fmt"
	"math/big"
	ui "uniswap-simulator/uint256"
)

func init() { suites["words"] = func() Suite { return &wordSuite{consts: newConstants()} } }

type wordSuite struct{ consts *constants }

func (s *wordSuite) Reset() {}

func ints(bs []byte) []interface{} {
	r := []interface{}{}
	for _, b := range bs {
		r = append(r, int(b))
	}
	return r
}
func flag(b bool) interface{} {
	if b {
		return 1
	}
	return 0
}
func u64(x uint64) interface{} { return B(new(big.Int).SetUint64(x)) }
func wide(p []uint64) *big.Int {
	r := new(big.Int)
	for i := len(p) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(p[i]))
	}
	return r
}

var binary = map[string]func(z, x, y *ui.Int) *ui.Int{
	"add": (*ui.Int).Add, "sub": (*ui.Int).Sub, "mul": (*ui.Int).Mul, "div": (*ui.Int).Div, "mod": (*ui.Int).Mod,
	"sdiv": (*ui.Int).SDiv, "smod": (*ui.Int).SMod, "and": (*ui.Int).And, "or": (*ui.Int).Or, "xor": (*ui.Int).Xor,
	"extend": (*ui.Int).ExtendSign, "exp": (*ui.Int).Exp,
}
var unary = map[string]func(z, x *ui.Int) *ui.Int{
	"not": (*ui.Int).Not, "neg": (*ui.Int).Neg, "abs": (*ui.Int).Abs, "sqrt": (*ui.Int).Sqrt, "set": (*ui.Int).Set,
}
var overflowing = map[string]func(z, x, y *ui.Int) (*ui.Int, bool){
	"addo": (*ui.Int).AddOverflow, "subo": (*ui.Int).SubOverflow, "mulo": (*ui.Int).MulOverflow,
}
var shifting = map[string]func(z, x *ui.Int, n uint) *ui.Int{"lsh": (*ui.Int).Lsh, "rsh": (*ui.Int).Rsh, "srsh": (*ui.Int).SRsh}
var counting = map[string]func(z, x *ui.Int, n uint64) *ui.Int{"addu": (*ui.Int).AddUint64, "subu": (*ui.Int).SubUint64}
var modular = map[string]func(z, x, y, m *ui.Int) *ui.Int{
	"addmod": (*ui.Int).AddMod, "mulmod": (*ui.Int).MulMod,
	"mulmodr": func(z, x, y, m *ui.Int) *ui.Int { mu := ui.Reciprocal(m); return z.MulModWithReciprocal(x, y, m, &mu) },
}
var comparing = map[string]func(x, y *ui.Int) bool{
	"lt": (*ui.Int).Lt, "gt": (*ui.Int).Gt, "slt": (*ui.Int).Slt, "sgt": (*ui.Int).Sgt, "eq": (*ui.Int).Eq,
}
var setBytesN = []func(z *ui.Int, b []byte) *ui.Int{nil,
	(*ui.Int).SetBytes1, (*ui.Int).SetBytes2, (*ui.Int).SetBytes3, (*ui.Int).SetBytes4, (*ui.Int).SetBytes5, (*ui.Int).SetBytes6, (*ui.Int).SetBytes7, (*ui.Int).SetBytes8,
	(*ui.Int).SetBytes9, (*ui.Int).SetBytes10, (*ui.Int).SetBytes11, (*ui.Int).SetBytes12, (*ui.Int).SetBytes13, (*ui.Int).SetBytes14, (*ui.Int).SetBytes15, (*ui.Int).SetBytes16,
	(*ui.Int).SetBytes17, (*ui.Int).SetBytes18, (*ui.Int).SetBytes19, (*ui.Int).SetBytes20, (*ui.Int).SetBytes21, (*ui.Int).SetBytes22, (*ui.Int).SetBytes23, (*ui.Int).SetBytes24,
	(*ui.Int).SetBytes25, (*ui.Int).SetBytes26, (*ui.Int).SetBytes27, (*ui.Int).SetBytes28, (*ui.Int).SetBytes29, (*ui.Int).SetBytes30, (*ui.Int).SetBytes31, (*ui.Int).SetBytes32,
}
var formats = map[string]string{"fmtd": "%d", "fmts": "%s", "fmtv": "%v", "fmtx": "%x", "fmtX": "%X", "fmtb": "%b"}

func (s *wordSuite) Do(op Rec) Rec {
	setPhase(1)
	kind, n := op.str("kind"), op.big("n")
	var bs []byte
	for _, b := range op.list("bs") {
		bs = append(bs, byte(toBig(b).Int64()))
	}
	x, y, m, z := fromBig(op.big("x")), fromBig(op.big("y")), fromBig(op.big("m")), fromBig(op.big("z"))
	switch op.int("alias") {
	case 1:
		z = x
	case 2:
		z = y
	case 3:
		z = m
	case 4:
		y = x
	case 5:
		y, z = x, x
	}
	// operands that are not the result keep their value
	var args keeper
	for _, a := range []*ui.Int{x, y, m} {
		if a != z {
			args.add(a)
		}
	}
	sent := append([]byte{}, bs...)
	var res interface{} = -1
	r := []interface{}{}
	fl, ret := false, true
	done := func(w *ui.Int) { res, ret = U(z), w == z }
	fails := func(w *ui.Int, err error) {
		if fl = err != nil; !fl {
			res = U(w)
		}
	}
	ok := attempt(func() {
		if f := binary[kind]; f != nil {
			done(f(z, x, y))
			return
		}
		if f := unary[kind]; f != nil {
			done(f(z, x))
			return
		}
		if f := overflowing[kind]; f != nil {
			var w *ui.Int
			w, fl = f(z, x, y)
			done(w)
			return
		}
		if f := shifting[kind]; f != nil {
			done(f(z, x, uint(n.Uint64())))
			return
		}
		if f := counting[kind]; f != nil {
			done(f(z, x, n.Uint64()))
			return
		}
		if f := modular[kind]; f != nil {
			done(f(z, x, y, m))
			return
		}
		if f := comparing[kind]; f != nil {
			r = append(r, flag(f(x, y)))
			return
		}
		if f := formats[kind]; f != "" {
			r = ints([]byte(fmt.Sprintf(f, x)))
			return
		}
		switch kind {
		case "umul":
			p := ui.Umul(x, y)
			r = append(r, B(wide(p[4:])), B(wide(p[:4])))
		case "umulstep":
			h, l := ui.UmulStep(n.Uint64(), x[0], y[0], m[0])
			r = append(r, u64(h), u64(l))
		case "umulhop":
			h, l := ui.UmulHop(n.Uint64(), x[0], y[0])
			r = append(r, u64(h), u64(l))
		case "udivrem":
			u := []uint64{z[0], z[1], z[2], z[3], x[0], x[1], x[2], x[3]}
			q := make([]uint64, 8)
			rem := ui.Udivrem(q, u, m)
			r = append(r, B(wide(q)), U(&rem))
		case "byte":
			// the receiver is the operand
			w := x.Clone()
			k := y
			if op.int("alias") >= 4 {
				k = w
			}
			w2 := w.Byte(k)
			res, ret = U(w), w == w2
		case "clone":
			w := x.Clone()
			res = U(w)
			w.SetAllOne()
		case "setu":
			done(z.SetUint64(n.Uint64()))
		case "newint":
			res = U(ui.NewInt(n.Uint64()))
		case "clear":
			done(z.Clear())
		case "one":
			done(z.SetOne())
		case "ones":
			done(z.SetAllOne())
		case "cmp":
			r = append(r, x.Cmp(y))
		case "sign":
			r = append(r, x.Sign())
		case "iszero":
			r = append(r, flag(x.IsZero()))
		case "ltu":
			r = append(r, flag(x.LtUint64(n.Uint64())))
		case "gtu":
			r = append(r, flag(x.GtUint64(n.Uint64())))
		case "isu":
			r = append(r, flag(x.IsUint64()))
		case "u64":
			v, o := x.Uint64WithOverflow()
			r = append(r, u64(x.Uint64()), u64(v), flag(o))
		case "bitlen":
			r = append(r, x.BitLen(), x.ByteLen())
		case "bytes32":
			b := x.Bytes32()
			r = ints(b[:])
		case "bytes20":
			b := x.Bytes20()
			r = ints(b[:])
		case "bytes":
			r = ints(x.Bytes())
		case "padded":
			r = ints(x.PaddedBytes(int(n.Int64())))
		case "array32":
			b := [32]byte{1, 2, 3}
			x.WriteToArray32(&b)
			r = ints(b[:])
		case "array20":
			b := [20]byte{1, 2, 3}
			x.WriteToArray20(&b)
			r = ints(b[:])
		case "slice":
			b := bytes.Repeat([]byte{7}, int(n.Int64()))
			x.WriteToSlice(b)
			r = ints(b)
		case "setbytes":
			done(z.SetBytes(bs))
		case "setbytesn":
			done(setBytesN[n.Int64()](z, bs))
		case "tobig":
			b := x.ToBig()
			r = append(r, B(b))
			r[0] = itfBig{b.String()}
			b.Add(b, b)
		case "stobig":
			b := x.SToBig()
			r = append(r, itfBig{b.String()})
			b.Add(b, b)
		case "frombig", "setbig":
			b := op.big("y")
			if n.Sign() != 0 {
				b.Neg(b)
			}
			before := new(big.Int).Set(b)
			if kind == "frombig" {
				var w *ui.Int
				w, fl = ui.FromBig(b)
				res = U(w)
			} else {
				fl = z.SetFromBig(b)
				res = U(z)
			}
			ret = before.Cmp(b) == 0
		case "hex":
			r = ints([]byte(x.Hex()))
		case "string":
			r = ints([]byte(x.String()))
		case "text":
			b, err := x.MarshalText()
			fl = err != nil
			r = ints(b)
		case "rlp":
			var b bytes.Buffer
			fl = x.EncodeRLP(&b) != nil
			r = ints(b.Bytes())
		case "fromhex":
			fails(ui.FromHex(string(bs)))
		case "untext":
			fails(z, z.UnmarshalText(bs))
		case "unjson":
			fails(z, z.UnmarshalJSON(bs))
		default:
			panic("unknown request " + kind)
		}
	})
	if !bytes.Equal(bs, sent) {
		ret = false
	}
	return Rec{"ok": ok, "hang": false, "z": res, "flag": fl, "r": r, "kept": args.kept(), "ret": ret, "constsKept": s.consts.kept()}
}
