package main

// Models of library functions (everything not executed from source).

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type handler func(ip *Interp, fn *ssa.Function, args []Value) Value
type fallThrough struct{}

const ndPkg = "github.com/tdex-network/tdex-daemon/internal/verifnd"

// natives: pure functions run on the host when all arguments are concrete.
var natives = map[string]interface{}{
	"strings.Split":                  strings.Split,
	"strings.SplitN":                 strings.SplitN,
	"strings.Join":                   strings.Join,
	"strings.Contains":               strings.Contains,
	"strings.ContainsAny":            strings.ContainsAny,
	"strings.HasPrefix":              strings.HasPrefix,
	"strings.HasSuffix":              strings.HasSuffix,
	"strings.TrimSpace":              strings.TrimSpace,
	"strings.Trim":                   strings.Trim,
	"strings.TrimLeft":               strings.TrimLeft,
	"strings.TrimRight":              strings.TrimRight,
	"strings.TrimPrefix":             strings.TrimPrefix,
	"strings.TrimSuffix":             strings.TrimSuffix,
	"strings.ToLower":                strings.ToLower,
	"strings.ToUpper":                strings.ToUpper,
	"strings.Replace":                strings.Replace,
	"strings.ReplaceAll":             strings.ReplaceAll,
	"strings.Index":                  strings.Index,
	"strings.IndexByte":              strings.IndexByte,
	"strings.LastIndex":              strings.LastIndex,
	"strings.Repeat":                 strings.Repeat,
	"strings.Fields":                 strings.Fields,
	"strings.Count":                  strings.Count,
	"strings.EqualFold":              strings.EqualFold,
	"strconv.Itoa":                   strconv.Itoa,
	"strconv.Atoi":                   strconv.Atoi,
	"strconv.FormatInt":              strconv.FormatInt,
	"strconv.FormatUint":             strconv.FormatUint,
	"strconv.ParseInt":               strconv.ParseInt,
	"strconv.ParseUint":              strconv.ParseUint,
	"strconv.ParseFloat":             strconv.ParseFloat,
	"strconv.ParseBool":              strconv.ParseBool,
	"strconv.FormatFloat":            strconv.FormatFloat,
	"strconv.Quote":                  strconv.Quote,
	"regexp.Match":                   regexp.Match,
	"regexp.MatchString":             regexp.MatchString,
	"encoding/hex.EncodeToString":    hex.EncodeToString,
	"encoding/hex.DecodeString":      hex.DecodeString,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"unicode/utf8.ValidString":       utf8.ValidString,
	"unicode.IsDigit":                unicode.IsDigit,
	"unicode.IsLetter":               unicode.IsLetter,
	"unicode.IsUpper":                unicode.IsUpper,
	"unicode.IsSpace":                unicode.IsSpace,
	"unicode.ToUpper":                unicode.ToUpper,
	"unicode.ToLower":                unicode.ToLower,
	"math.Pow":                       math.Pow,
	"math.Pow10":                     math.Pow10,
	"math.Floor":                     math.Floor,
	"math.Ceil":                      math.Ceil,
	"math.Round":                     math.Round,
	"math.Log10":                     math.Log10,
	"math.Abs":                       math.Abs,
	"math.Float64bits":               math.Float64bits,
	"math.Float64frombits":           math.Float64frombits,
	"math.Float32bits":               func(f float64) uint32 { return math.Float32bits(float32(f)) },
	"math.Float32frombits":           func(b uint32) float64 { return float64(math.Float32frombits(b)) },
	"math.IsNaN":                     math.IsNaN,
	"math.IsInf":                     math.IsInf,
	"math.Mod":                       math.Mod,
	"math.Trunc":                     math.Trunc,
	"path.Join":                      path.Join,
	"path/filepath.Join":             filepath.Join,
	"path/filepath.Base":             filepath.Base,
	"path/filepath.Dir":              filepath.Dir,
}

func (ip *Interp) toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(*Str)
		if !ok || s.kind != strConc {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s.s).Convert(t), true
	case reflect.Bool:
		x, ok := v.(*Term)
		if !ok || !(x.isTrue() || x.isFalse()) {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.isTrue()), true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.c.Int64()).Convert(t), true
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.c.Uint64()).Convert(t), true
	case reflect.Float64:
		x, ok := v.(float64)
		return reflect.ValueOf(x), ok
	case reflect.Slice:
		s, ok := v.(SliceV)
		if !ok {
			return reflect.Value{}, false
		}
		if t.Elem().Kind() == reflect.Uint8 {
			b, ok := s.concBytes()
			return reflect.ValueOf(b), ok
		}
		if s.blob != nil {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, s.len, s.len)
		for i := 0; i < s.len; i++ {
			e, ok := ip.toNative(s.cell(i).v, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (ip *Interp) fromNative(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return mkStr(r.String())
	case reflect.Bool:
		return ip.c.Bool(r.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return ip.c.Int(r.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return ip.c.Big(new(big.Int).SetUint64(r.Uint()))
	case reflect.Float64:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return SliceV{}
		}
		vals := make([]Value, r.Len())
		for i := range vals {
			vals[i] = ip.fromNative(r.Index(i))
		}
		return ip.sliceOf(vals)
	case reflect.Interface: // error
		if r.IsNil() {
			return Iface{}
		}
		if e, ok := r.Interface().(error); ok {
			return ip.mkErrorIface(e.Error())
		}
	}
	panic(unsupported("native result " + r.Kind().String()))
}

func (ip *Interp) callNative(f interface{}, args []Value) (Value, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		var t reflect.Type
		if i < ft.NumIn() {
			t = ft.In(i)
		}
		n, ok := ip.toNative(a, t)
		if !ok {
			return nil, false
		}
		in = append(in, n)
	}
	var out []reflect.Value
	if ft.IsVariadic() {
		out = fv.CallSlice(in)
	} else {
		out = fv.Call(in)
	}
	switch len(out) {
	case 0:
		return nil, true
	case 1:
		return ip.fromNative(out[0]), true
	}
	t := TupleV{}
	for _, o := range out {
		t = append(t, ip.fromNative(o))
	}
	return t, true
}

func (ip *Interp) concStrArgs(args []Value) []Value {
	out := append([]Value(nil), args...)
	for i, a := range out {
		if s, ok := a.(*Str); ok && (s.kind == strAtom || s.kind == strRope) {
			out[i] = ip.concStr(s)
		}
		if s, ok := a.(SliceV); ok && s.blob != nil && (s.blob.kind == strAtom || s.blob.kind == strRope) {
			out[i] = ip.norm(s)
		}
		if s, ok := a.(SliceV); ok && s.blob == nil {
			for k := 0; k < s.len; k++ {
				if e, ok := s.cell(k).v.(*Str); ok && (e.kind == strAtom || e.kind == strRope) {
					ip.store(s.cell(k), ip.concStr(e))
				}
			}
		}
	}
	return out
}

func (ip *Interp) mkError(msg string) Value { return ip.mkErrorIface(msg) }

func (ip *Interp) mkErrorIface(msg string) Iface { return ip.mkErrorStr(mkStr(msg)) }

func (ip *Interp) mkErrorStr(s *Str) Iface {
	return Iface{ip.w.errT, ip.newCell(&StructV{f: []*Cell{ip.newCell(s)}})}
}

// callMethod calls a method by name on an interface value.
func (ip *Interp) callMethod(v Iface, name string, args ...Value) Value {
	fn := ip.w.methodByName(v.t, name)
	if fn == nil {
		panic(unsupported("method " + name + " of " + v.t.String()))
	}
	return ip.callFn(fn, append([]Value{v.v}, args...), nil, nil)
}

func (ip *Interp) argSlice(v Value) []Value {
	s := v.(SliceV)
	var r []Value
	for i := 0; i < s.len; i++ {
		r = append(r, s.cell(i).v)
	}
	return r
}

// fmtArg renders one formatting operand.
func (ip *Interp) fmtArg(verb string, v Iface) []strPart {
	lit := func(s string) []strPart { return []strPart{{lit: s}} }
	if v.t == nil {
		return lit(fmt.Sprintf(verb, nil))
	}
	if k := verb[len(verb)-1]; k == 's' || k == 'v' || k == 'w' || k == 'q' {
		if !types.IsInterface(v.t) {
			for _, m := range []string{"Error", "String"} {
				if fn := ip.w.methodByName(v.t, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
					if c, ok := v.v.(*Cell); ok && c == nil {
						return lit("<nil>")
					}
					r := ip.callFn(fn, []Value{v.v}, nil, nil)
					if s, ok := r.(*Str); ok {
						return ip.ropeParts(s)
					}
				}
			}
		}
	}
	switch x := v.v.(type) {
	case *Str:
		if x.kind == strConc {
			if k := verb[len(verb)-1]; k == 'w' {
				verb = verb[:len(verb)-1] + "v"
			}
			return lit(fmt.Sprintf(verb, x.s))
		}
		return ip.ropeParts(x)
	case *Term:
		if x.sort == SBool {
			return lit(fmt.Sprintf(verb, ip.branch(x)))
		}
		if x.isConst() {
			if k := verb[len(verb)-1]; k == 'c' || k == 'U' || k == 'q' {
				return lit(fmt.Sprintf(verb, rune(x.c.Int64())))
			}
			return lit(fmt.Sprintf(verb, x.c))
		}
		if verb == "%d" || verb == "%v" {
			return []strPart{{dec: x}}
		}
		panic(unsupported("formatting a symbolic integer with " + verb))
	case float64:
		return lit(fmt.Sprintf(verb, x))
	case SliceV:
		if b, ok := x.concBytes(); ok && (verb == "%s" || verb == "%x") {
			return lit(fmt.Sprintf(verb, b))
		}
	case Opaque:
		return lit("<" + x.kind + ">")
	}
	return []strPart{{sub: &Str{kind: strBlob, tag: "fmt" + verb, load: v.v}}}
}

func (ip *Interp) sprintf(format *Str, args []Value) *Str {
	if format.kind == strBlob && len(args) == 0 {
		return format // encoded texts of harnesses contain no verbs
	}
	f := ip.concStr(format)
	if f.kind != strConc {
		panic(unsupported("symbolic format"))
	}
	var ps []strPart
	s := f.s
	ai := 0
	for i := 0; i < len(s); {
		if s[i] != '%' {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				j = len(s) - i
			}
			ps = append(ps, strPart{lit: s[i : i+j]})
			i += j
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		verb := s[i : j+1]
		i = j + 1
		if verb == "%%" {
			ps = append(ps, strPart{lit: "%"})
			continue
		}
		if ai >= len(args) {
			ps = append(ps, strPart{lit: "%!" + verb[len(verb)-1:] + "(MISSING)"})
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == "%w" {
			verb = "%v"
		}
		ps = append(ps, ip.fmtArg(verb, a)...)
	}
	return ropeOf(ps)
}

func (ip *Interp) sprint(args []Value, ln bool) *Str {
	var ps []strPart
	for i, a := range args {
		if i > 0 && ln {
			ps = append(ps, strPart{lit: " "})
		}
		ps = append(ps, ip.fmtArg("%v", a.(Iface))...)
	}
	if ln {
		ps = append(ps, strPart{lit: "\n"})
	}
	return ropeOf(ps)
}

// ---- floats

func (ip *Interp) rat(v Value) *FRat {
	switch x := v.(type) {
	case *FRat:
		return x
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			panic(unsupported("NaN/Inf mixed with a symbolic float in " + ip.curFn()))
		}
		r := new(big.Rat)
		r.SetFloat64(x)
		return &FRat{ip.c.Big(r.Num()), new(big.Int).Set(r.Denom())}
	}
	panic(unsupported(fmt.Sprintf("float %T in %s", v, ip.curFn())))
}

func (ip *Interp) intToFloat(t *Term) Value {
	if t.isConst() {
		f, _ := new(big.Float).SetInt(t.c).Float64()
		return f
	}
	lim := ip.c.Big(pow2tab[53])
	if !ip.branch(ip.c.And(ip.c.Le(t, lim), ip.c.Ge(t, ip.c.Neg(lim)))) {
		panic(pathEnd{"bound", "symbolic integer beyond 2^53 converted to float"})
	}
	return &FRat{t, one}
}

func (ip *Interp) floatToInt(v Value, ii intInfo) Value {
	switch x := v.(type) {
	case float64:
		lo, hi := ii.rng()
		b, _ := big.NewFloat(math.Trunc(x)).Int(nil)
		if b == nil || b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
			// implementation-defined; follow amd64
			if ii.signed || ii.bits < 64 {
				return ip.trunc(ip.c.Int(int64(x)), ii)
			}
			return ip.c.Big(new(big.Int).SetUint64(uint64(x)))
		}
		return ip.c.Big(b)
	case *FRat:
		q, _ := ip.truncDiv(x.num, ip.c.Big(x.den))
		lo, hi := ii.rng()
		if !ip.branch(ip.c.And(ip.c.Ge(q, ip.c.Big(lo)), ip.c.Le(q, ip.c.Big(hi)))) {
			panic(pathEnd{"bound", "float out of integer range"})
		}
		return q
	}
	panic(unsupported("float conversion"))
}

func (ip *Interp) fcmp(op string, a, b Value) *Term {
	c := ip.c
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		switch op {
		case "==":
			return c.Bool(x == y)
		case "<":
			return c.Bool(x < y)
		case "<=":
			return c.Bool(x <= y)
		case ">":
			return c.Bool(x > y)
		case ">=":
			return c.Bool(x >= y)
		}
	}
	p, q := ip.rat(a), ip.rat(b)
	l, r := c.Scale(p.num, q.den), c.Scale(q.num, p.den)
	switch op {
	case "==":
		return c.Eq(l, r)
	case "<":
		return c.Lt(l, r)
	case "<=":
		return c.Le(l, r)
	case ">":
		return c.Gt(l, r)
	}
	return c.Ge(l, r)
}

func (ip *Interp) farith(op fmt.Stringer, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		switch op.String() {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return x / y
		}
	}
	c := ip.c
	p, q := ip.rat(a), ip.rat(b)
	switch op.String() {
	case "+", "-":
		l, r := c.Scale(p.num, q.den), c.Scale(q.num, p.den)
		if op.String() == "-" {
			r = c.Neg(r)
		}
		return ip.roundRat(c.Add(l, r), new(big.Int).Mul(p.den, q.den))
	case "*":
		if p.num.isConst() {
			p, q = q, p
		}
		if q.num.isConst() {
			return ip.roundRat(c.Scale(p.num, q.num.c), new(big.Int).Mul(p.den, q.den))
		}
	case "/":
		if q.num.isConst() && q.num.c.Sign() != 0 {
			n, d := c.Scale(p.num, q.den), new(big.Int).Mul(p.den, q.num.c)
			if d.Sign() < 0 {
				n, d = c.Neg(n), d.Neg(d)
			}
			return ip.roundRat(n, d)
		}
	}
	panic(unsupported("symbolic floating-point " + op.String() + " in " + ip.curFn()))
}

// roundRat rounds num/den (den > 0) to the nearest double, ties to even. The
// binary exponent is decided by branching, so the result stays linear.
func (ip *Interp) roundRat(num *Term, den *big.Int) Value {
	c := ip.c
	if ip.branch(c.Eq(num, c.Int(0))) {
		return float64(0)
	}
	neg := ip.branch(c.Lt(num, c.Int(0)))
	if neg {
		num = c.Neg(num)
	}
	// 2^e <= num/den < 2^(e+1)
	below := func(e int) bool {
		if e >= 0 {
			return ip.branch(c.Lt(num, c.Big(new(big.Int).Lsh(den, uint(e)))))
		}
		return ip.branch(c.Lt(c.Scale(num, new(big.Int).Lsh(one, uint(-e))), c.Big(den)))
	}
	lo, hi := -1000, 1000 // exponent in [lo, hi)
	if below(lo) || !below(hi) {
		panic(unsupported("floating-point result out of range"))
	}
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if below(m) {
			hi = m
		} else {
			lo = m
		}
	}
	// in units of 2^(lo-52)
	n, d, u := num, den, lo-52
	if u < 0 {
		n = c.Scale(num, new(big.Int).Lsh(one, uint(-u)))
	} else {
		d = new(big.Int).Lsh(den, uint(u))
	}
	q, r := ip.truncDiv(n, c.Big(d))
	_, odd := ip.truncDiv(q, c.Int(2))
	twice := c.Scale(r, big.NewInt(2))
	up := c.Or(c.Gt(twice, c.Big(d)), c.And(c.Eq(twice, c.Big(d)), c.Eq(odd, c.Int(1))))
	q = c.Add(q, c.Ite(up, c.Int(1), c.Int(0)))
	if neg {
		q = c.Neg(q)
	}
	if u < 0 {
		return &FRat{q, new(big.Int).Lsh(one, uint(-u))}
	}
	return &FRat{c.Scale(q, new(big.Int).Lsh(one, uint(u))), one}
}

// ---- nd

var bigI64lo, bigI64hi = intInfo{true, 64}.rng()
var bigU64lo, bigU64hi = intInfo{false, 64}.rng()

func (ip *Interp) ndName(n string) string {
	k := ip.ndSeen[n]
	ip.ndSeen[n] = k + 1
	if k > 0 {
		return n + "#" + strconv.Itoa(k)
	}
	return n
}

func (ip *Interp) ndInt(name, kind string, lo, hi *big.Int) *Term {
	n := ip.ndName(name)
	t := ip.c.Var(n+"@"+lo.Text(36)+"_"+hi.Text(36), SInt, lo, hi)
	if lo.Cmp(hi) == 0 {
		t = ip.c.Big(lo)
	}
	ip.nds = append(ip.nds, ndVar{Name: n, Kind: kind, T: t})
	return t
}

func (ip *Interp) ndPick(name string, opts []string) *Str {
	n := ip.ndName(name)
	ids := make([]int64, len(opts))
	key := ""
	for i, o := range opts {
		ids[i] = intern(o)
		key += fmt.Sprintf("_%d", ids[i])
	}
	if len(opts) == 1 {
		s := mkStr(opts[0])
		ip.nds = append(ip.nds, ndVar{Name: n, Kind: "str", S: s})
		return s
	}
	mn, mx := ids[0], ids[0]
	for _, i := range ids {
		if i < mn {
			mn = i
		}
		if i > mx {
			mx = i
		}
	}
	t := ip.c.Var(n+"@s"+key, SInt, big.NewInt(mn), big.NewInt(mx))
	ip.c.dom[t] = ids
	s := &Str{kind: strAtom, atom: t}
	ip.nds = append(ip.nds, ndVar{Name: n, Kind: "str", S: s})
	return s
}

func goStr(v Value) string {
	s := v.(*Str)
	if s.kind != strConc {
		panic(unsupported("symbolic label"))
	}
	return s.s
}

func (ip *Interp) now() *Term {
	if ip.clock == nil {
		ip.clock = ip.ndInt("now", "int", big.NewInt(0), big.NewInt(4000000000)) // seconds
		return ip.clock
	}
	if ip.fixedClock {
		return ip.clock
	}
	d := ip.ndInt("tick", "int", zero, big.NewInt(100000000))
	ip.clock = ip.c.Add(ip.clock, d)
	return ip.clock
}

var nsPerSec = big.NewInt(1000000000)

func (ip *Interp) timeOfSec(t *Term) TimeV { return TimeV{ip.c.Scale(t, nsPerSec)} }

// ---- tables

var intrinsics map[string]handler

func arg(args []Value, i int) *Term { return args[i].(*Term) }

func bigOf(ip *Interp, v Value) *Term {
	c, ok := v.(*Cell)
	if !ok || c == nil {
		ip.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c.v.(BigV).t
}

func init() {
	nop := func(ip *Interp, fn *ssa.Function, args []Value) Value { return ip.zeroResults(fn.Signature) }
	I := map[string]handler{}
	intrinsics = I
	for k, h := range intrinsicsLate {
		I[k] = h
	}

	// --- harness API
	nd := func(n string, h handler) { I[ndPkg+"."+n] = h }
	nd("Int64", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.ndInt(goStr(a[0]), "int", ip.concretize(arg(a, 1)), ip.concretize(arg(a, 2)))
	})
	I[ndPkg+".Int"] = I[ndPkg+".Int64"]
	I[ndPkg+".Uint64"] = I[ndPkg+".Int64"]
	nd("Bool", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := ip.ndName(goStr(a[0]))
		t := ip.c.Var(n+"@b", SBool, nil, nil)
		ip.nds = append(ip.nds, ndVar{Name: n, Kind: "bool", T: t})
		return t
	})
	nd("Choice", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := ip.concInt(arg(a, 1))
		return ip.c.Int(int64(ip.choice(goStr(a[0]), n)))
	})
	nd("Pick", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		var opts []string
		for _, v := range ip.argSlice(a[1]) {
			opts = append(opts, goStr(v))
		}
		return ip.ndPick(goStr(a[0]), opts)
	})
	nd("Bytes", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		base := ip.ndName(goStr(a[0]))
		n := ip.concInt(arg(a, 1))
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = ip.ndInt(base+"."+strconv.Itoa(i), "int", zero, big.NewInt(255))
		}
		return ip.sliceOf(vals)
	})
	nd("Assume", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := arg(a, 0)
		if t.isFalse() {
			panic(pathEnd{"assume", ""})
		}
		ip.assume(t)
		if sat, _ := ip.needModelLazy(); !sat {
			panic(pathEnd{"assume", ""})
		}
		return nil
	})
	nd("Assert", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.assert(arg(a, 0), goStr(a[1]))
		return nil
	})
	nd("Cover", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		l := goStr(a[0])
		if !ip.covers[l] {
			if sat, _ := ip.needModel(); !sat {
				panic(pathEnd{"assume", ""})
			}
			ip.covers[l] = true
			ip.st.cover(l)
		}
		return nil
	})
	nd("Observe", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.obs = append(ip.obs, obsRec{goStr(a[0]), ip.deepCopy(a[1])})
		return nil
	})
	nd("Known", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.knownID = append(ip.knownID, knownCond{goStr(a[0]), arg(a, 1)})
		return nil
	})
	nd("And", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		r := ip.c.True
		for _, v := range ip.argSlice(a[0]) {
			r = ip.c.And(r, v.(*Term))
		}
		return r
	})
	nd("Or", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		r := ip.c.False
		for _, v := range ip.argSlice(a[0]) {
			r = ip.c.Or(r, v.(*Term))
		}
		return r
	})
	nd("Imp", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Or(ip.c.Not(arg(a, 0)), arg(a, 1))
	})
	nd("Iff", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.c.Eq(arg(a, 0), arg(a, 1)) })
	nd("Ite64", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Ite(arg(a, 0), arg(a, 1), arg(a, 2))
	})
	nd("DeepEq", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.deepEq(a[0], a[1]) })
	nd("DeepCopy", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.deepCopy(a[0]) })
	nd("Symbolic", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.c.True })
	nd("RunTasks", func(ip *Interp, fn *ssa.Function, a []Value) Value { ip.runTasks(); return nil })
	nd("Yield", func(ip *Interp, fn *ssa.Function, a []Value) Value { ip.yield(); return nil })
	nd("Schedule", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.mainTask()
		ip.preempt = ip.concInt(arg(a, 0))
		ip.sched, ip.delays = ip.preempt >= 0, false
		return nil
	})
	nd("Delays", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.mainTask()
		ip.preempt = ip.concInt(arg(a, 0))
		ip.sched, ip.delays = true, true
		return nil
	})
	nd("Go", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.spawn(a[0].(*FuncV), nil)
		return nil
	})
	nd("DropTasks", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		for _, t := range ip.tasks {
			if t.id != 0 && !t.start {
				t.done = true
			}
		}
		return nil
	})
	nd("Naps", func(ip *Interp, fn *ssa.Function, a []Value) Value { ip.naps = arg(a, 0).isTrue(); return nil })
	nd("MapOrder", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		if arg(a, 0).isTrue() {
			ip.side["maporder"] = true
		} else {
			delete(ip.side, "maporder")
		}
		return nil
	})
	nd("MapFlip", func(ip *Interp, fn *ssa.Function, a []Value) Value { ip.side["mapflip"] = -1; return nil })
	nd("FixClock", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.clock = arg(a, 0)
		ip.fixedClock = true
		return nil
	})
	nd("NowUnix", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.now() })
	nd("Now", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.timeOfSec(ip.now()) })
	nd("Blob", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return &Str{kind: strBlob, tag: goStr(a[0]), load: ip.deepCopy(a[1])}
	})
	nd("Unblob", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		s := a[1].(*Str)
		if s.kind == strBlob && s.tag == goStr(a[0]) {
			return TupleV{ip.deepCopy(s.load), ip.c.True}
		}
		if s.kind == strBytes || s.kind == strConc {
			return TupleV{Iface{}, ip.c.False}
		}
		return TupleV{Iface{}, ip.c.False}
	})
	nd("Hash", func(ip *Interp, fn *ssa.Function, a []Value) Value { // injective opaque digest
		return &Str{kind: strBlob, tag: goStr(a[0]), load: ip.deepCopy(a[1])}
	})
	nd("Assign", func(ip *Interp, fn *ssa.Function, a []Value) Value { // *dst = *src (deep)
		d, s := a[0].(Iface).v.(*Cell), a[1].(Iface).v.(*Cell)
		ip.store(d, ip.deepCopy(s.v))
		return nil
	})
	nd("Panics", func(ip *Interp, fn *ssa.Function, a []Value) (res Value) {
		n, d := len(ip.stack), ip.depth
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(goPanic); ok {
					ip.stack, ip.depth = ip.stack[:n], d
					res = ip.c.True
					return
				}
				panic(r)
			}
		}()
		ip.callValue(a[0].(*FuncV), nil, &frame{ip: ip})
		return ip.c.False
	})
	nd("Thorough", func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.c.Bool(tier == "thorough") })
	nd("Bound", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		v := a[1]
		if tier == "thorough" {
			v = a[2]
		}
		ip.st.bound(goStr(a[0]), v.(*Term).c.Int64())
		return v
	})
	nd("Zero", func(ip *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })

	// --- errors, fmt
	I["errors.Is"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for {
			if e.t == nil {
				return ip.c.Bool(t.t == nil)
			}
			if ip.branch(ip.eq(e, t)) {
				return ip.c.True
			}
			if ip.w.methodByName(e.t, "Unwrap") == nil {
				return ip.c.False
			}
			r, ok := ip.callMethod(e, "Unwrap").(Iface)
			if !ok || r.t == nil {
				return ip.c.False
			}
			e = r
		}
	}
	I["reflect.DeepEqual"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.strictNil = true
		defer func() { ip.strictNil = false }()
		return ip.deepEq(a[0], a[1])
	}
	I["fmt.Sprintf"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.sprintf(a[0].(*Str), ip.argSlice(a[1]))
	}
	I["fmt.Errorf"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		as := ip.argSlice(a[1])
		s := ip.sprintf(a[0].(*Str), as)
		if f := a[0].(*Str); f.kind == strConc && strings.Contains(f.s, "%w") && ip.w.wrapErrT != nil {
			for _, x := range as {
				if xi := x.(Iface); xi.t != nil && types.Implements(xi.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
					return Iface{ip.w.wrapErrT, ip.newCell(&StructV{f: []*Cell{ip.newCell(s), ip.newCell(xi)}})}
				}
			}
		}
		return ip.mkErrorStr(s)
	}
	I["(*fmt.wrapError).Error"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return a[0].(*Cell).v.(*StructV).f[0].v
	}
	I["(*fmt.wrapError).Unwrap"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return a[0].(*Cell).v.(*StructV).f[1].v
	}
	I["github.com/pkg/errors.Wrap"] = nil
	delete(I, "github.com/pkg/errors.Wrap")
	I["fmt.Sprint"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.sprint(ip.argSlice(a[0]), false) }
	I["fmt.Sprintln"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.sprint(ip.argSlice(a[0]), true) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "runtime.Gosched", "runtime.GC",
		"log.Printf", "log.Println", "log.Print", "runtime/debug.PrintStack", "os.RemoveAll", "runtime.KeepAlive", "runtime.SetFinalizer",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable"} {
		I[n] = nop
	}

	// sleeping takes no time unless the harness wants long naps to last
	nap := func(ip *Interp, d *Term) {
		if ip.naps && ip.cur != nil && ip.cur.id != 0 && !(d.isConst() && d.c.Cmp(big.NewInt(60e9)) < 0) {
			ip.block(func() bool { return !ip.naps })
		}
	}
	I["time.Sleep"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		nap(ip, arg(a, 0))
		return nil
	}
	// timers go off when nothing else can run
	type timer struct{ off, fired bool }
	after := func(ip *Interp, d *Term, then func()) *timer {
		tm := &timer{}
		ip.spawn(&FuncV{nat: func(ip *Interp, args []Value) Value {
			nap(ip, d)
			if !tm.off {
				tm.fired = true
				ip.cur.late = false
				then()
			}
			return nil
		}}, nil)
		ip.tasks[len(ip.tasks)-1].late = true
		return tm
	}
	newTimer := func(ip *Interp, fn *ssa.Function, d *Term, ch *ChanObj, then func()) Value {
		st := ip.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(*StructV)
		if ch != nil {
			st.f[0].v = ch
		}
		c := ip.newCell(st)
		ip.side[[2]interface{}{"timer", c}] = after(ip, d, then)
		return c
	}
	tick := func(ip *Interp, ch *ChanObj) func() {
		return func() { ch.buf = append(ch.buf, TupleV{ip.timeOfSec(ip.now()), nil}) }
	}
	I["time.After"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ch := &ChanObj{cap: 1}
		after(ip, arg(a, 0), tick(ip, ch))
		return ch
	}
	I["time.NewTimer"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ch := &ChanObj{cap: 1}
		return newTimer(ip, fn, arg(a, 0), ch, tick(ip, ch))
	}
	I["time.AfterFunc"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		f := a[1].(*FuncV)
		return newTimer(ip, fn, arg(a, 0), nil, func() { ip.callValue(f, nil, &frame{ip: ip}) })
	}
	I["(*time.Timer).Stop"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		tm, _ := ip.side[[2]interface{}{"timer", a[0]}].(*timer)
		if tm == nil || tm.off || tm.fired {
			return ip.c.Bool(false)
		}
		tm.off = true
		return ip.c.Bool(true)
	}

	// --- sync
	lock := func(ip *Interp, fn *ssa.Function, a []Value) Value {
		c, _ := a[0].(*Cell)
		if c == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		l := ip.lockOf(c)
		ip.yield()
		if l.w || l.r > 0 {
			ip.block(func() bool { return !l.w && l.r == 0 })
		}
		l.w = true
		return nil
	}
	unlock := func(ip *Interp, fn *ssa.Function, a []Value) Value {
		l := ip.lockOf(a[0].(*Cell))
		if !l.w {
			panic(goPanic{rt: "fatal error: sync: unlock of unlocked mutex", tr: ip.backtrace()})
		}
		l.w = false
		return nil
	}
	rlock := func(ip *Interp, fn *ssa.Function, a []Value) Value {
		c, _ := a[0].(*Cell)
		if c == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		l := ip.lockOf(c)
		ip.yield()
		if l.w {
			ip.block(func() bool { return !l.w })
		}
		l.r++
		return nil
	}
	runlock := func(ip *Interp, fn *ssa.Function, a []Value) Value {
		l := ip.lockOf(a[0].(*Cell))
		if l.r == 0 {
			panic(goPanic{rt: "fatal error: sync: RUnlock of unlocked RWMutex", tr: ip.backtrace()})
		}
		l.r--
		return nil
	}
	I["(*sync.Mutex).Lock"], I["(*sync.RWMutex).Lock"] = lock, lock
	I["(*sync.Mutex).Unlock"], I["(*sync.RWMutex).Unlock"] = unlock, unlock
	I["(*sync.RWMutex).RLock"], I["(*sync.RWMutex).RUnlock"] = rlock, runlock
	I["(*sync.Once).Do"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		if ip.side[[2]interface{}{"once", a[0]}] != nil {
			return nil
		}
		ip.side[[2]interface{}{"once", a[0]}] = true
		return ip.callValue(a[1].(*FuncV), nil, &frame{ip: ip})
	}
	wg := func(ip *Interp, c Value) *int {
		k := [2]interface{}{"wg", c}
		if n, ok := ip.side[k].(*int); ok {
			return n
		}
		n := new(int)
		ip.side[k] = n
		return n
	}
	I["(*sync.WaitGroup).Add"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := wg(ip, a[0])
		*n += ip.concInt(arg(a, 1))
		if *n < 0 {
			panic(goPanic{rt: "sync: negative WaitGroup counter", tr: ip.backtrace()})
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := wg(ip, a[0])
		*n--
		if *n < 0 {
			panic(goPanic{rt: "sync: negative WaitGroup counter", tr: ip.backtrace()})
		}
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := wg(ip, a[0])
		ip.block(func() bool { return *n == 0 })
		return nil
	}
	atomAdd := func(ip *Interp, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Cell)
		ii, _ := basicInt(fn.Signature.Results().At(0).Type())
		t := ip.wrap(ip.c.Add(c.v.(*Term), arg(a, 1)), ii)
		ip.store(c, t)
		return t
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		I["sync/atomic.Add"+k] = atomAdd
		I["sync/atomic.Load"+k] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return a[0].(*Cell).v }
		I["sync/atomic.Store"+k] = func(ip *Interp, fn *ssa.Function, a []Value) Value { ip.store(a[0].(*Cell), a[1]); return nil }
		I["sync/atomic.CompareAndSwap"+k] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
			if ip.branch(ip.eq(a[0].(*Cell).v, a[1])) {
				ip.store(a[0].(*Cell), a[2])
				return ip.c.True
			}
			return ip.c.False
		}
	}
	// sync.Map as a side-table map
	smap := func(ip *Interp, c Value) *MapObj {
		k := [2]interface{}{"smap", c}
		if m, ok := ip.side[k].(*MapObj); ok {
			return m
		}
		m := &MapObj{}
		ip.side[k] = m
		return m
	}
	I["(*sync.Map).Load"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		if e := ip.mapFind(smap(ip, a[0]), a[1]); e != nil {
			return TupleV{e.v.v, ip.c.True}
		}
		return TupleV{Iface{}, ip.c.False}
	}
	I["(*sync.Map).Store"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.mapSet(smap(ip, a[0]), a[1], a[2])
		return nil
	}
	I["(*sync.Map).Delete"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.mapDelete(smap(ip, a[0]), a[1])
		return nil
	}

	I["(*sync.Map).LoadOrStore"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		m := smap(ip, a[0])
		if e := ip.mapFind(m, a[1]); e != nil {
			return TupleV{e.v.v, ip.c.True}
		}
		ip.mapSet(m, a[1], a[2])
		return TupleV{a[2], ip.c.False}
	}
	I["(*sync.Map).LoadAndDelete"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		m := smap(ip, a[0])
		if e := ip.mapFind(m, a[1]); e != nil {
			v := e.v.v
			ip.mapDelete(m, a[1])
			return TupleV{v, ip.c.True}
		}
		return TupleV{Iface{}, ip.c.False}
	}
	I["(*sync.Map).Range"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		for _, e := range append([]*mapEntry(nil), smap(ip, a[0]).ents...) {
			if !ip.branch(ip.callValue(a[1].(*FuncV), []Value{e.k, e.v.v}, &frame{ip: ip}).(*Term)) {
				break
			}
		}
		return nil
	}

	// --- time
	I["time.Now"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.timeOfSec(ip.now()) }
	I["time.Since"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Sub(ip.timeOfSec(ip.now()).t, a[0].(TimeV).t)
	}
	I["time.Until"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Sub(a[0].(TimeV).t, ip.timeOfSec(ip.now()).t)
	}
	I["time.Unix"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return TimeV{ip.c.Add(ip.c.Scale(arg(a, 0), nsPerSec), arg(a, 1))}
	}
	I["(time.Time).Unix"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.wrap(ip.c.Div(a[0].(TimeV).t, ip.c.Big(nsPerSec)), intInfo{true, 64})
	}
	I["(time.Time).UnixNano"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.trunc(a[0].(TimeV).t, intInfo{true, 64})
	}
	I["(time.Time).Add"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return TimeV{ip.c.Add(a[0].(TimeV).t, arg(a, 1))}
	}
	I["(time.Time).Sub"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		d := ip.c.Sub(a[0].(TimeV).t, a[1].(TimeV).t)
		lo, hi := intInfo{true, 64}.rng()
		d = ip.c.Ite(ip.c.Gt(d, ip.c.Big(hi)), ip.c.Big(hi), d)
		return ip.c.Ite(ip.c.Lt(d, ip.c.Big(lo)), ip.c.Big(lo), d)
	}
	I["(time.Time).Before"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Lt(a[0].(TimeV).t, a[1].(TimeV).t)
	}
	I["(time.Time).After"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Gt(a[0].(TimeV).t, a[1].(TimeV).t)
	}
	I["(time.Time).Equal"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Eq(a[0].(TimeV).t, a[1].(TimeV).t)
	}
	I["(time.Time).IsZero"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Eq(a[0].(TimeV).t, ip.c.Big(zeroTimeNs))
	}
	ident := func(ip *Interp, fn *ssa.Function, a []Value) Value { return a[0] }
	I["(time.Time).UTC"], I["(time.Time).Local"], I["(time.Time).In"], I["(time.Time).Round"] = ident, ident, ident, ident
	I["(time.Time).Format"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := a[0].(TimeV).t
		l := a[1].(*Str)
		if t.isConst() && l.kind == strConc {
			s := new(big.Int)
			ns := new(big.Int)
			s.DivMod(t.c, nsPerSec, ns)
			return mkStr(time.Unix(s.Int64(), ns.Int64()).UTC().Format(l.s))
		}
		return &Str{kind: strBlob, tag: "time", load: t}
	}
	I["(time.Time).String"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return &Str{kind: strBlob, tag: "time", load: a[0].(TimeV).t}
	}
	I["(time.Duration).Seconds"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := arg(a, 0)
		if t.isConst() {
			return time.Duration(t.c.Int64()).Seconds()
		}
		return &FRat{t, nsPerSec}
	}
	for k, n := range map[string]int64{"Minutes": 60e9, "Hours": 3600e9} {
		n, hours := big.NewInt(n), k == "Hours"
		I["(time.Duration)."+k] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
			t := arg(a, 0)
			if t.isConst() {
				if hours {
					return time.Duration(t.c.Int64()).Hours()
				}
				return time.Duration(t.c.Int64()).Minutes()
			}
			return &FRat{t, n}
		}
	}
	quo := func(ip *Interp, t *Term, n int64) *Term { // rounds towards zero
		d := ip.c.Int(n)
		return ip.c.Ite(ip.c.Ge(t, ip.c.Int(0)), ip.c.Div(t, d), ip.c.Neg(ip.c.Div(ip.c.Neg(t), d)))
	}
	for k, n := range map[string]int64{"Milliseconds": 1e6, "Microseconds": 1e3, "Nanoseconds": 1} {
		n := n
		I["(time.Duration)."+k] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return quo(ip, arg(a, 0), n) }
	}
	I["(time.Duration).Truncate"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t, m := arg(a, 0), arg(a, 1)
		if !m.isConst() || m.c.Sign() <= 0 {
			panic(unsupported("(time.Duration).Truncate to a variable"))
		}
		return ip.c.Scale(quo(ip, t, m.c.Int64()), m.c)
	}
	for k, n := range map[string]int64{"UnixMilli": 1e6, "UnixMicro": 1e3} {
		n := n
		I["(time.Time)."+k] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
			return ip.wrap(ip.c.Div(a[0].(TimeV).t, ip.c.Int(n)), intInfo{true, 64})
		}
	}
	I["(time.Time).Compare"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(TimeV).t, a[1].(TimeV).t
		return ip.c.Ite(ip.c.Lt(x, y), ip.c.Int(-1), ip.c.Ite(ip.c.Gt(x, y), ip.c.Int(1), ip.c.Int(0)))
	}
	I["(time.Duration).String"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := arg(a, 0)
		if t.isConst() {
			return mkStr(time.Duration(t.c.Int64()).String())
		}
		return &Str{kind: strBlob, tag: "dur", load: t}
	}
	I["time.NewTicker"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ch := &ChanObj{cap: 1}
		ip.side[[2]interface{}{"ticker", ch}] = true
		st := ip.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(*StructV)
		st.f[0].v = ch
		return ip.newCell(st)
	}
	I["(*time.Ticker).Stop"] = nop
	// --- context
	I["context.WithValue"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return Iface{ip.w.valueCtxT, ip.newCell(&StructV{f: []*Cell{ip.newCell(a[0]), ip.newCell(a[1]), ip.newCell(a[2])}})}
	}
	noCancel := func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return TupleV{a[0], &FuncV{nat: func(ip *Interp, args []Value) Value { return nil }}}
	}
	I["context.WithCancel"], I["context.WithTimeout"], I["context.WithDeadline"] = noCancel, noCancel, noCancel

	// --- sort
	I["sort.Slice"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		s := ip.norm(a[0].(Iface).v.(SliceV))
		less := a[1].(*FuncV)
		if s.len > 12 {
			panic(pathEnd{"bound", "sort.Slice of more than 12 elements"})
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				r := ip.callValue(less, []Value{ip.c.Int(int64(j)), ip.c.Int(int64(j - 1))}, &frame{ip: ip}).(*Term)
				if !ip.branch(r) {
					break
				}
				x, y := ip.copyVal(s.cell(j).v), ip.copyVal(s.cell(j-1).v)
				ip.store(s.cell(j), y)
				ip.store(s.cell(j-1), x)
			}
		}
		return nil
	}
	I["sort.SliceStable"] = I["sort.Slice"]

	// --- bytes
	I["bytes.Equal"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.strEq(ip.sliceStr(a[0].(SliceV)), ip.sliceStr(a[1].(SliceV)))
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["crypto/subtle.ConstantTimeCompare"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.c.Ite(ip.strEq(ip.sliceStr(a[0].(SliceV)), ip.sliceStr(a[1].(SliceV))), ip.c.Int(1), ip.c.Int(0))
	}
	I["bytes.Compare"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x, y := ip.sliceStr(a[0].(SliceV)), ip.sliceStr(a[1].(SliceV))
		if ip.branch(ip.strEq(x, y)) {
			return ip.c.Int(0)
		}
		return ip.c.Ite(ip.strLess(x, y), ip.c.Int(-1), ip.c.Int(1))
	}
	I["strings.Compare"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Str), a[1].(*Str)
		return ip.c.Ite(ip.strEq(x, y), ip.c.Int(0), ip.c.Ite(ip.strLess(x, y), ip.c.Int(-1), ip.c.Int(1)))
	}
	idxByte := func(ip *Interp, ts []*Term, b *Term) Value {
		r := ip.c.Int(-1)
		for i := len(ts) - 1; i >= 0; i-- {
			r = ip.c.Ite(ip.c.Eq(ts[i], b), ip.c.Int(int64(i)), r)
		}
		return r
	}
	I["internal/bytealg.IndexByteString"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return idxByte(ip, ip.strTerms(a[0].(*Str)), arg(a, 1))
	}
	I["strings.IndexByte"] = I["internal/bytealg.IndexByteString"]
	delete(natives, "strings.IndexByte")
	I["internal/stringslite.Index"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		s, sub := ip.strTerms(a[0].(*Str)), ip.strTerms(a[1].(*Str))
		for i := 0; i+len(sub) <= len(s); i++ {
			m := ip.c.True
			for j := range sub {
				m = ip.c.And(m, ip.c.Eq(s[i+j], sub[j]))
			}
			if ip.branch(m) {
				return ip.c.Int(int64(i))
			}
		}
		return ip.c.Int(-1)
	}
	hasPrefix := func(suffix bool) handler {
		return func(ip *Interp, fn *ssa.Function, a []Value) Value {
			s, sub := ip.strTerms(a[0].(*Str)), ip.strTerms(a[1].(*Str))
			if len(sub) > len(s) {
				return ip.c.False
			}
			off := 0
			if suffix {
				off = len(s) - len(sub)
			}
			m := ip.c.True
			for j := range sub {
				m = ip.c.And(m, ip.c.Eq(s[off+j], sub[j]))
			}
			return m
		}
	}
	I["internal/stringslite.HasPrefix"], I["internal/stringslite.HasSuffix"] = hasPrefix(false), hasPrefix(true)
	I["internal/bytealg.MakeNoZero"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.makeSlice(types.NewSlice(types.Typ[types.Uint8]), arg(a, 0), arg(a, 0))
	}
	I["internal/bytealg.CountString"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, b := range ip.strTerms(a[0].(*Str)) {
			if ip.branch(ip.c.Eq(b, arg(a, 1))) {
				n++
			}
		}
		return ip.c.Int(int64(n))
	}
	I["internal/bytealg.Count"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, b := range ip.strTerms(ip.sliceStr(a[0].(SliceV))) {
			if ip.branch(ip.c.Eq(b, arg(a, 1))) {
				n++
			}
		}
		return ip.c.Int(int64(n))
	}
	I["internal/bytealg.IndexByte"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return idxByte(ip, ip.strTerms(ip.sliceStr(a[0].(SliceV))), arg(a, 1))
	}
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	// strings.Builder / bytes.Buffer kept as side-table string
	sb := func(ip *Interp, c Value) *Str {
		if s, ok := ip.side[[2]interface{}{"sb", c}].(*Str); ok {
			return s
		}
		return emptyStr
	}
	sbSet := func(ip *Interp, c Value, s *Str) { ip.side[[2]interface{}{"sb", c}] = s }
	I["(*strings.Builder).WriteString"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		s := a[1].(*Str)
		sbSet(ip, a[0], ip.strCat(sb(ip, a[0]), s))
		return TupleV{ip.strLen(s), Iface{}}
	}
	I["(*strings.Builder).WriteByte"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		sbSet(ip, a[0], ip.strCat(sb(ip, a[0]), mkBytesStr([]*Term{arg(a, 1)})))
		return Iface{}
	}
	I["(*strings.Builder).WriteRune"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		s := ip.convert(a[1], types.Typ[types.Int32], types.Typ[types.String]).(*Str)
		sbSet(ip, a[0], ip.strCat(sb(ip, a[0]), s))
		return TupleV{ip.strLen(s), Iface{}}
	}
	I["(*strings.Builder).String"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return sb(ip, a[0]) }
	I["(*strings.Builder).Len"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.strLen(sb(ip, a[0])) }
	I["(*strings.Builder).Grow"] = nop
	I["(*strings.Builder).Reset"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { sbSet(ip, a[0], emptyStr); return nil }

	// --- math/big
	B := func(n string, h handler) { I["(*math/big.Int)."+n] = h }
	set := func(ip *Interp, z Value, t *Term) Value {
		c, _ := z.(*Cell)
		if c == nil {
			ip.rtPanic("invalid memory address or nil pointer dereference")
		}
		ip.store(c, BigV{t})
		return c
	}
	I["math/big.NewInt"] = func(ip *Interp, fn *ssa.Function, a []Value) Value { return ip.newCell(BigV{arg(a, 0)}) }
	B("SetInt64", func(ip *Interp, fn *ssa.Function, a []Value) Value { return set(ip, a[0], arg(a, 1)) })
	B("SetUint64", func(ip *Interp, fn *ssa.Function, a []Value) Value { return set(ip, a[0], arg(a, 1)) })
	B("Set", func(ip *Interp, fn *ssa.Function, a []Value) Value { return set(ip, a[0], bigOf(ip, a[1])) })
	B("Add", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return set(ip, a[0], ip.c.Add(bigOf(ip, a[1]), bigOf(ip, a[2])))
	})
	B("Sub", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return set(ip, a[0], ip.c.Sub(bigOf(ip, a[1]), bigOf(ip, a[2])))
	})
	B("Mul", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return set(ip, a[0], ip.c.Mul(bigOf(ip, a[1]), bigOf(ip, a[2])))
	})
	B("Neg", func(ip *Interp, fn *ssa.Function, a []Value) Value { return set(ip, a[0], ip.c.Neg(bigOf(ip, a[1]))) })
	B("Abs", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := bigOf(ip, a[1])
		return set(ip, a[0], ip.c.Ite(ip.c.Lt(t, ip.c.Int(0)), ip.c.Neg(t), t))
	})
	qr := func(ip *Interp, x, y *Term) (q, r *Term) {
		if ip.branch(ip.c.Eq(y, ip.c.Int(0))) {
			panic(goPanic{rt: "division by zero", tr: ip.backtrace()})
		}
		return ip.truncDiv(x, y)
	}
	B("Quo", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		q, _ := qr(ip, bigOf(ip, a[1]), bigOf(ip, a[2]))
		return set(ip, a[0], q)
	})
	B("Rem", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		_, r := qr(ip, bigOf(ip, a[1]), bigOf(ip, a[2]))
		return set(ip, a[0], r)
	})
	B("QuoRem", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		q, r := qr(ip, bigOf(ip, a[1]), bigOf(ip, a[2]))
		set(ip, a[0], q)
		set(ip, a[3], r)
		return TupleV{a[0], a[3]}
	})
	dm := func(ip *Interp, x, y *Term) (q, r *Term) { // Euclidean
		if ip.branch(ip.c.Eq(y, ip.c.Int(0))) {
			panic(goPanic{rt: "division by zero", tr: ip.backtrace()})
		}
		if ip.branch(ip.c.Gt(y, ip.c.Int(0))) {
			q = ip.c.Div(x, y)
		} else {
			q = ip.c.Neg(ip.c.Div(x, ip.c.Neg(y)))
		}
		return q, ip.c.Sub(x, ip.c.Mul(q, y))
	}
	B("Div", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		q, _ := dm(ip, bigOf(ip, a[1]), bigOf(ip, a[2]))
		return set(ip, a[0], q)
	})
	B("Mod", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		_, r := dm(ip, bigOf(ip, a[1]), bigOf(ip, a[2]))
		return set(ip, a[0], r)
	})
	B("DivMod", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		q, r := dm(ip, bigOf(ip, a[1]), bigOf(ip, a[2]))
		set(ip, a[0], q)
		set(ip, a[3], r)
		return TupleV{a[0], a[3]}
	})
	B("Exp", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x, y := bigOf(ip, a[1]), bigOf(ip, a[2])
		if !x.isConst() || !y.isConst() {
			panic(unsupported("big.Int.Exp of symbolic operands"))
		}
		var m *big.Int
		if c, _ := a[3].(*Cell); c != nil {
			m = c.v.(BigV).t.c
		}
		return set(ip, a[0], ip.c.Big(new(big.Int).Exp(x.c, y.c, m)))
	})
	B("Cmp", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x, y := bigOf(ip, a[0]), bigOf(ip, a[1])
		return ip.c.Ite(ip.c.Lt(x, y), ip.c.Int(-1), ip.c.Ite(ip.c.Eq(x, y), ip.c.Int(0), ip.c.Int(1)))
	})
	B("CmpAbs", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ab := func(t *Term) *Term { return ip.c.Ite(ip.c.Lt(t, ip.c.Int(0)), ip.c.Neg(t), t) }
		x, y := ab(bigOf(ip, a[0])), ab(bigOf(ip, a[1]))
		return ip.c.Ite(ip.c.Lt(x, y), ip.c.Int(-1), ip.c.Ite(ip.c.Eq(x, y), ip.c.Int(0), ip.c.Int(1)))
	})
	B("Sign", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x := bigOf(ip, a[0])
		return ip.c.Ite(ip.c.Lt(x, ip.c.Int(0)), ip.c.Int(-1), ip.c.Ite(ip.c.Eq(x, ip.c.Int(0)), ip.c.Int(0), ip.c.Int(1)))
	})
	B("Int64", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return ip.wrap(bigOf(ip, a[0]), intInfo{true, 64})
	})
	B("Uint64", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		// low 64 bits of the magnitude (Go documents out-of-range as undefined)
		x := bigOf(ip, a[0])
		if ip.branch(ip.c.Lt(x, ip.c.Int(0))) {
			x = ip.wrap(ip.c.Neg(x), intInfo{false, 64})
			return ip.wrap(ip.c.Neg(x), intInfo{false, 64})
		}
		return ip.wrap(x, intInfo{false, 64})
	})
	rng := func(ii intInfo) handler {
		return func(ip *Interp, fn *ssa.Function, a []Value) Value {
			lo, hi := ii.rng()
			x := bigOf(ip, a[0])
			return ip.c.And(ip.c.Ge(x, ip.c.Big(lo)), ip.c.Le(x, ip.c.Big(hi)))
		}
	}
	B("IsInt64", rng(intInfo{true, 64}))
	B("IsUint64", rng(intInfo{false, 64}))
	B("String", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		if c, _ := a[0].(*Cell); c == nil {
			return mkStr("<nil>")
		}
		return ropeOf([]strPart{{dec: bigOf(ip, a[0])}})
	})
	B("SetString", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		if r := a[1].(*Str); r.kind == strRope && len(r.parts) == 1 && r.parts[0].dec != nil && arg(a, 2).isConst() && (arg(a, 2).c.Int64() == 10 || arg(a, 2).c.Int64() == 0) {
			return TupleV{set(ip, a[0], r.parts[0].dec), ip.c.True}
		} else if r.kind == strBytes && arg(a, 2).isConst() {
			v, ok := ip.bigParse(r.bytes, int(arg(a, 2).c.Int64()))
			if !ok {
				return TupleV{(*Cell)(nil), ip.c.False}
			}
			return TupleV{set(ip, a[0], v), ip.c.True}
		}
		s := ip.concStr(a[1].(*Str))
		if s.kind != strConc || !arg(a, 2).isConst() {
			panic(unsupported("big.Int.SetString of symbolic text"))
		}
		v, ok := new(big.Int).SetString(s.s, int(arg(a, 2).c.Int64()))
		if !ok {
			return TupleV{(*Cell)(nil), ip.c.False}
		}
		return TupleV{set(ip, a[0], ip.c.Big(v)), ip.c.True}
	})
	B("BitLen", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := bigOf(ip, a[0])
		if !t.isConst() {
			panic(unsupported("BitLen of symbolic"))
		}
		return ip.c.Int(int64(t.c.BitLen()))
	})
	B("SetBytes", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := ip.c.Int(0)
		for _, b := range ip.strTerms(ip.sliceStr(a[1].(SliceV))) {
			t = ip.c.Add(ip.c.Scale(t, big.NewInt(256)), b)
		}
		return set(ip, a[0], t)
	})
	B("Lsh", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return set(ip, a[0], ip.c.Scale(bigOf(ip, a[1]), new(big.Int).Lsh(one, uint(ip.concInt(arg(a, 2))))))
	})
	B("Rsh", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return set(ip, a[0], ip.c.Div(bigOf(ip, a[1]), ip.c.Big(new(big.Int).Lsh(one, uint(ip.concInt(arg(a, 2)))))))
	})
	I["math/bits.Len"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		t := arg(a, 0)
		if !t.isConst() {
			panic(unsupported("bits.Len of symbolic"))
		}
		return ip.c.Int(int64(t.c.BitLen()))
	}
	I["math/bits.Mul64"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		p := ip.c.Mul(arg(a, 0), arg(a, 1))
		return TupleV{ip.c.Div(p, ip.c.Big(pow2tab[64])), ip.c.Mod(p, ip.c.Big(pow2tab[64]))}
	}
	for _, n := range []string{"math.Ceil", "math.Floor", "math.Trunc", "math.Round"} {
		n := n
		I[n] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(*FRat)
			if !ok {
				r, _ := ip.callNative(natives[n], a)
				return r
			}
			d := ip.c.Big(x.den)
			if n == "math.Ceil" {
				return &FRat{ip.c.Neg(ip.c.Div(ip.c.Neg(x.num), d)), one}
			}
			if n == "math.Floor" {
				return &FRat{ip.c.Div(x.num, d), one}
			}
			panic(unsupported(n + " of symbolic float"))
		}
	}

	// --- uuid: fresh identifiers
	I["github.com/google/uuid.New"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		k, _ := ip.side["uuid"].(int)
		ip.side["uuid"] = k + 1
		z := ip.zero(fn.Signature.Results().At(0).Type()).(*ArrayV)
		z.e[0].v = ip.c.Int(0xA0)
		z.e[14].v, z.e[15].v = ip.c.Int(int64((k+1)>>8&255)), ip.c.Int(int64((k+1)&255))
		return z
	}
	I["github.com/google/uuid.NewRandom"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return TupleV{I["github.com/google/uuid.New"](ip, fn.Prog.ImportedPackage("github.com/google/uuid").Func("New"), nil), Iface{}}
	}
	I["(github.com/google/uuid.UUID).String"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		var b []byte
		for _, c := range a[0].(*ArrayV).e {
			t := c.v.(*Term)
			if !t.isConst() {
				panic(unsupported("String of a symbolic uuid"))
			}
			b = append(b, byte(t.c.Int64()))
		}
		h := hex.EncodeToString(b)
		return mkStr(h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:])
	}
	// config: a table the harness fills through config.Set
	cfg := func(n string, h handler) { I["github.com/tdex-network/tdex-daemon/config."+n] = h }
	cfg("Set", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		ip.side["cfg:"+goStr(a[0])] = a[1].(Iface).v
		return nil
	})
	for _, n := range []string{"GetString", "GetInt", "GetFloat", "GetDuration", "GetBool"} {
		cfg(n, func(ip *Interp, fn *ssa.Function, a []Value) Value {
			if v, ok := ip.side["cfg:"+goStr(a[0])]; ok {
				return v
			}
			panic(unsupported("config value " + goStr(a[0]) + " not provided by the harness"))
		})
	}
	cfg("GetDatadir", func(ip *Interp, fn *ssa.Function, a []Value) Value { return mkStr("/tmp/verif-datadir") })
}

func (ip *Interp) needModelLazy() (bool, bool) {
	if len(ip.decs) < len(ip.pre) {
		return true, true
	}
	return ip.needModel()
}

// external handles a call to a function whose body is not executed.
func (ip *Interp) external(fn *ssa.Function, args []Value) Value {
	if ip.initing {
		return ip.zeroResults(fn.Signature)
	}
	panic(unsupported("call of " + fn.String() + " (not modelled)"))
}
