package main

// Terms: hash-consed SMT terms over Bool and (mathematical) Int.  Machine
// integers are represented by Int terms whose value is kept inside the range
// of their Go type (wrap-around is modelled explicitly by the interpreter).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // Int constant
	OpTrue
	OpFalse
	OpVar
	OpLin // sum coef[i]*args[i] + c
	OpMul // product of args (>=2, none const, none Lin-scaled)
	OpDiv // floor(args0/args1), args1 > 0 assumed
	OpMod // args0 - args1*floor(args0/args1)
	OpLe0 // args0 <= 0
	OpEq0 // args0 == 0
	OpIff // bool equality
	OpNot
	OpAnd
	OpOr
	OpIte
	OpBvAnd // bit ops on Ints, width in c
	OpBvOr
	OpBvXor
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	coef []*big.Int
	c    *big.Int // const value / Lin constant / bit width
	name string
	lo   *big.Int // inclusive bounds, nil = unbounded
	hi   *big.Int
	smt  string // cached (named) SMT text
}

type TermCtx struct {
	tab   map[string]*Term
	next  int
	True  *Term
	False *Term
	small [1025]*Term
	vars  []*Term
	dom   map[*Term][]int64 // explicit finite domains (string picks)
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}, dom: map[*Term][]int64{}}
	c.True = c.mk("T", &Term{op: OpTrue, sort: SBool})
	c.False = c.mk("F", &Term{op: OpFalse, sort: SBool})
	return c
}

func (c *TermCtx) mk(key string, t *Term) *Term {
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.next++
	t.id = c.next
	c.tab[key] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpTrue }
func (t *Term) isFalse() bool { return t.op == OpFalse }

func (c *TermCtx) Big(v *big.Int) *Term {
	if v.IsInt64() {
		x := v.Int64()
		if x >= 0 && x < int64(len(c.small)) {
			if t := c.small[x]; t != nil {
				return t
			}
		}
	}
	key := "c" + v.Text(36)
	if o, ok := c.tab[key]; ok {
		return o
	}
	vv := new(big.Int).Set(v)
	t := c.mk(key, &Term{op: OpConst, sort: SInt, c: vv, lo: vv, hi: vv})
	if v.IsInt64() {
		x := v.Int64()
		if x >= 0 && x < int64(len(c.small)) {
			c.small[x] = t
		}
	}
	return t
}

func (c *TermCtx) Int(v int64) *Term {
	if v >= 0 && v < int64(len(c.small)) {
		if t := c.small[v]; t != nil {
			return t
		}
	}
	return c.Big(big.NewInt(v))
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns (creating) the named variable.
func (c *TermCtx) Var(name string, s Sort, lo, hi *big.Int) *Term {
	key := "v" + name
	if o, ok := c.tab[key]; ok {
		return o
	}
	t := c.mk(key, &Term{op: OpVar, sort: s, name: name, lo: lo, hi: hi})
	c.vars = append(c.vars, t)
	return t
}

// ---- linear forms

type lin struct {
	c  *big.Int
	at []*Term
	co []*big.Int
}

func (c *TermCtx) toLin(t *Term) lin {
	switch t.op {
	case OpConst:
		return lin{c: t.c}
	case OpLin:
		return lin{t.c, t.args, t.coef}
	}
	return lin{big.NewInt(0), []*Term{t}, []*big.Int{one}}
}

var one = big.NewInt(1)
var zero = big.NewInt(0)

func (c *TermCtx) fromLin(l lin) *Term {
	if len(l.at) == 0 {
		return c.Big(l.c)
	}
	if len(l.at) == 1 && l.c.Sign() == 0 && l.co[0].Cmp(one) == 0 {
		return l.at[0]
	}
	// k*(x mod b) + k*b*(x div b) = k*x
	if len(l.at) > 1 {
		for i, a := range l.at {
			if a.op != OpMod || !a.args[1].isConst() {
				continue
			}
			kb := new(big.Int).Mul(l.co[i], a.args[1].c)
			for j, o := range l.at {
				if l.co[j].Cmp(kb) != 0 {
					continue
				}
				var e *big.Int // o is (z div b) mod e: the two are z mod b*e
				if o.op == OpMod && o.args[1].isConst() {
					o, e = o.args[0], o.args[1].c
				}
				if o.op != OpDiv || !o.args[1].isConst() {
					continue
				}
				// o is z div b for some z; is a its z mod b?
				k := new(big.Int)
				if _, m := k.DivMod(o.args[1].c, a.args[1].c, new(big.Int)); m.Sign() != 0 {
					continue
				}
				z := c.Div(o.args[0], c.Big(k))
				if c.Mod(z, a.args[1]) == a && c.Div(z, a.args[1]) == o {
					r := lin{c: l.c}
					for n := range l.at {
						if n != i && n != j {
							r.at = append(r.at, l.at[n])
							r.co = append(r.co, l.co[n])
						}
					}
					if e != nil {
						z = c.Mod(z, c.Big(new(big.Int).Mul(e, a.args[1].c)))
					}
					return c.fromLin(linAdd(r, c.toLin(z), l.co[i]))
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteByte('L')
	sb.WriteString(l.c.Text(36))
	for i, a := range l.at {
		sb.WriteByte('|')
		sb.WriteString(l.co[i].Text(36))
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	lok, hok := true, true
	for i, a := range l.at {
		al, ah := a.lo, a.hi
		if l.co[i].Sign() < 0 {
			al, ah = ah, al
		}
		if lok && al != nil {
			lo.Add(lo, new(big.Int).Mul(al, l.co[i]))
		} else {
			lok = false
		}
		if hok && ah != nil {
			hi.Add(hi, new(big.Int).Mul(ah, l.co[i]))
		} else {
			hok = false
		}
	}
	t := &Term{op: OpLin, sort: SInt, args: l.at, coef: l.co, c: l.c}
	if lok {
		t.lo = lo
	}
	if hok {
		t.hi = hi
	}
	return c.mk(key, t)
}

func linAdd(a, b lin, sb *big.Int) lin {
	r := lin{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, sb))}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		if j >= len(b.at) || (i < len(a.at) && a.at[i].id < b.at[j].id) {
			r.at = append(r.at, a.at[i])
			r.co = append(r.co, a.co[i])
			i++
		} else if i >= len(a.at) || b.at[j].id < a.at[i].id {
			r.at = append(r.at, b.at[j])
			r.co = append(r.co, new(big.Int).Mul(b.co[j], sb))
			j++
		} else {
			co := new(big.Int).Add(a.co[i], new(big.Int).Mul(b.co[j], sb))
			if co.Sign() != 0 {
				r.at = append(r.at, a.at[i])
				r.co = append(r.co, co)
			}
			i++
			j++
		}
	}
	return r
}

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Big(new(big.Int).Add(a.c, b.c))
	}
	if a.isConst() && a.c.Sign() == 0 {
		return b
	}
	if b.isConst() && b.c.Sign() == 0 {
		return a
	}
	return c.fromLin(linAdd(c.toLin(a), c.toLin(b), one))
}

var minusOne = big.NewInt(-1)

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Big(new(big.Int).Sub(a.c, b.c))
	}
	if b.isConst() && b.c.Sign() == 0 {
		return a
	}
	return c.fromLin(linAdd(c.toLin(a), c.toLin(b), minusOne))
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }

func (c *TermCtx) Scale(a *Term, k *big.Int) *Term {
	if k.Sign() == 0 {
		return c.Int(0)
	}
	return c.fromLin(linAdd(lin{c: zero}, c.toLin(a), k))
}

func bmin(v ...*big.Int) (m, M *big.Int) {
	m, M = v[0], v[0]
	for _, x := range v[1:] {
		if x.Cmp(m) < 0 {
			m = x
		}
		if x.Cmp(M) > 0 {
			M = x
		}
	}
	return
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.c)
	}
	if b.isConst() {
		return c.Scale(a, b.c)
	}
	// ite distribution over constants keeps comparisons simple
	if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
	}
	if b.op == OpIte && b.args[1].isConst() && b.args[2].isConst() {
		return c.Mul(b, a)
	}
	// distribute over linear sums with few terms
	la, lb := c.toLin(a), c.toLin(b)
	if len(la.at) > 1 || la.c.Sign() != 0 || la.co[0].Cmp(one) != 0 || len(lb.at) > 1 || lb.c.Sign() != 0 || lb.co[0].Cmp(one) != 0 {
		if (len(la.at)+1)*(len(lb.at)+1) <= 16 {
			r := c.Int(0)
			for i := range la.at {
				for j := range lb.at {
					p := c.mulAtoms(la.at[i], lb.at[j])
					r = c.Add(r, c.Scale(p, new(big.Int).Mul(la.co[i], lb.co[j])))
				}
				r = c.Add(r, c.Scale(la.at[i], new(big.Int).Mul(la.co[i], lb.c)))
			}
			for j := range lb.at {
				r = c.Add(r, c.Scale(lb.at[j], new(big.Int).Mul(lb.co[j], la.c)))
			}
			r = c.Add(r, c.Big(new(big.Int).Mul(la.c, lb.c)))
			// tighten bounds with the undistributed product
			if r.op == OpLin && a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
				m, M := bmin(new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi))
				if r.lo == nil || r.lo.Cmp(m) < 0 {
					r.lo = m
				}
				if r.hi == nil || r.hi.Cmp(M) > 0 {
					r.hi = M
				}
			}
			return r
		}
	}
	return c.mulAtoms(a, b)
}

func (c *TermCtx) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	if a.op == OpMul {
		fs = append(fs, a.args...)
	} else {
		fs = append(fs, a)
	}
	if b.op == OpMul {
		fs = append(fs, b.args...)
	} else {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	key := "M"
	for _, f := range fs {
		key += "," + strconv.Itoa(f.id)
	}
	t := &Term{op: OpMul, sort: SInt, args: fs}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		t.lo, t.hi = bmin(new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi))
	} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
	}
	if len(fs) == 2 && fs[0] == fs[1] && (t.lo == nil || t.lo.Sign() < 0) {
		t.lo = zero
	}
	return c.mk(key, t)
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 => floor
	return q
}

// Div is floor division; the caller guarantees b > 0.
func (c *TermCtx) Div(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k.Cmp(one) == 0 {
			return a
		}
		if a.isConst() {
			return c.Big(floorDiv(a.c, k))
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, k), floorDiv(a.hi, k)
			if ql.Cmp(qh) == 0 {
				return c.Big(ql)
			}
		}
		if a.op == OpDiv && a.args[1].isConst() {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].c, k)))
		}
		if a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Div(a.args[1], b), c.Div(a.args[2], b))
		}
		// pull out multiples of k
		if a.op == OpLin {
			q, r := c.splitLin(a, k)
			if r.isConst() {
				return c.Add(q, c.Big(floorDiv(r.c, k)))
			}
			if !(q.isConst() && q.c.Sign() == 0) {
				return c.Add(q, c.Div(r, b))
			}
		}
	} else if a.isConst() && a.c.Sign() == 0 {
		return a
	} else if a == b {
		return c.Int(1)
	}
	key := "/" + strconv.Itoa(a.id) + "," + strconv.Itoa(b.id)
	t := &Term{op: OpDiv, sort: SInt, args: []*Term{a, b}}
	if b.isConst() {
		if a.lo != nil {
			t.lo = floorDiv(a.lo, b.c)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, b.c)
		}
	} else if a.lo != nil && a.lo.Sign() >= 0 {
		t.lo = zero
		if a.hi != nil {
			t.hi = a.hi
			if b.lo != nil && b.lo.Sign() > 0 {
				t.hi = floorDiv(a.hi, b.lo)
			}
		}
		if b.hi != nil && b.hi.Sign() > 0 {
			t.lo = floorDiv(a.lo, b.hi)
		}
	}
	return c.mk(key, t)
}

// splitLin writes a = k*q + r with coefficients of r not multiples of k.
func (c *TermCtx) splitLin(a *Term, k *big.Int) (q, r *Term) {
	lq, lr := lin{c: floorDiv(a.c, k)}, lin{c: new(big.Int).Mod(a.c, k)}
	if n := k.BitLen() - 1; n <= 56 && n%8 == 0 && int(k.TrailingZeroBits()) == n {
		// leave shifts by whole bytes alone, so that bytes of a sum add up to it again
		lq.c, lr.c = zero, a.c
	}
	m := new(big.Int)
	for i, at := range a.args {
		if m.Mod(a.coef[i], k).Sign() == 0 {
			lq.at = append(lq.at, at)
			lq.co = append(lq.co, new(big.Int).Div(a.coef[i], k))
		} else {
			lr.at = append(lr.at, at)
			lr.co = append(lr.co, a.coef[i])
		}
	}
	return c.fromLin(lq), c.fromLin(lr)
}

// Mod is the remainder of floor division; the caller guarantees b > 0.
func (c *TermCtx) Mod(a, b *Term) *Term {
	if b.isConst() {
		k := b.c
		if k.Cmp(one) == 0 {
			return c.Int(0)
		}
		if a.isConst() {
			return c.Big(new(big.Int).Mod(a.c, k))
		}
		if a.lo != nil && a.hi != nil {
			ql, qh := floorDiv(a.lo, k), floorDiv(a.hi, k)
			if ql.Cmp(qh) == 0 {
				return c.Sub(a, c.Big(new(big.Int).Mul(ql, k)))
			}
		}
		if a.op == OpMod && a.args[1].isConst() && new(big.Int).Mod(a.args[1].c, k).Sign() == 0 {
			return c.Mod(a.args[0], b)
		}
		if a.op == OpLin {
			q, r := c.splitLin(a, k)
			if !(q.isConst() && q.c.Sign() == 0) {
				return c.Mod(r, b)
			}
		}
		if a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Mod(a.args[1], b), c.Mod(a.args[2], b))
		}
	} else {
		return c.Sub(a, c.Mul(b, c.Div(a, b)))
	}
	key := "%" + strconv.Itoa(a.id) + "," + strconv.Itoa(b.id)
	t := &Term{op: OpMod, sort: SInt, args: []*Term{a, b}, lo: zero, hi: new(big.Int).Sub(b.c, one)}
	return c.mk(key, t)
}

// ---- booleans

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return c.False
	case OpFalse:
		return c.True
	case OpNot:
		return a.args[0]
	case OpLe0: // not (x<=0)  <=>  x>=1  <=> 1-x<=0
		return c.le0(c.Sub(c.Int(1), a.args[0]))
	}
	return c.mk("!"+strconv.Itoa(a.id), &Term{op: OpNot, sort: SBool, args: []*Term{a}})
}

func (c *TermCtx) nary(op Op, ch string, unit, abs *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == abs {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return abs
		}
	}
	for _, t := range out {
		if seen[c.Not(t)] {
			return abs
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	key := ch
	for _, t := range out {
		key += "," + strconv.Itoa(t.id)
	}
	return c.mk(key, &Term{op: op, sort: SBool, args: out})
}
func (c *TermCtx) And(ts ...*Term) *Term { return c.nary(OpAnd, "&", c.True, c.False, ts) }
func (c *TermCtx) Or(ts ...*Term) *Term  { return c.nary(OpOr, "^", c.False, c.True, ts) }

func (c *TermCtx) Ite(b, x, y *Term) *Term {
	if b.isTrue() || x == y {
		return x
	}
	if b.isFalse() {
		return y
	}
	if x.sort == SBool {
		if x.isTrue() {
			return c.Or(b, y)
		}
		if x.isFalse() {
			return c.And(c.Not(b), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(b), x)
		}
		if y.isFalse() {
			return c.And(b, x)
		}
	}
	if b.op == OpNot {
		return c.Ite(b.args[0], y, x)
	}
	key := "?" + strconv.Itoa(b.id) + "," + strconv.Itoa(x.id) + "," + strconv.Itoa(y.id)
	t := &Term{op: OpIte, sort: x.sort, args: []*Term{b, x, y}}
	if x.sort == SInt {
		if x.lo != nil && y.lo != nil {
			t.lo, _ = bmin(x.lo, y.lo)
		}
		if x.hi != nil && y.hi != nil {
			_, t.hi = bmin(x.hi, y.hi)
		}
	}
	return c.mk(key, t)
}

func (c *TermCtx) le0(d *Term) *Term {
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.True
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.False
	}
	if d.op == OpIte && (d.args[1].isConst() || d.args[2].isConst()) {
		return c.Ite(d.args[0], c.le0(d.args[1]), c.le0(d.args[2]))
	}
	// single ite atom with const coefficient: push comparison inside
	if d.op == OpLin && len(d.args) == 1 && d.args[0].op == OpIte {
		a := d.args[0]
		if a.args[1].isConst() || a.args[2].isConst() {
			f := func(x *Term) *Term { return c.le0(c.Add(c.Scale(x, d.coef[0]), c.Big(d.c))) }
			return c.Ite(a.args[0], f(a.args[1]), f(a.args[2]))
		}
	}
	if d.op == OpLin { // gcd normalisation
		g := new(big.Int)
		for _, k := range d.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(one) > 0 {
			l := lin{at: d.args}
			for _, k := range d.coef {
				l.co = append(l.co, new(big.Int).Div(k, g))
			}
			// g*s + c <= 0  <=>  s <= floor(-c/g)  <=> s - floor(-c/g) <= 0
			l.c = new(big.Int).Neg(floorDiv(new(big.Int).Neg(d.c), g))
			return c.le0(c.fromLin(l))
		}
	}
	return c.mk("<"+strconv.Itoa(d.id), &Term{op: OpLe0, sort: SBool, args: []*Term{d}})
}
func (c *TermCtx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *TermCtx) Lt(a, b *Term) *Term { return c.le0(c.Add(c.Sub(a, b), c.Int(1))) }
func (c *TermCtx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *TermCtx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.sort == SBool {
		if a == b {
			return c.True
		}
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk("="+strconv.Itoa(a.id)+","+strconv.Itoa(b.id), &Term{op: OpIff, sort: SBool, args: []*Term{a, b}})
	}
	if a == b {
		return c.True
	}
	return c.eq0(c.Sub(a, b))
}

func (c *TermCtx) eq0(d *Term) *Term {
	if d.isConst() {
		return c.Bool(d.c.Sign() == 0)
	}
	if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
		return c.False
	}
	if d.op == OpIte && (d.args[1].isConst() || d.args[2].isConst()) {
		return c.Ite(d.args[0], c.eq0(d.args[1]), c.eq0(d.args[2]))
	}
	if d.op == OpLin && len(d.args) == 1 {
		a := d.args[0]
		if a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
			f := func(x *Term) *Term { return c.eq0(c.Add(c.Scale(x, d.coef[0]), c.Big(d.c))) }
			return c.Ite(a.args[0], f(a.args[1]), f(a.args[2]))
		}
		if new(big.Int).Mod(d.c, new(big.Int).Abs(d.coef[0])).Sign() != 0 {
			return c.False
		}
		if vals, ok := c.dom[a]; ok { // explicit domain
			want := new(big.Int).Div(new(big.Int).Neg(d.c), d.coef[0])
			hit := false
			for _, v := range vals {
				if want.IsInt64() && want.Int64() == v {
					hit = true
				}
			}
			if !hit {
				return c.False
			}
		}
	}
	if d.op == OpLin {
		if d.coef[0].Sign() < 0 {
			d = c.Neg(d)
		}
		g := new(big.Int)
		for _, k := range d.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(one) > 0 {
			if new(big.Int).Mod(d.c, g).Sign() != 0 {
				return c.False
			}
			l := lin{at: d.args, c: new(big.Int).Div(d.c, g)}
			for _, k := range d.coef {
				l.co = append(l.co, new(big.Int).Div(k, g))
			}
			d = c.fromLin(l)
		}
	}
	return c.mk("z"+strconv.Itoa(d.id), &Term{op: OpEq0, sort: SBool, args: []*Term{d}})
}

// maxBits returns k such that 0 <= t < 2^k is known from bounds, or -1.
func (t *Term) maxBits() int {
	if t.lo == nil || t.hi == nil || t.lo.Sign() < 0 {
		return -1
	}
	return t.hi.BitLen()
}

// lowZero returns the number of low bits syntactically known to be zero.
func (t *Term) lowZero() int {
	switch t.op {
	case OpConst:
		if t.c.Sign() == 0 {
			return 4096
		}
		return int(t.c.TrailingZeroBits())
	case OpLin:
		m := 4096
		if t.c.Sign() != 0 {
			m = int(t.c.TrailingZeroBits())
		}
		for i, a := range t.args {
			k := int(t.coef[i].TrailingZeroBits()) + a.lowZero()
			if k < m {
				m = k
			}
		}
		return m
	case OpIte:
		a, b := t.args[1].lowZero(), t.args[2].lowZero()
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func (c *TermCtx) BitOp(op Op, a, b *Term, width int) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		x, y := a.c, b.c
		switch op {
		case OpBvAnd:
			r.And(x, y)
		case OpBvOr:
			r.Or(x, y)
		case OpBvXor:
			r.Xor(x, y)
		}
		return c.Big(r)
	}
	if a.isConst() {
		a, b = b, a
	}
	switch op {
	case OpBvAnd:
		if b.isConst() {
			if b.c.Sign() == 0 {
				return b
			}
			n := new(big.Int).Add(b.c, one)
			if n.Sign() > 0 && new(big.Int).And(n, b.c).Sign() == 0 { // mask 2^k-1
				return c.Mod(a, c.Big(n))
			}
			// contiguous mask 2^j*(2^k-1)
			tz := b.c.TrailingZeroBits()
			sh := new(big.Int).Rsh(b.c, tz)
			n = new(big.Int).Add(sh, one)
			if b.c.Sign() > 0 && new(big.Int).And(n, sh).Sign() == 0 {
				p := new(big.Int).Lsh(one, tz)
				return c.Scale(c.Mod(c.Div(a, c.Big(p)), c.Big(n)), p)
			}
		}
		if a == b {
			return a
		}
	case OpBvOr, OpBvXor:
		if b.isConst() && b.c.Sign() == 0 {
			return a
		}
		ka, kb := a.maxBits(), b.maxBits()
		if ka >= 0 && b.lowZero() >= ka || kb >= 0 && a.lowZero() >= kb {
			return c.Add(a, b)
		}
		if b.isConst() && b.c.Sign() > 0 && new(big.Int).And(b.c, new(big.Int).Sub(b.c, one)).Sign() == 0 {
			// single bit: test it
			bit := c.Mod(c.Div(a, b), c.Int(2))
			if op == OpBvOr {
				return c.Add(a, c.Ite(c.Eq(bit, c.Int(1)), c.Int(0), b))
			}
			return c.Add(a, c.Ite(c.Eq(bit, c.Int(1)), c.Neg(b), b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	key := fmt.Sprintf("b%d,%d,%d,%d", op, width, a.id, b.id)
	t := &Term{op: op, sort: SInt, args: []*Term{a, b}, c: big.NewInt(int64(width))}
	if a.maxBits() >= 0 && b.maxBits() >= 0 {
		t.lo = zero
		k := a.maxBits()
		if op == OpBvAnd {
			if b.maxBits() < k {
				k = b.maxBits()
			}
		} else if b.maxBits() > k {
			k = b.maxBits()
		}
		t.hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(k)), one)
	}
	return c.mk(key, t)
}

// ---- evaluation under a model

type Model map[string]*big.Int // bools as 0/1

func (t *Term) Eval(m Model, memo map[*Term]*big.Int) *big.Int {
	switch t.op {
	case OpConst:
		return t.c
	case OpTrue:
		return one
	case OpFalse:
		return zero
	case OpVar:
		if v, ok := m[t.name]; ok {
			return v
		}
		// default inside the bounds
		if t.lo != nil && t.lo.Sign() > 0 {
			return t.lo
		}
		if t.hi != nil && t.hi.Sign() < 0 {
			return t.hi
		}
		return zero
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r *big.Int
	b := func(x bool) *big.Int {
		if x {
			return one
		}
		return zero
	}
	switch t.op {
	case OpLin:
		r = new(big.Int).Set(t.c)
		for i, a := range t.args {
			r.Add(r, new(big.Int).Mul(t.coef[i], a.Eval(m, memo)))
		}
	case OpMul:
		r = new(big.Int).Set(one)
		for _, a := range t.args {
			r.Mul(r, a.Eval(m, memo))
		}
	case OpDiv, OpMod:
		d := t.args[1].Eval(m, memo)
		if d.Sign() == 0 {
			r = zero
		} else {
			q, mo := new(big.Int), new(big.Int)
			q.DivMod(t.args[0].Eval(m, memo), d, mo)
			if t.op == OpDiv {
				r = q
			} else {
				r = mo
			}
		}
	case OpLe0:
		r = b(t.args[0].Eval(m, memo).Sign() <= 0)
	case OpEq0:
		r = b(t.args[0].Eval(m, memo).Sign() == 0)
	case OpIff:
		r = b(t.args[0].Eval(m, memo).Cmp(t.args[1].Eval(m, memo)) == 0)
	case OpNot:
		r = b(t.args[0].Eval(m, memo).Sign() == 0)
	case OpAnd:
		r = one
		for _, a := range t.args {
			if a.Eval(m, memo).Sign() == 0 {
				r = zero
				break
			}
		}
	case OpOr:
		r = zero
		for _, a := range t.args {
			if a.Eval(m, memo).Sign() != 0 {
				r = one
				break
			}
		}
	case OpIte:
		if t.args[0].Eval(m, memo).Sign() != 0 {
			r = t.args[1].Eval(m, memo)
		} else {
			r = t.args[2].Eval(m, memo)
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		x, y := t.args[0].Eval(m, memo), t.args[1].Eval(m, memo)
		r = new(big.Int)
		switch t.op {
		case OpBvAnd:
			r.And(x, y)
		case OpBvOr:
			r.Or(x, y)
		case OpBvXor:
			r.Xor(x, y)
		}
	default:
		panic("eval")
	}
	memo[t] = r
	return r
}

// ---- SMT printing.  Each non-leaf term is emitted once as a define-fun.

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// smtExpr prints the top node with children referenced through ref.
func (t *Term) smtExpr(ref func(*Term) string) string {
	bin := func(op string) string {
		s := "(" + op
		for _, a := range t.args {
			s += " " + ref(a)
		}
		return s + ")"
	}
	switch t.op {
	case OpConst:
		return smtInt(t.c)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpVar:
		return "|" + t.name + "|"
	case OpLin:
		s := "(+"
		n := 0
		for i, a := range t.args {
			if t.coef[i].Cmp(one) == 0 {
				s += " " + ref(a)
			} else {
				s += " (* " + smtInt(t.coef[i]) + " " + ref(a) + ")"
			}
			n++
		}
		if t.c.Sign() != 0 {
			s += " " + smtInt(t.c)
			n++
		}
		if n == 1 {
			return s[3:len(s)]
		}
		return s + ")"
	case OpMul:
		return bin("*")
	case OpDiv:
		return bin("div")
	case OpMod:
		return bin("mod")
	case OpLe0:
		return "(<= " + ref(t.args[0]) + " 0)"
	case OpEq0:
		return "(= " + ref(t.args[0]) + " 0)"
	case OpIff:
		return bin("=")
	case OpNot:
		return bin("not")
	case OpAnd:
		return bin("and")
	case OpOr:
		return bin("or")
	case OpIte:
		return bin("ite")
	case OpBvAnd, OpBvOr, OpBvXor:
		op := map[Op]string{OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor"}[t.op]
		w := t.c.String()
		return "(bv2nat (" + op + " ((_ int2bv " + w + ") " + ref(t.args[0]) + ") ((_ int2bv " + w + ") " + ref(t.args[1]) + ")))"
	}
	panic("smt")
}

func (t *Term) String() string {
	if t.op == OpConst || t.op == OpVar || t.op == OpTrue || t.op == OpFalse {
		return t.smtExpr(nil)
	}
	d := 0
	var rec func(*Term) string
	rec = func(x *Term) string {
		d++
		defer func() { d-- }()
		if d > 14 {
			return "..."
		}
		return x.smtExpr(rec)
	}
	return t.smtExpr(rec)
}
