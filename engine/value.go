package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term (ints, bools), float64, *FRat, *Str, *Cell (pointer), *StructV,
//	*ArrayV, SliceV, *MapObj, Iface, *FuncV, *ChanObj, TupleV, BigV, TimeV,
//	Opaque
type Value interface{}

type Cell struct {
	v    Value
	init bool // created during package initialisation (journaled on write)
}
type StructV struct{ f []*Cell }
type ArrayV struct{ e []*Cell }
type SliceV struct {
	arr  *ArrayV
	off  int
	len  int
	cap  int
	blob *Str // opaque immutable bytes (arr == nil)
}
type mapEntry struct {
	k Value
	v *Cell
}
type MapObj struct {
	ents []*mapEntry
	init bool
}
type Iface struct {
	t types.Type
	v Value
}
type FuncV struct {
	fn   *ssa.Function
	env  []Value
	nat  func(ip *Interp, args []Value) Value
	name string
	bt   string // builtin
}
type TupleV []Value
type BigV struct{ t *Term }
type TimeV struct{ t *Term } // ns since Unix epoch
type FRat struct {           // exact rational num/den
	num *Term
	den *big.Int
}
type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	id     int
}

// Opaque holds a host-side payload of a modelled library object.
type Opaque struct {
	kind string
	p    interface{}
}

// ---- strings

type strKind uint8

const (
	strConc  strKind = iota
	strAtom          // symbolic id over interned literals
	strBytes         // concrete length, symbolic bytes
	strRope          // concatenation
	strBlob          // injective encoding of a payload value
)

type strPart struct {
	lit string
	dec *Term // decimal rendering of an integer
	sub *Str  // atom
}
type Str struct {
	kind  strKind
	s     string
	atom  *Term
	bytes []*Term
	parts []strPart
	tag   string
	load  Value
}

var emptyStr = &Str{}

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

var internMu sync.Mutex
var internTab = map[string]int64{}
var internRev []string

func intern(s string) int64 {
	internMu.Lock()
	defer internMu.Unlock()
	if i, ok := internTab[s]; ok {
		return i
	}
	i := int64(len(internRev))
	internTab[s] = i
	internRev = append(internRev, s)
	return i
}
func internStr(i int64) (string, bool) {
	internMu.Lock()
	defer internMu.Unlock()
	if i >= 0 && i < int64(len(internRev)) {
		return internRev[i], true
	}
	return "", false
}

const freeAtomBase = 1000000

// ---- type helpers

type intInfo struct {
	signed bool
	bits   int
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{true, 64}, true
	case types.Int8:
		return intInfo{true, 8}, true
	case types.Int16:
		return intInfo{true, 16}, true
	case types.Int32, types.UntypedRune:
		return intInfo{true, 32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{false, 64}, true
	case types.Uint8:
		return intInfo{false, 8}, true
	case types.Uint16:
		return intInfo{false, 16}, true
	case types.Uint32:
		return intInfo{false, 32}, true
	}
	return intInfo{}, false
}

var pow2tab = func() (r [130]*big.Int) {
	for i := range r {
		r[i] = new(big.Int).Lsh(one, uint(i))
	}
	return
}()

func (i intInfo) rng() (lo, hi *big.Int) {
	if i.signed {
		return new(big.Int).Neg(pow2tab[i.bits-1]), new(big.Int).Sub(pow2tab[i.bits-1], one)
	}
	return zero, new(big.Int).Sub(pow2tab[i.bits], one)
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
	}
	return ""
}

var zeroTimeNs, _ = new(big.Int).SetString("-62135596800000000000", 10)

func (ip *Interp) newCell(v Value) *Cell { return &Cell{v: v, init: ip.initing} }

func (ip *Interp) zero(t types.Type) Value {
	switch namedPath(t) {
	case "math/big.Int":
		return BigV{ip.c.Int(0)}
	case "time.Time":
		return TimeV{ip.c.Big(zeroTimeNs)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := basicInt(u); ok {
			return ip.c.Int(0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return ip.c.False
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float64, types.Float32, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Cell)(nil)
		case types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &StructV{f: make([]*Cell, u.NumFields())}
		for i := range s.f {
			s.f[i] = ip.newCell(ip.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrayV{e: make([]*Cell, u.Len())}
		for i := range a.e {
			a.e[i] = ip.newCell(ip.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = ip.zero(u.At(i).Type())
		}
		return tv
	}
	panic(unsupported("zero value of " + t.String()))
}

// copyVal makes a private copy of a (possibly aggregate) value.
func (ip *Interp) copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		s := &StructV{f: make([]*Cell, len(x.f))}
		for i, c := range x.f {
			s.f[i] = ip.newCell(ip.copyVal(c.v))
		}
		return s
	case *ArrayV:
		a := &ArrayV{e: make([]*Cell, len(x.e))}
		for i, c := range x.e {
			a.e[i] = ip.newCell(ip.copyVal(c.v))
		}
		return a
	}
	return v
}

func (ip *Interp) store(c *Cell, v Value) {
	switch x := v.(type) {
	case *StructV:
		if d, ok := c.v.(*StructV); ok && len(d.f) == len(x.f) {
			for i := range d.f {
				ip.store(d.f[i], x.f[i].v)
			}
			return
		}
	case *ArrayV:
		if d, ok := c.v.(*ArrayV); ok && len(d.e) == len(x.e) {
			for i := range d.e {
				ip.store(d.e[i], x.e[i].v)
			}
			return
		}
	}
	if c.init && !ip.initing {
		old := c.v
		ip.journal = append(ip.journal, func() { c.v = old })
	}
	c.v = v
}

func (ip *Interp) touchMap(m *MapObj) {
	if m.init && !ip.initing {
		old := append([]*mapEntry(nil), m.ents...)
		ip.journal = append(ip.journal, func() { m.ents = old })
	}
}

func (s SliceV) cell(i int) *Cell { return s.arr.e[s.off+i] }

func (ip *Interp) sliceOf(vals []Value) SliceV {
	a := &ArrayV{e: make([]*Cell, len(vals))}
	for i, v := range vals {
		a.e[i] = ip.newCell(v)
	}
	return SliceV{arr: a, len: len(vals), cap: len(vals)}
}
func (ip *Interp) bytesOf(b []byte) SliceV {
	vals := make([]Value, len(b))
	for i, x := range b {
		vals[i] = ip.c.Int(int64(x))
	}
	return ip.sliceOf(vals)
}

// concBytes returns the concrete content of a byte slice, if concrete.
func (s SliceV) concBytes() ([]byte, bool) {
	if s.blob != nil {
		if s.blob.kind == strConc {
			return []byte(s.blob.s), true
		}
		return nil, false
	}
	b := make([]byte, s.len)
	for i := 0; i < s.len; i++ {
		t, ok := s.cell(i).v.(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		b[i] = byte(t.c.Int64())
	}
	return b, true
}

// ---- equality

func (ip *Interp) eq(a, b Value) *Term {
	c := ip.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case float64:
		if y, ok := b.(float64); ok {
			return c.Bool(x == y)
		}
		return ip.fcmp("==", a, b)
	case *FRat:
		return ip.fcmp("==", a, b)
	case *Str:
		return ip.strEq(x, b.(*Str))
	case *Cell:
		y, _ := b.(*Cell)
		return c.Bool(x == y)
	case *StructV:
		y := b.(*StructV)
		r := c.True
		for i := range x.f {
			r = c.And(r, ip.eq(x.f[i].v, y.f[i].v))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := c.True
		for i := range x.e {
			r = c.And(r, ip.eq(x.e[i].v, y.e[i].v))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return ip.eq(x.v, y.v)
	case *MapObj:
		y, _ := b.(*MapObj)
		return c.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return c.Bool(x == y)
	case *FuncV:
		y, _ := b.(*FuncV)
		return c.Bool(x == y)
	case SliceV:
		y, ok := b.(SliceV)
		if ok {
			return c.Bool(x.arr == nil && y.arr == nil && x.blob == nil && y.blob == nil)
		}
	case BigV:
		return c.Eq(x.t, b.(BigV).t)
	case TimeV:
		return c.Eq(x.t, b.(TimeV).t)
	case Opaque:
		y, ok := b.(Opaque)
		return c.Bool(ok && x.kind == y.kind && x.p == y.p)
	case nil:
		return c.Bool(b == nil)
	}
	panic(unsupported(fmt.Sprintf("equality of %T", a)))
}

func (ip *Interp) strEq(a, b *Str) *Term {
	c := ip.c
	if a == b {
		return c.True
	}
	if a.kind == strConc && b.kind == strConc {
		return c.Bool(a.s == b.s)
	}
	if a.kind == strConc {
		a, b = b, a
	}
	switch a.kind {
	case strAtom:
		switch b.kind {
		case strConc:
			return c.Eq(a.atom, c.Int(intern(b.s)))
		case strAtom:
			return c.Eq(a.atom, b.atom)
		}
	case strBytes:
		switch b.kind {
		case strConc:
			if len(b.s) != len(a.bytes) {
				return c.False
			}
			r := c.True
			for i := range a.bytes {
				r = c.And(r, c.Eq(a.bytes[i], c.Int(int64(b.s[i]))))
			}
			return r
		case strBytes:
			if len(b.bytes) != len(a.bytes) {
				return c.False
			}
			r := c.True
			for i := range a.bytes {
				r = c.And(r, c.Eq(a.bytes[i], b.bytes[i]))
			}
			return r
		}
	case strBlob:
		switch b.kind {
		case strConc: // a well-formed encoding never equals a literal of ours
			return c.False
		case strBlob:
			if a.tag != b.tag {
				return c.False
			}
			return ip.deepEq(a.load, b.load)
		}
	case strRope:
		switch b.kind {
		case strConc:
			return ip.ropeMatch(a.parts, b.s)
		case strRope:
			if alignable(a.parts) && alignable(b.parts) {
				return ip.ropeEq(a.parts, b.parts)
			}
			if len(a.parts) == len(b.parts) {
				r := c.True
				ok := !ambiguous(a.parts) && !ambiguous(b.parts)
				for i := range a.parts {
					p, q := a.parts[i], b.parts[i]
					switch {
					case p.dec != nil && q.dec != nil:
						r = c.And(r, c.Eq(p.dec, q.dec))
					case p.sub != nil && q.sub != nil:
						r = c.And(r, ip.strEq(p.sub, q.sub))
					case p.dec == nil && q.dec == nil && p.sub == nil && q.sub == nil:
						if p.lit != q.lit {
							ok = false
						}
					default:
						ok = false
					}
				}
				if ok {
					return r
				}
			}
		}
	}
	if a.kind != strConc && (a.kind == strAtom || a.kind == strRope) {
		return ip.strEq(ip.concStr(a), b)
	}
	if b.kind == strAtom || b.kind == strRope {
		return ip.strEq(a, ip.concStr(b))
	}
	if a.kind == strBlob || b.kind == strBlob {
		return c.False
	}
	panic(unsupported("string comparison"))
}

// ambiguous tells whether a decimal is followed by something that could
// continue it.
func ambiguous(ps []strPart) bool {
	for i, p := range ps {
		if p.dec != nil && i+1 < len(ps) && (ps[i+1].lit == "" || digitish(ps[i+1].lit[:1])) {
			return true
		}
	}
	return false
}

// ropeMatch gives the condition under which a rope equals a literal.
func (ip *Interp) ropeMatch(parts []strPart, s string) *Term {
	c := ip.c
	if len(parts) == 0 {
		return c.Bool(s == "")
	}
	p := parts[0]
	switch {
	case p.dec != nil:
		j := 0
		if j < len(s) && s[j] == '-' {
			j++
		}
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		v, ok := new(big.Int).SetString(s[:j], 10)
		if !ok || v.String() != s[:j] {
			return c.False
		}
		if len(parts) > 1 && (parts[1].lit == "" || digitish(parts[1].lit[:1])) {
			panic(unsupported("ambiguous rope"))
		}
		return c.And(c.Eq(p.dec, c.Big(v)), ip.ropeMatch(parts[1:], s[j:]))
	case p.sub != nil:
		x := ip.concStr(p.sub)
		if !strings.HasPrefix(s, x.s) {
			return c.False
		}
		return ip.ropeMatch(parts[1:], s[len(x.s):])
	}
	if !strings.HasPrefix(s, p.lit) {
		return c.False
	}
	return ip.ropeMatch(parts[1:], s[len(p.lit):])
}

// deepEq compares payloads structurally, following pointers and slices.
func (ip *Interp) deepEq(a, b Value) *Term {
	c := ip.c
	switch x := a.(type) {
	case *Cell:
		y, ok := b.(*Cell)
		if !ok {
			return c.False
		}
		if x == nil || y == nil {
			return c.Bool(x == y)
		}
		if x == y {
			return c.True
		}
		return ip.deepEq(x.v, y.v)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return c.False
		}
		r := c.True
		for i := range x.f {
			r = c.And(r, ip.deepEq(x.f[i].v, y.f[i].v))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.e) != len(y.e) {
			return c.False
		}
		r := c.True
		for i := range x.e {
			r = c.And(r, ip.deepEq(x.e[i].v, y.e[i].v))
		}
		return r
	case SliceV:
		y, ok := b.(SliceV)
		if !ok {
			return c.False
		}
		if x.blob != nil || y.blob != nil {
			return ip.strEq(ip.sliceStr(x), ip.sliceStr(y))
		}
		if x.len != y.len || ip.strictNil && (x.arr == nil) != (y.arr == nil) {
			return c.False
		}
		r := c.True
		for i := 0; i < x.len; i++ {
			r = c.And(r, ip.deepEq(x.cell(i).v, y.cell(i).v))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok {
			return c.False
		}
		if x == y {
			return c.True
		}
		n, m := 0, 0
		if x != nil {
			n = len(x.ents)
		}
		if y != nil {
			m = len(y.ents)
		}
		if n != m || ip.strictNil && (x == nil) != (y == nil) {
			return c.False
		}
		r := c.True
		for i := 0; i < n; i++ {
			e := ip.mapFind(y, x.ents[i].k)
			if e == nil {
				return c.False
			}
			r = c.And(r, ip.deepEq(x.ents[i].v.v, e.v.v))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.False
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return ip.deepEq(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		if ip.strictNil {
			return c.Bool(ok && x == nil && y == nil)
		}
		return c.Bool(ok && x == y)
	}
	return ip.eq(a, b)
}

// deepCopy clones a payload with all reachable pointers.
func (ip *Interp) deepCopy(v Value) Value {
	memo := map[*Cell]*Cell{}
	var cp func(v Value) Value
	cpc := func(c *Cell) *Cell {
		if c == nil {
			return nil
		}
		if n, ok := memo[c]; ok {
			return n
		}
		n := ip.newCell(nil)
		memo[c] = n
		n.v = cp(c.v)
		return n
	}
	cp = func(v Value) Value {
		switch x := v.(type) {
		case *Cell:
			return cpc(x)
		case *StructV:
			s := &StructV{f: make([]*Cell, len(x.f))}
			for i, c := range x.f {
				s.f[i] = cpc(c)
			}
			return s
		case *ArrayV:
			a := &ArrayV{e: make([]*Cell, len(x.e))}
			for i, c := range x.e {
				a.e[i] = cpc(c)
			}
			return a
		case SliceV:
			if x.arr == nil {
				return x
			}
			a := &ArrayV{e: make([]*Cell, x.len)}
			for i := 0; i < x.len; i++ {
				a.e[i] = cpc(x.cell(i))
			}
			return SliceV{arr: a, len: x.len, cap: x.len}
		case *MapObj:
			if x == nil {
				return x
			}
			m := &MapObj{}
			for _, e := range x.ents {
				m.ents = append(m.ents, &mapEntry{cp(e.k), cpc(e.v)})
			}
			return m
		case Iface:
			if x.t == nil {
				return x
			}
			return Iface{x.t, cp(x.v)}
		case TupleV:
			t := make(TupleV, len(x))
			for i := range x {
				t[i] = cp(x[i])
			}
			return t
		}
		return v
	}
	return cp(v)
}

// ---- maps

func (ip *Interp) mapFind(m *MapObj, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	for _, e := range m.ents {
		t := ip.eq(e.k, k)
		if t.isFalse() {
			continue
		}
		if ip.branch(t) {
			return e
		}
	}
	return nil
}
func (ip *Interp) mapSet(m *MapObj, k, v Value) {
	if e := ip.mapFind(m, k); e != nil {
		ip.store(e.v, v)
		return
	}
	ip.touchMap(m)
	m.ents = append(m.ents, &mapEntry{k, ip.newCell(v)})
}
func (ip *Interp) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	e := ip.mapFind(m, k)
	if e == nil {
		return
	}
	ip.touchMap(m)
	var out []*mapEntry
	for _, x := range m.ents {
		if x != e {
			out = append(out, x)
		}
	}
	m.ents = out
}

// ---- string operations

func (ip *Interp) sliceStr(s SliceV) *Str {
	if s.blob != nil {
		return s.blob
	}
	if b, ok := s.concBytes(); ok {
		return mkStr(string(b))
	}
	bs := make([]*Term, s.len)
	for i := range bs {
		bs[i] = s.cell(i).v.(*Term)
	}
	return &Str{kind: strBytes, bytes: bs}
}

func (ip *Interp) strBytesSlice(s *Str) SliceV {
	switch s.kind {
	case strConc:
		return ip.bytesOf([]byte(s.s))
	case strBytes:
		vals := make([]Value, len(s.bytes))
		for i, b := range s.bytes {
			vals[i] = b
		}
		return ip.sliceOf(vals)
	}
	return SliceV{blob: s, len: -1}
}

func hasBlob(s *Str) bool {
	if s == nil {
		return false
	}
	if s.kind == strBlob {
		return true
	}
	for _, p := range s.parts {
		if hasBlob(p.sub) {
			return true
		}
	}
	return false
}

// norm materialises blob slices (forks over atom values).
func (ip *Interp) norm(s SliceV) SliceV {
	if s.blob == nil {
		return s
	}
	return ip.strBytesSlice(ip.concStr(s.blob))
}

// concStr concretises atoms and ropes by forking over their possible values.
func (ip *Interp) concStr(s *Str) *Str {
	switch s.kind {
	case strAtom:
		dom, ok := ip.c.dom[s.atom]
		if !ok {
			if s.atom.isConst() {
				if x, ok := internStr(s.atom.c.Int64()); ok {
					return mkStr(x)
				}
			}
			if s.atom.op == OpIte {
				if ip.branch(s.atom.args[0]) {
					return ip.concStr(&Str{kind: strAtom, atom: s.atom.args[1]})
				}
				return ip.concStr(&Str{kind: strAtom, atom: s.atom.args[2]})
			}
			panic(unsupported("content of an unconstrained string"))
		}
		for i, v := range dom {
			if i == len(dom)-1 || ip.branch(ip.c.Eq(s.atom, ip.c.Int(v))) {
				x, _ := internStr(v)
				return mkStr(x)
			}
		}
	case strRope:
		out := ""
		for _, p := range s.parts {
			switch {
			case p.dec != nil:
				out += ip.concretize(p.dec).String()
			case p.sub != nil:
				out += ip.concStr(p.sub).s
			default:
				out += p.lit
			}
		}
		return mkStr(out)
	case strBlob:
		panic(unsupported("content of an encoded " + s.tag))
	}
	return s
}

// strTerms returns byte terms (concretising if needed).
func (ip *Interp) strTerms(s *Str) []*Term {
	if s.kind == strBytes {
		return s.bytes
	}
	s = ip.concStr(s)
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = ip.c.Int(int64(s.s[i]))
	}
	return r
}

func mkBytesStr(bs []*Term) *Str {
	b := make([]byte, len(bs))
	for i, t := range bs {
		if !t.isConst() {
			return &Str{kind: strBytes, bytes: bs}
		}
		b[i] = byte(t.c.Int64())
	}
	return mkStr(string(b))
}

func (ip *Interp) strLen(s *Str) *Term {
	switch s.kind {
	case strConc:
		return ip.c.Int(int64(len(s.s)))
	case strBytes:
		return ip.c.Int(int64(len(s.bytes)))
	case strBlob:
		return ip.c.Int(200)
	case strAtom:
		if dom, ok := ip.c.dom[s.atom]; ok {
			r := ip.c.Int(0)
			for i, v := range dom {
				x, _ := internStr(v)
				l := ip.c.Int(int64(len(x)))
				if i == 0 {
					r = l
				} else {
					r = ip.c.Ite(ip.c.Eq(s.atom, ip.c.Int(v)), l, r)
				}
			}
			return r
		}
		return ip.c.Ite(ip.c.Eq(s.atom, ip.c.Int(intern(""))), ip.c.Int(0), ip.c.Int(8))
	case strRope:
		n := ip.c.Int(0)
		for _, p := range s.parts {
			switch {
			case p.dec != nil:
				n = ip.c.Add(n, ip.decLen(p.dec))
			case p.sub != nil:
				n = ip.c.Add(n, ip.strLen(p.sub))
			default:
				n = ip.c.Add(n, ip.c.Int(int64(len(p.lit))))
			}
		}
		return n
	}
	return ip.strLen(ip.concStr(s))
}

func (ip *Interp) strCat(a, b *Str) *Str {
	if a.kind == strConc && a.s == "" {
		return b
	}
	if b.kind == strConc && b.s == "" {
		return a
	}
	if a.kind == strConc && b.kind == strConc {
		return mkStr(a.s + b.s)
	}
	if (a.kind == strBytes || a.kind == strConc) && (b.kind == strBytes || b.kind == strConc) {
		return mkBytesStr(append(append([]*Term(nil), ip.strTerms(a)...), ip.strTerms(b)...))
	}
	return ropeOf(append(ip.ropeParts(a), ip.ropeParts(b)...))
}

func (ip *Interp) ropeParts(s *Str) []strPart {
	switch s.kind {
	case strConc:
		return []strPart{{lit: s.s}}
	case strRope:
		return append([]strPart(nil), s.parts...)
	case strAtom:
		if _, ok := ip.c.dom[s.atom]; ok {
			return []strPart{{lit: ip.concStr(s).s}}
		}
		return []strPart{{sub: s}}
	}
	return []strPart{{sub: s}}
}

func ropeOf(ps []strPart) *Str {
	var out []strPart
	for _, p := range ps {
		if p.dec != nil && p.dec.isConst() {
			p = strPart{lit: p.dec.c.String()}
		}
		if p.dec == nil && p.sub == nil {
			if p.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].lit != "" {
				out[n-1].lit += p.lit
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return emptyStr
	}
	if len(out) == 1 {
		if out[0].lit != "" {
			return mkStr(out[0].lit)
		}
		if out[0].sub != nil {
			return out[0].sub
		}
	}
	return &Str{kind: strRope, parts: out}
}

// ---- rendering (for evidence and debugging)

func (ip *Interp) show(v Value, m Model) string {
	memo := map[*Term]*big.Int{}
	var sh func(v Value, d int) string
	sh = func(v Value, d int) string {
		if d > 5 {
			return "…"
		}
		switch x := v.(type) {
		case *Term:
			r := x.Eval(m, memo)
			if x.sort == SBool {
				if r.Sign() != 0 {
					return "true"
				}
				return "false"
			}
			return r.String()
		case *Str:
			return strconv.Quote(ip.strModel(x, m, memo))
		case float64:
			return strconv.FormatFloat(x, 'g', -1, 64)
		case *FRat:
			return new(big.Rat).SetFrac(x.num.Eval(m, memo), x.den).RatString()
		case *Cell:
			if x == nil {
				return "nil"
			}
			return "&" + sh(x.v, d+1)
		case *StructV:
			s := "{"
			for i, f := range x.f {
				if i > 0 {
					s += " "
				}
				s += sh(f.v, d+1)
			}
			return s + "}"
		case *ArrayV:
			s := "["
			for i, f := range x.e {
				if i > 0 {
					s += " "
				}
				s += sh(f.v, d+1)
			}
			return s + "]"
		case SliceV:
			if x.blob != nil {
				return sh(x.blob, d)
			}
			s := "["
			for i := 0; i < x.len; i++ {
				if i > 0 {
					s += " "
				}
				s += sh(x.cell(i).v, d+1)
			}
			return s + "]"
		case *MapObj:
			if x == nil {
				return "map[]"
			}
			var es []string
			for _, e := range x.ents {
				es = append(es, sh(e.k, d+1)+":"+sh(e.v.v, d+1))
			}
			sort.Strings(es)
			return "map[" + strings.Join(es, " ") + "]"
		case Iface:
			if x.t == nil {
				return "nil"
			}
			return sh(x.v, d+1)
		case BigV:
			return x.t.Eval(m, memo).String()
		case TimeV:
			return x.t.Eval(m, memo).String() + "ns"
		case TupleV:
			s := "("
			for _, e := range x {
				s += sh(e, d+1) + ","
			}
			return s + ")"
		case nil:
			return "nil"
		}
		return fmt.Sprintf("%T", v)
	}
	return sh(v, 0)
}

func (ip *Interp) strModel(s *Str, m Model, memo map[*Term]*big.Int) string {
	switch s.kind {
	case strConc:
		return s.s
	case strAtom:
		return atomText(s.atom.Eval(m, memo).Int64())
	case strBytes:
		b := make([]byte, len(s.bytes))
		for i, t := range s.bytes {
			b[i] = byte(t.Eval(m, memo).Int64())
		}
		return string(b)
	case strRope:
		r := ""
		for _, p := range s.parts {
			switch {
			case p.dec != nil:
				r += p.dec.Eval(m, memo).String()
			case p.sub != nil:
				r += ip.strModel(p.sub, m, memo)
			default:
				r += p.lit
			}
		}
		return r
	}
	return "<" + s.tag + ">"
}

func atomText(id int64) string {
	if s, ok := internStr(id); ok {
		return s
	}
	return "atom" + strconv.FormatInt(id-freeAtomBase, 10)
}
