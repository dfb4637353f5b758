package main

import (
	"math/big"
	"strings"
)

// String functions on concatenations of literals and decimal renderings of
// symbolic integers, without enumerating the integers.

func digitish(s string) bool { return strings.ContainsAny(s, "0123456789-") }

func plainRope(v Value) (*Str, bool) {
	s, ok := v.(*Str)
	if !ok || s.kind != strRope {
		return nil, false
	}
	for _, p := range s.parts {
		if p.sub != nil {
			return nil, false
		}
	}
	return s, true
}

func concOf(v Value) (string, bool) {
	s, ok := v.(*Str)
	if !ok || s.kind != strConc {
		return "", false
	}
	return s.s, true
}

// decLen is the number of characters of the decimal rendering of an integer.
func (ip *Interp) decLen(t *Term) *Term {
	c := ip.c
	one := c.Int(1)
	zero := c.Int(0)
	n := c.Add(one, c.Ite(c.Lt(t, zero), one, zero))
	p := big.NewInt(1)
	for k := 1; k < 20; k++ {
		p = new(big.Int).Mul(p, big.NewInt(10))
		big := c.Big(p)
		n = c.Add(n, c.Ite(c.Or(c.Ge(t, big), c.Le(t, c.Neg(big))), one, zero))
	}
	return n
}

func (ip *Interp) strSliceOf(parts []*Str) Value {
	vs := make([]Value, len(parts))
	for i, p := range parts {
		vs[i] = p
	}
	return ip.sliceOf(vs)
}

// ropeCall evaluates a string function on a rope; ok is false when the rope
// has to be made concrete first.
func (ip *Interp) ropeCall(name string, a []Value) (Value, bool) {
	if len(a) == 0 {
		return nil, false
	}
	if s, ok := a[0].(*Str); ok && s.kind == strBytes && name == "strings.TrimSpace" {
		if r, ok := ip.trimSpace(s.bytes); ok {
			return mkBytesStr(r), true
		}
	}
	r, ok := plainRope(a[0])
	if !ok {
		return nil, false
	}
	c := ip.c
	arg1 := ""
	if len(a) > 1 {
		if arg1, ok = concOf(a[1]); !ok && strings.HasPrefix(name, "strings.") {
			return nil, false
		}
	}
	first, last := r.parts[0], r.parts[len(r.parts)-1]
	switch name {
	case "strings.Split":
		if arg1 == "" || digitish(arg1) {
			return nil, false
		}
		var out []*Str
		var cur []strPart
		for _, p := range r.parts {
			if p.dec != nil {
				cur = append(cur, p)
				continue
			}
			for i, piece := range strings.Split(p.lit, arg1) {
				if i > 0 {
					out = append(out, ropeOf(cur))
					cur = nil
				}
				cur = append(cur, strPart{lit: piece})
			}
		}
		out = append(out, ropeOf(cur))
		return ip.strSliceOf(out), true
	case "strings.Contains":
		if arg1 == "" {
			return c.True, true
		}
		if digitish(arg1) {
			return nil, false
		}
		for _, p := range r.parts {
			if p.dec == nil && strings.Contains(p.lit, arg1) {
				return c.True, true
			}
		}
		return c.False, true
	case "strings.TrimSpace":
		ps := append([]strPart(nil), r.parts...)
		if first.dec == nil {
			ps[0].lit = strings.TrimLeft(ps[0].lit, " \t\r\n\v\f")
		}
		if last.dec == nil {
			ps[len(ps)-1].lit = strings.TrimRight(ps[len(ps)-1].lit, " \t\r\n\v\f")
		}
		return ropeOf(ps), true
	case "strings.HasPrefix", "strings.TrimPrefix":
		has := false
		switch {
		case arg1 == "":
			has = true
		case first.dec != nil:
			if digitish(arg1[:1]) {
				return nil, false
			}
		case len(first.lit) >= len(arg1):
			has = strings.HasPrefix(first.lit, arg1)
		case strings.HasPrefix(arg1, first.lit):
			return nil, false
		}
		if name == "strings.HasPrefix" {
			return c.Bool(has), true
		}
		if !has {
			return r, true
		}
		ps := append([]strPart(nil), r.parts...)
		if arg1 != "" {
			ps[0].lit = ps[0].lit[len(arg1):]
		}
		return ropeOf(ps), true
	case "strings.HasSuffix", "strings.TrimSuffix":
		has := false
		switch {
		case arg1 == "":
			has = true
		case last.dec != nil:
			if digitish(arg1[len(arg1)-1:]) {
				return nil, false
			}
		case len(last.lit) >= len(arg1):
			has = strings.HasSuffix(last.lit, arg1)
		case strings.HasSuffix(arg1, last.lit):
			return nil, false
		}
		if name == "strings.HasSuffix" {
			return c.Bool(has), true
		}
		if !has {
			return r, true
		}
		ps := append([]strPart(nil), r.parts...)
		if arg1 != "" {
			l := &ps[len(ps)-1]
			l.lit = l.lit[:len(l.lit)-len(arg1)]
		}
		return ropeOf(ps), true
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		bits, signed := 64, name != "strconv.ParseUint"
		if name != "strconv.Atoi" {
			b, n := arg(a, 1), arg(a, 2)
			if !b.isConst() || (b.c.Int64() != 10 && b.c.Int64() != 0) || !n.isConst() {
				return nil, false
			}
			if bits = int(n.c.Int64()); bits == 0 {
				bits = 64
			}
		}
		nd := 0
		for _, p := range r.parts {
			if p.dec != nil {
				nd++
			}
		}
		bad := func() Value { return TupleV{c.Int(0), ip.mkErrorIface("strconv: parsing")} }
		if len(r.parts) != 1 {
			for _, p := range r.parts {
				if p.dec == nil && strings.IndexFunc(p.lit, func(x rune) bool { return (x < '0' || x > '9') && x != '+' && x != '-' && x != '_' }) >= 0 {
					return bad(), true
				}
			}
			return nil, false
		}
		lo, hi := intInfo{signed, bits}.rng()
		t := r.parts[0].dec
		if ip.branch(c.And(c.Ge(t, c.Big(lo)), c.Le(t, c.Big(hi)))) {
			return TupleV{t, Iface{}}, true
		}
		return bad(), true
	}
	return nil, false
}

// bigParse is (*big.Int).SetString over symbolic characters. It follows the
// documented syntax: optional sign, optional base prefix and single
// underscores between digits when base is 0.
func (ip *Interp) bigParse(bs []*Term, base int) (*Term, bool) {
	c := ip.c
	is := func(i int, ch byte) bool { return i < len(bs) && ip.branch(c.Eq(bs[i], c.Int(int64(ch)))) }
	in := func(t *Term, lo, hi byte) bool {
		return ip.branch(c.And(c.Ge(t, c.Int(int64(lo))), c.Le(t, c.Int(int64(hi)))))
	}
	i, neg := 0, false
	if is(0, '-') {
		neg, i = true, 1
	} else if is(0, '+') {
		i = 1
	}
	prefix := base == 0
	prev := byte('.') // '0' digit, '_' separator, '.' start
	b := base
	count := 0
	if base == 0 {
		b = 10
		if is(i, '0') {
			prev, count = '0', 1
			i++
			if i == len(bs) {
				return c.Int(0), true
			}
			switch {
			case is(i, 'b') || is(i, 'B'):
				b, i, count = 2, i+1, 0
			case is(i, 'o') || is(i, 'O'):
				b, i, count = 8, i+1, 0
			case is(i, 'x') || is(i, 'X'):
				b, i, count = 16, i+1, 0
			default:
				b = 8
			}
		}
	}
	v := c.Int(0)
	badSep := false
	for ; i < len(bs); i++ {
		if prefix && is(i, '_') {
			if prev != '0' {
				badSep = true
			}
			prev = '_'
			continue
		}
		var d *Term
		switch t := bs[i]; {
		case in(t, '0', '9'):
			d = c.Sub(t, c.Int('0'))
		case in(t, 'a', 'z'):
			d = c.Sub(t, c.Int('a'-10))
		case in(t, 'A', 'Z'):
			d = c.Sub(t, c.Int('A'-10))
		default:
			return nil, false
		}
		if !ip.branch(c.Lt(d, c.Int(int64(b)))) {
			return nil, false
		}
		v = c.Add(c.Scale(v, big.NewInt(int64(b))), d)
		prev = '0'
		count++
	}
	if badSep || prev == '_' || count == 0 {
		return nil, false
	}
	if neg {
		v = c.Neg(v)
	}
	return v, true
}

// alignable ropes consist of literals and decimals whose ends are recognisable.
func alignable(ps []strPart) bool {
	for i, p := range ps {
		if p.sub != nil {
			return false
		}
		if p.dec != nil && i+1 < len(ps) && (ps[i+1].lit == "" || digitish(ps[i+1].lit[:1])) {
			return false
		}
		if p.dec != nil && i > 0 && (ps[i-1].lit == "" || digitish(ps[i-1].lit[len(ps[i-1].lit)-1:])) {
			return false
		}
	}
	return true
}

// ropeEq compares two alignable ropes part by part.
func (ip *Interp) ropeEq(a, b []strPart) *Term {
	c := ip.c
	if len(a) == 0 || len(b) == 0 {
		return c.Bool(len(a) == len(b))
	}
	p, q := a[0], b[0]
	if p.dec == nil && q.dec != nil {
		return ip.ropeEq(b, a)
	}
	rest := func(ps []strPart, cut int) []strPart {
		if cut == len(ps[0].lit) {
			return ps[1:]
		}
		return append([]strPart{{lit: ps[0].lit[cut:]}}, ps[1:]...)
	}
	switch {
	case p.dec != nil && q.dec != nil:
		return c.And(c.Eq(p.dec, q.dec), ip.ropeEq(a[1:], b[1:]))
	case p.dec != nil:
		j := 0
		if j < len(q.lit) && q.lit[j] == '-' {
			j++
		}
		for j < len(q.lit) && q.lit[j] >= '0' && q.lit[j] <= '9' {
			j++
		}
		v, ok := new(big.Int).SetString(q.lit[:j], 10)
		if !ok || v.String() != q.lit[:j] {
			return c.False
		}
		return c.And(c.Eq(p.dec, c.Big(v)), ip.ropeEq(a[1:], rest(b, j)))
	}
	n := len(p.lit)
	if len(q.lit) < n {
		n = len(q.lit)
	}
	if p.lit[:n] != q.lit[:n] {
		return c.False
	}
	return ip.ropeEq(rest(a, n), rest(b, n))
}

// trimSpace is strings.TrimSpace over symbolic characters; ok is false when a
// character outside ASCII is met at an edge.
func (ip *Interp) trimSpace(bs []*Term) ([]*Term, bool) {
	c := ip.c
	sp := func(t *Term) *Term {
		r := c.Eq(t, c.Int(' '))
		return c.Or(r, c.And(c.Ge(t, c.Int('\t')), c.Le(t, c.Int('\r'))))
	}
	for len(bs) > 0 {
		if !ip.branch(c.Lt(bs[0], c.Int(128))) {
			return nil, false
		}
		if !ip.branch(sp(bs[0])) {
			break
		}
		bs = bs[1:]
	}
	for len(bs) > 0 {
		t := bs[len(bs)-1]
		if !ip.branch(c.Lt(t, c.Int(128))) {
			return nil, false
		}
		if !ip.branch(sp(t)) {
			break
		}
		bs = bs[:len(bs)-1]
	}
	return bs, true
}

// hexCall is encoding/hex over symbolic bytes.
func (ip *Interp) hexCall(name string, a []Value) (Value, bool) {
	c := ip.c
	n16 := c.Int(16)
	in := func(t *Term, lo, hi byte) *Term { return c.And(c.Ge(t, c.Int(int64(lo))), c.Le(t, c.Int(int64(hi)))) }
	switch name {
	case "encoding/hex.EncodeToString":
		s, ok := a[0].(SliceV)
		if ok && s.blob != nil {
			return &Str{kind: strBlob, tag: "hex", load: s.blob}, true
		}
		if !ok {
			return nil, false
		}
		var out []*Term
		for i := 0; i < s.len; i++ {
			t := s.cell(i).v.(*Term)
			for _, d := range []*Term{c.Div(t, n16), c.Mod(t, n16)} {
				out = append(out, c.Ite(c.Le(d, c.Int(9)), c.Add(d, c.Int('0')), c.Add(d, c.Int('a'-10))))
			}
		}
		return mkBytesStr(out), true
	case "encoding/hex.DecodeString":
		s, ok := a[0].(*Str)
		if ok && s.kind == strBlob {
			switch s.tag {
			case "hex":
				return TupleV{ip.strBytesSlice(s.load.(*Str)), Iface{}}, true
			case "pset": // "cHNldP8..." is never hexadecimal
				return TupleV{SliceV{}, ip.mkErrorIface("encoding/hex: invalid")}, true
			}
		}
		if !ok || s.kind != strBytes {
			return nil, false
		}
		var out []Value
		bad := func() Value { return TupleV{ip.sliceOf(out), ip.mkErrorIface("encoding/hex: invalid")} }
		for i := 0; i+1 < len(s.bytes); i += 2 {
			v := c.Int(0)
			for _, t := range s.bytes[i : i+2] {
				if !ip.branch(c.Or(in(t, '0', '9'), in(t, 'a', 'f'), in(t, 'A', 'F'))) {
					return bad(), true
				}
				d := c.Ite(c.Le(t, c.Int('9')), c.Sub(t, c.Int('0')), c.Ite(c.Le(t, c.Int('F')), c.Sub(t, c.Int('A'-10)), c.Sub(t, c.Int('a'-10))))
				v = c.Add(c.Scale(v, big.NewInt(16)), d)
			}
			out = append(out, v)
		}
		if len(s.bytes)%2 == 1 {
			return bad(), true
		}
		return TupleV{ip.sliceOf(out), Iface{}}, true
	}
	return nil, false
}
