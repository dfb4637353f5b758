//verif:file pkg=pkg/wallet props=C17
package wallet

import (
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
)

// Printing a path and parsing it back.
//
//verif:harness prop=C17 time=60
func hPathRoundTrip() {
	n := nd.Choice("steps", nd.Bound("max steps", 4, 6)) + 1
	path := make(DerivationPath, n)
	for i := range path {
		path[i] = uint32(nd.Uint64("step", 0, 1<<32-1))
	}
	s := path.String()
	got, err := ParseDerivationPath(s)
	nd.Assert(err == nil, "a printed path is refused")
	nd.Assert(len(got) == n, "a printed path changes its length")
	for i := range path {
		nd.Assert(i < len(got) && got[i] == path[i], "a printed path changes a step")
	}
	// without the leading "m/" (needs two steps, as documented)
	if n > 1 {
		got, err = ParseDerivationPath(s[2:])
		nd.Assert(err == nil && len(got) == n, "a printed relative path is refused")
		for i := range path {
			nd.Assert(i < len(got) && got[i] == path[i], "a printed relative path changes a step")
		}
	}
	nd.Assert(got.String() == s, "printing is not stable")
}

// Different paths never print the same.
//
//verif:harness prop=C17 time=60
func hPathInjective() {
	n, k := nd.Choice("steps", 3)+1, nd.Choice("other steps", 3)+1
	p, q := make(DerivationPath, n), make(DerivationPath, k)
	for i := range p {
		p[i] = uint32(nd.Uint64("step", 0, 1<<32-1))
	}
	for i := range q {
		q[i] = uint32(nd.Uint64("other", 0, 1<<32-1))
	}
	same := nd.DeepEq(p, q)
	nd.Assert((p.String() == q.String()) == same, "two paths share a text")
}

func digitOf(b byte, base uint64) (uint64, bool) {
	var d uint64
	switch {
	case b >= '0' && b <= '9':
		d = uint64(b - '0')
	case b >= 'a' && b <= 'f':
		d = uint64(b-'a') + 10
	case b >= 'A' && b <= 'F':
		d = uint64(b-'A') + 10
	default:
		return 0, false
	}
	return d, d < base
}

// refStep is the specification of one step: a Go integer literal without a
// minus sign, at most 2^32-1, or at most 2^31-1 followed by an apostrophe;
// spaces around it do not count.
func refStep(s []byte) (uint64, bool) {
	s = trim(s)
	hard := uint64(0)
	if len(s) > 0 && s[len(s)-1] == '\'' {
		hard = 1 << 31
		s = trim(s[:len(s)-1])
	}
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	base, lead := uint64(10), false
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base, s = 16, s[2:]
		case 'b', 'B':
			base, s = 2, s[2:]
		case 'o', 'O':
			base, s = 8, s[2:]
		default:
			base, s = 8, s[1:]
		}
		lead = true
	}
	if len(s) == 0 {
		return 0, false
	}
	v, under, any := uint64(0), false, false
	for i, b := range s {
		if b == '_' {
			if under || (i == 0 && !lead) {
				return 0, false // a separator needs a digit or a base prefix before it
			}
			under = true
			continue
		}
		d, ok := digitOf(b, base)
		if !ok {
			return 0, false
		}
		v, under, any = v*base+d, false, true
	}
	if under || !any || (neg && v != 0) || v > 1<<32-1-hard {
		return 0, false
	}
	return v + hard, true
}

func space(b byte) bool {
	return b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\v' || b == '\f'
}

func trim(s []byte) []byte {
	for len(s) > 0 && space(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && space(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// refPath is the specification of the path syntax.
func refPath(s []byte) (DerivationPath, bool) {
	var elems [][]byte
	last := 0
	for i := range s {
		if s[i] == '/' {
			elems = append(elems, s[last:i])
			last = i + 1
		}
	}
	elems = append(elems, s[last:])
	if len(elems) < 2 {
		return nil, false
	}
	for _, e := range elems {
		if len(e) == 0 {
			return nil, false
		}
	}
	if e := trim(elems[0]); len(e) == 1 && e[0] == 'm' {
		elems = elems[1:]
	}
	var path DerivationPath
	for _, e := range elems {
		v, ok := refStep(e)
		if !ok {
			return nil, false
		}
		path = append(path, uint32(v))
	}
	return path, true
}

func samePath(s []byte) {
	want, ok := refPath(s)
	got, err := ParseDerivationPath(string(s))
	if !ok {
		nd.Assert(err != nil, "a malformed path is accepted")
		return
	}
	nd.Assert(err == nil && len(got) == len(want), "a well-formed path is refused")
	for i := range want {
		nd.Assert(i < len(got) && got[i] == want[i], "a path is read as another one")
	}
}

// Every short text.
//
//verif:harness prop=C17 time=100
func hPathText() {
	n := nd.Choice("length", nd.Bound("max length", 5, 7)+1)
	s := nd.Bytes("text", n)
	for _, b := range s {
		nd.Assume(b < 128)
	}
	samePath(s)
}

// Every text of the form m/STEP with a step of digits and an apostrophe near
// the limits, and every short second step.
//
//verif:harness prop=C17 time=100
func hPathLimits() {
	n := nd.Choice("length", 12)
	s := nd.Bytes("digits", n)
	for i, b := range s {
		nd.Assume(b >= '0' && b <= '9')
		nd.Assume(i > 0 || b != '0')
	}
	text := append([]byte("m/"), s...)
	if nd.Bool("hardened") {
		text = append(text, '\'')
	}
	samePath(text)
}
