package main

// Decoding of generic JSON values (maps, lists, texts, numbers, booleans) into
// typed ones, for harness-side models of encoding/json.

import (
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func jsonName(u *types.Struct, i int) string {
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" {
		return ""
	}
	if n := strings.Split(tag, ",")[0]; n != "" {
		return n
	}
	return u.Field(i).Name()
}

// jsonPlain turns v into what decoding into an empty interface gives.
func (ip *Interp) jsonPlain(v Iface) Iface {
	if v.t == nil {
		return v
	}
	any := types.NewInterfaceType(nil, nil)
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		if t, ok := v.v.(*Term); ok && u.Info()&types.IsInteger != 0 {
			return Iface{types.Typ[types.Float64], ip.intToFloat(t)}
		}
		return v
	case *types.Slice:
		var vals []Value
		for _, e := range ip.jsonList(v) {
			vals = append(vals, ip.jsonPlain(e))
		}
		s := ip.sliceOf(vals)
		return Iface{types.NewSlice(any), s}
	case *types.Map:
		r := &MapObj{}
		for _, e := range v.v.(*MapObj).ents {
			r.ents = append(r.ents, &mapEntry{e.k, ip.newCell(ip.jsonPlain(jsonElem(e.v.v, u.Elem())))})
		}
		return Iface{types.NewMap(types.Typ[types.String], any), r}
	}
	panic(unsupported("a JSON value of type " + v.t.String()))
}

func jsonElem(v Value, t types.Type) Iface {
	if x, ok := v.(Iface); ok {
		return x
	}
	return Iface{t, v}
}

func (ip *Interp) jsonList(v Iface) []Iface {
	u, ok := v.t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	s := v.v.(SliceV)
	l := make([]Iface, s.len)
	for i := range l {
		l[i] = jsonElem(s.cell(i).v, u.Elem())
	}
	return l
}

// jsonInto decodes v into the cell, which holds a value of type t.
func (ip *Interp) jsonInto(c *Cell, t types.Type, v Iface) bool {
	if p := namedPath(t); p == "encoding/json.RawMessage" || p == "encoding/json/jsontext.Value" {
		ip.store(c, ip.strBytesSlice(&Str{kind: strBlob, tag: "json", load: ip.deepCopy(v)}))
		return true
	}
	if ip.hasMethod(t, "UnmarshalJSON") {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			b := ip.strBytesSlice(&Str{kind: strBlob, tag: "json", load: ip.deepCopy(v)})
			r := ip.callMethod(Iface{types.NewPointer(t), c}, "UnmarshalJSON", b)
			return r.(Iface).t == nil
		}
	}
	if v.t == nil {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			ip.store(c, ip.zero(t))
		}
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		ip.store(c, ip.jsonPlain(v))
		return true
	case *types.Pointer:
		if c.v.(*Cell) == nil {
			ip.store(c, ip.newCell(ip.zero(u.Elem())))
		}
		return ip.jsonInto(c.v.(*Cell), u.Elem(), v)
	case *types.Struct:
		m, ok := v.v.(*MapObj)
		if !ok {
			return false
		}
		s := c.v.(*StructV)
		fine := true
		for _, e := range m.ents {
			k := ip.concStr(e.k.(*Str)).s
			at := -1
			for i := 0; i < u.NumFields(); i++ {
				if n := jsonName(u, i); u.Field(i).Exported() && strings.EqualFold(n, k) && (at < 0 || n == k) {
					at = i
				}
			}
			if at >= 0 {
				fine = ip.jsonInto(s.f[at], u.Field(at).Type(), jsonElem(e.v.v, v.t.Underlying().(*types.Map).Elem())) && fine
			}
		}
		return fine
	case *types.Slice:
		if _, ok := v.t.Underlying().(*types.Slice); !ok {
			return false
		}
		fine := true
		var vals []Value
		for _, e := range ip.jsonList(v) {
			n := ip.newCell(ip.zero(u.Elem()))
			fine = ip.jsonInto(n, u.Elem(), e) && fine
			vals = append(vals, n.v)
		}
		s := ip.sliceOf(vals)
		ip.store(c, s)
		return fine
	case *types.Map:
		m, ok := v.v.(*MapObj)
		if !ok {
			return false
		}
		r := &MapObj{}
		fine := true
		for _, e := range m.ents {
			n := ip.newCell(ip.zero(u.Elem()))
			fine = ip.jsonInto(n, u.Elem(), jsonElem(e.v.v, v.t.Underlying().(*types.Map).Elem())) && fine
			r.ents = append(r.ents, &mapEntry{e.k, n})
		}
		ip.store(c, r)
		return fine
	case *types.Basic:
		vb, ok := v.t.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		if ti, ok := basicInt(t); ok {
			if f, ok := v.v.(float64); ok {
				if f != math.Trunc(f) {
					return false
				}
				n, _ := big.NewFloat(f).Int(nil)
				v = Iface{types.Typ[types.Uint64], ip.c.Big(n)}
				vb = types.Typ[types.Uint64]
			}
			if vb.Info()&types.IsInteger == 0 {
				return false
			}
			x := v.v.(*Term)
			lo, hi := ti.rng()
			if !ip.branch(ip.c.And(ip.c.Ge(x, ip.c.Big(lo)), ip.c.Le(x, ip.c.Big(hi)))) {
				return false
			}
			ip.store(c, x)
			return true
		}
		if u.Info()&types.IsFloat != 0 && vb.Info()&types.IsInteger != 0 {
			ip.store(c, ip.intToFloat(v.v.(*Term)))
			return true
		}
		kind := types.IsString | types.IsBoolean | types.IsFloat
		if u.Info()&kind != vb.Info()&kind {
			return false
		}
		ip.store(c, v.v)
		return true
	}
	panic(unsupported("decoding JSON into " + t.String()))
}

func init() {
	intrinsicsLate[ndPkg+".JSONInto"] = func(ip *Interp, fn *ssa.Function, a []Value) Value {
		d, s := a[0].(Iface), a[1].(Iface)
		p, ok := d.t.Underlying().(*types.Pointer)
		if !ok {
			return ip.c.False
		}
		return ip.c.Bool(ip.jsonInto(d.v.(*Cell), p.Elem(), s))
	}
}
