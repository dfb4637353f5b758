package main

// Reflection-like helpers for harness-side models of storage libraries.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ip *Interp) hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// gobCopy clones v as encoding it with gob and decoding it into a fresh value
// does: unexported fields are lost, empty slices and zero pointers become nil.
func (ip *Interp) gobCopy(v Value, t types.Type) Value {
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && (ip.hasMethod(t, "GobEncode") || ip.hasMethod(t, "MarshalBinary")) {
		return ip.deepCopy(v)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := v.(*Cell)
		if c == nil {
			return c
		}
		return ip.newCell(ip.gobCopy(c.v, u.Elem()))
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok {
			return v
		}
		r := &StructV{f: make([]*Cell, len(s.f))}
		for i := range s.f {
			ft := u.Field(i).Type()
			_, isFn := ft.Underlying().(*types.Signature)
			_, isCh := ft.Underlying().(*types.Chan)
			if !u.Field(i).Exported() || isFn || isCh {
				r.f[i] = ip.newCell(ip.zero(ft))
			} else {
				r.f[i] = ip.newCell(ip.gobCopy(s.f[i].v, ft))
			}
		}
		return r
	case *types.Array:
		a := v.(*ArrayV)
		r := &ArrayV{e: make([]*Cell, len(a.e))}
		for i := range a.e {
			r.e[i] = ip.newCell(ip.gobCopy(a.e[i].v, u.Elem()))
		}
		return r
	case *types.Slice:
		s := v.(SliceV)
		if s.blob != nil {
			return s
		}
		if s.len == 0 {
			return SliceV{}
		}
		vals := make([]Value, s.len)
		for i := range vals {
			vals[i] = ip.gobCopy(s.cell(i).v, u.Elem())
		}
		return ip.sliceOf(vals)
	case *types.Map:
		m := v.(*MapObj)
		if m == nil {
			return m
		}
		r := &MapObj{}
		for _, e := range m.ents {
			r.ents = append(r.ents, &mapEntry{ip.gobCopy(e.k, u.Key()), ip.newCell(ip.gobCopy(e.v.v, u.Elem()))})
		}
		return r
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return x
		}
		panic(unsupported("gob encoding of an interface value"))
	}
	return v
}

func derefIface(x Iface) (Value, types.Type) {
	v, t := x.v, x.t
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return v, t
		}
		c := v.(*Cell)
		if c == nil {
			panic(unsupported("nil pointer in a stored value"))
		}
		v, t = c.v, p.Elem()
	}
}

func typeBase(t types.Type) string {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func init() {
	nd := func(n string, h handler) { intrinsicsLate[ndPkg+"."+n] = h }
	nd("GobCopy", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		v, t := derefIface(a[0].(Iface))
		return Iface{t, ip.gobCopy(v, t)}
	})
	nd("GobInto", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		d, s := a[0].(Iface), a[1].(Iface)
		pt := d.t.Underlying().(*types.Pointer)
		c := d.v.(*Cell)
		et := pt.Elem()
		for {
			p, ok := et.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			et = p.Elem()
			if c.v.(*Cell) == nil {
				ip.store(c, ip.newCell(ip.zero(et)))
			}
			c = c.v.(*Cell)
		}
		if !types.Identical(et, s.t) {
			panic(unsupported("decoding " + s.t.String() + " into " + et.String()))
		}
		ip.store(c, ip.gobCopy(s.v, s.t))
		return nil
	})
	nd("Append", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		d, s := a[0].(Iface), a[1].(Iface)
		sl := d.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		c := d.v.(*Cell)
		old := c.v.(SliceV)
		var vals []Value
		for i := 0; i < old.len; i++ {
			vals = append(vals, old.cell(i).v)
		}
		v := ip.gobCopy(s.v, s.t)
		if _, isPtr := sl.Elem().Underlying().(*types.Pointer); isPtr {
			v = ip.newCell(v)
		}
		ip.store(c, ip.sliceOf(append(vals, v)))
		return nil
	})
	nd("TypeName", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		return mkStr(typeBase(a[0].(Iface).t))
	})
	nd("Field", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		v, t := derefIface(a[0].(Iface))
		for _, name := range strings.Split(goStr(a[1]), ".") {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				panic(unsupported("field of a non-struct"))
			}
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					v, t, found = v.(*StructV).f[i].v, st.Field(i).Type(), true
					break
				}
			}
			if !found {
				panic(unsupported("no field " + name))
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if c := v.(*Cell); c != nil {
					v, t = c.v, p.Elem()
				}
			}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v
		}
		return Iface{t, v}
	})
	nd("Less", func(ip *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface).v, a[1].(Iface).v
		if xt, ok := x.(*Term); ok {
			return ip.c.Lt(xt, y.(*Term))
		}
		if xs, ok := x.(*Str); ok {
			return ip.c.Bool(ip.concStr(xs).s < ip.concStr(y.(*Str)).s)
		}
		panic(unsupported("comparison of stored values"))
	})
}

var intrinsicsLate = map[string]handler{}
