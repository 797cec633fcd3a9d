package main

import (
	"go/types"
	"strconv"
	"strings"
)

// shaper builds symbolic inputs whose slices may have fixed lengths.
type shaper struct {
	ev       *Ev
	st       *State
	lens     func(path string) int // -1: symbolic
	anyBytes bool                  // byte slices have any length
}

func symT(k Kind, name string) *Term {
	t := intern("sym", k, name, nil)
	t.fv |= 1 << (uint(t.id) % 64)
	return t
}

// mk makes a value of type T.
func (b *shaper) mk(T types.Type, path string) *Term {
	sh := b
	switch k := kindOf(T); k {
	case KStruct:
		s := T.Underlying().(*types.Struct)
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			f = append(f, b.mk(s.Field(i).Type(), path+"."+fieldRole(s, i)))
		}
		r := mkStruct(f...)
		structN[r] = s.NumFields()
		return r
	case KPtr:
		E := T.Underlying().(*types.Pointer).Elem()
		p := app("alloc", KPtr, "in:"+path+":"+E.String())
		ptrElem[p] = E
		allocType[p.s] = E
		b.st.mem.set(p, b.mk(E, path))
		return p
	case KSlice:
		n := -1
		if b.lens != nil {
			n = b.lens(path)
		}
		E := T.Underlying().(*types.Slice).Elem()
		if b, ok := E.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && sh.anyBytes {
			n = -1
		}
		if n < 0 {
			return symT(KSlice, path)
		}
		p := app("alloc", KPtr, "in:"+path+"[]:"+E.String())
		sliceElem[p.s] = E
		var el []*Term
		for i := 0; i < n; i++ {
			el = append(el, b.mk(E, path+"["+strconv.Itoa(i)+"]"))
		}
		b.st.mem.set(p, lit(el...))
		return mkSl(p, num(0), num(int64(n)))
	case KInt:
		t := symT(KInt, path)
		if bt, ok := T.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			t.nn = true
		}
		return t
	default:
		return symT(k, path)
	}
}

// fieldRole names a field: exported fields by their name, the others by their
// type, so that renaming an unexported field changes nothing.
func fieldRole(s *types.Struct, i int) string {
	f := s.Field(i)
	if f.Exported() {
		return f.Name()
	}
	short := func(T types.Type) string {
		return types.TypeString(T, func(*types.Package) string { return "" })
	}
	n := short(f.Type())
	ord := 0
	for j := 0; j < i; j++ {
		if !s.Field(j).Exported() && short(s.Field(j).Type()) == n {
			ord++
		}
	}
	if ord > 0 {
		n += "#" + strconv.Itoa(ord)
	}
	return n
}

// roleIndex finds a field by its role.
func roleIndex(T types.Type, role string) int {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if fieldRole(s, i) == role {
			return i
		}
	}
	return -1
}

// flat tells whether values of type T contain no pointers or slices.
func flatType(T types.Type) bool {
	switch kindOf(T) {
	case KPtr, KSlice, KIface, KMap, KFunc:
		return false
	case KStruct:
		s := T.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if !flatType(s.Field(i).Type()) {
				return false
			}
		}
	}
	return true
}

// deep replaces pointers and slices in a value by what they refer to.
func (ev *Ev) deep(st *State, t *Term, T types.Type) *Term { return ev.deepN(st, t, T, 8) }

func (ev *Ev) deepN(st *State, t *Term, T types.Type, d int) *Term {
	if d == 0 {
		return t
	}
	if t.op == "ite" && kindOf(T) != KBool && kindOf(T) != KInt {
		return ite(t.a[0], ev.deepN(st, t.a[1], T, d), ev.deepN(st, t.a[2], T, d))
	}
	switch kindOf(T) {
	case KPtr:
		if t.op == "nil" {
			return t
		}
		E := T.Underlying().(*types.Pointer).Elem()
		ev.noteElem(t, E)
		return app("box", KOther, "", ev.deepN(st, st.load(t, E), E, d-1))
	case KSlice:
		E := T.Underlying().(*types.Slice).Elem()
		c := st.slContent(t)
		if flatType(E) {
			return c
		}
		return ev.deepSeq(st, c, E, d-1)
	case KSeq:
		if a, ok := T.Underlying().(*types.Array); ok && !flatType(a.Elem()) {
			return ev.deepSeq(st, t, a.Elem(), d-1)
		}
		return t
	case KStruct:
		if flatType(T) {
			return t
		}
		s := T.Underlying().(*types.Struct)
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			f = append(f, ev.deepN(st, fldK(t, i, T), s.Field(i).Type(), d))
		}
		return mkStruct(f...)
	}
	return t
}

func (ev *Ev) deepSeq(st *State, c *Term, E types.Type, d int) *Term {
	switch c.op {
	case "lit":
		var r []*Term
		for _, x := range c.a {
			r = append(r, ev.deepN(st, x, E, d))
		}
		return lit(r...)
	case "cat":
		var r []*Term
		for _, x := range c.a {
			r = append(r, ev.deepSeq(st, x, E, d))
		}
		return cat(r...)
	case "rep":
		it, body := openB(c)
		return mkRep(c.a[0], it, ev.deepSeq(st, body, E, d))
	case "ite":
		return ite(c.a[0], ev.deepSeq(st, c.a[1], E, d), ev.deepSeq(st, c.a[2], E, d))
	}
	if n := lenT(c); n.isConst() && n.big().IsInt64() && n.big().Int64() <= 64 {
		var r []*Term
		for i := int64(0); i < n.big().Int64(); i++ {
			r = append(r, ev.deepN(st, at(c, num(i), kindOf(E)), E, d))
		}
		return lit(r...)
	}
	it := newIter("d", nil)
	return mkRep(lenT(c), it, lit(ev.deepN(st, at(c, it, kindOf(E)), E, d)))
}

// uninterpreted tells whether a term contains parts that the analysis gave up on.
func uninterpreted(ts ...*Term) string {
	why := ""
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			switch x.op {
			case "unk":
				why = x.op + " " + x.s
			case "mu", "least", "rcall", "bigmul", "bor", "bxor", "andnot", "havoc":
				if why == "" {
					why = x.op + " " + x.s
				}
			}
			return !strings.HasPrefix(why, "unk")
		})
	}
	return why
}

var byteT = types.Typ[types.Byte]
