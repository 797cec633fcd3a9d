package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C20", "encodings carry every component, in full, and decode to the same value", 60, encodeRule)
	addRule("C21", "decoders accept exactly the complete, valid encodings", 60, decodeRule)
	addRule("C22", "decoders allocate no more than the input has bytes", 100, allocRule)
	addRule("C23", "equality compares every component", 60, equalsRule)
}

// rows are the contents of a slice of slices (or of structures holding one).
func (in *input) rows(t *Term, T types.Type, role string) *Term {
	E := elemOf(T)
	cs := fix(in.st, in.st.slContent(fix(in.st, t)))
	el, ok := elemsOf(cs, kindOf(E))
	if !ok {
		return cs
	}
	var r []*Term
	for _, x := range el {
		if role != "" {
			i := roleIndex(E, role)
			if i < 0 {
				panic("no component " + role)
			}
			x = fldK(x, i, E)
		}
		if x.k == KSlice {
			x = in.st.slContent(fix(in.st, x))
		}
		r = append(r, x)
	}
	return lit(r...)
}

type part2 struct {
	name string
	t    *Term
}

// proofScalars are the three scalars of a range proof: the unexported ones, by
// name if they have their names and else in order.
func proofScalars(T types.Type) (taux, mu, t int) {
	s := T.Underlying().(*types.Struct)
	var un []int
	by := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		if kindOf(s.Field(i).Type()) == KSc {
			un = append(un, i)
			by[s.Field(i).Name()] = i
		}
	}
	if len(un) != 3 {
		return -1, -1, -1
	}
	a, o1 := by["taux"]
	b, o2 := by["mu"]
	d, o3 := by["t"]
	if o1 && o2 && o3 {
		return a, b, d
	}
	return un[0], un[1], un[2]
}

// codec describes one encoded type.
type codec struct {
	name     string
	enc, dec string // drivers
	again    string
	encA     string // anchors
	decA     string
	spec     string // reference decoder
	parts    func(in *input, t *Term, T types.Type, flag bool) []part2
	flag     bool // has a boolean parameter
	count    bool // has a count parameter
}

func sigParts(in *input, t *Term, T types.Type, keys bool) []part2 {
	v, E := in.getT(t, T, "*")
	r := []part2{{"challenge", field(v, E, "Scalar")}, {"responses", in.rows(field(v, E, "[]Responses"), fieldType(E, "[]Responses"), "")}}
	if keys {
		r = append(r, part2{"keys", in.rows(field(v, E, "PubKeys"), fieldType(E, "PubKeys"), "[]Point")})
	}
	return r
}

func ippParts(in *input, t *Term, T types.Type, _ bool) []part2 {
	v, E := in.getT(t, T, "*")
	return []part2{{"a", field(v, E, "A")}, {"b", field(v, E, "B")}, {"L", in.st.slContent(field(v, E, "L"))}, {"R", in.st.slContent(field(v, E, "R"))}}
}

func rangeParts(in *input, t *Term, T types.Type, commits bool) []part2 {
	v, E := in.getT(t, T, "*")
	var r []part2
	if commits {
		r = append(r, part2{"V", in.rows(field(v, E, "V"), fieldType(E, "V"), "Value")})
	}
	for _, n := range []string{"A", "S", "T1", "T2"} {
		r = append(r, part2{n, field(v, E, n)})
	}
	a, b, d := proofScalars(E)
	if a < 0 {
		panic("the proof has other scalars")
	}
	r = append(r, part2{"taux", fldK(v, a, E)}, part2{"mu", fldK(v, b, E)}, part2{"t", fldK(v, d, E)})
	return append(r, ippParts(in, field(v, E, "IPProof"), fieldType(E, "IPProof"), false)...)
}

func keysParts(in *input, t *Term, T types.Type, _ bool) []part2 {
	v, E := in.getT(t, T, "*")
	return []part2{{"keys", in.st.slContent(field(v, E, "[]Point"))}}
}

func respParts(in *input, t *Term, T types.Type, _ bool) []part2 {
	v, _ := in.getT(t, T, "*")
	return []part2{{"responses", in.st.slContent(v)}}
}

func commitParts(in *input, t *Term, T types.Type, _ bool) []part2 {
	v, E := in.getT(t, T, "*")
	return []part2{{"value", field(v, E, "Value")}}
}

func commitsParts(in *input, t *Term, T types.Type, _ bool) []part2 {
	return []part2{{"values", in.rows(t, T, "Value")}}
}

var codecs = []codec{
	{name: "mlsag.Signature", enc: "EncSig", dec: "DecSig", again: "DecSigAgain", encA: "mlsag.(*Signature).Encode", decA: "mlsag.(*Signature).Decode", spec: "MlsagDec", parts: sigParts, flag: true},
	{name: "mlsag.PubKeys", enc: "EncKeys", dec: "DecKeys", encA: "mlsag.(PubKeys).Encode", decA: "mlsag.(*PubKeys).Decode", spec: "DecPoints", parts: keysParts, count: true},
	{name: "mlsag.Responses", enc: "EncResponses", dec: "DecResponses", encA: "mlsag.(Responses).Encode", decA: "mlsag.(*Responses).Decode", spec: "DecScalars", parts: respParts, count: true},
	{name: "innerproduct.Proof", enc: "EncIpp", dec: "DecIpp", again: "DecIppAgain", encA: "rangeproof/innerproduct.(*Proof).Encode", decA: "rangeproof/innerproduct.(*Proof).Decode", spec: "IppDec", parts: ippParts},
	{name: "rangeproof.Proof", enc: "EncRange", dec: "DecRange", again: "DecRangeAgain", encA: "rangeproof.(*Proof).Encode", decA: "rangeproof.(*Proof).Decode", spec: "RangeDec", parts: rangeParts, flag: true},
	{name: "pedersen.Commitment", enc: "EncCommit", dec: "DecCommit", encA: "rangeproof/pedersen.(*Commitment).Encode", decA: "rangeproof/pedersen.(*Commitment).Decode", spec: "CommitDec", parts: commitParts},
	{name: "commitments", enc: "EncCommits", dec: "DecCommits", encA: "rangeproof/pedersen.EncodeCommitments", decA: "rangeproof/pedersen.DecodeCommitments", spec: "CommitsDec", parts: commitsParts},
}

func codecByName(n string) *codec {
	for i := range codecs {
		if codecs[i].name == n {
			return &codecs[i]
		}
	}
	return nil
}

// decCase compares a decoder with the reference on a byte string: bytes -1 are
// unknown, the others fixed.
func (c *Ctx) decCase(k *codec, name string, bytes []int, flag bool, n int, used map[string]int) {
	c.decCaseR(k, name, bytes, flag, n, used, false)
}

// decCaseR: reader selects a reader that may deliver the bytes in pieces.
func (c *Ctx) decCaseR(k *codec, name string, bytes []int, flag bool, n int, used map[string]int, reader bool) {
	dr := k.dec
	if used != nil {
		dr = k.again
	}
	if reader {
		dr += "From"
	}
	f := c.drv(dr)
	af := c.fn(k.decA)
	if f == nil || af == nil {
		return
	}
	var el []*Term
	for i, b := range bytes {
		if b >= 0 {
			el = append(el, num(int64(b)))
		} else {
			t := symT(KInt, fmt.Sprintf("x[%d]", i))
			t.nn = true
			el = append(el, t)
		}
	}
	in := c.input(lensBy(used)).concrete(2000)
	x := in.slice(byteT, el...)
	var a, sa []*Term
	if used != nil {
		a = append(a, in.sh.mk(param(f, 0), "old"))
	}
	if reader {
		rd := intern("rseq", KIface, "", []*Term{in.st.slContent(x)})
		in.st.assume(not(isNil(rd)))
		a = append(a, rd)
	} else {
		a = append(a, x)
	}
	sa = append(sa, x)
	if k.flag {
		a, sa = append(a, boolT(flag)), append(sa, boolT(flag))
	}
	if k.count {
		a, sa = append(a, num(int64(n))), append(sa, num(int64(n)))
	}
	spec := c.spec(k.spec)
	sp := in.fork()
	w := sp.call(spec, sa...)
	r := in.call(f, a...)
	c.noPanic(name, af, in)
	last := spec.Signature.Results().Len() - 1
	ok := isNil(extract(w, last, KIface))
	if !c.same(name+": accepted exactly when complete and valid", af, in.st.facts, isNil(extract(r, 1, KIface)), ok) || ok == tFalse {
		return
	}
	st := newState()
	for _, x := range append(append([]*Term(nil), in.st.facts...), ok) {
		st.assume(x)
	}
	res := fix(st, extract(r, 0, kindOf(f.Signature.Results().At(0).Type())))
	g := in.fork()
	for _, x := range st.facts {
		g.st.assume(x)
	}
	ps := k.parts(g, res, f.Signature.Results().At(0).Type(), flag)
	var want []*Term
	for i := 0; i < last; i++ {
		T := spec.Signature.Results().At(i).Type()
		t := fix(st, extract(w, i, kindOf(T)))
		s2 := sp.fork()
		switch {
		case kindOf(T) == KSlice && kindOf(elemOf(T)) == KSlice:
			t = s2.rows(t, T, "")
		case kindOf(T) == KSlice:
			t = s2.st.slContent(t)
		}
		want = append(want, t)
	}
	if k.name == "mlsag.Signature" && !flag {
		want = want[:2]
	}
	if k.name == "rangeproof.Proof" && !flag {
		want = want[1:]
	}
	if len(ps) != len(want) {
		panic("parts")
	}
	for i, p := range ps {
		c.same(name+": "+p.name, af, st.facts, fix(st, p.t), fix(st, want[i]))
	}
}

func unkBytes(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = -1
	}
	return r
}

func be32(n int) []int { return []int{n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255} }

func catI(x ...[]int) []int {
	var r []int
	for _, y := range x {
		r = append(r, y...)
	}
	return r
}

// cuts are lengths around the boundaries of an encoding.
func cuts(n int, more ...int) []int {
	m := map[int]bool{}
	var r []int
	for _, x := range append([]int{n, n - 1, n - 32, n - 31, n - 33, n - 64, 0, 1, 31, 32, 33, n / 2}, more...) {
		if x >= 0 && x <= n && !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func decodeRule(c *Ctx) {
	cut := func(k *codec, name string, full []int, flag bool, n int, more ...int) {
		for _, x := range cuts(len(full), more...) {
			nm := fmt.Sprintf("%s, %d of %d bytes", name, x, len(full))
			c.decCase(k, nm, full[:x], flag, n, nil)
			if x == len(full) || x == len(full)-1 || x == len(full)-32 {
				c.decCaseR(k, nm+" in pieces", full[:x], flag, n, nil, true)
			}
		}
		for _, x := range []int{1, 32, 64} {
			nm := fmt.Sprintf("%s and %d more bytes", name, x)
			c.decCase(k, nm, append(append([]int(nil), full...), unkBytes(x)...), flag, n, nil)
		}
	}
	sg := codecByName("mlsag.Signature")
	for _, flag := range []bool{false, true} {
		for _, s := range [][2]int{{0, 0}, {0, 3}, {1, 0}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {1, 3}} {
			b := catI(unkBytes(32), be32(s[0]))
			if s[0] > 0 {
				b = catI(b, be32(s[1]), unkBytes(32*s[0]*s[1]))
				if flag {
					b = append(b, unkBytes(32*s[0]*s[1])...)
				}
			}
			cut(sg, fmt.Sprintf("mlsag.Signature.Decode of %d × %d responses, keys %v", s[0], s[1], flag), b, flag, 0, 34, 35, 36, 37, 38, 39, 40, 41)
		}
		for _, n := range []int{256, 257, 1 << 16, 1<<16 + 1, 1 << 31, 1<<31 + 1} {
			b := catI(unkBytes(32), be32(n), be32(1), unkBytes(64))
			c.decCase(sg, fmt.Sprintf("mlsag.Signature.Decode claiming %d rows, keys %v", n, flag), b, flag, 0, nil)
			b = catI(unkBytes(32), be32(1), be32(n), unkBytes(64))
			c.decCase(sg, fmt.Sprintf("mlsag.Signature.Decode claiming %d responses, keys %v", n, flag), b, flag, 0, nil)
		}
	}
	for _, n := range []int{0, 1, 2, 3} {
		cut(codecByName("mlsag.PubKeys"), fmt.Sprintf("mlsag.PubKeys.Decode of %d keys", n), unkBytes(32*n), false, n)
		cut(codecByName("mlsag.Responses"), fmt.Sprintf("mlsag.Responses.Decode of %d responses", n), unkBytes(32*n), false, n)
		cut(codecByName("innerproduct.Proof"), fmt.Sprintf("innerproduct.Proof.Decode of %d rounds", n), unkBytes(64+64*n), false, n, 63, 64, 65, 95, 96, 97, 127)
		cut(codecByName("commitments"), fmt.Sprintf("DecodeCommitments of %d", n), catI(be32(n), unkBytes(32*n)), false, n, 2, 3, 4, 5)
	}
	cut(codecByName("pedersen.Commitment"), "pedersen.Commitment.Decode", unkBytes(32), false, 0)
	for _, n := range []int{256, 257, 1 << 16, 1<<16 + 1, 1 << 31, 1<<31 + 1} {
		c.decCase(codecByName("commitments"), fmt.Sprintf("DecodeCommitments claiming %d", n), catI(be32(n), unkBytes(32)), false, 0, nil)
		c.decCase(codecByName("mlsag.PubKeys"), fmt.Sprintf("mlsag.PubKeys.Decode of one of %d keys", n), unkBytes(32), false, n, nil)
		c.decCase(codecByName("mlsag.Responses"), fmt.Sprintf("mlsag.Responses.Decode of one of %d responses", n), unkBytes(32), false, n, nil)
	}
	rp := codecByName("rangeproof.Proof")
	for _, flag := range []bool{false, true} {
		for _, n := range []int{0, 1, 2} {
			for _, m := range []int{0, 1, 2} {
				if !flag && m > 0 {
					continue
				}
				var b []int
				if flag {
					b = catI(be32(m), unkBytes(32*m))
				}
				h := len(b)
				b = append(b, unkBytes(32*7+64+64*n)...)
				cut(rp, fmt.Sprintf("rangeproof.Proof.Decode of %d commitments, %d rounds, commitments %v", m, n, flag), b, flag, 0, 3, 4, h, h+32, h+64, h+96, h+127, h+128, h+160, h+192, h+224, h+223, h+256, h+288, h+287, h+289, h+300)
			}
		}
	}
	for _, n := range []int{1, 2} {
		for _, o := range []int{0, 1, 3} {
			c.decCase(sg, fmt.Sprintf("mlsag.Signature.Decode of %d × 2 responses into a signature of %d rows", n, o), catI(unkBytes(32), be32(n), be32(2), unkBytes(32*4*n)), true, 0, map[string]int{"old.[]Responses": o, "old.[]Responses[*]": 1, "old.PubKeys": o, "old.PubKeys[*].[]Point": 1})
			c.decCase(codecByName("innerproduct.Proof"), fmt.Sprintf("innerproduct.Proof.Decode of %d rounds into a proof of %d", n, o), unkBytes(64+64*n), false, 0, map[string]int{"old.L": o, "old.R": o})
			c.decCase(rp, fmt.Sprintf("rangeproof.Proof.Decode of %d rounds into a proof of %d", n, o), catI(be32(n), unkBytes(32*n+32*7+64+64*n)), true, 0, map[string]int{"old.V": o, "old.Blinders": o, "old.IPProof.L": o, "old.IPProof.R": o})
		}
	}
}

func encodeRule(c *Ctx) {
	// enc checks the bytes of a value and that they decode to it
	enc := func(k *codec, name string, lens map[string]int, flag bool, n int, want func(sp *input, v *Term, T types.Type) *Term) {
		f, d := c.drv(k.enc), c.drv(k.dec)
		af, ad := c.fn(k.encA), c.fn(k.decA)
		if f == nil || d == nil || af == nil || ad == nil {
			return
		}
		in := c.input(lensBy(lens)).concrete(2000)
		v := in.sh.mk(param(f, 0), "v")
		a := []*Term{v}
		if k.flag {
			a = append(a, boolT(flag))
		}
		T := param(f, 0)
		sp := in.fork()
		w := want(sp, v, T)
		r := in.call(f, a...)
		c.noPanic(name, af, in)
		c.same(name+": encodes without error", af, in.st.facts, isNil(extract(r, 1, KIface)), tTrue)
		bs := extract(r, 0, KSlice)
		c.same(name+": exact bytes", af, in.st.facts, in.st.slContent(bs), w)
		b := []*Term{bs}
		if k.flag {
			b = append(b, boolT(flag))
		}
		if k.count {
			b = append(b, num(int64(n)))
		}
		q := in.call(d, b...)
		if !c.same(name+": decodes", ad, in.st.facts, isNil(extract(q, 1, KIface)), tTrue) {
			return
		}
		DT := d.Signature.Results().At(0).Type()
		st := newState()
		for _, x := range in.st.facts {
			st.assume(x)
		}
		pv, PT := v, T
		if _, isP := T.Underlying().(*types.Pointer); !isP && kindOf(DT) == KPtr {
			pv = sp.ev.alloc(T, sp.st, v)
			PT = types.NewPointer(T)
		}
		ps := k.parts(sp, pv, PT, flag)
		for i, p := range k.parts(in, fix(st, extract(q, 0, kindOf(DT))), DT, flag) {
			c.same(name+": decodes to the same "+p.name, ad, in.st.facts, p.t, ps[i].t)
		}
	}
	specSeq := func(sp *input, name string, args ...*Term) *Term {
		f := c.spec(name)
		return sp.ev.deep(sp.st, sp.call(f, args...), types.NewSlice(byteT))
	}
	rowsSl := func(sp *input, f *ssa.Function, i int, rows *Term) *Term {
		T := f.Signature.Params().At(i).Type()
		var el []*Term
		for _, x := range rows.a {
			es, _ := elemsOf(x, kindOf(elemOf(elemOf(T))))
			el = append(el, sp.slice(elemOf(elemOf(T)), es...))
		}
		return sp.slice(elemOf(T), el...)
	}
	// any number of elements
	encAny := func(k *codec, name string, want func(sp *input, v *Term, T types.Type) *Term) {
		f, af := c.drv(k.enc), c.fn(k.encA)
		if f == nil || af == nil {
			return
		}
		in := c.input(nil)
		v := in.sh.mk(param(f, 0), "v")
		a := []*Term{v}
		if k.flag {
			a = append(a, tFalse)
		}
		sp := in.fork()
		w := want(sp, v, param(f, 0))
		r := in.call(f, a...)
		c.same(name+" of any size: encodes without error", af, in.st.facts, isNil(extract(r, 1, KIface)), tTrue)
		c.same(name+" of any size: exact bytes", af, in.st.facts, in.st.slContent(extract(r, 0, KSlice)), w)
	}
	encAny(codecByName("mlsag.Signature"), "mlsag.Signature without keys", func(sp *input, v *Term, T types.Type) *Term {
		f := c.spec("MlsagEnc")
		x, E := sp.getT(v, T, "*")
		return specSeq(sp, "MlsagEnc", field(x, E, "Scalar"), field(x, E, "[]Responses"), sp.slice(elemOf(f.Signature.Params().At(2).Type())), tFalse)
	})
	encAny(codecByName("mlsag.PubKeys"), "mlsag.PubKeys", func(sp *input, v *Term, T types.Type) *Term {
		return specSeq(sp, "EncPoints", field(v, T, "[]Point"))
	})
	encAny(codecByName("mlsag.Responses"), "mlsag.Responses", func(sp *input, v *Term, T types.Type) *Term {
		return specSeq(sp, "EncScalars", v)
	})
	encAny(codecByName("innerproduct.Proof"), "innerproduct.Proof", func(sp *input, v *Term, T types.Type) *Term {
		x, E := sp.getT(v, T, "*")
		sp.st.assume(eq(lenT(sp.st.slContent(field(x, E, "L"))), lenT(sp.st.slContent(field(x, E, "R")))))
		return specSeq(sp, "IppEnc", field(x, E, "A"), field(x, E, "B"), field(x, E, "L"), field(x, E, "R"))
	})
	encAny(codecByName("commitments"), "commitments", func(sp *input, v *Term, T types.Type) *Term {
		E := elemOf(T)
		cs := sp.st.slContent(v)
		it := newIter("c", nil)
		vs := mkRep(lenT(cs), it, lit(fldK(at(cs, it, kindOf(E)), roleIndex(E, "Value"), E)))
		return specSeq(sp, "CommitsEnc", sp.ev.newSlice(sp.st, elemOf(c.spec("CommitsEnc").Signature.Params().At(0).Type()), vs))
	})
	sizes := []int{1, 2, 3, 8, 16, 17, 32, 33, 255, 256, 257}
	if c.thorough {
		sizes = append(sizes, 4, 5, 6, 7, 9, 64, 65, 127, 128, 129)
	}
	near := c.near(260, "mlsag.(*Signature).Encode", "mlsag.(*Signature).Decode")
	sg := codecByName("mlsag.Signature")
	for _, flag := range []bool{false, true} {
		for _, n := range union(260, []int{0}, sizes, near) {
			for _, m := range union(260, sizes, near) {
				if m == 0 || n > 3 && m > 2 || m > 3 && n > 2 || n > 20 && m > 1 || m > 20 && n > 1 {
					continue
				}
				enc(sg, fmt.Sprintf("mlsag.Signature of %d × %d, keys %v", n, m, flag), map[string]int{"v.[]Responses": n, "v.[]Responses[*]": m, "v.PubKeys": n, "v.PubKeys[*].[]Point": m}, flag && n > 0, 0, func(sp *input, v *Term, T types.Type) *Term {
					ps := sigParts(sp, v, T, true)
					f := c.spec("MlsagEnc")
					return specSeq(sp, "MlsagEnc", ps[0].t, rowsSl(sp, f, 1, ps[1].t), rowsSl(sp, f, 2, ps[2].t), boolT(flag && n > 0))
				})
			}
		}
	}
	for _, n := range union(260, []int{0}, sizes, c.near(260, "mlsag.(*PubKeys).Decode", "mlsag.(PubKeys).Encode", "mlsag.(*Responses).Decode", "mlsag.(Responses).Encode", "rangeproof/innerproduct.(*Proof).Encode", "rangeproof/innerproduct.(*Proof).Decode", "rangeproof/pedersen.EncodeCommitments", "rangeproof/pedersen.DecodeCommitments")) {
		l := map[string]int{"v.[]Point": n, "v": n, "v.L": n, "v.R": n}
		enc(codecByName("mlsag.PubKeys"), fmt.Sprintf("mlsag.PubKeys of %d", n), l, false, n, func(sp *input, v *Term, T types.Type) *Term {
			return specSeq(sp, "EncPoints", field(v, T, "[]Point"))
		})
		enc(codecByName("mlsag.Responses"), fmt.Sprintf("mlsag.Responses of %d", n), l, false, n, func(sp *input, v *Term, T types.Type) *Term {
			return specSeq(sp, "EncScalars", v)
		})
		enc(codecByName("innerproduct.Proof"), fmt.Sprintf("innerproduct.Proof of %d rounds", n), l, false, 0, func(sp *input, v *Term, T types.Type) *Term {
			x, E := sp.getT(v, T, "*")
			return specSeq(sp, "IppEnc", field(x, E, "A"), field(x, E, "B"), field(x, E, "L"), field(x, E, "R"))
		})
		enc(codecByName("commitments"), fmt.Sprintf("%d commitments", n), l, false, 0, func(sp *input, v *Term, T types.Type) *Term {
			es, _ := elemsOf(sp.rows(v, T, "Value"), KPt)
			return specSeq(sp, "CommitsEnc", sp.slice(elemOf(c.spec("CommitsEnc").Signature.Params().At(0).Type()), es...))
		})
	}
	enc(codecByName("pedersen.Commitment"), "pedersen.Commitment", nil, false, 0, func(sp *input, v *Term, T types.Type) *Term {
		return pbytes(sp.get(v, T, "*", "Value"))
	})
	for _, flag := range []bool{false, true} {
		for _, m := range union(260, []int{0, 1, 2, 4}, sizes, c.near(260, "rangeproof.(*Proof).Encode", "rangeproof.(*Proof).Decode")) {
			for _, n := range []int{0, 1, 2, 6, 7} {
				if n > 2 && m > 2 && !c.thorough {
					continue
				}
				enc(codecByName("rangeproof.Proof"), fmt.Sprintf("rangeproof.Proof of %d commitments, %d rounds, commitments %v", m, n, flag), map[string]int{"v.V": m, "v.Blinders": m, "v.IPProof.L": n, "v.IPProof.R": n}, flag, 0, func(sp *input, v *Term, T types.Type) *Term {
					ps := rangeParts(sp, v, T, true)
					f := c.spec("RangeEnc")
					var a []*Term
					for i, p := range ps {
						t := p.t
						if PT := f.Signature.Params().At(i).Type(); kindOf(PT) == KSlice {
							es, _ := elemsOf(t, KPt)
							t = sp.slice(elemOf(PT), es...)
						}
						a = append(a, t)
					}
					return specSeq(sp, "RangeEnc", append(a, boolT(flag))...)
				})
			}
		}
	}
}

func equalsRule(c *Ctx) {
	c.commitmentEquals()
	// flat compares a list of terms, different lengths being different
	eqList := func(a, b *Term) *Term {
		x, ok1 := elemsOf(a, KPt)
		y, ok2 := elemsOf(b, KPt)
		if !ok1 || !ok2 {
			return eq(a, b)
		}
		if len(x) != len(y) {
			return tFalse
		}
		var r []*Term
		for i := range x {
			r = append(r, eq(x[i], y[i]))
		}
		return and(r...)
	}
	eqRows := func(a, b *Term) *Term {
		if len(a.a) != len(b.a) {
			return tFalse
		}
		var r []*Term
		for i := range a.a {
			r = append(r, eqList(a.a[i], b.a[i]))
		}
		return and(r...)
	}
	run := func(fn string, name string, lens map[string]int, flags []bool, nils [2]bool, want func(in *input, a, b *Term, T types.Type, flag bool) *Term) {
		f := c.fn(fn)
		if f == nil {
			return
		}
		for _, flag := range flags {
			in := c.input(lensBy(lens)).concrete(400)
			a := in.args(f, "a", "b", "flag")
			if len(a) > 2 {
				a[2] = boolT(flag)
			}
			// receivers may be pointers
			x, T := a[0], param(f, 0)
			if kindOf(T) == KPtr {
				x, T = in.getT(x, T, "*")
			}
			if nils[0] || nils[1] {
				i := roleIndex(T, "IPProof")
				set := func(s *Term) *Term {
					fs := make([]*Term, T.Underlying().(*types.Struct).NumFields())
					for j := range fs {
						fs[j] = fldK(s, j, T)
					}
					fs[i] = tNil
					return mkStruct(fs...)
				}
				if nils[0] {
					x = set(x)
					if kindOf(param(f, 0)) == KPtr {
						in.st.mem.set(a[0], x)
					} else {
						a[0] = x
					}
				}
				if nils[1] {
					a[1] = set(a[1])
				}
			}
			w := want(in.fork(), x, a[1], T, flag)
			r := in.call(f, a...)
			nm := name
			if len(a) > 2 {
				nm = fmt.Sprintf("%s (%v)", name, flag)
			}
			c.noPanic(nm, f, in)
			c.same(nm, f, in.st.facts, r, w)
		}
	}
	max := 3
	if c.thorough {
		max = 5
	}
	var pairs [][2]int
	for n := 0; n <= max; n++ {
		for m := 0; m <= max; m++ {
			pairs = append(pairs, [2]int{n, m})
		}
	}
	for _, n := range union(70, []int{4, 5, 8, 16, 17, 33}, c.near(68, "mlsag.(Responses).Equals", "mlsag.(*PubKeys).Equals", "mlsag.(Signature).Equals", "rangeproof.(*Proof).Equals", "rangeproof/innerproduct.(*Proof).Equals")) {
		if n > max {
			pairs = append(pairs, [2]int{n, n}, [2]int{n, n + 1}, [2]int{n + 1, n})
		}
	}
	pairs = append(pairs, [2]int{1, 257}, [2]int{257, 1}, [2]int{256, 0}, [2]int{0, 256}, [2]int{255, 256})
	for _, nm := range pairs {
		n, m := nm[0], nm[1]
		{
			run("mlsag.(Responses).Equals", fmt.Sprintf("mlsag.Responses of %d and %d", n, m), map[string]int{"a": n, "b": m}, []bool{false}, [2]bool{}, func(in *input, a, b *Term, T types.Type, _ bool) *Term {
				return eqList(in.st.slContent(a), in.st.slContent(b))
			})
			run("mlsag.(*PubKeys).Equals", fmt.Sprintf("mlsag.PubKeys of %d and %d", n, m), map[string]int{"a.[]Point": n, "b.[]Point": m}, []bool{false}, [2]bool{}, func(in *input, a, b *Term, T types.Type, _ bool) *Term {
				return eqList(in.st.slContent(field(a, T, "[]Point")), in.st.slContent(field(b, T, "[]Point")))
			})
			run("rangeproof/innerproduct.(*Proof).Equals", fmt.Sprintf("innerproduct.Proof of %d and %d rounds", n, m), map[string]int{"a.L": n, "a.R": n, "b.L": m, "b.R": m}, []bool{false}, [2]bool{}, ippEq(eqList))
			run("rangeproof/innerproduct.(*Proof).Equals", fmt.Sprintf("innerproduct.Proof of %d left, %d right rounds", n, m), map[string]int{"a.L": 1, "a.R": n, "b.L": 1, "b.R": m}, []bool{false}, [2]bool{}, ippEq(eqList))
			run("rangeproof.(*Proof).Equals", fmt.Sprintf("rangeproof.Proof of %d and %d commitments", n, m), map[string]int{"a.V": n, "b.V": m, "a.Blinders": 0, "b.Blinders": 0, "a.IPProof.L": 1, "b.IPProof.L": 1, "a.IPProof.R": 1, "b.IPProof.R": 1}, []bool{false, true}, [2]bool{}, rangeEq(eqList))
			run("rangeproof.(*Proof).Equals", fmt.Sprintf("rangeproof.Proof of %d and %d rounds", n, m), map[string]int{"a.V": 1, "b.V": 1, "a.Blinders": 0, "b.Blinders": 0, "a.IPProof.L": n, "b.IPProof.L": m, "a.IPProof.R": n, "b.IPProof.R": m}, []bool{false, true}, [2]bool{}, rangeEq(eqList))
			for _, k := range [][4]int{{1, 1, 1, 1}, {2, 2, 2, 2}, {1, 2, 1, 1}, {1, 1, 1, 2}, {1, 1, 2, 1}, {2, 1, 2, 2}} {
				if n > 20 && m > 20 && k != [4]int{1, 1, 1, 1} {
					continue
				}
				run("mlsag.(Signature).Equals", fmt.Sprintf("mlsag.Signature of %d and %d rows of %v", n, m, k), map[string]int{
					"a.[]Responses": n, "b.[]Responses": m, "a.[]Responses[*]": k[0], "b.[]Responses[*]": k[1],
					"a.PubKeys": n, "b.PubKeys": m, "a.PubKeys[*].[]Point": k[2], "b.PubKeys[*].[]Point": k[3]}, []bool{false, true}, [2]bool{}, sigEq(eqRows))
			}
			run("mlsag.(Signature).Equals", fmt.Sprintf("mlsag.Signature of 1 row and %d and %d keys", n, m), map[string]int{
				"a.[]Responses": 1, "b.[]Responses": 1, "*.[]Responses[*]": 1, "a.[]Responses[*]": 1, "b.[]Responses[*]": 1,
				"a.PubKeys": n, "b.PubKeys": m, "a.PubKeys[*].[]Point": 1, "b.PubKeys[*].[]Point": 1}, []bool{false, true}, [2]bool{}, sigEq(eqRows))
		}
	}
	for _, x := range [][2]bool{{true, false}, {false, true}, {true, true}} {
		run("rangeproof.(*Proof).Equals", fmt.Sprintf("rangeproof.Proof, inner product proof missing %v", x), map[string]int{"a.V": 1, "b.V": 1, "a.Blinders": 0, "b.Blinders": 0, "a.IPProof.L": 1, "b.IPProof.L": 1, "a.IPProof.R": 1, "b.IPProof.R": 1}, []bool{false, true}, x, rangeEq(eqList))
	}
}

type eqf = func(in *input, a, b *Term, T types.Type, flag bool) *Term

func ippEq(eqList func(a, b *Term) *Term) eqf {
	return func(in *input, a, b *Term, T types.Type, _ bool) *Term {
		r := []*Term{eq(field(a, T, "A"), field(b, T, "A")), eq(field(a, T, "B"), field(b, T, "B"))}
		for _, n := range []string{"L", "R"} {
			r = append(r, eqList(in.st.slContent(field(a, T, n)), in.st.slContent(field(b, T, n))))
		}
		return and(r...)
	}
}

func rangeEq(eqList func(a, b *Term) *Term) eqf {
	return func(in *input, a, b *Term, T types.Type, flag bool) *Term {
		var r []*Term
		if flag {
			V := fieldType(T, "V")
			r = append(r, eqList(in.rows(field(a, T, "V"), V, "Value"), in.rows(field(b, T, "V"), V, "Value")))
		}
		for _, n := range []string{"A", "S", "T1", "T2"} {
			r = append(r, eq(field(a, T, n), field(b, T, n)))
		}
		i, j, k := proofScalars(T)
		for _, n := range []int{i, j, k} {
			r = append(r, eq(fldK(a, n, T), fldK(b, n, T)))
		}
		x, y := field(a, T, "IPProof"), field(b, T, "IPProof")
		if x == tNil || y == tNil {
			return and(append(r, boolT(x == y))...)
		}
		IT := deref(fieldType(T, "IPProof"))
		return and(append(r, ippEq(eqList)(in, in.st.load(x, IT), in.st.load(y, IT), IT, false))...)
	}
}

func sigEq(eqRows func(a, b *Term) *Term) eqf {
	return func(in *input, a, b *Term, T types.Type, flag bool) *Term {
		R := fieldType(T, "[]Responses")
		r := []*Term{eq(field(a, T, "Scalar"), field(b, T, "Scalar")), eqRows(in.rows(field(a, T, "[]Responses"), R, ""), in.rows(field(b, T, "[]Responses"), R, ""))}
		if flag {
			K := fieldType(T, "PubKeys")
			r = append(r, eqRows(in.rows(field(a, T, "PubKeys"), K, "[]Point"), in.rows(field(b, T, "PubKeys"), K, "[]Point")))
		}
		return and(r...)
	}
}

// allocRule: whatever an encoding claims, memory is only taken for what is
// there. The claimed counts are fixed to values around the sizes that the code
// mentions; the rest of the bytes are unknown.
func allocRule(c *Ctx) {
	run := func(k *codec, name string, bytes []int, flag bool, n int) {
		f, af := c.drv(k.dec), c.fn(k.decA)
		if f == nil || af == nil {
			return
		}
		in := c.input(nil).concrete(200)
		var el []*Term
		for i, b := range bytes {
			t := num(int64(b))
			if b < 0 {
				t = symT(KInt, fmt.Sprintf("x[%d]", i))
				t.nn = true
			}
			el = append(el, t)
		}
		a := []*Term{in.slice(byteT, el...)}
		if k.flag {
			a = append(a, boolT(flag))
		}
		if k.count {
			a = append(a, num(int64(n)))
		}
		in.call(f, a...)
		limit := num(int64(len(bytes) + 64))
		for _, e := range in.ev.log {
			if e.kind != "make" {
				continue
			}
			for _, t := range e.t {
				bad := lt(limit, t)
				r := equiv(append(append([]*Term(nil), e.facts...), bad), tTrue, tFalse)
				c.splits += r.splits
				if r.ok {
					continue
				}
				if why := uninterpreted(t); why != "" {
					c.undecided(name, af, why)
					return
				}
				c.failed(name, af, e.pos, fmt.Sprintf("allocation of %s elements of %s", clip(showT(t, 6)), e.s), fmt.Sprintf("the input has %d bytes", len(bytes)))
				return
			}
		}
		c.proved(name, af)
	}
	counts := map[int]bool{}
	for _, n := range []int{100, 1000, 1 << 10, 1 << 12, 1<<16 - 1, 1 << 16, 1<<16 + 1, 100000, 1 << 20, 1000000, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		counts[n] = true
	}
	for _, k := range codecs {
		for _, n := range c.near(1<<32-2, k.decA) {
			if n >= 80 {
				counts[n] = true
			}
		}
	}
	var ns []int
	for n := range counts {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		for _, have := range []int{0, 1, 2} {
			for _, flag := range []bool{false, true} {
				run(codecByName("mlsag.Signature"), fmt.Sprintf("mlsag.Signature.Decode: %d rows claimed, %d present, keys %v", n, have, flag), catI(unkBytes(32), be32(n), be32(1), unkBytes(32*have)), flag, 0)
				run(codecByName("mlsag.Signature"), fmt.Sprintf("mlsag.Signature.Decode: %d responses claimed, %d present, keys %v", n, have, flag), catI(unkBytes(32), be32(1), be32(n), unkBytes(32*have)), flag, 0)
				run(codecByName("mlsag.Signature"), fmt.Sprintf("mlsag.Signature.Decode: %d × %d claimed, %d present, keys %v", n, n, have, flag), catI(unkBytes(32), be32(n), be32(n), unkBytes(32*have)), flag, 0)
			}
			run(codecByName("mlsag.PubKeys"), fmt.Sprintf("mlsag.PubKeys.Decode: %d claimed, %d present", n, have), unkBytes(32*have), false, n)
			run(codecByName("mlsag.Responses"), fmt.Sprintf("mlsag.Responses.Decode: %d claimed, %d present", n, have), unkBytes(32*have), false, n)
			run(codecByName("commitments"), fmt.Sprintf("DecodeCommitments: %d claimed, %d present", n, have), catI(be32(n), unkBytes(32*have)), false, 0)
			run(codecByName("rangeproof.Proof"), fmt.Sprintf("rangeproof.Proof.Decode: %d commitments claimed, %d present", n, have), catI(be32(n), unkBytes(32*have)), true, 0)
		}
	}
	for _, n := range []int{0, 1, 2, 5} {
		run(codecByName("innerproduct.Proof"), fmt.Sprintf("innerproduct.Proof.Decode of %d rounds", n), unkBytes(64+64*n), false, 0)
	}
}
