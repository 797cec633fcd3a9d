package main

import (
	"go/types"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Models of the libraries that the module calls.

type model func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term

var models = map[string]model{}
var inlineExt = map[string]bool{}

func tuple(a ...*Term) *Term { return intern("tuple", KTuple, "", a) }

func elemT(sig *types.Signature, i int) types.Type {
	if r := sig.Recv(); r != nil {
		if i == 0 {
			return deref(r.Type())
		}
		i--
	}
	return deref(sig.Params().At(i).Type())
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// ld reads pointer argument i.
func ld(ev *Ev, st *State, sig *types.Signature, args []*Term, i int) *Term {
	T := elemT(sig, i)
	ev.noteElem(args[i], T)
	return ev.load(st, args[i], T)
}

// put writes the receiver and returns it.
func put(ev *Ev, st *State, sig *types.Signature, args []*Term, v *Term) *Term {
	T := elemT(sig, 0)
	ev.noteElem(args[0], T)
	args[0] = ev.nonnil(st, args[0])
	ev.noteElem(args[0], T)
	ev.emit(Event{kind: "store", t: []*Term{args[0], v}, facts: st.facts})
	st.store(args[0], v, T)
	return args[0]
}

func reg(name string, m model) { models[name] = m }

func isRandReader(t *Term) bool {
	return t.op == "deref" && t.a[0].op == "glob" && t.a[0].s == "crypto/rand.Reader"
}

func (ev *Ev) randTerm(k Kind, what string, pre ...*Term) *Term {
	t := app("rand", k, what+"#"+ev.fresh(), append(append([]*Term(nil), pre...), ev.iters...)...)
	ev.emit(Event{kind: "rand", t: []*Term{t}, s: what})
	return t
}

func okErr(ok *Term) *Term { return ite(ok, tNil, tErr) }

func foldInt(op string, a []*Term) *Term {
	x := a[0]
	switch op {
	case "lz32":
		if x.isConst() && x.big().IsUint64() {
			return num(int64(bits.LeadingZeros32(uint32(x.big().Uint64()))))
		}
	case "tz":
		if x.isConst() && x.big().IsInt64() {
			return num(int64(bits.TrailingZeros64(uint64(x.big().Int64()))))
		}
	case "bitlen":
		if x.isConst() {
			return num(int64(x.big().BitLen()))
		}
	case "cmpint":
		d := subT(a[0], a[1])
		if d.isConst() {
			return num(int64(d.big().Sign()))
		}
		if d.op == "ite" {
			return ite(d.a[0], foldInt(op, []*Term{d.a[1], num(0)}), foldInt(op, []*Term{d.a[2], num(0)}))
		}
	}
	t := intern(op, KInt, "", a)
	if op != "cmpint" {
		t.nn = true
	}
	return t
}

func textEnc(op string, x *Term) *Term {
	switch {
	case op == "unb64" && x.op == "b64", op == "unhex" && x.op == "hexenc":
		return x.a[0]
	}
	return intern(op, KSeq, "", []*Term{x})
}

// rdT is the part [pos, pos+n) of what a reader delivers.
func rdT(r, pos, n *Term) *Term {
	if n.isConst() && n.s == "0" {
		return tEmpty
	}
	if r.op == "rseq" {
		return sub(r.a[0], pos, n)
	}
	return intern("rd", KSeq, "", []*Term{r, pos, n})
}

func restlen(r *Term) *Term {
	if r.op == "rseq" {
		return lenT(r.a[0])
	}
	t := intern("restlen", KInt, "", []*Term{r})
	return t
}

// readN consumes n bytes of a reader; data is meaningful when ok.
func (ev *Ev) readN(st *State, r, n *Term) (data, ok, err *Term) {
	err = tErr
	if r.op == "iface" && (r.s == "*bytes.Buffer" || r.s == "*bytes.Reader") {
		p := r.a[0]
		c := st.load(p, ptrElem[p])
		ok = st.simp(le(n, lenT(c)))
		data = sub(c, num(0), n)
		st.store(p, ite(ok, sub(c, n, subT(lenT(c), n)), c), ptrElem[p])
		err = ite(ok, tNil, eofErr(st, lenT(c)))
		return
	}
	if isRandReader(r) {
		d := ev.randTerm(KSeq, "bytes", n)
		ok := not(patom("randerr", d))
		return d, ok, okErr(ok)
	}
	p := intern("rpos", KPtr, "", []*Term{r})
	pos, has := st.mem.get(p)
	if !has {
		pos = num(0)
	}
	end := add(pos, n)
	ok = st.simp(le(end, restlen(r)))
	data = rdT(r, pos, n)
	st.mem.set(p, ite(ok, end, pos))
	err = okErr(ok)
	if r.op == "rseq" {
		err = ite(ok, tNil, eofErr(st, subT(restlen(r), pos)))
	}
	return
}

// eofErr is the error of a read that asks for more than is left.
func eofErr(st *State, left *Term) *Term {
	return ite(st.simp(eq0(left)), intern("error", KIface, "io.EOF", nil), intern("error", KIface, "io.ErrUnexpectedEOF", nil))
}

// writeTo appends to a writer and returns the error.
func (ev *Ev) writeTo(st *State, w, data *Term) *Term {
	if w.op == "ite" {
		return ev.unk(KIface, "conditional writer")
	}
	if w.op == "iface" {
		if strings.HasPrefix(w.s, "hash:") {
			c := st.mem.at(w.a[0])
			st.mem.set(w.a[0], cat(c, data))
			ev.emit(Event{kind: "store", t: []*Term{w.a[0]}})
			return tNil
		}
		if w.s == "*bytes.Buffer" || w.s == "*strings.Builder" {
			p := w.a[0]
			c := st.load(p, ptrElem[p])
			ev.emit(Event{kind: "store", t: []*Term{p}})
			st.store(p, cat(c, data), ptrElem[p])
			return tNil
		}
	}
	if w.op == "iface" && w.s == "*bufio.Writer" {
		p := intern("bufpend", KPtr, "", []*Term{w.a[0]})
		if old, has := st.mem.get(p); has {
			st.mem.set(p, cat(old, data))
			return tNil
		}
		return ev.unk(KIface, "buffered writer")
	}
	p := intern("wout", KPtr, "", []*Term{w})
	old, has := st.mem.get(p)
	if !has {
		old = tEmpty
	}
	// the content by what is known here, so that paths which merged
	// without consequence name the same write
	n := st.simp(cat(st.simp(old), data))
	st.mem.set(p, n)
	fails := patom("werr", w, n)
	ev.emit(Event{kind: "write", t: []*Term{w, data, fails}, facts: st.facts})
	return okErr(not(fails))
}

func (ev *Ev) hashMethod(st *State, h *Term, name string, args []*Term, sig *types.Signature) *Term {
	alg := strings.TrimPrefix(h.s, "hash:")
	switch name {
	case "Write":
		d := st.slContent(args[0])
		ev.writeTo(st, h, d)
		return tuple(lenT(d), tNil)
	case "WriteString":
		ev.writeTo(st, h, args[0])
		return tuple(lenT(args[0]), tNil)
	case "Sum":
		return ev.newSlice(st, types.Typ[types.Byte], cat(st.slContent(args[0]), digest(alg, st.mem.at(h.a[0]))))
	case "Reset":
		st.mem.set(h.a[0], tEmpty)
		return tNil
	case "Size":
		return num(digestLen[alg])
	case "BlockSize":
		if n, ok := blockLen[alg]; ok {
			return num(n)
		}
	case "Sum64":
		return bdec("B64", digest(alg, st.mem.at(h.a[0])))
	}
	return ev.unkCall("hash "+name, sig, args, st)
}

func digest(alg string, c *Term) *Term { return intern("digest", KSeq, alg, []*Term{c}) }

func (ev *Ev) newHash(st *State, alg string) *Term {
	p := app("alloc", KPtr, "a"+ev.fresh(), ev.iters...)
	st.mem.set(p, tEmpty)
	return intern("iface", KIface, "hash:"+alg, []*Term{p})
}

// encode is the fixed-size binary encoding of v.
func (ev *Ev) encode(st *State, order byte, v *Term, T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		ev.noteElem(v, u.Elem())
		return ev.encode(st, order, ev.load(st, v, u.Elem()), u.Elem())
	case *types.Slice:
		if kindOf(u.Elem()) == KInt && sizeOf(u.Elem()) == 1 {
			return st.slContent(v)
		}
		if n := sizeOf(u.Elem()); n > 0 {
			it := newIter("b", nil)
			c := st.slContent(v)
			return mkRep(lenT(c), it, benc(string(order)+strconv.Itoa(int(n*8)), at(c, it, KInt)))
		}
		return nil
	}
	switch kindOf(T) {
	case KInt:
		switch n := sizeOf(T); n {
		case 1:
			return lit(v)
		case 2, 4, 8:
			return benc(string(order)+strconv.Itoa(int(n*8)), v)
		}
		return nil
	case KBool:
		return lit(ite(v, num(1), num(0)))
	case KSeq:
		if a, ok := T.Underlying().(*types.Array); ok && sizeOf(a.Elem()) == 1 {
			return v
		}
		return nil
	case KStruct:
		s := T.Underlying().(*types.Struct)
		var ps []*Term
		for i := 0; i < s.NumFields(); i++ {
			e := ev.encode(st, order, fldK(v, i, T), s.Field(i).Type())
			if e == nil {
				return nil
			}
			ps = append(ps, e)
		}
		return cat(ps...)
	}
	return nil
}

func sizeOf(T types.Type) int64 {
	b, ok := T.Underlying().(*types.Basic)
	if !ok || kindOf(T) != KInt {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	case types.Uint64, types.Int64:
		return 8
	}
	return 0
}

func orderOf(t *Term) byte {
	if t.op == "iface" && strings.HasSuffix(t.s, "littleEndian") {
		return 'L'
	}
	return 'B'
}

// readInto models binary.Read into a pointer or slice.
func (ev *Ev) readInto(st *State, r *Term, order byte, v *Term, T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		if sizeOf(u.Elem()) != 1 {
			return nil
		}
		n := st.simp(slLen(v))
		d, ok, err := ev.readN(st, r, n)
		ev.emit(Event{kind: "store", t: []*Term{slBase(v), d}})
		ev.writeSlice(st, v, num(0), ite(ok, d, st.slContent(v)))
		return err
	case *types.Pointer:
		E := u.Elem()
		ev.noteElem(v, E)
		var n int64
		switch kindOf(E) {
		case KInt:
			n = sizeOf(E)
		case KBool:
			n = 1
		case KSeq:
			if a, ok := E.Underlying().(*types.Array); ok && sizeOf(a.Elem()) == 1 {
				n = a.Len()
			}
		}
		if n == 0 {
			return nil
		}
		d, ok, err := ev.readN(st, r, num(n))
		var x *Term
		switch kindOf(E) {
		case KInt:
			if n == 1 {
				x = at(d, num(0), KInt)
				x.nn = true
			} else {
				x = bdec(string(order)+strconv.Itoa(int(n*8)), d)
			}
		case KBool:
			x = not(eq0(at(d, num(0), KInt)))
		default:
			x = d
		}
		old := ev.load(st, v, E)
		ev.emit(Event{kind: "store", t: []*Term{v, x}})
		st.store(v, ite(ok, x, old), E)
		return err
	}
	return nil
}

func bytesOf(x *Term) *Term { return x }

func init() {
	R := "(*" + rist
	// ---- scalars
	sc := func(n string, f func(a []*Term) *Term, k int) {
		reg(R+"Scalar)."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			var a []*Term
			for i := 1; i <= k; i++ {
				a = append(a, ld(ev, st, sig, args, i))
			}
			return put(ev, st, sig, args, f(a))
		})
	}
	one, zero := numK(KSc, 1), numK(KSc, 0)
	sc("SetZero", func([]*Term) *Term { return zero }, 0)
	sc("SetOne", func([]*Term) *Term { return one }, 0)
	sc("Set", func(a []*Term) *Term { return a[0] }, 1)
	sc("Neg", func(a []*Term) *Term { return neg(a[0]) }, 1)
	sc("Square", func(a []*Term) *Term { return mul(a[0], a[0]) }, 1)
	sc("Inverse", func(a []*Term) *Term { return powT(a[0], num(-1)) }, 1)
	sc("Add", func(a []*Term) *Term { return add(a[0], a[1]) }, 2)
	sc("Sub", func(a []*Term) *Term { return subT(a[0], a[1]) }, 2)
	sc("Mul", func(a []*Term) *Term { return mul(a[0], a[1]) }, 2)
	sc("MulAdd", func(a []*Term) *Term { return add(mul(a[0], a[1]), a[2]) }, 3)
	sc("MulSub", func(a []*Term) *Term { return subT(mul(a[0], a[1]), a[2]) }, 3)
	sc("SetBigInt", func(a []*Term) *Term { return sint(a[0]) }, 1)
	sc("SetBytes", func(a []*Term) *Term { return sfrom(a[0]) }, 1)
	reg(R+"Scalar).Rand", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, ev.randTerm(KSc, "scalar"))
	})
	reg(R+"Scalar).Derive", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, app("hscalar", KSc, "", st.slContent(args[1])))
	})
	reg(R+"Scalar).DeriveShort", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, app("hscalarshort", KSc, "", st.slContent(args[1])))
	})
	reg(R+"Scalar).Equals", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return eq(ld(ev, st, sig, args, 0), ld(ev, st, sig, args, 1))
	})
	reg(R+"Scalar).EqualsI", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ite(eq(ld(ev, st, sig, args, 0), ld(ev, st, sig, args, 1)), num(1), num(0))
	})
	reg(R+"Scalar).IsNonZeroI", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ite(eq0(ld(ev, st, sig, args, 0)), num(0), num(1))
	})
	reg(R+"Scalar).Bytes", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.newSlice(st, byteT, sbytes(ld(ev, st, sig, args, 0)))
	})
	reg(R+"Scalar).BytesInto", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		T := elemT(sig, 1)
		ev.noteElem(args[1], T)
		ev.emit(Event{kind: "store", t: []*Term{args[1]}})
		st.store(args[1], sbytes(ld(ev, st, sig, args, 0)), T)
		return args[0]
	})
	reg(R+"Scalar).BigInt", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.alloc(deref(sig.Results().At(0).Type()), st, bint(ld(ev, st, sig, args, 0)))
	})
	reg("("+rist+"Scalar).String", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return app("str", KSeq, "", args[0])
	})
	reg("("+rist+"Point).String", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return app("str", KSeq, "", args[0])
	})
	// ---- points
	pt := func(n string, f func(a []*Term) *Term, k int) {
		reg(R+"Point)."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			var a []*Term
			for i := 1; i <= k; i++ {
				a = append(a, ld(ev, st, sig, args, i))
			}
			return put(ev, st, sig, args, f(a))
		})
	}
	basePt := intern("base", KPt, "", nil)
	pt("SetZero", func([]*Term) *Term { return zeroG(KPt) }, 0)
	pt("SetBase", func([]*Term) *Term { return basePt }, 0)
	pt("Set", func(a []*Term) *Term { return a[0] }, 1)
	pt("Neg", func(a []*Term) *Term { return gneg(a[0]) }, 1)
	pt("Add", func(a []*Term) *Term { return gadd(a[0], a[1]) }, 2)
	pt("Sub", func(a []*Term) *Term { return gadd(a[0], gneg(a[1])) }, 2)
	pt("ScalarMult", func(a []*Term) *Term { return gscale(a[0], a[1]) }, 2)
	pt("PublicScalarMult", func(a []*Term) *Term { return gscale(a[0], a[1]) }, 2)
	pt("ScalarMultBase", func(a []*Term) *Term { return gscale(basePt, a[0]) }, 1)
	pt("PublicScalarMultBase", func(a []*Term) *Term { return gscale(basePt, a[0]) }, 1)
	reg(R+"Point).Rand", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, ev.randTerm(KPt, "point"))
	})
	reg(R+"Point).Derive", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, app("hpoint", KPt, "", st.slContent(args[1])))
	})
	reg(R+"Point).DeriveDalek", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, app("hpointdalek", KPt, "", st.slContent(args[1])))
	})
	reg(R+"Point).Equals", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return eq(ld(ev, st, sig, args, 0), ld(ev, st, sig, args, 1))
	})
	reg(R+"Point).EqualsI", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ite(eq(ld(ev, st, sig, args, 0), ld(ev, st, sig, args, 1)), num(1), num(0))
	})
	reg(R+"Point).Bytes", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.newSlice(st, byteT, pbytes(ld(ev, st, sig, args, 0)))
	})
	reg(R+"Point).BytesInto", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		T := elemT(sig, 1)
		ev.noteElem(args[1], T)
		ev.emit(Event{kind: "store", t: []*Term{args[1]}})
		st.store(args[1], pbytes(ld(ev, st, sig, args, 0)), T)
		return args[0]
	})
	reg(R+"Point).SetBytes", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		b := ld(ev, st, sig, args, 1)
		ok := patom("pvalid", b)
		v := pfrom(b)
		if ok != tTrue {
			v = ite(ok, v, app("junk", KPt, "", b))
		}
		put(ev, st, sig, args, v)
		return ok
	})
	// ---- bn256
	for _, g := range []struct {
		n string
		k Kind
	}{{"G1", KG1}, {"G2", KG2}, {"GT", KGT}} {
		g := g
		P := "(*" + bn + g.n + ")."
		low := strings.ToLower(g.n)
		gen := intern("gen", g.k, "", nil)
		reg(P+"Add", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return put(ev, st, sig, args, gadd(ld(ev, st, sig, args, 1), ld(ev, st, sig, args, 2)))
		})
		reg(P+"Neg", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return put(ev, st, sig, args, gneg(ld(ev, st, sig, args, 1)))
		})
		reg(P+"Set", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return put(ev, st, sig, args, ld(ev, st, sig, args, 1))
		})
		reg(P+"ScalarMult", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return put(ev, st, sig, args, gscale(ld(ev, st, sig, args, 1), ld(ev, st, sig, args, 2)))
		})
		reg(P+"ScalarBaseMult", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return put(ev, st, sig, args, gscale(gen, ld(ev, st, sig, args, 1)))
		})
		reg(P+"Marshal", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return ev.newSlice(st, byteT, genc(low, ld(ev, st, sig, args, 0)))
		})
		reg(P+"Compress", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return ev.newSlice(st, byteT, genc(low+"c", ld(ev, st, sig, args, 0)))
		})
		reg(P+"Unmarshal", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			b := st.slContent(args[1])
			ok := patom("gvalid:"+low, b)
			v := gfrom(g.k, low, b)
			if ok != tTrue {
				v = ite(ok, v, app("junk", g.k, "", b))
			}
			put(ev, st, sig, args, v)
			n := num(64)
			switch g.k {
			case KG2:
				n = num(129)
			case KGT:
				n = num(384)
			}
			return tuple(ite(ok, reslice(args[1], n, slLen(args[1])), tNil), okErr(ok))
		})
		reg(bn+"Random"+g.n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			k := ev.randTerm(KInt, "exp", args[0])
			ok := not(patom("randerr", k))
			kp := ev.alloc(deref(sig.Results().At(0).Type()), st, k)
			gp := ev.alloc(deref(sig.Results().At(1).Type()), st, gscale(gen, k))
			return tuple(ite(ok, kp, tNil), ite(ok, gp, tNil), okErr(ok))
		})
	}
	reg(bn+"Pair", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.alloc(deref(sig.Results().At(0).Type()), st, mkPair(ld(ev, st, sig, args, 0), ld(ev, st, sig, args, 1)))
	})
	reg(bn+"Decompress", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		b := st.slContent(args[0])
		ok := patom("gvalid:g1c", b)
		p := ev.alloc(deref(sig.Results().At(0).Type()), st, gfrom(KG1, "g1c", b))
		return tuple(ite(ok, p, tNil), okErr(ok))
	})
	// ---- big.Int
	B := "(*math/big.Int)."
	bi := func(n string, k int, f func(a []*Term) *Term) {
		reg(B+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			var a []*Term
			for i := 1; i <= k; i++ {
				if args[i].k == KPtr {
					a = append(a, ld(ev, st, sig, args, i))
				} else {
					a = append(a, args[i])
				}
			}
			v := f(a)
			if v == nil {
				return nil
			}
			return put(ev, st, sig, args, v)
		})
	}
	bi("Add", 2, func(a []*Term) *Term { return add(a[0], a[1]) })
	bi("Sub", 2, func(a []*Term) *Term { return subT(a[0], a[1]) })
	bi("Mul", 2, func(a []*Term) *Term { return mul(a[0], a[1]) })
	bi("Neg", 1, func(a []*Term) *Term { return neg(a[0]) })
	bi("Set", 1, func(a []*Term) *Term { return a[0] })
	bi("SetInt64", 1, func(a []*Term) *Term { return a[0] })
	bi("SetUint64", 1, func(a []*Term) *Term { return a[0] })
	bi("Rsh", 2, func(a []*Term) *Term { return shr(a[0], a[1]) })
	bi("Lsh", 2, func(a []*Term) *Term { return mul(a[0], powT(num(2), a[1])) })
	bi("Mod", 2, func(a []*Term) *Term { return mod(a[0], a[1]) })
	bi("Div", 2, func(a []*Term) *Term { return divT(a[0], a[1]) })
	bi("Quo", 2, func(a []*Term) *Term { return divT(a[0], a[1]) })
	for _, n := range []string{"DivMod", "QuoRem"} {
		reg(B+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			x, y := ld(ev, st, sig, args, 1), ld(ev, st, sig, args, 2)
			if !provNonneg(x) || !y.isConst() || y.big().Sign() <= 0 {
				return nil
			}
			m := mod(x, y)
			ev.emit(Event{kind: "store", t: []*Term{args[3], m}, facts: st.facts})
			st.store(args[3], m, deref(sig.Params().At(2).Type()))
			return tuple(put(ev, st, sig, args, divT(x, y)), args[3])
		})
	}
	bi("And", 2, func(a []*Term) *Term { return band(a[0], a[1]) })
	reg(B+"Exp", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		x, y := ld(ev, st, sig, args, 1), ld(ev, st, sig, args, 2)
		if args[3].op == "nil" {
			return put(ev, st, sig, args, powT(x, y))
		}
		m := ld(ev, st, sig, args, 3)
		return put(ev, st, sig, args, mod(powT(x, y), m))
	})
	reg(B+"SetBytes", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return put(ev, st, sig, args, bigfrom(st.slContent(args[1])))
	})
	reg(B+"Cmp", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return foldInt("cmpint", []*Term{ld(ev, st, sig, args, 0), ld(ev, st, sig, args, 1)})
	})
	reg(B+"Sign", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return foldInt("cmpint", []*Term{ld(ev, st, sig, args, 0), num(0)})
	})
	reg(B+"BitLen", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return foldInt("bitlen", []*Term{ld(ev, st, sig, args, 0)})
	})
	reg(B+"Bit", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return bitT(ld(ev, st, sig, args, 0), args[1])
	})
	reg(B+"Int64", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return conv("i64", ld(ev, st, sig, args, 0))
	})
	reg(B+"Uint64", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return conv("u64", ld(ev, st, sig, args, 0))
	})
	reg(B+"Bytes", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		x := ld(ev, st, sig, args, 0)
		if x.isConst() {
			return ev.newSlice(st, byteT, bytesT(string(x.big().Bytes())))
		}
		return ev.newSlice(st, byteT, app("bigbytes", KSeq, "", x))
	})
	reg("math/big.NewInt", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.alloc(deref(sig.Results().At(0).Type()), st, args[0])
	})
	// ---- randomness
	reg("crypto/rand.Read", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		n := slLen(args[0])
		d := ev.randTerm(KSeq, "bytes", n)
		ev.emit(Event{kind: "store", t: []*Term{slBase(args[0]), d}})
		ev.writeSlice(st, args[0], num(0), d)
		return tuple(n, okErr(not(patom("randerr", d))))
	})
	reg("crypto/rand.Int", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		if !isRandReader(args[0]) {
			return nil
		}
		bound := ld(ev, st, sig, args, 1)
		if ev.failDraw {
			ev.failed++
			return tuple(tNil, tErr)
		}
		d := ev.randTerm(KInt, "int", bound)
		d.nn = true
		if ev.choose != nil {
			if c := ev.choose(bound); c != nil {
				return tuple(ev.alloc(deref(sig.Results().At(0).Type()), st, c), tNil)
			}
		}
		ok := not(patom("randerr", d))
		p := ev.alloc(deref(sig.Results().At(0).Type()), st, d)
		return tuple(ite(ok, p, tNil), okErr(ok))
	})
	// ---- hashes
	hashCtor := func(name, alg string, withErr bool) {
		reg(name, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			a := alg
			if withErr && args[0].op != "nil" {
				a = alg + "-keyed"
			}
			h := ev.newHash(st, a)
			if withErr {
				if a != alg {
					st.mem.set(h.a[0], st.slContent(args[0]))
				}
				return tuple(h, tNil)
			}
			return h
		})
	}
	hashCtor("golang.org/x/crypto/sha3.New224", "sha3-224", false)
	hashCtor("golang.org/x/crypto/sha3.New256", "sha3-256", false)
	hashCtor("golang.org/x/crypto/sha3.New384", "sha3-384", false)
	hashCtor("golang.org/x/crypto/sha3.New512", "sha3-512", false)
	for _, x := range []string{"crypto/sha1.New sha1", "crypto/md5.New md5", "crypto/sha256.New224 sha224", "crypto/sha512.New384 sha384", "crypto/sha512.New512_256 sha512-256", "crypto/sha512.New512_224 sha512-224",
		"golang.org/x/crypto/sha3.NewLegacyKeccak256 keccak-256", "golang.org/x/crypto/sha3.NewLegacyKeccak512 keccak-512",
		"crypto/sha3.New224 sha3-224", "crypto/sha3.New256 sha3-256", "crypto/sha3.New384 sha3-384", "crypto/sha3.New512 sha3-512"} {
		f := strings.Fields(x)
		hashCtor(f[0], f[1], false)
	}
	hashCtor("golang.org/x/crypto/blake2s.New256", "blake2s-256", true)
	hashCtor("crypto/sha256.New", "sha256", false)
	hashCtor("crypto/sha512.New", "sha512", false)
	hashCtor("golang.org/x/crypto/blake2b.New256", "blake2b-256", true)
	hashCtor("golang.org/x/crypto/blake2b.New384", "blake2b-384", true)
	hashCtor("golang.org/x/crypto/blake2b.New512", "blake2b-512", true)
	hashCtor("github.com/OneOfOne/xxhash.New64", "xxhash-64", false)
	hashCtor("github.com/OneOfOne/xxhash.New32", "xxhash-32", false)
	for _, x := range []struct {
		n, alg, enc string
		str         bool
	}{{"Checksum64", "xxhash-64", "B64", false}, {"ChecksumString64", "xxhash-64", "B64", true}, {"Checksum32", "xxhash-32", "B32", false}, {"ChecksumString32", "xxhash-32", "B32", true}} {
		reg("github.com/OneOfOne/xxhash."+x.n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			d := args[0]
			if !x.str {
				d = st.slContent(d)
			}
			return bdec(x.enc, digest(x.alg, d))
		})
	}
	for n, alg := range map[string]string{
		"golang.org/x/crypto/sha3.Sum256": "sha3-256", "golang.org/x/crypto/sha3.Sum512": "sha3-512",
		"golang.org/x/crypto/sha3.Sum224": "sha3-224", "golang.org/x/crypto/sha3.Sum384": "sha3-384",
		"crypto/sha256.Sum224": "sha224", "crypto/sha512.Sum384": "sha384", "crypto/sha512.Sum512_256": "sha512-256", "crypto/sha1.Sum": "sha1", "crypto/md5.Sum": "md5",
		"golang.org/x/crypto/blake2s.Sum256": "blake2s-256", "golang.org/x/crypto/blake2b.Sum384": "blake2b-384", "crypto/sha3.Sum256": "sha3-256", "crypto/sha3.Sum512": "sha3-512",
		"crypto/sha256.Sum256": "sha256", "crypto/sha512.Sum512": "sha512",
		"golang.org/x/crypto/blake2b.Sum256": "blake2b-256", "golang.org/x/crypto/blake2b.Sum512": "blake2b-512",
	} {
		alg := alg
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return digest(alg, st.slContent(args[0]))
		})
	}
	// functions that change some byte strings
	for _, n := range []string{"ToLower", "ToUpper", "ToTitle", "Title", "Trim", "TrimLeft", "TrimRight", "TrimSpace", "TrimPrefix", "TrimSuffix", "Replace", "ReplaceAll", "Repeat"} {
		for _, k := range []string{"bytes", "strings"} {
			n, k := n, k
			reg(k+"."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
				var a []*Term
				for _, x := range args {
					if x.k == KSlice {
						x = st.slContent(x)
					}
					a = append(a, x)
				}
				r := app("textfn", KSeq, n, a...)
				if k == "strings" {
					return r
				}
				return ev.newSlice(st, byteT, r)
			})
		}
	}
	// ---- bufio.Writer: what is pending and where it goes
	for _, n := range []string{"bufio.NewWriter", "bufio.NewWriterSize"} {
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			p := app("alloc", KPtr, "b"+ev.fresh(), ev.iters...)
			st.mem.set(intern("bufpend", KPtr, "", []*Term{p}), tEmpty)
			st.mem.set(intern("bufto", KPtr, "", []*Term{p}), args[0])
			return p
		})
	}
	bufOut := func(name string, f func(ev *Ev, st *State, a []*Term) (*Term, *Term)) {
		reg("(*bufio.Writer)."+name, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			p := intern("bufpend", KPtr, "", []*Term{args[0]})
			old, has := st.mem.get(p)
			if !has {
				return nil
			}
			d, r := f(ev, st, args)
			st.mem.set(p, cat(old, d))
			return r
		})
	}
	bufOut("Write", func(ev *Ev, st *State, a []*Term) (*Term, *Term) {
		d := st.slContent(a[1])
		return d, tuple(lenT(d), tNil)
	})
	bufOut("WriteString", func(ev *Ev, st *State, a []*Term) (*Term, *Term) { return a[1], tuple(lenT(a[1]), tNil) })
	bufOut("WriteByte", func(ev *Ev, st *State, a []*Term) (*Term, *Term) { return lit(a[1]), tNil })
	reg("(*bufio.Writer).Flush", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		p, q := intern("bufpend", KPtr, "", []*Term{args[0]}), intern("bufto", KPtr, "", []*Term{args[0]})
		old, has := st.mem.get(p)
		to, has2 := st.mem.get(q)
		if !has || !has2 {
			return nil
		}
		if old == tEmpty {
			return tNil
		}
		st.mem.set(p, tEmpty)
		return ev.writeTo(st, to, old)
	})
	reg("invoke (io.Writer).Write", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		d := st.slContent(args[1])
		err := ev.writeTo(st, args[0], d)
		return tuple(ite(eq(err, tNil), lenT(d), app("unk", KInt, "short write", d)), err)
	})
	reg("invoke (hash.Hash).Sum", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		p := intern("wout", KPtr, "", []*Term{args[0]})
		c, ok := st.mem.get(p)
		if !ok {
			c = tEmpty
		}
		return ev.newSlice(st, byteT, cat(st.slContent(args[1]), app("hsum", KSeq, "", args[0], c)))
	})
	reg("invoke (hash.Hash).Reset", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		p := intern("wout", KPtr, "", []*Term{args[0]})
		st.mem.set(p, app("reset", KSeq, ""))
		return tNil
	})
	reg("invoke (error).Error", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return app("errtext", KSeq, "")
	})
	// ---- bytes.Buffer
	bufW := func(name string, f func(ev *Ev, st *State, a *Term) (*Term, *Term)) {
		for _, T := range []string{"*bytes.Buffer", "*strings.Builder"} {
			reg("("+T+")."+name, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
				c := ld(ev, st, sig, args, 0)
				d, r := f(ev, st, args[1])
				put(ev, st, sig, args, cat(c, d))
				return r
			})
		}
	}
	bufW("Write", func(ev *Ev, st *State, a *Term) (*Term, *Term) {
		d := st.slContent(a)
		return d, tuple(lenT(d), tNil)
	})
	bufW("WriteString", func(ev *Ev, st *State, a *Term) (*Term, *Term) { return a, tuple(lenT(a), tNil) })
	bufW("WriteByte", func(ev *Ev, st *State, a *Term) (*Term, *Term) { return lit(a), tNil })
	reg("(*bytes.Buffer).WriteTo", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		c := ld(ev, st, sig, args, 0)
		err := ev.writeTo(st, args[1], c)
		put(ev, st, sig, args, tEmpty)
		return tuple(ite(eq(err, tNil), lenT(c), app("unk", KInt, "short write", c)), err)
	})
	reg("(*bytes.Buffer).Bytes", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.newSlice(st, byteT, ld(ev, st, sig, args, 0))
	})
	for _, n := range []string{"(*bytes.Buffer).String", "(*strings.Builder).String"} {
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return ld(ev, st, sig, args, 0)
		})
	}
	for _, n := range []string{"(*bytes.Buffer).Len", "(*bytes.Reader).Len", "(*strings.Builder).Len"} {
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return lenT(ld(ev, st, sig, args, 0))
		})
	}
	reg("(*bytes.Buffer).Reset", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		put(ev, st, sig, args, tEmpty)
		return tNil
	})
	reg("(*bytes.Buffer).Grow", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		ev.emit(Event{kind: "make", t: []*Term{args[1], args[1]}, facts: st.facts, s: "Grow"})
		return tNil
	})
	reg("(*bytes.Buffer).Next", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		c := ld(ev, st, sig, args, 0)
		put(ev, st, sig, args, sub(c, args[1], subT(lenT(c), args[1])))
		return ev.newSlice(st, byteT, sub(c, num(0), args[1]))
	})
	for _, T := range []string{"*bytes.Buffer", "*bytes.Reader"} {
		T := T
		reg("("+T+").Read", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			c := ld(ev, st, sig, args, 0)
			l, have := st.simp(slLen(args[1])), lenT(c)
			short := st.simp(lt(have, l))
			n := ite(short, have, l)
			ev.emit(Event{kind: "store", t: []*Term{slBase(args[1]), c}})
			ev.writeSlice(st, args[1], num(0), sub(c, num(0), n))
			put(ev, st, sig, args, sub(c, n, subT(have, n)))
			return tuple(n, okErr(or(lt(num(0), have), eq(l, num(0)))))
		})
	}
	reg("(*bytes.Buffer).ReadFrom", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		c := ld(ev, st, sig, args, 0)
		d, err := ev.readAll(st, args[1])
		put(ev, st, sig, args, cat(c, d))
		return tuple(lenT(d), err)
	})
	for _, n := range []string{"io.ReadAll", "io/ioutil.ReadAll"} {
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			d, err := ev.readAll(st, args[0])
			return tuple(ev.newSlice(st, byteT, d), err)
		})
	}
	reg("bytes.NewBuffer", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.alloc(deref(sig.Results().At(0).Type()), st, st.slContent(args[0]))
	})
	reg("bytes.NewReader", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.alloc(deref(sig.Results().At(0).Type()), st, st.slContent(args[0]))
	})
	reg("bytes.NewBufferString", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ev.alloc(deref(sig.Results().At(0).Type()), st, args[0])
	})
	reg("bytes.Equal", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return eq(st.slContent(args[0]), st.slContent(args[1]))
	})
	reg("bytes.Join", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		c, sep := st.slContent(args[0]), st.slContent(args[1])
		n := lenT(c)
		if !n.isConst() || !n.big().IsInt64() || n.big().Int64() > 256 {
			return nil
		}
		var parts []*Term
		for i := int64(0); i < n.big().Int64(); i++ {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, st.slContent(at(c, num(i), KSlice)))
		}
		return ev.newSlice(st, byteT, cat(parts...))
	})
	for _, pk := range []string{"bytes.", "strings."} {
		content := func(st *State, t *Term) *Term {
			if t.k == KSeq {
				return t
			}
			return st.slContent(t)
		}
		reg(pk+"HasPrefix", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			a, b := content(st, args[0]), content(st, args[1])
			return and(not(lt(lenT(a), lenT(b))), eq(sub(a, num(0), lenT(b)), b))
		})
		reg(pk+"HasSuffix", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			a, b := content(st, args[0]), content(st, args[1])
			return and(not(lt(lenT(a), lenT(b))), eq(sub(a, subT(lenT(a), lenT(b)), lenT(b)), b))
		})
		reg(pk+"Contains", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return patom("contains", content(st, args[0]), content(st, args[1]))
		})
	}
	reg("bytes.Compare", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return cmpSeq(st.slContent(args[0]), st.slContent(args[1]))
	})
	reg("crypto/subtle.ConstantTimeCompare", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return ite(eq(st.slContent(args[0]), st.slContent(args[1])), num(1), num(0))
	})
	// ---- encoding/binary, io
	reg("encoding/binary.Write", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		v := args[2]
		if v.op != "iface" || ifaceType[v.s] == nil {
			return nil
		}
		e := ev.encode(st, orderOf(args[1]), v.a[0], ifaceType[v.s])
		if e == nil {
			return nil
		}
		return ev.writeTo(st, args[0], e)
	})
	reg("encoding/binary.Read", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		v := args[2]
		if v.op != "iface" || ifaceType[v.s] == nil {
			return nil
		}
		return ev.readInto(st, args[0], orderOf(args[1]), v.a[0], ifaceType[v.s])
	})
	// a reader may deliver fewer bytes than asked for
	reg("invoke (io.Reader).Read", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		r := args[0]
		if r.op != "rseq" {
			return nil
		}
		p := intern("rpos", KPtr, "", []*Term{r})
		pos, has := st.mem.get(p)
		if !has {
			pos = num(0)
		}
		l := st.simp(slLen(args[1]))
		left := st.simp(subT(restlen(r), pos))
		some := st.simp(and(lt(num(0), l), lt(num(0), left)))
		k := intern("rshort", KInt, "", []*Term{r, pos, l})
		k.nn = true
		n := ite(some, k, num(0))
		st.assume(or(not(some), and(le(num(1), k), le(k, l), le(k, left))))
		ev.emit(Event{kind: "store", t: []*Term{slBase(args[1]), k}})
		ev.writeSlice(st, args[1], num(0), sub(r.a[0], pos, n))
		st.mem.set(p, add(pos, n))
		return tuple(n, okErr(or(some, eq(l, num(0)))))
	})
	reg("io.ReadFull", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		n := st.simp(slLen(args[1]))
		d, ok, err := ev.readN(st, args[0], n)
		ev.emit(Event{kind: "store", t: []*Term{slBase(args[1]), d}})
		ev.writeSlice(st, args[1], num(0), ite(ok, d, st.slContent(args[1])))
		return tuple(ite(ok, n, app("unk", KInt, "short read", d)), err)
	})
	for _, o := range []struct {
		n string
		b string
	}{{"bigEndian", "B"}, {"littleEndian", "L"}} {
		for _, w := range []int{16, 32, 64} {
			f := o.b + strconv.Itoa(w)
			nb := num(int64(w / 8))
			reg("(encoding/binary."+o.n+").Uint"+strconv.Itoa(w), func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
				return bdec(f, sub(st.slContent(args[1]), num(0), nb))
			})
			reg("(encoding/binary."+o.n+").PutUint"+strconv.Itoa(w), func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
				ev.emit(Event{kind: "store", t: []*Term{slBase(args[1]), args[2]}})
				ev.writeSlice(st, args[1], num(0), benc(f, args[2]))
				return tNil
			})
		}
	}
	// ---- errors and text
	for _, n := range []string{"errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		n := n
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			t := []*Term{args[0]}
			if len(args) > 1 {
				t = append(t, st.slContent(args[1]))
			}
			ev.emit(Event{kind: "errtext", s: n, t: t})
			return tErr
		})
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithStack", "WithMessagef"} {
		n := n
		reg("github.com/pkg/errors."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			t := append([]*Term(nil), args[1:]...)
			ev.emit(Event{kind: "errtext", s: n, t: t})
			return ite(eq(args[0], tNil), tNil, tErr)
		})
	}
	reg("errors.Is", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return eqErr(args[0], args[1])
	})
	reg("fmt.Sprintf", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return app("sprintf", KSeq, "", args[0], st.slContent(args[1]))
	})
	reg("strconv.Itoa", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return app("itoa", KSeq, "", args[0])
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		n := n
		reg(n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			ev.emit(Event{kind: "print", s: n, t: []*Term{st.slContent(args[len(args)-1])}})
			return tuple(num(0), tNil)
		})
	}
	reg("encoding/hex.EncodeToString", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return textEnc("hexenc", st.slContent(args[0]))
	})
	reg("encoding/hex.DecodeString", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		if s, ok := asBytes(args[0]); ok {
			if b, good := unhex(s); good {
				return tuple(ev.newSlice(st, byteT, bytesT(b)), tNil)
			}
		}
		ok := patom("hexok", args[0])
		return tuple(ev.newSlice(st, byteT, textEnc("unhex", args[0])), okErr(ok))
	})
	E := "(*encoding/base64.Encoding)."
	reg(E+"EncodedLen", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		t := app("enclen", KInt, "", args[0], args[1])
		t.nn = true
		return t
	})
	reg(E+"DecodedLen", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		t := app("declen", KInt, "", args[0], args[1])
		t.nn = true
		return t
	})
	reg(E+"Encode", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		c := app("b64", KSeq, "", args[0], st.slContent(args[2]))
		ev.emit(Event{kind: "store", t: []*Term{slBase(args[1]), c}})
		ev.writeSlice(st, args[1], num(0), c)
		return tNil
	})
	reg(E+"EncodeToString", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return app("b64", KSeq, "", args[0], st.slContent(args[1]))
	})
	dec := func(enc, src *Term) (*Term, *Term) {
		if src.op == "b64" && src.a[0] == enc {
			return src.a[1], tTrue
		}
		return app("unb64", KSeq, "", enc, src), patom("b64ok", enc, src)
	}
	reg(E+"Decode", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		d, ok := dec(args[0], st.slContent(args[2]))
		b := slBase(args[1])
		ev.emit(Event{kind: "store", t: []*Term{b, d}})
		old := st.slContent(args[1])
		// what is decoded fits
		st.assume(not(lt(app("declen", KInt, "", args[0], lenT(st.slContent(args[2]))), lenT(d))))
		rest := app("sub", KSeq, "", old, lenT(d), subT(lenT(old), lenT(d)))
		if lenT(old) == lenT(d) {
			rest = tEmpty
		}
		if b.op != "nil" {
			st.setContent(b, cat(d, rest))
		}
		return tuple(lenT(d), okErr(ok))
	})
	reg(E+"DecodeString", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		d, ok := dec(args[0], args[1])
		return tuple(ev.newSlice(st, byteT, d), okErr(ok))
	})
	// ---- bits
	reg("math/bits.LeadingZeros32", func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
		return foldInt("lz32", args)
	})
	for _, n := range []string{"TrailingZeros", "TrailingZeros32", "TrailingZeros64"} {
		reg("math/bits."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return foldInt("tz", args)
		})
	}
	for _, n := range []string{"Len", "Len32", "Len64"} {
		reg("math/bits."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			return foldInt("bitlen", args)
		})
	}
	for _, n := range []string{"OnesCount", "OnesCount32", "OnesCount64"} {
		reg("math/bits."+n, func(ev *Ev, st *State, sig *types.Signature, args []*Term) *Term {
			if args[0].isConst() {
				x := args[0].big()
				c := 0
				for i := 0; i < x.BitLen(); i++ {
					c += int(x.Bit(i))
				}
				return num(int64(c))
			}
			return app("popcount", KInt, "", args[0])
		})
	}
}

func unhex(s string) (string, bool) {
	if len(s)%2 != 0 {
		return "", false
	}
	x, ok := new(big.Int).SetString("1"+s, 16)
	if !ok {
		return "", false
	}
	b := x.Bytes()
	return string(b[1:]), true
}

func (ev *Ev) readAll(st *State, r *Term) (data, err *Term) {
	if r.op == "iface" && (r.s == "*bytes.Buffer" || r.s == "*bytes.Reader") {
		p := r.a[0]
		c := st.load(p, ptrElem[p])
		st.store(p, tEmpty, ptrElem[p])
		return c, tNil
	}
	p := intern("rpos", KPtr, "", []*Term{r})
	pos, has := st.mem.get(p)
	if !has {
		pos = num(0)
	}
	n := subT(restlen(r), pos)
	st.mem.set(p, restlen(r))
	ev.emit(Event{kind: "readall", t: []*Term{r}})
	if r.op == "rseq" {
		return rdT(r, pos, n), tNil
	}
	return rdT(r, pos, n), okErr(not(patom("rerr", r, pos)))
}
