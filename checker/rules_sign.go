package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C11", "key images are the secret key times the hash to a point of its public key", 10, keyImages)
	addRule("C12", "the ring of a signature is the decoys given plus the signer, at a uniformly drawn position", 20, ringContents)
	addRule("C28", "honest ring signatures verify, whatever the ring and the signer's position", 20, ringComplete)
}

// outcomes evaluates run for every outcome of the random draws it makes from
// small ranges.
func outcomes(max int, run func(choose func(*Term) *Term)) (n int, complete bool) {
	var script, bound []int
	for {
		k := 0
		complete = true
		run(func(b *Term) *Term {
			if !b.isConst() || !b.big().IsInt64() || b.big().Int64() > 80 || b.big().Int64() < 1 {
				return nil
			}
			if k == len(script) {
				script = append(script, 0)
				bound = append(bound, int(b.big().Int64()))
			}
			k++
			return num(int64(script[k-1]))
		})
		n++
		script, bound = script[:k], bound[:k]
		i := k - 1
		for ; i >= 0; i-- {
			script[i]++
			if script[i] < bound[i] {
				break
			}
			script, bound = script[:i], bound[:i]
		}
		if i < 0 {
			return n, true
		}
		if n >= max {
			return n, false
		}
	}
}

// ringOutcomes evaluates run for every outcome for small rings, and for some
// outcomes for larger ones.
func ringOutcomes(n int, run func(choose func(*Term) *Term)) bool {
	if n <= 4 {
		_, complete := outcomes(400, run)
		return complete
	}
	var ks []int
	for k := 0; k <= n+2; k++ {
		if n <= 20 || k == 0 || k == 1 || k == n/2 || k == n {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		i := 0
		run(func(b *Term) *Term {
			if !b.isConst() || !b.big().IsInt64() || b.big().Int64() > 80 || b.big().Int64() < 1 {
				return nil
			}
			i++
			m := int(b.big().Int64())
			return num(int64((k*(1+i/2) + i*i) % m))
		})
	}
	return false
}

// ringSig is one evaluation of a signer.
type ringSig struct {
	in     *input
	f      *ssa.Function
	name   string
	facts  []*Term
	rows   [][]*Term // the ring
	resp   [][]*Term
	c      *Term
	msg    *Term // message inside the signature, if any
	images []*Term
	ok     *Term // verifies
	err    *Term
	keys   []*Term // secret keys
	m      *Term   // message signed
	decoys [][]*Term
	pos    int // of the signer; -1 unknown
	bound  []*Term
	sig    *Term
}

func (s *ringSig) wantRows() [][]*Term {
	r := append([][]*Term(nil), s.decoys...)
	return append(r, s.signer())
}

func (s *ringSig) signer() []*Term {
	var own []*Term
	for _, k := range s.keys {
		own = append(own, smul(k, ristBase()))
	}
	return own
}

func ristBase() *Term         { return intern("base", KPt, "", nil) }
func smul(x, p *Term) *Term   { return gscale(p, x) }
func hashPoint(b *Term) *Term { return app("hpoint", KPt, "", b) }

// elemsOf lists a sequence of known length.
func elemsOf(c *Term, k Kind) ([]*Term, bool) {
	n := lenT(c)
	if !n.isConst() || !n.big().IsInt64() || n.big().Int64() > 4096 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < n.big().Int64(); i++ {
		r = append(r, at(c, num(i), k))
	}
	return r, true
}

func matchRows(got, want [][]*Term) (perm []int, ok bool) {
	if len(got) != len(want) {
		return nil, false
	}
	used := make([]bool, len(want))
	for _, g := range got {
		hit := -1
		for j, w := range want {
			if used[j] || len(w) != len(g) {
				continue
			}
			same := true
			for k := range w {
				if w[k] != g[k] && eq(w[k], g[k]) != tTrue {
					same = false
				}
			}
			if same {
				hit = j
				break
			}
		}
		if hit < 0 {
			return nil, false
		}
		used[hit] = true
		perm = append(perm, hit)
	}
	return perm, true
}

// signs evaluates every signer on rings with the given numbers of decoys.
func (c *Ctx) signs(each func(s *ringSig), group func(name string, f *ssa.Function, all []*ringSig, complete bool)) {
	sizes := union(132, []int{0, 1, 2, 3, 4, 5, 6, 7}, c.near(130, "ringsig/blsag.Sign", "mlsag.(*DualKey).Prove", "mlsag.(*Proof).AddDecoy", "mlsag.(*Proof).AddDecoys"))
	if c.thorough {
		sizes = union(132, sizes, []int{10, 12, 15, 16})
	}
	// bLSAG
	f := c.fn("ringsig/blsag.Sign")
	d := c.drv("Blsag")
	if f != nil && d != nil {
		RT := f.Signature.Results().At(0).Type()
		for _, n := range sizes {
			var all []*ringSig
			name := fmt.Sprintf("bLSAG with %d decoys", n)
			complete := ringOutcomes(n, func(choose func(*Term) *Term) {
				in := c.input(lensBy(map[string]int{"mixin": n})).concrete(300)
				s := &ringSig{in: in, f: f, name: name, pos: -1}
				in.ev.choose = func(b *Term) *Term { s.bound = append(s.bound, b); return choose(b) }
				a := in.args(d, "m", "mixin", "x")
				in.st.assume(not(eq(a[2], numK(KSc, 0))))
				mix, _ := elemsOf(in.st.slContent(a[1]), KPt)
				for _, p := range mix {
					s.decoys = append(s.decoys, []*Term{p})
				}
				s.keys, s.m = []*Term{a[2]}, elems(a[0])
				r := in.call(d, a...)
				if in.st.dead {
					c.noPanic(name, f, in)
					return
				}
				s.facts = in.st.facts
				sv := extract(r, 0, KStruct)
				s.sig = sv
				s.ok, s.err = extract(r, 1, KBool), tNil
				s.images = []*Term{field(sv, RT, "I")}
				s.c = field(sv, RT, "C")
				ks, ok1 := elemsOf(in.st.slContent(field(sv, RT, "PubKeys")), KPt)
				ss, ok2 := elemsOf(in.st.slContent(field(sv, RT, "S")), KSc)
				if !ok1 || !ok2 {
					c.undecided(name, f, "number of ring members")
					return
				}
				for _, k := range ks {
					s.rows = append(s.rows, []*Term{k})
				}
				for _, k := range ss {
					s.resp = append(s.resp, []*Term{k})
				}
				s.locate()
				all = append(all, s)
				if each != nil {
					each(s)
				}
			})
			if group != nil {
				group(name, f, all, complete)
			}
		}
	}
	// MLSAG with two keys
	f = c.fn("mlsag.(*DualKey).Prove")
	for _, dn := range []string{"Mlsag", "MlsagSub", "MlsagOrder"} {
		sub := dn == "MlsagSub"
		d := c.drv(dn)
		v := c.drv("MlsagOK")
		if f == nil || d == nil || v == nil {
			return
		}
		ST := f.Signature.Results().At(0).Type()
		for _, n := range sizes {
			var all []*ringSig
			name := fmt.Sprintf("MLSAG with %d decoys", n)
			if sub {
				name += " after SubCommToZero"
			} else if dn == "MlsagOrder" {
				name += " in another order"
				if n > 5 {
					continue
				}
			}
			complete := ringOutcomes(n, func(choose func(*Term) *Term) {
				in := c.input(lensBy(map[string]int{"decoys": n, "decoys[*]": 2})).concrete(300)
				s := &ringSig{in: in, f: f, name: name, pos: -1}
				in.ev.choose = func(b *Term) *Term { s.bound = append(s.bound, b); return choose(b) }
				a := in.args(d, "m", "x", "z", "decoys", "p")
				in.st.assume(not(eq(a[1], numK(KSc, 0))))
				in.st.assume(not(eq(a[2], numK(KSc, 0))))
				rows, _ := elemsOf(in.st.slContent(a[3]), KSlice)
				for _, r := range rows {
					k, _ := elemsOf(in.st.slContent(r), KPt)
					if sub {
						k = []*Term{k[0], gadd(k[1], gneg(a[4]))}
					}
					s.decoys = append(s.decoys, k)
				}
				s.keys, s.m = []*Term{a[1], a[2]}, elems(a[0])
				r := in.call(d, a...)
				if in.st.dead {
					c.noPanic(name, f, in)
					return
				}
				s.facts = in.st.facts
				fs := newState()
				fs.facts = s.facts
				s.err = fix(fs, extract(r, 2, KIface))
				if s.err != tNil {
					all = append(all, s)
					if each != nil {
						each(s)
					}
					return
				}
				p := fix(fs, extract(r, 0, KPtr))
				img := extract(r, 1, KPt)
				s.images = []*Term{img}
				if !c.readSig(s, p, ST) {
					return
				}
				s.locate()
				s.ok = in.call(v, p, img)
				all = append(all, s)
				if each != nil {
					each(s)
				}
			})
			if group != nil {
				group(name, f, all, complete)
			}
		}
	}
	if each != nil {
		c.signsAny(each)
	}
}

// readSig reads the components of an MLSAG signature.
func (c *Ctx) readSig(s *ringSig, p *Term, ST types.Type) bool {
	in := s.in
	s.sig = p
	sv := in.get(p, ST, "*")
	SS := deref(ST)
	s.c = field(sv, SS, "Scalar")
	s.msg = in.st.slContent(field(sv, SS, "Msg"))
	pkf := SS.Underlying().(*types.Struct).Field(roleIndex(SS, "PubKeys")).Type()
	pr, ok1 := elemsOf(in.st.slContent(field(sv, SS, "PubKeys")), KStruct)
	rr, ok2 := elemsOf(in.st.slContent(field(sv, SS, "[]Responses")), KSlice)
	for _, x := range pr {
		k, ok := elemsOf(in.st.slContent(field(x, elemOf(pkf), "[]Point")), KPt)
		ok1 = ok1 && ok
		s.rows = append(s.rows, k)
	}
	for _, x := range rr {
		k, ok := elemsOf(in.st.slContent(x), KSc)
		ok2 = ok2 && ok
		s.resp = append(s.resp, k)
	}
	if !ok1 || !ok2 {
		c.undecided(s.name, s.f, "number of ring members")
		return false
	}
	return true
}

// signsAny evaluates the signer for any number of keys, if there is one.
func (c *Ctx) signsAny(each func(s *ringSig)) {
	f := c.p.find("mlsag.(*Proof).prove")
	d := c.drv("MlsagAny")
	v := c.drv("MlsagOKs")
	if f == nil || d == nil || v == nil {
		return
	}
	if f.Signature.Params().Len() != 1 || kindOf(f.Signature.Params().At(0).Type()) != KBool || f.Signature.Results().Len() != 3 || kindOf(f.Signature.Results().At(1).Type()) != KSlice {
		return
	}
	ST := f.Signature.Results().At(0).Type()
	for _, skip := range []bool{false, true} {
		for _, keys := range union(34, []int{1, 2, 3, 4}, c.near(32, "mlsag.(*Proof).prove", "mlsag.(*Proof).AddSecret")) {
			if keys < 1 || skip && keys == 1 {
				continue // no key image at all
			}
			ns := []int{0, 1, 2, 3}
			if keys > 4 {
				ns = []int{1}
			}
			for _, n := range ns {
				name := fmt.Sprintf("MLSAG with %d keys, %d decoys, %v", keys, n, skip)
				ringOutcomes(n, func(choose func(*Term) *Term) {
					in := c.input(lensBy(map[string]int{"keys": keys, "decoys": n, "decoys[*]": keys})).concrete(300)
					s := &ringSig{in: in, f: f, name: name, pos: -1}
					in.ev.choose = choose
					a := in.args(d, "m", "keys", "decoys")
					s.keys, _ = elemsOf(in.st.slContent(a[1]), KSc)
					for _, k := range s.keys {
						in.st.assume(not(eq(k, numK(KSc, 0))))
					}
					rows, _ := elemsOf(in.st.slContent(a[2]), KSlice)
					for _, r := range rows {
						k, _ := elemsOf(in.st.slContent(r), KPt)
						s.decoys = append(s.decoys, k)
					}
					s.m = elems(a[0])
					pr := in.call(d, a...)
					r := in.call(f, pr, boolT(skip))
					if in.st.dead {
						c.noPanic(name, f, in)
						return
					}
					s.facts = in.st.facts
					fs := newState()
					fs.facts = s.facts
					s.err = fix(fs, extract(r, 2, KIface))
					if s.err != tNil {
						each(s)
						return
					}
					im := fix(fs, extract(r, 1, KSlice))
					var ok bool
					s.images, ok = elemsOf(in.st.slContent(im), KPt)
					want := keys
					if skip {
						want--
					}
					if !ok || len(s.images) != want {
						c.failed(name+": number of key images", f, 0, "result of "+shortFn(f), fmt.Sprint(len(s.images), " images"))
						return
					}
					p := fix(fs, extract(r, 0, KPtr))
					if !c.readSig(s, p, ST) {
						return
					}
					s.locate()
					s.ok = in.call(v, p, im)
					each(s)
				})
			}
		}
	}
}

// locate finds the signer in the ring.
func (s *ringSig) locate() {
	own := s.signer()
	for i, r := range s.rows {
		if len(r) == len(own) {
			same := true
			for k := range r {
				if eq(r[k], own[k]) != tTrue {
					same = false
				}
			}
			if same {
				s.pos = i
			}
		}
	}
}

func ringComplete(c *Ctx) {
	ringRefusals(c)
	c.signs(func(s *ringSig) {
		n := fmt.Sprintf("%s, signer at %d", s.name, s.pos)
		if s.err != tNil {
			c.same(n+": signs", s.f, s.facts, isNil(s.err), tTrue)
			return
		}
		c.same(n+": verifies", s.f, s.facts, s.ok, tTrue)
		c.noPanic(n, s.f, s.in)
	}, nil)
}

func ringContents(c *Ctx) {
	c.signs(func(s *ringSig) {
		if s.err != tNil {
			c.same(s.name+": signs", s.f, s.facts, isNil(s.err), tTrue)
			return
		}
		n := fmt.Sprintf("%s, signer at %d", s.name, s.pos)
		if _, ok := matchRows(s.rows, s.wantRows()); ok {
			c.proved(n+": the ring is the decoys and the signer, each once", s.f)
		} else if why := uninterpreted(flatten(s.rows)...); why != "" {
			c.undecided(n+": ring", s.f, why)
		} else {
			c.failed(s.name+": the ring is the decoys and the signer, each once", s.f, 0, "ring of the signature", "ring: "+clip(fmt.Sprint(s.rows)), "required, in any order: "+clip(fmt.Sprint(s.wantRows())))
		}
		if s.msg != nil {
			c.same(n+": carries the message", s.f, s.facts, s.msg, s.m)
		}
	}, func(name string, f *ssa.Function, all []*ringSig, complete bool) {
		if len(all) == 0 {
			return
		}
		n := len(all[0].decoys) + 1
		cnt := map[int]*big.Rat{}
		for i := 0; i < n; i++ {
			cnt[i] = new(big.Rat)
		}
		for _, s := range all {
			if s.pos < 0 || s.pos >= n {
				return // reported above
			}
			w := big.NewRat(1, 1)
			for _, b := range s.bound {
				if b.isConst() && b.big().IsInt64() && b.big().Int64() > 0 {
					w.Mul(w, big.NewRat(1, b.big().Int64()))
				}
			}
			cnt[s.pos].Add(cnt[s.pos], w)
		}
		if !complete {
			if len(all[0].decoys) <= 4 {
				c.undecided(name+": position", f, "too many outcomes")
			}
			return
		}
		for _, s := range all {
			for _, b := range s.bound {
				if !b.isConst() || b.big().Int64() > 64 {
					c.undecided(name+": position", f, "draw from "+clip(showT(b, 5)))
					return
				}
			}
		}
		for i := 0; i < n; i++ {
			if cnt[i].Cmp(big.NewRat(1, int64(n))) != 0 {
				c.failed(name+": every position is equally likely", f, 0, fmt.Sprintf("position %d of %d with probability %s", i, n, cnt[i]))
				return
			}
		}
		c.proved(name+": every position is equally likely", f)
	})
}

func flatten(r [][]*Term) []*Term {
	var o []*Term
	for _, x := range r {
		o = append(o, x...)
	}
	return o
}

func keyImages(c *Ctx) {
	if f := c.fn("mlsag.CalculateKeyImage"); f != nil {
		in := c.input(nil).concrete(300)
		a := in.args(f, "x", "P")
		r := in.call(f, a...)
		c.noPanic("CalculateKeyImage", f, in)
		c.same("CalculateKeyImage", f, in.st.facts, r, smul(a[0], hashPoint(pbytes(a[1]))))
	}
	c.signs(func(s *ringSig) {
		if s.err != tNil {
			return
		}
		for i, im := range s.images {
			P := smul(s.keys[i], ristBase())
			c.same(fmt.Sprintf("%s, signer at %d: key image", s.name, s.pos), s.f, s.facts, im, smul(s.keys[i], hashPoint(pbytes(P))))
		}
	}, nil)
}

// ringRefusals: keys that are zero and decoys of another width are refused.
func ringRefusals(c *Ctx) {
	f := c.fn("mlsag.(*DualKey).Prove")
	d := c.drv("Mlsag")
	k := c.drv("MlsagKeys")
	if f == nil || d == nil || k == nil {
		return
	}
	for n := 0; n <= 2; n++ {
		for w := 0; w <= 3; w++ {
			if n == 0 && w != 2 {
				continue
			}
			in := c.input(lensBy(map[string]int{"decoys": n, "decoys[*]": w})).concrete(300)
			in.ev.choose = func(b *Term) *Term { return num(0) }
			a := in.args(d, "m", "x", "z", "decoys")
			z := numK(KSc, 0)
			r := in.call(d, a...)
			name := fmt.Sprintf("MLSAG with %d decoys of %d keys", n, w)
			c.noPanic(name, f, in)
			want := tFalse
			if w == 2 {
				want = and(not(eq(a[1], z)), not(eq(a[2], z)))
			}
			c.same(name+": signs exactly with keys that are not zero and decoys of two keys", f, in.st.facts, isNil(extract(r, 2, KIface)), want)
		}
	}
	in := c.input(nil)
	a := in.args(k, "x", "z")
	r := in.call(k, a...)
	for i, n := range []string{"SetPrimaryKey", "SetCommToZero"} {
		c.same(n+" returns the public key", c.fn("mlsag.(*DualKey)."+n), in.st.facts, extract(r, i, KPt), smul(a[i], ristBase()))
	}
}
