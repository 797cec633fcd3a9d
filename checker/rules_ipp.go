package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C29", "inner product proofs are the folding argument's messages and verify exactly by its equation", 60, ippRule)
}

func ippRule(c *Ctx) {
	gen := c.fn("rangeproof/innerproduct.Generate")
	ver := c.fn("rangeproof/innerproduct.(*Proof).Verify")
	vs := c.fn("rangeproof/innerproduct.(*Proof).VerifScalars")
	pad := c.fn("rangeproof/innerproduct.DiffNextPow2")
	if gen == nil || ver == nil || vs == nil || pad == nil {
		return
	}
	ks := []int{1, 2, 4, 8, 16}
	if c.thorough {
		ks = append(ks, 32, 64)
	}
	for _, k := range ks {
		in, q := c.ippGenerate(gen, k)
		if q == nil {
			continue
		}
		name := fmt.Sprintf("Generate for %d elements", k)
		c.noPanic(name, gen, in)
		c.same(name+": succeeds", gen, in.st.facts, q.ok, tTrue)
		f := c.spec("IppProve")
		sp := c.input(lensBy(map[string]int{"G": k, "H": k, "a": k, "b": k, "hf": k})).concrete(400)
		a := sp.args(gen, "G", "H", "a", "b", "hf", "Q")
		P := sp.call(c.spec("IppP"), a...)
		r := sp.call(f, a...)
		L, _ := elemsOf(sp.st.slContent(extract(r, 0, KSlice)), KPt)
		R, _ := elemsOf(sp.st.slContent(extract(r, 1, KSlice)), KPt)
		c.same(name+": rounds", gen, q.facts, num(int64(len(q.L))), num(int64(len(L))))
		c.same(name+": rounds", gen, q.facts, num(int64(len(q.R))), num(int64(len(R))))
		for i := 0; i < len(L) && i < len(q.L) && i < len(q.R); i++ {
			c.same(fmt.Sprintf("%s: L[%d]", name, i), gen, q.facts, q.L[i], L[i])
			c.same(fmt.Sprintf("%s: R[%d]", name, i), gen, q.facts, q.R[i], R[i])
		}
		c.same(name+": a", gen, q.facts, q.a, extract(r, 2, KSc))
		c.same(name+": b", gen, q.facts, q.b, extract(r, 3, KSc))
		// an honest proof verifies
		if k > 16 {
			continue
		}
		in2 := in.fork()
		for _, x := range q.facts {
			in2.st.assume(x)
		}
		for _, n := range []int{0, 1, k} {
			in3 := in2.fork()
			g := in3.call(ver, c.ippVerArgs(in3, ver, q.p, q.args[0], q.args[1], q.args[4], q.args[5], P, n)...)
			c.same(fmt.Sprintf("%s: verifies (n %d)", name, n), ver, in3.st.facts, g, tTrue)
		}
	}
	// vectors of different lengths and lengths that are no powers of two are rejected
	type sh [5]int
	shapes := []sh{{0, 0, 0, 0, 0}, {3, 3, 3, 3, 3}, {5, 5, 5, 5, 5}, {6, 6, 6, 6, 6}, {7, 7, 7, 7, 7}, {9, 9, 9, 9, 9}, {10, 10, 10, 10, 10}, {12, 12, 12, 12, 12}, {24, 24, 24, 24, 24}}
	for _, k := range []int{1, 2, 4} {
		for i := 0; i < 5; i++ {
			for _, o := range []int{0, 1, k / 2, k - 1, k + 1, 2 * k} {
				if o == k {
					continue
				}
				s := sh{k, k, k, k, k}
				s[i] = o
				shapes = append(shapes, s)
			}
		}
	}
	for _, s := range shapes {
		in := c.input(lensBy(map[string]int{"G": s[0], "H": s[1], "a": s[2], "b": s[3], "hf": s[4]})).concrete(400)
		a := in.args(gen, "G", "H", "a", "b", "hf", "Q")
		r := in.call(gen, a...)
		name := fmt.Sprintf("Generate for vectors of lengths %v", s)
		c.noPanic(name, gen, in)
		c.same(name+": error", gen, in.st.facts, isNil(extract(r, 1, KIface)), tFalse)
	}
	// verification is the equation
	f := c.spec("IppEq")
	for _, k := range []int{0, 1, 2, 3} {
		N := 1 << uint(k)
		in := c.input(lensBy(map[string]int{"p.L": k, "p.R": k, "G": N, "H": N, "hf": N, "L": 0, "R": 0})).concrete(400)
		a := in.args(ver, "p", "G", "H", "L", "R", "hf", "Q", "P", "n")
		if len(a) != 9 {
			c.undecided("Verify", ver, "other parameters")
			break
		}
		a[8] = num(int64(1))
		v, T := in.getT(a[0], param(ver, 0), "*")
		sp := in.fork()
		e := sp.call(f, a[1], a[2], a[5], a[6], a[7], field(v, T, "L"), field(v, T, "R"), field(v, T, "A"), field(v, T, "B"))
		name := fmt.Sprintf("Verify with %d rounds", k)
		r := in.call(ver, a...)
		c.noPanic(name, ver, in)
		c.same(name+": accepts exactly when the equation holds", ver, in.st.facts, r, eq(e, zeroG(KPt)))
	}
	for _, s := range [][5]int{{1, 0, 2, 2, 2}, {0, 1, 2, 2, 2}, {1, 1, 1, 2, 2}, {1, 1, 2, 1, 2}, {1, 1, 2, 2, 1}, {1, 1, 3, 2, 2}, {1, 1, 2, 3, 2}, {1, 1, 2, 2, 3}, {2, 2, 2, 2, 2}, {2, 1, 4, 4, 4}, {1, 2, 2, 2, 2}, {1, 2, 4, 4, 4}, {0, 0, 0, 0, 0}, {0, 0, 2, 2, 2}, {2, 2, 4, 4, 0}, {2, 2, 4, 0, 4}, {2, 2, 0, 4, 4}, {3, 3, 4, 4, 4}, {31, 31, 1, 1, 1}, {32, 32, 1, 1, 1}} {
		in := c.input(lensBy(map[string]int{"p.L": s[0], "p.R": s[1], "G": s[2], "H": s[3], "hf": s[4], "L": 0, "R": 0})).concrete(400)
		a := in.args(ver, "p", "G", "H", "L", "R", "hf", "Q", "P", "n")
		a[8] = num(int64(s[2]))
		r := in.call(ver, a...)
		name := fmt.Sprintf("Verify with rounds and lengths %v", s)
		c.noPanic(name, ver, in)
		c.same(name+": rejects", ver, in.st.facts, r, tFalse)
	}
	// the scalars of verification
	ms := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	if c.thorough {
		ms = append(ms, 11)
	}
	for _, k := range ms {
		in := c.input(lensBy(map[string]int{"p.L": k, "p.R": k})).concrete(800 + 1<<uint(k))
		a := in.args(vs, "p")
		v, T := in.getT(a[0], param(vs, 0), "*")
		sp := in.fork()
		w := sp.call(c.spec("IppScalars"), field(v, T, "L"), field(v, T, "R"))
		r := in.call(vs, a...)
		name := fmt.Sprintf("VerifScalars of %d rounds", k)
		c.noPanic(name, vs, in)
		for i, n := range []string{"squares of the challenges", "squares of the inverses", "s"} {
			c.same(name+": "+n, vs, in.st.facts, in.st.slContent(extract(r, i, KSlice)), sp.st.slContent(extract(w, i, KSlice)))
		}
	}
	var ns []int
	for n := 1; n <= 600; n++ {
		ns = append(ns, n)
	}
	for k := 9; k <= 31; k++ {
		for j := 0; j < k; j++ {
			ns = append(ns, 1<<k-1<<j, 1<<k+1<<j, 1<<k+1<<j+1)
		}
		ns = append(ns, 1<<k, 1<<k/3)
	}
	done := map[int]bool{}
	for _, n := range ns {
		if n > 1<<31 || done[n] {
			continue
		}
		done[n] = true
		in := c.input(nil).concrete(400)
		r := in.call(pad, num(int64(n)))
		c.same(fmt.Sprintf("DiffNextPow2(%d)", n), pad, in.st.facts, r, num(int64(pow2above(n)-n)))
	}
}

// ippVerArgs are the arguments of a verification.
func (c *Ctx) ippVerArgs(in *input, ver *ssa.Function, p, G, H, hf, Q, P *Term, n int) []*Term {
	e := in.slice(elemOf(param(ver, 1)))
	return []*Term{p, G, H, e, e, hf, Q, P, num(int64(n))}
}
