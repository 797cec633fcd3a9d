package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C14", "range proof verification is the Bulletproof equation with recomputed challenges", 60, rangeVerify)
}

// rangeInput is a range proof of m commitments with the given rounds.
type rangeInput struct {
	in                   *input
	p                    *Term
	T                    types.Type
	V, L, R              []*Term
	A, S, T1, T2         *Term
	taux, mu, t, a, b    *Term
	rounds, rroun, nvals int
}

// rangeScalars names the unexported scalars of a proof by what Prove puts in
// them; see scalarRoles.
func mkRange(c *Ctx, m, l, r int) *rangeInput {
	f := c.fn("rangeproof.Verify")
	if f == nil {
		return nil
	}
	in := c.input(lensBy(map[string]int{"p.V": m, "p.IPProof.L": l, "p.IPProof.R": r})).concrete(3000)
	ri := &rangeInput{in: in, T: param(f, 0), nvals: m, rounds: l, rroun: r}
	ri.p = in.sh.mk(ri.T, "p")
	vs, _ := elemsOf(in.st.slContent(field(ri.p, ri.T, "V")), KStruct)
	for _, v := range vs {
		i := roleIndex(elemOf(fieldType(ri.T, "V")), "Value")
		ri.V = append(ri.V, fldK(v, i, elemOf(fieldType(ri.T, "V"))))
	}
	ri.A, ri.S, ri.T1, ri.T2 = field(ri.p, ri.T, "A"), field(ri.p, ri.T, "S"), field(ri.p, ri.T, "T1"), field(ri.p, ri.T, "T2")
	ip, IT := in.getT(ri.p, ri.T, "IPProof", "*")
	ri.a, ri.b = field(ip, IT, "A"), field(ip, IT, "B")
	x, y, z := proofScalars(ri.T)
	if x < 0 {
		c.undecided("proof", f, "the proof has other scalars")
		return nil
	}
	ri.taux, ri.mu, ri.t = fldK(ri.p, x, ri.T), fldK(ri.p, y, ri.T), fldK(ri.p, z, ri.T)
	ri.L, _ = elemsOf(in.st.slContent(field(ip, IT, "L")), KPt)
	ri.R, _ = elemsOf(in.st.slContent(field(ip, IT, "R")), KPt)
	return ri
}

func fieldType(T types.Type, role string) types.Type {
	return T.Underlying().(*types.Struct).Field(roleIndex(T, role)).Type()
}

func rangeVerify(c *Ctx) {
	f := c.fn("rangeproof.Verify")
	if f == nil {
		return
	}
	ms := []int{1, 2, 4, 8, 16}
	rangeShapes(c, f)
	for _, m := range ms {
		lg := 6
		for k := m; k > 1; k /= 2 {
			lg++
		}
		ri := mkRange(c, m, lg, lg)
		name := fmt.Sprintf("proof of %d values", m)
		in := ri.in
		sp := in.fork()
		r := in.call(f, ri.p)
		c.noPanic(name, f, in)
		var cs []*Term
		for _, e := range in.ev.log {
			if e.kind == "rand" {
				cs = append(cs, e.t[0])
			}
		}
		got := extract(r, 0, KBool)
		e1, e2 := ri.spec(c, sp)
		if e1 == nil {
			continue
		}
		zero := zeroG(KPt)
		want := and(eq(e1, zero), eq(e2, zero))
		if len(cs) == 1 {
			// one random combination of the two equations; which of them is
			// scaled and their signs do not matter
			want = eq(gadd(e1, gscale(e2, cs[0])), zero)
			for _, w := range []*Term{want, eq(gadd(gscale(e1, cs[0]), e2), zero), eq(gadd(e1, gneg(gscale(e2, cs[0]))), zero), eq(gadd(gscale(e1, cs[0]), gneg(e2)), zero)} {
				if w == fix(in.st, got) {
					want = w
				}
			}
		}
		c.same(name, f, in.st.facts, got, want)
		c.same(name+": error exactly on rejection", f, in.st.facts, isNil(extract(r, 1, KIface)), got)
	}
}

// rangeShapes: proofs of other shapes are rejected.
func rangeShapes(c *Ctx, f *ssa.Function) {
	type sh struct{ m, l, r int }
	shapes := []sh{{0, 0, 0}, {0, 6, 6}, {0, 5, 5}, {1, 0, 0}, {1, 5, 5}, {1, 7, 7}, {1, 6, 5}, {1, 5, 6}, {1, 6, 7}, {1, 7, 6}, {1, 6, 0}, {1, 0, 6}, {2, 6, 6}, {2, 7, 6}, {2, 8, 8}, {2, 6, 7},
		{3, 6, 6}, {3, 7, 7}, {3, 8, 8}, {4, 7, 7}, {5, 8, 8}, {6, 8, 8}, {7, 8, 8}, {7, 9, 9}, {9, 9, 9}, {9, 10, 10}, {12, 9, 9}, {15, 10, 10}, {16, 9, 9}, {16, 11, 11}, {17, 10, 10}, {17, 11, 11}, {24, 10, 10}, {32, 11, 11}, {33, 11, 11}, {64, 12, 12}, {1, 31, 31}, {1, 32, 32}, {1, 33, 33}, {1, 64, 64}, {1, 70, 70}}
	for _, s := range shapes {
		ri := mkRange(c, s.m, s.l, s.r)
		if ri == nil {
			return
		}
		name := fmt.Sprintf("proof of %d values with %d and %d rounds", s.m, s.l, s.r)
		r := ri.in.call(f, ri.p)
		c.noPanic(name, f, ri.in)
		c.same(name+": rejected", f, ri.in.st.facts, extract(r, 0, KBool), tFalse)
		c.same(name+": error", f, ri.in.st.facts, isNil(extract(r, 1, KIface)), tFalse)
	}
	// no inner product proof
	for _, m := range []int{0, 1, 2, 3} {
		ri := mkRange(c, m, 6, 6)
		if ri == nil {
			return
		}
		s := ri.T.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			x := fldK(ri.p, i, ri.T)
			if fieldRole(s, i) == "IPProof" {
				x = tNil
			}
			fs = append(fs, x)
		}
		p := mkStruct(fs...)
		structN[p] = s.NumFields()
		name := fmt.Sprintf("proof of %d values without an inner product proof", m)
		r := ri.in.call(f, p)
		c.noPanic(name, f, ri.in)
		c.same(name+": rejected", f, ri.in.st.facts, extract(r, 0, KBool), tFalse)
		c.same(name+": error", f, ri.in.st.facts, isNil(extract(r, 1, KIface)), tFalse)
	}
}

func (ri *rangeInput) spec(c *Ctx, sp *input) (*Term, *Term) {
	spec := c.spec("RangeEq")
	PT := elemOf(spec.Signature.Params().At(0).Type())
	r := sp.call(spec, sp.slice(PT, ri.V...), ri.A, ri.S, ri.T1, ri.T2, ri.taux, ri.mu, ri.t, sp.slice(PT, ri.L...), sp.slice(PT, ri.R...), ri.a, ri.b)
	return extract(r, 0, KPt), extract(r, 1, KPt)
}

var _ *ssa.Function
