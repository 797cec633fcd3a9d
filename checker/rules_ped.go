package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C16", "Pedersen commitments open to exactly the committed values; generators are hash chains", 30, pedersenRule)
}

// isRand tells whether a scalar is one fresh draw.
func isRand(t *Term) bool { return t.op == "rand" }

func (c *Ctx) randScalar(name string, f *ssa.Function, facts []*Term, t *Term) bool {
	s := newState()
	s.facts = facts
	t = fix(s, t)
	if isRand(t) {
		c.proved(name, f)
		return true
	}
	if why := uninterpreted(t); why != "" {
		c.undecided(name, f, why)
		return false
	}
	c.failed(name, f, 0, "scalar "+clip(showT(t, 8)), "is not one fresh draw of the cryptographic generator")
	return false
}

func pedersenRule(c *Ctx) {
	cs := c.fn("rangeproof/pedersen.(*Pedersen).CommitToScalar")
	cv := c.fn("rangeproof/pedersen.(*Pedersen).CommitToVectors")
	gc := c.fn("rangeproof/generators.(*Generator).Compute")
	gi := c.fn("rangeproof/generators.(*Generator).Iterate")
	gl := c.fn("rangeproof/generators.(*Generator).Clear")
	if cs == nil || cv == nil || gc == nil || gi == nil || gl == nil {
		return
	}
	d := c.drv("PedScalar")
	if d == nil {
		return
	}
	run := func(fn string, lens map[string]int, ints ...int) (*input, *input, []*Term, *Term) {
		f := c.drv(fn)
		in := c.input(lensBy(lens)).concrete(2200)
		var a []*Term
		k := 0
		for _, p := range f.Params {
			if kindOf(p.Type()) == KInt {
				a = append(a, num(int64(ints[k])))
				k++
			} else {
				a = append(a, in.sh.mk(p.Type(), p.Name()))
			}
		}
		sp := in.fork()
		return in, sp, a, in.call(f, a...)
	}
	{
		in, sp, a, r := run("PedScalar", nil)
		v, b := extract(r, 0, KPt), extract(r, 1, KSc)
		c.noPanic("CommitToScalar", cs, in)
		c.randScalar("CommitToScalar: fresh blinding factor", cs, in.st.facts, b)
		c.same("CommitToScalar: value times the value base plus blinding factor times the blinding base", cs, in.st.facts, v, sp.call(c.spec("PedScalar"), a[1], b))
	}
	for n := 0; n < 3; n++ {
		in, sp, a, r := run("PedScalars", map[string]int{"w": n})
		v, b, v2, b2 := extract(r, 0, KPt), extract(r, 1, KSc), extract(r, 2, KPt), extract(r, 3, KSc)
		c.same(fmt.Sprintf("CommitToScalar before other uses (%d)", n), cs, in.st.facts, v, sp.call(c.spec("PedScalar"), a[1], b))
		c.same(fmt.Sprintf("CommitToScalar after other uses (%d)", n), cs, in.st.facts, v2, sp.call(c.spec("PedScalar"), a[1], b2))
		c.randScalar("CommitToScalar: fresh blinding factor", cs, in.st.facts, b2)
		c.same("CommitToScalar: blinding factors differ", cs, in.st.facts, boolT(b == b2), tFalse)
	}
	near := c.near(40, "rangeproof/pedersen.(*Pedersen).CommitToVectors", "rangeproof/pedersen.(*Pedersen).CommitToScalar")
	type vs struct {
		pre int
		n   []int
	}
	var shapes []vs
	for _, n := range union(40, []int{0, 1, 2, 3, 4}, near) {
		shapes = append(shapes, vs{0, []int{n}}, vs{n, []int{n}}, vs{n, []int{n, n}}, vs{1, []int{n}}, vs{2, []int{n, n + 1}}, vs{n + 2, []int{n, 1}}, vs{0, []int{2, n}})
	}
	for _, k := range union(260, []int{3, 4, 5, 6, 7, 8, 9}, c.near(260, "rangeproof/pedersen.(*Pedersen).CommitToVectors")) {
		if k > 256 {
			continue // the index of a vector is a byte
		}
		var l []int
		for i := 0; i < k; i++ {
			l = append(l, 1+i%2)
		}
		if k > 0 {
			shapes = append(shapes, vs{0, l}, vs{2, l})
		}
	}
	shapes = append(shapes, vs{0, []int{1, 0, 2}}, vs{0, []int{0, 2, 1}})
	for _, s := range shapes {
		l := map[string]int{"vecs": len(s.n)}
		for i, n := range s.n {
			l[fmt.Sprintf("vecs[%d]", i)] = n
		}
		name := fmt.Sprintf("CommitToVectors of lengths %v, %d generators computed before", s.n, s.pre)
		in, sp, a, r := run("PedVectors", l, s.pre)
		c.noPanic(name, cv, in)
		v, b := extract(r, 0, KPt), extract(r, 1, KSc)
		c.randScalar(name+": fresh blinding factor", cv, in.st.facts, b)
		c.same(name, cv, in.st.facts, v, sp.call(c.spec("PedVectors"), a[0], b, a[2]))
	}
	for _, n := range []int{0, 1, 2, 3} {
		l := map[string]int{"w": n, "vecs": 2, "vecs[0]": 2, "vecs[1]": 1}
		name := fmt.Sprintf("CommitToVectors after a vector of length %d", n)
		in, sp, a, r := run("PedAgain", l)
		c.noPanic(name, cv, in)
		c.same(name, cv, in.st.facts, extract(r, 0, KPt), sp.call(c.spec("PedVectors"), a[0], extract(r, 1, KSc), a[2]))
	}
	PT := types.NewSlice(elemOf(c.spec("Gens").Signature.Results().At(0).Type()))
	gnear := c.near(2100, "rangeproof/generators.(*Generator).Compute", "rangeproof/generators.(*Generator).Iterate")
	for _, n := range union(2100, []int{0, 1, 2, 3, 5, 33, 64, 65, 128, 256, 1024}, gnear) {
		for _, x := range []struct {
			d    string
			i    []int
			want int
			f    *ssa.Function
		}{{"Gens", []int{n, 0}, n, gc}, {"Gens", []int{0, n}, n, gc}, {"Gens", []int{n, 2}, n + 2, gc}, {"GensIter", []int{n}, n, gi}, {"GensClear", []int{2, n}, n, gl}} {
			in, sp, a, r := run(x.d, nil, x.i...)
			name := fmt.Sprintf("generators %s%v", x.d, x.i)
			c.noPanic(name, x.f, in)
			w := sp.call(c.spec("Gens"), a[0], num(int64(x.want)))
			c.same(name, x.f, in.st.facts, in.ev.deep(in.st, r, PT), sp.ev.deep(sp.st, w, PT))
		}
	}
	c.commitmentEquals()
}

func (c *Ctx) commitmentEquals() {
	eqf := c.fn("rangeproof/pedersen.(*Commitment).Equals")
	ev := c.fn("rangeproof/pedersen.(*Commitment).EqualValue")
	if eqf == nil || ev == nil {
		return
	}
	in := c.input(nil).concrete(10)
	a := in.args(eqf, "a", "b")
	CT := param(eqf, 1)
	x := in.get(a[0], param(eqf, 0), "*")
	sameV := eq(field(x, CT, "Value"), field(a[1], CT, "Value"))
	sameB := eq(field(x, CT, "BlindingFactor"), field(a[1], CT, "BlindingFactor"))
	r := in.call(eqf, a...)
	c.same("Commitment.Equals compares value and blinding factor", eqf, in.st.facts, r, and(sameV, sameB))
	in = c.input(nil).concrete(10)
	a = in.args(ev, "a", "b")
	c.same("Commitment.EqualValue compares values", ev, in.st.facts, in.call(ev, a...), sameV)
}
