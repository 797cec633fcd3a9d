package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C15", "honest range proofs are the Bulletproof prover's messages, for exactly the values in range, and verify", 30, rangeProve)
	addRule("C13", "Fiat-Shamir challenges are the hashes of everything sent before them", 20, transcriptRule)
}

// gcoef is the coefficient of a point in a linear combination.
func gcoef(t, base *Term) *Term {
	for _, l := range toLin(t) {
		if l.p == base {
			return l.c
		}
	}
	return numK(t.k.coefKind(), 0)
}

// provenRange is one evaluation of the range prover.
type provenRange struct {
	c        *Ctx
	f        *ssa.Function
	name     string
	in       *input
	r        *Term
	facts    []*Term
	p        *Term
	T        types.Type
	v        []*Term // with padding
	given    []*Term
	V, gamma []*Term
	A, S     *Term
	T1, T2   *Term
	taux     *Term
	mu, t    *Term
	L, R     []*Term
	a, b     *Term
	alpha    *Term
	rho      *Term
	tau1     *Term
	tau2     *Term
	sL, sR   []*Term
	ipp      [][][]*Term // arguments of the recorded calls of Generate
}

func pow2above(n int) int {
	m := 1
	for m < n {
		m *= 2
	}
	return m
}

// prove evaluates Prove for n symbolic values; nil if the result cannot be read.
func (c *Ctx) prove(n int, debug bool) *provenRange { return c.proveWith(n, debug, false) }

// proveWith: with abstract, calls of innerproduct.Generate are only recorded.
func (c *Ctx) proveWith(n int, debug, abstract bool) *provenRange {
	return c.proveHook(n, debug, abstract, nil)
}

// proveHook calls pre before the evaluation.
func (c *Ctx) proveHook(n int, debug, abstract bool, pre func(in *input, a []*Term)) *provenRange {
	f := c.fn("rangeproof.Prove")
	if f == nil {
		return nil
	}
	q := &provenRange{c: c, f: f, name: fmt.Sprintf("Prove of %d values", n)}
	if debug {
		q.name += ", debug"
	}
	in := c.input(lensBy(map[string]int{"v": n})).concrete(4000)
	q.in = in
	a := in.args(f, "v", "debug")
	a[1] = boolT(debug)
	q.given, _ = elemsOf(in.st.slContent(a[0]), KSc)
	m := pow2above(n)
	q.v = append(q.v, q.given...)
	for len(q.v) < m {
		q.v = append(q.v, numK(KSc, 0))
	}
	if abstract {
		q.name += ", inner product abstract"
		g := c.fn("rangeproof/innerproduct.Generate")
		if g == nil {
			return nil
		}
		in.ev.hook = map[*ssa.Function]func(*State, []*Term) *Term{g: func(st *State, a []*Term) *Term {
			if len(a) != 6 {
				return nil
			}
			var k [][]*Term
			for _, x := range a[:5] {
				kk := KSc
				if len(k) < 2 {
					kk = KPt
				}
				e, ok := elemsOf(st.slContent(x), kk)
				if !ok {
					return nil
				}
				k = append(k, e)
			}
			q.ipp = append(q.ipp, append(k, []*Term{a[5]}))
			P := g.Signature.Results().At(0).Type()
			o := in.sh.mk(P, fmt.Sprintf("ipp%d", len(q.ipp)))
			return intern("tuple", KTuple, "", []*Term{o, tNil})
		}}
	}
	if b := c.bitFn(); b != nil && pre == nil {
		if in.ev.hook == nil {
			in.ev.hook = map[*ssa.Function]func(*State, []*Term) *Term{}
		}
		in.ev.hook[b] = bitHook(in, b)
	}
	if pre != nil {
		pre(in, a)
	}
	q.r = in.call(f, a...)
	st := newState()
	for _, x := range in.st.facts {
		st.assume(x)
	}
	st.assume(isNil(extract(q.r, 1, KIface)))
	q.facts = st.facts
	q.T = f.Signature.Results().At(0).Type()
	q.p = fix(st, extract(q.r, 0, KStruct))
	if q.p.op == "ite" {
		c.undecided(q.name, f, "the proof depends on unresolved conditions")
		return nil
	}
	vs, ok := elemsOf(in.st.slContent(field(q.p, q.T, "V")), KStruct)
	if !ok || len(vs) != m {
		c.failed(q.name+": one commitment for every value and the padding", f, 0, "proof returned", fmt.Sprint("commitments: ", lenT(in.st.slContent(field(q.p, q.T, "V")))))
		return nil
	}
	CT := elemOf(fieldType(q.T, "V"))
	for _, x := range vs {
		q.V = append(q.V, fldK(x, roleIndex(CT, "Value"), CT))
		q.gamma = append(q.gamma, fldK(x, roleIndex(CT, "BlindingFactor"), CT))
	}
	q.A, q.S, q.T1, q.T2 = field(q.p, q.T, "A"), field(q.p, q.T, "S"), field(q.p, q.T, "T1"), field(q.p, q.T, "T2")
	x, y, z := proofScalars(q.T)
	if x < 0 {
		c.undecided(q.name, f, "the proof has other scalars")
		return nil
	}
	q.taux, q.mu, q.t = fldK(q.p, x, q.T), fldK(q.p, y, q.T), fldK(q.p, z, q.T)
	ip, IT := in.getT(q.p, q.T, "IPProof", "*")
	ip = fix(st, ip)
	q.a, q.b = field(ip, IT, "A"), field(ip, IT, "B")
	q.L, _ = elemsOf(in.st.slContent(field(ip, IT, "L")), KPt)
	q.R, _ = elemsOf(in.st.slContent(field(ip, IT, "R")), KPt)
	sp := c.input(nil).concrete(4000)
	blind := sp.call(c.spec("BlindBase"))
	q.alpha, q.rho, q.tau1, q.tau2 = gcoef(q.A, blind), gcoef(q.S, blind), gcoef(q.T1, blind), gcoef(q.T2, blind)
	G, _ := elemsOf(sp.st.slContent(sp.call(c.spec("GenG"), num(int64(64*m)))), KPt)
	H, _ := elemsOf(sp.st.slContent(sp.call(c.spec("GenH"), num(int64(64*m)))), KPt)
	for i := range G {
		q.sL = append(q.sL, gcoef(q.S, G[i]))
		q.sR = append(q.sR, gcoef(q.S, H[i]))
	}
	return q
}

// draws are the random scalars of the proof.
func (q *provenRange) draws() (names []string, ts []*Term) {
	add := func(n string, t *Term) { names, ts = append(names, n), append(ts, t) }
	add("blinding factor of A", q.alpha)
	add("blinding factor of S", q.rho)
	add("blinding factor of T1", q.tau1)
	add("blinding factor of T2", q.tau2)
	for i, g := range q.gamma {
		add(fmt.Sprintf("blinding factor of V[%d]", i), g)
	}
	for i := range q.sL {
		add(fmt.Sprintf("sL[%d]", i), q.sL[i])
		add(fmt.Sprintf("sR[%d]", i), q.sR[i])
	}
	return
}

// specProve are the reference messages.
type specRange struct {
	t1, t2, taux, mu, t *Term
	l, r, hf            []*Term
	x, y, z, w          *Term
	sp                  *input
}

func (q *provenRange) spec() *specRange {
	c := q.c
	sp := c.input(nil).concrete(4000)
	f := c.spec("RangeProve")
	ST, PT := elemOf(f.Signature.Params().At(0).Type()), elemOf(f.Signature.Params().At(8).Type())
	r := sp.call(f, sp.slice(ST, q.v...), sp.slice(ST, q.gamma...), sp.slice(ST, q.sL...), sp.slice(ST, q.sR...), q.alpha, q.rho, q.tau1, q.tau2, sp.slice(PT, q.V...), q.A, q.S, q.T1, q.T2)
	s := &specRange{sp: sp}
	for i, p := range []**Term{&s.t1, &s.t2, &s.taux, &s.mu, &s.t} {
		*p = extract(r, i, KSc)
	}
	for i, p := range []*[]*Term{&s.l, &s.r, &s.hf} {
		*p, _ = elemsOf(sp.st.slContent(extract(r, 5+i, KSlice)), KSc)
	}
	for i, p := range []**Term{&s.x, &s.y, &s.z, &s.w} {
		*p = extract(r, 8+i, KSc)
	}
	return s
}

// bitFn is BitCommit, nil when it has another form than a function of one
// number with results AL and AR.
func (c *Ctx) bitFn() *ssa.Function {
	f := c.p.find("rangeproof.BitCommit")
	if f == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
		return nil
	}
	T := f.Signature.Results().At(0).Type()
	if S, ok := T.Underlying().(*types.Struct); !ok || S.NumFields() != 2 || roleIndex(T, "AL") < 0 || roleIndex(T, "AR") < 0 {
		return nil
	}
	return f
}

// bitHook is what BitCommit returns for v below 2^64.
func bitHook(in *input, f *ssa.Function) func(*State, []*Term) *Term {
	T := f.Signature.Results().At(0).Type()
	return func(st *State, a []*Term) *Term {
		if len(a) != 1 || a[0].k != KPtr {
			return nil
		}
		v := st.load(a[0], deref(param(f, 0)))
		if v.k != KInt || st.simp(and(le(num(0), v), lt(v, constK(KInt, new(big.Int).Lsh(big.NewInt(1), 64))))) != tTrue {
			return nil
		}
		al, ar := bitsOf(v)
		E := elemOf(fieldType(T, "AL"))
		r := make([]*Term, 2)
		r[roleIndex(T, "AL")] = in.ev.newSlice(st, E, lit(al...))
		r[roleIndex(T, "AR")] = in.ev.newSlice(st, E, lit(ar...))
		return mkStruct(r...)
	}
}

func bitsOf(v *Term) (al, ar []*Term) {
	for i := int64(0); i < 64; i++ {
		b := ite(eq(bitT(v, num(i)), num(1)), numK(KSc, 1), numK(KSc, 0))
		al, ar = append(al, b), append(ar, subT(b, numK(KSc, 1)))
	}
	return al, ar
}

// bitCommit: for v below 2^64, AL are the bits of v and AR = AL - 1. When this
// is not shown for all v at once, it is decided for single values. False when
// the bits are not those required.
func (c *Ctx) bitCommit() bool {
	f := c.bitFn()
	if f == nil {
		return true
	}
	c.funcs["rangeproof.BitCommit"] = true
	T := f.Signature.Results().At(0).Type()
	run := func(val *big.Int) (ok bool) {
		in := c.input(nil).concrete(400)
		a := in.args(f, "v")
		v := in.deref(a[0], param(f, 0))
		name := "BitCommit of a value below 2^64"
		if val != nil {
			v = constK(KInt, val)
			in.st.store(a[0], v, deref(param(f, 0)))
			name = fmt.Sprint("BitCommit of ", val)
		}
		if v.k != KInt {
			c.undecided("BitCommit", f, "the argument is not a number")
			return false
		}
		in.st.assume(le(num(0), v))
		in.st.assume(lt(v, constK(KInt, new(big.Int).Lsh(big.NewInt(1), 64))))
		r := in.call(f, a...)
		ok = c.noPanic(name, f, in)
		al, ok1 := elemsOf(in.st.slContent(field(r, T, "AL")), KSc)
		ar, ok2 := elemsOf(in.st.slContent(field(r, T, "AR")), KSc)
		if !ok1 || !ok2 {
			c.undecided(name, f, "the elements are not known")
			return false
		}
		if len(al) != 64 || len(ar) != 64 {
			c.failed(name+": one element per bit", f, 0, "result of BitCommit")
			return false
		}
		wl, wr := bitsOf(v)
		if val != nil {
			ok = c.same(name+": AL", f, in.st.facts, lit(al...), lit(wl...)) && ok
			return c.same(name+": AR", f, in.st.facts, lit(ar...), lit(wr...)) && ok
		}
		for i := range al {
			if !c.same(fmt.Sprintf("BitCommit: AL[%d] is bit %d", i, i), f, in.st.facts, al[i], wl[i]) ||
				!c.same(fmt.Sprintf("BitCommit: AR[%d] is AL[%d]-1", i, i), f, in.st.facts, ar[i], wr[i]) {
				return false
			}
		}
		return ok
	}
	n, k := len(c.obl), len(c.viol)
	if run(nil) {
		return true
	}
	c.obl, c.viol = c.obl[:n], c.viol[:k]
	c.undecided("BitCommit of all values below 2^64", f, "only single values are decided")
	seen := map[uint64]bool{}
	var vals []uint64
	put := func(x uint64) {
		for _, y := range []uint64{x, x - 1, x + 1, ^x} {
			if !seen[y] {
				seen[y] = true
				vals = append(vals, y)
			}
		}
	}
	for _, x := range c.near(1<<62, "rangeproof.BitCommit") {
		put(uint64(x))
	}
	for i := uint(0); i < 64; i++ {
		put(1 << i)
		put(3 << i)
		put(^uint64(0) / 3 << i)
	}
	for i := uint(2); i < 64; i++ {
		for j := uint(0); j < i; j++ {
			put(1<<i + 1<<j)
		}
	}
	t0 := time.Now()
	for _, x := range vals {
		run(new(big.Int).SetUint64(x))
		if len(c.viol) > k {
			return false
		}
		if time.Since(t0) > time.Minute {
			break
		}
	}
	return true
}

func rangeProve(c *Ctx) {
	f := c.fn("rangeproof.Prove")
	vf := c.fn("rangeproof.Verify")
	if f == nil || vf == nil {
		return
	}
	if !c.bitCommit() {
		c.undecided("proofs", f, "the bits of the values are not established")
		return
	}
	// the number of values
	for _, n := range []int{0, 17, 18, 32} {
		in := c.input(lensBy(map[string]int{"v": n})).concrete(100)
		a := in.args(f, "v", "debug")
		r := in.call(f, a...)
		name := fmt.Sprintf("Prove of %d values", n)
		c.noPanic(name, f, in)
		c.same(name+": error", f, in.st.facts, isNil(extract(r, 1, KIface)), tFalse)
	}
	full, part, dbgs := []int{1}, []int{2, 3, 5, 16}, []int{1, 2}
	if c.thorough {
		full, dbgs = []int{1, 2}, []int{1, 2, 3, 4}
		part = []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16}
	}
	for _, n := range full {
		if q := c.prove(n, false); q != nil {
			q.check(vf, false)
		}
	}
	for _, n := range dbgs {
		if q := c.proveWith(n, true, true); q != nil {
			q.check(vf, true)
		}
	}
	for _, n := range part {
		if q := c.proveWith(n, false, true); q != nil {
			q.check(vf, true)
		}
	}

}

// checkIpp: the inner product argument is given the vectors of the proof.
func (q *provenRange) checkIpp(s *specRange) {
	c, f := q.c, q.f
	if len(q.ipp) != 1 {
		c.undecided(q.name+": inner product", f, fmt.Sprintf("%d calls of Generate", len(q.ipp)))
		return
	}
	sp := s.sp
	n := num(int64(len(q.sL)))
	G, _ := elemsOf(sp.st.slContent(sp.call(c.spec("GenG"), n)), KPt)
	H, _ := elemsOf(sp.st.slContent(sp.call(c.spec("GenH"), n)), KPt)
	Q := sp.call(c.spec("RangeQ"), s.w)
	a := q.ipp[0]
	for i, w := range []struct {
		n string
		v []*Term
	}{{"G", G}, {"H", H}, {"l", s.l}, {"r", s.r}, {"factors of H", s.hf}, {"Q", []*Term{Q}}} {
		c.same(q.name+": inner product proof for "+w.n, f, q.facts, lit(a[i]...), lit(w.v...))
	}
}

func (q *provenRange) check(vf *ssa.Function, abstract bool) {
	c, f, in := q.c, q.f, q.in
	c.noPanic(q.name, f, in)
	dbg("proved")
	s := q.spec()
	dbg("spec")
	sp := s.sp
	ST, PT := elemOf(c.spec("RangeProve").Signature.Params().At(0).Type()), elemOf(c.spec("RangeProve").Signature.Params().At(8).Type())
	sl := func(x []*Term) *Term { return sp.slice(ST, x...) }
	// accepts exactly the values in range
	inr := sp.call(c.spec("RangeOK"), sl(q.given))
	zero := numK(KSc, 0)
	nz := []*Term{not(eq(s.x, zero)), not(eq(s.y, zero)), not(eq(s.z, zero))}
	ok := isNil(extract(q.r, 1, KIface))
	c.same(q.name+": accepts only values in the range", f, in.st.facts, and(ok, not(inr)), tFalse)
	c.same(q.name+": accepts all values in the range", f, append(append([]*Term(nil), in.st.facts...), append(nz, inr)...), q.bits(ok), tTrue)
	same := func(what string, got, want *Term) { c.same(q.name+": "+what, f, q.facts, got, want) }
	for j := range q.V {
		same(fmt.Sprintf("V[%d] commits to value %d", j, j), q.V[j], sp.call(c.spec("PedScalar"), q.v[j], q.gamma[j]))
	}
	same("A commits to the bits", q.A, sp.call(c.spec("RangeA"), sl(q.v), q.alpha))
	same("S commits to the blinding vectors", q.S, sp.call(c.spec("RangeS"), sl(q.sL), sl(q.sR), q.rho))
	same("T1", q.T1, sp.call(c.spec("PedScalar"), s.t1, q.tau1))
	same("T2", q.T2, sp.call(c.spec("PedScalar"), s.t2, q.tau2))
	same("taux", q.taux, s.taux)
	same("mu", q.mu, s.mu)
	same("t", q.t, s.t)
	if abstract {
		q.checkIpp(s)
		return
	}
	r := sp.call(c.spec("RangeIpp"), sl(s.l), sl(s.r), sl(s.hf), s.w)
	L, _ := elemsOf(sp.st.slContent(extract(r, 0, KSlice)), KPt)
	R, _ := elemsOf(sp.st.slContent(extract(r, 1, KSlice)), KPt)
	same("rounds", num(int64(len(q.L))), num(int64(len(L))))
	same("rounds", num(int64(len(q.R))), num(int64(len(R))))
	for i := 0; i < len(L) && i < len(q.L) && i < len(q.R); i++ {
		same(fmt.Sprintf("L[%d]", i), q.L[i], L[i])
		same(fmt.Sprintf("R[%d]", i), q.R[i], R[i])
	}
	same("a", q.a, extract(r, 2, KSc))
	same("b", q.b, extract(r, 3, KSc))
	_ = PT
	// verifies
	in2 := in.fork()
	for _, x := range q.facts {
		in2.st.assume(x)
	}
	in2.ev.log = nil
	g := in2.call(vf, q.p)
	ver := fix(in2.st, extract(g, 0, KBool))
	dbg("verify evaluated")
	z := q.bits(ver)
	if z != tTrue {
		dbg(clip(showT(ver, 9)))
		dbg(clip(showT(z, 9)))
	}
	c.same(q.name+": verifies", f, q.facts, z, tTrue)
}

// bits replaces the values, outside of atoms, by the sums of their bits, which
// is what a value in range is.
func (q *provenRange) bits(t *Term) *Term {
	switch t.op {
	case "ite":
		return ite(q.bits(t.a[0]), q.bits(t.a[1]), q.bits(t.a[2]))
	case "not":
		return not(q.bits(t.a[0]))
	case "and", "or":
		var r []*Term
		for _, x := range t.a {
			r = append(r, q.bits(x))
		}
		if t.op == "and" {
			return and(r...)
		}
		return or(r...)
	case "eq0":
		if t.a[0].k == KSc {
			return eq(q.bitSum(t.a[0]), numK(KSc, 0))
		}
		return t
	case "eq":
	default:
		return t
	}
	switch t.a[0].k {
	case KSc:
		d := q.bitSum(add(t.a[0], neg(t.a[1])))
		return eq(d, numK(KSc, 0))
	case KPt:
		var r []lin
		for _, l := range toLin(gadd(t.a[0], gneg(t.a[1]))) {
			r = append(r, lin{l.p, q.bitSum(l.c)})
		}
		return eq(fromLin(KPt, r), zeroG(KPt))
	}
	return t
}

func (q *provenRange) bitSum(k *Term) *Term {
	for _, v := range q.given {
		co := numK(KSc, 0)
		var rest []mono
		for _, m := range toPoly(k) {
			hit := -1
			for i, x := range m.f {
				if x.atom == v && x.exp.s == "1" {
					hit = i
				}
			}
			if hit < 0 {
				rest = append(rest, m)
				continue
			}
			var fs []factor
			fs = append(append(fs, m.f[:hit]...), m.f[hit+1:]...)
			co = add(co, fromPoly(KSc, []mono{{c: m.c, f: fs}}))
		}
		if co.isConst() && co.s == "0" {
			continue
		}
		sum := numK(KSc, 0)
		for i := 0; i < 64; i++ {
			b := bitT(bint(v), num(int64(i)))
			e := new(big.Int).Lsh(big.NewInt(1), uint(i))
			sum = add(sum, mul(constK(KSc, e), sint(b)))
		}
		k = add(mul(co, sum), fromPoly(KSc, rest))
	}
	return k
}

func dbg(a ...interface{}) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, append([]interface{}{time.Since(startTime).Round(time.Millisecond)}, a...)...)
	}
}

var startTime = time.Now()

// challenges collects the hashes to scalars in terms.
func challenges(ts ...*Term) map[*Term]bool {
	r := map[*Term]bool{}
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			if x.op == "hscalar" {
				r[x] = true
			}
			return true
		})
	}
	return r
}

// sameChallenges requires that the hashes in a result are the specified ones.
func (c *Ctx) sameChallenges(name string, f *ssa.Function, got []*Term, want []*Term, names []string) {
	g := challenges(got...)
	w := challenges(want...)
	var extra []*Term
	for x := range g {
		if !w[x] {
			extra = append(extra, x)
		}
	}
	sortTerms(extra)
	for i, x := range want {
		if x.op != "hscalar" {
			c.undecided(name+": challenge "+names[i], f, "not a hash in the reference")
			continue
		}
		if g[x] {
			c.proved(name+": challenge "+names[i], f)
			continue
		}
		if len(extra) == 0 {
			c.failed(name+": challenge "+names[i]+" is used", f, 0, "result of "+shortFn(f), "required: "+clip(showT(x, 6)))
			continue
		}
		if why := uninterpreted(extra...); why != "" {
			c.undecided(name+": challenge "+names[i], f, why)
			continue
		}
		d := []string{"required: " + clip(showT(x, 6))}
		for _, y := range extra {
			d = append(d, "instead: "+clip(showT(y, 6)))
		}
		c.failed(name+": challenge "+names[i]+" hashes everything sent before it", f, 0, "result of "+shortFn(f), d...)
	}
}

func transcriptRule(c *Ctx) {
	vf := c.fn("rangeproof.Verify")
	pf := c.fn("rangeproof.Prove")
	if vf == nil || pf == nil {
		return
	}
	all := func(sp *input, V, L, R []*Term, A, S, T1, T2, taux, mu, t *Term) ([]*Term, []string) {
		f := c.spec("RangeChallenges")
		PT := elemOf(f.Signature.Params().At(0).Type())
		r := sp.call(f, sp.slice(PT, V...), A, S, T1, T2, taux, mu, t, sp.slice(PT, L...), sp.slice(PT, R...))
		w := []*Term{extract(r, 0, KSc), extract(r, 1, KSc), extract(r, 2, KSc), extract(r, 3, KSc)}
		n := []string{"x", "y", "z", "w"}
		u, _ := elemsOf(sp.st.slContent(extract(r, 4, KSlice)), KSc)
		for i, x := range u {
			w, n = append(w, x), append(n, fmt.Sprintf("u[%d]", i))
		}
		return w, n
	}
	for _, m := range []int{1, 2, 4, 8, 16} {
		lg := 6
		for k := m; k > 1; k /= 2 {
			lg++
		}
		ri := mkRange(c, m, lg, lg)
		if ri == nil {
			return
		}
		name := fmt.Sprintf("Verify of %d values", m)
		sp := ri.in.fork()
		r := ri.in.call(vf, ri.p)
		w, n := all(sp, ri.V, ri.L, ri.R, ri.A, ri.S, ri.T1, ri.T2, ri.taux, ri.mu, ri.t)
		c.sameChallenges(name, vf, []*Term{extract(r, 0, KBool)}, w, n)
	}
	for _, k := range []int{1, 2, 3, 16} {
		abstract := k > 1
		q := c.proveWith(k, false, abstract)
		if q == nil {
			continue
		}
		sp := c.input(nil).concrete(4000)
		w, n := all(sp, q.V, q.L, q.R, q.A, q.S, q.T1, q.T2, q.taux, q.mu, q.t)
		got := append([]*Term{q.A, q.S, q.T1, q.T2, q.taux, q.mu, q.t, q.a, q.b}, append(append(append([]*Term(nil), q.L...), q.R...), q.V...)...)
		if abstract {
			w, n = w[:4], n[:4]
			for _, call := range q.ipp {
				for _, x := range call {
					got = append(got, x...)
				}
			}
		}
		c.sameChallenges(q.name, pf, got, w, n)
	}
	c.ippChallenges()
	c.hashCacher()
}

func (c *Ctx) ippChallenges() {
	vs := c.fn("rangeproof/innerproduct.(*Proof).VerifScalars")
	gen := c.fn("rangeproof/innerproduct.Generate")
	if vs == nil || gen == nil {
		return
	}
	f := c.spec("IppChallenges")
	PT := elemOf(f.Signature.Params().At(0).Type())
	for _, k := range []int{1, 2, 3, 4} {
		in := c.input(lensBy(map[string]int{"p.L": k, "p.R": k})).concrete(200)
		a := in.args(vs, "p")
		p, T := in.getT(a[0], param(vs, 0), "*")
		sp := in.fork()
		r := in.call(vs, a...)
		u, _ := elemsOf(sp.st.slContent(sp.call(f, field(p, T, "L"), field(p, T, "R"))), KSc)
		var n []string
		for i := range u {
			n = append(n, fmt.Sprintf("u[%d]", i))
		}
		c.sameChallenges(fmt.Sprintf("VerifScalars of %d rounds", k), vs, []*Term{in.st.slContent(extract(r, 0, KSlice)), in.st.slContent(extract(r, 1, KSlice)), in.st.slContent(extract(r, 2, KSlice))}, u, n)
	}
	for _, k := range []int{2, 4, 8} {
		in, r := c.ippGenerate(gen, k)
		if r == nil {
			continue
		}
		sp := in.fork()
		u, _ := elemsOf(sp.st.slContent(sp.call(f, sp.slice(PT, r.L...), sp.slice(PT, r.R...))), KSc)
		var n []string
		for i := range u {
			n = append(n, fmt.Sprintf("u[%d]", i))
		}
		c.sameChallenges(fmt.Sprintf("Generate for %d elements", k), gen, append(append([]*Term{r.a, r.b}, r.L...), r.R...), u, n)
	}
}

type ippRes struct {
	args     []*Term
	L, R     []*Term
	a, b     *Term
	ok, p    *Term
	facts    []*Term
	released bool
}

func (c *Ctx) ippGenerate(gen *ssa.Function, k int) (*input, *ippRes) {
	in := c.input(lensBy(map[string]int{"G": k, "H": k, "a": k, "b": k, "hf": k})).concrete(400)
	a := in.args(gen, "G", "H", "a", "b", "hf", "Q")
	r := in.call(gen, a...)
	q := &ippRes{args: a, ok: isNil(extract(r, 1, KIface))}
	st := newState()
	for _, x := range in.st.facts {
		st.assume(x)
	}
	st.assume(q.ok)
	q.facts = st.facts
	q.p = fix(st, extract(r, 0, KPtr))
	if q.p.op == "nil" {
		c.failed(fmt.Sprintf("Generate for %d elements: succeeds", k), gen, 0, "result of Generate")
		return in, nil
	}
	v, T := in.getT(q.p, gen.Signature.Results().At(0).Type(), "*")
	v = fix(st, v)
	q.a, q.b = field(v, T, "A"), field(v, T, "B")
	q.L, _ = elemsOf(in.st.slContent(field(v, T, "L")), KPt)
	q.R, _ = elemsOf(in.st.slContent(field(v, T, "R")), KPt)
	return in, q
}

// hashCacher: the transcript keeps everything appended to it, in order.
func (c *Ctx) hashCacher() {
	const p = "rangeproof/fiatshamir.(*HashCacher)."
	ap, re, cl, de := c.fn(p+"Append"), c.fn(p+"Result"), c.fn(p+"Clear"), c.fn(p+"Derive")
	if ap == nil || re == nil || cl == nil || de == nil {
		return
	}
	T := param(ap, 0)
	content := func(in *input, h *Term) *Term { return in.st.slContent(in.get(h, T, "Cache")) }
	for _, pre := range []int{-1, 0, 1, 33} {
		for _, n := range union(40, []int{0, 1, 2, 3, 4}, c.near(40, p+"Append")) {
			l := map[string]int{"vals": n}
			if pre >= 0 {
				l["h.Cache"] = pre
			}
			in := c.input(lensBy(l)).concrete(100)
			a := in.args(ap, "h", "vals")
			h := a[0]
			want := content(in, h)
			vs, _ := elemsOf(in.st.slContent(a[1]), KSlice)
			for _, v := range vs {
				want = cat(want, in.st.slContent(v))
			}
			in.call(ap, a...)
			name := fmt.Sprintf("Append of %d values to a transcript (%d)", n, pre)
			c.noPanic(name, ap, in)
			c.same(name+" keeps all bytes in order", ap, in.st.facts, content(in, h), want)
			r := in.call(re, h)
			c.same(name+": Result is the transcript", re, in.st.facts, in.st.slContent(r), want)
			s := in.call(de, h)
			c.same(name+": Derive hashes the transcript", de, in.st.facts, s, app("hscalar", KSc, "", want))
			c.same(name+": Derive leaves the transcript", de, in.st.facts, content(in, h), want)
			in.call(cl, h)
			c.same(name+": Clear empties the transcript", cl, in.st.facts, content(in, h), tEmpty)
		}
	}
}
