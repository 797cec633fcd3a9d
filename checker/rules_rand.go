package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C06", "every secret scalar, nonce, blinding factor, position and random string is its own fresh draw of the cryptographic generator", 30, freshRandom)
}

// weakCalls reports uses of generators that are not cryptographic in code
// reachable from the given functions (all code if none are given).
func weakCalls(c *Ctx, what string, roots ...*ssa.Function) {
	fs := allFuncs(c.p)
	if len(roots) > 0 {
		fs = reachable(c.p, roots)
	}
	n := 0
	for f := range fs {
		if !c.p.mine(f) || f.Pkg != nil && !c.p.isRepo(f.Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
						c.failed(what, f, in.Pos(), "assignment to crypto/rand.Reader")
						n++
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok || g.Pkg == nil {
						continue
					}
					switch p := g.Pkg.Pkg.Path(); p {
					case "math/rand", "math/rand/v2", "golang.org/x/exp/rand":
						c.failed(what, f, in.Pos(), "use of "+g.String(), p+" is predictable: it is not a cryptographic generator")
						n++
					}
				}
			}
		}
	}
	if n == 0 {
		c.proved(what, nil)
	}
}

// reachable lists the functions of the repository that calls or references from
// the roots lead to.
func reachable(p *Prog, roots []*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	all := allFuncs(p)
	byName := map[string][]*ssa.Function{}
	for f := range all {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, m := range byName[ci.Common().Method.Name()] {
						visit(m)
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && p.mine(g) {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return r
}

// drawOf finds the draw that a scalar or integer is made of: a draw itself or
// the reduction of a drawn string that is long enough.
func drawOf(x *Term) *Term {
	if isRand(x) && x.k != KSeq {
		return x
	}
	switch x.op {
	case "hscalar", "sfrom", "hscalarshort":
		b := x.a[0]
		if isRand(b) {
			if n := lenT(b); n.isConst() && n.big().Cmp(big.NewInt(32)) >= 0 {
				return b
			}
		}
	case "sint", "bint":
		return drawOf(x.a[0])
	}
	return nil
}

// mine tells whether f belongs to the packages analysed.
func (p *Prog) mine(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	for _, k := range p.all {
		if f.Pkg == k {
			return true
		}
	}
	return false
}

func freshID(r *Term) int {
	n, _ := strconv.Atoi(r.s[strings.LastIndex(r.s, "#")+1:])
	return n
}

// masks gives the constant coefficients of the draws a scalar depends on
// linearly. mixed tells that some draws enter in other ways.
func masks(x *Term) (v map[*Term]*big.Int, mixed bool) {
	v = map[*Term]*big.Int{}
	other := map[*Term]bool{}
	for _, m := range toPoly(x) {
		if len(m.f) == 1 && m.f[0].exp.isConst() && m.f[0].exp.s == "1" {
			if d := drawOf(m.f[0].atom); d != nil {
				if v[d] == nil {
					v[d] = new(big.Int)
				}
				v[d].Add(v[d], m.c)
				continue
			}
		}
		for _, f := range m.f {
			if d := drawOf(f.atom); d != nil {
				other[d] = true
			} else if f.atom.op == "ite" || f.atom.op == "at" || f.atom.op == "sum" {
				mixed = true
			}
		}
	}
	for d := range other {
		mixed = true
		delete(v, d)
	}
	return
}

var scalarOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// independent checks that secrets are masked by draws of their own. Draws with
// numbers up to mark were made before the call.
func (c *Ctx) independent(name string, f *ssa.Function, mark int, facts []*Term, xs []*Term) {
	st := newState()
	st.facts = facts
	var rows []map[*Term]*big.Int
	var names []*Term
	why := ""
	for i, x := range xs {
		x = fix(st, x)
		v, mixed := masks(x)
		for d := range v {
			if freshID(d) <= mark {
				c.failed(name+": drawn during the call", f, 0, fmt.Sprintf("value %d: %s", i, clip(showT(x, 6))), "its randomness was drawn earlier and is shared between calls")
				return
			}
		}
		if mixed {
			why = "draws enter " + clip(showT(x, 4)) + " in ways that are not linear"
		}
		if u := uninterpreted(shallow(x)...); u != "" {
			why = u
		}
		rows, names = append(rows, v), append(names, x)
	}
	// Gaussian elimination: every value must keep a draw of its own.
	for i := range rows {
		var piv *Term
		for d, q := range rows[i] {
			q.Mod(q, scalarOrder)
			if q.Sign() != 0 && (piv == nil || d.id < piv.id) {
				piv = d
			}
		}
		if piv == nil {
			if why != "" {
				c.undecided(name, f, why)
			} else {
				c.failed(name, f, 0, fmt.Sprintf("value %d of %d: %s", i, len(xs), clip(showT(names[i], 6))), "it is not masked by a draw of the cryptographic generator that the other values do not also use")
			}
			return
		}
		inv := new(big.Int).ModInverse(rows[i][piv], scalarOrder)
		for j := i + 1; j < len(rows); j++ {
			q, ok := rows[j][piv]
			if !ok {
				continue
			}
			k := new(big.Int).Mul(q, inv)
			for d, p := range rows[i] {
				if rows[j][d] == nil {
					rows[j][d] = new(big.Int)
				}
				rows[j][d].Sub(rows[j][d], new(big.Int).Mul(k, p))
				rows[j][d].Mod(rows[j][d], scalarOrder)
			}
		}
	}
	c.proved(name, f)
}

// shallow lists the atoms of a polynomial, without looking inside hashes.
func shallow(x *Term) []*Term {
	var r []*Term
	for _, m := range toPoly(x) {
		for _, f := range m.f {
			if strings.HasPrefix(f.atom.op, "hscalar") || isRand(f.atom) {
				continue
			}
			r = append(r, f.atom)
		}
	}
	return r
}

func freshRandom(c *Ctx) {
	weakCalls(c, "no generator that is not cryptographic is used")
	blsKeys(c)
	entropy(c)
	// ring signatures: responses of decoys and nonces of the signer
	mark := freshN
	c.ev()
	if freshN > mark {
		mark = freshN
	}
	c.signs(func(s *ringSig) {
		if s.err != tNil || s.pos < 0 {
			return
		}
		c.independent(fmt.Sprintf("%s, signer at %d: responses and nonces are draws of their own", s.name, s.pos), s.f, mark, s.facts, flatten(s.resp))
	}, nil)
	failedDraws(c)
	if f := c.fn("rangeproof/pedersen.(*Pedersen).CommitToScalar"); f != nil {
		g := c.fn("rangeproof/pedersen.(*Pedersen).CommitToVectors")
		d, e := c.drv("PedScalars"), c.drv("PedVectors2")
		if d == nil || e == nil || g == nil {
			return
		}
		for _, n := range []int{0, 1, 2, 3} {
			in := c.input(lensBy(map[string]int{"w": n})).concrete(80)
			r := in.call(d, in.args(d, "seed", "v", "w")...)
			c.independent(fmt.Sprintf("CommitToScalar twice, %d: blinding factors", n), f, mark, in.st.facts, []*Term{extract(r, 1, KSc), extract(r, 3, KSc)})
			in = c.input(lensBy(map[string]int{"v": n, "w": n})).concrete(80)
			r = in.call(e, in.args(e, "seed", "v", "w")...)
			c.independent(fmt.Sprintf("CommitToVectors of length %d, twice: blinding factors", n), g, mark, in.st.facts, []*Term{extract(r, 0, KSc), extract(r, 1, KSc)})
		}
	}
	pf := c.fn("rangeproof.Prove")
	if pf == nil {
		return
	}
	ns := []int{1, 2, 3}
	if c.thorough {
		ns = []int{1, 2, 3, 5, 8, 16}
	}
	for _, n := range ns {
		if q := c.proveWith(n, false, true); q != nil {
			_, ts := q.draws()
			c.independent(fmt.Sprintf("Prove with %d values: blinding factors and vectors are draws of their own", n), pf, mark, q.facts, ts)
		}
	}
}

// blsKeys: key generation.
func blsKeys(c *Ctx) {
	f := c.fn("bls.GenKeyPair")
	if f == nil {
		return
	}
	for _, given := range []bool{true, false} {
		in := c.input(nil)
		a := in.args(f, "r")
		src := a[0]
		name := "GenKeyPair with a reader"
		if !given {
			a[0] = tNil
			name = "GenKeyPair without a reader"
		} else {
			in.st.assume(not(isNil(a[0])))
		}
		mark := freshN
		r := in.call(f, a...)
		c.noPanic(name, f, in)
		fs := newState()
		fs.facts = in.st.facts
		e := fix(fs, extract(r, 2, KIface))
		// the draw
		var draws []*Term
		for _, ev := range in.ev.log {
			if ev.kind == "rand" {
				draws = append(draws, ev.t[0])
			}
		}
		if len(draws) != 1 || draws[0].k != KInt || len(draws[0].a) == 0 {
			if why := uninterpreted(extract(r, 0, KPtr), extract(r, 1, KPtr)); why != "" || len(draws) > 0 {
				c.undecided(name, f, "other kinds of draws "+why)
			} else {
				c.failed(name+": draws the secret key", f, 0, "result of "+shortFn(f), "no draw of a random generator")
			}
			continue
		}
		d := draws[0]
		if freshID(d) <= mark {
			c.failed(name, f, 0, clip(showT(d, 4)), "drawn before the call")
			continue
		}
		if given {
			c.same(name+": draws from it", f, in.st.facts, d.a[0], src)
		} else if isRandReader(d.a[0]) {
			c.proved(name+": draws from the system generator", f)
		} else if why := uninterpreted(d.a[0]); why != "" {
			c.undecided(name, f, why)
		} else {
			c.failed(name+": draws from the system generator", f, 0, "reader "+clip(showT(d.a[0], 5)))
		}
		ok := not(patom("randerr", d))
		c.same(name+": fails exactly when the draw fails", f, in.st.facts, isNil(e), ok)
		good := append(append([]*Term(nil), in.st.facts...), ok)
		gs := newState()
		gs.facts = good
		PT, ST := f.Signature.Results().At(0).Type(), f.Signature.Results().At(1).Type()
		sv := in.ev.deep(in.st, fix(gs, extract(r, 1, KPtr)), ST)
		pv := in.ev.deep(in.st, fix(gs, extract(r, 0, KPtr)), PT)
		c.same(name+": secret key is the draw", f, good, inner(fix(gs, sv)), d)
		c.same(name+": public key is the secret key times the base", f, good, inner(fix(gs, pv)), gscale(intern("gen", KG2, "", nil), d))
	}
}

// inner strips wrappers off a value with one component.
func inner(t *Term) *Term {
	for t != nil && (t.op == "box" || t.op == "struct") && len(t.a) == 1 {
		t = t.a[0]
	}
	return t
}

// entropy: random byte strings.
func entropy(c *Ctx) {
	f := c.fn("hash.RandEntropy")
	if f == nil {
		return
	}
	entropyOf(c, f, "RandEntropy", -1)
	for _, n := range union(300, []int{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 64}, c.near(257, "hash.RandEntropy")) {
		entropyOf(c, f, fmt.Sprintf("RandEntropy of %d bytes", n), n)
	}
}

func entropyOf(c *Ctx, f *ssa.Function, name string, n int) {
	in := c.input(nil)
	if n >= 0 {
		in = in.concrete(600)
	}
	a := in.args(f, "n")
	if n >= 0 {
		a[0] = num(int64(n))
	}
	mark := freshN
	r := in.call(f, a...)
	c.noPanic(name, f, in)
	var ds []*Term
	ok := tTrue
	for _, e := range in.ev.log {
		if e.kind == "rand" {
			ds = append(ds, e.t[0])
			ok = and(ok, not(patom("randerr", e.t[0])))
		}
	}
	c.same(name+": fails exactly when a draw fails", f, in.st.facts, isNil(extract(r, 1, KIface)), ok)
	fs := newState()
	fs.facts = append(append([]*Term(nil), in.st.facts...), ok)
	b := fix(fs, in.st.slContent(fix(fs, extract(r, 0, KSlice))))
	c.same(name+": returns as many bytes as asked for", f, fs.facts, lenT(b), a[0])
	parts := []*Term{b}
	if b.op == "cat" {
		parts = b.a
	}
	seen := map[*Term]bool{}
	for _, p := range parts {
		if n := lenT(p); n.isConst() && n.big().Sign() == 0 {
			continue
		}
		if isRand(p) && !seen[p] && freshID(p) > mark {
			seen[p] = true
			continue
		}
		if why := uninterpreted(p); why != "" || p.op == "rep" && n < 0 || p.op == "ite" || p.op == "sub" {
			c.undecided(name+": random bytes", f, why+" "+p.op)
			return
		}
		c.failed(name+": returns bytes of the generator only", f, 0, "bytes "+clip(showT(p, 6)))
		return
	}
	c.proved(name+": returns bytes of the generator only", f)
}

// failedDraws: signers do not go on when the position cannot be drawn.
func failedDraws(c *Ctx) {
	f := c.fn("ringsig/blsag.Sign")
	g := c.fn("mlsag.(*DualKey).Prove")
	d := c.drv("Mlsag")
	if f == nil || g == nil || d == nil {
		return
	}
	for n := 0; n <= 3; n++ {
		// a ring of one leaves nothing to draw
		in := c.input(lensBy(map[string]int{"mixin": n})).concrete(80)
		in.ev.failDraw = true
		in.call(f, in.args(f, "m", "mixin", "x")...)
		name := fmt.Sprintf("bLSAG with %d decoys when the position cannot be drawn", n)
		if in.st.dead || in.ev.failed == 0 {
			c.proved(name, f)
		} else {
			c.failed(name, f, 0, "signature returned", "the position of the signer was not drawn")
		}
		in = c.input(lensBy(map[string]int{"decoys": n, "decoys[*]": 2})).concrete(80)
		in.ev.failDraw = true
		a := in.args(d, "m", "x", "z", "decoys")
		r := in.call(d, a...)
		name = fmt.Sprintf("MLSAG with %d decoys when the position cannot be drawn", n)
		if in.st.dead || in.ev.failed == 0 {
			c.proved(name, g)
			continue
		}
		c.same(name+": error", g, in.st.facts, isNil(extract(r, 2, KIface)), tFalse)
	}
}
