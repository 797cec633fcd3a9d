package main

import (
	"math/big"
	"strings"
)

// Truth values and integer facts.

func not(a *Term) *Term {
	if a.neg == nil {
		n := not1(a)
		a.neg = n
		if n.neg == nil {
			n.neg = a
		}
	}
	return a.neg
}

func not1(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.a[0]
	case "and":
		var r []*Term
		for _, x := range a.a {
			r = append(r, not(x))
		}
		return or(r...)
	case "or":
		var r []*Term
		for _, x := range a.a {
			r = append(r, not(x))
		}
		return and(r...)
	case "ite":
		return ite(a.a[0], not(a.a[1]), not(a.a[2]))
	}
	return intern("not", KBool, "", []*Term{a})
}

func flat(op string, in []*Term) []*Term {
	var out []*Term
	for _, x := range in {
		if x.op == op {
			out = append(out, flat(op, x.a)...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func and(in ...*Term) *Term { return andor("and", "or", tTrue, tFalse, in) }
func or(in ...*Term) *Term  { return andor("or", "and", tFalse, tTrue, in) }

func andor(op, dual string, unit, zero *Term, in []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, x := range flat(op, in) {
		if x == zero {
			return zero
		}
		if x == unit || seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for x := range seen {
		if seen[not(x)] {
			return zero
		}
	}
	// absorption: a && (a || b) = a;  a && (!a || b) = a && b
	for changed := true; changed; {
		changed = false
		for i, x := range out {
			if x.op != dual {
				continue
			}
			var keep []*Term
			drop, cut := false, false
			for _, y := range x.a {
				if seen[y] {
					drop = true
				}
				if seen[not(y)] {
					cut = true
					continue
				}
				keep = append(keep, y)
			}
			if drop {
				out = append(append([]*Term(nil), out[:i]...), out[i+1:]...)
				changed = true
				break
			}
			if cut {
				n := andor(dual, op, zero, unit, keep)
				return andor(op, dual, unit, zero, append(append(append([]*Term(nil), out[:i]...), out[i+1:]...), n))
			}
		}
	}
	// (a && b) || (a && !b) = a
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if m := resolve(dual, out[i], out[j]); m != nil {
				rest := []*Term{m}
				for l, x := range out {
					if l != i && l != j {
						rest = append(rest, x)
					}
				}
				return andor(op, dual, unit, zero, rest)
			}
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sortTerms(out)
	return intern(op, KBool, "", out)
}

// resolve merges two dual-lists that differ in the sign of one member.
func resolve(dual string, a, b *Term) *Term {
	if a.op != dual || b.op != dual || len(a.a) != len(b.a) {
		return nil
	}
	inB := map[*Term]bool{}
	for _, x := range b.a {
		inB[x] = true
	}
	var diff *Term
	var common []*Term
	for _, x := range a.a {
		if inB[x] {
			common = append(common, x)
			continue
		}
		if diff != nil || !inB[not(x)] {
			return nil
		}
		diff = x
	}
	if diff == nil {
		return nil
	}
	if dual == "and" {
		return and(common...)
	}
	return or(common...)
}

func ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch c.op {
	case "true":
		return a
	case "false":
		return b
	case "not":
		return ite(c.a[0], b, a)
	}
	if a.k == KBool && b.k == KBool {
		return or(and(c, a), and(not(c), b))
	}
	a, b = underShallow(a, c, true), underShallow(b, c, false)
	if a == b {
		return a
	}
	if a.op == "struct" && b.op == "struct" && len(a.a) == len(b.a) && a.s == b.s {
		f := make([]*Term, len(a.a))
		for i := range f {
			f[i] = ite(c, a.a[i], b.a[i])
		}
		return intern("struct", KStruct, a.s, f)
	}
	// write of one place
	if a.op == "upd" && a.a[0] == b {
		return upd(b, a.a[1], ite(c, a.a[2], at(b, a.a[1], a.a[2].k)))
	}
	if b.op == "upd" && b.a[0] == a {
		return upd(a, b.a[1], ite(c, at(a, b.a[1], b.a[2].k), b.a[2]))
	}
	if a.op == "upd" && b.op == "upd" && a.a[1] == b.a[1] {
		return upd(ite(c, a.a[0], b.a[0]), a.a[1], ite(c, a.a[2], b.a[2]))
	}
	if a.op == "lit" && b.op == "lit" && len(a.a) == len(b.a) {
		f := make([]*Term, len(a.a))
		for i := range f {
			f[i] = ite(c, a.a[i], b.a[i])
		}
		return lit(f...)
	}
	// euclidean remainder: r < 0 ? r + n : r
	if a.k == KInt && c.op == "lt0" && c.a[0].op == "rem" && c.a[0] == b && a == add(b, b.a[1]) {
		return mod(b.a[0], b.a[1])
	}
	// x == 0 ? c : f(x) with f(0) = c
	if c.op == "eq0" {
		if x := c.a[0]; x.op == "it" || x.op == "bv" || x.op == "sym" {
			if b.fv&(1<<(uint(x.id)%64)) != 0 && !hasAtNeg(b, x) {
				if subst1(b, x, num(0)) == a {
					return b
				}
			}
		}
	}
	// numbers: an indicator, so that arithmetic on it is exact
	if a.k == KSc && a.isConst() && b.isConst() && !(a.s == "1" && b.s == "0") {
		ind := intern("ite", KSc, "", []*Term{c, numK(KSc, 1), numK(KSc, 0)})
		return add(b, mul(subT(a, b), ind))
	}
	// choose one orientation for conjunctive guards
	return intern("ite", a.k, "", []*Term{c, a, b})
}

func hasAtNeg(b, x *Term) bool { return bad(subst1(b, x, num(0))) }

// underShallow simplifies an ite at the root of t knowing c.
func underShallow(t, c *Term, val bool) *Term {
	for t.op == "ite" {
		d := t.a[0]
		r := decideBy(d, c, val)
		if r == 0 {
			break
		}
		if r > 0 {
			t = t.a[1]
		} else {
			t = t.a[2]
		}
	}
	return t
}

// decideBy decides d from c=val: 1 true, -1 false, 0 open.
func decideBy(d, c *Term, val bool) int {
	if !val {
		c = not(c)
	}
	lits := []*Term{c}
	if c.op == "and" {
		lits = c.a
	}
	nd := not(d)
	for _, l := range lits {
		if l == d {
			return 1
		}
		if l == nd {
			return -1
		}
	}
	return 0
}

func implNil(t *Term) bool {
	switch t.op {
	case "error", "iface", "alloc", "pf", "pi", "closure", "fn", "mapobj", "newmap":
		return true
	}
	return false
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.k == KBool && b.k == KBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return not(b)
		case b == tFalse:
			return not(a)
		}
		if b.id < a.id {
			a, b = b, a
		}
		return intern("eq", KBool, "", []*Term{a, b})
	}
	if a.k == b.k && (a.k == KInt || a.k == KSc) {
		return eq0(subT(a, b))
	}
	if a.k == b.k && a.k.isGroup() {
		d := gadd(a, gneg(b))
		if d.isConst() {
			return tTrue
		}
		// 0 = d and 0 = -d
		if nd := gneg(d); nd.id < d.id {
			d = nd
		}
		return intern("eq", KBool, "", []*Term{zeroG(a.k), d})
	}
	if a.op == "ite" {
		return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
	}
	if b.op == "ite" {
		return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
	}
	if a.op == "nil" && implNil(b) || b.op == "nil" && implNil(a) {
		return tFalse
	}
	if a.op == "alloc" && b.op == "alloc" {
		return tFalse
	}
	if a.op == "error" && b.op == "error" {
		if a.s == "" || b.s == "" {
			return intern("unk", KBool, "comparison of errors", []*Term{a, b})
		}
		return tFalse
	}
	if a.op == "sl" && b.op == "nil" || a.op == "nil" && b.op == "sl" {
		x := a
		if a.op == "nil" {
			x = b
		}
		if x.a[0].op == "nil" {
			return tTrue
		}
		if implNil(x.a[0]) {
			return tFalse
		}
	}
	if a.op == "iface" && b.op == "iface" && a.s == b.s {
		return eq(a.a[0], b.a[0])
	}
	if a.k == KSeq && b.k == KSeq {
		sa, ok1 := asBytes(a)
		sb, ok2 := asBytes(b)
		if ok1 && ok2 {
			return boolT(sa == sb)
		}
		if a.op == b.op && a.s == b.s && (a.op == "sbytes" || a.op == "pbytes" || a.op == "genc" || a.op == "digest" && !strings.HasPrefix(a.s, "xxhash")) {
			return eq(a.a[0], b.a[0])
		}
		if a.op == "benc" && b.op == "benc" && a.s == b.s {
			return eq(a.a[0], b.a[0])
		}
		la, lb := lenT(a), lenT(b)
		if la.isConst() && lb.isConst() && la != lb {
			return tFalse
		}
	}
	if a.op == "struct" && b.op == "struct" && len(a.a) == len(b.a) {
		var r []*Term
		for i := range a.a {
			r = append(r, eq(a.a[i], b.a[i]))
		}
		return and(r...)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return intern("eq", KBool, "", []*Term{a, b})
}

func leadNeg(p *Term) bool {
	switch p.op {
	case "const":
		return strings.HasPrefix(p.s, "-")
	case "mono":
		return strings.HasPrefix(p.s, "-")
	case "poly":
		for _, x := range p.a {
			if !x.isConst() {
				return leadNeg(x)
			}
		}
	}
	return false
}

// oneIte finds a poly c*ite(g, x, y) + rest where distributing helps.
func oneIte(p *Term) (g, x, y *Term) {
	if p.op == "ite" {
		return p.a[0], p.a[1], p.a[2]
	}
	if p.op != "poly" && p.op != "mono" {
		return nil, nil, nil
	}
	var at *Term
	for _, m := range toPoly(p) {
		for _, f := range m.f {
			if f.atom.op == "ite" {
				if at != nil && at != f.atom {
					return nil, nil, nil
				}
				at = f.atom
			}
		}
	}
	if at == nil {
		return nil, nil, nil
	}
	c, rest, ok := coefOf(p, at)
	if !ok {
		return nil, nil, nil
	}
	return at.a[0], add(mul(c, at.a[1]), rest), add(mul(c, at.a[2]), rest)
}

func eq0(p *Term) *Term {
	if p.isConst() {
		return boolT(p.s == "0")
	}
	if leadNeg(p) {
		p = neg(p)
	}
	if g, x, y := oneIte(p); g != nil {
		return ite(g, eq0(x), eq0(y))
	}
	if p.k == KInt {
		if provNeg(p) || provNeg(neg(p)) {
			return tFalse
		}
		if p.op == "mono" && (p.s != "1" || len(p.a) > 1) {
			// a product is zero when a factor is
			var r []*Term
			for _, x := range p.a {
				if x.op == "pow" {
					x = x.a[0]
				}
				r = append(r, eq0(x))
			}
			return or(r...)
		}
		// the sum of two lengths is zero when both are
		if p.op == "poly" && provNonneg(p) {
			all := true
			var r []*Term
			for _, x := range p.a {
				if !provNonneg(x) {
					all = false
				}
				r = append(r, eq0(x))
			}
			if all {
				return and(r...)
			}
		}
		if p.op == "cmpseq" {
			return eq(p.a[0], p.a[1])
		}
		if p.op == "cmpint" {
			return eq0(subT(p.a[0], p.a[1]))
		}
		// cmp = ±1, 0
		if p.op == "poly" && len(p.a) == 2 {
			if c, at := p.a[0], p.a[1]; true {
				if at.isConst() {
					c, at = at, c
				}
				if c.isConst() && at.op == "cmpint" {
					switch c.s {
					case "1":
						return lt(at.a[0], at.a[1])
					case "-1":
						return lt(at.a[1], at.a[0])
					}
					return tFalse
				}
			}
		}
		// x % 2 and the like over bits stay atoms
	}
	return intern("eq0", KBool, "", []*Term{p})
}

// lt0 is p < 0.
func lt0(p *Term) *Term {
	if p.isConst() {
		return boolT(strings.HasPrefix(p.s, "-"))
	}
	if g, x, y := oneIte(p); g != nil {
		return ite(g, lt0(x), lt0(y))
	}
	if provNonneg(p) {
		return tFalse
	}
	if provNeg(p) {
		return tTrue
	}
	// comparison results
	if r := ltCmp(p); r != nil {
		return r
	}
	// -x < 0 for x >= 0
	if n := neg(p); provNonneg(n) {
		return not(eq0(n))
	}
	if q := addInt(p, 1); provNonneg(q) {
		return eq0(q)
	}
	// common factor
	p = divContent(p)
	if r := ltBits(p); r != nil {
		return r
	}
	if leadNeg(p) {
		q := addInt(neg(p), -1)
		return not(intern("lt0", KBool, "", []*Term{q}))
	}
	return intern("lt0", KBool, "", []*Term{p})
}

// ltBits: bitlen(x) <= k exactly when |x| < 2^k.
func ltBits(p *Term) *Term {
	ms := toPoly(p)
	var x *Term
	sign := 0
	c := new(big.Int)
	for _, m := range ms {
		if len(m.f) == 0 {
			c = m.c
			continue
		}
		if x != nil || len(m.f) != 1 || m.f[0].exp.s != "1" || m.f[0].atom.op != "bitlen" || !m.c.IsInt64() || m.c.Int64() != 1 && m.c.Int64() != -1 {
			return nil
		}
		x, sign = m.f[0].atom.a[0], int(m.c.Int64())
	}
	if x == nil || !c.IsInt64() || c.Int64() > 1<<12 || c.Int64() < -1<<12 {
		return nil
	}
	k := c.Int64() // bitlen > k
	if sign > 0 {
		k = -c.Int64() - 1 // bitlen <= k
	}
	r := tFalse
	if k >= 0 {
		b := constK(KInt, new(big.Int).Lsh(big.NewInt(1), uint(k)))
		r = lt(x, b)
		if !provNonneg(x) {
			r = and(r, lt(neg(x), b))
		}
	}
	if sign < 0 {
		return not(r)
	}
	return r
}

// divContent divides c*x + d < 0 by the positive content of the variable part.
func divContent(p *Term) *Term {
	ms := toPoly(p)
	g := new(big.Int)
	cst := big.NewInt(0)
	for _, m := range ms {
		if len(m.f) == 0 {
			cst = m.c
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(big.NewInt(1)) <= 0 {
		return p
	}
	// g*x + d < 0  <=>  x <= floor((-d-1)/g)  <=>  x - floor((-d-1)/g) - 1 < 0
	var r []mono
	for _, m := range ms {
		if len(m.f) == 0 {
			continue
		}
		r = append(r, mono{new(big.Int).Quo(m.c, g), m.f, m.v})
	}
	q := new(big.Int).Neg(cst)
	q.Sub(q, big.NewInt(1))
	f := new(big.Int)
	mm := new(big.Int)
	f.DivMod(q, g, mm)
	f.Neg(f)
	f.Sub(f, big.NewInt(1))
	return add(fromPoly(p.k, r), constK(p.k, f))
}

// ltCmp reads comparisons of Cmp/Compare results with constants.
func ltCmp(p *Term) *Term {
	var at *Term
	coef, cst := int64(0), int64(0)
	for _, m := range toPoly(p) {
		switch {
		case len(m.f) == 0:
			if !m.c.IsInt64() {
				return nil
			}
			cst = m.c.Int64()
		case len(m.f) == 1 && m.f[0].atom.op == "cmpint" && m.f[0].exp.s == "1" && at == nil && m.c.IsInt64():
			at, coef = m.f[0].atom, m.c.Int64()
		default:
			return nil
		}
	}
	if at == nil {
		return nil
	}
	a, b := at.a[0], at.a[1]
	var r []*Term
	if coef*-1+cst < 0 {
		r = append(r, lt(a, b))
	}
	if cst < 0 {
		r = append(r, eq0(subT(a, b)))
	}
	if coef+cst < 0 {
		r = append(r, lt(b, a))
	}
	return or(r...)
}

func lt(a, b *Term) *Term { return lt0(subT(a, b)) }
func le(a, b *Term) *Term { return not(lt(b, a)) }

// curNN holds polynomials known not to be negative at the current point.
var curNN []*Term

// provNonneg is a sound test for t >= 0.
func provNonneg(t *Term) bool { return nonneg(t, 4) }
func provNeg(t *Term) bool    { return nonneg(addInt(neg(t), -1), 4) }

func atomNonneg(a *Term, d int) bool {
	if a.nn {
		return true
	}
	switch a.op {
	case "const":
		return !strings.HasPrefix(a.s, "-")
	case "bv", "len", "mod", "max0", "bit", "bitlen", "band", "bint", "bdec", "bigfrom", "restlen":
		return true
	case "div", "shr":
		return nonneg(a.a[0], d-1) && nonneg(a.a[1], d-1)
	case "rem":
		return nonneg(a.a[0], d-1)
	case "ite":
		return nonneg(a.a[1], d-1) && nonneg(a.a[2], d-1)
	case "pow":
		return atomNonneg(a.a[0], d)
	case "sum":
		return nonneg(a.a[1], d-1)
	case "conv":
		return strings.HasPrefix(a.s, "u")
	}
	return false
}

// bounds gives an inclusive upper bound of an atom, if one is known.
func atomUpper(a *Term) *Term {
	switch a.op {
	case "it":
		if a.rng != nil {
			return addInt(a.rng, -1)
		}
	case "mod":
		return addInt(a.a[1], -1)
	case "bit":
		return num(1)
	case "rand":
		if strings.HasPrefix(a.s, "int#") {
			return addInt(a.a[0], -1)
		}
	case "conv":
		if a.s == "u8" {
			return num(255)
		}
	case "div":
		// k*(x/k) <= x handled by the caller
	}
	return nil
}

func nonneg(t *Term, d int) bool {
	if d < 0 {
		return false
	}
	ms := toPoly(t)
	allPos := true
	for _, m := range ms {
		if !monoNonneg(m, d) {
			allPos = false
			break
		}
	}
	if allPos {
		return true
	}
	if d == 0 {
		return false
	}
	// replace one bounded atom with a negative coefficient by its upper bound
	for _, m := range ms {
		if m.c.Sign() > 0 || len(m.f) == 0 {
			continue
		}
		for i, f := range m.f {
			if !(f.exp.isConst() && f.exp.s == "1") {
				continue
			}
			u := atomUpper(f.atom)
			if u == nil {
				continue
			}
			// other factors must not be negative
			ok := true
			rest := mono{c: m.c}
			for j, g := range m.f {
				if j == i {
					continue
				}
				if !atomNonneg(g.atom, d) {
					ok = false
				}
				rest.f = append(rest.f, g)
			}
			if !ok {
				continue
			}
			mt := fromPoly(KInt, []mono{m})
			nt := mul(fromPoly(KInt, []mono{rest}), u)
			if nonneg(add(subT(t, mt), nt), d-1) {
				return true
			}
		}
	}
	// replace an atom with positive coefficient by its lower bound 0
	for _, m := range ms {
		if m.c.Sign() > 0 && len(m.f) > 0 && monoNonneg(m, d) {
			mt := fromPoly(KInt, []mono{m})
			if nonneg(subT(t, mt), d-1) {
				return true
			}
		}
	}
	if d >= 3 && len(curNN) > 0 {
		for _, q := range curNN {
			if t.fv&q.fv != 0 && nonneg(subT(t, q), d-2) {
				return true
			}
		}
	}
	return false
}

func monoNonneg(m mono, d int) bool {
	if m.c.Sign() < 0 {
		return false
	}
	for _, f := range m.f {
		if f.exp.isConst() && f.exp.big().Bit(0) == 0 {
			continue
		}
		if !atomNonneg(f.atom, d) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// division, remainder, bits

func divT(a, b *Term) *Term {
	if b.isConst() && b.s == "1" {
		return a
	}
	if a.isConst() && b.isConst() && b.s != "0" {
		return constK(KInt, new(big.Int).Quo(a.big(), b.big()))
	}
	if a.op == "ite" {
		return ite(a.a[0], divT(a.a[1], b), divT(a.a[2], b))
	}
	if q, r, ok := splitDiv(a, b); ok {
		if r.isConst() && r.s == "0" {
			return q
		}
		if provNonneg(r) && provNonneg(q) && provNeg(subT(r, b)) {
			return q
		}
		if !(q.isConst() && q.s == "0") && provNonneg(r) && provNonneg(q) {
			return add(q, divT(r, b))
		}
	}
	// (x/c)/d
	if a.op == "div" && b.isConst() && a.a[1].isConst() {
		return divT(a.a[0], mul(a.a[1], b))
	}
	return intern("div", KInt, "", []*Term{a, b})
}

// splitDiv writes a = q*b + r collecting the monomials divisible by b.
func splitDiv(a, b *Term) (q, r *Term, ok bool) {
	bm := toPoly(b)
	if len(bm) != 1 {
		// b is a sum: only a = c*b + rest with rest found by division of
		// the first monomial is tried
		if a == b {
			return num(1), num(0), true
		}
		return nil, nil, false
	}
	q, r = num(0), num(0)
	for _, m := range toPoly(a) {
		if x, ok := divMono(m, bm[0]); ok {
			q = add(q, fromPoly(KInt, []mono{x}))
		} else if len(m.f) == 0 && len(bm[0].f) == 0 && bm[0].c.Sign() > 0 {
			qq, rr := new(big.Int), new(big.Int)
			qq.DivMod(m.c, bm[0].c, rr)
			q = add(q, constK(KInt, qq))
			r = add(r, constK(KInt, rr))
		} else {
			r = add(r, fromPoly(KInt, []mono{m}))
		}
	}
	return q, r, true
}

func divMono(m, b mono) (mono, bool) {
	q, rem := new(big.Int).QuoRem(m.c, b.c, new(big.Int))
	if rem.Sign() != 0 {
		return mono{}, false
	}
	have := map[*Term]*Term{}
	for _, f := range m.f {
		have[f.atom] = f.exp
	}
	for _, f := range b.f {
		e, ok := have[f.atom]
		if !ok {
			return mono{}, false
		}
		d := subT(e, f.exp)
		if !provNonneg(d) {
			return mono{}, false
		}
		have[f.atom] = d
	}
	r := mono{c: q}
	for _, f := range m.f {
		r.f = append(r.f, factor{f.atom, have[f.atom]})
	}
	return r, true
}

// mod is the euclidean remainder; 0 <= mod(a,n) < n.
func mod(a, n *Term) *Term {
	if n.isConst() && n.s == "1" {
		return num(0)
	}
	if a.isConst() && n.isConst() && n.s != "0" {
		return constK(KInt, new(big.Int).Mod(a.big(), n.big()))
	}
	// drop inner remainders of the same modulus and multiples of n
	p := num(0)
	for _, m := range toPoly(a) {
		if len(m.f) == 1 && m.f[0].exp.s == "1" && (m.f[0].atom.op == "mod") && m.f[0].atom.a[1] == n {
			p = add(p, mul(constK(KInt, m.c), m.f[0].atom.a[0]))
			continue
		}
		p = add(p, fromPoly(KInt, []mono{m}))
	}
	if _, r, ok := splitDiv(p, n); ok {
		p = r
	}
	if p.isConst() && n.isConst() && n.s != "0" {
		return constK(KInt, new(big.Int).Mod(p.big(), n.big()))
	}
	if provNonneg(p) && provNeg(subT(p, n)) {
		return p
	}
	if n.isConst() && n.s == "2" {
		return bitT(p, num(0))
	}
	t := intern("mod", KInt, "", []*Term{p, n})
	t.nn = true
	return t
}

// rem is Go's remainder.
func rem(a, n *Term) *Term {
	if a.isConst() && n.isConst() && n.s != "0" {
		return constK(KInt, new(big.Int).Rem(a.big(), n.big()))
	}
	if provNonneg(a) {
		return mod(a, n)
	}
	return intern("rem", KInt, "", []*Term{a, n})
}

func shr(a, n *Term) *Term {
	if n.isConst() && n.s == "0" {
		return a
	}
	if a.isConst() && n.isConst() && n.big().IsInt64() {
		return constK(KInt, new(big.Int).Rsh(a.big(), uint(n.big().Int64())))
	}
	if a.op == "shr" {
		return shr(a.a[0], add(a.a[1], n))
	}
	// x/2^c and x>>c
	return intern("shr", KInt, "", []*Term{a, n})
}

// bitT is bit i of a.
func bitT(a, i *Term) *Term {
	if a.op == "shr" {
		return bitT(a.a[0], add(a.a[1], i))
	}
	if a.op == "div" && a.a[1].isConst() {
		if b := a.a[1].big(); b.Sign() > 0 && new(big.Int).And(b, new(big.Int).Sub(b, big.NewInt(1))).Sign() == 0 {
			return bitT(a.a[0], addInt(i, int64(b.BitLen()-1)))
		}
	}
	if a.isConst() && i.isConst() && i.big().IsInt64() {
		return num(int64(a.big().Bit(int(i.big().Int64()))))
	}
	if i.isConst() && i.big().IsInt64() && i.big().Sign() >= 0 && i.big().Int64() < 1<<12 {
		if r := bitOf(a, uint(i.big().Int64())); r != nil {
			return r
		}
	}
	t := intern("bit", KInt, "", []*Term{a, i})
	t.nn = true
	return ite(intern("eq0", KBool, "", []*Term{t}), num(0), num(1))
}

// bitOf is bit i of a when it is one of its parts, nil otherwise.
func bitOf(a *Term, i uint) *Term {
	bit := func(x *Term) *Term { return bitT(x, num(int64(i))) }
	switch a.op {
	case "ite":
		return ite(a.a[0], bit(a.a[1]), bit(a.a[2]))
	case "band":
		return ite(eq0(bit(a.a[0])), num(0), bit(a.a[1]))
	case "bor":
		return ite(eq0(bit(a.a[0])), bit(a.a[1]), num(1))
	case "bxor":
		x, y := bit(a.a[0]), bit(a.a[1])
		return ite(eq0(x), y, ite(eq0(y), num(1), num(0)))
	case "andnot":
		return ite(eq0(bit(a.a[1])), bit(a.a[0]), num(0))
	case "conv":
		n := convBits[a.s]
		switch {
		case n == 0:
			return nil
		case i < n:
			return bit(a.a[0])
		case a.s[0] == 'u':
			return num(0)
		}
		return bitT(a.a[0], num(int64(n-1)))
	case "mod":
		if b := a.a[1]; b.isConst() && b.big().Sign() > 0 && new(big.Int).And(b.big(), addInt(b, -1).big()).Sign() == 0 {
			if i >= uint(b.big().BitLen()-1) {
				return num(0)
			}
			return bit(a.a[0])
		}
	}
	// a multiple of a power of two
	if k := twosOf(a); k > 0 {
		if i < k {
			return num(0)
		}
		q, _, ok := splitDiv(a, constK(KInt, new(big.Int).Lsh(big.NewInt(1), k)))
		if ok {
			return bitT(q, num(int64(i-k)))
		}
	}
	return nil
}

// twosOf is the power of two that divides the coefficients of a.
func twosOf(a *Term) uint {
	if a.isConst() {
		return 0
	}
	k := uint(1 << 12)
	for _, m := range toPoly(a) {
		if z := m.c.TrailingZeroBits(); z < k {
			k = z
		}
	}
	if k == 1<<12 {
		return 0
	}
	return k
}

func band(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return constK(KInt, new(big.Int).And(a.big(), b.big()))
	}
	if b.isConst() {
		if b.s == "1" {
			return bitT(a, num(0))
		}
		if b.s == "0" {
			return b
		}
		m := addInt(b, 1).big()
		if m.Sign() > 0 && new(big.Int).And(m, b.big()).Sign() == 0 && provNonneg(a) {
			return mod(a, constK(KInt, m))
		}
	}
	if b.id < a.id {
		a, b = b, a
	}
	return intern("band", KInt, "", []*Term{a, b})
}

func max0(a *Term) *Term {
	if provNonneg(a) {
		return a
	}
	if provNonneg(neg(a)) {
		return num(0)
	}
	t := intern("max0", KInt, "", []*Term{a})
	t.nn = true
	return t
}

func conv(s string, a *Term) *Term {
	if a.op == "ite" {
		return ite(a.a[0], conv(s, a.a[1]), conv(s, a.a[2]))
	}
	if a.isConst() {
		if w := convBits[s]; w != 0 {
			m := new(big.Int).Lsh(big.NewInt(1), w)
			r := new(big.Int).Mod(a.big(), m)
			if s[0] == 'i' && r.Bit(int(w)-1) == 1 {
				r.Sub(r, m)
			}
			return constK(KInt, r)
		}
	}
	if a.op == "conv" && a.s == s {
		return a
	}
	switch s {
	case "u8":
		if provNonneg(a) && provNeg(subT(a, num(256))) {
			return a
		}
	}
	t := intern("conv", KInt, s, []*Term{a})
	t.nn = strings.HasPrefix(s, "u")
	return t
}

// mkForall is ∀ it<n. f.
func mkForall(n, it, f *Term) *Term {
	if n.isConst() {
		switch n.s {
		case "0":
			return tTrue
		case "1":
			return subst1(f, it, num(0))
		}
	}
	if f == tTrue {
		return tTrue
	}
	if !occurs(f, it) {
		return or(eq0(n), f)
	}
	if f.op == "and" {
		var r []*Term
		for _, x := range f.a {
			r = append(r, mkForall(n, it, x))
		}
		return and(r...)
	}
	if parts := splitCat(n, it, f); parts != nil {
		var r []*Term
		for _, p := range parts {
			r = append(r, mkForall(p.n, p.it, p.body))
		}
		return and(r...)
	}
	return bindRaw("forall", KBool, n, it, f)
}

// blockSum recognises Σ_{j<n} ite(lo+L*j <= x < lo+L*(j+1), f(j), 0), which is
// the single term with j = (x-lo)/L.
func blockSum(k Kind, n, it, d *Term) *Term {
	if d.op != "ite" || !(d.a[2].isConst() && d.a[2].s == "0") {
		return nil
	}
	c := d.a[0]
	if c.op != "and" || len(c.a) != 2 {
		return nil
	}
	for _, o := range [][2]*Term{{c.a[0], c.a[1]}, {c.a[1], c.a[0]}} {
		// first: L*j - x - 1 < 0 (lower), second: x - L*j - L < 0 (upper)
		lo, hi := ltPoly(o[0]), ltPoly(o[1])
		if lo == nil || hi == nil {
			continue
		}
		cl, rl, ok1 := coefOf(lo, it)
		ch, rh, ok2 := coefOf(hi, it)
		if !ok1 || !ok2 || add(cl, ch).s != "0" || !cl.isConst() || leadNeg(cl) {
			continue
		}
		L := cl
		x := neg(addInt(rl, 1)) // L*j <= x
		if subT(x, L) != rh {   // x - L*j - L < 0
			continue
		}
		// the chosen block exists when x < L*n
		if !(provNonneg(x) && provNeg(subT(x, mul(L, n)))) {
			continue
		}
		j := divT(x, L)
		return subst1(d.a[1], it, j)
	}
	return nil
}

// ltPoly returns p when the literal says p < 0.
func ltPoly(l *Term) *Term {
	if l.op == "lt0" {
		return l.a[0]
	}
	if l.op == "not" && l.a[0].op == "lt0" {
		return addInt(neg(l.a[0].a[0]), -1)
	}
	return nil
}

// maps: functional updates
func mget(m, key *Term, k Kind) *Term {
	switch m.op {
	case "newmap":
		if k == KBool {
			return tFalse
		}
		if k == KInt || k == KSc {
			return numK(k, 0)
		}
	case "mupd":
		return ite(eq(key, m.a[1]), m.a[2], mget(m.a[0], key, k))
	case "mset":
		// a set filled with λk.key(k) for k<n, all values true
		if k == KBool {
			it, b := openB(m.a[0])
			return not(mkForall(m.a[0].a[0], it, not(eq(key, at(b, num(0), KSeq)))))
		}
	case "ite":
		return ite(m.a[0], mget(m.a[1], key, k), mget(m.a[2], key, k))
	}
	return intern("mget", k, "", []*Term{m, key})
}
