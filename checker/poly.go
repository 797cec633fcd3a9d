package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Polynomials over atoms with integer-term exponents, for KInt and KSc.

type factor struct {
	atom *Term
	exp  *Term
}

type mono struct {
	c *big.Int
	f []factor
	v *Term // the product of the factors, if known to be normal
}

// toPoly lists the monomials of a term. The result is shared.
func toPoly(t *Term) []mono {
	if t.poly != nil {
		return t.poly
	}
	var r []mono
	switch t.op {
	case "const":
		c := t.big()
		if c.Sign() == 0 {
			return nil
		}
		r = []mono{{c: c, v: intern("const", t.k, "1", nil)}}
	case "poly":
		r = make([]mono, 0, len(t.a))
		for _, x := range t.a {
			r = append(r, toPoly(x)...)
		}
	case "mono":
		m := mono{c: t.big()}
		num := false
		for _, x := range t.a {
			f := toFactor(x)
			num = num || f.atom.isConst()
			m.f = append(m.f, f)
		}
		if !num {
			m.v = varPart(t)
		}
		r = []mono{m}
	default:
		m := mono{c: big.NewInt(1), f: []factor{toFactor(t)}}
		if !m.f[0].atom.isConst() {
			m.v = t
		}
		r = []mono{m}
	}
	r = r[:len(r):len(r)]
	t.poly = r
	return r
}

func toFactor(t *Term) factor {
	if t.op == "pow" {
		return factor{t.a[0], t.a[1]}
	}
	return factor{t, num(1)}
}

func monoKey(m mono) string {
	var sb strings.Builder
	for _, f := range m.f {
		sb.WriteString(strconv.Itoa(f.atom.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(f.exp.id))
		sb.WriteByte(' ')
	}
	return sb.String()
}

// normMono merges factors and pulls constant bases out of the coefficient.
func normMono(k Kind, m mono) mono {
	by := map[*Term]*Term{}
	var order []*Term
	c := new(big.Int).Set(m.c)
	for _, f := range m.f {
		if e, ok := by[f.atom]; ok {
			by[f.atom] = add(e, f.exp)
		} else {
			by[f.atom] = f.exp
			order = append(order, f.atom)
		}
	}
	var r mono
	for _, a := range order {
		e := by[a]
		if e.isConst() && e.s == "0" {
			continue
		}
		if k == KSc && a.op == "ite" && a.a[1].s == "1" && a.a[2].s == "0" && a.a[1].isConst() && a.a[2].isConst() && e.isConst() && !strings.HasPrefix(e.s, "-") {
			e = num(1) // an indicator is its own square
		}
		if a.isConst() {
			b := a.big()
			if e.isConst() && !strings.HasPrefix(e.s, "-") {
				c.Mul(c, new(big.Int).Exp(b, e.big(), nil))
				continue
			}
			// canonical: no factor b in the coefficient
			if b.Cmp(big.NewInt(1)) > 0 && c.Sign() != 0 {
				for {
					q, rr := new(big.Int).QuoRem(c, b, new(big.Int))
					if rr.Sign() != 0 {
						break
					}
					c = q
					e = add(e, num(1))
				}
				if e.isConst() && !strings.HasPrefix(e.s, "-") {
					c.Mul(c, new(big.Int).Exp(b, e.big(), nil))
					continue
				}
			}
		}
		r.f = append(r.f, factor{a, e})
	}
	sort.Slice(r.f, func(i, j int) bool { return r.f[i].atom.id < r.f[j].atom.id })
	r.c = c
	return r
}

func fromPoly(k Kind, ms []mono) *Term {
	switch len(ms) {
	case 0:
		return numK(k, 0)
	case 1:
		if m := ms[0]; m.v != nil && m.v.k == k {
			if m.c.Sign() == 0 {
				return numK(k, 0)
			}
			return scaled(m)
		}
	}
	by := make(map[*Term]int, len(ms))
	acc := make([]mono, 0, len(ms))
	for _, m := range ms {
		if m.v == nil || m.v.k != k {
			m = normMono(k, m)
			m.v = monoTerm(k, mono{c: bigOne, f: m.f})
		}
		if i, ok := by[m.v]; ok {
			acc[i].c = new(big.Int).Add(acc[i].c, m.c)
		} else {
			by[m.v] = len(acc)
			acc = append(acc, m)
		}
	}
	n := 0
	for _, m := range acc {
		if m.c.Sign() != 0 {
			acc[n] = m
			n++
		}
	}
	acc = acc[:n]
	switch n {
	case 0:
		return numK(k, 0)
	case 1:
		return scaled(acc[0])
	}
	sort.Slice(acc, func(i, j int) bool { return acc[i].v.id < acc[j].v.id })
	out := make([]*Term, n)
	for i, m := range acc {
		out[i] = scaled(m)
	}
	return intern("poly", k, "", out)
}

var bigOne = big.NewInt(1)

// scaled is the term of a monomial in normal form.
func scaled(m mono) *Term {
	if len(m.f) == 0 {
		return constK(m.v.k, m.c)
	}
	if m.c.IsInt64() && m.c.Int64() == 1 {
		return m.v
	}
	if m.v.op == "mono" {
		return intern("mono", m.v.k, m.c.String(), m.v.a)
	}
	return intern("mono", m.v.k, m.c.String(), []*Term{m.v})
}

func varPart(t *Term) *Term {
	if t.op == "mono" && t.s != "1" {
		if len(t.a) == 1 {
			return t.a[0]
		}
		return intern("mono", t.k, "1", t.a)
	}
	if t.isConst() {
		return intern("const", t.k, "1", nil)
	}
	return t
}

func monoTerm(k Kind, m mono) *Term {
	if len(m.f) == 0 {
		return constK(k, m.c)
	}
	var a []*Term
	for _, f := range m.f {
		if f.exp.isConst() && f.exp.s == "1" {
			a = append(a, f.atom)
		} else {
			a = append(a, intern("pow", k, "", []*Term{f.atom, f.exp}))
		}
	}
	if len(a) == 1 && m.c.Cmp(big.NewInt(1)) == 0 {
		return a[0]
	}
	return intern("mono", k, m.c.String(), a)
}

func nonPoly(t *Term) bool { return t.k != KInt && t.k != KSc }

func add(a, b *Term) *Term {
	if a.isConst() && a.s == "0" {
		return b
	}
	if b.isConst() && b.s == "0" {
		return a
	}
	r := fromPoly(a.k, append(toPoly(a), toPoly(b)...))
	return mergeSums(r)
}

func neg(a *Term) *Term {
	ms := toPoly(a)
	r := make([]mono, len(ms))
	for i, m := range ms {
		r[i] = mono{new(big.Int).Neg(m.c), m.f, m.v}
	}
	return fromPoly(a.k, r)
}

func subT(a, b *Term) *Term {
	if a == b {
		return numK(a.k, 0)
	}
	return add(a, neg(b))
}

func mul(a, b *Term) *Term {
	if a.isConst() {
		if a.s == "1" {
			return b
		}
		if a.s == "0" {
			return a
		}
	}
	if b.isConst() {
		if b.s == "1" {
			return a
		}
		if b.s == "0" {
			return b
		}
	}
	pa, pb := toPoly(a), toPoly(b)
	if len(pa)*len(pb) > 1000000 {
		return intern("bigmul", a.k, "", []*Term{a, b})
	}
	var r []mono
	for _, x := range pa {
		for _, y := range pb {
			r = append(r, mono{new(big.Int).Mul(x.c, y.c), append(append([]factor(nil), x.f...), y.f...), nil})
		}
	}
	return mergeSums(fromPoly(a.k, r))
}

func addInt(a *Term, n int64) *Term { return add(a, numK(a.k, n)) }

// powT raises a to the integer term e.
func powT(a, e *Term) *Term {
	if e.isConst() {
		switch e.s {
		case "0":
			return numK(a.k, 1)
		case "1":
			return a
		}
	}
	if a.isConst() {
		if a.s == "1" {
			return a
		}
		if e.isConst() && !strings.HasPrefix(e.s, "-") && e.big().IsInt64() && e.big().Int64() < 5000 {
			return constK(a.k, new(big.Int).Exp(a.big(), e.big(), nil))
		}
		if a.s == "0" {
			return ite(eq0(e), numK(a.k, 1), numK(a.k, 0))
		}
	}
	ms := toPoly(a)
	if len(ms) == 1 {
		m := ms[0]
		var r mono
		r.c = big.NewInt(1)
		if m.c.Cmp(r.c) != 0 {
			if e.isConst() && !strings.HasPrefix(e.s, "-") && e.big().IsInt64() && e.big().Int64() < 5000 {
				r.c = new(big.Int).Exp(m.c, e.big(), nil)
			} else {
				r.f = append(r.f, factor{constK(a.k, m.c), e})
			}
		}
		for _, f := range m.f {
			r.f = append(r.f, factor{f.atom, mul(f.exp, e)})
		}
		return fromPoly(a.k, []mono{r})
	}
	if e.isConst() && e.big().IsInt64() {
		n := e.big().Int64()
		if n > 1 && n <= 4 {
			r := a
			for i := int64(1); i < n; i++ {
				r = mul(r, a)
			}
			return r
		}
	}
	return fromPoly(a.k, []mono{{c: big.NewInt(1), f: []factor{{a, e}}}})
}

// coefOf splits t = c*x + rest with x not free in c and rest; ok is false
// when x occurs in another way.
func coefOf(t, x *Term) (c, rest *Term, ok bool) {
	c, rest = numK(t.k, 0), numK(t.k, 0)
	for _, m := range toPoly(t) {
		n := 0
		var fs []factor
		for _, f := range m.f {
			if f.atom == x {
				if !(f.exp.isConst() && f.exp.s == "1") {
					return nil, nil, false
				}
				n++
				continue
			}
			if occurs(f.atom, x) || occurs(f.exp, x) {
				return nil, nil, false
			}
			fs = append(fs, f)
		}
		if n > 1 {
			return nil, nil, false
		}
		mt := fromPoly(t.k, []mono{{c: m.c, f: fs}})
		if n == 1 {
			c = add(c, mt)
		} else {
			rest = add(rest, mt)
		}
	}
	return c, rest, true
}

// mkSum builds Σ_{it<n} body.
func mkSum(k Kind, n, it, body *Term) *Term {
	if k.isGroup() {
		return gsum(k, n, it, body)
	}
	if n.isConst() {
		switch n.s {
		case "0":
			return numK(k, 0)
		case "1":
			return subst1(body, it, num(0))
		}
	}
	r := numK(k, 0)
	nk := n
	if k == KSc {
		nk = sint(n)
	}
	for _, m := range toPoly(body) {
		var inv, dep []factor
		for _, f := range m.f {
			if occurs(f.atom, it) || occurs(f.exp, it) {
				dep = append(dep, f)
			} else {
				inv = append(inv, f)
			}
		}
		c := fromPoly(k, []mono{{c: m.c, f: inv}})
		if len(dep) == 0 {
			r = add(r, mul(c, nk))
			continue
		}
		d := fromPoly(k, []mono{{c: big.NewInt(1), f: dep}})
		// arithmetic progression
		if k == KInt && d == it {
			r = add(r, mul(c, divT(mul(n, addInt(n, -1)), num(2))))
			continue
		}
		r = add(r, mul(c, sumAtom(k, n, it, d)))
	}
	return r
}

func sumAtom(k Kind, n, it, d *Term) *Term {
	// Σ over the concatenation of aligned lists splits
	if parts := splitCat(n, it, d); parts != nil {
		r := numK(k, 0)
		for _, p := range parts {
			r = add(r, mkSum(k, p.n, p.it, p.body))
		}
		return r
	}
	// Σ_{i<n} ite(lo(i)<=x<lo(i+1)) picks out one term
	if t := blockSum(k, n, it, d); t != nil {
		return t
	}
	return bindRaw("sum", k, n, it, d)
}

// mergeSums folds a peeled first or last element back into a sum:
// c*f(-1) + c*Σ_{i<n} f(i) = c*Σ_{i<n+1} f(i-1).
func mergeSums(t *Term) *Term {
	if t.op != "poly" {
		return t
	}
	for _, m := range toPoly(t) {
		for i, f := range m.f {
			if f.atom.op != "sum" || !(f.exp.isConst() && f.exp.s == "1") {
				continue
			}
			s := f.atom
			rest := append(append([]factor(nil), m.f[:i]...), m.f[i+1:]...)
			c := fromPoly(t.k, []mono{{c: m.c, f: rest}})
			mt := fromPoly(t.k, []mono{m})
			for _, end := range []bool{false, true} {
				ix := num(-1)
				if end {
					ix = s.a[0]
				}
				e := instB(s, ix)
				if bad(e) {
					continue
				}
				el := mul(c, e)
				if hasMonos(t, el) {
					it := newIter("m", nil)
					b := instB(s, it)
					if !end {
						b = instB(s, addInt(it, -1))
					}
					n := addInt(s.a[0], 1)
					other := fromPoly(t.k, append(toPoly(t), append(toPoly(neg(mt)), toPoly(neg(el))...)...))
					return add(other, mul(c, mkSum(t.k, n, it, b)))
				}
			}
		}
	}
	return t
}

// bad holds for instances outside of the meaningful range.
func bad(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.op == "at" && x.a[1].isConst() && strings.HasPrefix(x.a[1].s, "-") {
			r = true
		}
		return !r
	})
	return r
}

// hasMonos reports whether every monomial of e is a monomial of t.
func hasMonos(t, e *Term) bool {
	if e.isConst() && e.s == "0" {
		return false
	}
	have := map[string]*big.Int{}
	for _, m := range toPoly(t) {
		have[monoKey(m)] = m.c
	}
	for _, m := range toPoly(e) {
		c, ok := have[monoKey(m)]
		if !ok || c.Cmp(m.c) != 0 {
			return false
		}
	}
	return true
}

func mkProd(k Kind, n, it, body *Term) *Term {
	if n.isConst() {
		switch n.s {
		case "0":
			return numK(k, 1)
		case "1":
			return subst1(body, it, num(0))
		}
	}
	if !occurs(body, it) {
		return powT(body, n)
	}
	// (Π x)^-1 = Π x^-1 and so on: exponents that do not depend on it move out
	ms := toPoly(body)
	if len(ms) == 1 {
		r := powT(constK(k, ms[0].c), n)
		for _, f := range ms[0].f {
			if occurs(f.exp, it) {
				r = mul(r, bindRaw("prod", k, n, it, powT(f.atom, f.exp)))
			} else if occurs(f.atom, it) {
				r = mul(r, powT(bindRaw("prod", k, n, it, f.atom), f.exp))
			} else {
				r = mul(r, powT(f.atom, mul(f.exp, n)))
			}
		}
		return r
	}
	return bindRaw("prod", k, n, it, body)
}

// ---------------------------------------------------------------------------
// conversions between integers and scalars

func sint(a *Term) *Term {
	if a.k == KSc {
		return a
	}
	r := numK(KSc, 0)
	for _, m := range toPoly(a) {
		x := constK(KSc, m.c)
		for _, f := range m.f {
			x = mul(x, powT(sintAtom(f.atom), f.exp))
		}
		r = add(r, x)
	}
	return r
}

func sintAtom(a *Term) *Term {
	switch a.op {
	case "bint":
		return a.a[0]
	case "const":
		return constK(KSc, a.big())
	case "ite":
		return ite(a.a[0], sint(a.a[1]), sint(a.a[2]))
	case "sum":
		it, b := openB(a)
		return mkSum(KSc, a.a[0], it, sint(b))
	}
	return intern("sint", KSc, "", []*Term{a})
}

func bint(s *Term) *Term {
	if s.isConst() && !strings.HasPrefix(s.s, "-") {
		return constK(KInt, s.big())
	}
	if s.op == "ite" {
		return ite(s.a[0], bint(s.a[1]), bint(s.a[2]))
	}
	return intern("bint", KInt, "", []*Term{s})
}

// ---------------------------------------------------------------------------
// linear combinations of group elements

type lin struct {
	p *Term
	c *Term
}

func toLin(t *Term) []lin {
	switch t.op {
	case "const":
		return nil
	case "lin":
		var r []lin
		for i := 0; i < len(t.a); i += 2 {
			r = append(r, lin{t.a[i], t.a[i+1]})
		}
		return r
	}
	return []lin{{t, numK(t.k.coefKind(), 1)}}
}

func fromLin(k Kind, ls []lin) *Term {
	ck := k.coefKind()
	by := map[*Term]*Term{}
	// sums over a list are keyed by bound and by the point of one element
	type skey struct{ n, p *Term }
	sums := map[skey]*Term{} // body coefficient with the iteration variable open
	its := map[*Term]*Term{}
	iterOf := func(n *Term) *Term {
		if x, ok := its[n]; ok {
			return x
		}
		x := newIter("l", n)
		its[n] = x
		return x
	}
	for _, l := range ls {
		if l.p.op == "sum" {
			it := iterOf(l.p.a[0])
			body := instB(l.p, it)
			for _, b := range toLin(body) {
				key := skey{l.p.a[0], b.p}
				c := mul(l.c, b.c)
				if x, ok := sums[key]; ok {
					c = add(x, c)
				}
				sums[key] = c
			}
			continue
		}
		if x, ok := by[l.p]; ok {
			by[l.p] = add(x, l.c)
		} else {
			by[l.p] = l.c
		}
	}
	for key, c := range sums {
		if c.isConst() && c.s == "0" {
			continue
		}
		it := its[key.n]
		b := linTerm(k, []lin{{key.p, c}})
		by[bindRaw("sum", k, key.n, it, b)] = numK(ck, 1)
	}
	// peeled elements
	for changed := true; changed; {
		changed = false
		for p := range by {
			if p.op != "sum" {
				continue
			}
			for _, end := range []bool{false, true} {
				ix := num(-1)
				if end {
					ix = p.a[0]
				}
				e := instB(p, ix)
				if bad(e) {
					continue
				}
				el := toLin(e)
				ok := len(el) > 0
				for _, x := range el {
					if by[x.p] != x.c {
						ok = false
					}
				}
				if !ok {
					continue
				}
				for _, x := range el {
					delete(by, x.p)
				}
				delete(by, p)
				it := newIter("m", nil)
				b := instB(p, it)
				if !end {
					b = instB(p, addInt(it, -1))
				}
				q := bindRaw("sum", k, addInt(p.a[0], 1), it, b)
				by[q] = numK(ck, 1)
				changed = true
				break
			}
			if changed {
				break
			}
		}
	}
	var out []lin
	for p, c := range by {
		out = append(out, lin{p, c})
	}
	return linTerm(k, out)
}

func linTerm(k Kind, ls []lin) *Term {
	var out []lin
	for _, l := range ls {
		if l.c.isConst() && l.c.s == "0" {
			continue
		}
		out = append(out, l)
	}
	if len(out) == 0 {
		return zeroG(k)
	}
	if len(out) == 1 && out[0].c.isConst() && out[0].c.s == "1" {
		return out[0].p
	}
	sort.Slice(out, func(i, j int) bool { return out[i].p.id < out[j].p.id })
	var a []*Term
	for _, l := range out {
		a = append(a, l.p, l.c)
	}
	return intern("lin", k, "", a)
}

func gadd(a, b *Term) *Term { return fromLin(a.k, append(toLin(a), toLin(b)...)) }

func gscale(a, c *Term) *Term {
	ls := toLin(a)
	r := make([]lin, len(ls))
	for i, l := range ls {
		r[i] = lin{l.p, mul(l.c, c)}
	}
	return fromLin(a.k, r)
}

func gneg(a *Term) *Term { return gscale(a, numK(a.k.coefKind(), -1)) }

func gsum(k Kind, n, it, body *Term) *Term {
	if n.isConst() {
		switch n.s {
		case "0":
			return zeroG(k)
		case "1":
			return subst1(body, it, num(0))
		}
	}
	ck := k.coefKind()
	r := zeroG(k)
	for _, l := range toLin(body) {
		if !occurs(l.p, it) {
			r = gadd(r, gscale(l.p, mkSum(ck, n, it, l.c)))
			continue
		}
		el := linTerm(k, []lin{l})
		if parts := splitCat(n, it, el); parts != nil {
			for _, p := range parts {
				r = gadd(r, gsum(k, p.n, p.it, p.body))
			}
			continue
		}
		if l.p.op == "sum" && false {
			continue
		}
		r = gadd(r, bindRaw("sum", k, n, it, el))
	}
	return r
}

// mkPair is the bilinear pairing.
func mkPair(p, q *Term) *Term {
	r := zeroG(KGT)
	for _, x := range toLin(p) {
		for _, y := range toLin(q) {
			e := intern("pair", KGT, "", []*Term{x.p, y.p})
			r = gadd(r, gscale(e, mul(x.c, y.c)))
		}
	}
	return r
}
