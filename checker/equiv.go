package main

// Equivalence of terms under facts, by splitting on the guards they contain.

type equivRes struct {
	ok     bool
	a, b   *Term   // the values that differ
	path   []*Term // under these assumptions
	splits int
	gaveUp bool
}

type equivCmp struct {
	splits int
	limit  int
}

func equiv(facts []*Term, a, b *Term) equivRes {
	return equivLim(facts, a, b, 4000)
}

func equivLim(facts []*Term, a, b *Term, limit int) equivRes {
	st := newState()
	for _, f := range facts {
		st.assume(f)
	}
	if st.dead {
		return equivRes{ok: true}
	}
	c := &equivCmp{limit: limit}
	n := len(st.facts)
	r := c.run(st, a, b, n)
	r.splits = c.splits
	curNN = nil
	return r
}

func (c *equivCmp) run(st *State, a, b *Term, base int) equivRes {
	st.activate()
	a, b = fix(st, a), fix(st, b)
	if a == b {
		return equivRes{ok: true}
	}
	if a.k == KSc && b.k == KSc || a.k == KInt && b.k == KInt || a.k == b.k && a.k.isGroup() {
		if eq(a, b) == tTrue {
			return equivRes{ok: true}
		}
	}
	if a.k == KSeq && b.k == KSeq && (a.op == "upd" || b.op == "upd") {
		// the same elements, written in another way
		if k, ok := seqElem(a, b); ok {
			x, o1 := elemsOf(a, k)
			y, o2 := elemsOf(b, k)
			if o1 && o2 && len(x) == len(y) {
				if a2, b2 := lit(x...), lit(y...); a2 != a || b2 != b {
					return c.run(st, a2, b2, base)
				}
			}
		}
	}
	at := splitAtom(a, b)
	if at == nil || c.splits >= c.limit {
		// facts with several atoms may still be contradictory
		for _, f := range st.facts {
			if g := factAtom(f); g != nil && c.splits < c.limit {
				at = g
				break
			}
		}
		if at == nil || c.splits >= c.limit {
			return equivRes{a: a, b: b, path: st.facts[minInt(base, len(st.facts)):], gaveUp: c.splits >= c.limit}
		}
	}
	c.splits++
	for _, v := range []*Term{at, not(at)} {
		s := st.copy()
		s.sm = nil
		s.assume(v)
		if !s.dead {
			s.refresh()
		}
		if s.dead {
			continue
		}
		if r := c.run(s, a, b, base); !r.ok {
			return r
		}
	}
	return equivRes{ok: true}
}

// refresh simplifies the facts by each other.
func (s *State) refresh() {
	for round := 0; round < 4; round++ {
		ch := false
		old := s.facts
		for i := 0; i < len(old); i++ {
			f := old[i]
			if f.op != "or" && f.op != "ite" {
				continue
			}
			var rest []*Term
			rest = append(rest, old[:i]...)
			rest = append(rest, old[i+1:]...)
			g := newSimper(rest).do(f)
			if g != f {
				s.facts = rest
				s.sm = nil
				s.assume(g)
				if s.dead {
					return
				}
				ch = true
				break
			}
		}
		if !ch {
			return
		}
	}
}

func fix(st *State, t *Term) *Term {
	for i := 0; i < 6; i++ {
		n := st.simp(t)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// factAtom finds an atom to split in a compound fact.
func factAtom(f *Term) *Term {
	switch f.op {
	case "or", "and":
		for _, x := range f.a {
			if g := boolAtom(x); g != nil {
				return g
			}
		}
	case "ite":
		return boolAtom(f.a[0])
	case "not":
		if f.a[0].op == "and" || f.a[0].op == "or" || f.a[0].op == "ite" {
			return factAtom(f.a[0])
		}
	case "eq":
		if f.a[0].k == KBool {
			return boolAtom(f.a[0])
		}
	}
	return nil
}

func boolAtom(t *Term) *Term {
	switch t.op {
	case "true", "false":
		return nil
	case "not":
		return boolAtom(t.a[0])
	case "and", "or":
		for _, x := range t.a {
			if g := boolAtom(x); g != nil {
				return g
			}
		}
		return nil
	case "ite":
		return boolAtom(t.a[0])
	case "eq":
		if t.a[0].k == KBool {
			if g := boolAtom(t.a[0]); g != nil {
				return g
			}
		}
	}
	if a := innerIte(t); a != nil {
		return a
	}
	return t
}

// innerIte finds a guard inside an atom.
func innerIte(t *Term) *Term {
	var r *Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if r != nil || seen[x] {
			return
		}
		seen[x] = true
		if x.op == "ite" {
			if a := boolAtom(x.a[0]); a != nil && closedT(a) {
				r = a
				return
			}
		}
		for _, y := range x.a {
			rec(y)
		}
	}
	for _, y := range t.a {
		rec(y)
	}
	return r
}

// closedT: no bound variables outside of their binders.
func closedT(t *Term) bool { return len(freeBV(t)) == 0 }

var fbvMemo = map[*Term]map[*Term]bool{}

func freeBV(t *Term) map[*Term]bool {
	if m, ok := fbvMemo[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	switch t.op {
	case "bv":
		m[t] = true
	case "sum", "prod", "rep", "forall", "gsum":
		for x := range freeBV(t.a[0]) {
			m[x] = true
		}
		v := bv(t)
		for x := range freeBV(t.a[1]) {
			if x != v {
				m[x] = true
			}
		}
	case "mu":
		_, vars, it := muVars(t)
		for _, a := range t.a {
			for x := range freeBV(a) {
				m[x] = true
			}
		}
		for _, v := range vars {
			delete(m, v)
		}
		delete(m, it)
	default:
		for _, a := range t.a {
			for x := range freeBV(a) {
				m[x] = true
			}
		}
		if t.op == "rv" {
			m[t] = true
		}
	}
	fbvMemo[t] = m
	return m
}

func splitAtom(a, b *Term) *Term {
	for _, t := range []*Term{a, b} {
		if t.k == KBool {
			if g := boolAtom(t); g != nil && closedT(g) {
				return g
			}
			continue
		}
		if t.op == "ite" {
			if g := boolAtom(t.a[0]); g != nil && closedT(g) {
				return g
			}
		}
	}
	for _, t := range []*Term{a, b} {
		if g := innerIte(t); g != nil {
			return g
		}
	}
	return nil
}

// seqElem is the kind of the elements of a sequence.
func seqElem(ts ...*Term) (Kind, bool) {
	for _, t := range ts {
		switch t.op {
		case "upd":
			return t.a[2].k, true
		case "lit":
			if len(t.a) > 0 {
				return t.a[0].k, true
			}
		}
	}
	return KOther, false
}
