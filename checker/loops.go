package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised by solving the recurrences of what they carry.

type carry struct {
	slot string
	T    types.Type
	mode string // leaf, struct, inv, deep, content, same, closed
	init *Term
	head *Term
	next *Term
	sub  []*carry
	lobj *Term
}

type loopEval struct {
	ev     *Ev
	fr     *frame
	L      *loop
	st0    *State
	it     *Term
	peeled int
	modes  map[string]string
	roots  map[*Term]bool
	order  []*Term
	closed map[string]*Term
	noclos map[string]bool
	nonn   map[string]bool
	leaves []*carry
	exits  []edge
}

func (ev *Ev) evalLoop(fr *frame, L *loop, st0 *State, peeled int) []edge {
	lp := &loopEval{ev: ev, fr: fr, L: L, st0: st0, it: newIter("i", nil), peeled: peeled,
		modes: map[string]string{}, roots: map[*Term]bool{}, closed: map[string]*Term{},
		noclos: map[string]bool{}, nonn: map[string]bool{}}
	mark := len(ev.log)
	if ev.maxUnroll > 0 && peeled == 0 {
		if ex, ok := ev.unrollAll(fr, L, st0); ok {
			return ex
		}
		ev.log = ev.log[:mark]
	}
	for try := 0; try < 24; try++ {
		ev.log = ev.log[:mark]
		switch lp.try() {
		case "retry":
			continue
		case "peel":
			ev.log = ev.log[:mark]
			return lp.peel(peeled + 1)
		case "unroll":
			ev.log = ev.log[:mark]
			return ev.unroll(fr, L, st0, 12)
		case "done":
			return lp.exits
		}
	}
	ev.log = ev.log[:mark]
	return lp.giveUp()
}

// peel evaluates one iteration and then the rest of the loop.
func (lp *loopEval) peel(n int) []edge {
	back, exits := lp.ev.region(lp.fr, lp.L, lp.L.head, lp.st0.copy())
	nb := lp.ev.joinEdges(lp.fr, lp.L.head, back)
	if nb == nil {
		return exits
	}
	return append(exits, lp.ev.evalLoop(lp.fr, lp.L, nb, n)...)
}

// unrollAll evaluates a loop whose trip count is known.
func (ev *Ev) unrollAll(fr *frame, L *loop, st *State) ([]edge, bool) {
	var all []edge
	open := 0
	st = st.copy()
	for i := 0; i <= ev.maxUnroll; i++ {
		back, exits := ev.region(fr, L, L.head, st)
		all = append(all, exits...)
		if len(back) == 0 {
			return all, true
		}
		for _, e := range exits {
			if e.from == L.head {
				open++
				break
			}
		}
		if open > 3 {
			return nil, false
		}
		st = ev.joinEdges(fr, L.head, back)
		if st == nil {
			return all, true
		}
	}
	return nil, false
}

func (ev *Ev) unroll(fr *frame, L *loop, st *State, left int) []edge {
	back, exits := ev.region(fr, L, L.head, st.copy())
	nb := ev.mergeEdges(fr, L.head, back)
	if nb == nil || left == 0 {
		return exits
	}
	return append(exits, ev.unroll(fr, L, nb, left-1)...)
}

// giveUp forgets everything the loop may change.
func (lp *loopEval) giveUp() []edge {
	ev := lp.ev
	ev.emit(Event{kind: "unk", s: "loop not summarised"})
	st := lp.st0.copy()
	for _, in := range lp.L.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			st.env[p] = app("unk", kindOf(p.Type()), "loop"+ev.fresh())
		}
	}
	for r := range lp.roots {
		st.mem.set(r, app("unk", st.mem.at(r).k, "loop"+ev.fresh()))
	}
	_, exits := ev.region(lp.fr, lp.L, lp.L.head, st)
	return exits
}

func (lp *loopEval) build(head *State, v *Term, T types.Type, slot string) *carry {
	c := &carry{slot: slot, T: T, init: v, head: v}
	k := v.k
	if T != nil {
		k = kindOf(T)
	}
	switch k {
	case KStruct:
		if T != nil {
			if st, ok := isStruct(T); ok {
				c.mode = "struct"
				var hs []*Term
				for i := 0; i < st.NumFields(); i++ {
					s := lp.build(head, fldK(v, i, T), st.Field(i).Type(), slot+"."+strconv.Itoa(i))
					c.sub = append(c.sub, s)
					hs = append(hs, s.head)
				}
				c.head = mkStruct(hs...)
				return c
			}
		}
		c.mode = "inv"
		if lp.modes[slot] != "" {
			lp.leaf(c)
		}
		return c
	case KPtr, KIface, KFunc, KOther, KMap:
		m := lp.modes[slot]
		if k == KMap && v.op != "mapobj" && v.op != "nil" && T == nil {
			m = "leaf"
		}
		switch m {
		case "":
			c.mode = "inv"
		case "leaf":
			lp.leaf(c)
		case "deep":
			c.mode = "deep"
			E := T.Underlying().(*types.Pointer).Elem()
			c.lobj = app("lobj", KPtr, "l"+lp.ev.fresh(), lp.ev.iters...)
			ptrElem[c.lobj] = E
			s := lp.build(head, head.load(v, E), E, slot+".*")
			c.sub = []*carry{s}
			head.mem.set(c.lobj, s.head)
			c.head = c.lobj
		}
		return c
	case KSlice:
		switch lp.modes[slot] {
		case "":
			c.mode = "inv"
		case "leaf":
			lp.leaf(c)
		case "same":
			c.mode = "same"
			o := lp.build(head, slOff(v), types.Typ[types.Int], slot+".off")
			n := lp.build(head, slLen(v), types.Typ[types.Int], slot+".len")
			c.sub = []*carry{o, n}
			c.head = mkSl(slBase(v), o.head, n.head)
		case "content":
			c.mode = "content"
			c.lobj = app("lobj", KPtr, "l"+lp.ev.fresh(), lp.ev.iters...)
			s := lp.build(head, head.slContent(v), nil, slot+".#")
			c.sub = []*carry{s}
			head.mem.set(c.lobj, s.head)
			c.head = mkSl(c.lobj, num(0), lenT(s.head))
		}
		return c
	}
	lp.leaf(c)
	return c
}

func (lp *loopEval) leaf(c *carry) {
	if t, ok := lp.closed[c.slot]; ok {
		c.mode = "closed"
		c.head = t
		return
	}
	c.mode = "leaf"
	r := sym("rec", c.init.k, "x")
	if c.T != nil && c.init.op == "nil" {
		r = sym("rec", kindOf(c.T), "x")
	}
	if c.init.k == KInt && !lp.nonn[c.slot] && provNonneg(c.init) {
		r.nn = true
	}
	c.head = r
	lp.leaves = append(lp.leaves, c)
}

// collect reads the value at the end of the iteration; it returns false when
// the shape has to change.
func (lp *loopEval) collect(c *carry, nb *State, v *Term) string {
	switch c.mode {
	case "struct":
		for i, s := range c.sub {
			if r := lp.collect(s, nb, fldK(v, i, c.T)); r != "" {
				return r
			}
		}
		return ""
	case "inv":
		if v == c.init {
			return ""
		}
		switch c.init.k {
		case KSlice:
		}
		k := c.init.k
		if c.T != nil {
			k = kindOf(c.T)
		}
		switch k {
		case KSlice:
			if c.init.op != "nil" && v.op != "nil" && v.op != "ite" && slBase(v) == slBase(c.init) {
				lp.modes[c.slot] = "same"
			} else {
				lp.modes[c.slot] = "content"
			}
			return "retry"
		case KPtr:
			if lp.peeled == 0 {
				return "peel"
			}
			hasAlloc := false
			walk(v, func(t *Term) bool {
				if t.op == "alloc" || t.op == "lobj" {
					hasAlloc = true
				}
				return !hasAlloc
			})
			if hasAlloc && c.init.op != "nil" && !(c.init.op == "ite") {
				lp.modes[c.slot] = "deep"
			} else {
				lp.modes[c.slot] = "leaf"
			}
			return "retry"
		}
		lp.modes[c.slot] = "leaf"
		return "retry"
	case "same":
		if v.op == "nil" || v.op == "ite" || slBase(v) != slBase(c.init) {
			lp.modes[c.slot] = "content"
			return "retry"
		}
		if r := lp.collect(c.sub[0], nb, slOff(v)); r != "" {
			return r
		}
		return lp.collect(c.sub[1], nb, slLen(v))
	case "content":
		lp.ev.lsrc[c.lobj] = []*Term{slBase(c.init), slBase(v)}
		return lp.collect(c.sub[0], nb, nb.slContent(v))
	case "deep":
		if v.op == "nil" {
			lp.modes[c.slot] = "leaf"
			return "retry"
		}
		lp.ev.lsrc[c.lobj] = []*Term{c.init, v}
		E := c.T.Underlying().(*types.Pointer).Elem()
		return lp.collect(c.sub[0], nb, nb.load(v, E))
	case "closed":
		if v != subst1(c.head, lp.it, addInt(lp.it, 1)) {
			if os.Getenv("VLOOP") != "" {
				fmt.Fprintf(os.Stderr, "  closed form lost for %s: %s vs %s\n", c.slot, v, subst1(c.head, lp.it, addInt(lp.it, 1)))
			}
			delete(lp.closed, c.slot)
			lp.noclos[c.slot] = true
			return "retry"
		}
		return ""
	}
	c.next = v
	return ""
}

func (lp *loopEval) try() string {
	ev, fr, L, it := lp.ev, lp.fr, lp.L, lp.it
	debug := os.Getenv("VLOOP") != ""
	lp.leaves = nil
	head := lp.st0.copy()
	type pc struct {
		p *ssa.Phi
		c *carry
	}
	var phis []pc
	for _, in := range L.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c := lp.build(head, lp.st0.env[p], p.Type(), "phi:"+p.Name())
		phis = append(phis, pc{p, c})
	}
	type rc struct {
		r *Term
		c *carry
	}
	var roots []rc
	for _, r := range lp.order {
		v := lp.st0.mem.at(r)
		if v == nil {
			v = rootDefault(lp.st0, r)
		}
		T := ptrElem[r]
		c := lp.build(head, v, T, "mem:"+strconv.Itoa(r.id))
		roots = append(roots, rc{r, c})
	}
	for _, p := range phis {
		head.env[p.p] = p.c.head
	}
	for _, r := range roots {
		head.mem.set(r.r, r.c.head)
	}
	head.sm = nil
	pre := head.mem.copy()
	preEnv := head.env
	_ = preEnv
	nfam0 := len(head.fam)
	ev.iters = append(ev.iters, it)
	back, exits := ev.region(fr, L, L.head, head.copy())
	ev.iters = ev.iters[:len(ev.iters)-1]
	nb := ev.mergeEdges(fr, L.head, back)
	if nb == nil {
		return "unroll"
	}
	nb.activate()
	// memory that the body changes
	found := false
	var famRoots []*Term
	var changed []*Term
	diff(nb.mem, pre, func(r *Term) { changed = append(changed, r) })
	for _, r := range changed {
		v, ok := nb.mem.get(r)
		if !ok {
			continue
		}
		if hv, ok := pre.get(r); ok {
			if hv != v && !lp.roots[r] {
				if r.op == "lobj" {
					continue
				}
				lp.roots[r] = true
				lp.order = append(lp.order, r)
				found = true
			}
			continue
		}
		if r.op == "alloc" || r.op == "lobj" || occurs(r, it) {
			famRoots = append(famRoots, r)
			continue
		}
		dep := false
		for _, c := range lp.leaves {
			if occurs(r, c.head) {
				dep = true
			}
		}
		if dep {
			famRoots = append(famRoots, r)
			continue
		}
		if d := rootDefault(lp.st0, r); d != v && !lp.roots[r] {
			lp.roots[r] = true
			lp.order = append(lp.order, r)
			found = true
		}
	}
	if found {
		sortTerms(lp.order)
		return "retry"
	}
	for _, p := range phis {
		if r := lp.collect(p.c, nb, nb.env[p.p]); r != "" {
			return r
		}
	}
	for _, r := range roots {
		v, ok := nb.mem.get(r.r)
		if !ok {
			v = r.c.head
		}
		if r := lp.collect(r.c, nb, v); r != "" {
			return r
		}
	}
	// solve
	sol := map[*Term]*Term{}
	open := append([]*carry(nil), lp.leaves...)
	for changed := true; changed; {
		changed = false
		var rest []*carry
		sb := newSubst(sol)
		for _, c := range open {
			n := c.next
			if len(sol) > 0 {
				n = sb.do(n)
			}
			blocked := false
			for _, o := range open {
				if o != c && occurs(n, o.head) {
					blocked = true
				}
			}
			if !blocked {
				if f := solve(c.head, c.init, n, it); f != nil {
					sol[c.head] = f
					changed = true
					if debug {
						fmt.Fprintf(os.Stderr, "  %s: %s := %s  =>  %s\n", c.slot, c.init, n, f)
					}
					sb = newSubst(sol)
					continue
				}
			}
			rest = append(rest, c)
		}
		open = rest
	}
	if debug {
		for _, c := range open {
			fmt.Fprintf(os.Stderr, "  OPEN %s(%s): %s := %s\n", c.slot, c.head, c.init, newSubst(sol).do(c.next))
		}
	}
	// a special first iteration
	if len(open) > 0 && lp.peeled == 0 {
		zero := eq0(it)
		special := false
		for _, c := range open {
			n := newSubst(sol).do(c.next)
			if occurs2(n, zero) {
				special = true
			}
		}
		if special {
			return "peel"
		}
	}
	// remaining components iterate together
	full := map[*Term]*Term{}
	for k, v := range sol {
		full[k] = v
	}
	if len(open) > 0 {
		sb := newSubst(sol)
		nx := map[*Term]*Term{}
		byRec := map[*Term]*carry{}
		for _, c := range open {
			nx[c.head] = sb.do(c.next)
			byRec[c.head] = c
		}
		for _, c := range open {
			var ord []*Term
			seen := map[*Term]bool{}
			var visit func(r *Term)
			visit = func(r *Term) {
				if seen[r] {
					return
				}
				seen[r] = true
				ord = append(ord, r)
				walk(nx[r], func(t *Term) bool {
					if byRec[t] != nil {
						visit(t)
					}
					return true
				})
			}
			visit(c.head)
			var ii, nn []*Term
			for _, r := range ord {
				ini := byRec[r].init
				if ini.k != r.k {
					ini = app("typed", r.k, "", ini)
				}
				ii = append(ii, ini)
				nn = append(nn, nx[r])
			}
			m := closeMu(0, it, ii, nn, ord, it)
			full[c.head] = m
			if r := c.head; r.nn {
				m.nn = true
			}
		}
	}
	for _, c := range lp.leaves {
		if c.head.nn {
			f := full[c.head]
			n := newSubst(full).do(c.next)
			if !provNonneg(f) && !provNonneg(n) && !provNonneg(c.next) {
				lp.nonn[c.slot] = true
				return "retry"
			}
		}
	}
	// evaluate the body again with the closed forms of the counters
	again := false
	for _, c := range lp.leaves {
		if f := sol[c.head]; f != nil && f.k == KInt && !lp.noclos[c.slot] && simpleInt(f) {
			lp.closed[c.slot] = f
			again = true
		}
	}
	if again {
		return "retry"
	}
	sb := newSubst(full)
	// conditions of the exits
	type ex struct {
		e    edge
		lits []*Term
		main bool
		lit  *Term
	}
	var exs []*ex
	base := map[*Term]bool{}
	for _, f := range head.facts {
		base[f] = true
	}
	for _, e := range exits {
		if e.st.dead {
			continue
		}
		x := &ex{e: e}
		for _, f := range e.st.facts {
			if !base[f] {
				x.lits = append(x.lits, sb.do(f))
			}
		}
		exs = append(exs, x)
	}
	if len(exs) == 0 {
		return "done"
	}
	domLatches := func(b *ssa.BasicBlock) bool {
		for _, e := range back {
			if !b.Dominates(e.from) {
				return false
			}
		}
		return true
	}
	var main *ex
	var trip *Term
	for pass := 0; pass < 2 && main == nil; pass++ {
		for _, x := range exs {
			if (x.e.from == L.head) != (pass == 0) || !domLatches(x.e.from) {
				continue
			}
			for i := len(x.lits) - 1; i >= 0 && main == nil; i-- {
				l := lp.st0.simp(x.lits[i])
				if t := tripOf(l, it); t != nil {
					main, trip = x, t
					x.lit = x.lits[i]
				}
			}
			if main != nil {
				break
			}
		}
	}
	if main == nil {
		for _, x := range exs {
			if domLatches(x.e.from) && (main == nil || x.e.from == L.head) {
				main = x
			}
		}
		if main == nil {
			main = exs[0]
		}
		inf := intern("inf", KInt, "", nil)
		c := and(main.lits...)
		main.lit = c
		if len(main.lits) > 0 {
			main.lit = main.lits[len(main.lits)-1]
		}
		trip = app("least", KInt, "", mkForall(inf, it, not(main.lit)))
		trip.nn = true
		trip.unk = true
	}
	main.main = true
	trip = lp.st0.simp(trip)
	if trip.isConst() && trip.big().IsInt64() && trip.big().Int64() <= 8 {
		return "unroll"
	}
	if debug {
		fmt.Fprintf(os.Stderr, "  trip %s\n", trip)
	}
	rng := trip
	if trip.op == "max0" {
		rng = trip.a[0]
	}
	// objects made by the iterations
	var fams []fam
	nameSeen := map[string]bool{}
	var note func(t *Term)
	note = func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == "alloc" || x.op == "lobj" {
				nameSeen[x.s] = true
			}
			return true
		})
	}
	for _, c := range full {
		note(c)
	}
	for _, f := range lp.closed {
		note(f)
	}
	for _, x := range exs {
		for v, t := range x.e.st.env {
			if lp.st0.env[v] != t {
				note(t)
			}
		}
	}
	for _, r := range famRoots {
		if r.op != "alloc" && r.op != "lobj" {
			note(nb.mem.at(r))
			note(r)
		}
	}
	for changed := true; changed; {
		changed = false
		for i, r := range famRoots {
			if r == nil {
				continue
			}
			if (r.op == "alloc" || r.op == "lobj") && !nameSeen[r.s] {
				continue
			}
			v := nb.mem.at(r)
			note(v)
			fams = append(fams, fam{root: sb.do(r), its: []*Term{it}, trip: []*Term{trip}, val: sb.do(v)})
			famRoots[i] = nil
			changed = true
		}
	}
	for _, f := range nb.fam[minInt(nfam0, len(nb.fam)):] {
		g := fam{root: sb.do(f.root), val: sb.do(f.val)}
		g.its = append(append([]*Term(nil), f.its...), it)
		for _, t := range f.trip {
			g.trip = append(g.trip, sb.do(t))
		}
		g.trip = append(g.trip, trip)
		fams = append(fams, g)
	}
	// gates
	var fs []*Term
	var sides []*ex
	for _, x := range exs {
		if x == main {
			continue
		}
		n, r := trip, rng
		early := !reach(fr, L, main.e.from, x.e.from)
		if early {
			n, r = addInt(trip, 1), addInt(rng, 1)
		}
		j := newIter("e", r)
		c := subst1(and(x.lits...), it, j)
		c = lp.st0.simp(c)
		fs = append(fs, mkForall(n, j, not(c)))
		sides = append(sides, x)
	}
	allF := and(fs...)
	lp.exits = nil
	emitExit := func(x *ex, at *Term, gates ...*Term) {
		m := map[*Term]*Term{}
		for k, v := range full {
			m[k] = subst1(v, it, at)
		}
		m[it] = at
		s := lp.apply(x.e.st, newSubst(m), nfam0, fams)
		for _, g := range gates {
			if !s.dead {
				s.assume(g)
			}
		}
		if !s.dead {
			lp.exits = append(lp.exits, edge{x.e.from, x.e.to, s})
		}
	}
	for _, x := range exs {
		if x == main {
			emitExit(x, trip, allF)
		}
	}
	for i, x := range sides {
		var g []*Term
		g = append(g, not(fs[i]))
		if len(sides) > 1 {
			g = []*Term{not(allF)}
			for j := 0; j < i; j++ {
				g = append(g, not(patom("first:"+strconv.Itoa(j), fs...)))
			}
			if i < len(sides)-1 {
				g = append(g, patom("first:"+strconv.Itoa(i), fs...))
			}
		}
		sk := app("first", KInt, "", fs[i])
		sk.nn = true
		emitExit(x, sk, g...)
	}
	// the iteration variable in events ranges over the trip
	it.rng = rng
	return "done"
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// reach tells whether b can run after a in the same iteration.
func reach(fr *frame, L *loop, a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock) bool
	f = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == L.head || !L.blocks[s] || seen[s] {
				continue
			}
			if s == b {
				return true
			}
			seen[s] = true
			if f(s) {
				return true
			}
		}
		return false
	}
	return f(a)
}

func simpleInt(f *Term) bool {
	ok := true
	n := 0
	walk(f, func(t *Term) bool {
		n++
		if t.op == "sum" || t.op == "ite" || t.op == "mu" || t.op == "prod" || t.op == "div" || t.op == "shr" {
			ok = false
		}
		return ok && n < 200
	})
	return ok && n < 200
}

func rootDefault(st *State, r *Term) *Term {
	if v, ok := st.mem.get(r); ok {
		return v
	}
	if v := st.famLoad(r); v != nil {
		return v
	}
	switch r.op {
	case "back":
		return elems(r.a[0])
	case "rpos":
		return num(0)
	case "wout":
		return tEmpty
	case "mapof":
		return r.a[0]
	}
	if T := ptrElem[r]; T != nil {
		return defaultVal(r, T)
	}
	return intern("deref", KOther, "", []*Term{r})
}

// apply instantiates a state of the loop body at an exit.
func (lp *loopEval) apply(s *State, sb *subster, nfam0 int, fams []fam) *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)), mem: lp.st0.mem.copy()}
	for v, t := range s.env {
		n.env[v] = sb.do(t)
	}
	diff(s.mem, lp.st0.mem, func(r *Term) {
		if t, ok := s.mem.get(r); ok {
			n.mem.set(sb.do(r), sb.do(t))
		}
	})
	n.fam = append(n.fam, s.fam[:nfam0]...)
	n.fam = append(n.fam, fams...)
	for _, f := range s.fam[minInt(nfam0, len(s.fam)):] {
		g := fam{root: sb.do(f.root), val: sb.do(f.val), its: f.its}
		for _, t := range f.trip {
			g.trip = append(g.trip, sb.do(t))
		}
		n.fam = append(n.fam, g)
	}
	n.facts = lp.st0.facts[:len(lp.st0.facts):len(lp.st0.facts)]
	n.defers = s.defers
	return n
}

// ---------------------------------------------------------------------------
// trip counts

// tripOf finds the first it >= 0 for which the literal holds.
func tripOf(l, it *Term) *Term {
	if !occurs(l, it) {
		return nil
	}
	if p := ltPoly(l); p != nil {
		// p(it) < 0 with p decreasing: q = -p-1 >= 0
		q := addInt(neg(p), -1)
		a, b, ok := coefOf(q, it)
		if !ok {
			return nil
		}
		// a*it + b >= 0
		if a.isConst() && a.big().Sign() > 0 {
			if a.s == "1" {
				return max0(neg(b))
			}
			return max0(divT(add(neg(b), addInt(a, -1)), a))
		}
		if provNeg(neg(a)) {
			return max0(divT(add(neg(b), addInt(a, -1)), a))
		}
		return nil
	}
	if l.op == "eq0" && l.a[0].k == KInt {
		p := l.a[0]
		if a, b, ok := coefOf(p, it); ok && a.isConst() {
			switch a.s {
			case "1":
				return neg(b)
			case "-1":
				return b
			}
			return nil
		}
		// mod(it + x, n) = t
		for _, m := range toPoly(p) {
			if len(m.f) != 1 || m.f[0].atom.op != "mod" || !occurs(m.f[0].atom, it) || m.f[0].exp.s != "1" {
				continue
			}
			md := m.f[0].atom
			a, rest, ok := coefOf(p, md)
			if !ok || !a.isConst() || (a.s != "1" && a.s != "-1") {
				continue
			}
			t := neg(rest)
			if a.s == "-1" {
				t = rest
			}
			if occurs(t, it) {
				continue
			}
			c, x, ok := coefOf(md.a[0], it)
			if !ok || !c.isConst() || occurs(md.a[1], it) {
				continue
			}
			switch c.s {
			case "1":
				return mod(subT(t, x), md.a[1])
			case "-1":
				return mod(subT(x, t), md.a[1])
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// recurrences: x(0) = init, x(it+1) = n(x(it), it); the result is x(it)

func solve(x, init, n, it *Term) *Term {
	if n == x {
		return init
	}
	if !occurs(n, x) {
		return last(init, n, it)
	}
	switch x.k {
	case KInt, KSc:
		return solveNum(x, init, n, it)
	case KPt, KG1, KG2, KGT:
		return solveGroup(x, init, n, it)
	case KBool:
		return solveBool(x, init, n, it)
	case KSeq:
		return solveSeq(x, init, n, it)
	case KMap:
		if n.op == "mupd" && n.a[0] == x && n.a[2] == tTrue && !occurs(n.a[1], x) && init.op == "newmap" {
			j := newIter("s", it)
			return intern("mset", KMap, "", []*Term{bindRaw("rep", KSeq, it, j, lit(subst1(n.a[1], it, j)))})
		}
	}
	return nil
}

func last(init, n, it *Term) *Term {
	p := subst1(n, it, addInt(it, -1))
	if init.k != p.k && init.op == "nil" {
		return ite(eq0(it), init, p)
	}
	return ite(eq0(it), init, p)
}

// affine writes n = c*x + d.
func affine(x, n *Term) (c, d *Term, ok bool) {
	if n.op == "ite" && !occurs(n.a[0], x) {
		c1, d1, ok1 := affine(x, n.a[1])
		c2, d2, ok2 := affine(x, n.a[2])
		if ok1 && ok2 {
			return ite(n.a[0], c1, c2), ite(n.a[0], d1, d2), true
		}
		return nil, nil, false
	}
	if c, d, ok := coefOf(n, x); ok {
		return c, d, true
	}
	// one conditional summand that mentions x
	for _, m := range toPoly(n) {
		for _, f := range m.f {
			if f.atom.op == "ite" && occurs(f.atom, x) && !occurs(f.atom.a[0], x) {
				k, rest, ok := coefOf(n, f.atom)
				if !ok {
					return nil, nil, false
				}
				return affine(x, ite(f.atom.a[0], add(mul(k, f.atom.a[1]), rest), add(mul(k, f.atom.a[2]), rest)))
			}
		}
	}
	return nil, nil, false
}

func solveNum(x, init, n, it *Term) *Term {
	if x.k == KInt {
		if r := solveMod(x, init, n, it); r != nil {
			return r
		}
		switch n.op {
		case "shr":
			if n.a[0] == x && !occurs(n.a[1], x) && !occurs(n.a[1], it) {
				return shr(init, mul(n.a[1], it))
			}
		case "div":
			if n.a[0] == x && n.a[1].isConst() && provNonneg(init) {
				if n.a[1].s == "2" {
					return shr(init, it)
				}
				return intern("div", KInt, "", []*Term{init, powT(n.a[1], it)})
			}
		}
	}
	c, d, ok := affine(x, n)
	if !ok {
		return nil
	}
	j := newIter("j", it)
	if c.isConst() && c.s == "1" {
		return add(init, mkSum(x.k, it, j, subst1(d, it, j)))
	}
	if d.isConst() && d.s == "0" {
		return mul(init, mkProd(x.k, it, j, subst1(c, it, j)))
	}
	if !occurs(c, it) {
		w := powT(c, subT(addInt(it, -1), j))
		return add(mul(init, powT(c, it)), mkSum(x.k, it, j, mul(w, subst1(d, it, j))))
	}
	return nil
}

// solveMod recognises walks around a ring.
func solveMod(x, init, n, it *Term) *Term {
	// x+1 == n ? 0 : x+1
	if n.op == "ite" && n.a[0].op == "eq0" {
		a, b := n.a[1], n.a[2]
		p := n.a[0].a[0]
		if a.isConst() && a.s == "0" && b == addInt(x, 1) {
			for _, sg := range []*Term{p, neg(p)} {
				// x + 1 - N = 0
				if c, r, ok := coefOf(sg, x); ok && c.isConst() && c.s == "1" {
					N := neg(addInt(r, -1))
					return mod(add(init, it), N)
				}
			}
		}
	}
	if n.op == "ite" && ltPoly(n.a[0]) != nil {
		// x+1 < N ? x+1 : 0
		p := ltPoly(n.a[0])
		a, b := n.a[1], n.a[2]
		if b.isConst() && b.s == "0" && a == addInt(x, 1) {
			if c, r, ok := coefOf(p, x); ok && c.isConst() && c.s == "1" {
				return mod(add(init, it), neg(addInt(r, -1)))
			}
		}
		if a.isConst() && a.s == "0" && b == addInt(x, 1) {
			q := addInt(neg(p), -1)
			if c, r, ok := coefOf(q, x); ok && c.isConst() && c.s == "1" {
				return mod(add(init, it), neg(addInt(r, -1)))
			}
		}
	}
	if n.op == "mod" || n.op == "rem" {
		c, d, ok := coefOf(n.a[0], x)
		if ok && c.isConst() && c.s == "1" && !occurs(n.a[1], x) && !occurs(d, it) && !occurs(n.a[1], it) {
			N := n.a[1]
			r := mod(add(init, mul(d, it)), N)
			if init.op == "mod" && init.a[1] == N || provNeg(subT(init, N)) && provNonneg(init) {
				return r
			}
			// the first value is not reduced
			return ite(eq0(it), init, r)
		}
	}
	return nil
}

func solveGroup(x, init, n, it *Term) *Term {
	c, d, ok := gaffine(x, n)
	if !ok {
		return nil
	}
	j := newIter("j", it)
	if c.isConst() && c.s == "1" {
		return gadd(init, gsum(x.k, it, j, subst1(d, it, j)))
	}
	if d.isConst() {
		return gscale(init, mkProd(c.k, it, j, subst1(c, it, j)))
	}
	if !occurs(c, it) {
		w := powT(c, subT(addInt(it, -1), j))
		return gadd(gscale(init, powT(c, it)), gsum(x.k, it, j, gscale(subst1(d, it, j), w)))
	}
	return nil
}

func gaffine(x, n *Term) (c, d *Term, ok bool) {
	if n.op == "ite" && !occurs(n.a[0], x) {
		c1, d1, ok1 := gaffine(x, n.a[1])
		c2, d2, ok2 := gaffine(x, n.a[2])
		if ok1 && ok2 {
			return ite(n.a[0], c1, c2), gite(n.a[0], d1, d2), true
		}
		return nil, nil, false
	}
	c = numK(x.k.coefKind(), 0)
	var rest []lin
	for _, l := range toLin(n) {
		if occurs(l.c, x) {
			return nil, nil, false
		}
		if l.p == x {
			c = l.c
			continue
		}
		if l.p.op == "ite" && occurs(l.p, x) && !occurs(l.p.a[0], x) {
			o := gadd(n, gneg(gscale(l.p, l.c)))
			return gaffine(x, intern("ite", n.k, "", []*Term{l.p.a[0], gadd(gscale(l.p.a[1], l.c), o), gadd(gscale(l.p.a[2], l.c), o)}))
		}
		if occurs(l.p, x) {
			return nil, nil, false
		}
		rest = append(rest, l)
	}
	return c, fromLin(n.k, rest), true
}

// gite moves a condition into the coefficients when one side is zero.
func gite(c, a, b *Term) *Term { return ite(c, a, b) }

func solveBool(x, init, n, it *Term) *Term {
	j := newIter("j", it)
	switch n.op {
	case "and":
		var p []*Term
		has := false
		for _, l := range n.a {
			if l == x {
				has = true
				continue
			}
			if occurs(l, x) {
				return nil
			}
			p = append(p, l)
		}
		if has {
			return and(init, mkForall(it, j, subst1(and(p...), it, j)))
		}
	case "or":
		var p []*Term
		has := false
		for _, l := range n.a {
			if l == x {
				has = true
				continue
			}
			if occurs(l, x) {
				return nil
			}
			p = append(p, l)
		}
		if has {
			return or(init, not(mkForall(it, j, not(subst1(or(p...), it, j)))))
		}
	}
	return nil
}

// strip writes n = pre ++ x ++ post.
func strip(x, n *Term) (pre, post *Term, ok bool) {
	if n == x {
		return tEmpty, tEmpty, true
	}
	if n.op == "ite" && !occurs(n.a[0], x) {
		p1, q1, ok1 := strip(x, n.a[1])
		p2, q2, ok2 := strip(x, n.a[2])
		if ok1 && ok2 {
			return ite(n.a[0], p1, p2), ite(n.a[0], q1, q2), true
		}
		return nil, nil, false
	}
	if n.op == "cat" {
		for i, p := range n.a {
			if p == x {
				pre, post = cat(n.a[:i]...), cat(n.a[i+1:]...)
				if occurs(pre, x) || occurs(post, x) {
					return nil, nil, false
				}
				return pre, post, true
			}
		}
		// a conditional piece with x inside
		for i, p := range n.a {
			if p.op == "ite" && occurs(p, x) {
				a, b, ok := strip(x, p)
				if !ok {
					return nil, nil, false
				}
				pre, post = cat(append(append([]*Term(nil), n.a[:i]...), a)...), cat(append([]*Term{b}, n.a[i+1:]...)...)
				if occurs(pre, x) || occurs(post, x) {
					return nil, nil, false
				}
				return pre, post, true
			}
		}
	}
	return nil, nil, false
}

func solveSeq(x, init, n, it *Term) *Term {
	// the length first
	lx := intern("len", KInt, "", []*Term{x})
	if occurs2(n, lx) {
		ln := lenT(n)
		r := sym("rec", KInt, "n")
		r.nn = true
		ln2 := newSubst(map[*Term]*Term{lx: r}).do(ln)
		var lc *Term
		if ln2 == r {
			lc = lenT(init)
		} else if !occurs(ln2, x) {
			lc = solve(r, lenT(init), ln2, it)
		}
		if lc != nil {
			n = newSubst(map[*Term]*Term{lx: lc}).do(n)
		}
	}
	if n == x {
		return init
	}
	if !occurs(n, x) {
		return last(init, n, it)
	}
	j := newIter("j", it)
	if pre, post, ok := strip(x, n); ok {
		var l, r *Term = tEmpty, tEmpty
		if pre != tEmpty {
			l = mkRep(it, j, subst1(pre, it, subT(addInt(it, -1), j)))
		}
		if post != tEmpty {
			r = mkRep(it, j, subst1(post, it, j))
		}
		return cat(l, init, r)
	}
	if r := solveBlock(x, init, n, it); r != nil {
		return r
	}
	return solveUpd(x, init, n, it)
}

// solveBlock: n = x with the block [a, a+len(b)) replaced by b, a = c + len(b)*it.
func solveBlock(x, init, n, it *Term) *Term {
	if n.op != "cat" || len(n.a) < 2 {
		return nil
	}
	ps := n.a
	a := num(0)
	if f := ps[0]; f.op == "sub" && f.a[0] == x && f.a[1].isConst() && f.a[1].s == "0" {
		a = f.a[2]
		ps = ps[1:]
	}
	L := lenT(init)
	l := ps[len(ps)-1]
	var end *Term
	if l.op == "sub" && l.a[0] == x {
		end = l.a[1]
		ps = ps[:len(ps)-1]
	} else {
		end = L
	}
	b := cat(ps...)
	if b == tEmpty {
		return nil
	}
	bl := lenT(b)
	if subT(end, a) != bl && end != L {
		return nil
	}
	s, c, ok := coefOf(a, it)
	if !ok || s != bl || occurs(s, it) {
		return nil
	}
	if occurs(b, x) {
		// reads of the block itself see the initial contents
		b = readInit(b, x, init, a)
		if b == nil {
			return nil
		}
	}
	j := newIter("j", it)
	done := mul(s, it)
	return cat(sub(init, num(0), c), mkRep(it, j, subst1(b, it, j)), sub(init, add(c, done), subT(subT(L, c), done)))
}

// readInit replaces reads of x at or after pos by reads of init.
func readInit(v, x, init, pos *Term) *Term {
	m := map[*Term]*Term{}
	bad := false
	walk(v, func(t *Term) bool {
		if bad {
			return false
		}
		switch t.op {
		case "at":
			if t.a[0] == x && !occurs(t.a[1], x) {
				if provNonneg(subT(t.a[1], pos)) {
					m[t] = at(init, t.a[1], t.k)
				} else {
					bad = true
				}
				return false
			}
		case "sub":
			if t.a[0] == x && !occurs(t.a[1], x) {
				if provNonneg(subT(t.a[1], pos)) {
					m[t] = sub(init, t.a[1], t.a[2])
				} else {
					bad = true
				}
				return false
			}
		}
		return true
	})
	if bad {
		return nil
	}
	r := newSubst(m).do(v)
	if occurs(r, x) {
		return nil
	}
	return r
}

type updE struct{ idx, val *Term }

func updChain(n, x *Term) ([]updE, bool) {
	var r []updE
	for n != x {
		if n.op != "upd" {
			return nil, false
		}
		r = append(r, updE{n.a[1], n.a[2]})
		n = n.a[0]
	}
	// innermost first
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r, true
}

func solveUpd(x, init, n, it *Term) *Term {
	us, ok := updChain(n, x)
	if !ok || len(us) > 6 {
		return nil
	}
	L := lenT(init)
	fixed := true
	for _, u := range us {
		if occurs(u.idx, it) || occurs(u.idx, x) {
			fixed = false
		}
	}
	if fixed {
		// a few cells accumulate
		recs := map[*Term]*Term{}
		sol := map[*Term]*Term{}
		type cell struct{ idx, r, next *Term }
		var cs []*cell
		for _, u := range us {
			a := intern("at", u.val.k, "", []*Term{x, u.idx})
			r := sym("rec", u.val.k, "c")
			recs[a] = r
			cs = append(cs, &cell{idx: u.idx, r: r})
		}
		sb := newSubst(recs)
		for i, u := range us {
			cs[i].next = sb.do(u.val)
			if occurs(cs[i].next, x) {
				v := readConst(cs[i].next, x, init, us)
				if v == nil {
					return nil
				}
				cs[i].next = v
			}
		}
		for changed := true; changed; {
			changed = false
			for _, c := range cs {
				if sol[c.r] != nil {
					continue
				}
				nx := newSubst(sol).do(c.next)
				blocked := false
				for _, o := range cs {
					if o != c && sol[o.r] == nil && occurs(nx, o.r) {
						blocked = true
					}
				}
				if blocked {
					continue
				}
				if f := solve(c.r, at(init, c.idx, c.r.k), nx, it); f != nil {
					sol[c.r] = f
					changed = true
				}
			}
		}
		res := init
		for _, c := range cs {
			if sol[c.r] == nil {
				return nil
			}
			res = upd(res, c.idx, sol[c.r])
		}
		return res
	}
	// consecutive cells
	m := int64(len(us))
	var lo *Term
	var asc, desc bool
	offs := map[string]updE{}
	for i, u := range us {
		c, rest, ok := coefOf(u.idx, it)
		if !ok || !c.isConst() || occurs(rest, x) {
			return nil
		}
		if i == 0 {
			lo = rest
			asc = c.s == strconv.FormatInt(m, 10)
			desc = c.s == "-1" && m == 1
			if !asc && !desc {
				return nil
			}
		} else if c.s != strconv.FormatInt(m, 10) {
			return nil
		}
		d := subT(rest, lo)
		if !d.isConst() {
			return nil
		}
		if d.big().Sign() < 0 {
			lo = rest
		}
	}
	for _, u := range us {
		_, rest, _ := coefOf(u.idx, it)
		d := subT(rest, lo)
		offs[d.s] = u
	}
	var vals []*Term
	for i := int64(0); i < m; i++ {
		u, ok := offs[strconv.FormatInt(i, 10)]
		if !ok {
			return nil
		}
		vals = append(vals, u.val)
	}
	j := newIter("j", it)
	if asc {
		pos := add(lo, mul(num(m), it))
		for i := range vals {
			if !occurs(vals[i], x) {
				continue
			}
			if v := readInit(vals[i], x, init, pos); v != nil {
				vals[i] = v
				continue
			}
			if m != 1 {
				return nil
			}
			// the previous cell
			pr := intern("at", vals[i].k, "", []*Term{x, addInt(pos, -1)})
			r := sym("rec", vals[i].k, "p")
			f := newSubst(map[*Term]*Term{pr: r}).do(vals[i])
			if occurs(f, x) {
				if f = readInit(f, x, init, pos); f == nil {
					return nil
				}
			}
			g := solve(r, at(init, addInt(lo, -1), r.k), f, it)
			if g == nil {
				return nil
			}
			vals[i] = subst1(f, r, g)
		}
		done := mul(num(m), it)
		var ls []*Term
		for _, v := range vals {
			ls = append(ls, subst1(v, it, j))
		}
		return cat(sub(init, num(0), lo), mkRep(it, j, lit(ls...)), sub(init, add(lo, done), subT(subT(L, lo), done)))
	}
	// descending
	v := vals[0]
	pos := subT(lo, it)
	if occurs(v, x) {
		nx := intern("at", v.k, "", []*Term{x, addInt(pos, 1)})
		r := sym("rec", v.k, "p")
		f := newSubst(map[*Term]*Term{nx: r, intern("at", v.k, "", []*Term{x, pos}): at(init, pos, v.k)}).do(v)
		if occurs(f, x) {
			return nil
		}
		if occurs(f, r) {
			g := solve(r, at(init, addInt(lo, 1), r.k), f, it)
			if g == nil {
				return nil
			}
			f = subst1(f, r, g)
		}
		v = f
	}
	return cat(sub(init, num(0), addInt(pos, 1)), mkRep(it, j, lit(subst1(v, it, subT(addInt(it, -1), j)))),
		sub(init, addInt(lo, 1), subT(addInt(L, -1), lo)))
}

// readConst replaces reads of cells that the loop does not write.
func readConst(v, x, init *Term, us []updE) *Term {
	m := map[*Term]*Term{}
	bad := false
	walk(v, func(t *Term) bool {
		if t.op == "at" && t.a[0] == x {
			for _, u := range us {
				d := subT(t.a[1], u.idx)
				if !(provNeg(d) || provNeg(neg(d))) {
					bad = true
				}
			}
			m[t] = at(init, t.a[1], t.k)
			return false
		}
		return true
	})
	if bad {
		return nil
	}
	r := newSubst(m).do(v)
	if occurs(r, x) {
		return nil
	}
	return r
}
