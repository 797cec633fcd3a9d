package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something that happened while a function was summarised.
type Event struct {
	kind  string // store, append, index, make, ext, unk, rand
	fn    *ssa.Function
	pos   token.Pos
	s     string
	t     []*Term
	facts []*Term
	iters []*Term
	ok    bool
}

// Ev evaluates SSA functions over the term domain.
type Ev struct {
	prog  *ssa.Program
	mine  map[*ssa.Package]bool
	log   []Event
	iters []*Term

	stack  []*frame
	cfgs   map[*ssa.Function]*cfg
	gmem   map[*Term]*Term
	gvar   map[*ssa.Global]bool // globals written outside of init
	capped map[*Term]bool
	steps  int
	lsrc   map[*Term][]*Term // loop objects: the pointers they stand for
	calls  map[string]int
	noinl  map[*ssa.Function]bool
	hook   map[*ssa.Function]func(st *State, args []*Term) *Term

	maxUnroll int // unroll loops of at most so many iterations
	maxRec    int // inline so many nested calls of a function
	choose    func(bound *Term) *Term
	failDraw  bool // draws of integers fail
	failed    int  // draws that failed
	failIO    bool // reads, writes and random draws may fail
}

type frame struct {
	fn   *ssa.Function
	free []*Term
	cf   *cfg
	pos  token.Pos
	rets []*State
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type cfg struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop // by header
	in    map[*ssa.BasicBlock]*loop // innermost loop
	bad   bool
}

func newCfg(fn *ssa.Function) *cfg {
	c := &cfg{loops: map[*ssa.BasicBlock]*loop{}, in: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		num[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if num[s] > num[b] {
				continue
			}
			if !s.Dominates(b) {
				c.bad = true
				continue
			}
			l := c.loops[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				c.loops[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] || !seen[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, b := range c.rpo {
		var best *loop
		for _, l := range c.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		c.in[b] = best
	}
	for _, l := range c.loops {
		for _, m := range c.loops {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	return c
}

func (ev *Ev) emit(e Event) {
	if len(ev.stack) > 0 {
		f := ev.stack[len(ev.stack)-1]
		e.fn = f.fn
		if e.pos == 0 {
			e.pos = f.pos
		}
	}
	e.iters = append([]*Term(nil), ev.iters...)
	ev.log = append(ev.log, e)
}

func (ev *Ev) unk(k Kind, why string, a ...*Term) *Term {
	ev.emit(Event{kind: "unk", s: why})
	return app("unk", k, why, a...)
}

func (ev *Ev) fresh() string {
	freshN++
	return strconv.Itoa(freshN)
}

func (ev *Ev) alloc(T types.Type, st *State, v *Term) *Term {
	p := app("alloc", KPtr, "a"+ev.fresh(), ev.iters...)
	allocType[p.s] = T
	ptrElem[p] = T
	st.mem.set(p, v)
	return p
}

var allocType = map[string]types.Type{}

// newArray allocates an array with the given content and returns a slice.
func (ev *Ev) newSlice(st *State, elem types.Type, content *Term) *Term {
	p := app("alloc", KPtr, "a"+ev.fresh(), ev.iters...)
	st.mem.set(p, content)
	sliceElem[p.s] = elem
	return mkSl(p, num(0), lenT(content))
}

var sliceElem = map[string]types.Type{}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// ---------------------------------------------------------------------------
// merging

func (ev *Ev) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if !s.dead {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	cnt := map[*Term]int{}
	for _, s := range live {
		for _, f := range s.facts {
			cnt[f]++
		}
	}
	n := len(live)
	var common []*Term
	for _, f := range live[0].facts {
		if cnt[f] == n {
			common = append(common, f)
		}
	}
	rel := make([]*Term, n)
	for i, s := range live {
		var r []*Term
		for _, f := range s.facts {
			if cnt[f] != n {
				r = append(r, f)
			}
		}
		rel[i] = and(r...)
	}
	out := &State{env: map[ssa.Value]*Term{}, mem: live[0].mem.copy(), facts: common}
	cover := or(rel...)
	gate := func(vals []*Term) *Term { return gateVals(rel, vals) }
	vals := make([]*Term, n)
	for k, v := range live[0].env {
		same, all := true, true
		vals[0] = v
		for i := 1; i < n; i++ {
			x, ok := live[i].env[k]
			if !ok {
				all = false
				break
			}
			vals[i] = x
			same = same && x == v
		}
		if !all {
			continue
		}
		if same {
			out.env[k] = v
		} else {
			out.env[k] = gate(vals)
		}
	}
	roots := map[*Term]bool{}
	for _, s := range live[1:] {
		diff(live[0].mem, s.mem, func(r *Term) { roots[r] = true })
	}
	for r := range roots {
		have := 0
		same := true
		var first *Term
		for i, s := range live {
			v, ok := s.mem.get(r)
			if !ok {
				vals[i] = nil
				continue
			}
			have++
			vals[i] = v
			if first == nil {
				first = v
			} else if v != first {
				same = false
			}
		}
		if have < n && !(r.op == "alloc" || r.op == "lobj") {
			for i := range vals {
				if vals[i] == nil {
					if v := live[i].famLoad(r); v != nil {
						vals[i] = v
					} else if r.op == "back" {
						vals[i] = elems(r.a[0])
					} else if r.op == "rpos" {
						vals[i] = num(0)
					} else if r.op == "wout" {
						vals[i] = tEmpty
					} else if T := ptrElem[r]; T != nil {
						vals[i] = defaultVal(r, T)
					} else {
						vals[i] = intern("deref", first.k, "", []*Term{r})
					}
					if vals[i] != first {
						same = false
					}
				}
			}
			have = n
		}
		if same {
			out.mem.set(r, first)
			continue
		}
		if have == n {
			out.mem.set(r, gate(vals))
			continue
		}
		var rr, vv []*Term
		for i := range vals {
			if vals[i] != nil {
				rr = append(rr, rel[i])
				vv = append(vv, vals[i])
			}
		}
		out.mem.set(r, gateVals(rr, vv))
	}
	// results of returns
	for j := range live[0].ret {
		for i := range live {
			vals[i] = live[i].ret[j]
		}
		out.ret = append(out.ret, gate(vals))
	}
	// families
	nf := len(live[0].fam)
	for _, s := range live {
		m := 0
		for m < nf && m < len(s.fam) && s.fam[m].root == live[0].fam[m].root && s.fam[m].val == live[0].fam[m].val {
			m++
		}
		nf = m
	}
	out.fam = append(out.fam, live[0].fam[:nf]...)
	for i, s := range live {
		for _, f := range s.fam[nf:] {
			if rootOf(f.root).op != "alloc" && rootOf(f.root).op != "lobj" {
				var def *Term
				if f.root.op == "back" {
					def = elems(f.root.a[0])
				} else if T := ptrElem[f.root]; T != nil {
					def = defaultVal(f.root, T)
				}
				if def != nil && def.k == f.val.k {
					f.val = ite(rel[i], f.val, def)
				}
			}
			out.fam = append(out.fam, f)
		}
	}
	out.defers = live[0].defers
	for _, s := range live[1:] {
		if len(s.defers) > len(out.defers) {
			out.defers = s.defers
		}
	}
	out.assume(cover)
	return out
}

func gateVals(rel, vals []*Term) *Term {
	var gv []*Term
	var gr []*Term
	for i, v := range vals {
		found := false
		for j := range gv {
			if gv[j] == v {
				gr[j] = or(gr[j], rel[i])
				found = true
			}
		}
		if !found {
			gv = append(gv, v)
			gr = append(gr, rel[i])
		}
	}
	size := func(t *Term) int {
		if t.op == "or" || t.op == "and" {
			return len(t.a)
		}
		return 1
	}
	for len(gv) > 1 {
		// the most complex condition becomes the default
		b := 0
		for j := range gv {
			if size(gr[j]) >= size(gr[b]) {
				b = j
			}
		}
		last := len(gv) - 1
		gv[b], gv[last] = gv[last], gv[b]
		gr[b], gr[last] = gr[last], gr[b]
		r := gv[last]
		for j := last - 1; j >= 0; j-- {
			r = ite(gr[j], gv[j], r)
		}
		return r
	}
	return gv[0]
}

// ---------------------------------------------------------------------------
// functions

const maxDepth = 40

// call evaluates fn on args; st is updated in place.
func (ev *Ev) call(fn *ssa.Function, args, free []*Term, st *State) *Term {
	depth := 0
	for _, f := range ev.stack {
		if f.fn == fn {
			depth++
		}
	}
	if depth > ev.maxRec {
		return ev.rcall(fn, args, st)
	}
	if len(fn.Blocks) == 0 || len(ev.stack) > maxDepth {
		return ev.unkCall(fn.String(), fn.Signature, args, st)
	}
	cf := ev.cfgs[fn]
	if cf == nil {
		cf = newCfg(fn)
		ev.cfgs[fn] = cf
	}
	if cf.bad {
		return ev.unkCall(fn.String(), fn.Signature, args, st)
	}
	fr := &frame{fn: fn, free: free, cf: cf, pos: fn.Pos()}
	ev.stack = append(ev.stack, fr)
	cs := &State{env: map[ssa.Value]*Term{}, mem: st.mem, fam: st.fam, facts: st.facts, sm: st.sm}
	for i, p := range fn.Params {
		cs.env[p] = args[i]
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			ev.noteElem(args[i], pt.Elem())
		}
	}
	ev.region(fr, nil, fn.Blocks[0], cs)
	m := ev.merge(fr.rets)
	ev.stack = ev.stack[:len(ev.stack)-1]
	if m == nil {
		st.dead = true
		return tNil
	}
	st.mem, st.fam, st.facts, st.sm = m.mem, m.fam, m.facts, m.sm
	st.activate()
	return mkTuple(fn.Signature.Results(), m.ret)
}

func mkTuple(res *types.Tuple, vals []*Term) *Term {
	switch res.Len() {
	case 0:
		return tNil
	case 1:
		return vals[0]
	}
	return intern("tuple", KTuple, "", append([]*Term(nil), vals...))
}

func (ev *Ev) rcall(fn *ssa.Function, args []*Term, st *State) *Term {
	ev.emit(Event{kind: "unk", s: "recursion of " + fn.String()})
	var a []*Term
	for i, x := range args {
		a = append(a, ev.snapshot(x, fn.Params[i].Type(), st, 2))
	}
	var vals []*Term
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, app("rcall", kindOf(res.At(i).Type()), fn.String()+":"+strconv.Itoa(i), a...))
	}
	return mkTuple(res, vals)
}

// snapshot replaces pointers and slices by what they point to.
func (ev *Ev) snapshot(x *Term, T types.Type, st *State, d int) *Term {
	if d == 0 {
		return x
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return st.slContent(x)
	case *types.Pointer:
		if x.op == "nil" {
			return x
		}
		ev.noteElem(x, u.Elem())
		return app("box", KOther, "", st.load(x, u.Elem()))
	case *types.Interface:
		if x.op == "iface" {
			if IT := ifaceType[x.s]; IT != nil {
				return app("iface", KIface, x.s, ev.snapshot(x.a[0], IT, st, d-1))
			}
		}
	}
	return x
}

func (ev *Ev) unkCall(name string, sig *types.Signature, args []*Term, st *State) *Term {
	ev.emit(Event{kind: "unk", s: "call of " + name})
	return ev.opaqueCall(name, sig, args, st, true)
}

// opaqueCall is an uninterpreted function of everything reachable from args.
func (ev *Ev) opaqueCall(name string, sig *types.Signature, args []*Term, st *State, havoc bool) *Term {
	var ts []types.Type
	if r := sig.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	var a []*Term
	for i, x := range args {
		if i < len(ts) {
			a = append(a, ev.snapshot(x, ts[i], st, 3))
		} else {
			a = append(a, x)
		}
	}
	var vals []*Term
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, app("unk", kindOf(res.At(i).Type()), name+":"+strconv.Itoa(i), a...))
	}
	if havoc {
		for i, x := range args {
			if i >= len(ts) {
				break
			}
			switch u := ts[i].Underlying().(type) {
			case *types.Pointer:
				if x.op != "nil" {
					ev.noteElem(x, u.Elem())
					st.store(x, app("unk", kindOf(u.Elem()), name+":p"+strconv.Itoa(i), a...), u.Elem())
					ev.emit(Event{kind: "store", t: []*Term{x}, s: "unknown call"})
				}
			case *types.Slice:
				b := slBase(x)
				if b.op != "nil" {
					st.setContent(b, app("unk", KSeq, name+":p"+strconv.Itoa(i), a...))
					ev.emit(Event{kind: "store", t: []*Term{b}, s: "unknown call"})
				}
			case *types.Interface:
				// it may write to or read from what it is given
				if T := ifaceType[x.s]; x.op == "iface" && T != nil && x.a[0].k == KPtr && x.a[0].op != "nil" {
					if E := deref(T); E != T {
						ev.noteElem(x.a[0], E)
						st.store(x.a[0], app("unk", kindOf(E), name+":p"+strconv.Itoa(i), a...), E)
						ev.emit(Event{kind: "store", t: []*Term{x.a[0]}, s: "unknown call"})
					}
				}
				if x.op == "iface" && x.a[0].k == KSlice {
					if b := slBase(x.a[0]); b.op != "nil" {
						st.setContent(b, app("unk", KSeq, name+":p"+strconv.Itoa(i), a...))
						ev.emit(Event{kind: "store", t: []*Term{b}, s: "unknown call"})
					}
				}
				w := intern("wout", KPtr, "", []*Term{x})
				st.mem.set(w, app("unk", KSeq, name+":p"+strconv.Itoa(i), a...))
			}
		}
	}
	return mkTuple(res, vals)
}

func (ev *Ev) noteElem(p *Term, T types.Type) {
	if p.op == "ite" {
		ev.noteElem(p.a[1], T)
		ev.noteElem(p.a[2], T)
		return
	}
	setElem(p, T)
}

// region evaluates the blocks of a loop body, or of a whole function, once.
func (ev *Ev) region(fr *frame, ctx *loop, start *ssa.BasicBlock, st *State) (back, exits []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	deliver := func(e edge) {
		if e.st.dead {
			return
		}
		if ctx != nil {
			if e.to == ctx.head {
				back = append(back, e)
				return
			}
			if !ctx.blocks[e.to] {
				exits = append(exits, e)
				return
			}
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range fr.cf.rpo {
		if ctx != nil && !ctx.blocks[b] {
			continue
		}
		var cur *State
		if b == start {
			cur = st
		} else {
			in := pending[b]
			if len(in) == 0 {
				continue
			}
			cur = ev.joinEdges(fr, b, in)
			if cur == nil {
				continue
			}
		}
		if l := fr.cf.loops[b]; l != nil && l != ctx {
			for _, e := range ev.evalLoop(fr, l, cur, 0) {
				deliver(e)
			}
			continue
		}
		ev.block(fr, b, cur, deliver)
	}
	return
}

func (ev *Ev) mergeEdges(fr *frame, b *ssa.BasicBlock, in []edge) *State {
	var sts []*State
	for _, e := range in {
		s := e.st.copy()
		ev.setPhis(fr, b, e.from, e.st, s)
		sts = append(sts, s)
	}
	return ev.merge(sts)
}

// joinEdges is mergeEdges for edges which are not used otherwise.
func (ev *Ev) joinEdges(fr *frame, b *ssa.BasicBlock, in []edge) *State {
	if len(in) != 1 {
		return ev.mergeEdges(fr, b, in)
	}
	st := in[0].st
	t := &State{env: map[ssa.Value]*Term{}}
	ev.setPhis(fr, b, in[0].from, st, t)
	for k, v := range t.env {
		st.env[k] = v
	}
	return st
}

func (ev *Ev) setPhis(fr *frame, b, from *ssa.BasicBlock, src, dst *State) {
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
		}
	}
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		dst.env[p] = ev.get(fr, src, p.Edges[k])
	}
}

func (ev *Ev) block(fr *frame, b *ssa.BasicBlock, st *State, deliver func(edge)) {
	st.activate()
	for _, in := range b.Instrs {
		if p := in.Pos(); p != 0 {
			fr.pos = p
		}
		ev.steps++
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			deliver(edge{b, b.Succs[0], st})
			return
		case *ssa.If:
			c := st.simp(ev.get(fr, st, x.Cond))
			switch c.op {
			case "true":
				deliver(edge{b, b.Succs[0], st})
				return
			case "false":
				deliver(edge{b, b.Succs[1], st})
				return
			}
			s1, s2 := st.copy(), st.copy()
			s1.assume(c)
			s2.assume(not(c))
			deliver(edge{b, b.Succs[0], s1})
			deliver(edge{b, b.Succs[1], s2})
			return
		case *ssa.Return:
			st.ret = nil
			for _, r := range x.Results {
				st.ret = append(st.ret, ev.get(fr, st, r))
			}
			fr.rets = append(fr.rets, st)
			return
		case *ssa.Panic:
			ev.emit(Event{kind: "panic", facts: st.facts})
			return
		default:
			ev.instr(fr, st, in)
			if st.dead {
				return
			}
		}
	}
}

var tErr = intern("error", KIface, "", nil)

func (ev *Ev) get(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return ev.globTerm(x)
	case *ssa.Function:
		return app("fn", KFunc, funcName(x))
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				if i < len(fr.free) {
					return fr.free[i]
				}
				return ev.unk(kindOf(x.Type()), "free variable")
			}
		}
	case *ssa.Builtin:
		return app("builtin", KFunc, x.Name())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "undefined %s in %s\n", v, fr.fn)
	}
	return ev.unk(kindOf(v.Type()), "undefined "+v.Name())
}

var fnByName = map[string]*ssa.Function{}

func funcName(f *ssa.Function) string {
	n := f.String()
	fnByName[n] = f
	return n
}

func (ev *Ev) globTerm(g *ssa.Global) *Term {
	p := app("glob", KPtr, g.String())
	ptrElem[p] = g.Type().(*types.Pointer).Elem()
	return p
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return bytesT(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return constK(KInt, n)
	}
	if kindOf(c.Type()) == KInt {
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(i.ExactString(), 10)
			return constK(KInt, n)
		}
	}
	return app("fconst", KOther, c.Value.ExactString())
}

func elemOf(T types.Type) types.Type {
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

// wrap models the overflow of the small unsigned types.
func wrap(T types.Type, v *Term) *Term {
	if b, ok := T.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return conv("u8", v)
		case types.Uint16:
			return conv("u16", v)
		}
	}
	return v
}

func (ev *Ev) instr(fr *frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		T := x.Type().(*types.Pointer).Elem()
		st.env[x] = ev.alloc(T, st, zeroVal(T))
	case *ssa.UnOp:
		st.env[x] = ev.unop(fr, st, x)
	case *ssa.BinOp:
		st.env[x] = ev.binop(st, x, ev.get(fr, st, x.X), ev.get(fr, st, x.Y))
	case *ssa.Store:
		p, v := ev.get(fr, st, x.Addr), ev.get(fr, st, x.Val)
		if q := ev.nonnil(st, p); q != p {
			ev.noteElem(q, x.Val.Type())
			p = q
		}
		if st.dead {
			return
		}
		ev.emit(Event{kind: "store", pos: x.Pos(), t: []*Term{p, v}, facts: st.facts})
		st.store(p, v, x.Val.Type())
	case *ssa.FieldAddr:
		p := ev.get(fr, st, x.X)
		T := x.X.Type().Underlying().(*types.Pointer).Elem()
		ev.noteElem(p, T)
		r := pf(p, x.Field)
		ev.noteElem(r, T.Underlying().(*types.Struct).Field(x.Field).Type())
		st.env[x] = r
	case *ssa.Field:
		st.env[x] = fldK(ev.get(fr, st, x.X), x.Field, x.X.Type())
	case *ssa.IndexAddr:
		b, i := ev.get(fr, st, x.X), st.simp(ev.get(fr, st, x.Index))
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ev.noteElem(b, pt.Elem())
			a := pt.Elem().Underlying().(*types.Array)
			ev.index(st, i, num(a.Len()), x.Pos())
			r := pi(b, i)
			ev.noteElem(r, a.Elem())
			st.env[x] = r
			return
		}
		ev.index(st, i, slLen(b), x.Pos())
		if b.op == "nil" {
			st.env[x] = tNil
			return
		}
		r := pi(slBase(b), add(slOff(b), i))
		if b.op == "ite" {
			r = ite(b.a[0], slicePtr(b.a[1], i), slicePtr(b.a[2], i))
		}
		ev.noteElem(r, elemOf(x.X.Type()))
		st.env[x] = r
	case *ssa.Index:
		s, i := ev.get(fr, st, x.X), ev.get(fr, st, x.Index)
		ev.index(st, i, lenT(s), x.Pos())
		st.env[x] = at(s, i, kindOf(x.Type()))
	case *ssa.Slice:
		st.env[x] = ev.slice(fr, st, x)
	case *ssa.MakeSlice:
		n := ev.get(fr, st, x.Len)
		E := elemOf(x.Type())
		ev.emit(Event{kind: "make", pos: x.Pos(), t: []*Term{n, ev.get(fr, st, x.Cap)}, facts: st.facts, s: x.Type().String()})
		st.env[x] = ev.newSlice(st, E, mkRep(n, newIter("z", nil), lit(zeroVal(E))))
		if n.isConst() && n.s == "0" {
			st.env[x] = mkSl(st.env[x].a[0], num(0), num(0))
		}
	case *ssa.MakeMap:
		p := app("alloc", KPtr, "a"+ev.fresh(), ev.iters...)
		st.mem.set(p, intern("newmap", KMap, "", nil))
		st.env[x] = intern("mapobj", KMap, "", []*Term{p})
	case *ssa.MapUpdate:
		m := ev.get(fr, st, x.Map)
		k, v := ev.get(fr, st, x.Key), ev.get(fr, st, x.Value)
		if m.op == "mapobj" {
			ev.emit(Event{kind: "store", pos: x.Pos(), t: []*Term{m.a[0], v}})
			st.mem.set(m.a[0], intern("mupd", KMap, "", []*Term{st.mem.at(m.a[0]), k, v}))
		} else {
			p := intern("mapof", KPtr, "", []*Term{m})
			ev.emit(Event{kind: "store", pos: x.Pos(), t: []*Term{p, v}})
			old, ok := st.mem.get(p)
			if !ok {
				old = m
			}
			st.mem.set(p, intern("mupd", KMap, "", []*Term{old, k, v}))
		}
	case *ssa.Lookup:
		m, k := ev.get(fr, st, x.X), ev.get(fr, st, x.Index)
		if kindOf(x.X.Type()) == KSeq {
			ev.index(st, k, lenT(m), x.Pos())
			st.env[x] = at(m, k, KInt)
			return
		}
		c := m
		if m.op == "mapobj" {
			c = st.mem.at(m.a[0])
		} else if v, ok := st.mem.get(intern("mapof", KPtr, "", []*Term{m})); ok {
			c = v
		}
		E := x.X.Type().Underlying().(*types.Map).Elem()
		v := mget(c, k, kindOf(E))
		if x.CommaOk {
			st.env[x] = intern("tuple", KTuple, "", []*Term{v, mhas(c, k)})
		} else {
			st.env[x] = v
		}
	case *ssa.MakeInterface:
		v := ev.get(fr, st, x.X)
		st.env[x] = mkIface(x.X.Type(), v)
	case *ssa.ChangeInterface:
		st.env[x] = ev.get(fr, st, x.X)
	case *ssa.ChangeType:
		st.env[x] = ev.get(fr, st, x.X)
	case *ssa.Convert:
		st.env[x] = ev.convert(st, ev.get(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		b := ev.get(fr, st, x.X)
		st.env[x] = ev.unk(KPtr, "slice to array pointer", b)
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, ev.get(fr, st, y))
		}
		st.env[x] = app("closure", KFunc, funcName(x.Fn.(*ssa.Function)), b...)
	case *ssa.Extract:
		t := ev.get(fr, st, x.Tuple)
		st.env[x] = extract(t, x.Index, kindOf(x.Type()))
	case *ssa.TypeAssert:
		v := ev.get(fr, st, x.X)
		r := v
		ok := tTrue
		if v.op == "iface" {
			if types.IsInterface(x.AssertedType) {
				if T := ifaceType[v.s]; T != nil {
					ok = boolT(types.AssignableTo(T, x.AssertedType))
				}
			} else if v.s == x.AssertedType.String() {
				r = v.a[0]
			} else {
				ok = tFalse
				r = zeroVal(x.AssertedType)
			}
		} else {
			ok = patom("isa:"+x.AssertedType.String(), v)
			if !types.IsInterface(x.AssertedType) {
				r = app("asserted", kindOf(x.AssertedType), x.AssertedType.String(), v)
			}
		}
		if x.CommaOk {
			st.env[x] = intern("tuple", KTuple, "", []*Term{r, ok})
		} else {
			st.env[x] = r
		}
	case *ssa.Call:
		st.env[x] = ev.doCall(fr, st, &x.Call, x)
		if st.dead {
			return
		}
		st.activate()
	case *ssa.Defer:
		d := &deferred{call: &x.Call, pos: x}
		if !x.Call.IsInvoke() {
			d.fn = ev.get(fr, st, x.Call.Value)
		} else {
			d.fn = ev.get(fr, st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, ev.get(fr, st, a))
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			ev.callWith(fr, st, ds[i].call, ds[i].fn, ds[i].args)
		}
	case *ssa.Go:
		ev.emit(Event{kind: "unk", s: "goroutine"})
		ev.doCall(fr, st, &x.Call, nil)
	case *ssa.Range:
		st.env[x] = ev.unk(KOther, "range over map or string", ev.get(fr, st, x.X))
	case *ssa.Next:
		st.env[x] = intern("tuple", KTuple, "", []*Term{
			ev.unk(KBool, "next ok"), ev.unk(KOther, "next key"), ev.unk(KOther, "next value")})
	default:
		if v, ok := in.(ssa.Value); ok {
			st.env[v] = ev.unk(kindOf(v.Type()), fmt.Sprintf("%T", in))
		} else {
			ev.emit(Event{kind: "unk", s: fmt.Sprintf("%T", in)})
		}
	}
}

func slicePtr(b, i *Term) *Term {
	if b.op == "ite" {
		return ite(b.a[0], slicePtr(b.a[1], i), slicePtr(b.a[2], i))
	}
	if b.op == "nil" {
		return tNil
	}
	return pi(slBase(b), add(slOff(b), i))
}

func extract(t *Term, i int, k Kind) *Term {
	switch t.op {
	case "tuple":
		return t.a[i]
	case "ite":
		return ite(t.a[0], extract(t.a[1], i, k), extract(t.a[2], i, k))
	}
	return app("unk", k, "extract"+strconv.Itoa(i), t)
}

var ifaceType = map[string]types.Type{}

func mkIface(T types.Type, v *Term) *Term {
	ifaceType[T.String()] = T
	if v.op == "iface" && strings.HasPrefix(v.s, "hash:") {
		return v
	}
	if v.op == "ite" && (v.a[1].op == "nil") != (v.a[2].op == "nil") {
		// keep nil pointers in interfaces distinct from nil interfaces
		return intern("iface", KIface, T.String(), []*Term{v})
	}
	return intern("iface", KIface, T.String(), []*Term{v})
}

// index records an index obligation 0 <= i < n.
func (ev *Ev) index(st *State, i, n *Term, pos token.Pos) {
	i, n = st.simp(i), st.simp(n)
	ok := provNonneg(i) && provNeg(subT(i, n))
	ev.emit(Event{kind: "index", pos: pos, t: []*Term{i, n}, facts: st.facts, ok: ok})
	if !ok && ev.maxUnroll > 0 {
		st.assume(and(not(lt(i, num(0))), lt(i, n)))
	}
}

func (ev *Ev) slice(fr *frame, st *State, x *ssa.Slice) *Term {
	b := ev.get(fr, st, x.X)
	low := num(0)
	if x.Low != nil {
		low = ev.get(fr, st, x.Low)
	}
	var high *Term
	if x.High != nil {
		high = ev.get(fr, st, x.High)
	}
	bound := func(n *Term) {
		if high == nil {
			high = n
		}
		lo, hi := st.simp(low), st.simp(high)
		ok := provNonneg(lo) && provNonneg(subT(hi, lo)) && provNonneg(subT(st.simp(n), hi))
		ev.emit(Event{kind: "slice", pos: x.Pos(), t: []*Term{lo, hi, n}, facts: st.facts, ok: ok})
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		bound(lenT(b))
		return sub(b, low, subT(high, low))
	case *types.Pointer:
		ev.noteElem(b, u.Elem())
		a := u.Elem().Underlying().(*types.Array)
		bound(num(a.Len()))
		return mkSl(b, low, subT(high, low))
	}
	bound(slLen(b))
	r := reslice(b, low, high)
	if x.Max != nil && ev.get(fr, st, x.Max) == high {
		ev.capped[r] = true
	}
	return r
}

func reslice(b, low, high *Term) *Term {
	switch b.op {
	case "ite":
		return ite(b.a[0], reslice(b.a[1], low, high), reslice(b.a[2], low, high))
	case "nil":
		return b
	}
	return mkSl(slBase(b), add(slOff(b), low), subT(high, low))
}

func (ev *Ev) unop(fr *frame, st *State, x *ssa.UnOp) *Term {
	v := ev.get(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		T := x.Type()
		if g, ok := x.X.(*ssa.Global); ok {
			return ev.loadGlobal(st, g, v)
		}
		ev.noteElem(v, T)
		return ev.load(st, v, T)
	case token.NOT:
		return not(v)
	case token.SUB:
		if v.k == KInt {
			return neg(v)
		}
	case token.XOR:
		if v.isConst() {
			return addInt(neg(v), -1)
		}
		return app("compl", KInt, x.Type().String(), v)
	}
	return ev.unk(kindOf(x.Type()), "unop "+x.Op.String(), v)
}

// nilCond is the condition under which p is known to be nil.
func nilCond(p *Term) *Term {
	switch p.op {
	case "nil":
		return tTrue
	case "pf", "pi":
		return nilCond(p.a[0])
	case "ite":
		a, b := nilCond(p.a[1]), nilCond(p.a[2])
		if a == tFalse && b == tFalse {
			return tFalse
		}
		return ite(p.a[0], a, b)
	}
	return tFalse
}

// nonnil ends the paths on which p is nil, for the program panics there.
func (ev *Ev) nonnil(st *State, p *Term) *Term {
	c0 := nilCond(p)
	if c0 == tFalse {
		return p
	}
	c := st.simp(c0)
	if c == tFalse {
		return st.simp(p)
	}
	ev.emit(Event{kind: "panic", s: "nil dereference", t: []*Term{c}, facts: st.facts})
	if c == tTrue {
		st.dead = true
		return p
	}
	st.assume(not(c))
	return st.simp(p)
}

func (ev *Ev) load(st *State, p *Term, T types.Type) *Term {
	q := ev.nonnil(st, p)
	if q != p {
		ev.noteElem(q, T)
		p = q
	}
	ev.bringGlobal(st, rootOf(p))
	v := st.load(p, T)
	if v.op == "ite" {
		v = st.simp(v)
	}
	return v
}

func (ev *Ev) bringGlobal(st *State, p *Term) {
	if _, ok := st.mem.get(p); ok {
		return
	}
	if v, ok := ev.gmem[p]; ok {
		st.mem.set(p, v)
	}
}

func (ev *Ev) loadGlobal(st *State, g *ssa.Global, p *Term) *Term {
	ev.bringGlobal(st, p)
	return st.load(p, g.Type().(*types.Pointer).Elem())
}

func (ev *Ev) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	k := kindOf(x.X.Type())
	T := x.X.Type()
	switch x.Op {
	case token.EQL:
		return ev.equal(st, a, b, T)
	case token.NEQ:
		return not(ev.equal(st, a, b, T))
	}
	if k == KInt && a.k == KInt && b.k == KInt {
		switch x.Op {
		case token.ADD:
			return wrap(T, add(a, b))
		case token.SUB:
			return wrap(T, subT(a, b))
		case token.MUL:
			return wrap(T, mul(a, b))
		case token.QUO:
			return divT(a, b)
		case token.REM:
			return rem(a, b)
		case token.SHL:
			return wrap(T, mul(a, powT(num(2), b)))
		case token.SHR:
			if b.isConst() {
				return shr(a, b)
			}
			return shr(a, b)
		case token.AND:
			return band(a, b)
		case token.OR:
			return comm("bor", a, b)
		case token.XOR:
			return comm("bxor", a, b)
		case token.AND_NOT:
			if a.isConst() && b.isConst() {
				return constK(KInt, new(big.Int).AndNot(a.big(), b.big()))
			}
			return app("andnot", KInt, "", a, b)
		case token.LSS:
			return lt(a, b)
		case token.LEQ:
			return le(a, b)
		case token.GTR:
			return lt(b, a)
		case token.GEQ:
			return le(b, a)
		}
	}
	if k == KSeq {
		switch x.Op {
		case token.ADD:
			return cat(a, b)
		case token.LSS:
			return lt0(cmpSeq(a, b))
		case token.GTR:
			return lt0(cmpSeq(b, a))
		case token.LEQ:
			return not(lt0(cmpSeq(b, a)))
		case token.GEQ:
			return not(lt0(cmpSeq(a, b)))
		}
	}
	return ev.unk(kindOf(x.Type()), "binop "+x.Op.String(), a, b)
}

func cmpSeq(a, b *Term) *Term { return app("cmpseq", KInt, "", a, b) }

func comm(op string, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		if op == "bor" {
			r.Or(a.big(), b.big())
		} else {
			r.Xor(a.big(), b.big())
		}
		return constK(KInt, r)
	}
	if disjoint(a, b) || disjoint(b, a) {
		return add(a, b)
	}
	if a.isConst() && a.s == "0" {
		return b
	}
	if b.isConst() && b.s == "0" {
		return a
	}
	if op == "bor" && a == b {
		return a
	}
	if op == "bxor" && a == b {
		return num(0)
	}
	if b.id < a.id {
		a, b = b, a
	}
	t := app(op, KInt, "", a, b)
	return t
}

// disjoint tells whether b is a multiple of a power of two above a.
func disjoint(a, b *Term) bool {
	u := upper(a)
	if u == nil {
		return false
	}
	n := uint(u.BitLen())
	for _, m := range toPoly(b) {
		if m.c.Sign() < 0 || m.c.TrailingZeroBits() < n || !natural(m) {
			return false
		}
	}
	return true
}

func natural(m mono) bool {
	for _, f := range m.f {
		if !f.atom.nn && !f.atom.byt {
			return false
		}
	}
	return true
}

// upper bounds a sum of bytes with constant factors.
func upper(t *Term) *big.Int {
	u := new(big.Int)
	for _, m := range toPoly(t) {
		if m.c.Sign() < 0 || len(m.f) > 1 {
			return nil
		}
		x := new(big.Int).Set(m.c)
		if len(m.f) == 1 {
			if !m.f[0].atom.byt || m.f[0].exp != num(1) {
				return nil
			}
			x.Mul(x, big.NewInt(255))
		}
		u.Add(u, x)
	}
	return u
}

func (ev *Ev) equal(st *State, a, b *Term, T types.Type) *Term {
	k := kindOf(T)
	if k == KIface {
		return eqErr(a, b)
	}
	if k == KSeq {
		if _, ok := T.Underlying().(*types.Array); ok {
			return eqSeq(a, b)
		}
		return eqSeq(a, b)
	}
	return eq(a, b)
}

// eqErr compares interface values; errors without a name may be the same.
func eqErr(a, b *Term) *Term {
	if a.op == "ite" {
		return ite(a.a[0], eqErr(a.a[1], b), eqErr(a.a[2], b))
	}
	if b.op == "ite" {
		return ite(b.a[0], eqErr(a, b.a[1]), eqErr(a, b.a[2]))
	}
	if a == tErr && b.op != "nil" || b == tErr && a.op != "nil" {
		return intern("unk", KBool, "comparison of errors", []*Term{a, b})
	}
	return eq(a, b)
}

// eqSeq is the equality of two sequences, with the lengths compared first.
func eqSeq(a, b *Term) *Term {
	return eq(a, b)
}

func (ev *Ev) convert(st *State, v *Term, from, to types.Type) *Term {
	fk, tk := kindOf(from), kindOf(to)
	switch {
	case fk == KInt && tk == KInt:
		if b, ok := to.Underlying().(*types.Basic); ok {
			fb, _ := from.Underlying().(*types.Basic)
			if fb != nil && fb.Kind() == types.Uint8 && !v.isConst() {
				v.byt = true
			}
			switch b.Kind() {
			case types.Uint8:
				return conv("u8", v)
			case types.Uint16:
				if fb != nil && fb.Kind() == types.Uint8 {
					return v
				}
				return conv("u16", v)
			case types.Int8, types.Int16:
				return conv(b.Name(), v)
			}
			if v.isConst() && v.big().Sign() < 0 && b.Info()&types.IsUnsigned != 0 {
				switch b.Kind() {
				case types.Uint32:
					return conv("u32", v)
				default:
					return conv("u64", v)
				}
			}
		}
		return v
	case fk == KSlice && tk == KSeq:
		return st.slContent(v)
	case fk == KSeq && tk == KSlice:
		return ev.newSlice(st, types.Typ[types.Byte], v)
	case fk == tk:
		return v
	case fk == KInt && tk == KSeq:
		return app("runestr", KSeq, "", v)
	}
	return ev.unk(tk, "conversion", v)
}

func mhas(m, key *Term) *Term {
	switch m.op {
	case "newmap":
		return tFalse
	case "mupd":
		return or(eq(key, m.a[1]), mhas(m.a[0], key))
	case "mset":
		return mget(m, key, KBool)
	case "ite":
		return ite(m.a[0], mhas(m.a[1], key), mhas(m.a[2], key))
	}
	return patom("mhas", m, key)
}

// ---------------------------------------------------------------------------
// calls

func (ev *Ev) doCall(fr *frame, st *State, c *ssa.CallCommon, in ssa.Instruction) *Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ev.get(fr, st, a))
	}
	return ev.callWith(fr, st, c, ev.get(fr, st, c.Value), args)
}

func (ev *Ev) callWith(fr *frame, st *State, c *ssa.CallCommon, fv *Term, args []*Term) *Term {
	if c.IsInvoke() {
		return ev.invoke(st, c, fv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ev.builtin(st, b, c, args)
	}
	if f := c.StaticCallee(); f != nil {
		var free []*Term
		if fv.op == "closure" {
			free = fv.a
		}
		return ev.callFn(st, f, args, free)
	}
	return ev.dyn(st, c.Signature(), fv, args)
}

func (ev *Ev) dyn(st *State, sig *types.Signature, fv *Term, args []*Term) *Term {
	switch fv.op {
	case "fn", "closure":
		if f := fnByName[fv.s]; f != nil {
			return ev.callFn(st, f, args, fv.a)
		}
	case "ite":
		s1, s2 := st.copy(), st.copy()
		s1.assume(fv.a[0])
		s2.assume(not(fv.a[0]))
		var r1, r2 *Term
		if !s1.dead {
			r1 = ev.dyn(s1, sig, fv.a[1], args)
		}
		if !s2.dead {
			r2 = ev.dyn(s2, sig, fv.a[2], args)
		}
		return ev.join(st, s1, s2, r1, r2)
	}
	return ev.unkCall("function value", sig, args, st)
}

// join merges the two halves of a split call back into st.
func (ev *Ev) join(st, s1, s2 *State, r1, r2 *Term) *Term {
	if r1 == nil {
		r1 = tNil
	}
	if r2 == nil {
		r2 = tNil
	}
	s1.ret, s2.ret = []*Term{r1}, []*Term{r2}
	if r1.op == "tuple" && r2.op == "tuple" {
		s1.ret, s2.ret = r1.a, r2.a
	}
	m := ev.merge([]*State{s1, s2})
	if m == nil {
		st.dead = true
		return tNil
	}
	st.mem, st.fam, st.facts, st.sm = m.mem, m.fam, m.facts, m.sm
	if len(m.ret) == 1 {
		return m.ret[0]
	}
	return intern("tuple", KTuple, "", m.ret)
}

func (ev *Ev) callFn(st *State, f *ssa.Function, args, free []*Term) *Term {
	name := f.String()
	ev.calls[name]++
	if len(args) > 0 && args[0].op == "iface" && strings.HasPrefix(args[0].s, "hash:") && f.Signature.Recv() != nil {
		return ev.hashMethod(st, args[0], f.Name(), args[1:], f.Signature)
	}
	if m, ok := models[name]; ok {
		if r := m(ev, st, f.Signature, args); r != nil {
			return r
		}
		return ev.unkCall(name, f.Signature, args, st)
	}
	if h := ev.hook[f]; h != nil {
		if r := h(st, args); r != nil {
			return r
		}
	}
	if ev.noinl[f] {
		return ev.opaqueCall(name, f.Signature, args, st, true)
	}
	if ev.isMine(f) {
		return ev.call(f, args, free, st)
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 && f.Pkg == nil {
		return ev.call(f, args, free, st)
	}
	if inlineExt[name] {
		return ev.call(f, args, free, st)
	}
	ev.emit(Event{kind: "ext", s: name, t: args})
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "strings", "strconv", "bytes", "errors", "fmt", "math", "unicode", "math/bits", "encoding/hex", "unicode/utf8", "time":
			ev.emit(Event{kind: "unk", s: "call of " + name})
			return ev.opaqueCall(name, f.Signature, args, st, strings.HasPrefix(name, "fmt.F"))
		}
	}
	return ev.unkCall(name, f.Signature, args, st)
}

func (ev *Ev) isMine(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return ev.mine[f.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		if p := ev.prog.Package(o.Pkg()); p != nil {
			return ev.mine[p]
		}
	}
	return false
}

func (ev *Ev) invoke(st *State, c *ssa.CallCommon, recv *Term, args []*Term) *Term {
	switch recv.op {
	case "ite":
		s1, s2 := st.copy(), st.copy()
		s1.assume(recv.a[0])
		s2.assume(not(recv.a[0]))
		var r1, r2 *Term
		if !s1.dead {
			r1 = ev.invoke(s1, c, recv.a[1], args)
		}
		if !s2.dead {
			r2 = ev.invoke(s2, c, recv.a[2], args)
		}
		return ev.join(st, s1, s2, r1, r2)
	case "iface":
		if strings.HasPrefix(recv.s, "hash:") {
			return ev.hashMethod(st, recv, c.Method.Name(), args, c.Signature())
		}
		if T := ifaceType[recv.s]; T != nil {
			if f := ev.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name()); f != nil {
				if pt, ok := T.Underlying().(*types.Pointer); ok {
					ev.noteElem(recv.a[0], pt.Elem())
				}
				return ev.callFn(st, f, append([]*Term{recv.a[0]}, args...), nil)
			}
		}
	}
	name := c.Method.FullName()
	if m, ok := models["invoke "+name]; ok {
		if r := m(ev, st, c.Signature(), append([]*Term{recv}, args...)); r != nil {
			return r
		}
	}
	// an interface method of the module: an uninterpreted, pure function
	if p := c.Method.Pkg(); p != nil {
		if sp := ev.prog.Package(p); sp != nil && ev.mine[sp] {
			res := c.Signature().Results()
			var vals []*Term
			for i := 0; i < res.Len(); i++ {
				v := app("meth", kindOf(res.At(i).Type()), name+":"+strconv.Itoa(i), append([]*Term{recv}, args...)...)
				if isError(res.At(i).Type()) {
					v = ite(eq(v, tNil), tNil, tErr)
				}
				vals = append(vals, v)
			}
			ev.emit(Event{kind: "meth", s: name, t: append([]*Term{recv}, args...)})
			return mkTuple(res, vals)
		}
	}
	return ev.unkCall("invoke "+name, c.Signature(), args, st)
}

func isError(T types.Type) bool { return typeName(T) == "error" }

func (ev *Ev) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term) *Term {
	switch b.Name() {
	case "len", "cap":
		T := c.Args[0].Type()
		switch kindOf(T) {
		case KSlice:
			if b.Name() == "cap" {
				return ev.unk(KInt, "cap", args[0])
			}
			return st.simp(slLen(args[0]))
		case KSeq:
			return st.simp(lenT(args[0]))
		}
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			return num(pt.Elem().Underlying().(*types.Array).Len())
		}
		return ev.unk(KInt, "len", args[0])
	case "append":
		E := elemOf(c.Args[0].Type())
		var tail *Term
		if kindOf(c.Args[1].Type()) == KSeq {
			tail = args[1]
		} else {
			tail = st.slContent(args[1])
		}
		ev.emit(Event{kind: "append", t: []*Term{args[0], args[1]}, facts: st.facts, ok: ev.capped[args[0]]})
		head := st.slContent(args[0])
		if tail == tEmpty {
			return args[0]
		}
		return ev.newSlice(st, E, cat(head, tail))
	case "copy":
		dst := args[0]
		var src *Term
		if kindOf(c.Args[1].Type()) == KSeq {
			src = args[1]
		} else {
			src = st.slContent(args[1])
		}
		n, m := st.simp(slLen(dst)), st.simp(lenT(src))
		cnt := m
		switch {
		case n == m:
		case provNonneg(subT(n, m)):
		case provNonneg(subT(m, n)):
			cnt = n
			src = sub(src, num(0), n)
		default:
			cnt = ite(lt(n, m), n, m)
			src = sub(src, num(0), cnt)
		}
		ev.emit(Event{kind: "store", t: []*Term{slBase(dst), src}, s: "copy", facts: st.facts})
		ev.emit(Event{kind: "copy", t: []*Term{n, m}})
		ev.writeSlice(st, dst, num(0), src)
		return cnt
	case "panic":
		st.dead = true
		return tNil
	case "print", "println":
		return tNil
	case "delete":
		return ev.unk(KOther, "delete")
	case "recover":
		return tNil
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			if (b.Name() == "min") == true {
				r = ite(lt(x, r), x, r)
			} else {
				r = ite(lt(r, x), x, r)
			}
		}
		return r
	}
	return ev.unk(kindOf(c.Signature().Results()), "builtin "+b.Name(), args...)
}

// writeSlice overwrites dst[off:] with src.
func (ev *Ev) writeSlice(st *State, dst, off, src *Term) {
	if dst.op == "ite" {
		c := dst.a[0]
		for i, g := range []*Term{c, not(c)} {
			d := dst.a[1+i]
			if d.op == "nil" {
				continue
			}
			b := slBase(d)
			old := st.content(b)
			st.setContent(b, ite(g, splice(old, add(slOff(d), off), src), old))
		}
		return
	}
	b := slBase(dst)
	if b.op == "nil" || src == tEmpty {
		return
	}
	st.setContent(b, splice(st.content(b), add(slOff(dst), off), src))
}

var freshN int
