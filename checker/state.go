package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the abstract state at a program point: the values of the SSA
// registers, the contents of memory and the facts that hold on every path to
// the point.
type State struct {
	env    map[ssa.Value]*Term
	mem    *Mem
	fam    []fam
	facts  []*Term
	defers []*deferred
	ret    []*Term
	dead   bool
	sm     *simper
}

// fam is the contents of a family of objects, one per iteration of a loop
// that has been left: root(it...) holds val(it...).
type fam struct {
	root *Term
	its  []*Term
	trip []*Term
	val  *Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  ssa.Instruction
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: newMem()}
}

func (s *State) copy() *State {
	n := &State{dead: s.dead, sm: s.sm}
	n.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = s.mem.copy()
	n.fam = s.fam[:len(s.fam):len(s.fam)]
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return n
}

// assume adds a fact.
func (s *State) assume(c *Term) {
	c = s.simp(c)
	switch c.op {
	case "true":
		return
	case "false":
		s.dead = true
		return
	case "and":
		for _, x := range c.a {
			s.assume(x)
		}
		return
	}
	s.facts = append(s.facts[:len(s.facts):len(s.facts)], c)
	s.sm = nil
}

func (s *State) simp(t *Term) *Term {
	if len(s.facts) == 0 {
		return t
	}
	if s.sm == nil {
		s.sm = newSimper(s.facts)
	}
	return s.sm.do(t)
}

// activate makes the facts available to the arithmetic prover.
func (s *State) activate() {
	if s.sm == nil {
		s.sm = newSimper(s.facts)
	}
	curNN = s.sm.nn
}

// simper simplifies terms under a set of facts.
type simper struct {
	keys  map[*Term]*Term
	kfv   []uint64
	bools bool
	eqs   bool
	nn    []*Term
	memo  map[*Term]*Term
}

func newSimper(facts []*Term) *simper {
	s := &simper{keys: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	set := func(k, v *Term) {
		if _, ok := s.keys[k]; ok {
			return
		}
		s.keys[k] = v
		s.kfv = append(s.kfv, k.fv)
	}
	for _, f := range facts {
		if f.op == "not" {
			set(f.a[0], tFalse)
		} else {
			set(f, tTrue)
		}
	}
	for _, f := range facts {
		switch {
		case f.op == "eq0" && f.a[0].k == KInt:
			p := f.a[0]
			s.nn = append(s.nn, p, neg(p))
			// orient the equation towards the oldest terms
			var best *Term
			for _, m := range toPoly(p) {
				if len(m.f) != 1 || m.f[0].exp.s != "1" || (m.c.String() != "1" && m.c.String() != "-1") {
					continue
				}
				a := m.f[0].atom
				switch a.op {
				case "len", "sym", "fld", "at", "restlen", "bitlen", "bdec":
				default:
					continue
				}
				if best == nil || a.id > best.id {
					best = a
				}
			}
			if best != nil {
				if c, rest, ok := coefOf(p, best); ok && c.isConst() {
					v := rest
					if c.s == "1" {
						v = neg(rest)
					}
					if !occurs2(v, best) {
						set(best, v)
						s.eqs = true
					}
				}
			}
		case f.op == "lt0":
			s.nn = append(s.nn, addInt(neg(f.a[0]), -1))
		case f.op == "not" && f.a[0].op == "lt0":
			s.nn = append(s.nn, f.a[0].a[0])
		case f.op == "not" && f.a[0].op == "eq0" && f.a[0].a[0].k == KInt:
			p := f.a[0].a[0]
			if nonneg(p, 2) {
				s.nn = append(s.nn, addInt(p, -1))
			} else if nonneg(neg(p), 2) {
				s.nn = append(s.nn, addInt(neg(p), -1))
			}
		case (f.op == "eq") && f.a[0].k != KBool && !f.a[0].k.isGroup() && f.a[0].op != "nil" && f.a[1].op != "nil":
			// equal sequences, pointers: not rewritten
		}
	}
	return s
}

func occurs2(t, x *Term) bool {
	r := false
	walk(t, func(y *Term) bool {
		if y == x {
			r = true
		}
		return !r
	})
	return r
}

func (s *simper) relevant(t *Term) bool {
	if !t.ite && !s.eqs {
		return false
	}
	for _, f := range s.kfv {
		if f&^t.fv == 0 {
			return true
		}
	}
	return t.ite && len(s.nn) > 0
}

func (s *simper) do(t *Term) *Term {
	for i := 0; i < 4; i++ {
		n := s.do1(t)
		if n == t {
			return t
		}
		t = n
	}
	return t
}

func (s *simper) do1(t *Term) *Term {
	if r, ok := s.memo[t]; ok {
		return r
	}
	if r, ok := s.keys[t]; ok {
		return r
	}
	if !s.relevant(t) || len(t.a) == 0 {
		return t
	}
	r := s.step(t)
	s.memo[t] = r
	return r
}

func (s *simper) step(t *Term) *Term {
	switch t.op {
	case "sum", "prod", "rep", "forall":
		n := s.do1(t.a[0])
		it, body := openB(t)
		b := s.do1(body)
		if n == t.a[0] && b == body {
			return t
		}
		return closeB(t.op, t.k, n, it, b)
	case "mu":
		m := (len(t.a) - 1) / 2
		a := append([]*Term(nil), t.a...)
		for i := 0; i <= m; i++ {
			a[i] = s.do1(a[i])
		}
		return intern("mu", t.k, t.s, a)
	case "lt0", "eq0":
		if t.a[0].k == KInt {
			old := curNN
			curNN = s.nn
			defer func() { curNN = old }()
			p := s.do1(t.a[0])
			if t.op == "lt0" {
				return lt0(p)
			}
			return eq0(p)
		}
	case "ite":
		c := s.do1(t.a[0])
		switch c.op {
		case "true":
			return s.do1(t.a[1])
		case "false":
			return s.do1(t.a[2])
		}
		return ite(c, s.do1(t.a[1]), s.do1(t.a[2]))
	}
	changed := false
	a := make([]*Term, len(t.a))
	for i, x := range t.a {
		a[i] = s.do1(x)
		changed = changed || a[i] != x
	}
	if !changed {
		return t
	}
	return rebuild(t.op, t.k, t.s, a)
}

// ---------------------------------------------------------------------------
// types

const (
	rist = "github.com/bwesterb/go-ristretto."
	bn   = "github.com/dusk-network/bn256."
)

func typeName(T types.Type) string {
	if n, ok := types.Unalias(T).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func kindOf(T types.Type) Kind {
	switch typeName(T) {
	case rist + "Scalar":
		return KSc
	case rist + "Point":
		return KPt
	case bn + "G1":
		return KG1
	case bn + "G2":
		return KG2
	case bn + "GT":
		return KGT
	case "math/big.Int":
		return KInt
	case "bytes.Buffer", "bytes.Reader", "strings.Builder":
		return KSeq
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return KInt
		case u.Info()&types.IsBoolean != 0:
			return KBool
		case u.Info()&types.IsString != 0:
			return KSeq
		case u.Kind() == types.UnsafePointer:
			return KPtr
		}
		return KOther
	case *types.Slice:
		return KSlice
	case *types.Array:
		return KSeq
	case *types.Struct:
		return KStruct
	case *types.Pointer:
		return KPtr
	case *types.Interface:
		return KIface
	case *types.Map:
		return KMap
	case *types.Signature:
		return KFunc
	case *types.Tuple:
		return KTuple
	}
	return KOther
}

func isStruct(T types.Type) (*types.Struct, bool) {
	if kindOf(T) != KStruct {
		return nil, false
	}
	s, ok := T.Underlying().(*types.Struct)
	return s, ok
}

func zeroVal(T types.Type) *Term {
	switch k := kindOf(T); k {
	case KInt, KSc:
		return numK(k, 0)
	case KBool:
		return tFalse
	case KPt, KG1, KG2, KGT:
		return intern("zeroval", k, "", nil)
	case KSeq:
		if a, ok := T.Underlying().(*types.Array); ok {
			return mkRep(num(a.Len()), newIter("z", nil), lit(zeroVal(a.Elem())))
		}
		return tEmpty
	case KStruct:
		s := T.Underlying().(*types.Struct)
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			f = append(f, zeroVal(s.Field(i).Type()))
		}
		return mkStruct(f...)
	}
	return tNil
}

func mkStruct(f ...*Term) *Term {
	// eta
	if len(f) > 0 {
		var src *Term
		good := true
		for i, x := range f {
			if x.op != "fld" || x.s != strconv.Itoa(i) || (src != nil && x.a[0] != src) {
				good = false
				break
			}
			src = x.a[0]
		}
		if good && structN[src] == len(f) {
			return src
		}
	}
	return intern("struct", KStruct, "", append([]*Term(nil), f...))
}

// structN records the number of fields of symbolic structs.
var structN = map[*Term]int{}

// ptrElem records the types that root pointers point to.
var ptrElem = map[*Term]types.Type{}

func setElem(p *Term, T types.Type) *Term {
	if p.op == "ite" {
		setElem(p.a[1], T)
		setElem(p.a[2], T)
		return p
	}
	if p.op == "nil" {
		return p
	}
	if _, ok := ptrElem[p]; !ok {
		ptrElem[p] = T
	}
	return p
}

// ---------------------------------------------------------------------------
// slices

func mkSl(base, off, n *Term) *Term {
	if base.op == "back" && off.isConst() && off.s == "0" && n == lenT(elems(base.a[0])) {
		return base.a[0]
	}
	return intern("sl", KSlice, "", []*Term{base, off, n})
}

func elems(t *Term) *Term { return intern("elems", KSeq, "", []*Term{t}) }

func slBase(t *Term) *Term {
	switch t.op {
	case "sl":
		return t.a[0]
	case "nil":
		return tNil
	case "ite":
		return ite(t.a[0], slBase(t.a[1]), slBase(t.a[2]))
	}
	return intern("back", KPtr, "", []*Term{t})
}

func slOff(t *Term) *Term {
	switch t.op {
	case "sl":
		return t.a[1]
	case "ite":
		return ite(t.a[0], slOff(t.a[1]), slOff(t.a[2]))
	}
	return num(0)
}

func slLen(t *Term) *Term {
	switch t.op {
	case "sl":
		return t.a[2]
	case "nil":
		return num(0)
	case "ite":
		return ite(t.a[0], slLen(t.a[1]), slLen(t.a[2]))
	}
	return lenT(elems(t))
}

// ---------------------------------------------------------------------------
// memory

func pf(p *Term, i int) *Term {
	if p.op == "ite" {
		return ite(p.a[0], pf(p.a[1], i), pf(p.a[2], i))
	}
	return intern("pf", KPtr, strconv.Itoa(i), []*Term{p})
}

func pi(p, idx *Term) *Term {
	if p.op == "ite" {
		return ite(p.a[0], pi(p.a[1], idx), pi(p.a[2], idx))
	}
	return intern("pi", KPtr, "", []*Term{p, idx})
}

func fldK(x *Term, i int, T types.Type) *Term {
	st := T.Underlying().(*types.Struct)
	if x.op != "struct" && x.op != "ite" {
		structN[x] = st.NumFields()
	}
	if x.op == "nil" {
		return zeroVal(st.Field(i).Type())
	}
	return fld(x, i, kindOf(st.Field(i).Type()))
}

// load reads *p, a value of type T.
func (s *State) load(p *Term, T types.Type) *Term {
	switch p.op {
	case "ite":
		return ite(p.a[0], s.load(p.a[1], T), s.load(p.a[2], T))
	case "pf":
		i, _ := strconv.Atoi(p.s)
		ST := ptrElem[p.a[0]]
		if ST == nil {
			return intern("unk", kindOf(T), "untyped pointer", []*Term{p})
		}
		return fldK(s.load(p.a[0], ST), i, ST)
	case "pi":
		return at(s.content(p.a[0]), p.a[1], kindOf(T))
	}
	if v, ok := s.mem.get(p); ok {
		return v
	}
	if v := s.famLoad(p); v != nil {
		return v
	}
	return defaultVal(p, T)
}

func defaultVal(p *Term, T types.Type) *Term {
	if p.op == "back" {
		return elems(p.a[0])
	}
	if p.op == "nil" {
		return intern("unk", kindOf(T), "nil dereference", nil)
	}
	if p.op == "glob" && isError(T) && !strings.Contains(p.s, "dusk-crypto") {
		return intern("error", KIface, p.s, nil) // of a library: distinct and never nil
	}
	if a, ok := T.Underlying().(*types.Array); ok && kindOf(T) == KSeq {
		return intern("arr", KSeq, "deref:"+strconv.FormatInt(a.Len(), 10), []*Term{p})
	}
	return intern("deref", kindOf(T), "", []*Term{p})
}

func (s *State) famLoad(p *Term) *Term {
	for i := len(s.fam) - 1; i >= 0; i-- {
		f := s.fam[i]
		b := map[*Term]*Term{}
		if !match(f.root, p, f.its, b) {
			continue
		}
		return newSubst(b).do(f.val)
	}
	return nil
}

// match finds values of the variables that make the pattern equal to t.
func match(pat, t *Term, vars []*Term, b map[*Term]*Term) bool {
	for _, v := range vars {
		if pat == v {
			if x, ok := b[v]; ok {
				return x == t
			}
			b[v] = t
			return true
		}
	}
	if pat == t {
		free := false
		for _, v := range vars {
			if occurs(pat, v) {
				free = true
			}
		}
		return !free
	}
	if pat.k == KInt && t.k == KInt && pat.op == "poly" {
		for _, v := range vars {
			if c, rest, ok := coefOf(pat, v); ok && c.isConst() && c.s == "1" && len(vars) == 1 {
				b[v] = subT(t, rest)
				return true
			}
		}
	}
	if pat.op != t.op || pat.k != t.k || pat.s != t.s || len(pat.a) != len(t.a) || len(pat.a) == 0 {
		return false
	}
	for i := range pat.a {
		if !match(pat.a[i], t.a[i], vars, b) {
			return false
		}
	}
	return true
}

// content reads the array that a base pointer points to.
func (s *State) content(base *Term) *Term {
	switch base.op {
	case "nil":
		return tEmpty
	case "ite":
		return ite(base.a[0], s.content(base.a[1]), s.content(base.a[2]))
	case "back":
		if v, ok := s.mem.get(base); ok {
			return v
		}
		if v := s.famLoad(base); v != nil {
			return v
		}
		return elems(base.a[0])
	}
	if T := ptrElem[base]; T != nil {
		return s.load(base, T)
	}
	if v, ok := s.mem.get(base); ok {
		return v
	}
	if v := s.famLoad(base); v != nil {
		return v
	}
	return intern("deref", KSeq, "", []*Term{base})
}

// slContent reads the elements of a slice.
func (s *State) slContent(t *Term) *Term {
	switch t.op {
	case "nil":
		return tEmpty
	case "ite":
		return ite(t.a[0], s.slContent(t.a[1]), s.slContent(t.a[2]))
	}
	return sub(s.content(slBase(t)), slOff(t), slLen(t))
}

// rootOf strips the path of an address.
func rootOf(p *Term) *Term {
	for p.op == "pf" || p.op == "pi" {
		p = p.a[0]
	}
	return p
}

// store writes *p = v. T is the type of v.
func (s *State) store(p, v *Term, T types.Type) {
	switch p.op {
	case "ite":
		c := p.a[0]
		s.store(p.a[1], ite(c, v, s.load(p.a[1], T)), T)
		s.store(p.a[2], ite(c, s.load(p.a[2], T), v), T)
		return
	case "nil":
		return
	case "pf":
		i, _ := strconv.Atoi(p.s)
		ST := ptrElem[p.a[0]]
		if ST == nil {
			return
		}
		st := ST.Underlying().(*types.Struct)
		old := s.load(p.a[0], ST)
		f := make([]*Term, st.NumFields())
		for j := range f {
			f[j] = fldK(old, j, ST)
		}
		f[i] = v
		s.store(p.a[0], mkStruct(f...), ST)
		return
	case "pi":
		old := s.content(p.a[0])
		n := upd(old, p.a[1], v)
		s.setContent(p.a[0], n)
		return
	}
	s.mem.set(p, v)
}

func (s *State) setContent(base, v *Term) {
	switch base.op {
	case "ite":
		c := base.a[0]
		s.setContent(base.a[1], ite(c, v, s.content(base.a[1])))
		s.setContent(base.a[2], ite(c, s.content(base.a[2]), v))
		return
	case "pf", "pi":
		if T := ptrElem[base]; T != nil {
			s.store(base, v, T)
			return
		}
	case "nil":
		return
	}
	s.mem.set(base, v)
}
