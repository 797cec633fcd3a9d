package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Kind is the sort of a term.
type Kind uint8

const (
	KOther Kind = iota
	KInt        // machine integers and big.Int, both read as mathematical integers
	KBool
	KSc // ristretto scalars
	KPt // ristretto points
	KG1
	KG2
	KGT
	KSeq // sequences: slice contents, arrays, strings
	KPtr
	KSlice
	KStruct
	KIface
	KMap
	KFunc
	KTuple
)

var kindNames = []string{"other", "int", "bool", "sc", "pt", "g1", "g2", "gt", "seq", "ptr", "slice", "struct", "iface", "map", "func", "tuple"}

func (k Kind) String() string { return kindNames[k] }

func (k Kind) isGroup() bool { return k == KPt || k == KG1 || k == KG2 || k == KGT }

// coefKind is the kind of the coefficients of a group.
func (k Kind) coefKind() Kind {
	if k == KPt {
		return KSc
	}
	return KInt
}

// Term is a hash-consed node of the value graph. Terms are only built by the
// constructors in this package, which keep them in normal form.
type Term struct {
	ln   *Term // length, once known
	neg  *Term
	poly []mono
	id   int
	op   string
	k    Kind
	s    string
	a    []*Term
	h    int    // height of the tallest binder in the term
	fv   uint64 // bloom set of the free symbols
	ite  bool   // an ite or a truth value occurs inside
	rng  *Term  // for iteration symbols: exclusive upper bound, if known
	nn   bool   // integers known not to be negative
	byt  bool   // integers known to be bytes
	unk  bool   // contains an uninterpreted construct
}

var (
	interned = map[string]*Term{}
	nextID   = 1
	symCount = 0
)

func intern(op string, k Kind, s string, a []*Term) *Term {
	var sb strings.Builder
	sb.Grow(len(op) + len(s) + 8*len(a) + 8)
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteByte('a' + byte(k))
	sb.WriteString(strconv.Itoa(len(s)))
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, x := range a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(x.id))
	}
	key := sb.String()
	if t, ok := interned[key]; ok {
		return t
	}
	t := &Term{id: nextID, op: op, k: k, s: s, a: a}
	nextID++
	t.unk = op == "unk" || op == "mu" || op == "havoc" || op == "least"
	for _, x := range a {
		if x.h > t.h {
			t.h = x.h
		}
		t.fv |= x.fv
		t.ite = t.ite || x.ite
		t.unk = t.unk || x.unk
	}
	switch op {
	case "ite", "eq", "eq0", "lt0", "forall", "patom":
		t.ite = true
	case "sum", "prod", "rep":
		t.h = maxInt(t.h, t.a[1].h+1)
	case "mu":
		t.h++
	case "bv", "rv":
		t.fv |= 1 << (uint(t.id) % 64)
		t.nn = op == "bv" || op == "rv" && strings.HasSuffix(s, ":i")
	case "len", "restlen":
		t.nn = true
	}
	if op == "forall" {
		t.h = maxInt(t.h, t.a[1].h+1)
	}
	interned[key] = t
	return t
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// sym makes a fresh free symbol.
func sym(op string, k Kind, name string) *Term {
	symCount++
	t := intern(op, k, fmt.Sprintf("%s#%d", name, symCount), nil)
	t.fv |= 1 << (uint(t.id) % 64)
	return t
}

// app makes an uninterpreted application.
func app(op string, k Kind, s string, a ...*Term) *Term {
	return intern(op, k, s, append([]*Term(nil), a...))
}

func (t *Term) isConst() bool { return t.op == "const" }

func (t *Term) big() *big.Int {
	n, ok := new(big.Int).SetString(t.s, 10)
	if !ok {
		panic("not a number: " + t.s)
	}
	return n
}

var smallConst [16][512]*Term

func constK(k Kind, n *big.Int) *Term {
	if n.IsInt64() {
		if i := n.Int64(); i >= 0 && i < 512 && int(k) < 16 {
			t := smallConst[k][i]
			if t == nil {
				t = intern("const", k, n.String(), nil)
				smallConst[k][i] = t
			}
			return t
		}
	}
	return intern("const", k, n.String(), nil)
}

func num(n int64) *Term          { return constK(KInt, big.NewInt(n)) }
func numK(k Kind, n int64) *Term { return constK(k, big.NewInt(n)) }

var (
	tTrue  = intern("true", KBool, "", nil)
	tFalse = intern("false", KBool, "", nil)
	tNil   = intern("nil", KOther, "", nil)
	tEmpty = intern("cat", KSeq, "", nil)
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func zeroG(k Kind) *Term { return intern("const", k, "0", nil) }

// ---------------------------------------------------------------------------
// substitution

type subster struct {
	m    map[*Term]*Term
	mask uint64
	memo map[*Term]*Term
}

func newSubst(m map[*Term]*Term) *subster {
	s := &subster{m: m, memo: map[*Term]*Term{}}
	for t := range m {
		if len(t.a) == 0 {
			s.mask |= 1 << (uint(t.id) % 64)
		} else if t.fv == 0 {
			s.mask = ^uint64(0)
		} else {
			s.mask |= t.fv
		}
	}
	return s
}

func subst1(t, from, to *Term) *Term {
	if from == to {
		return t
	}
	return newSubst(map[*Term]*Term{from: to}).do(t)
}

func (s *subster) do(t *Term) *Term {
	if t.fv&s.mask == 0 && s.mask != ^uint64(0) {
		return t
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.step(t)
	s.memo[t] = r
	return r
}

func (s *subster) step(t *Term) *Term {
	switch t.op {
	case "sum", "prod", "rep", "forall":
		n := s.do(t.a[0])
		if t.a[1].fv&s.mask == 0 {
			return rebind(t, n, t.a[1])
		}
		it, body := openB(t)
		return closeB(t.op, t.k, n, it, s.do(body))
	case "mu":
		return s.mu(t)
	}
	changed := false
	a := make([]*Term, len(t.a))
	for i, x := range t.a {
		a[i] = s.do(x)
		changed = changed || a[i] != x
	}
	if !changed {
		return t
	}
	r := rebuild(t.op, t.k, t.s, a)
	carryTypes(t, r)
	return r
}

// carryTypes copies what is known about the type of t to r, which has the
// same type.
func carryTypes(t, r *Term) {
	if t.k == KPtr {
		if T, ok := ptrElem[t]; ok {
			setElem(r, T)
		}
	}
	if n, ok := structN[t]; ok && r.op != "struct" && r.op != "ite" {
		structN[r] = n
	}
}

// rebind changes the bound of a binder.
func rebind(t, n, body *Term) *Term {
	if n == t.a[0] {
		return t
	}
	it, b := openB(t)
	return closeB(t.op, t.k, n, it, b)
}

// openB opens a binder with a fresh iteration symbol.
func openB(t *Term) (it, body *Term) {
	it = newIter("o", t.a[0])
	body = subst1(t.a[1], bv(t), it)
	return
}

// instB instantiates the body of a binder.
func instB(t, x *Term) *Term { return subst1(t.a[1], bv(t), x) }

func bv(t *Term) *Term { return intern("bv", KInt, strconv.Itoa(t.a[1].h+1), nil) }

func newIter(name string, rng *Term) *Term {
	t := sym("it", KInt, name)
	t.nn = true
	t.rng = rng
	return t
}

func closeB(op string, k Kind, n, it, body *Term) *Term {
	switch op {
	case "sum":
		return mkSum(k, n, it, body)
	case "prod":
		return mkProd(k, n, it, body)
	case "rep":
		return mkRep(n, it, body)
	case "forall":
		return mkForall(n, it, body)
	}
	panic("closeB " + op)
}

func bindRaw(op string, k Kind, n, it, body *Term) *Term {
	v := intern("bv", KInt, strconv.Itoa(body.h+1), nil)
	return intern(op, k, "", []*Term{n, subst1(body, it, v)})
}

func occurs(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.fv&(1<<(uint(x.id)%64)) == 0 {
		return false
	}
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] || t.fv&(1<<(uint(x.id)%64)) == 0 {
			return false
		}
		seen[t] = true
		for _, y := range t.a {
			if f(y) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// walk visits every distinct subterm.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var g func(*Term)
	g = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, x := range t.a {
			g(x)
		}
	}
	g(t)
}

// rebuild applies the smart constructor of op.
func rebuild(op string, k Kind, s string, a []*Term) *Term {
	switch op {
	case "poly":
		var ms []mono
		for _, x := range a {
			ms = append(ms, toPoly(x)...)
		}
		return mergeSums(fromPoly(k, ms))
	case "mono":
		c, _ := new(big.Int).SetString(s, 10)
		r := constK(k, c)
		for _, x := range a {
			r = mul(r, x)
		}
		return r
	case "pow":
		return powT(a[0], a[1])
	case "lin":
		var ls []lin
		for i := 0; i < len(a); i += 2 {
			ls = append(ls, toLin(gscale(a[i], a[i+1]))...)
		}
		return fromLin(k, ls)
	case "pair":
		return mkPair(a[0], a[1])
	case "sint":
		return sint(a[0])
	case "bint":
		return bint(a[0])
	case "ite":
		return ite(a[0], a[1], a[2])
	case "and":
		return and(a...)
	case "or":
		return or(a...)
	case "not":
		return not(a[0])
	case "eq":
		return eq(a[0], a[1])
	case "eq0":
		return eq0(a[0])
	case "lt0":
		return lt0(a[0])
	case "cat":
		return cat(a...)
	case "lit":
		return lit(a...)
	case "at":
		return at(a[0], a[1], k)
	case "sub":
		return sub(a[0], a[1], a[2])
	case "upd":
		return upd(a[0], a[1], a[2])
	case "len":
		return lenT(a[0])
	case "fld":
		i, _ := strconv.Atoi(s)
		return fld(a[0], i, k)
	case "mod":
		return mod(a[0], a[1])
	case "rem":
		return rem(a[0], a[1])
	case "div":
		return divT(a[0], a[1])
	case "shr":
		return shr(a[0], a[1])
	case "bit":
		return bitT(a[0], a[1])
	case "band":
		return band(a[0], a[1])
	case "max0":
		return max0(a[0])
	case "sfrom":
		return sfrom(a[0])
	case "pfrom":
		return pfrom(a[0])
	case "patom":
		return patom(s, a...)
	case "gfrom":
		return gfrom(k, s, a[0])
	case "bigfrom":
		return bigfrom(a[0])
	case "benc":
		return benc(s, a[0])
	case "bdec":
		return bdec(s, a[0])
	case "mget":
		return mget(a[0], a[1], k)
	case "conv":
		return conv(s, a[0])
	case "struct":
		return mkStruct(a...)
	case "sl":
		return mkSl(a[0], a[1], a[2])
	case "back":
		return slBase(a[0])
	case "elems":
		switch a[0].op {
		case "nil":
			return tEmpty
		case "ite":
			return ite(a[0].a[0], rebuild(op, k, s, a[0].a[1:2]), rebuild(op, k, s, a[0].a[2:3]))
		case "sl":
			if b := a[0].a[0]; b.op == "back" {
				return sub(elems(b.a[0]), a[0].a[1], a[0].a[2])
			}
		}
	case "deref":
		switch p := a[0]; p.op {
		case "pi":
			if p.a[0].op == "back" {
				return at(elems(p.a[0].a[0]), p.a[1], k)
			}
		case "ite":
			return ite(p.a[0], rebuild(op, k, s, p.a[1:2]), rebuild(op, k, s, p.a[2:3]))
		}
	case "pf":
		i, _ := strconv.Atoi(s)
		return pf(a[0], i)
	case "pi":
		return pi(a[0], a[1])
	case "mset":
		if a[0] == tEmpty {
			return intern("newmap", KMap, "", nil)
		}
	case "lz32", "tz", "bitlen", "cmpint":
		return foldInt(op, a)
	case "rd":
		return rdT(a[0], a[1], a[2])
	case "restlen":
		return restlen(a[0])
	case "hexenc", "unhex":
		return textEnc(op, a[0])
	case "unb64":
		if a[1].op == "b64" && a[1].a[0] == a[0] {
			return a[1].a[1]
		}
	case "sbytes":
		return sbytes(a[0])
	case "pbytes":
		return pbytes(a[0])
	}
	return intern(op, k, s, a)
}

// ---------------------------------------------------------------------------
// printing

func (t *Term) String() string { return showT(t, 12) }

func showT(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	sh := func(x *Term) string { return showT(x, d-1) }
	list := func(a []*Term, sep string) string {
		var p []string
		for _, x := range a {
			p = append(p, sh(x))
		}
		return strings.Join(p, sep)
	}
	switch t.op {
	case "const":
		if t.k.isGroup() {
			return "O"
		}
		return t.s
	case "bytes":
		if len(t.s) > 40 {
			return fmt.Sprintf("%q…", t.s[:36])
		}
		return fmt.Sprintf("%q", t.s)
	case "poly":
		return "(" + list(t.a, " + ") + ")"
	case "mono":
		if t.s == "1" {
			return list(t.a, "·")
		}
		return t.s + "·" + list(t.a, "·")
	case "pow":
		return sh(t.a[0]) + "^" + sh(t.a[1])
	case "lin":
		var p []string
		for i := 0; i < len(t.a); i += 2 {
			p = append(p, sh(t.a[i+1])+"*"+sh(t.a[i]))
		}
		return "[" + strings.Join(p, " + ") + "]"
	case "at":
		return sh(t.a[0]) + "[" + sh(t.a[1]) + "]"
	case "fld":
		return sh(t.a[0]) + "." + t.s
	case "bv":
		return "k" + t.s
	case "it", "rec", "sym", "true", "false", "nil", "rv":
		if t.s == "" {
			return t.op
		}
		return t.s
	case "not":
		return "!" + sh(t.a[0])
	case "eq":
		return "(" + sh(t.a[0]) + " == " + sh(t.a[1]) + ")"
	case "eq0":
		return "(" + sh(t.a[0]) + " == 0)"
	case "lt0":
		return "(" + sh(t.a[0]) + " < 0)"
	case "and":
		return "(" + list(t.a, " && ") + ")"
	case "or":
		return "(" + list(t.a, " || ") + ")"
	case "cat":
		return "‹" + list(t.a, " ++ ") + "›"
	case "lit":
		return "[" + list(t.a, ", ") + "]"
	case "sum", "prod", "rep", "forall":
		return t.op + "(k" + strconv.Itoa(t.a[1].h+1) + "<" + sh(t.a[0]) + ": " + sh(t.a[1]) + ")"
	}
	r := t.op
	if t.s != "" {
		r += "{" + t.s + "}"
	}
	if len(t.a) > 0 {
		r += "(" + list(t.a, ", ") + ")"
	}
	return r
}

func sortTerms(a []*Term) {
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
}

// mu terms: a = [count, init_0..init_{m-1}, next_0..next_{m-1}], s = selected
// component; nexts use rv symbols "h:j" for the components and "h:i" for the
// iteration number, h being the height of the binder.
func muVars(t *Term) (m int, vars []*Term, it *Term) {
	m = (len(t.a) - 1) / 2
	h := muHeight(t)
	for j := 0; j < m; j++ {
		vars = append(vars, rv(t.a[1+j].k, h, strconv.Itoa(j)))
	}
	return m, vars, rv(KInt, h, "i")
}

func muHeight(t *Term) int {
	m := (len(t.a) - 1) / 2
	h := 0
	for _, x := range t.a[1+m:] {
		h = maxInt(h, x.h)
	}
	return h + 1
}

func rv(k Kind, h int, n string) *Term {
	t := intern("rv", k, strconv.Itoa(h)+":"+n, nil)
	t.fv |= 1 << (uint(t.id) % 64)
	return t
}

// closeMu builds component sel of the simultaneous iteration.
func closeMu(sel int, count *Term, inits, nexts, recs []*Term, it *Term) *Term {
	h := 0
	for _, x := range nexts {
		h = maxInt(h, x.h)
	}
	h++
	m := map[*Term]*Term{it: rv(KInt, h, "i")}
	for j, r := range recs {
		m[r] = rv(r.k, h, strconv.Itoa(j))
	}
	sb := newSubst(m)
	a := []*Term{count}
	a = append(a, inits...)
	for _, x := range nexts {
		a = append(a, sb.do(x))
	}
	return intern("mu", inits[sel].k, strconv.Itoa(sel), a)
}

func (s *subster) mu(t *Term) *Term {
	m, vars, vit := muVars(t)
	count := s.do(t.a[0])
	var inits, nexts []*Term
	for _, x := range t.a[1 : 1+m] {
		inits = append(inits, s.do(x))
	}
	if count.isConst() && count.s == "0" {
		i, _ := strconv.Atoi(t.s)
		return inits[i]
	}
	op := map[*Term]*Term{}
	var recs []*Term
	it := newIter("m", nil)
	op[vit] = it
	for _, v := range vars {
		r := sym("rec", v.k, "m")
		recs = append(recs, r)
		op[v] = r
	}
	ob := newSubst(op)
	for _, x := range t.a[1+m:] {
		nexts = append(nexts, s.do(ob.do(x)))
	}
	i, _ := strconv.Atoi(t.s)
	return closeMu(i, count, inits, nexts, recs, it)
}
