package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// input is a shaped evaluation: an evaluator, a state and arguments.
type input struct {
	c  *Ctx
	ev *Ev
	st *State
	sh *shaper
}

func (c *Ctx) input(lens func(path string) int) *input {
	ev := c.ev()
	st := ev.start()
	return &input{c: c, ev: ev, st: st, sh: &shaper{ev: ev, st: st, lens: lens}}
}

// concrete makes loops unroll.
func (in *input) concrete(n int) *input {
	in.ev.maxUnroll = n
	in.ev.maxRec = 12
	return in
}

func (in *input) args(f *ssa.Function, names ...string) []*Term {
	var a []*Term
	for i, p := range f.Params {
		n := fmt.Sprintf("p%d", i)
		if i < len(names) {
			n = names[i]
		}
		a = append(a, in.sh.mk(p.Type(), n))
	}
	return a
}

func (in *input) call(f *ssa.Function, args ...*Term) *Term {
	s0 := in.ev.steps
	r := in.ev.call(f, append([]*Term(nil), args...), nil, in.st)
	in.c.steps += in.ev.steps - s0
	return r
}

// slice makes a fresh slice with the given elements.
func (in *input) slice(elem types.Type, el ...*Term) *Term {
	return in.ev.newSlice(in.st, elem, lit(el...))
}

func (in *input) panics() []Event {
	var r []Event
	for _, e := range in.ev.log {
		if e.kind == "panic" || (e.kind == "index" || e.kind == "slice") && !e.ok {
			r = append(r, e)
		}
	}
	return r
}

// field reads a field by role.
func field(t *Term, T types.Type, role string) *Term {
	i := roleIndex(T, role)
	if i < 0 {
		return nil
	}
	return fldK(t, i, T)
}

func param(f *ssa.Function, i int) types.Type { return f.Params[i].Type() }

func init() {
	addRule("C09", "MLSAG Verify accepts exactly when the challenge chain over all ring members closes", 20, mlsagVerify)
	addRule("C10", "bLSAG Verify accepts exactly when the challenge chain over all ring members closes", 5, blsagVerify)
}

func lensBy(m map[string]int) func(string) int {
	return func(path string) int {
		best, n := -1, -1
		for k, v := range m {
			w := len(k)
			if !strings.Contains(k, "*") {
				w += 1000
			}
			if w > best && pathMatch(k, path) {
				best, n = w, v
			}
		}
		return n
	}
}

// pathMatch: * stands for any index or name without dots.
func pathMatch(pat, path string) bool {
	for {
		i := strings.IndexByte(pat, '*')
		if i < 0 {
			return pat == path
		}
		if !strings.HasPrefix(path, pat[:i]) {
			return false
		}
		path = path[i:]
		pat = pat[i+1:]
		j := 0
		for j < len(path) && path[j] >= '0' && path[j] <= '9' {
			j++
		}
		path = path[j:]
	}
}

func mlsagVerify(c *Ctx) {
	f := c.fn("mlsag.(*Signature).Verify")
	if f == nil {
		return
	}
	spec := c.spec("MlsagVerify")
	type shape struct {
		rows, keys, resp, rlen, img int
		ragK, ragR                  map[int]int // rows of other widths
	}
	var shapes []shape
	for n := 0; n <= 3; n++ {
		for m := 0; m <= 3; m++ {
			for i := 0; i <= 3; i++ {
				shapes = append(shapes, shape{n, m, n, m, i, nil, nil})
			}
		}
	}
	for _, n := range union(132, []int{4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 32, 33, 64, 65, 128}, c.near(130, "mlsag.(*Signature).Verify")) {
		shapes = append(shapes, shape{n, 2, n, 2, 1, nil, nil}, shape{n, 2, n, 2, 2, nil, nil}, shape{n, 1, n, 1, 1, nil, nil}, shape{n, 2, n - 1, 2, 1, nil, nil}, shape{n, 2, n + 1, 2, 1, nil, nil})
	}
	for _, n := range union(34, []int{4, 5, 6, 8, 9, 16}, c.near(33, "mlsag.(*Signature).Verify")) {
		for i := 0; i <= n+1; i++ {
			shapes = append(shapes, shape{2, n, 2, n, i, nil, nil})
		}
	}
	shapes = append(shapes, shape{2, 2, 1, 2, 2, nil, nil}, shape{1, 2, 2, 2, 2, nil, nil}, shape{2, 2, 2, 1, 2, nil, nil}, shape{2, 2, 2, 3, 2, nil, nil}, shape{2, 1, 2, 2, 1, nil, nil}, shape{4, 2, 4, 2, 2, nil, nil}, shape{5, 2, 5, 2, 1, nil, nil}, shape{2, 4, 2, 4, 3, nil, nil}, shape{0, 2, 2, 2, 2, nil, nil}, shape{2, 2, 0, 2, 2, nil, nil})
	// rows of different widths
	for n := 2; n <= 4; n++ {
		for row := 0; row < n; row++ {
			for _, w := range []int{0, 1, 3} {
				d := map[int]int{row: w}
				for img := 1; img <= 3; img++ {
					shapes = append(shapes, shape{n, 2, n, 2, img, d, d})
				}
				shapes = append(shapes, shape{n, 2, n, 2, 1, d, nil}, shape{n, 2, n, 2, 1, nil, d})
			}
		}
	}
	for _, s := range shapes {
		name := fmt.Sprintf("ring of %d rows × %d keys, %d × %d responses, %d key images", s.rows, s.keys, s.resp, s.rlen, s.img)
		lens := map[string]int{
			"sig.PubKeys": s.rows, "sig.PubKeys[*].[]Point": s.keys,
			"sig.[]Responses": s.resp, "sig.[]Responses[*]": s.rlen, "images": s.img,
		}
		for i, w := range s.ragK {
			lens[fmt.Sprintf("sig.PubKeys[%d].[]Point", i)] = w
			name += fmt.Sprintf(", row %d with %d keys", i, w)
		}
		for i, w := range s.ragR {
			lens[fmt.Sprintf("sig.[]Responses[%d]", i)] = w
			name += fmt.Sprintf(", row %d with %d responses", i, w)
		}
		in := c.input(lensBy(lens)).concrete(300)
		a := in.args(f, "sig", "images")
		S := deref(param(f, 0))
		sv := in.st.mem.at(a[0])
		msg := field(sv, S, "Msg")
		ch := field(sv, S, "Scalar")
		rs := field(sv, S, "[]Responses")
		pk := field(sv, S, "PubKeys")
		if msg == nil || ch == nil || rs == nil || pk == nil {
			c.undecided(name, f, "the signature has other components")
			return
		}
		var keys []*Term
		PK := param(f, 0).Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(roleIndex(S, "PubKeys")).Type().Underlying().(*types.Slice).Elem()
		for i := 0; i < s.rows; i++ {
			keys = append(keys, field(at(in.st.slContent(pk), num(int64(i)), KStruct), PK, "[]Point"))
		}
		st0 := in.st.copy()
		r := in.call(f, a...)
		got := in.ev.deep(in.st, extract(r, 0, KBool), types.Typ[types.Bool])
		c.noPanic(name, f, in)
		facts := in.st.facts
		in.st = st0
		var rl []*Term
		for i := 0; i < s.resp; i++ {
			rl = append(rl, at(in.st.slContent(rs), num(int64(i)), KSlice))
		}
		sp := spec.Signature.Params()
		want := in.call(spec, msg, ch, in.slice(elemOf(sp.At(2).Type()), rl...), in.slice(elemOf(sp.At(3).Type()), keys...), a[1])
		c.same(name, f, facts, got, want)
		errT := extract(r, 1, KIface)
		c.same(name+": error exactly on rejection", f, facts, eq(errT, tNil), got)
	}
}

// bad is the condition under which the event is a panic.
func (e Event) bad() *Term {
	switch e.kind {
	case "index":
		return or(lt(e.t[0], num(0)), not(lt(e.t[0], e.t[1])))
	case "slice":
		return or(lt(e.t[0], num(0)), lt(e.t[1], e.t[0]), lt(e.t[2], e.t[1]))
	}
	if e.s == "nil dereference" {
		return e.t[0]
	}
	return tTrue
}

// noPanic requires that no panic is reachable.
func (c *Ctx) noPanic(name string, f *ssa.Function, in *input) bool {
	return c.noPanicIf(name, f, in, nil)
}

func (c *Ctx) noPanicIf(name string, f *ssa.Function, in *input, pre []*Term) bool {
	for _, e := range in.panics() {
		facts := append(append(append([]*Term(nil), pre...), e.facts...), e.bad())
		r := equiv(facts, tTrue, tFalse)
		c.splits += r.splits
		if r.ok {
			continue // unreachable
		}
		if r.gaveUp {
			c.undecided(name+": no panic", f, "too many cases")
			return false
		}
		if why := uninterpreted(r.path...) + uninterpreted(e.facts...) + uninterpreted(e.bad()); why != "" {
			c.undecided(name+": no panic", f, "reachability of "+e.kind+": "+why)
			return false
		}
		if m, bits := witness(append(facts, r.path...), nil, nil); bits && !m || unsolved(facts...) {
			c.undecided(name+": no panic", f, "reachability of "+e.kind)
			return false
		}
		what := e.kind
		if e.s != "" {
			what = e.s
		}
		var fd []string
		for _, x := range facts {
			fd = append(fd, "when "+clip(showT(x, 14)))
		}
		c.failed(name+": no panic", f, e.pos, fmt.Sprintf("%s %v", what, e.t), fd...)
		return false
	}
	c.proved(name+": no panic", f)
	return true
}

// unsolved: about a loop whose values are not known in closed form.
func unsolved(ts ...*Term) bool {
	found := false
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			found = found || x.op == "rec"
			return !found
		})
	}
	return found
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

func blsagVerify(c *Ctx) {
	f := c.fn("ringsig/blsag.Verify")
	if f == nil {
		return
	}
	spec := c.spec("BlsagVerify")
	S := param(f, 1)
	shapes := [][2]int{{0, 0}, {2, 1}, {1, 2}, {3, 2}, {0, 1}, {1, 0}, {0, 2}, {5, 6}, {6, 5}}
	for _, n := range union(260, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 24, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257}, c.near(130, "ringsig/blsag.Verify")) {
		shapes = append(shapes, [2]int{n, n}, [2]int{n, n + 1}, [2]int{n + 1, n})
	}
	for _, s := range shapes {
		name := fmt.Sprintf("ring of %d keys, %d responses", s[0], s[1])
		in := c.input(lensBy(map[string]int{"sig.PubKeys": s[0], "sig.S": s[1]})).concrete(300)
		a := in.args(f, "m", "sig")
		img, ch, ss, pk := field(a[1], S, "I"), field(a[1], S, "C"), field(a[1], S, "S"), field(a[1], S, "PubKeys")
		if img == nil || ch == nil || ss == nil || pk == nil {
			c.violate(f, 0, "RingSignature", "the signature has other components")
			return
		}
		st0 := in.st.copy()
		got := in.call(f, a...)
		c.noPanic(name, f, in)
		facts := in.st.facts
		in.st = st0
		want := in.call(spec, a[0], img, ch, ss, pk)
		c.same(name, f, facts, got, want)
	}
}
