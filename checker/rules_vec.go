package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C24", "vector operations are the exact element-wise algebra, for every length", 60, vectorRule)
	addRule("C05", "hash helpers return the named digest of exactly the given bytes", 10, hashRule)
}

func isErrType(T types.Type) bool { return T.String() == "error" }

// agree requires that a function has the results of a reference function: the
// same errors, and otherwise the same values.
func (c *Ctx) agree(name string, f *ssa.Function, in *input, args []*Term, spec *ssa.Function, sargs []*Term) {
	sp := in.fork()
	r := in.call(f, args...)
	c.noPanic(name, f, in)
	w := sp.call(spec, sargs...)
	res, sres := f.Signature.Results(), spec.Signature.Results()
	if res.Len() != sres.Len() {
		c.undecided(name, f, "other results")
		return
	}
	part := func(t *Term, s *types.Tuple, i int) *Term {
		if s.Len() == 1 {
			return t
		}
		return extract(t, i, kindOf(s.At(i).Type()))
	}
	facts := append([]*Term(nil), in.st.facts...)
	for i := 0; i < res.Len(); i++ {
		if isErrType(res.At(i).Type()) {
			ok := isNil(part(w, sres, i))
			if !c.same(name+": fails exactly when it has to", f, facts, isNil(part(r, res, i)), ok) {
				return
			}
			if ok == tFalse {
				return
			}
			facts = append(facts, ok)
		}
	}
	for i := 0; i < res.Len(); i++ {
		if isErrType(res.At(i).Type()) {
			continue
		}
		n := name
		if res.Len() > 2 {
			n = fmt.Sprintf("%s: result %d", name, i)
		}
		s := newState()
		s.facts = facts
		got := in.ev.deep(in.st, fix(s, part(r, res, i)), res.At(i).Type())
		want := sp.ev.deep(sp.st, fix(s, part(w, sres, i)), sres.At(i).Type())
		c.same(n, f, facts, got, want)
	}
}

// intParams are the constants given to integer parameters.
func (c *Ctx) agreeShapes(fn, spec string, shapes []map[string]int) {
	f := c.fn(fn)
	if f == nil {
		return
	}
	sf := c.spec(spec)
	for _, sh := range shapes {
		in := c.input(lensBy(sh)).concrete(2200)
		var a []*Term
		var d []string
		for i, p := range f.Params {
			n := fmt.Sprintf("p%d", i)
			v, ok := sh[n]
			if ok {
				d = append(d, fmt.Sprint(v))
			} else {
				d = append(d, "·")
			}
			if kindOf(p.Type()) == KInt && ok {
				a = append(a, num(int64(v)))
			} else {
				a = append(a, in.sh.mk(p.Type(), n))
			}
		}
		c.agree(fmt.Sprintf("%s(%s)", fn, strings.Join(d, ", ")), f, in, a, sf, a)
	}
}

// near returns the sizes at and next to the small constants that the code
// reachable from the given functions compares with, so that a special case for
// some size is met.
func (c *Ctx) near(max int, fns ...string) []int {
	seen := map[*ssa.Function]bool{}
	vals := map[int]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil || !c.p.isRepo(f.Pkg) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if cv, ok := ins.(*ssa.Convert); ok {
					if b, ok := cv.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) && kindOf(cv.X.Type()) == KInt {
						for _, v := range []int{127, 128, 129, 255, 256, 257} {
							if v <= max {
								vals[v] = true
							}
						}
					}
				}
				for _, o := range ins.Operands(nil) {
					k, ok := (*o).(*ssa.Const)
					if !ok || k.Value == nil || kindOf(k.Type()) != KInt {
						continue
					}
					v, ok := constInt(k)
					if !ok || v < 0 {
						continue
					}
					vs := []int{v}
					if op, ok := ins.(*ssa.BinOp); ok && (op.Op == token.SHL || op.Op == token.SHR) && v < 30 {
						vs = append(vs, 1<<uint(v))
					}
					for _, v := range vs {
						for _, d := range []int{-1, 0, 1, 2} {
							if v <= max && v+d >= 0 && v+d <= max {
								vals[v+d] = true
							}
						}
					}
				}
				if cl, ok := ins.(ssa.CallInstruction); ok {
					visit(cl.Common().StaticCallee())
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, n := range fns {
		visit(c.p.find(n))
	}
	var r []int
	for v := range vals {
		r = append(r, v)
	}
	sort.Ints(r)
	return r
}

func constInt(k *ssa.Const) (int, bool) {
	s := k.Value.ExactString()
	n := 0
	neg := false
	for i, ch := range s {
		if i == 0 && ch == '-' {
			neg = true
			continue
		}
		if ch < '0' || ch > '9' || n > 1<<40 {
			return 0, false
		}
		n = n*10 + int(ch-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func (p *Prog) isRepo(k *ssa.Package) bool {
	for _, x := range p.repo {
		if x == k {
			return true
		}
	}
	return false
}

// union merges sizes.
func union(max int, a ...[]int) []int {
	m := map[int]bool{}
	for _, x := range a {
		for _, v := range x {
			if v <= max {
				m[v] = true
			}
		}
	}
	var r []int
	for i := 0; i <= max; i++ {
		if m[i] {
			r = append(r, i)
		}
	}
	return r
}

func vectorRule(c *Ctx) {
	max := 1100
	base := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257}
	if c.thorough {
		max = 2100
		for n := 0; n <= 70; n++ {
			base = append(base, n)
		}
		base = append(base, 511, 512, 513)
	}
	for _, x := range [][2]string{{"Add", "VecAdd"}, {"Sub", "VecSub"}, {"Hadamard", "VecHadamard"}, {"InnerProduct", "VecInner"}} {
		fn := "rangeproof/vector." + x[0]
		ns := union(max, base, c.near(max, fn))
		var sh []map[string]int
		for _, n := range ns {
			sh = append(sh, map[string]int{"p0": n, "p1": n})
			for _, d := range []int{-2, -1, 1, 2} {
				if n+d >= 0 {
					sh = append(sh, map[string]int{"p0": n, "p1": n + d})
				}
			}
			if n > 2 {
				sh = append(sh, map[string]int{"p0": n, "p1": 0}, map[string]int{"p0": 0, "p1": n})
			}
		}
		c.agreeShapes(fn, x[1], sh)
	}
	for _, x := range [][2]string{{"AddScalar", "VecAddScalar"}, {"SubScalar", "VecSubScalar"}, {"MulScalar", "VecMulScalar"}, {"Neg", "VecNeg"}} {
		fn := "rangeproof/vector." + x[0]
		var sh []map[string]int
		for _, n := range union(max, base, c.near(max, fn)) {
			sh = append(sh, map[string]int{"p0": n})
		}
		c.agreeShapes(fn, x[1], sh)
	}
	for _, x := range [][2]string{{"ScalarPowers", "VecPowers"}, {"ScalarPowersSum", "VecPowersSum"}, {"FromScalar", "VecFrom"}} {
		fn := "rangeproof/vector." + x[0]
		var sh []map[string]int
		for _, n := range union(max, base, c.near(max, fn)) {
			sh = append(sh, map[string]int{"p1": n})
		}
		c.agreeShapes(fn, x[1], sh)
	}
	{
		fn := "rangeproof/vector.Exp"
		var sh []map[string]int
		for _, n := range union(max, base, c.near(max, fn)) {
			for _, p := range [][3]int{{n, n, 1}, {n, 0, 0}, {n, n - 1, 1}, {n, n + 1, 1}, {n, 1, n}, {n, 1, n + 1}, {n, n, 2}, {n + 1, n, 1}, {n - 1, n - 1, 1}, {n + 1, n + 1, 1}} {
				if p[0] >= 0 && p[1] >= 0 {
					sh = append(sh, map[string]int{"p0": n, "p1": p[0], "p2": p[1], "p3": p[2]})
				}
			}
		}
		c.agreeShapes(fn, "VecExp", sh)
	}
	for _, x := range [][2]string{{"SplitScalars", "VecSplitS"}, {"SplitPoints", "VecSplitP"}} {
		fn := "rangeproof/vector." + x[0]
		var sh []map[string]int
		for _, n := range union(max, base, c.near(max, fn)) {
			for _, k := range []int{0, 1, n / 2, n - 1, n, n + 1} {
				if k >= 0 {
					sh = append(sh, map[string]int{"p0": n, "p1": k})
				}
			}
		}
		c.agreeShapes(fn, x[1], sh)
	}
}

func hashRule(c *Ctx) {
	for _, x := range [][2]string{{"Sha3256", "sha3-256"}, {"Sha3512", "sha3-512"}, {"Blake2b256", "blake2b-256"}, {"Blake2b512", "blake2b-512"}, {"Xxhash", "xxhash-64"}} {
		f := c.fn("hash." + x[0])
		if f == nil {
			continue
		}
		for _, n := range append([]int{-1}, union(300, []int{0, 1, 2, 64, 136}, c.near(300, "hash."+x[0]))...) {
			in := c.input(lensBy(map[string]int{"bs": n})).concrete(400)
			a := in.args(f, "bs")
			data := in.st.slContent(a[0])
			r := in.call(f, a...)
			name := "hash." + x[0]
			if n >= 0 {
				name += fmt.Sprintf(" of %d bytes", n)
			}
			c.noPanic(name, f, in)
			c.same(name+": no error", f, in.st.facts, isNil(extract(r, 1, KIface)), tTrue)
			c.same(name, f, in.st.facts, in.ev.deep(in.st, extract(r, 0, KSlice), types.NewSlice(byteT)), digest(x[1], data))
		}
	}
	if f := c.fn("hash.PerformHash"); f != nil {
		for _, n := range append([]int{-1}, union(300, []int{0, 1, 2, 64, 136}, c.near(300, "hash.PerformHash"))...) {
			in := c.input(lensBy(map[string]int{"bs": n})).concrete(400)
			a := in.args(f, "h", "bs")
			data := in.st.slContent(a[1])
			werr := patom("werr", a[0], data)
			r := in.call(f, a...)
			name := "hash.PerformHash"
			if n >= 0 {
				name += fmt.Sprintf(" of %d bytes", n)
			}
			c.noPanic(name, f, in)
			c.same(name+": an error exactly when the hash fails", f, in.st.facts, isNil(extract(r, 1, KIface)), not(werr))
			s := newState()
			s.facts = append(append([]*Term(nil), in.st.facts...), not(werr))
			c.same(name, f, s.facts, in.ev.deep(in.st, fix(s, extract(r, 0, KSlice)), types.NewSlice(byteT)), app("hsum", KSeq, "", a[0], data))
		}
	}
	cs := func(data *Term) *Term { return bdec("B32", sub(digest("xxhash-64", data), num(0), num(4))) }
	if f := c.fn("hash.Checksum"); f != nil {
		for _, n := range append([]int{-1}, union(300, []int{0, 1, 3, 4, 5}, c.near(300, "hash.Checksum"))...) {
			in := c.input(lensBy(map[string]int{"bs": n})).concrete(400)
			a := in.args(f, "bs")
			data := in.st.slContent(a[0])
			r := in.call(f, a...)
			name := fmt.Sprintf("hash.Checksum (%d bytes)", n)
			c.noPanic(name, f, in)
			c.same(name+": no error", f, in.st.facts, isNil(extract(r, 1, KIface)), tTrue)
			c.same(name, f, in.st.facts, extract(r, 0, KInt), cs(data))
		}
	}
	if f := c.fn("hash.CompareChecksum"); f != nil {
		for _, n := range append([]int{-1}, union(300, []int{0, 1, 3, 4, 5}, c.near(300, "hash.CompareChecksum"))...) {
			in := c.input(lensBy(map[string]int{"bs": n})).concrete(400)
			a := in.args(f, "bs", "want")
			data := in.st.slContent(a[0])
			r := in.call(f, a...)
			name := fmt.Sprintf("hash.CompareChecksum (%d bytes)", n)
			c.noPanic(name, f, in)
			c.same(name, f, in.st.facts, r, eq(a[1], cs(data)))
		}
	}
}
