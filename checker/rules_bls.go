package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C01", "BLS verification is the pairing equation over exactly the message, the key and the signature given", 8, blsVerify)
	addRule("C02", "BLS batch verification binds one key to each message and rejects repeated messages", 20, blsBatch)
	addRule("C03", "every key and signature enters an aggregate once, weighted by the hash of the key", 20, blsAggregate)
	addRule("C04", "BLS encodings: exact bytes, errors on what the group rejects, receivers unchanged on error", 20, blsCodec)
}

// get follows roles through pointers.
func (in *input) get(t *Term, T types.Type, roles ...string) *Term {
	t, _ = in.getT(t, T, roles...)
	return t
}

func (in *input) getT(t *Term, T types.Type, roles ...string) (*Term, types.Type) {
	for _, r := range roles {
		if p, ok := T.Underlying().(*types.Pointer); ok {
			E := p.Elem()
			in.ev.noteElem(t, E)
			t, T = in.st.load(t, E), E
			if r == "*" {
				continue
			}
		}
		i := roleIndex(T, r)
		if i < 0 {
			panic("no component " + r + " in " + T.String())
		}
		t, T = fldK(t, i, T), T.Underlying().(*types.Struct).Field(i).Type()
	}
	return t, T
}

// val is the value of a group element reached by roles.
func (in *input) val(t *Term, T types.Type, roles ...string) *Term {
	t, T = in.getT(t, T, roles...)
	return in.deref(t, T)
}

func (in *input) deref(t *Term, T types.Type) *Term {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		in.ev.noteElem(t, p.Elem())
		return in.st.load(t, p.Elem())
	}
	return t
}

// res is the value of a result, a pointer being followed.
func (in *input) res(r *Term, f *ssa.Function, i int, roles ...string) *Term {
	res := f.Signature.Results()
	T := res.At(i).Type()
	if res.Len() > 1 {
		r = extract(r, i, kindOf(T))
	}
	if len(roles) == 0 {
		return in.deref(r, T)
	}
	return in.val(r, T, roles...)
}

func specVal(in *input, f *ssa.Function, args ...*Term) *Term {
	r := in.call(f, args...)
	T := f.Signature.Results().At(0).Type()
	if kindOf(T) == KSlice {
		return in.ev.deep(in.st, r, T)
	}
	return in.deref(r, T)
}

// fork copies the state, so that what follows has no effect on it.
func (in *input) fork() *input {
	n := *in
	n.st = in.st.copy()
	return &n
}

// driver requires that a driver returns true.
func (c *Ctx) driver(name string, fn string, lens map[string]int, args func(in *input, f *ssa.Function) []*Term, pre func(in *input, a []*Term) []*Term, anchor string) {
	f := c.drv(fn)
	if f == nil {
		return
	}
	af := c.fn(anchor)
	if af == nil {
		return
	}
	in := c.input(lensBy(lens)).concrete(300)
	var a []*Term
	if args != nil {
		a = args(in, f)
	} else {
		for _, p := range f.Params {
			a = append(a, in.sh.mk(p.Type(), p.Name()))
		}
	}
	if pre != nil {
		for _, x := range pre(in, a) {
			in.st.assume(x)
		}
	}
	r := in.call(f, a...)
	facts := in.st.facts
	if in.st.dead {
		// every path panics
		c.noPanic(name, af, in)
		return
	}
	if c.noPanicDrv(name, af, in) {
		c.same(name, af, facts, r, tTrue)
	}
}

// noPanicDrv is noPanic apart from the driver's own assertions.
func (c *Ctx) noPanicDrv(name string, f *ssa.Function, in *input) bool {
	var keep []Event
	for _, e := range in.ev.log {
		if e.kind == "panic" && e.fn != nil && e.fn.Pkg != nil && strings.HasSuffix(e.fn.Pkg.Pkg.Path(), drvPkg) && e.s == "" {
			continue
		}
		keep = append(keep, e)
	}
	old := in.ev.log
	in.ev.log = keep
	n := len(c.obl)
	ok := c.noPanic(name, f, in)
	if ok {
		c.obl = c.obl[:n] // part of the driver's obligation
	}
	in.ev.log = old
	return ok
}

func nArg(n int) func(in *input, f *ssa.Function) []*Term {
	return func(in *input, f *ssa.Function) []*Term {
		var a []*Term
		for _, p := range f.Params {
			if kindOf(p.Type()) == KInt {
				a = append(a, num(int64(n)))
			} else {
				a = append(a, in.sh.mk(p.Type(), p.Name()))
			}
		}
		return a
	}
}

func isNil(t *Term) *Term { return eq(t, tNil) }

func blsVerify(c *Ctx) {
	spec := c.spec("BlsVerify")
	for _, x := range []struct {
		fn   string
		key  []string
		what string
	}{
		{"bls.Verify", []string{"PublicKey", "*G2"}, "aggregated key"},
		{"bls.VerifyUnsafe", []string{"*G2"}, "plain key"},
	} {
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		for _, n := range []int{-1, 0, 1, 5} { // message lengths; -1: any
			in := c.input(lensBy(map[string]int{"msg": n})).concrete(300)
			a := in.args(f, "key", "msg", "sig")
			pk := in.get(a[0], param(f, 0), x.key...)
			sig := in.get(a[2], param(f, 2), "*G1")
			s := in.fork()
			r := in.call(f, a...)
			name := fmt.Sprintf("%s accepts exactly on the pairing equation", x.fn)
			if n >= 0 {
				name += fmt.Sprintf(" (message of %d bytes)", n)
			}
			c.noPanic(name, f, in)
			want := s.call(spec, pk, a[1], sig)
			c.same(name, f, in.st.facts, isNil(r), want)
		}
	}
	any := map[string]int{}
	for _, n := range c.sizes(1, 2, 3) {
		c.driver(fmt.Sprintf("%d signers aggregated with Sign and AggregateApk verify", n), "BlsSigned", any, nArg(n), nil, "bls.Verify")
		c.driver(fmt.Sprintf("%d signers aggregated with Add and Apk.Aggregate verify", n), "BlsSteps", any, nArg(n), nil, "bls.Verify")
		c.driver(fmt.Sprintf("%d signers aggregated from bytes verify", n), "BlsBytes", any, nArg(n), nil, "bls.Verify")
	}
	c.driver("an honest signature verifies with VerifyUnsafe", "BlsUnsafe", any, nil, nil, "bls.VerifyUnsafe")
	c.driverAny("any number of signers aggregated with Sign and AggregateApk verify", "BlsSigned", "bls.Verify", func(in *input, f *ssa.Function) ([]*Term, []*Term) {
		n := symT(KInt, "n")
		return []*Term{n, symT(KSlice, "msg")}, []*Term{lt(num(0), n)}
	})
}

// sizes adds larger sizes to the thorough runs.
func (c *Ctx) sizes(ns ...int) []int {
	min, m := ns[0], ns[len(ns)-1]
	ns = append(ns, m+1, m+2, m+4, 16, 17, 32, 33, 64, 65)
	if c.thorough {
		ns = append(ns, 2*m, 4*m+1)
	}
	r := union(132, ns, c.near(130, "bls.VerifyBatch", "bls.VerifyUnsafeBatch", "bls.VerifyCompressed", "bls.AggregateApk", "bls.UnsafeBatch", "bls.Sign", "bls.Verify"))
	for len(r) > 0 && r[0] < min {
		r = r[1:]
	}
	return r
}

// driverAny evaluates a driver for inputs of every size. Where the loop
// summaries do not give an exact value the obligation is undecided.
func (c *Ctx) driverAny(name, fn, anchor string, args func(in *input, f *ssa.Function) ([]*Term, []*Term)) {
	f := c.drv(fn)
	af := c.fn(anchor)
	if f == nil || af == nil {
		return
	}
	in := c.input(nil)
	a, pre := args(in, f)
	for _, x := range pre {
		in.st.assume(x)
	}
	r := in.call(f, a...)
	c.sameAny(name, af, in.st.facts, r, tTrue)
}

// sameAny is same for unbounded sizes; a difference is not reported.
func (c *Ctx) sameAny(name string, f *ssa.Function, facts []*Term, got, want *Term) bool {
	r := equiv(facts, got, want)
	c.splits += r.splits
	if r.ok {
		c.proved(name, f)
		return true
	}
	c.undecided(name, f, "not settled for unbounded sizes; decided per size instead")
	return false
}

func blsBatch(c *Ctx) {
	spec := c.spec("BlsVerifyBatch")
	type tgt struct {
		fn    string
		key   []string
		allow bool
	}
	for _, x := range []tgt{{"bls.VerifyBatch", []string{"PublicKey", "*G2"}, false}, {"bls.VerifyUnsafeBatch", []string{"*G2"}, false}} {
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		ET := elemOf(param(f, 0))
		for _, s := range c.pairs() {
			in := c.input(lensBy(map[string]int{"keys": s[0], "msgs": s[1]})).concrete(300)
			a := in.args(f, "keys", "msgs", "sig")
			var pks []*Term
			for i := 0; i < s[0]; i++ {
				pks = append(pks, in.get(at(in.st.slContent(a[0]), num(int64(i)), KPtr), ET, x.key...))
			}
			sig := in.get(a[2], param(f, 2), "*G1")
			sp := in.fork()
			r := in.call(f, a...)
			name := fmt.Sprintf("%s with %d keys, %d messages", x.fn, s[0], s[1])
			c.noPanic(name, f, in)
			want := sp.call(spec, sp.slice(elemOf(spec.Signature.Params().At(0).Type()), pks...), a[1], sig, boolT(x.allow))
			c.same(name, f, in.st.facts, isNil(r), want)
		}
		// any number of keys and messages
		in := c.input(nil)
		ks, ms, sig := symT(KSlice, "keys"), symT(KSlice, "msgs"), in.sh.mk(param(f, 2), "sig")
		it := newIter("b", nil)
		kc := elems(ks)
		el := in.get(at(kc, it, KPtr), ET, x.key...)
		s := in.fork()
		r := in.call(f, ks, ms, sig)
		sl := s.ev.newSlice(s.st, elemOf(spec.Signature.Params().At(0).Type()), mkRep(lenT(kc), it, lit(el)))
		want := s.call(spec, sl, ms, in.get(sig, param(f, 2), "*G1"), boolT(x.allow))
		c.sameAny(x.fn+" with any number of keys and messages", f, in.st.facts, isNil(r), want)
	}
	if f := c.fn("bls.VerifyCompressed"); f != nil {
		for _, allow := range []bool{false, true} {
			for _, s := range c.pairs() {
				in := c.input(lensBy(map[string]int{"keys": s[0], "msgs": s[1]})).concrete(300)
				a := in.args(f, "keys", "msgs", "sig", "allow")
				a[3] = boolT(allow)
				sp := in.fork()
				r := in.call(f, a...)
				name := fmt.Sprintf("bls.VerifyCompressed with %d keys, %d messages, allowDistinct=%v", s[0], s[1], allow)
				c.noPanic(name, f, in)
				dec := c.spec("BlsDecompressVerify")
				want := sp.call(dec, a[0], a[1], a[2], a[3])
				c.same(name, f, in.st.facts, isNil(r), want)
			}
		}
	}
	distinct := func(n int) func(in *input, a []*Term) []*Term {
		return func(in *input, a []*Term) []*Term {
			var r []*Term
			c := in.st.slContent(a[0])
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					r = append(r, not(eq(elems(at(c, num(int64(i)), KSlice)), elems(at(c, num(int64(j)), KSlice)))))
				}
			}
			return r
		}
	}
	for _, n := range c.sizes(1, 2, 3) {
		l := map[string]int{"msgs": n}
		c.driver(fmt.Sprintf("an honest batch of %d distinct messages verifies with VerifyUnsafeBatch", n), "BlsBatchUnsafe", l, nil, distinct(n), "bls.VerifyUnsafeBatch")
		c.driver(fmt.Sprintf("an honest batch of %d distinct messages verifies with VerifyBatch", n), "BlsBatch", l, nil, distinct(n), "bls.VerifyBatch")
		c.driver(fmt.Sprintf("an honest batch of %d distinct messages verifies with VerifyCompressed", n), "BlsCompressed", l, nil, distinct(n), "bls.VerifyCompressed")
	}
}

func (c *Ctx) pairs() [][2]int {
	r := [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 2}, {2, 3}, {0, 2}}
	r = append(r, [2]int{4, 3}, [2]int{3, 5}, [2]int{5, 4}, [2]int{4, 8}, [2]int{8, 4})
	for _, n := range union(34, []int{5, 6, 7, 9, 16, 17}, c.near(34, "bls.VerifyBatch", "bls.VerifyUnsafeBatch", "bls.VerifyCompressed")) {
		if n > 4 {
			r = append(r, [2]int{n, n})
		}
	}
	return r
}

func blsAggregate(c *Ctx) {
	g2 := []string{"*G2"}
	apkR := []string{"PublicKey", "*G2"}
	// keys
	if f := c.fn("bls.NewApk"); f != nil {
		in := c.input(nil).concrete(300)
		a := in.args(f, "pk")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic("NewApk", f, in)
		pk := in.get(a[0], param(f, 0), g2...)
		want := specVal(sp, c.spec("BlsApk"), sp.slice(elemOf(c.spec("BlsApk").Signature.Params().At(0).Type()), pk))
		c.same("NewApk weights its key", f, in.st.facts, in.res(r, f, 0, apkR...), want)
	}
	if f := c.fn("bls.AggregateApk"); f != nil {
		for _, x := range withAliases(c.sizes(0, 1, 2, 3, 4)) {
			n := x.n
			in := c.input(lensBy(map[string]int{"pks": n})).concrete(300)
			a := in.args(f, "pks")
			name := fmt.Sprintf("AggregateApk of %d keys", n) + x.apply(in, a[0])
			sp := in.fork()
			r := in.call(f, a...)
			c.noPanic(name, f, in)
			c.same(name+": fails only when empty", f, in.st.facts, isNil(extract(r, 1, KIface)), boolT(n > 0))
			if n == 0 {
				continue
			}
			var pks []*Term
			for i := 0; i < n; i++ {
				pks = append(pks, in.get(at(in.st.slContent(a[0]), num(int64(i)), KPtr), elemOf(param(f, 0)), g2...))
			}
			want := specVal(sp, c.spec("BlsApk"), sp.slice(elemOf(c.spec("BlsApk").Signature.Params().At(0).Type()), pks...))
			c.same(name+": every key weighted once", f, in.st.facts, in.res(r, f, 0, apkR...), want)
		}
	}
	recv := func(fn, sp string, role []string, args func(in *input, a []*Term, f *ssa.Function) []*Term, okCond func(in *input, a []*Term) *Term) {
		f := c.fn(fn)
		if f == nil {
			return
		}
		in := c.input(nil).concrete(300)
		a := in.args(f, "x", "y", "z")
		sf := in.fork()
		old := in.val(a[0], param(f, 0), role...)
		r := in.call(f, a...)
		c.noPanic(fn, f, in)
		want := specVal(sf, c.spec(sp), args(sf, a, f)...)
		got := in.val(a[0], param(f, 0), role...)
		facts := in.st.facts
		if okCond != nil {
			ok := okCond(sf, a)
			c.same(fn+": fails exactly on an invalid encoding", f, facts, isNil(r), ok)
			c.same(fn+": unchanged on failure", f, append(append([]*Term(nil), facts...), not(ok)), got, old)
			facts = append(append([]*Term(nil), facts...), ok)
		} else if f.Signature.Results().Len() == 1 && kindOf(f.Signature.Results().At(0).Type()) == KIface {
			c.same(fn+": succeeds", f, facts, isNil(r), tTrue)
		}
		c.same(fn+": adds exactly the weighted argument", f, facts, got, want)
	}
	recv("bls.(*Apk).Aggregate", "BlsAddKey", apkR, func(in *input, a []*Term, f *ssa.Function) []*Term {
		return []*Term{in.get(a[0], param(f, 0), apkR...), in.get(a[1], param(f, 1), g2...)}
	}, nil)
	recv("bls.(*Apk).AggregateBytes", "BlsAddKeyBytes", apkR, func(in *input, a []*Term, f *ssa.Function) []*Term {
		return []*Term{in.get(a[0], param(f, 0), apkR...), a[1]}
	}, func(in *input, a []*Term) *Term { return in.call(c.spec("BlsG2Valid"), a[1]) })
	recv("bls.(*Signature).Add", "BlsAddSig", []string{"*G1"}, func(in *input, a []*Term, f *ssa.Function) []*Term {
		return []*Term{in.get(a[0], param(f, 0), "*G1"), in.get(a[1], param(f, 1), g2...), in.get(a[2], param(f, 2), "*G1")}
	}, nil)
	recv("bls.(*Signature).Aggregate", "BlsAdd1", []string{"*G1"}, func(in *input, a []*Term, f *ssa.Function) []*Term {
		return []*Term{in.get(a[0], param(f, 0), "*G1"), in.get(a[1], param(f, 1), "*G1")}
	}, nil)
	recv("bls.(*Signature).AggregateBytes", "BlsAdd1Bytes", []string{"*G1"}, func(in *input, a []*Term, f *ssa.Function) []*Term {
		return []*Term{in.get(a[0], param(f, 0), "*G1"), a[1]}
	}, func(in *input, a []*Term) *Term { return in.call(c.spec("BlsG1Valid"), a[1]) })
	// signatures
	if f := c.fn("bls.Sign"); f != nil {
		in := c.input(nil).concrete(300)
		a := in.args(f, "sk", "pk", "msg")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic("Sign", f, in)
		c.same("Sign succeeds", f, in.st.facts, isNil(extract(r, 1, KIface)), tTrue)
		want := specVal(sp, c.spec("BlsSign"), sp.get(a[0], param(f, 0), "*Int"), sp.get(a[1], param(f, 1), g2...), a[2])
		c.same("Sign weights the signature by the key's hash", f, in.st.facts, in.res(r, f, 0, "*G1"), want)
	}
	if f := c.fn("bls.UnsafeSign"); f != nil {
		in := c.input(nil).concrete(300)
		a := in.args(f, "sk", "msg")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic("UnsafeSign", f, in)
		want := specVal(sp, c.spec("BlsUnsafeSign"), sp.get(a[0], param(f, 0), "*Int"), a[1])
		c.same("UnsafeSign is the secret key times the message point", f, in.st.facts, in.res(r, f, 0, "*G1"), want)
	}
	if f := c.fn("bls.UnsafeAggregate"); f != nil {
		in := c.input(nil).concrete(300)
		a := in.args(f, "a", "b")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic("UnsafeAggregate", f, in)
		want := specVal(sp, c.spec("BlsAdd1"), sp.get(a[0], param(f, 0), "*G1"), sp.get(a[1], param(f, 1), "*G1"))
		c.same("UnsafeAggregate is the sum", f, in.st.facts, in.res(r, f, 0, "*G1"), want)
	}
	if f := c.fn("bls.UnsafeBatch"); f != nil {
		for _, x := range withAliases(c.sizes(0, 1, 2, 3, 4)) {
			n := x.n
			in := c.input(lensBy(map[string]int{"sigs": n})).concrete(300)
			a := in.args(f, "sigs")
			name := fmt.Sprintf("UnsafeBatch of %d signatures", n) + x.apply(in, a[0])
			sp := in.fork()
			r := in.call(f, a...)
			c.noPanic(name, f, in)
			c.same(name+": fails only when empty", f, in.st.facts, isNil(extract(r, 1, KIface)), boolT(n > 0))
			if n == 0 {
				continue
			}
			var ss []*Term
			for i := 0; i < n; i++ {
				ss = append(ss, in.get(at(in.st.slContent(a[0]), num(int64(i)), KPtr), elemOf(param(f, 0)), "*G1"))
			}
			want := specVal(sp, c.spec("BlsSum"), sp.slice(elemOf(c.spec("BlsSum").Signature.Params().At(0).Type()), ss...))
			c.same(name+": every signature once", f, in.st.facts, in.res(r, f, 0, "*G1"), want)
		}
	}
	if f := c.fn("bls.(*PublicKey).Aggregate"); f != nil {
		in := c.input(nil).concrete(300)
		a := in.args(f, "a", "b")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic("PublicKey.Aggregate", f, in)
		want := specVal(sp, c.spec("BlsSum2"), sp.get(a[0], param(f, 0), g2...), sp.get(a[1], param(f, 1), g2...))
		c.same("PublicKey.Aggregate is the sum", f, in.st.facts, in.res(r, f, 0, g2...), want)
	}
}

// aliased is a list of n pointers of which the i-th and j-th are the same.
type aliased struct{ n, i, j int }

func withAliases(ns []int) []aliased {
	var r []aliased
	for _, n := range ns {
		r = append(r, aliased{n, 0, 0})
	}
	for _, n := range []int{2, 3, 4} {
		for j := 1; j < n; j++ {
			for i := 0; i < j; i++ {
				r = append(r, aliased{n, i, j})
			}
		}
	}
	return r
}

func (x aliased) apply(in *input, s *Term) string {
	if x.i == x.j {
		return ""
	}
	el := append([]*Term(nil), in.st.mem.at(slBase(s)).a...)
	el[x.j] = el[x.i]
	in.st.mem.set(slBase(s), lit(el...))
	return fmt.Sprintf(", number %d being number %d again", x.j, x.i)
}

func blsCodec(c *Ctx) {
	// encoders
	for _, x := range []struct {
		fn, spec string
		role     []string
	}{
		{"bls.(*PublicKey).Marshal", "BlsEnc2", []string{"*G2"}},
		{"bls.(*PublicKey).MarshalText", "BlsText2", []string{"*G2"}},
		{"bls.(*Signature).Marshal", "BlsEnc1", []string{"*G1"}},
		{"bls.(*Signature).Compress", "BlsComp1", []string{"*G1"}},
		{"bls.(*UnsafeSignature).Marshal", "BlsEnc1", []string{"*G1"}},
		{"bls.(*UnsafeSignature).Compress", "BlsComp1", []string{"*G1"}},
	} {
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		in := c.input(nil).concrete(300)
		a := in.args(f, "x")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic(x.fn, f, in)
		want := specVal(sp, c.spec(x.spec), sp.get(a[0], param(f, 0), x.role...))
		T := f.Signature.Results().At(0).Type()
		if f.Signature.Results().Len() > 1 {
			c.same(x.fn+": no error", f, in.st.facts, isNil(extract(r, 1, KIface)), tTrue)
			r = extract(r, 0, KSlice)
		}
		c.same(x.fn+": bytes", f, in.st.facts, in.ev.deep(in.st, r, T), want)
	}
	// decoders into a receiver
	for _, x := range []struct {
		fn, valid, dec string
		role           []string
		lens           []int
	}{
		{"bls.(*PublicKey).Unmarshal", "BlsG2Valid", "BlsDec2", []string{"*G2"}, nil},
		{"bls.(*PublicKey).UnmarshalText", "BlsG2TextValid", "BlsDecText2", []string{"*G2"}, nil},
		{"bls.(*Signature).Unmarshal", "BlsG1Valid", "BlsDec1", []string{"*G1"}, nil},
		{"bls.(*Signature).Decompress", "BlsG1CValid", "BlsDecC1", []string{"*G1"}, nil},
		{"bls.(*UnsafeSignature).Unmarshal", "BlsG1UValid", "BlsDecU1", []string{"*G1"}, nil},
		{"bls.(*UnsafeSignature).Decompress", "BlsG1CValid", "BlsDecC1", []string{"*G1"}, nil},
	} {
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		in := c.input(nil).concrete(300)
		a := in.args(f, "x", "data")
		sp := in.fork()
		old := in.val(a[0], param(f, 0), x.role...)
		r := in.call(f, a...)
		c.noPanicKnown(x.fn, f, in)
		ok := sp.fork().call(c.spec(x.valid), a[1])
		facts := in.st.facts
		c.same(x.fn+": fails exactly on what the group rejects", f, facts, isNil(r), ok)
		got := in.val(a[0], param(f, 0), x.role...)
		bad := newState()
		bad.facts = append(append([]*Term(nil), facts...), not(ok))
		if g := fix(bad, got); g.op == "unk" && g.s == "nil dereference" {
			c.failed(x.fn+": receiver unchanged on failure", f, f.Pos(), x.fn, "the receiver is left without a value")
		} else {
			c.same(x.fn+": receiver unchanged on failure", f, bad.facts, got, old)
		}
		want := specVal(sp, c.spec(x.dec), a[1])
		c.same(x.fn+": decoded point", f, append(append([]*Term(nil), facts...), ok), got, want)
	}
	// decoders that return
	for _, x := range []struct {
		fn, valid, dec string
		role           []string
	}{
		{"bls.UnmarshalPk", "BlsG2Valid", "BlsDec2", []string{"*G2"}},
		{"bls.UnmarshalApk", "BlsG2Valid", "BlsDec2", []string{"PublicKey", "*G2"}},
		{"bls.UnmarshalSignature", "BlsG1Valid", "BlsDec1", []string{"*G1"}},
	} {
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		in := c.input(nil).concrete(300)
		a := in.args(f, "data")
		sp := in.fork()
		r := in.call(f, a...)
		c.noPanic(x.fn, f, in)
		ok := sp.fork().call(c.spec(x.valid), a[0])
		facts := in.st.facts
		e := extract(r, 1, KIface)
		c.same(x.fn+": fails exactly on what the group rejects", f, facts, isNil(e), ok)
		bad := append(append([]*Term(nil), facts...), not(ok))
		c.same(x.fn+": nothing returned on failure", f, bad, isNil(extract(r, 0, KPtr)), tTrue)
		s := newState()
		s.facts = append(append([]*Term(nil), facts...), ok)
		p := fix(s, extract(r, 0, KPtr))
		got := in.val(p, f.Signature.Results().At(0).Type(), x.role...)
		c.same(x.fn+": decoded point", f, append(append([]*Term(nil), facts...), ok), got, specVal(sp, c.spec(x.dec), a[0]))
	}
	// copies
	for _, x := range []struct {
		fn   string
		role []string
	}{{"bls.(*Apk).Copy", []string{"PublicKey", "*G2"}}, {"bls.(*Signature).Copy", []string{"*G1"}}} {
		f := c.fn(x.fn)
		if f == nil {
			continue
		}
		in := c.input(nil).concrete(300)
		a := in.args(f, "x")
		old := in.val(a[0], param(f, 0), x.role...)
		r := in.call(f, a...)
		c.noPanic(x.fn, f, in)
		c.same(x.fn+": same value", f, in.st.facts, in.res(r, f, 0, x.role...), old)
		p0 := in.get(a[0], param(f, 0), x.role...)
		p1 := in.get(r, f.Signature.Results().At(0).Type(), x.role...)
		c.same(x.fn+": own point", f, in.st.facts, boolT(p0 == p1), tFalse)
	}
	c.driver("copies are independent of the original", "BlsCopies", nil, nil, nil, "bls.(*Apk).Copy")
	c.driver("keys survive Marshal/Unmarshal and MarshalText/UnmarshalText", "BlsKeyCodec", nil, nil, nil, "bls.(*PublicKey).UnmarshalText")
	c.driver("signatures survive Marshal/Unmarshal and Compress/Decompress", "BlsSigCodec", nil, nil, nil, "bls.(*Signature).Unmarshal")
}

// noPanicKnown reports only panics whose condition is fully known.
func (c *Ctx) noPanicKnown(name string, f *ssa.Function, in *input) bool {
	return c.noPanic(name, f, in)
}
