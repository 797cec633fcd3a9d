package main

import "fmt"

func init() {
	addRule("C25", "encoders report the failure of any write, and nothing else", 60, writeRule)
}

// writeRule encodes to a writer of which any write may fail.
func writeRule(c *Ctx) {
	enc := func(k *codec, name string, lens map[string]int, flag bool) {
		f, g, af := c.drv(k.enc), c.drv(k.enc+"To"), c.fn(k.encA)
		if f == nil || g == nil || af == nil {
			return
		}
		in := c.input(lensBy(lens)).concrete(2000)
		v := in.sh.mk(param(f, 0), "v")
		a := []*Term{v}
		if k.flag {
			a = append(a, boolT(flag))
		}
		sp := in.fork()
		want := sp.st.slContent(extract(sp.call(f, a...), 0, KSlice))
		w := in.sh.mk(param(g, 1), "w")
		mark := len(in.ev.log)
		r := in.call(g, append([]*Term{v, w}, a[1:]...)...)
		c.noPanic(name, af, in)
		ok := isNil(r)
		// what has been written when there is no error
		st := newState()
		for _, x := range append(append([]*Term(nil), in.st.facts...), ok) {
			st.assume(x)
		}
		if st.dead {
			c.failed(name+": can be written", af, 0, "result of "+shortFn(af))
			return
		}
		got, has := in.st.mem.get(intern("wout", KPtr, "", []*Term{w}))
		if !has {
			got = tEmpty
		}
		c.same(name+": without an error the whole encoding is written", af, st.facts, got, want)
		// success exactly when no write fails
		none := tTrue
		n := 0
		for _, e := range in.ev.log[mark:] {
			if e.kind != "write" || e.t[0] != w {
				continue
			}
			n++
			x := and(e.facts...)
			none = and(none, or(not(x), not(e.t[2])))
			c.same(fmt.Sprintf("%s: write %d fails, error", name, n), af, append(append([]*Term(nil), e.facts...), e.t[2]), ok, tFalse)
		}
		if n > 64 {
			return
		}
		c.same(name+": no write fails, no error", af, append(append([]*Term(nil), in.st.facts...), none), ok, tTrue)
	}
	small := []int{0, 1, 2, 3, 5}
	if c.thorough {
		small = append(small, 8, 17)
	}
	for _, flag := range []bool{false, true} {
		for _, n := range union(40, small, c.near(34, "mlsag.(*Signature).Encode")) {
			for _, m := range []int{1, 2, 3} {
				if n == 0 && m > 1 || n > 5 && m > 1 {
					continue
				}
				enc(codecByName("mlsag.Signature"), fmt.Sprintf("mlsag.Signature of %d × %d, keys %v", n, m, flag), map[string]int{"v.[]Responses": n, "v.[]Responses[*]": m, "v.PubKeys": n, "v.PubKeys[*].[]Point": m}, flag && n > 0)
			}
		}
		for _, m := range []int{0, 1, 2, 4} {
			for _, n := range []int{0, 1, 2, 6} {
				enc(codecByName("rangeproof.Proof"), fmt.Sprintf("rangeproof.Proof of %d commitments, %d rounds, commitments %v", m, n, flag), map[string]int{"v.V": m, "v.Blinders": m, "v.IPProof.L": n, "v.IPProof.R": n}, flag)
			}
		}
	}
	for _, n := range union(40, small, c.near(34, "mlsag.(PubKeys).Encode", "mlsag.(Responses).Encode", "rangeproof/innerproduct.(*Proof).Encode", "rangeproof/pedersen.EncodeCommitments")) {
		l := map[string]int{"v.[]Point": n, "v": n, "v.L": n, "v.R": n}
		for _, k := range []string{"mlsag.PubKeys", "mlsag.Responses", "innerproduct.Proof", "commitments"} {
			enc(codecByName(k), fmt.Sprintf("%s of %d", k, n), l, false)
		}
	}
	enc(codecByName("pedersen.Commitment"), "pedersen.Commitment", nil, false)
}
