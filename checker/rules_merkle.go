package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C07", "the Merkle root is the pairwise SHA3-256 fold of every payload hash in order", 20, merkleRoot)
	addRule("C08", "Merkle verification recomputes hashes from the leaf payloads", 15, merkleVerify)
}

const payloadHash = "(" + modPath + "merkletree.Payload).CalculateHash:"

func leafHash(x *Term) *Term { return elems(app("meth", KSlice, payloadHash+"0", x)) }
func leafOK(x *Term) *Term   { return eq(tNil, app("meth", KIface, payloadHash+"1", x)) }

// foldRoot is the specified root.
func foldRoot(level []*Term) *Term {
	if len(level) == 1 {
		level = []*Term{level[0], level[0]}
	}
	for len(level) > 1 {
		var next []*Term
		for i := 0; i < len(level); i += 2 {
			r := level[i]
			if i+1 < len(level) {
				r = level[i+1]
			}
			next = append(next, digest("sha3-256", cat(level[i], r)))
		}
		level = next
	}
	return level[0]
}

func merkleRoot(c *Ctx) {
	f := c.fn("merkletree.NewTree")
	vt := c.fn("merkletree.VerifyTree")
	vc := c.fn("merkletree.(*Tree).VerifyContent")
	rb := c.fn("merkletree.(*Tree).RebuildTree")
	ru := c.fn("merkletree.(*Tree).RebuildTreeUsing")
	if f == nil || vt == nil || vc == nil || rb == nil || ru == nil {
		return
	}
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 31, 32, 33, 64, 65}
	if c.thorough {
		sizes = union(300, sizes, []int{14, 15, 18, 19, 20, 21, 31, 32, 33, 34, 65, 127, 128, 129, 255, 256, 257})
	}
	sizes = union(262, sizes, c.near(260, "merkletree.NewTree", "merkletree.(*Tree).RebuildTree", "merkletree.VerifyTree", "merkletree.(*Tree).VerifyContent"))
	PT := f.Signature.Results().At(0).Type()
	TT := deref(PT)
	NT := TT.Underlying().(*types.Struct).Field(roleIndex(TT, "Root")).Type()
	LT := TT.Underlying().(*types.Struct).Field(roleIndex(TT, "Leaves")).Type()
	HT := TT.Underlying().(*types.Struct).Field(roleIndex(TT, "MerkleRoot")).Type()
	for _, n := range sizes {
		name := fmt.Sprintf("tree over %d payloads", n)
		in := c.input(lensBy(map[string]int{"pl": n})).concrete(300)
		a := in.args(f, "pl")
		el := in.st.slContent(a[0])
		ok := tTrue
		var hs, pls []*Term
		for i := 0; i < n; i++ {
			x := at(el, num(int64(i)), KIface)
			pls = append(pls, x)
			ok = and(ok, leafOK(x))
			hs = append(hs, leafHash(x))
		}
		r := in.call(f, a...)
		c.noPanic(name, f, in)
		tp, er := extract(r, 0, KPtr), extract(r, 1, KIface)
		if n == 0 {
			c.same(name+": refused", f, in.st.facts, boolT(er == tErr), tTrue)
			continue
		}
		c.same(name+": fails exactly when a payload cannot be hashed", f, in.st.facts, eq(er, tNil), ok)
		checkTree := func(in *input, name string, fn interface{}, tp *Term, hs, pls []*Term, facts []*Term) {
			ev, st := in.ev, in.st
			ev.noteElem(tp, TT)
			s := newState()
			s.facts = facts
			tp = fix(s, tp)
			ev.noteElem(tp, TT)
			tv := st.load(tp, TT)
			root := ev.deep(st, field(tv, TT, "MerkleRoot"), HT)
			c.same(name+": root", f, facts, root, foldRoot(hs))
			rp := fix(s, field(tv, TT, "Root"))
			ev.noteElem(rp, deref(NT))
			rv := st.load(rp, deref(NT))
			c.same(name+": hash of the root node", f, facts, ev.deep(st, field(rv, deref(NT), "Hash"), HT), foldRoot(hs))
			lv := fix(s, st.slContent(fix(s, field(tv, TT, "Leaves"))))
			E := LT.Underlying().(*types.Slice).Elem()
			want := len(hs) + len(hs)%2
			c.same(name+": number of leaves", f, facts, lenT(lv), num(int64(want)))
			for i := 0; i < want; i++ {
				j := i
				if j >= len(hs) {
					j = len(hs) - 1
				}
				lp := at(lv, num(int64(i)), KPtr)
				ev.noteElem(lp, deref(E))
				d := fldK(st.load(lp, deref(E)), roleIndex(deref(E), "Data"), deref(E))
				c.same(fmt.Sprintf("%s: payload of leaf %d", name, i), f, facts, d, pls[j])
			}
		}
		facts := append(append([]*Term(nil), in.st.facts...), ok)
		checkTree(in, name, f, tp, hs, pls, facts)
		// the tree verifies
		s1 := *in
		s1.st = in.st.copy()
		s1.st.assume(ok)
		in.ev.log = nil
		tp2 := fix(s1.st, tp)
		v := s1.call(vt, tp2)
		c.same(name+": VerifyTree accepts it", vt, s1.st.facts, extract(v, 0, KBool), tTrue)
		for i := 0; i < n; i++ {
			s2 := *in
			s2.st = in.st.copy()
			s2.st.assume(ok)
			v := s2.call(vc, tp2, pls[i])
			c.same(fmt.Sprintf("%s: VerifyContent accepts payload %d", name, i), vc, s2.st.facts, extract(v, 0, KBool), tTrue)
		}
		// rebuilding
		s3 := *in
		s3.st = in.st.copy()
		s3.st.assume(ok)
		v = s3.call(rb, tp2)
		c.same(name+": RebuildTree succeeds", rb, s3.st.facts, eq(v, tNil), tTrue)
		hs2, pls2 := hs, pls
		if n%2 == 1 {
			hs2 = append(append([]*Term(nil), hs...), hs[n-1])
			pls2 = append(append([]*Term(nil), pls...), pls[n-1])
		}
		checkTree(&s3, name+" rebuilt", rb, tp2, hs2, pls2, s3.st.facts)
	}
	rebuildChanged(c, rb, TT, deref(NT))
	// a tree replaced
	for _, n := range []int{0, 1, 2, 3, 5} {
		in := c.input(lensBy(map[string]int{"pl": n, "t.Leaves": 0})).concrete(300)
		T0 := app("alloc", KPtr, "in:t")
		ptrElem[T0] = TT
		tf := TT.Underlying().(*types.Struct)
		ov := make([]*Term, tf.NumFields())
		for i := range ov {
			ov[i] = zeroVal(tf.Field(i).Type())
		}
		ov[roleIndex(TT, "MerkleRoot")] = symT(KSlice, "oldroot")
		in.st.mem.set(T0, mkStruct(ov...))
		old := in.st.mem.at(T0)
		pl := in.sh.mk(param(ru, 1), "pl")
		el := in.st.slContent(pl)
		ok := boolT(n > 0)
		var hs []*Term
		for i := 0; i < n; i++ {
			x := at(el, num(int64(i)), KIface)
			ok = and(ok, leafOK(x))
			hs = append(hs, leafHash(x))
		}
		r := in.call(ru, T0, pl)
		name := fmt.Sprintf("RebuildTreeUsing %d payloads", n)
		c.same(name+": succeeds exactly when all payloads hash", ru, in.st.facts, eq(r, tNil), ok)
		now := in.st.load(T0, TT)
		bad := append(append([]*Term(nil), in.st.facts...), not(ok))
		c.same(name+": unchanged on failure", ru, bad, in.ev.deep(in.st, now, TT), in.ev.deep(in.st, old, TT))
		if n > 0 {
			good := append(append([]*Term(nil), in.st.facts...), ok)
			c.same(name+": root", ru, good, in.ev.deep(in.st, field(now, TT, "MerkleRoot"), HT), foldRoot(hs))
		}
	}
}

// rebuildChanged: rebuilding hashes the payloads of the leaves anew.
func rebuildChanged(c *Ctx, rb *ssa.Function, TT, NT types.Type) {
	HT := TT.Underlying().(*types.Struct).Field(roleIndex(TT, "MerkleRoot")).Type()
	for _, tn := range sortedKeys(testTrees()) {
		root := testTrees()[tn]()
		in := c.input(nil).concrete(300)
		t := mkTree(in, root, TT, NT)
		r := in.call(rb, t)
		c.noPanic("RebuildTree, "+tn, rb, in)
		c.same("RebuildTree, "+tn+": fails exactly when a payload cannot be hashed", rb, in.st.facts, isNil(r), root.ok())
		good := append(append([]*Term(nil), in.st.facts...), root.ok())
		var hs []*Term
		for _, l := range root.leaves() {
			hs = append(hs, leafHash(l.data))
		}
		now := in.st.load(t, TT)
		c.same("RebuildTree, "+tn+": root of the payloads", rb, good, in.ev.deep(in.st, field(now, TT, "MerkleRoot"), HT), foldRoot(hs))
	}
}

// mnode is a node of a test tree.
type mnode struct {
	name   string
	l, r   *mnode
	parent *mnode
	ptr    *Term
	data   *Term
	hash   *Term
}

func leafN(name string) *mnode { return &mnode{name: name} }
func nodeN(name string, l, r *mnode) *mnode {
	n := &mnode{name: name, l: l, r: r}
	l.parent = n
	r.parent = n
	return n
}

func (n *mnode) leaves() []*mnode {
	if n.l == nil {
		return []*mnode{n}
	}
	if n.l == n.r {
		return n.l.leaves()
	}
	return append(n.l.leaves(), n.r.leaves()...)
}

func (n *mnode) all() []*mnode {
	r := []*mnode{n}
	if n.l != nil {
		r = append(r, n.l.all()...)
		if n.r != n.l {
			r = append(r, n.r.all()...)
		}
	}
	return r
}

func (n *mnode) ok() *Term {
	if n.l == nil {
		return leafOK(n.data)
	}
	return and(n.l.ok(), n.r.ok())
}

func (n *mnode) recomputed() *Term {
	if n.l == nil {
		return leafHash(n.data)
	}
	return digest("sha3-256", cat(n.l.recomputed(), n.r.recomputed()))
}

func (n *mnode) own() *Term { // hash from the children's recorded hashes
	if n.l == nil {
		return leafHash(n.data)
	}
	return digest("sha3-256", cat(n.l.hash, n.r.hash))
}

func (n *mnode) ownOK() *Term {
	if n.l == nil {
		return leafOK(n.data)
	}
	return tTrue
}

func merkleVerify(c *Ctx) {
	vt := c.fn("merkletree.VerifyTree")
	vc := c.fn("merkletree.(*Tree).VerifyContent")
	vn := c.fn("merkletree.VerifyNode")
	cn := c.fn("merkletree.CalculateNodeHash")
	if vt == nil || vc == nil || vn == nil || cn == nil {
		return
	}
	trees := testTrees()
	TT := deref(param(vt, 0))
	NT := deref(param(vn, 0))
	DT := NT.Underlying().(*types.Struct).Field(roleIndex(NT, "Data")).Type()
	for _, tn := range sortedKeys(trees) {
		root := trees[tn]()
		in := c.input(nil).concrete(300)
		t := mkTree(in, root, TT, NT)
		st0 := in.st.copy()
		r := in.call(vt, t)
		c.noPanic("VerifyTree, "+tn, vt, in)
		c.same("VerifyTree, "+tn+": errors", vt, in.st.facts, eq(extract(r, 1, KIface), tNil), root.ok())
		c.same("VerifyTree, "+tn, vt, in.st.facts, extract(r, 0, KBool), and(root.ok(), eq(elems(symT(KSlice, "root")), root.recomputed())))
		for _, n := range root.all() {
			in.st = st0.copy()
			r = in.call(vn, n.ptr)
			ok := append(append([]*Term(nil), in.st.facts...), n.ok())
			c.same("VerifyNode, "+tn+", node "+n.name, vn, ok, in.ev.deep(in.st, extract(r, 0, KSlice), types.NewSlice(byteT)), n.recomputed())
			c.same("VerifyNode, "+tn+", node "+n.name+": errors", vn, in.st.facts, eq(extract(r, 1, KIface), tNil), n.ok())
			in.st = st0.copy()
			r = in.call(cn, n.ptr)
			ok = append(append([]*Term(nil), in.st.facts...), n.ownOK())
			c.same("CalculateNodeHash, "+tn+", node "+n.name, cn, ok, in.ev.deep(in.st, extract(r, 0, KSlice), types.NewSlice(byteT)), n.own())
			c.same("CalculateNodeHash, "+tn+", node "+n.name+": errors", cn, in.st.facts, eq(extract(r, 1, KIface), tNil), n.ownOK())
		}
		in.st = st0.copy()
		in.ev.log = nil
		data := symT(kindOf(DT), "data")
		r = in.call(vc, t, data)
		c.noPanic("VerifyContent, "+tn, vc, in)
		// with all payloads hashable
		facts := append(append([]*Term(nil), in.st.facts...), root.ok(), leafOK(data))
		want := tFalse
		ls := root.leaves()
		for i := len(ls) - 1; i >= 0; i-- {
			good := tTrue
			for p := ls[i].parent; p != nil; p = p.parent {
				good = and(good, eq(p.hash, digest("sha3-256", cat(p.l.own(), p.r.own()))))
			}
			want = ite(eq(leafHash(ls[i].data), leafHash(data)), good, want)
		}
		c.same("VerifyContent, "+tn, vc, facts, extract(r, 0, KBool), want)
		c.same("VerifyContent, "+tn+": no error", vc, facts, eq(extract(r, 1, KIface), tNil), tTrue)
		// payloads that cannot be hashed
		errs := func(what string, pre ...*Term) {
			c.same("VerifyContent, "+tn+": error when "+what, vc, append(append([]*Term(nil), in.st.facts...), pre...), eq(extract(r, 1, KIface), tNil), tFalse)
		}
		errs("the given payload cannot be hashed", not(leafOK(data)))
		before := []*Term{leafOK(data)}
		for i, l := range ls {
			errs(fmt.Sprintf("leaf %d cannot be hashed and none before it matches", i), append(before, not(leafOK(l.data)))...)
			if p := l.parent; p != nil {
				for _, k := range []*mnode{p.l, p.r} {
					if k.l == nil && k != l {
						errs(fmt.Sprintf("leaf %d matches but its sibling cannot be hashed", i), append(before, leafOK(l.data), eq(leafHash(l.data), leafHash(data)), not(leafOK(k.data)))...)
					}
				}
			}
			before = append(before[:len(before):len(before)], leafOK(l.data), not(eq(leafHash(l.data), leafHash(data))))
		}
		// whenever it accepts, there is no error
		acc := append(append([]*Term(nil), in.st.facts...), extract(r, 0, KBool))
		c.same("VerifyContent, "+tn+": never accepts with an error", vc, acc, eq(extract(r, 1, KIface), tNil), tTrue)
	}
}

// testTrees are the shapes of trees considered.
func testTrees() map[string]func() *mnode {
	return map[string]func() *mnode{
		"one leaf":   func() *mnode { return leafN("a") },
		"two leaves": func() *mnode { return nodeN("r", leafN("a"), leafN("b")) },
		"four leaves": func() *mnode {
			return nodeN("r", nodeN("x", leafN("a"), leafN("b")), nodeN("y", leafN("c"), leafN("d")))
		},
		"six leaves": func() *mnode {
			y := nodeN("y", leafN("e"), leafN("f"))
			return nodeN("r", nodeN("p", nodeN("w", leafN("a"), leafN("b")), nodeN("x", leafN("c"), leafN("d"))), nodeN("q", y, y))
		},
		"eight leaves": func() *mnode {
			return nodeN("r", nodeN("p", nodeN("w", leafN("a"), leafN("b")), nodeN("x", leafN("c"), leafN("d"))), nodeN("q", nodeN("y", leafN("e"), leafN("f")), nodeN("z", leafN("g"), leafN("h"))))
		},
		"left heavy":  func() *mnode { return nodeN("r", nodeN("x", leafN("a"), leafN("b")), leafN("c")) },
		"right heavy": func() *mnode { return nodeN("r", leafN("a"), nodeN("x", leafN("b"), leafN("c"))) },
	}
}

// mkTree makes a tree with arbitrary recorded hashes and payloads.
func mkTree(in *input, root *mnode, TT, NT types.Type) *Term {
	nf := NT.Underlying().(*types.Struct)
	DT := nf.Field(roleIndex(NT, "Data")).Type()
	for _, n := range root.all() {
		n.ptr = app("alloc", KPtr, "in:node."+n.name)
		ptrElem[n.ptr] = NT
		n.hash = elems(symT(KSlice, "hash."+n.name))
		n.data = symT(kindOf(DT), "data."+n.name)
	}
	for _, n := range root.all() {
		f := make([]*Term, nf.NumFields())
		for i := range f {
			f[i] = zeroVal(nf.Field(i).Type())
			if k := kindOf(nf.Field(i).Type()); n.l == nil && k == KBool || k == KInt {
				f[i] = symT(k, fmt.Sprintf("%s.%s", nf.Field(i).Name(), n.name))
			}
		}
		set := func(role string, v *Term) {
			if i := roleIndex(NT, role); i >= 0 {
				f[i] = v
			}
		}
		if n.parent != nil {
			set("Parent", n.parent.ptr)
		}
		set("Hash", symT(KSlice, "hash."+n.name))
		if n.l != nil {
			set("Left", n.l.ptr)
			set("Right", n.r.ptr)
		} else {
			set("Data", n.data)
			set("IsLeaf", tTrue)
		}
		in.st.mem.set(n.ptr, mkStruct(f...))
	}
	var lv []*Term
	for _, l := range root.leaves() {
		lv = append(lv, l.ptr)
	}
	ls := app("alloc", KPtr, "in:leaves[]")
	in.st.mem.set(ls, lit(lv...))
	t := app("alloc", KPtr, "in:tree")
	ptrElem[t] = TT
	tf := TT.Underlying().(*types.Struct)
	f := make([]*Term, tf.NumFields())
	for i := range f {
		f[i] = zeroVal(tf.Field(i).Type())
	}
	f[roleIndex(TT, "Root")] = root.ptr
	f[roleIndex(TT, "MerkleRoot")] = symT(KSlice, "root")
	f[roleIndex(TT, "Leaves")] = mkSl(ls, num(0), num(int64(len(lv))))
	in.st.mem.set(t, mkStruct(f...))
	return t
}
