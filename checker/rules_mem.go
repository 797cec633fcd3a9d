package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	addRule("C17", "no operation changes package-level variables or what they refer to", 60, func(c *Ctx) { memRule(c, "C17") })
	addRule("C18", "operations change nothing they are given except the receiver of a mutating method", 60, func(c *Ctx) { memRule(c, "C18") })
	addRule("C19", "results and receivers share no memory with arguments", 60, func(c *Ctx) { memRule(c, "C19") })
}

// A memFn is an exported operation and what it may do to memory.
type memFn struct {
	name string
	mut  bool             // changes its receiver
	ret  bool             // may return its receiver
	keep bool             // may keep or return (parts of) its arguments
	lens []map[string]int // lengths of slices; default several
	pre  func(in *input, a []*Term)
}

var memFns = []memFn{
	{name: "bls.GenKeyPair"}, {name: "bls.UnmarshalPk"}, {name: "bls.NewApk"}, {name: "bls.(*Apk).Copy"}, {name: "bls.UnmarshalApk"},
	{name: "bls.AggregateApk"}, {name: "bls.(*Apk).Aggregate", mut: true}, {name: "bls.(*Apk).AggregateBytes", mut: true},
	{name: "bls.Sign"}, {name: "bls.UnmarshalSignature"}, {name: "bls.(*Signature).Copy"}, {name: "bls.(*Signature).Add", mut: true},
	{name: "bls.(*Signature).AggregateBytes", mut: true}, {name: "bls.(*Signature).Aggregate", mut: true, ret: true},
	{name: "bls.(*Signature).Compress"}, {name: "bls.(*Signature).Decompress", mut: true}, {name: "bls.(*Signature).Marshal"}, {name: "bls.(*Signature).Unmarshal", mut: true},
	{name: "bls.Verify"}, {name: "bls.VerifyBatch"}, {name: "bls.UnsafeSign"},
	{name: "bls.(*UnsafeSignature).Compress"}, {name: "bls.(*UnsafeSignature).Decompress", mut: true}, {name: "bls.(*UnsafeSignature).Marshal"}, {name: "bls.(*UnsafeSignature).Unmarshal", mut: true},
	{name: "bls.UnsafeAggregate"}, {name: "bls.UnsafeBatch"}, {name: "bls.VerifyUnsafeBatch"}, {name: "bls.VerifyUnsafe"}, {name: "bls.VerifyCompressed"},
	{name: "bls.(*PublicKey).Aggregate"}, {name: "bls.(*PublicKey).MarshalText"}, {name: "bls.(*PublicKey).UnmarshalText", mut: true}, {name: "bls.(*PublicKey).Marshal"}, {name: "bls.(*PublicKey).Unmarshal", mut: true},
	{name: "merkletree.NewTree"}, {name: "merkletree.VerifyTree", pre: aTree(false)}, {name: "merkletree.(*Tree).VerifyContent", pre: aTree(false)}, {name: "merkletree.(*Tree).RebuildTree", mut: true, pre: aTree(false)}, {name: "merkletree.(*Tree).RebuildTreeUsing", mut: true, pre: aTree(false)},
	{name: "merkletree.VerifyNode", pre: aTree(true)}, {name: "merkletree.CalculateNodeHash", pre: aTree(true)},
	{name: "hash.PerformHash"}, {name: "hash.Blake2b256"}, {name: "hash.Blake2b512"}, {name: "hash.Sha3256"}, {name: "hash.Sha3512"}, {name: "hash.Xxhash"}, {name: "hash.RandEntropy"}, {name: "hash.CompareChecksum"}, {name: "hash.Checksum"},
	{name: "mlsag.NewDualKey"}, {name: "mlsag.(*DualKey).SetPrimaryKey", mut: true}, {name: "mlsag.(*DualKey).SetCommToZero", mut: true},
	{name: "mlsag.(*DualKey).SetMsg", mut: true, keep: true}, {name: "mlsag.(*DualKey).SubCommToZero", mut: true},
	{name: "mlsag.(*Signature).Encode"}, {name: "mlsag.(*Signature).Decode", mut: true, pre: reads(1, catI(unkBytes(32), be32(2), be32(2), unkBytes(32*8)))}, {name: "mlsag.(Signature).Equals"}, {name: "mlsag.(*Signature).Verify"},
	{name: "mlsag.CalculateKeyImage"}, {name: "mlsag.(*PrivKeys).AddPrivateKey", mut: true}, {name: "mlsag.(PrivKeys).Len"},
	{name: "mlsag.(*Proof).AddDecoy", mut: true}, {name: "mlsag.(*Proof).AddDecoys", mut: true}, {name: "mlsag.(*Proof).AddSecret", mut: true}, {name: "mlsag.(*Proof).LenMembers"},
	{name: "mlsag.(*PubKeys).Equals"}, {name: "mlsag.(PubKeys).Encode"}, {name: "mlsag.(*PubKeys).Decode", mut: true, pre: reads(1, unkBytes(64))}, {name: "mlsag.(*PubKeys).AddPubKey", mut: true}, {name: "mlsag.(*PubKeys).Len"}, {name: "mlsag.(*PubKeys).OutputKey"},
	{name: "mlsag.(Responses).Equals"}, {name: "mlsag.(*Responses).AddResponse", mut: true}, {name: "mlsag.(Responses).Len"}, {name: "mlsag.(Responses).Encode"}, {name: "mlsag.(*Responses).Decode", mut: true, pre: reads(1, unkBytes(64))},
	{name: "rangeproof.BitCommit"},
	{name: "rangeproof/fiatshamir.(*HashCacher).Append", mut: true}, {name: "rangeproof/fiatshamir.(*HashCacher).Result", keep: true}, {name: "rangeproof/fiatshamir.(*HashCacher).Clear", mut: true}, {name: "rangeproof/fiatshamir.(*HashCacher).Derive"},
	{name: "rangeproof/generators.New", keep: true}, {name: "rangeproof/generators.(*Generator).Clear", mut: true}, {name: "rangeproof/generators.(*Generator).Iterate", mut: true}, {name: "rangeproof/generators.(*Generator).Compute", mut: true},
	{name: "rangeproof/innerproduct.Generate", lens: []map[string]int{{"*": 1}, {"*": 2}, {"*": 4}}},
	{name: "rangeproof/innerproduct.(*Proof).VerifScalars", lens: []map[string]int{{"*": 1}, {"*": 2}}},
	{name: "rangeproof/innerproduct.(*Proof).Verify", lens: []map[string]int{{"p0.L": 1, "p0.R": 1, "*": 2, "p3": 1, "p4": 1}, {"p0.L": 0, "p0.R": 0, "*": 1, "p3": 0, "p4": 0}}, pre: ippN},
	{name: "rangeproof/innerproduct.(*Proof).Encode"}, {name: "rangeproof/innerproduct.(*Proof).Decode", mut: true, pre: reads(1, unkBytes(64+128))}, {name: "rangeproof/innerproduct.(*Proof).Equals"}, {name: "rangeproof/innerproduct.DiffNextPow2"},
	{name: "rangeproof/pedersen.New", keep: true}, {name: "rangeproof/pedersen.(*Commitment).Encode"}, {name: "rangeproof/pedersen.EncodeCommitments"}, {name: "rangeproof/pedersen.(*Commitment).Decode", mut: true, pre: reads(1, unkBytes(32))}, {name: "rangeproof/pedersen.DecodeCommitments", pre: reads(0, catI(be32(2), unkBytes(64)))},
	{name: "rangeproof/pedersen.(*Commitment).EqualValue"}, {name: "rangeproof/pedersen.(*Commitment).Equals"},
	{name: "rangeproof/pedersen.(*Pedersen).CommitToScalar"}, {name: "rangeproof/pedersen.(*Pedersen).CommitToVectors", mut: true},
	{name: "rangeproof.Verify", lens: []map[string]int{{"p0.V": 1, "p0.IPProof.L": 6, "p0.IPProof.R": 6}, {"p0.V": 2, "p0.IPProof.L": 7, "p0.IPProof.R": 7}}},
	{name: "rangeproof.(*Proof).Encode"}, {name: "rangeproof.(*Proof).Decode", mut: true, pre: reads(1, catI(be32(2), unkBytes(32*2+32*7+64+128)))}, {name: "rangeproof.(*Proof).Equals"},
	{name: "rangeproof/vector.Add"}, {name: "rangeproof/vector.AddScalar"}, {name: "rangeproof/vector.Sub"}, {name: "rangeproof/vector.Neg"}, {name: "rangeproof/vector.SubScalar"}, {name: "rangeproof/vector.MulScalar"},
	{name: "rangeproof/vector.InnerProduct"}, {name: "rangeproof/vector.Exp", pre: expN}, {name: "rangeproof/vector.ScalarPowers"}, {name: "rangeproof/vector.ScalarPowersSum"}, {name: "rangeproof/vector.Hadamard"}, {name: "rangeproof/vector.FromScalar"},
	{name: "rangeproof/vector.SplitPoints", keep: true, pre: splitN}, {name: "rangeproof/vector.SplitScalars", keep: true, pre: splitN},
	{name: "ringsig/blsag.Sign"}, {name: "ringsig/blsag.Verify"},
}

func ippN(in *input, a []*Term)   { a[len(a)-1] = lenT(in.st.slContent(a[1])) }
func expN(in *input, a []*Term)   { a[2], a[3] = lenT(in.st.slContent(a[0])), num(1) }
func splitN(in *input, a []*Term) { a[1] = num(1) }

// reads makes argument i a reader of the given bytes (-1: any) and a flag true.
func reads(i int, bytes []int) func(in *input, a []*Term) {
	return func(in *input, a []*Term) {
		var el []*Term
		for j, b := range bytes {
			t := num(int64(b))
			if b < 0 {
				t = symT(KInt, fmt.Sprintf("x[%d]", j))
				t.nn = true
			}
			el = append(el, t)
		}
		a[i] = intern("rseq", KIface, "", []*Term{lit(el...)})
		in.st.assume(not(isNil(a[i])))
		if i+1 < len(a) && a[i+1].k == KBool {
			a[i+1] = tTrue
		}
	}
}

// aTree makes the first argument a tree, or its root node.
func aTree(node bool) func(in *input, a []*Term) {
	return func(in *input, a []*Term) {
		vt, vn := in.c.p.find("merkletree.VerifyTree"), in.c.p.find("merkletree.VerifyNode")
		if vt == nil || vn == nil {
			return
		}
		root := testTrees()["four leaves"]()
		t := mkTree(in, root, deref(param(vt, 0)), deref(param(vn, 0)))
		if node {
			t = root.ptr
		}
		a[0] = t
	}
}

// A memRun is one evaluation with the state before it.
type memRun struct {
	c      *Ctx
	m      memFn
	f      *ssa.Function
	name   string
	in     *input
	before *State
	args   []*Term
	types  []types.Type
	res    *Term
	resT   []types.Type
}

// pointees lists the memory a value leads to.
func pointees(st *State, seen map[*Term]bool, v *Term) {
	switch v.op {
	case "alloc", "back", "glob":
		if seen[v] {
			return
		}
		seen[v] = true
		if x, ok := st.mem.get(v); ok {
			pointees(st, seen, x)
		}
		return
	case "pf", "pi":
		pointees(st, seen, rootOf(v))
		return
	case "sl":
		if v.a[2].isConst() && v.a[2].s == "0" && !st.dead {
			return // empty: nothing to share
		}
		pointees(st, seen, v.a[0])
		return
	case "sym", "at", "fld":
		if v.k == KSlice {
			pointees(st, seen, slBase(v))
		}
		return
	case "elems", "slen", "const", "nil", "hash", "rand":
		return
	case "struct", "lit", "cat", "rep", "ite", "iface", "tuple", "upd", "lam":
		for _, x := range v.a {
			switch x.k {
			case KBool, KInt, KSc, KPt, KG1, KG2, KGT:
				continue
			}
			pointees(st, seen, x)
		}
	}
}

func isInput(r *Term) bool {
	// ippN is what the abstract inner-product prover returned
	return r.op == "alloc" && strings.HasPrefix(r.s, "in:") && !strings.HasPrefix(r.s, "in:ipp") ||
		r.op == "back" && !(len(r.a) > 0 && strings.HasPrefix(r.a[0].s, "ipp"))
}

func (c *Ctx) memRuns(each func(r *memRun)) {
	for _, m := range memFns {
		f := c.p.find(m.name)
		if f == nil {
			c.fn(m.name)
			continue
		}
		c.funcs[m.name] = true
		lens := m.lens
		if lens == nil {
			lens = []map[string]int{{"*": 2}, {"*": 0}, {"*": 1}, {"*": 3}}
		}
		hasSlice := false
		for i := range f.Params {
			hasSlice = hasSlice || !flatType(f.Params[i].Type())
		}
		if !hasSlice {
			lens = lens[:1]
		}
		for _, l := range lens {
			in := c.input(lensOr(l)).concrete(300)
			in.sh.anyBytes = true
			var a []*Term
			var ts []types.Type
			for i, p := range f.Params {
				T := p.Type()
				x := tNil
				if !strings.HasPrefix(m.name, "merkletree.") || kindOf(T) != KPtr {
					x = in.sh.mk(T, fmt.Sprintf("p%d", i))
				}
				if kindOf(T) == KInt {
					x = num(2)
				}
				a, ts = append(a, x), append(ts, T)
			}
			if m.pre != nil {
				m.pre(in, a)
			}
			in.ev.choose = func(b *Term) *Term { return num(0) }
			r := &memRun{c: c, m: m, f: f, in: in, args: a, types: ts, name: fmt.Sprintf("%s%s", m.name, lensName(l))}
			r.before = in.st.copy()
			t0 := time.Now()
			r.res = in.call(f, a...)
			if os.Getenv("VERIF_MEM") != "" {
				fmt.Fprintln(os.Stderr, r.name, "dead", in.st.dead, "log", len(in.ev.log), clip(showT(r.res, 3)))
			}
			if d := time.Since(t0); d > time.Second && os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, r.name, d)
			}
			if in.st.dead {
				continue
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				r.resT = append(r.resT, f.Signature.Results().At(i).Type())
			}
			each(r)
		}
	}
}

func lensName(l map[string]int) string {
	var s []string
	for k, v := range l {
		s = append(s, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(s)
	return " (" + strings.Join(s, " ") + ")"
}

// lensOr: "*" is the length of all slices but those of bytes.
func lensOr(l map[string]int) func(string) int {
	by := lensBy(l)
	return func(path string) int {
		if n := by(path); n >= 0 {
			return n
		}
		if n, ok := l["*"]; ok {
			return n
		}
		return -1
	}
}

func memRule(c *Ctx, which string) {
	if which == "C17" {
		globalStores(c)
	}
	c.memProve(func(r *memRun) { r.check(which) })
	c.memRuns(func(r *memRun) { r.check(which) })
	if which == "C19" {
		ownSignature(c)
	}
}

func (r *memRun) check(which string) {
	c, in := r.c, r.in
	fs := newState()
	fs.facts = in.st.facts
	recv := map[*Term]bool{}
	if r.f.Signature.Recv() != nil {
		b := r.before.copy()
		b.dead = true // empty slices too
		pointees(b, recv, r.args[0])
		if !strings.Contains(r.m.name, "HashCacher") && !strings.HasPrefix(r.m.name, "merkletree.") {
			// seeds and messages may be held, not changed
			r.heldBytes(recv, r.args[0], r.types[0], 4)
		}
	}
	argRoots := map[*Term]bool{}
	for i, a := range r.args {
		if i == 0 && r.f.Signature.Recv() != nil && kindOf(r.types[0]) == KPtr {
			continue
		}
		pointees(r.before, argRoots, a)
	}
	switch which {
	case "C17", "C18":
		var keys []*Term
		for p := range in.st.mem.all() {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		bad := false
		for _, p := range keys {
			glob := p.op == "glob" || c.gmem[p] != nil
			if (which == "C17") != glob || !glob && !isInput(p) {
				continue
			}
			if r.m.mut && recv[p] && !argRoots[p] {
				continue
			}
			old, ok := r.before.mem.get(p)
			if !ok {
				old = c.gmem[p]
			}
			if old == nil {
				if p.op == "back" {
					old = elems(p.a[0])
				} else if T := ptrElem[p]; T != nil {
					old = defaultVal(p, T)
				} else {
					continue
				}
			}
			now := in.st.mem.at(p)
			if now == old {
				continue
			}
			e := equiv(in.st.facts, now, old)
			if e.ok {
				continue
			}
			bad = true
			if e.gaveUp {
				c.undecided(r.name, r.f, "too many cases")
				continue
			}
			if why := uninterpreted(e.a, e.b); why != "" {
				if w := now; w.op == "unk" && inPlace(w.s) {
					c.failed(r.m.name+" changes "+rootName(p), r.f, r.storePos(p), "call of "+strings.SplitN(w.s, ":", 2)[0]+" on "+rootName(p), "it orders the elements in place")
					continue
				}
				c.undecided(r.name, r.f, why)
				continue
			}
			c.failed(r.m.name+" changes "+rootName(p), r.f, r.storePos(p), "store to "+rootName(p), "before: "+clip(showT(e.b, 6)), "after: "+clip(showT(e.a, 6)))
		}
		if which == "C18" {
			for _, e := range in.ev.log {
				if e.kind != "append" || e.ok || e.t[1].op == "nil" {
					continue
				}
				t := map[*Term]bool{}
				if n := slLen(e.t[1]); n.isConst() && n.s == "0" {
					continue
				}
				base := slBase(e.t[0])
				pointees(newState(), t, base)
				for p := range t {
					if isInput(p) && !(r.m.mut && recv[p] && !argRoots[p]) {
						bad = true
						c.failed(r.m.name+" appends to "+rootName(p), r.f, e.pos, "append to memory of the caller", "the elements after the end of the slice may be overwritten")
					}
				}
			}
		}
		if !bad {
			c.proved(r.name, r.f)
		}
	case "C19":
		if r.m.keep {
			return
		}
		out := map[*Term]bool{}
		if len(r.resT) == 1 {
			r.out(out, fix(fs, r.res), r.resT[0])
		} else {
			for i, T := range r.resT {
				r.out(out, fix(fs, extract(r.res, i, kindOf(T))), T)
			}
		}
		bad := false
		for p := range out {
			if r.m.ret && recv[p] && !argRoots[p] {
				continue
			}
			if isInput(p) {
				bad = true
				c.failed(r.m.name+": the result shares memory with "+rootName(p), r.f, 0, "result of "+shortFn(r.f))
			} else if c.gmem[p] != nil || p.op == "glob" {
				bad = true
				c.failed(r.m.name+": the result shares memory with package variables", r.f, 0, "result of "+shortFn(r.f))
			}
		}
		if r.m.mut && kindOf(r.types[0]) == KPtr {
			now := map[*Term]bool{}
			pointees(in.st, now, r.args[0])
			for p := range now {
				if argRoots[p] && !recv[p] {
					bad = true
					c.failed(r.m.name+": the receiver keeps memory of "+rootName(p), r.f, 0, "receiver of "+shortFn(r.f))
				} else if c.gmem[p] != nil || p.op == "glob" {
					bad = true
					c.failed(r.m.name+": the receiver shares memory with package variables", r.f, 0, "receiver of "+shortFn(r.f))
				}
			}
		}
		if !bad {
			c.proved(r.name, r.f)
		}
	}
}

// inPlace tells whether a library function reorders the slice it is given.
func inPlace(s string) bool {
	return strings.HasPrefix(s, "sort.S") && !strings.HasPrefix(s, "sort.Search") || strings.HasPrefix(s, "slices.Sort") || strings.HasPrefix(s, "slices.Reverse")
}

// heldBytes removes the byte slices that a value leads to.
func (r *memRun) heldBytes(m map[*Term]bool, v *Term, T types.Type, depth int) {
	if depth == 0 {
		return
	}
	switch t := T.Underlying().(type) {
	case *types.Pointer:
		if kindOf(T) != KPtr {
			return
		}
		if v.op == "alloc" && kindOf(t.Elem()) == KStruct {
			r.heldBytes(m, r.before.copy().load(v, t.Elem()), t.Elem(), depth-1)
		}
	case *types.Struct:
		if kindOf(T) != KStruct {
			return
		}
		for i := 0; i < t.NumFields(); i++ {
			r.heldBytes(m, fldK(v, i, T), t.Field(i).Type(), depth-1)
		}
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			x := map[*Term]bool{}
			b := r.before.copy()
			b.dead = true
			pointees(b, x, v)
			for p := range x {
				delete(m, p)
			}
		}
	}
}

func (r *memRun) out(m map[*Term]bool, v *Term, T types.Type) {
	if isError(T) {
		return
	}
	pointees(r.in.st, m, v)
}

// storePos finds a store to the memory p.
func (r *memRun) storePos(p *Term) (pos token.Pos) {
	for _, e := range r.in.ev.log {
		if e.kind == "store" && len(e.t) > 0 && e.t[0] != nil && rootOf(e.t[0]) == p && e.pos != 0 {
			return e.pos
		}
	}
	return 0
}

func rootName(p *Term) string {
	switch p.op {
	case "alloc":
		s := strings.TrimPrefix(p.s, "in:")
		if i := strings.LastIndex(s, ":"); i > 0 {
			s = s[:i]
		}
		if strings.HasPrefix(p.s, "in:") {
			return "argument " + s
		}
		return "memory of package variables"
	case "back":
		return "argument " + p.a[0].s
	}
	return p.s
}

// globalStores: stores to package variables outside initialisation.
func globalStores(c *Ctx) {
	io := initOnly(c.p)
	bad := false
	for f := range allFuncs(c.p) {
		if io[f] || !c.p.mine(f) || f.Pkg != nil && !c.p.isRepo(f.Pkg) || f.Parent() != nil && io[f.Parent()] {
			continue
		}
		if guarded(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					addr = x.Addr
				case *ssa.MapUpdate:
					addr = x.Map
				default:
					continue
				}
				for {
					switch x := addr.(type) {
					case *ssa.FieldAddr:
						addr = x.X
						continue
					case *ssa.IndexAddr:
						addr = x.X
						continue
					case *ssa.UnOp:
						addr = x.X
						continue
					}
					break
				}
				if g, ok := addr.(*ssa.Global); ok {
					bad = true
					c.failed("package variables are only set during initialisation", f, in.Pos(), "store to "+g.Name())
				}
			}
		}
	}
	if !bad {
		c.proved("package variables are only set during initialisation", nil)
	}
}

// guarded tells whether f synchronises: its stores may be guarded, which this
// analysis does not decide.
func guarded(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && h.Pkg != nil && h.Pkg.Pkg.Path() == "sync" {
						return true
					}
				}
			}
		}
	}
	return false
}

// memProve: the range prover, with the inner-product argument abstract.
func (c *Ctx) memProve(each func(r *memRun)) {
	f := c.fn("rangeproof.Prove")
	if f == nil {
		return
	}
	for _, n := range []int{1, 2, 3} {
		debug := n == 2 && c.thorough
		if debug {
			n = 1
		}
		var before *State
		var args []*Term
		q := c.proveHook(n, debug, true, func(in *input, a []*Term) { before, args = in.st.copy(), a })
		if q == nil {
			continue
		}
		r := &memRun{c: c, m: memFn{name: "rangeproof.Prove"}, f: f, in: q.in, args: args, before: before, name: q.name, res: q.r}
		for i := range f.Params {
			r.types = append(r.types, param(f, i))
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			r.resT = append(r.resT, f.Signature.Results().At(i).Type())
		}
		each(r)
	}
}

// ownSignature: signatures do not share memory with the object that made them.
func ownSignature(c *Ctx) {
	f := c.fn("mlsag.(*DualKey).Prove")
	d := c.drv("MlsagDual")
	if f == nil || d == nil {
		return
	}
	for n := 0; n <= 3; n++ {
		in := c.input(lensBy(map[string]int{"decoys": n, "decoys[*]": 2})).concrete(80)
		in.ev.choose = func(b *Term) *Term { return num(0) }
		a := in.args(d, "m", "x", "z", "decoys")
		for _, k := range a[1:3] {
			in.st.assume(not(eq(k, numK(KSc, 0))))
		}
		p := in.call(d, a...)
		r := in.call(f, p)
		name := fmt.Sprintf("DualKey.Prove with %d decoys", n)
		if in.st.dead {
			continue
		}
		fs := newState()
		fs.facts = in.st.facts
		obj, out, arg := map[*Term]bool{}, map[*Term]bool{}, map[*Term]bool{}
		pointees(in.st, obj, fix(fs, p))
		pointees(in.st, out, fix(fs, extract(r, 0, KPtr)))
		for _, x := range a {
			pointees(in.st, arg, x)
		}
		if len(out) == 0 {
			c.undecided(name, f, "signature not found")
			continue
		}
		bad := false
		for x := range out {
			if obj[x] {
				bad = true
				c.failed("DualKey.Prove: the signature shares memory with the signer", f, 0, "result of "+shortFn(f), name)
			} else if arg[x] {
				bad = true
				c.failed("DualKey.Prove: the signature shares memory with "+rootName(x), f, 0, "result of "+shortFn(f), name)
			}
		}
		if !bad {
			c.proved(name, f)
		}
	}
}
