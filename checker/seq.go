package main

import (
	"encoding/hex"
	"math/big"
	"strconv"
	"strings"
)

// Sequences: cat of pieces. Pieces: bytes (constant), lit (elements),
// rep (n, λk. sequence), encodings and symbolic contents.

var digestLen = map[string]int64{
	"sha3-256": 32, "sha3-512": 64, "blake2b-256": 32, "blake2b-512": 64, "xxhash-64": 8,
	"sha256": 32, "sha512": 64, "sha3-224": 28, "sha3-384": 48, "blake2b-384": 48, "xxhash-32": 4,
	"sha1": 20, "md5": 16, "sha224": 28, "sha384": 48, "sha512-256": 32, "sha512-224": 28, "keccak-256": 32, "keccak-512": 64, "blake2s-256": 32,
}

var blockLen = map[string]int64{
	"sha3-224": 144, "sha3-256": 136, "sha3-384": 104, "sha3-512": 72, "keccak-256": 136, "keccak-512": 72,
	"blake2b-256": 128, "blake2b-384": 128, "blake2b-512": 128, "xxhash-64": 32, "xxhash-32": 16,
	"sha256": 64, "sha512": 128, "sha1": 64, "md5": 64,
}

func lenT(s *Term) *Term {
	switch s.op {
	case "upd", "rep", "cat":
		if s.ln == nil {
			s.ln = lenT1(s)
		}
		return s.ln
	}
	return lenT1(s)
}

func lenT1(s *Term) *Term {
	switch s.op {
	case "cat":
		r := num(0)
		for _, x := range s.a {
			r = add(r, lenT(x))
		}
		return r
	case "bytes":
		return num(int64(len(s.s)))
	case "lit":
		return num(int64(len(s.a)))
	case "rep":
		it, b := openB(s)
		return mkSum(KInt, s.a[0], it, lenT(b))
	case "sbytes", "pbytes":
		return num(32)
	case "digest":
		if n, ok := digestLen[s.s]; ok {
			return num(n)
		}
	case "genc":
		switch s.s {
		case "g1":
			return num(64)
		case "g1c":
			return num(33)
		case "g2":
			return num(129)
		case "gt":
			return num(384)
		}
	case "benc":
		n, _ := strconv.Atoi(s.s[1:])
		return num(int64(n / 8))
	case "upd":
		return lenT(s.a[0])
	case "sub":
		return s.a[2]
	case "rd":
		return s.a[2]
	case "arr": // symbolic array of constant length
		n, _ := strconv.Atoi(s.s[strings.LastIndexByte(s.s, ':')+1:])
		return num(int64(n))
	case "rand":
		return s.a[0]
	case "b64":
		t := intern("enclen", KInt, "", []*Term{s.a[0], lenT(s.a[1])})
		t.nn = true
		return t
	case "ite":
		a, b := lenT(s.a[1]), lenT(s.a[2])
		return ite(s.a[0], a, b)
	}
	return intern("len", KInt, "", []*Term{s})
}

func lit(a ...*Term) *Term {
	if len(a) == 0 {
		return tEmpty
	}
	return intern("lit", KSeq, "", append([]*Term(nil), a...))
}

func bytesT(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return intern("bytes", KSeq, s, nil)
}

// asBytes reads a constant byte sequence.
func asBytes(t *Term) (string, bool) {
	switch t.op {
	case "bytes":
		return t.s, true
	case "lit":
		var sb []byte
		for _, x := range t.a {
			if !x.isConst() || x.k != KInt {
				return "", false
			}
			n := x.big()
			if !n.IsInt64() || n.Int64() < 0 || n.Int64() > 255 {
				return "", false
			}
			sb = append(sb, byte(n.Int64()))
		}
		return string(sb), true
	case "cat":
		if len(t.a) == 0 {
			return "", true
		}
	}
	return "", false
}

func cat(xs ...*Term) *Term {
	var out []*Term
	var push func(x *Term)
	push = func(x *Term) {
		if x.op == "cat" {
			for _, y := range x.a {
				push(y)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if m := merge2(l, x); m != nil {
				out = out[:len(out)-1]
				push(m)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		push(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern("cat", KSeq, "", out)
}

// merge2 joins two adjacent pieces.
func merge2(l, x *Term) *Term {
	if l.op == "bytes" || x.op == "bytes" {
		a, ok1 := asBytes(l)
		b, ok2 := asBytes(x)
		if ok1 && ok2 {
			return bytesT(a + b)
		}
	}
	if l.op == "lit" && x.op == "lit" {
		// an element may be the neighbour of a following rep, so lists of
		// elements are joined only here
		return lit(append(append([]*Term(nil), l.a...), x.a...)...)
	}
	if x.op == "rep" {
		// f(-1) ++ rep(n, f)
		e := instB(x, num(-1))
		if !bad(e) {
			if r := dropSuffix(l, e); r != nil {
				it := newIter("p", nil)
				return cat(r, mkRep(addInt(x.a[0], 1), it, instB(x, addInt(it, -1))))
			}
		}
	}
	if l.op == "rep" {
		e := instB(l, l.a[0])
		if !bad(e) {
			if r := dropPrefix(x, e); r != nil {
				it := newIter("p", nil)
				return cat(mkRep(addInt(l.a[0], 1), it, instB(l, it)), r)
			}
		}
		if x.op == "rep" {
			// rep(n,f) ++ rep(m, k ↦ f(n+k))
			it := newIter("p", nil)
			if instB(x, it) == instB(l, add(it, l.a[0])) {
				return mkRep(add(l.a[0], x.a[0]), it, instB(l, it))
			}
		}
	}
	if l.op == "sub" && x.op == "sub" && l.a[0] == x.a[0] && add(l.a[1], l.a[2]) == x.a[1] {
		return sub(l.a[0], l.a[1], add(l.a[2], x.a[2]))
	}
	return nil
}

// dropSuffix returns l without the suffix e, or nil.
func dropSuffix(l, e *Term) *Term {
	if l == e {
		return tEmpty
	}
	if l.op == "lit" && e.op == "lit" && len(e.a) < len(l.a) {
		n := len(l.a) - len(e.a)
		if lit(l.a[n:]...) == e {
			return lit(l.a[:n]...)
		}
	}
	return nil
}

func dropPrefix(l, e *Term) *Term {
	if l == e {
		return tEmpty
	}
	if l.op == "lit" && e.op == "lit" && len(e.a) < len(l.a) {
		n := len(e.a)
		if lit(l.a[:n]...) == e {
			return lit(l.a[n:]...)
		}
	}
	return nil
}

func pieces(s *Term) []*Term {
	if s.op == "cat" {
		return s.a
	}
	return []*Term{s}
}

func mkRep(n, it, body *Term) *Term {
	if body == tEmpty {
		return tEmpty
	}
	if n.isConst() {
		switch {
		case n.s == "0" || strings.HasPrefix(n.s, "-"):
			return tEmpty
		case n.s == "1":
			return subst1(body, it, num(0))
		}
	}
	if n.op == "ite" && n.k == KInt {
		return ite(n.a[0], mkRep(n.a[1], it, body), mkRep(n.a[2], it, body))
	}
	if it.rng == nil {
		// give simplifications the range of the index
		it2 := newIter("r", n)
		body = subst1(body, it, it2)
		it = it2
	}
	if body.op == "lit" && len(body.a) == 1 {
		e := body.a[0]
		// eta: [s[c], s[c+1], ...] is a part of s
		if e.op == "at" && !occurs(e.a[0], it) {
			if c, rest, ok := coefOf(e.a[1], it); ok && c.isConst() && c.s == "1" {
				return sub(e.a[0], rest, n)
			}
		}
		if e.op == "struct" && len(e.a) > 0 {
			// eta for structs
			var src *Term
			good := true
			for i, f := range e.a {
				if f.op != "fld" || f.s != strconv.Itoa(i) || (src != nil && f.a[0] != src) {
					good = false
					break
				}
				src = f.a[0]
			}
			if good {
				return mkRep(n, it, lit(src))
			}
		}
	}
	if parts := splitCat(n, it, body); parts != nil {
		var r []*Term
		for _, p := range parts {
			r = append(r, mkRep(p.n, p.it, p.body))
		}
		return cat(r...)
	}
	return bindRaw("rep", KSeq, n, it, body)
}

type part struct{ n, it, body *Term }

// splitCat splits a binder over 0..n whose body indexes a concatenation with
// the bound variable, when the pieces cover 0..n.
func splitCat(n, it, body *Term) []part {
	var found *Term
	walk(body, func(t *Term) bool {
		if found != nil || t.fv&(1<<(uint(it.id)%64)) == 0 {
			return false
		}
		if t.op == "at" && t.a[1] == it && t.a[0].op == "cat" && !occurs(t.a[0], it) {
			if lenT(t.a[0]) == n {
				found = t
				return false
			}
		}
		return true
	})
	if found == nil {
		return nil
	}
	ps := found.a[0].a
	// group pieces: consecutive single-element pieces stay together
	var r []part
	off := num(0)
	for _, p := range ps {
		l := lenT(p)
		it2 := newIter("s", l)
		b := body
		ix := add(it2, off)
		m := map[*Term]*Term{it: ix}
		b = newSubst(m).do(b)
		r = append(r, part{l, it2, b})
		off = add(off, l)
	}
	return r
}

// atPiece finds the element idx of the cat s when ranges decide the piece.
func at(s, idx *Term, k Kind) *Term {
	switch s.op {
	case "ite":
		return ite(s.a[0], at(s.a[1], idx, k), at(s.a[2], idx, k))
	case "bytes":
		if idx.isConst() && idx.big().IsInt64() {
			if i := idx.big().Int64(); i >= 0 && i < int64(len(s.s)) {
				return num(int64(s.s[i]))
			}
		}
	case "lit":
		if idx.isConst() && idx.big().IsInt64() {
			if i := idx.big().Int64(); i >= 0 && i < int64(len(s.a)) {
				return s.a[i]
			}
		}
		if idx.op == "ite" {
			return ite(idx.a[0], at(s, idx.a[1], k), at(s, idx.a[2], k))
		}
		if len(s.a) > 0 {
			same := true
			for _, x := range s.a {
				same = same && x == s.a[0]
			}
			if same {
				return s.a[0]
			}
		}
	case "cat":
		if idx.isConst() && idx.big().IsInt64() {
			// skip the parts of known length
			o, i := idx.big().Int64(), 0
			for ; i < len(s.a); i++ {
				l := lenT(s.a[i])
				if !l.isConst() || !l.big().IsInt64() {
					break
				}
				if n := l.big().Int64(); o < n {
					if o < 0 {
						break
					}
					return at(s.a[i], num(o), k)
				} else {
					o -= n
				}
			}
		}
		off := num(0)
		for i, p := range s.a {
			l := lenT(p)
			d := subT(subT(idx, off), l)
			if provNeg(d) {
				return at(p, subT(idx, off), k)
			}
			if provNonneg(d) {
				off = add(off, l)
				continue
			}
			if i == 0 {
				break
			}
			rest := cat(s.a[i:]...)
			if rest.op != "cat" || len(rest.a) < len(s.a) {
				return at(rest, subT(idx, off), k)
			}
			break
		}
	case "rep":
		it, b := openB(s)
		l := lenT(b)
		if l.isConst() && l.s == "1" {
			return at(subst1(b, it, idx), num(0), k)
		}
		if !occurs(l, it) {
			q, r := divT(idx, l), mod(idx, l)
			return at(subst1(b, it, q), r, k)
		}
	case "upd":
		if idx.isConst() {
			// skip the updates of other elements
			for s.op == "upd" && s.a[1].isConst() {
				if s.a[1] == idx {
					return s.a[2]
				}
				s = s.a[0]
			}
			if s.op != "upd" {
				return at(s, idx, k)
			}
		}
		d := subT(idx, s.a[1])
		if d.isConst() {
			if d.s == "0" {
				return s.a[2]
			}
			return at(s.a[0], idx, k)
		}
		if provNeg(d) || provNeg(neg(d)) {
			return at(s.a[0], idx, k)
		}
		return ite(eq0(d), s.a[2], at(s.a[0], idx, k))
	case "sub":
		return at(s.a[0], add(s.a[1], idx), k)
	case "rd":
		t := intern("at", k, "", []*Term{rdT(s.a[0], add(s.a[1], idx), num(1)), num(0)})
		if k == KInt {
			t.nn = true
		}
		return t
	}
	return intern("at", k, "", []*Term{s, idx})
}

// sub is the part of s of length n from off.
func sub(s, off, n *Term) *Term {
	if n.isConst() && (n.s == "0" || strings.HasPrefix(n.s, "-")) {
		return tEmpty
	}
	l := lenT(s)
	if off.isConst() && off.s == "0" && l == n {
		return s
	}
	switch s.op {
	case "rd":
		return rdT(s.a[0], add(s.a[1], off), n)
	case "sub":
		return sub(s.a[0], add(s.a[1], off), n)
	case "ite":
		return ite(s.a[0], sub(s.a[1], off, n), sub(s.a[2], off, n))
	case "bytes":
		if off.isConst() && n.isConst() {
			o, m := off.big().Int64(), n.big().Int64()
			if o >= 0 && o+m <= int64(len(s.s)) {
				return bytesT(s.s[o : o+m])
			}
		}
	case "lit":
		if off.isConst() && n.isConst() {
			o, m := off.big().Int64(), n.big().Int64()
			if o >= 0 && o+m <= int64(len(s.a)) {
				return lit(s.a[o : o+m]...)
			}
		}
	case "rep":
		it, b := openB(s)
		bl := lenT(b)
		if bl.isConst() && bl.s == "1" {
			it2 := newIter("c", n)
			return mkRep(n, it2, subst1(b, it, add(it2, off)))
		}
		if !occurs(bl, it) {
			q, r := divT(off, bl), mod(off, bl)
			q2, r2 := divT(n, bl), mod(n, bl)
			if r.isConst() && r.s == "0" && r2.isConst() && r2.s == "0" {
				it2 := newIter("c", q2)
				return mkRep(q2, it2, subst1(b, it, add(it2, q)))
			}
			if r.isConst() && r.s == "0" && n == bl {
				return subst1(b, it, q)
			}
			if provNonneg(subT(bl, add(r, n))) {
				return sub(subst1(b, it, q), r, n)
			}
		}
	case "upd":
		d := subT(s.a[1], off)
		if provNeg(d) || provNonneg(subT(d, n)) {
			return sub(s.a[0], off, n)
		}
		if provNonneg(d) && provNeg(subT(d, n)) {
			return upd(sub(s.a[0], off, n), d, s.a[2])
		}
	case "cat":
		// skip whole pieces in front
		pos := num(0)
		for i, p := range s.a {
			pl := lenT(p)
			d := subT(off, pos)
			if provNonneg(subT(d, pl)) {
				pos = add(pos, pl)
				continue
			}
			if !provNonneg(d) {
				break
			}
			// starts in p at d
			room := subT(pl, d)
			if provNonneg(subT(room, n)) {
				return sub(p, d, n)
			}
			if provNonneg(subT(n, room)) && i+1 <= len(s.a) {
				rest := cat(s.a[i+1:]...)
				return cat(sub(p, d, room), sub(rest, num(0), subT(n, room)))
			}
			break
		}
	}
	return intern("sub", KSeq, "", []*Term{s, off, n})
}

func upd(s, idx, v *Term) *Term {
	if idx.isConst() && idx.big().IsInt64() {
		i := idx.big().Int64()
		if s.op == "lit" && i >= 0 && i < int64(len(s.a)) {
			a := append([]*Term(nil), s.a...)
			a[i] = v
			return lit(a...)
		}
		if b, ok := asBytes(s); ok && i >= 0 && i < int64(len(b)) {
			var a []*Term
			for j := range []byte(b) {
				a = append(a, num(int64(b[j])))
			}
			a[i] = v
			if r, ok := asBytes(lit(a...)); ok && s.op == "bytes" {
				return bytesT(r)
			}
			return lit(a...)
		}
		if s.op == "rep" && s.a[0].isConst() && s.a[0].big().Cmp(big.NewInt(64)) <= 0 && lenT(s) == s.a[0] {
			var a []*Term
			n := s.a[0].big().Int64()
			if i >= 0 && i < n && n <= 16 {
				for j := int64(0); j < n; j++ {
					a = append(a, at(instB(s, num(j)), num(0), v.k))
				}
				a[i] = v
				return lit(a...)
			}
		}
	}
	if v.op == "at" && v.a[0] == s && v.a[1] == idx {
		return s
	}
	switch s.op {
	case "upd":
		if s.a[1] == idx {
			return upd(s.a[0], idx, v)
		}
		// keep updates at provably different places in a fixed order
		d := subT(idx, s.a[1])
		less := idx.id < s.a[1].id
		if idx.isConst() && s.a[1].isConst() {
			less = idx.big().Cmp(s.a[1].big()) < 0
		}
		if less && (d.isConst() || provNeg(d) || provNeg(neg(d))) {
			return upd(upd(s.a[0], idx, v), s.a[1], s.a[2])
		}
	case "cat":
		off := num(0)
		for i, p := range s.a {
			l := lenT(p)
			d := subT(idx, off)
			if provNonneg(subT(d, l)) {
				off = add(off, l)
				continue
			}
			if provNonneg(d) && provNeg(subT(d, l)) {
				a := append([]*Term(nil), s.a...)
				np := upd(p, d, v)
				a[i] = np
				return cat(a...)
			}
			break
		}
	case "rep":
		// split a unit rep around the updated place
		n := s.a[0]
		if lenT(s) == n && provNonneg(idx) && provNeg(subT(idx, n)) && false {
			return cat(sub(s, num(0), idx), lit(v), sub(s, addInt(idx, 1), subT(subT(n, idx), num(1))))
		}
	}
	t := intern("upd", KSeq, "", []*Term{s, idx, v})
	if idx.isConst() {
		if l := fullUpd(t); l != nil {
			return l
		}
	}
	return t
}

// fullUpd lists a sequence all of whose elements have been updated.
func fullUpd(t *Term) *Term {
	n := 0
	b := t
	for b.op == "upd" && b.a[1].isConst() {
		b = b.a[0]
		n++
	}
	if b.op != "rep" || lenT(b) != num(int64(n)) {
		return nil
	}
	a := make([]*Term, n)
	for x := t; x != b; x = x.a[0] {
		i := x.a[1].big()
		if !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(n) {
			return nil
		}
		if a[i.Int64()] == nil {
			a[i.Int64()] = x.a[2]
		}
	}
	for _, x := range a {
		if x == nil {
			return nil
		}
	}
	return lit(a...)
}

// splice overwrites s from off with x.
func splice(s, off, x *Term) *Term {
	n := lenT(x)
	l := lenT(s)
	return cat(sub(s, num(0), off), x, sub(s, add(off, n), subT(subT(l, off), n)))
}

func fld(x *Term, i int, k Kind) *Term {
	switch x.op {
	case "struct":
		return x.a[i]
	case "ite":
		return ite(x.a[0], fld(x.a[1], i, k), fld(x.a[2], i, k))
	}
	return intern("fld", k, strconv.Itoa(i), []*Term{x})
}

// ---------------------------------------------------------------------------
// encodings

func sbytes(s *Term) *Term {
	if s.op == "ite" {
		return ite(s.a[0], sbytes(s.a[1]), sbytes(s.a[2]))
	}
	return intern("sbytes", KSeq, "", []*Term{s})
}

func pbytes(p *Term) *Term {
	if p.op == "ite" {
		return ite(p.a[0], pbytes(p.a[1]), pbytes(p.a[2]))
	}
	return intern("pbytes", KSeq, "", []*Term{p})
}

func sfrom(b *Term) *Term {
	switch b.op {
	case "sbytes":
		return b.a[0]
	case "ite":
		return ite(b.a[0], sfrom(b.a[1]), sfrom(b.a[2]))
	}
	return intern("sfrom", KSc, "", []*Term{b})
}

func pfrom(b *Term) *Term {
	switch b.op {
	case "pbytes":
		return b.a[0]
	case "ite":
		return ite(b.a[0], pfrom(b.a[1]), pfrom(b.a[2]))
	}
	return intern("pfrom", KPt, "", []*Term{b})
}

// patom is an uninterpreted predicate with a few known cases.
func patom(s string, a ...*Term) *Term {
	switch s {
	case "pvalid":
		if a[0].op == "pbytes" {
			return tTrue
		}
	case "gvalid:g1", "gvalid:g2", "gvalid:g1c":
		if n := lenT(a[0]); n.isConst() && n.big().IsInt64() {
			// what bn256 requires of the length
			if k := n.big().Int64(); k == 0 || s == "gvalid:g1" && k < 64 || s == "gvalid:g1c" && k != 33 {
				return tFalse
			}
		}
		if a[0].op == "genc" && a[0].s == strings.TrimPrefix(s, "gvalid:") {
			return tTrue
		}
		if b, ok := asBytes(a[0]); ok && b != "" && genBytes[strings.TrimPrefix(s, "gvalid:")] == hex.EncodeToString([]byte(b)) {
			return tTrue
		}
	}
	return intern("patom", KBool, s, append([]*Term(nil), a...))
}

// genBytes holds bn256's encodings of the generators it uses in ScalarBaseMult.
var genBytes = map[string]string{
	"g1": "00000000000000000000000000000000000000000000000000000000000000018fb501e34aa387f9aa6fecb86184dc21ee5b88d120b5b59e185cac6c5e089665",
	"g2": "012ecca446ff6f3d4d03c76e9b5c752f28bc37b364cb05ac4a37eb32e1c32459708f25386f72c9462b81597d65ae2092c4b97792155dcdaad32b8a6dd41792534c2db10ef5233b0fe3962b9ee6a4bbc2b5bde01a54f3513d42df972e128f31bf12274e5747e8cafacc3716cc8699db79b22f0e4ff3c23e898f694420a3be3087a5",
}

func genc(f string, p *Term) *Term { return intern("genc", KSeq, f, []*Term{p}) }

func gfrom(k Kind, f string, b *Term) *Term {
	if b.op == "genc" && b.s == f {
		return b.a[0]
	}
	if c, ok := asBytes(b); ok && genBytes[f] == hex.EncodeToString([]byte(c)) {
		return intern("gen", k, "", nil)
	}
	if b.op == "ite" {
		return ite(b.a[0], gfrom(k, f, b.a[1]), gfrom(k, f, b.a[2]))
	}
	return intern("gfrom", k, f, []*Term{b})
}

func bigfrom(b *Term) *Term {
	if s, ok := asBytes(b); ok {
		return constK(KInt, new(big.Int).SetBytes([]byte(s)))
	}
	t := intern("bigfrom", KInt, "", []*Term{b})
	t.nn = true
	return t
}

// benc encodes an integer ("B32": big endian, 32 bits; "L..": little endian).
func benc(f string, x *Term) *Term {
	if x.op == "bdec" && x.s == f {
		return x.a[0]
	}
	if x.isConst() && x.big().Sign() >= 0 {
		n, _ := strconv.Atoi(f[1:])
		b := x.big().Bytes()
		if len(b) <= n/8 {
			out := make([]byte, n/8)
			copy(out[n/8-len(b):], b)
			if f[0] == 'L' {
				for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
					out[i], out[j] = out[j], out[i]
				}
			}
			return bytesT(string(out))
		}
	}
	return intern("benc", KSeq, f, []*Term{x})
}

func bdec(f string, b *Term) *Term {
	if b.op == "benc" && b.s == f {
		return b.a[0]
	}
	if s, ok := asBytes(b); ok {
		n, _ := strconv.Atoi(f[1:])
		if len(s) == n/8 {
			x := []byte(s)
			if f[0] == 'L' {
				for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
					x[i], x[j] = x[j], x[i]
				}
			}
			return constK(KInt, new(big.Int).SetBytes(x))
		}
	}
	t := intern("bdec", KInt, f, []*Term{b})
	t.nn = true
	return t
}
