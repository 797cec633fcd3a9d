package main

import "math/big"

// Values of integer terms at given points. They only serve to keep quiet: a
// difference found under conditions on the bits, quotients or remainders of a
// number is reported when some number meets these conditions, and undecided
// otherwise.

type intEnv map[*Term]*big.Int

func bitOp(op string) bool {
	switch op {
	case "div", "mod", "rem", "shr", "bit", "band", "bor", "bxor", "andnot", "conv", "bitlen", "tz", "lz32", "bigbytes":
		return true
	}
	return false
}

func hasBitOp(t *Term) bool {
	found := false
	walk(t, func(x *Term) bool {
		found = found || bitOp(x.op) && !x.isConst()
		return !found
	})
	return found
}

var convBits = map[string]uint{"u8": 8, "u16": 16, "u32": 32, "u64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64}

// intAt is the value of t, nil when it is not determined. Terms the
// evaluation does not know are looked up in env, and noted there with nil.
func intAt(t *Term, env intEnv) *big.Int {
	if t.isConst() {
		return t.big()
	}
	two := func() (*big.Int, *big.Int) { return intAt(t.a[0], env), intAt(t.a[1], env) }
	switch t.op {
	case "ite":
		if c, ok := boolAt(t.a[0], env); ok {
			if c {
				return intAt(t.a[1], env)
			}
			return intAt(t.a[2], env)
		}
		return nil
	case "div", "mod", "rem":
		a, b := two()
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		switch t.op {
		case "div":
			if a.Sign() < 0 {
				return nil
			}
			return new(big.Int).Quo(a, b)
		case "mod":
			return new(big.Int).Mod(a, b)
		}
		return new(big.Int).Rem(a, b)
	case "shr", "bit":
		a, b := two()
		if a == nil || b == nil || !b.IsInt64() || b.Int64() < 0 || b.Int64() > 1<<12 {
			return nil
		}
		r := new(big.Int).Rsh(a, uint(b.Int64()))
		if t.op == "bit" {
			r.And(r, big.NewInt(1))
		}
		return r
	case "band", "bor", "bxor", "andnot":
		a, b := two()
		if a == nil || b == nil {
			return nil
		}
		switch t.op {
		case "band":
			return new(big.Int).And(a, b)
		case "bor":
			return new(big.Int).Or(a, b)
		case "bxor":
			return new(big.Int).Xor(a, b)
		}
		return new(big.Int).AndNot(a, b)
	case "bitlen":
		if a := intAt(t.a[0], env); a != nil {
			return big.NewInt(int64(a.BitLen()))
		}
		return nil
	case "sint":
		return intAt(t.a[0], env)
	case "len":
		if t.a[0].op == "bigbytes" {
			if a := intAt(t.a[0].a[0], env); a != nil {
				return big.NewInt(int64(a.BitLen()+7) / 8)
			}
			return nil
		}
	case "at":
		if t.a[0].op == "bigbytes" && t.k == KInt {
			a, i := intAt(t.a[0].a[0], env), intAt(t.a[1], env)
			if a == nil || i == nil || !i.IsInt64() {
				return nil
			}
			if b := a.Bytes(); i.Sign() >= 0 && i.Int64() < int64(len(b)) {
				return big.NewInt(int64(b[i.Int64()]))
			}
			return nil
		}
	case "max0":
		a := intAt(t.a[0], env)
		if a != nil && a.Sign() < 0 {
			return new(big.Int)
		}
		return a
	case "conv":
		a, n := intAt(t.a[0], env), convBits[t.s]
		if a == nil || n == 0 {
			return nil
		}
		m := new(big.Int).Lsh(big.NewInt(1), n)
		r := new(big.Int).Mod(a, m)
		if t.s[0] == 'i' && r.Bit(int(n)-1) == 1 {
			r.Sub(r, m)
		}
		return r
	}
	ms := toPoly(t)
	if len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].atom == t {
		if v, ok := env[t]; ok {
			return v
		}
		env[t] = nil
		return nil
	}
	s, all := new(big.Int), true
	for _, m := range ms {
		p := new(big.Int).Set(m.c)
		for _, f := range m.f {
			x, e := intAt(f.atom, env), intAt(f.exp, env)
			if x == nil || e == nil || e.Sign() < 0 || e.Cmp(big.NewInt(4096)) > 0 {
				all = false
				continue
			}
			p.Mul(p, new(big.Int).Exp(x, e, nil))
		}
		s.Add(s, p)
	}
	if !all {
		return nil
	}
	return s
}

// boolAt is the value of a condition.
func boolAt(t *Term, env intEnv) (v, ok bool) {
	switch t.op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, ok = boolAt(t.a[0], env)
		return !v, ok
	case "and", "or":
		ok = true
		for _, x := range t.a {
			w, o := boolAt(x, env)
			if o && w == (t.op == "or") {
				return w, true
			}
			ok = ok && o
		}
		return t.op == "and", ok
	case "ite":
		if c, o := boolAt(t.a[0], env); o {
			if c {
				return boolAt(t.a[1], env)
			}
			return boolAt(t.a[2], env)
		}
		return false, false
	case "lt0", "eq0":
		if t.a[0].k != KInt {
			return false, false
		}
		x := intAt(t.a[0], env)
		if x == nil {
			return false, false
		}
		if t.op == "lt0" {
			return x.Sign() < 0, true
		}
		return x.Sign() == 0, true
	case "eq":
		if t.a[0].k != KInt || t.a[1].k != KInt {
			return false, false
		}
		x, y := intAt(t.a[0], env), intAt(t.a[1], env)
		if x == nil || y == nil {
			return false, false
		}
		return x.Cmp(y) == 0, true
	}
	return false, false
}

// witness looks for numbers that meet the conditions on bits, quotients and
// remainders among conds, and at which the numbers a and b differ if they are
// determined. needed is false when there are no such conditions.
func witness(conds []*Term, a, b *Term) (found, needed bool) {
	var cs, flat []*Term
	for _, c := range conds {
		if c.op == "and" {
			flat = append(flat, c.a...)
		} else {
			flat = append(flat, c)
		}
	}
	conds = flat
	env := intEnv{}
	for _, c := range conds {
		if hasBitOp(c) {
			needed = true
			boolAt(c, env)
		}
	}
	cmp := a != nil && b != nil && a.k == b.k && (a.k == KInt || a.k == KSc) && (hasBitOp(a) || hasBitOp(b))
	if cmp {
		needed = true
		intAt(a, env)
		intAt(b, env)
	}
	if !needed {
		return false, false
	}
	for len(env) > 0 {
		// the other conditions on the same numbers
		n := len(env)
		cs = cs[:0]
		for _, c := range conds {
			e := intEnv{}
			for k := range env {
				e[k] = big.NewInt(1)
			}
			if _, ok := boolAt(c, e); ok || hasBitOp(c) {
				cs = append(cs, c)
				if hasBitOp(c) {
					boolAt(c, env)
				}
			}
		}
		if len(env) == n {
			break
		}
	}
	if len(env) == 0 {
		return false, true
	}
	// numbers that no condition relates are looked for one by one
	occurs := func(t *Term) (r []*Term) {
		walk(t, func(x *Term) bool {
			if _, ok := env[x]; ok {
				r = append(r, x)
			}
			return true
		})
		return
	}
	group := map[*Term]*Term{}
	var find func(x *Term) *Term
	find = func(x *Term) *Term {
		if g := group[x]; g != nil && g != x {
			return find(g)
		}
		return x
	}
	join := func(vs []*Term) {
		for i := 1; i < len(vs); i++ {
			if p, q := find(vs[0]), find(vs[i]); p != q {
				group[p] = q
			}
		}
	}
	rel := make([][]*Term, len(cs))
	for i, c := range cs {
		rel[i] = occurs(c)
		join(rel[i])
	}
	var ab []*Term
	if cmp {
		ab = append(occurs(a), occurs(b)...)
		join(ab)
	}
	parts := map[*Term][]*Term{}
	for v := range env {
		parts[find(v)] = append(parts[find(v)], v)
	}
	for root, vars := range parts {
		var mine []*Term
		for i, c := range cs {
			if len(rel[i]) > 0 && find(rel[i][0]) == root {
				mine = append(mine, c)
			}
		}
		if !witnessPart(vars, mine, a, b, len(ab) > 0 && find(ab[0]) == root) {
			return false, true
		}
	}
	return true, true
}

func witnessPart(vars, cs []*Term, a, b *Term, cmp bool) bool {
	if len(vars) > 2 {
		return false
	}
	vals := map[*Term][]*big.Int{}
	for _, v := range vars {
		vals[v] = candidates(v, cs, len(vars) == 1)
	}
	try := func(e intEnv) bool {
		for _, c := range cs {
			if v, ok := boolAt(c, e); ok && !v {
				return false
			}
		}
		if cmp {
			if x, y := intAt(a, e), intAt(b, e); x != nil && y != nil {
				d := new(big.Int).Sub(x, y)
				if a.k == KSc {
					d.Mod(d, scalarOrder)
				}
				return d.Sign() != 0
			}
		}
		return true
	}
	for _, x := range vals[vars[0]] {
		if len(vars) == 1 {
			if try(intEnv{vars[0]: x}) {
				return true
			}
			continue
		}
		for _, y := range vals[vars[1]] {
			if try(intEnv{vars[0]: x, vars[1]: y}) {
				return true
			}
		}
	}
	return false
}

func candidates(v *Term, cs []*Term, many bool) []*big.Int {
	seen := map[string]bool{}
	var r []*big.Int
	one := big.NewInt(1)
	push := func(x *big.Int) {
		if x.Sign() < 0 && v.nn || seen[x.String()] {
			return
		}
		seen[x.String()] = true
		r = append(r, x)
	}
	// bits that are required
	set, clear := new(big.Int), new(big.Int)
	for _, c := range cs {
		neg := c.op == "not"
		if neg {
			c = c.a[0]
		}
		if c.op != "eq0" || c.a[0].op != "bit" || c.a[0].a[0] != v || !c.a[0].a[1].isConst() || !c.a[0].a[1].big().IsInt64() {
			continue
		}
		b := new(big.Int).Lsh(one, uint(c.a[0].a[1].big().Int64()))
		if neg {
			set.Or(set, b)
		} else {
			clear.Or(clear, b)
		}
	}
	cand := func(x *big.Int) {
		push(x)
		y := new(big.Int).Or(x, set)
		push(y.AndNot(y, clear))
	}
	for i := int64(0); i < 8; i++ {
		cand(big.NewInt(i))
	}
	for _, c := range cs {
		walk(c, func(x *Term) bool {
			if x.isConst() && x.k == KInt {
				for d := int64(-1); d <= 1; d++ {
					cand(new(big.Int).Add(x.big(), big.NewInt(d)))
					cand(new(big.Int).Sub(big.NewInt(d), x.big()))
				}
			}
			return true
		})
	}
	top := uint(70)
	if many {
		top = 254
	}
	for k := uint(2); k < top; k++ {
		p := new(big.Int).Lsh(one, k)
		cand(p)
		cand(new(big.Int).Sub(p, one))
		cand(new(big.Int).Add(p, one))
		if many {
			cand(new(big.Int).Mul(p, big.NewInt(3)))
			cand(new(big.Int).Quo(p, big.NewInt(3)))
			cand(new(big.Int).Neg(p))
			for j := uint(0); j < k && k <= 66; j++ {
				q := new(big.Int).Lsh(one, j)
				cand(new(big.Int).Add(p, q))
				cand(new(big.Int).Sub(p, q))
			}
		}
	}
	return r
}
