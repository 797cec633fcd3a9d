package main

import "iter"

// Mem maps the objects of a state to their contents. It is a trie over the
// numbers of the terms whose parts are shared between copies, so that copying
// is immediate and comparing two copies costs what they differ in.
type Mem struct {
	root *trie
	own  *byte
}

const mbits = 4

type trie struct {
	own  *byte
	kids [1 << mbits]mslot
}

type mslot struct {
	n    *trie
	k, v *Term
}

func newMem() *Mem { return &Mem{own: new(byte)} }

func (m *Mem) copy() *Mem {
	m.own = new(byte)
	return &Mem{root: m.root, own: new(byte)}
}

func (m *Mem) get(k *Term) (*Term, bool) {
	n := m.root
	for h := uint(k.id); n != nil; h >>= mbits {
		s := &n.kids[h&(1<<mbits-1)]
		if s.n == nil {
			if s.k == k {
				return s.v, true
			}
			return nil, false
		}
		n = s.n
	}
	return nil, false
}

func (m *Mem) at(k *Term) *Term {
	v, _ := m.get(k)
	return v
}

func (m *Mem) mine(n *trie) *trie {
	if n == nil {
		return &trie{own: m.own}
	}
	if n.own == m.own {
		return n
	}
	c := *n
	c.own = m.own
	return &c
}

func (m *Mem) set(k, v *Term) {
	m.root = m.put(m.root, k, v, 0)
}

func (m *Mem) put(n *trie, k, v *Term, sh uint) *trie {
	n = m.mine(n)
	s := &n.kids[uint(k.id)>>sh&(1<<mbits-1)]
	switch {
	case s.n != nil:
		s.n = m.put(s.n, k, v, sh+mbits)
	case s.k == nil || s.k == k:
		s.k, s.v = k, v
	default:
		d := m.put(nil, s.k, s.v, sh+mbits)
		*s = mslot{n: m.put(d, k, v, sh+mbits)}
	}
	return n
}

func (n *trie) each(f func(k, v *Term) bool) bool {
	if n == nil {
		return true
	}
	for i := range n.kids {
		s := &n.kids[i]
		if s.n != nil {
			if !s.n.each(f) {
				return false
			}
		} else if s.k != nil && !f(s.k, s.v) {
			return false
		}
	}
	return true
}

// all lists a snapshot of the contents.
func (m *Mem) all() iter.Seq2[*Term, *Term] {
	c := m.copy()
	return func(f func(k, v *Term) bool) { c.root.each(f) }
}

func (m *Mem) len() int {
	n := 0
	m.root.each(func(_, _ *Term) bool { n++; return true })
	return n
}

// diff calls f for the objects whose contents in a and b are not the same
// term, in either direction.
func diff(a, b *Mem, f func(k *Term)) { diffSlots(mslot{n: a.root}, mslot{n: b.root}, f) }

func diffSlots(a, b mslot, f func(k *Term)) {
	if a == b {
		return
	}
	if a.n != nil && b.n != nil {
		for i := range a.n.kids {
			if a.n.kids[i] != b.n.kids[i] {
				diffSlots(a.n.kids[i], b.n.kids[i], f)
			}
		}
		return
	}
	only := func(x, y mslot) { // x is a subtree, y at most one entry
		found := false
		x.n.each(func(k, v *Term) bool {
			if k == y.k {
				found = true
				if v == y.v {
					return true
				}
			}
			f(k)
			return true
		})
		if y.k != nil && !found {
			f(y.k)
		}
	}
	switch {
	case a.n != nil:
		only(a, b)
	case b.n != nil:
		only(b, a)
	default:
		if a.k != nil {
			f(a.k)
		}
		if b.k != nil && b.k != a.k {
			f(b.k)
		}
	}
}
