package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals evaluates the package initialisers.
func (ev *Ev) initGlobals(p *Prog) {
	io := initOnly(p)
	for f := range allFuncs(p) {
		if !io[f] {
			ev.scanGlobals(f)
		}
	}
	for _, pk := range p.all {
		init := pk.Func("init")
		if init == nil {
			continue
		}
		st := newState()
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				st.mem.set(ev.globTerm(g), zeroVal(g.Type().(*types.Pointer).Elem()))
			}
		}
		// imported packages are initialised separately
		ev.call(init, nil, nil, st)
		for r, v := range st.mem.all() {
			if r.op == "glob" {
				if g := globOf(p, r.s); g != nil && !ev.gvar[g] {
					ev.gmem[r] = v
				}
			} else {
				ev.gmem[r] = v
			}
		}
	}
	ev.log = nil
}

// initOnly returns the functions that only package initialisation calls.
func initOnly(p *Prog) map[*ssa.Function]bool {
	fs := allFuncs(p)
	users := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if callee != ssa.Value(g) {
						taken[g] = true
					}
					if users[g] == nil {
						users[g] = map[*ssa.Function]bool{}
					}
					users[g][f] = true
				}
			}
		}
	}
	io := map[*ssa.Function]bool{}
	isInit := func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
	}
	for f := range fs {
		if isInit(f) {
			io[f] = true
		} else if obj := f.Object(); obj != nil && !obj.Exported() && f.Signature.Recv() == nil && !taken[f] && len(users[f]) > 0 {
			io[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for f := range io {
			if isInit(f) {
				continue
			}
			for u := range users[f] {
				if !io[u] {
					delete(io, f)
					ch = true
					break
				}
			}
		}
	}
	return io
}

func globOf(p *Prog, name string) *ssa.Global {
	for _, pk := range p.all {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.String() == name {
				return g
			}
		}
	}
	return nil
}

func allFuncs(p *Prog) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var addF func(f *ssa.Function)
	addF = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			addF(a)
		}
	}
	for _, pk := range p.all {
		for _, m := range pk.Members {
			switch x := m.(type) {
			case *ssa.Function:
				addF(x)
			case *ssa.Type:
				for _, T := range []bool{false, true} {
					_ = T
				}
				ms := methodsOf(p, x)
				for _, f := range ms {
					addF(f)
				}
			}
		}
	}
	return r
}

// scanGlobals marks the globals that f may change.
func (ev *Ev) scanGlobals(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				if u, isU := in.(*ssa.UnOp); isU && u.X == ssa.Value(g) {
					continue // a read
				}
				ev.gvar[g] = true
			}
		}
	}
}

func methodsOf(p *Prog, t *ssa.Type) []*ssa.Function {
	var r []*ssa.Function
	n, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.prog.FuncValue(n.Method(i)); f != nil {
			r = append(r, f)
		}
	}
	return r
}
