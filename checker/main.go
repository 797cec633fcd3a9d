package main

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed spec/*.go drv/*.go
var specFS embed.FS

const modPath = "github.com/dusk-network/dusk-crypto/"

const (
	specPkg = "zzverifspec"
	drvPkg  = "zzverifdrv"
)

type Prog struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	all  []*ssa.Package
	repo []*ssa.Package // without the specification
	lp   []*packages.Package

	drvErr error
}

// load reads the repository, the specification and, unless the exported
// interface has changed so that they do not compile, the drivers.
func load(dir string) (*Prog, error) {
	p, err := loadWith(dir, true)
	if err != nil {
		if q, err2 := loadWith(dir, false); err2 == nil {
			q.drvErr = err
			return q, nil
		}
	}
	return p, err
}

func loadWith(dir string, drivers bool) (*Prog, error) {
	ov := map[string][]byte{}
	add := func(from, to string) {
		es, _ := specFS.ReadDir(from)
		for _, e := range es {
			b, _ := specFS.ReadFile(from + "/" + e.Name())
			ov[filepath.Join(dir, to, e.Name())] = b
		}
	}
	add("spec", specPkg)
	if drivers {
		add("drv", drvPkg)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, e
		}
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, lp: pkgs}
	for _, p := range ps {
		if p != nil {
			rel := strings.TrimPrefix(p.Pkg.Path(), modPath)
			r.pkgs[rel] = p
			r.all = append(r.all, p)
			if rel != specPkg && rel != drvPkg {
				r.repo = append(r.repo, p)
			}
		}
	}
	return r, nil
}

func (p *Prog) newEv() *Ev {
	ev := &Ev{prog: p.prog, mine: map[*ssa.Package]bool{}, cfgs: map[*ssa.Function]*cfg{}, gmem: map[*Term]*Term{},
		gvar: map[*ssa.Global]bool{}, capped: map[*Term]bool{}, lsrc: map[*Term][]*Term{}, calls: map[string]int{}, noinl: map[*ssa.Function]bool{}}
	for _, x := range p.all {
		ev.mine[x] = true
	}
	return ev
}

// find looks up "pkg.Func" or "pkg.(*T).Method".
func (p *Prog) find(name string) *ssa.Function {
	i := strings.IndexByte(name, '.')
	// package paths contain slashes but no dots
	pk := p.pkgs[name[:i]]
	if pk == nil {
		return nil
	}
	rest := name[i+1:]
	if strings.HasPrefix(rest, "(") {
		j := strings.IndexByte(rest, ')')
		tn := strings.Trim(rest[1:j], "*")
		T := pk.Type(tn)
		if T == nil {
			return nil
		}
		var RT types.Type = T.Type()
		if rest[1] == '*' {
			RT = types.NewPointer(RT)
		}
		return p.prog.LookupMethod(RT, pk.Pkg, rest[j+2:])
	}
	return pk.Func(rest)
}

// symArgs makes symbolic arguments.
func symArgs(fn *ssa.Function) []*Term {
	var a []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := intern("sym", kindOf(p.Type()), n, nil)
		t.fv |= 1 << (uint(t.id) % 64)
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			t.nn = true
		}
		a = append(a, t)
	}
	return a
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifchk check ID | dump FUNC...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if os.Args[1] == "check" {
		if f := os.Getenv("VERIF_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			rc := runChecks(os.Args[2:])
			pprof.StopCPUProfile()
			os.Exit(rc)
		}
		os.Exit(runChecks(os.Args[2:]))
	}
	p, err := load(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if os.Args[1] == "dump" {
		for _, n := range os.Args[2:] {
			dump(p, n)
		}
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// start is the state after package initialisation.
func (ev *Ev) start() *State {
	st := newState()
	for k, v := range ev.gmem {
		st.mem.set(k, v)
	}
	return st
}

func dump(p *Prog, n string) {
	fn := p.find(n)
	if fn == nil {
		fmt.Println("no", n)
		return
	}
	ev := p.newEv()
	ev.initGlobals(p)
	st := ev.start()
	args := symArgs(fn)
	r := ev.call(fn, args, nil, st)
	fmt.Println("==", n, "steps", ev.steps, "terms", nextID)
	fmt.Println("RESULT", showT(r, 40))
	var ks []*Term
	for k := range st.mem.all() {
		ks = append(ks, k)
	}
	sortTerms(ks)
	for _, k := range ks {
		if st.mem.at(k) == ev.gmem[k] {
			continue
		}
		if k.op == "alloc" && os.Getenv("VALL") == "" && !occursAny(r, k) {
			continue
		}
		fmt.Println("  MEM", k, "=", showT(st.mem.at(k), 30))
	}
	for _, f := range st.facts {
		fmt.Println("  FACT", f)
	}
	for _, f := range st.fam {
		if os.Getenv("VALL") == "" {
			break
		}
		fmt.Println("  FAM", f.root, "=", f.val)
	}
	cnt := map[string]int{}
	for _, e := range ev.log {
		if e.kind == "unk" {
			cnt["unk "+e.s]++
		}
		if (e.kind == "index" || e.kind == "slice") && !e.ok {
			cnt["unproved "+e.kind+" "+p.prog.Fset.Position(e.pos).String()+fmt.Sprint(e.t)]++
		}
	}
	var s []string
	for k, v := range cnt {
		s = append(s, fmt.Sprintf("  %d %s", v, k))
	}
	sort.Strings(s)
	fmt.Println(strings.Join(s, "\n"))
}

func occursAny(t, x *Term) bool { return occurs2(t, x) }
