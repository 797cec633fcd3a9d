package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A rule decides one property.
type rule struct {
	id   string
	desc string
	min  int // obligations that must have been generated
	run  func(c *Ctx)
}

var rules []rule

func addRule(id, desc string, min int, run func(c *Ctx)) {
	rules = append(rules, rule{id, desc, min, run})
}

type Violation struct {
	Where     string   `json:"where"`
	Function  string   `json:"function"`
	Construct string   `json:"construct"`
	Rule      string   `json:"rule"`
	Detail    []string `json:"detail,omitempty"`
}

type Obligation struct {
	Name   string `json:"name"`
	Anchor string `json:"anchor"`
	Status string `json:"status"` // proved, violated, undecided
	Note   string `json:"note,omitempty"`
}

// Ctx collects the verdicts of one rule.
type Ctx struct {
	p        *Prog
	id       string
	viol     []Violation
	obl      []Obligation
	funcs    map[string]bool
	steps    int
	splits   int
	notes    []string
	thorough bool
	gmem     map[*Term]*Term
	gvar     map[*ssa.Global]bool
}

// ev makes an evaluator. Its globals are initialised.
func (c *Ctx) ev() *Ev {
	ev := c.p.newEv()
	if c.gmem == nil {
		ev.initGlobals(c.p)
		c.gmem, c.gvar = ev.gmem, ev.gvar
	}
	ev.gmem, ev.gvar = c.gmem, c.gvar
	return ev
}

// fn finds an exported function of the repository; a missing one is a violation.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.p.find(name)
	if f == nil {
		c.violate(nil, 0, name, "the function is missing")
	} else {
		c.funcs[name] = true
	}
	return f
}

func (c *Ctx) spec(name string) *ssa.Function {
	f := c.p.find(specPkg + "." + name)
	if f == nil {
		panic("no specification " + name)
	}
	return f
}

func (c *Ctx) pos(f *ssa.Function, p token.Pos) string {
	if p == 0 && f != nil {
		p = f.Pos()
	}
	if p == 0 {
		return "-"
	}
	s := c.p.prog.Fset.Position(p).String()
	return strings.TrimPrefix(s, repoDir()+"/")
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	return strings.ReplaceAll(f.String(), modPath, "")
}

func (c *Ctx) violate(f *ssa.Function, p token.Pos, construct, what string, detail ...string) {
	v := Violation{Where: c.pos(f, p), Function: shortFn(f), Construct: construct, Rule: what, Detail: detail}
	for _, o := range c.viol {
		if o.Where == v.Where && o.Construct == v.Construct && o.Rule == v.Rule {
			return
		}
	}
	c.viol = append(c.viol, v)
}

func (c *Ctx) proved(name string, f *ssa.Function) {
	c.obl = append(c.obl, Obligation{Name: name, Anchor: shortFn(f), Status: "proved"})
}

func (c *Ctx) undecided(name string, f *ssa.Function, why string) {
	c.obl = append(c.obl, Obligation{Name: name, Anchor: shortFn(f), Status: "undecided", Note: why})
}

func (c *Ctx) failed(name string, f *ssa.Function, p token.Pos, construct string, detail ...string) {
	c.obl = append(c.obl, Obligation{Name: name, Anchor: shortFn(f), Status: "violated"})
	c.violate(f, p, construct, name, detail...)
}

// same compares the value the code computes with the specified one.
func (c *Ctx) same(name string, f *ssa.Function, facts []*Term, got, want *Term) bool {
	t0 := time.Now()
	r := equiv(facts, got, want)
	c.splits += r.splits
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, time.Since(t0), r.splits, r.ok, name)
	}
	if r.ok {
		c.proved(name, f)
		return true
	}
	if r.gaveUp {
		c.undecided(name, f, "too many cases")
		return false
	}
	if xg, xw := expandBytes(got), expandBytes(want); (xg != got || xw != want) && mentions(r, "bdec") {
		// both sides as sums of bytes
		var xf []*Term
		for _, x := range facts {
			xf = append(xf, expandBytes(x))
		}
		if r2 := equiv(xf, xg, xw); r2.ok {
			c.proved(name, f)
			return true
		}
	}
	if why := uninterpreted(append([]*Term{r.a, r.b}, r.path...)...); why != "" {
		c.undecided(name, f, "the analysis has no exact value: "+why)
		return false
	}
	if met, bits := witness(append(append([]*Term(nil), facts...), r.path...), r.a, r.b); bits && !met {
		c.undecided(name, f, "no number is known that meets the conditions of the difference")
		return false
	}
	d := []string{"computed: " + clip(showT(r.a, 14)), "required: " + clip(showT(r.b, 14))}
	for _, x := range r.path {
		d = append(d, "when "+clip(showT(x, 10)))
	}
	c.failed(name, f, 0, "result of "+shortFn(f), d...)
	return false
}

func mentions(r equivRes, op string) bool {
	found := false
	for _, t := range append([]*Term{r.a, r.b}, r.path...) {
		walk(t, func(x *Term) bool {
			found = found || x.op == op
			return !found
		})
	}
	return found
}

func clip(s string) string {
	s = strings.ReplaceAll(s, modPath, "")
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

type evidence struct {
	obl []Obligation
}

func runChecks(ids []string) int {
	want := map[string]bool{}
	for _, x := range ids {
		want[x] = true
	}
	var todo []rule
	for _, r := range rules {
		if len(ids) == 0 || want[r.id] || want["all"] {
			todo = append(todo, r)
		}
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "no such property")
		return 2
	}
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		out = "/verif"
	}
	start := time.Now()
	p, err := load(repoDir())
	rc := 0
	var shared *Ctx
	for _, r := range todo {
		t0 := time.Now()
		c := &Ctx{p: p, id: r.id, funcs: map[string]bool{}, thorough: os.Getenv("VERIF_TIER") == "thorough"}
		if shared != nil {
			c.gmem, c.gvar = shared.gmem, shared.gvar
		}
		if err != nil {
			c.violate(nil, 0, "package", "the repository does not type-check: "+err.Error())
		} else {
			limit := 780*time.Second - time.Since(start)
			if c.thorough {
				limit = 4 * time.Hour
			}
			done := make(chan bool)
			go func() {
				runRule(r, c)
				close(done)
			}()
			tick := time.NewTicker(time.Second)
			why := ""
			for running := true; running && why == ""; {
				select {
				case <-done:
					running = false
				case <-tick.C:
					var m runtime.MemStats
					switch {
					case time.Since(t0) > limit:
						why = "time limit"
					case len(c.viol) > 0 && time.Since(t0) > 90*time.Second && !c.thorough:
						why = "enough found"
					default:
						if runtime.ReadMemStats(&m); m.HeapAlloc > 16<<30 {
							why = "memory limit"
						}
					}
				}
			}
			tick.Stop()
			if why != "" {
				// report what has been decided so far
				d := *c
				d.obl = append(append([]Obligation(nil), c.obl...), Obligation{Name: "rest", Status: "undecided", Note: why})
				d.viol = d.viol[:len(d.viol):len(d.viol)]
				d.funcs = map[string]bool{}
				if report(out, r, &d, time.Since(t0), time.Since(start)) {
					rc = 1
				}
				return rc
			}
			shared = c
		}
		if n := len(c.obl); err == nil && n < r.min && len(c.viol) == 0 {
			c.violate(nil, 0, r.id, fmt.Sprintf("only %d of at least %d obligations were found in the source", n, r.min))
		}
		if report(out, r, c, time.Since(t0), time.Since(start)) {
			rc = 1
		}
	}
	return rc
}

func runRule(r rule, c *Ctx) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VERIF_PANIC") != "" {
				panic(e)
			}
			c.notes = append(c.notes, fmt.Sprint("internal error: ", e))
			c.undecided("internal", nil, fmt.Sprint(e))
		}
	}()
	r.run(c)
}

func report(out string, r rule, c *Ctx, dur, total time.Duration) bool {
	cnt := map[string]int{}
	var und []string
	for _, o := range c.obl {
		cnt[o.Status]++
		if o.Status == "undecided" {
			und = append(und, o.Name+": "+o.Note)
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	bad := len(c.viol) > 0
	replay := ""
	if bad {
		replay = filepath.Join(out, "evidence", r.id+".violation.txt")
		os.MkdirAll(filepath.Dir(replay), 0o755)
		var b strings.Builder
		for _, v := range c.viol {
			fmt.Fprintf(&b, "%s: %s: %s\n    construct: %s\n", v.Where, v.Function, v.Rule, v.Construct)
			for _, d := range v.Detail {
				fmt.Fprintf(&b, "    %s\n", d)
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(strings.ToValidUTF8(b.String(), "?"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	} else {
		os.Remove(filepath.Join(out, "evidence", r.id+".violation.txt"))
	}
	fmt.Printf("%s: %d obligations: %d proved, %d undecided, %d violated; %d functions; %s\n", r.id, len(c.obl), cnt["proved"], cnt["undecided"], cnt["violated"], len(fns), dur.Round(time.Millisecond))
	for _, u := range und {
		fmt.Println("  undecided:", strings.ToValidUTF8(clip(u), "?"))
	}
	writeEvidence(out, r, c, cnt, fns, und, bad, replay, dur)
	return bad
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func jsonWrite(path string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", "  ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// drv finds a driver; nil if the drivers do not compile against the code.
func (c *Ctx) drv(name string) *ssa.Function {
	if c.p.drvErr != nil {
		c.undecided(name, nil, "the exported interface has changed: "+c.p.drvErr.Error())
		return nil
	}
	f := c.p.find(drvPkg + "." + name)
	if f == nil {
		panic("no driver " + name)
	}
	return f
}
