package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Check struct {
	ID        string
	Technique string
	Note      string
	Pkgs      []string // module packages the verdict depends on
	Min       int      // smallest number of obligations on a meaningful run
	Run       func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type finding struct{ key, where, msg string }

type Ctx struct {
	*Check
	P        *Program
	tier     string
	bad      []finding
	badSeen  map[string]bool
	ob       map[string]int // obligations by rule
	samples  []string
	analysed map[string]bool // functions
	states   int
	steps    int
	paths    int
	engines  int
	assume   map[string]bool
	obSeen   map[string]bool
	known    map[string]bool // keys of findings already listed
	evals    int

	prefix    string  // settings prefix of the component explored
	curEngine *Engine // engine of the exploration being set up
}

// OK records a discharged obligation of a rule.
func (c *Ctx) OK(rule string, sample string) {
	c.evals++
	if c.obSeen == nil {
		c.obSeen = map[string]bool{}
	}
	if c.obSeen[rule+"|"+sample] {
		return
	}
	c.obSeen[rule+"|"+sample] = true
	c.ob[rule]++
	if len(c.samples) < 12 && sample != "" {
		s := rule + ": " + sample
		for _, x := range c.samples {
			if x == s {
				return
			}
		}
		c.samples = append(c.samples, s)
	}
}

// Bad records a violation. key identifies the construct independently of line numbers.
func (c *Ctx) Bad(key, where, format string, a ...any) {
	if c.badSeen[key] {
		return
	}
	c.badSeen[key] = true
	c.bad = append(c.bad, finding{key, where, fmt.Sprintf(format, a...)})
}

// Expect is OK or Bad.
func (c *Ctx) Expect(ok bool, rule, key, where, format string, a ...any) bool {
	if ok {
		c.OK(rule, strings.TrimSpace(key+" "+where))
	} else {
		c.Bad(rule+":"+key, where, format, a...)
	}
	return ok
}

func (c *Ctx) Assume(s string) { c.assume[s] = true }

// Explore runs the dataflow engine on one entry function.
func (c *Ctx) Explore(fn *ssa.Function, o *Opts, init func(st *State, args []*Term)) *Engine {
	if c.tier == "thorough" {
		if o.MaxStates == 0 {
			o.MaxStates = 4000000
		}
		if o.Depth == 0 {
			o.Depth = 20
		}
	}
	// enough was found: the rest cannot change the verdict
	o.stop = func() bool {
		for _, b := range c.bad {
			if !c.known[b.key] {
				return true
			}
		}
		return false
	}
	e := NewEngine(c.P, o)
	if fn == nil {
		c.Bad("anchor:nil-entry", "?", "entry function not found")
		return e
	}
	c.curEngine = e
	e.Run(fn, init)
	if profOn && e.NStates > 20000 {
		fmt.Println(e.NStates, fn)
		e.profReport()
		profN, profL = map[string]int{}, map[string]map[string]int{}
	}
	c.states += e.NStates
	c.steps += e.NSteps
	c.paths += e.NPaths
	c.engines++
	for f := range e.Inlined {
		c.analysed[f.String()] = true
	}
	if e.Undecided != "" {
		c.Bad("undecided:"+fn.String(), c.P.Pos(fn.Pos()), "cannot decide: %s", e.Undecided)
	}
	return e
}

// ---- anchors ---------------------------------------------------------------

func (p *Program) ssaPkg(suffix string) *ssa.Package {
	pk := p.Pkg(suffix)
	if pk == nil {
		return nil
	}
	return pk.SSA
}

// Named finds a named type.
func (p *Program) Named(suffix, name string) *types.Named {
	pk := p.Pkg(suffix)
	if pk == nil || pk.Types == nil {
		return nil
	}
	o, _ := pk.Types.Scope().Lookup(name).(*types.TypeName)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds the SSA function of a method on *T or T.
func (p *Program) Method(suffix, typ, name string) *ssa.Function {
	n := p.Named(suffix, typ)
	if n == nil {
		return nil
	}
	return p.methodOf(types.NewPointer(n), name)
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) Func(suffix, name string) *ssa.Function {
	pk := p.ssaPkg(suffix)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// Impl finds the concrete module types implementing an interface of the module.
func (p *Program) Impls(ifacePkg, iface string) []types.Type {
	n := p.Named(ifacePkg, iface)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, pk := range p.Mod {
		if pk.Types == nil || strings.HasSuffix(pk.Path, "/mocks") {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// role maps a role-interface method to a short name such as "storage.Insert".
func role(full string) string {
	for _, r := range [][2]string{
		{"internal/queue/storage.Storage).", "storage."},
		{"internal/queue/cache.Cache).", "cache."},
		{"internal/audit.Auditor).", "audit."},
	} {
		if i := strings.Index(full, r[0]); i >= 0 {
			return r[1] + full[i+len(r[0]):]
		}
	}
	return ""
}

func roleEvents(ci *CallInfo) bool { return role(ci.Name) != "" }

// ---- canonical printing ----------------------------------------------------

// Canon prints a value independently of iteration and of boxing: indices print as [*].
func Canon(t *Term) string { return canonD(t, 0) }

func canonD(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 12 {
		return "…"
	}
	list := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, canonD(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if t.Val == nil {
			return "nil"
		}
		return t.Val.ExactString()
	case "param", "global":
		if t.Op == "global" {
			return shortGlobal(t.Str)
		}
		return t.Str
	case "alloc", "mkslice", "mkmap", "mkchan", "opq":
		if t.Label != "" {
			return t.Label
		}
		return t.Op
	case "iface", "nn", "conv", "nf":
		if t.Op == "conv" {
			return "conv(" + canonD(t.Args[0], d+1) + ")"
		}
		return canonD(t.Args[0], d)
	case "fa":
		return canonD(t.Args[0], d+1) + "." + t.Str
	case "ia":
		return canonD(t.Args[0], d+1) + "[*]"
	case "load":
		a := t.Args[0]
		if a.Op == "fa" || a.Op == "ia" || a.Op == "global" {
			return canonD(a, d+1)
		}
		return "*" + canonD(a, d+1)
	case "elems":
		return canonD(t.Args[0], d+1) + "[*]"
	case "field":
		return canonD(t.Args[0], d+1) + "." + t.Str
	case "ext":
		return canonD(t.Args[0], d+1) + "#" + t.Str
	case "coll":
		var s []string
		seen := map[string]bool{}
		for _, a := range t.Args {
			x := canonD(a, d+1)
			if !seen[x] {
				seen[x] = true
				s = append(s, x)
			}
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ", ") + "}"
	case "call":
		return short(t.Str) + "(" + list(t.Args) + ")"
	case "binop":
		return "(" + canonD(t.Args[0], d+1) + t.Str + canonD(t.Args[1], d+1) + ")"
	case "func":
		return "func:" + t.Fn.Name()
	case "ta":
		return canonD(t.Args[0], d+1)
	case "zero":
		return "zero"
	case "slice":
		if t.Str == "full" {
			return canonD(t.Args[0], d+1)
		}
	case "hld":
		return canonD(t.Args[0], d+1) + ":" + canonD(t.Args[1], d+1)
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + t.Str
	}
	return s + "(" + list(t.Args) + ")"
}

func shortGlobal(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// stripConv removes conversions that keep every value.
func stripConv(t *Term) *Term {
	for t.Op == "conv" && !narrows(t) || t.Op == "iface" || t.Op == "nf" {
		t = t.Args[0]
	}
	return t
}

// narrows: an integer conversion to a type that cannot hold every value of its operand.
func narrows(t *Term) bool {
	if t.Typ == nil || t.Args[0].Typ == nil || !isIntT(t.Typ) || !isIntT(t.Args[0].Typ) {
		return false
	}
	a, ok1 := typeIv(t.Args[0].Typ)
	b, ok2 := typeIv(t.Typ)
	return ok1 && ok2 && (a.Lo < b.Lo || a.Hi > b.Hi)
}

// ---- runner ----------------------------------------------------------------

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

var progCache = map[string]*Program{}

func runCheck(ch *Check, repo, verif, tier string, seed int, quiet bool) (code int) {
	t0 := time.Now()
	c := &Ctx{Check: ch, tier: tier, badSeen: map[string]bool{}, ob: map[string]int{}, analysed: map[string]bool{}, assume: map[string]bool{}, known: map[string]bool{}}
	var kn []known
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		var f struct {
			Findings []known `json:"findings"`
		}
		if json.Unmarshal(b, &f) == nil {
			kn = f.Findings
		}
	}
	for _, k := range kn {
		if k.Property == ch.ID {
			c.known[k.Key] = true
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(r)
				}
				c.Bad("internal", "?", "analysis aborted: %v", r)
			}
		}()
		p := progCache[repo]
		if p == nil {
			var err error
			p, err = Load(repo, filepath.Join(verif, "stubs"))
			if err != nil {
				c.Bad("load", "?", "cannot load the repository: %v", err)
				return
			}
			p.BuildSSA()
			progCache[repo] = p
		}
		c.P = p
		for _, s := range ch.Pkgs {
			pk := p.Pkg(s)
			if pk == nil || len(pk.Files) == 0 {
				c.Bad("anchor:pkg:"+s, s, "package %s not found", s)
				return
			}
			if len(pk.Errs) > 0 {
				c.Bad("anchor:types:"+s, s, "package %s does not type-check: %v", s, pk.Errs[0].Msg)
				return
			}
		}
		ch.Run(c)
	}()
	total := 0
	for _, n := range c.ob {
		total += n
	}
	if len(c.bad) == 0 && total < ch.Min {
		c.Bad("vacuous", "?", "only %d obligations were found, at least %d expected: the analysed construct was not recognised", total, ch.Min)
	}
	var rest []finding
	for _, b := range c.bad {
		hit := false
		for _, k := range kn {
			if k.Property == ch.ID && k.Key == b.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k.What)
				hit = true
			}
		}
		if !hit {
			rest = append(rest, b)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", ch.ID+".report.txt")
	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s\ncommand: cd /verif && bin/deckardcheck -property %s\n", ch.ID, ch.ID)
	for _, b := range rest {
		fmt.Fprintf(&rep, "%s: %s\n    [%s]\n", b.where, b.msg, b.key)
		if !quiet {
			fmt.Printf("%s: %s [%s]\n", b.where, b.msg, b.key)
		}
	}
	os.WriteFile(replay, []byte(rep.String()), 0o644)
	var fns []string
	for f := range c.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":         ch.Technique + ". " + ch.Note,
		"obligations_by_rule": c.ob,
		"obligations_checked": total,
		"functions_analysed":  len(fns),
		"samples":             append([]string{}, c.samples...),
	}
	if len(fns) > 60 {
		fns = fns[:60]
	}
	cov["functions"] = fns
	cov["rule_evaluations"] = c.evals
	if c.engines > 0 {
		cov["dataflow_entries"] = c.engines
		cov["abstract_states"] = c.states
		cov["transfer_steps"] = c.steps
		cov["complete_paths"] = c.paths
	}
	as := []string{}
	for a := range c.assume {
		as = append(as, a)
	}
	sort.Strings(as)
	ev := map[string]any{
		"property": ch.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": len(rest),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", ch.ID+".json"), append(b, '\n'), 0o644)
	if len(rest) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d states=%d functions=%d wall=%.1fs\n", ch.ID, total, c.states, len(c.analysed), time.Since(t0).Seconds())
	return 0
}
