package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const cfgPkg = "internal/config"

func init() {
	register(&Check{ID: "C40", Min: 25, Pkgs: []string{cfgPkg},
		Technique: "Trace-partitioned dataflow over the configuration getters: every path is classified by the branch facts on main key, aliases and default",
		Note:      "Get, GetBool, GetInt and GetDuration explored with symbolic keys, symbolic values and lists of 0..N aliases, where N covers the longest list declared: the result of each path must be the first candidate not known to equal the default. Set and Configure are checked for covering main key and every alias, Create for registering the setting it returns.",
		Run:       runC40})
	register(&Check{ID: "C41", Min: 80, Pkgs: []string{cfgPkg, "internal/project"},
		Technique: "Extraction of every declared setting (keys, aliases, default values by abstract evaluation of the package initialisers) and comparison with the documentation tables and with the typed readers",
		Note:      "All declared settings, all documented environment variables, all typed reads in the module.",
		Run:       runC41})
	register(&Check{ID: "C42", Min: 60, Pkgs: []string{cfgPkg, "internal/cmd/deckard", "internal/metrics"},
		Technique: "Interprocedural flow analysis: configuration loading must dominate every reachable configuration read, from package initialisers and main",
		Note:      "Every package initialiser in the module and main; every function reachable before config.Configure; every declared setting must have a reader outside the configuration package.",
		Run:       runC42})
}

// setting is one declared configuration key.
type setting struct {
	global  string // full name of the variable
	name    string
	key     string
	aliases []string
	def     *Term // constant or nil
	pos     string
}

func envName(prefix, key string) string {
	return strings.ToUpper(prefix + "_" + strings.NewReplacer(".", "_").Replace(key))
}

// settings evaluates the initialisers of the configuration package.
func (c *Ctx) settings() []*setting {
	init := c.P.Func(cfgPkg, "init")
	create := c.P.Func(cfgPkg, "Create")
	if init == nil || create == nil {
		c.Bad("anchor:config", cfgPkg, "configuration initialisers not found")
		return nil
	}
	var out []*setting
	byGlobal := map[string]*setting{}
	pend := map[*Term]*setting{}
	str := types.Typ[types.String]
	e := c.Explore(init, &Opts{
		Event:     func(ci *CallInfo) bool { return ci.Fn == create },
		KeepEvent: func(*Event) bool { return false },
		OnEvent: func(e *Engine, st *State, ev *Event) {
			p := ev.Args[0]
			var kt types.Type
			if p.Op == "iface" {
				kt = p.Typ
				p = p.Args[0]
			}
			s := &setting{pos: c.at(ev.Site)}
			if k, ok := e.Load(st, e.fa(p, "Key", str), str).StrVal(); ok {
				s.key = k
			} else {
				c.Bad("setting-key", c.at(ev.Site), "the key of a setting is not a constant")
			}
			_ = kt
			d := e.Load(st, e.fa(p, "Default", types.NewInterfaceType(nil, nil)), types.NewInterfaceType(nil, nil))
			s.def = d
			al := e.Load(st, e.fa(p, "Aliases", types.NewSlice(str)), types.NewSlice(str))
			for _, a := range e.Elems(st, al) {
				if v, ok := a.StrVal(); ok {
					s.aliases = append(s.aliases, v)
				} else {
					c.Bad("setting-alias:"+s.key, c.at(ev.Site), "an alias of setting %s is not a constant", s.key)
				}
			}
			pend[ev.Res] = s
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op != "global" {
				return
			}
			if s := pend[strip(val)]; s != nil && byGlobal[addr.Str] == nil {
				s.global = addr.Str
				s.name = addr.Str[strings.LastIndexByte(addr.Str, '.')+1:]
				byGlobal[addr.Str] = s
				out = append(out, s)
			}
		},
	}, nil)
	_ = e
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// settingReads lists, per setting variable, the getters called on it outside the configuration package.
func (c *Ctx) settingReads() map[string]map[string]string {
	out := map[string]map[string]string{}
	for _, pk := range c.P.Mod {
		if pk.SSA == nil || strings.HasSuffix(pk.Path, "/"+cfgPkg) {
			continue
		}
		for _, f := range allFuncs(pk.SSA) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.UnOp)
					if !ok {
						continue
					}
					g, ok := u.X.(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "/"+cfgPkg) {
						continue
					}
					n := g.String()
					if out[n] == nil {
						out[n] = map[string]string{}
					}
					found := false
					for _, r := range *u.Referrers() {
						if call, ok := r.(ssa.CallInstruction); ok && call.Common().IsInvoke() && call.Common().Value == ssa.Value(u) {
							out[n][call.Common().Method.Name()] = c.at(r)
							found = true
						}
					}
					if !found {
						out[n]["?"] = c.at(in)
					}
				}
			}
		}
	}
	return out
}

// ---- C40 -------------------------------------------------------------------

func viperModel(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	switch {
	case strings.HasPrefix(ci.Name, "github.com/spf13/viper.Get") || ci.Name == "github.com/spf13/viper.IsSet":
		var a *Term
		if len(ci.Args) > 0 {
			a = strip(ci.Args[0])
		}
		return []*Outcome{{Res: e.T.mk("call", strings.TrimPrefix(ci.Name, "github.com/spf13/"), ci.Sig.Results().At(0).Type(), a)}}, true
	case ci.Name == "time.ParseDuration":
		t := e.T.mk("call", ci.Name, ci.Sig.Results(), ci.Args...)
		return []*Outcome{{Res: e.T.mk("tuple", "", ci.Sig.Results(), e.ext(t, 0, ci.Sig.Results().At(0).Type()), e.ext(t, 1, ci.Sig.Results().At(1).Type()))}}, true
	}
	return nil, false
}

func runC40(c *Ctx) {
	ss := c.settings()
	if ss == nil {
		return
	}
	maxA := 3
	for _, s := range ss {
		if len(s.aliases) > maxA {
			maxA = len(s.aliases)
		}
	}
	var keyT types.Type
	for _, t := range c.P.Impls(cfgPkg, "ConfigKey") {
		keyT = t
		for _, g := range []string{"Get", "GetBool", "GetInt", "GetDuration"} {
			for n := 0; n <= maxA; n++ {
				c.getter(c.P.methodOf(t, g), g, n)
			}
		}
		c.setter(c.P.methodOf(t, "Set"), maxA)
	}
	if keyT == nil {
		c.Bad("anchor:impl", cfgPkg, "no implementation of ConfigKey found")
		return
	}
	c.configure(keyT)
	c.create()
}

func (c *Ctx) keyInit(e *Engine, st *State, p *Term, pre string, n int) (*Term, []*Term) {
	str := types.Typ[types.String]
	key := e.Param(pre+"key", str)
	st.mem[e.fa(p, "Key", str)] = key
	var al []*Term
	for i := 0; i < n; i++ {
		al = append(al, e.Param(fmt.Sprintf("%salias%d", pre, i), str))
	}
	arr := types.NewArray(str, int64(n))
	a := e.T.ctxTerm("alloc", "aliases:"+pre, "aliases", types.NewPointer(arr))
	for i, x := range al {
		st.mem[e.T.mk("ia", "", str, a, e.T.Int(int64(i)))] = x
	}
	st.mem[e.fa(p, "Aliases", types.NewSlice(str))] = e.T.mk("slice", "full", types.NewSlice(str), a)
	anyT := types.NewInterfaceType(nil, nil)
	st.mem[e.fa(p, "Default", anyT)] = e.Param(pre+"default", anyT)
	return key, al
}

func (c *Ctx) getter(fn *ssa.Function, name string, n int) {
	if fn == nil {
		c.Bad("anchor:"+name, cfgPkg, "getter %s not found", name)
		return
	}
	kind := map[string]string{"Get": "String", "GetBool": "Bool", "GetInt": "Int", "GetDuration": "Duration"}[name]
	rt := fn.Signature.Results().At(0).Type()
	str := types.Typ[types.String]
	dt := map[string]types.Type{"Get": str, "GetBool": types.Typ[types.Bool], "GetInt": types.Typ[types.Int], "GetDuration": str}[name]
	var key *Term
	var al []*Term
	where := c.P.Pos(fn.Pos())
	c.Explore(fn, &Opts{Model: viperModel, Unroll: true, OnExit: func(e *Engine, st *State, res []*Term) {
		r := res[0]
		dflt := e.Param("default", nil)
		ta := e.T.mk("ta", "", dt, dflt)
		taok := e.Truth(st, e.T.mk("taok", typeKey(dt), types.Typ[types.Bool], dflt))
		var D []*Term
		parse := func(s *Term) (*Term, int) {
			t := e.T.mk("call", "time.ParseDuration", nil, s)
			return e.ext(t, 0, rt), e.nilness(st, e.ext(t, 1, types.Universe.Lookup("error").Type()))
		}
		if name != "GetDuration" {
			if taok != 2 {
				D = append(D, ta)
			}
			if taok == 2 {
				D = append(D, e.zero(rt))
			}
		} else {
			v, er := parse(ta)
			if taok == 2 || er == 2 {
				D = append(D, e.zero(rt))
			}
			if taok != 2 {
				D = append(D, v)
			}
		}
		isD := func(t *Term) bool {
			for _, d := range D {
				if t == d {
					return true
				}
			}
			return false
		}
		// cmp: 1 equal to the default, 2 different, 0 unknown
		cmp := func(t *Term) int {
			if isD(t) {
				return 1
			}
			for _, d := range D {
				if x := e.Truth(st, e.Eq(t, d)); x != 0 {
					return x
				}
			}
			return 0
		}
		viper := func(k *Term, kind string, t types.Type) *Term { return e.T.mk("call", "viper.Get"+kind, t, k) }
		ok, why := false, "the default although the settings may override it"
		keys := append([]*Term{key}, al...)
		for i, k := range keys {
			label := "main key"
			if i > 0 {
				label = fmt.Sprintf("alias %d", i)
			}
			last := i == len(keys)-1
			set := e.Truth(st, e.T.mk("call", "viper.IsSet", types.Typ[types.Bool], k))
			if set == 2 {
				if last {
					ok = isD(r)
				}
				continue
			}
			if name != "GetDuration" {
				v := viper(k, kind, rt)
				switch cmp(v) {
				case 1:
					if last {
						ok = isD(r) || r == v
					}
					continue
				case 2:
					ok = r == v
					if !ok {
						why = "not the non-default value of the " + label
					}
				default:
					ok = r == v && last
					if r == v && !last {
						why = "the value of the " + label + " without comparing it with the default, so later aliases are ignored"
					}
				}
				break
			}
			d := viper(k, "Duration", rt)
			z := e.Truth(st, e.Eq(d, e.zero(rt)))
			sv := viper(k, "String", str)
			if z != 1 { // a non-zero duration (or not compared with zero)
				switch cmp(d) {
				case 1:
					if last {
						ok = isD(r) || r == d
					}
					continue
				case 2:
					ok = r == d
					if !ok {
						why = "not the non-default value of the " + label
					}
				default:
					ok = r == d && last
					if z == 0 {
						ok = false
						why = "the duration of the " + label + " without telling an invalid text from a zero duration"
					}
				}
				break
			}
			empty := e.Truth(st, e.Eq(sv, e.T.S("")))
			pv, er := parse(sv)
			if empty == 1 {
				// an explicitly empty text: zero or not set
				zc := e.zero(rt)
				if r == zc || isD(r) {
					ok = true
					break
				}
				if last {
					break
				}
				continue
			}
			if er == 2 {
				if last {
					ok = isD(r)
				}
				continue
			}
			switch cmp(pv) {
			case 1:
				if last {
					ok = isD(r) || r == pv
				}
				continue
			case 2:
				ok = r == pv
				if !ok {
					why = "not the non-default value of the " + label
				}
			default:
				ok = r == pv && last
			}
			break
		}
		if !ok && !isD(r) && why[:4] == "the " && strings.HasPrefix(why, "the default") {
			why = "not the first non-default value among main key and aliases"
		}
		c.Expect(ok, "first-non-default-value-wins", fmt.Sprintf("%s:%d-aliases", name, n), where, "%s (with %d aliases) returns %s, %s (%s)", name, n, Canon(r), why, e.trailStr(st))
	}}, func(st *State, args []*Term) {
		// allocated per run: terms belong to the engine of this exploration
		e := c.curEngine
		key, al = c.keyInit(e, st, args[0], "", n)
	})
}

func (c *Ctx) setter(fn *ssa.Function, n int) {
	if fn == nil {
		c.Bad("anchor:Set", cfgPkg, "Set not found")
		return
	}
	for k := 0; k <= n; k++ {
		var key *Term
		var al []*Term
		c.Explore(fn, &Opts{Unroll: true, Event: func(ci *CallInfo) bool { return ci.Name == "github.com/spf13/viper.Set" },
			OnExit: func(e *Engine, st *State, res []*Term) {
				for i, x := range append([]*Term{key}, al...) {
					var last *Event
					for _, ev := range st.events {
						if strip(ev.Args[0]) == x {
							last = ev
						}
					}
					lbl := "main key"
					if i > 0 {
						lbl = fmt.Sprintf("alias %d of %d", i, k)
					}
					c.Expect(last != nil && strip(last.Args[1]) == e.Param("$1", nil), "set-covers-main-key-and-aliases", lbl, c.P.Pos(fn.Pos()), "Set does not store the given value under the %s", lbl)
				}
			}}, func(st *State, args []*Term) { key, al = c.keyInit(c.curEngine, st, args[0], "", k) })
	}
}

func (c *Ctx) configure(keyT types.Type) {
	fn := c.P.Func(cfgPkg, "Configure")
	if fn == nil {
		c.Bad("anchor:Configure", cfgPkg, "Configure not found")
		return
	}
	// the registry of settings
	reg := c.registry()
	if reg == "" {
		return
	}
	type kk struct {
		key *Term
		al  []*Term
	}
	var keys []kk
	vp := "github.com/spf13/viper."
	c.Explore(fn, &Opts{Unroll: true,
		Event: func(ci *CallInfo) bool {
			return strings.HasPrefix(ci.Name, vp) || strings.HasPrefix(ci.Name, "(*sync.Mutex)")
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			where := c.P.Pos(fn.Pos())
			any := false
			reset, lock := -1, 0
			for i, ev := range st.events {
				switch {
				case ev.Name == vp+"Reset":
					reset = i
				case ev.Name == "(*sync.Mutex).Lock":
					lock++
				case ev.Name == "(*sync.Mutex).Unlock":
					lock--
				}
				if strings.HasPrefix(ev.Name, vp) {
					any = true
				}
			}
			c.Expect(lock == 0, "configure-releases-lock", "", where, "Configure returns with its lock held (%s)", e.trailStr(st))
			if !any {
				// nothing done: only when already configured and no reset asked for
				conf, noreset := false, false
				for t, f := range st.facts {
					if f.B == 1 && t.Op == "load" && t.Args[0].Op == "global" {
						conf = true
					}
					_ = f
				}
				r := e.Param("$0", nil)
				if iv := e.IvOf(st, e.Len(r)); iv.Hi <= 0 || e.nilness(st, r) == 1 {
					noreset = true
				}
				c.Expect(conf && noreset, "configure-skips-only-when-configured", "", where, "Configure does nothing although the configuration may not be loaded (%s)", e.trailStr(st))
				return
			}
			has := func(name string, ok func(a []*Term) bool) int {
				for i, ev := range st.events {
					if ev.Name == vp+name && (ok == nil || ok(ev.Args)) {
						return i
					}
				}
				return -1
			}
			after := func(i int) bool { return i >= 0 && i > reset }
			c.Expect(after(has("SetEnvPrefix", func(a []*Term) bool { // viper ignores the case
				t := strip(a[0])
				for t.Op == "call" && (t.Str == "strings.ToUpper" || t.Str == "strings.ToLower" || t.Str == "strings.TrimSpace") && len(t.Args) == 1 {
					t = strip(t.Args[0])
				}
				v, ok := t.StrVal()
				return ok && strings.EqualFold(v, "deckard")
			})), "env-prefix", "", where, "Configure does not set the environment prefix to the project name")
			c.Expect(after(has("AutomaticEnv", nil)), "env-lookup", "", where, "Configure does not enable environment lookup")
			c.Expect(after(has("SetEnvKeyReplacer", func(a []*Term) bool { return Canon(a[0]) == `strings.NewReplacer(list(".", "_"))` })), "env-replacer", "", where, "Configure does not map dots of keys to underscores: %s", func() string {
				if i := has("SetEnvKeyReplacer", nil); i >= 0 {
					return Canon(st.events[i].Args[0])
				}
				return "no replacer"
			}())
			for i, k := range keys {
				d := e.Param(fmt.Sprintf("k%ddefault", i), nil)
				for _, x := range append([]*Term{k.key}, k.al...) {
					j := has("SetDefault", func(a []*Term) bool { return strip(a[0]) == x && strip(a[1]) == d })
					c.Expect(after(j), "default-registered", fmt.Sprintf("k%d %s", i, Canon(x)), where, "Configure does not register the default of a setting under its %s (%s)", Canon(x), e.trailStr(st))
				}
			}
			c.OK("configure-path", "")
		}}, func(st *State, args []*Term) {
		e := c.curEngine
		var elems []*Term
		for i := 0; i < 3; i++ {
			p := e.Param(fmt.Sprintf("k%d", i), keyT)
			st.facts[p] = Fact{Nil: 2}
			k, al := c.keyInit(e, st, p, fmt.Sprintf("k%d", i), i)
			keys = append(keys, kk{k, al})
			elems = append(elems, e.T.mk("iface", "", keyT, p))
		}
		it := c.P.Named(cfgPkg, "ConfigKey")
		st.mem[e.T.mk("global", reg, nil)] = e.mkSlice(st, nil, it, elems...)
	})
}

// registry finds the package variable Create appends to.
func (c *Ctx) registry() string {
	fn := c.P.Func(cfgPkg, "Create")
	if fn == nil {
		return ""
	}
	reg := ""
	c.Explore(fn, &Opts{OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
		if addr.Op == "global" && val.Op == "coll" {
			reg = addr.Str
		}
	}}, nil)
	if reg == "" {
		c.Bad("anchor:registry", c.P.Pos(fn.Pos()), "Create does not append to a registry of settings")
	}
	return reg
}

func (c *Ctx) create() {
	fn := c.P.Func(cfgPkg, "Create")
	if fn == nil {
		return
	}
	c.Explore(fn, &Opts{OnExit: func(e *Engine, st *State, res []*Term) {
		p := e.Param("$0", nil)
		c.Expect(strip(res[0]) == p, "create-returns-its-setting", "", c.P.Pos(fn.Pos()), "Create returns %s, not the setting it was given", Canon(res[0]))
		ok := false
		for a, v := range st.mem {
			if a.Op != "global" || v.Op != "coll" {
				continue
			}
			old, own := false, false
			for _, x := range v.Args {
				if x == p {
					own = true
				}
				if x.Op == "elems" && Canon(x) == shortGlobal(a.Str)+"[*]" {
					old = true
				}
			}
			ok = ok || old && own
		}
		c.Expect(ok, "create-registers-its-setting", "", c.P.Pos(fn.Pos()), "Create does not add its setting to the registered ones on every path (%s)", e.trailStr(st))
	}}, nil)
}

// ---- C41 -------------------------------------------------------------------

func defText(t *Term) (string, bool) {
	t = strip(t)
	if t.IsNil() {
		return "", true
	}
	if t.Op != "const" || t.Val == nil {
		return "", false
	}
	if t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return t.Val.ExactString(), true
}

func runC41(c *Ctx) {
	ss := c.settings()
	if ss == nil {
		return
	}
	prefix := "deckard"
	if k, ok := c.P.Pkg("internal/project").Types.Scope().Lookup("Name").(*types.Const); ok {
		prefix = constant.StringVal(k.Val())
	}
	byEnv := map[string]*setting{}
	for _, s := range ss {
		for _, k := range append([]string{s.key}, s.aliases...) {
			n := envName(prefix, k)
			o := byEnv[n]
			c.Expect(o == nil, "keys-unique", n, s.pos, "%s and %s are both read from %s", s.name, func() string {
				if o == nil {
					return ""
				}
				return o.name
			}(), n)
			byEnv[n] = s
			c.Expect(k == strings.ToLower(k) && k != "", "keys-lower-case", k, s.pos, "key %q of %s is not lower case", k, s.name)
		}
		_, isConst := defText(s.def)
		c.Expect(isConst, "default-constant", s.name, s.pos, "the default of %s is not a constant: %s", s.name, Canon(s.def))
	}
	docs := 0
	for _, f := range []string{"README.md", "docs/components.md", "docs/getting-started.md", "docs/using.md"} {
		b, err := os.ReadFile(filepath.Join(c.P.Repo, f))
		if err != nil {
			continue
		}
		for ln, line := range strings.Split(string(b), "\n") {
			cells := strings.Split(line, "|")
			if len(cells) < 4 || strings.TrimSpace(cells[0]) != "" {
				continue
			}
			n := strings.Trim(strings.TrimSpace(cells[1]), "`")
			if !strings.HasPrefix(n, strings.ToUpper(prefix)+"_") || strings.ContainsAny(n, " <") {
				continue
			}
			docs++
			where := fmt.Sprintf("%s:%d", f, ln+1)
			s := byEnv[n]
			if !c.Expect(s != nil, "documented-variable-exists", n, where, "documented environment variable %s is not the name of any setting", n) {
				continue
			}
			want := strings.Trim(strings.TrimSpace(cells[2]), "` ")
			got, ok := defText(s.def)
			c.Expect(ok && got == want, "documented-default", n, s.pos, "%s documents the default of %s as %q, the code uses %q", where, n, want, got)
		}
	}
	if docs < 10 {
		c.Bad("anchor:docs", "README.md", "only %d documented environment variables were found", docs)
	}
	reads := c.settingReads()
	for _, s := range ss {
		d := strip(s.def)
		var ms []string
		for m := range reads[s.global] {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			at := reads[s.global][m]
			ok := true
			switch m {
			case "Get":
				ok = d.IsNil() || d.Val != nil && d.Val.Kind() == constant.String
			case "GetBool":
				ok = d.IsNil() || d.Val != nil && d.Val.Kind() == constant.Bool
			case "GetInt":
				ok = d.IsNil() || d.Val != nil && d.Val.Kind() == constant.Int
			case "GetDuration":
				ok = d.IsNil()
				if v, isS := d.StrVal(); isS {
					_, err := time.ParseDuration(v)
					ok = err == nil
				}
			default:
				continue
			}
			c.Expect(ok, "default-type-matches-reader", s.name+":"+m, at, "%s is read with %s but its default is %s: the default is ignored", s.name, m, Canon(d))
		}
	}
}

// ---- C42 -------------------------------------------------------------------

func runC42(c *Ctx) {
	ss := c.settings()
	reads := c.settingReads()
	for _, s := range ss {
		n := 0
		for m := range reads[s.global] {
			if strings.HasPrefix(m, "Get") && m != "GetDefault" && m != "GetKey" && m != "GetAliases" || m == "?" {
				n++
			}
		}
		c.Expect(n > 0, "setting-is-read", s.name, s.pos, "setting %s (%s) is declared but nothing reads it", s.name, s.key)
	}
	// order: Configure before any read
	conf := c.P.Func(cfgPkg, "Configure")
	if conf == nil {
		c.Bad("anchor:Configure", cfgPkg, "Configure not found")
		return
	}
	w := &confWalk{c: c, conf: conf, memo: map[*ssa.Function]int{}, active: map[*ssa.Function]bool{}}
	var order []*Package
	for _, pk := range c.P.Mod {
		if pk.SSA != nil && !strings.HasSuffix(pk.Path, "/mocks") {
			order = append(order, pk)
		}
	}
	for _, pk := range order {
		if f := pk.SSA.Func("init"); f != nil {
			w.entry = "the initialiser of " + pk.Path
			w.walk(f)
			c.OK("initialiser-reads-no-setting-before-load", pk.Path)
		}
	}
	mainFn := c.P.Func("internal/cmd/deckard", "main")
	if mainFn == nil {
		c.Bad("anchor:main", "?", "main not found")
		return
	}
	w.entry = "main"
	ok := w.walk(mainFn)
	c.Expect(ok == 1, "main-loads-configuration", "", c.P.Pos(mainFn.Pos()), "main does not load the configuration on every path")
	for _, f := range w.bad {
		c.Bad(f.key, f.where, "%s", f.msg)
	}
	for i := 0; i < w.calls; i++ {
		c.evals++
	}
	for f := range w.memo {
		c.analysed[f.String()] = true
	}
}

// confWalk computes, per function entered with the configuration not loaded, whether it is
// loaded at return (1) or not (0), and reports reads reached before.
type confWalk struct {
	c      *Ctx
	conf   *ssa.Function
	entry  string
	memo   map[*ssa.Function]int
	active map[*ssa.Function]bool
	bad    []finding
	calls  int
}

func (w *confWalk) walk(f *ssa.Function) int {
	if f == w.conf {
		return 1
	}
	if r, ok := w.memo[f]; ok {
		return r
	}
	if w.active[f] || len(f.Blocks) == 0 {
		return 0
	}
	if p := fnPkgPath(f); p != w.c.P.ModPath && !strings.HasPrefix(p, w.c.P.ModPath+"/") {
		return 0
	}
	w.active[f] = true
	in := map[*ssa.BasicBlock]int{} // 0 unseen, 1 not loaded, 2 loaded
	var work []*ssa.BasicBlock
	join := func(b *ssa.BasicBlock, s int) {
		if in[b] == 0 || in[b] == 2 && s == 1 {
			in[b] = s
			work = append(work, b)
		}
	}
	join(f.Blocks[0], 1)
	exit := 0
	seenRet := false
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b]
		for _, i := range b.Instrs {
			if s == 2 {
				break
			}
			// closures and functions that become values here may run here
			for _, op := range i.Operands(nil) {
				if *op == nil {
					continue
				}
				var g *ssa.Function
				switch v := (*op).(type) {
				case *ssa.Function:
					g = v
				case *ssa.MakeClosure:
					g, _ = v.Fn.(*ssa.Function)
				}
				if g == nil {
					continue
				}
				if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
					continue
				}
				if _, isStore := i.(*ssa.Store); isStore {
					if st, ok := i.(*ssa.Store); ok {
						if _, glob := st.Addr.(*ssa.Global); glob {
							continue // kept for later
						}
					}
				}
				if _, isMC := i.(*ssa.MakeClosure); isMC {
					continue
				}
				w.calls++
				w.walk(g)
			}
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			w.calls++
			cc := call.Common()
			if cc.IsInvoke() {
				m := cc.Method.FullName()
				if strings.Contains(m, "/internal/config.ConfigKey).Get") && !strings.HasSuffix(fnPkgPath(f), "/"+cfgPkg) {
					n := cc.Method.Name()
					if n != "GetKey" && n != "GetDefault" && n != "GetAliases" {
						w.bad = append(w.bad, finding{"read-before-load:" + f.String(), w.c.at(i), fmt.Sprintf("%s reads a setting and is reached from %s before the configuration is loaded", f, w.entry)})
					}
				}
				continue
			}
			if _, isGo := i.(*ssa.Go); isGo {
				if g := cc.StaticCallee(); g != nil {
					w.walk(g)
				}
				continue
			}
			if _, isDefer := i.(*ssa.Defer); isDefer {
				continue
			}
			if g := cc.StaticCallee(); g != nil {
				if w.walk(g) == 1 {
					s = 2
				}
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !seenRet {
				exit = 1
				seenRet = true
			}
			if s != 2 {
				exit = 0
			}
		}
		for _, x := range b.Succs {
			// package initialisers return at once when already run
			join(x, s)
		}
	}
	delete(w.active, f)
	if f.Name() == "init" && f.Synthetic != "" {
		exit = w.initExit(f)
	}
	w.memo[f] = exit
	return exit
}

// initExit: a package initialiser that loads the configuration on its running path.
func (w *confWalk) initExit(f *ssa.Function) int {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && g != f && (g == w.conf || w.memo[g] == 1 && g.Name() != "init" || strings.HasPrefix(g.Name(), "init") && w.memo[g] == 1) {
					return 1
				}
			}
		}
	}
	return 0
}
