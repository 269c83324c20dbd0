package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Checks of the small pure helpers: time conversions, queue names, numbers.

func init() {
	register(&Check{ID: "C50", Min: 8, Pkgs: []string{"internal/dtime"},
		Technique: "Value-flow normalisation of the returned term against the exact conversion, plus an effect query for direct clock reads",
		Note:      "Every path of each conversion returns a term that is normalised to (instant, unit) and compared with the definition; every direct use of the system clock in the module outside the time package is enumerated.",
		Run:       runC50})
	register(&Check{ID: "C51", Min: 6, Pkgs: []string{"internal/queue/message", "internal/queue/pool"},
		Technique: "Path-sensitive string dataflow: results are normalised to before-first-separator / after-first-separator terms",
		Note:      "All paths of the queue name helpers, with the strings package split functions given their meaning relative to the first occurrence of the separator.",
		Run:       runC51})
	register(&Check{ID: "C52", Min: 4, Pkgs: []string{"internal/queue/utils"},
		Technique: "Path-sensitive value flow of the returned terms with branch facts",
		Note:      "All paths of the numeric helpers: which argument is returned under which order facts, parse arguments (base, width) and propagation of the parse error, freshness of returned pointers.",
		Run:       runC52})
}

// ---- C50 -------------------------------------------------------------------

// timeUnit normalises an integer term to (time value, nanoseconds per unit).
func timeUnit(t *Term) (*Term, float64, bool) {
	t = stripConv(t)
	switch t.Op {
	case "call":
		if len(t.Args) != 1 {
			return nil, 0, false
		}
		u := map[string]float64{"(time.Time).UnixNano": 1, "(time.Time).UnixMicro": 1e3, "(time.Time).UnixMilli": 1e6, "(time.Time).Unix": 1e9}[t.Str]
		if u > 0 {
			return baseTime(t.Args[0]), u, true
		}
	case "binop":
		if t.Str == "/" {
			x, u, ok := timeUnit(t.Args[0])
			c, okc := t.Args[1].Num()
			if ok && okc && c > 0 {
				return x, u * c, true
			}
		}
		if t.Str == "+" {
			for i := 0; i < 2; i++ {
				a, b := stripConv(t.Args[i]), stripConv(t.Args[1-i])
				if a.Op == "binop" && a.Str == "*" && b.Op == "binop" && b.Str == "/" {
					x, u, ok := timeUnit(a.Args[0])
					k, ok2 := a.Args[1].Num()
					n := stripConv(b.Args[0])
					d, ok3 := b.Args[1].Num()
					if ok && ok2 && ok3 && u == 1e9 && k == 1e3 && d == 1e6 && n.Op == "call" && n.Str == "(time.Time).Nanosecond" && baseTime(n.Args[0]) == x {
						return x, 1e6, true
					}
				}
			}
		}
	}
	return nil, 0, false
}

// baseTime drops operations that keep the instant.
func baseTime(t *Term) *Term {
	for t.Op == "call" && len(t.Args) > 0 && (t.Str == "(time.Time).UTC" || t.Str == "(time.Time).Local" || t.Str == "(time.Time).In" || t.Str == "(time.Time).Round" && isZeroTerm(t.Args[1])) {
		t = t.Args[0]
	}
	return t
}

func isZeroTerm(t *Term) bool { n, ok := t.Num(); return ok && n == 0 }

// msTime: the instant a term denotes as "milliseconds since the epoch", nil otherwise.
func msTime(t *Term) *Term {
	t = baseTime(t)
	if t.Op != "call" {
		return nil
	}
	switch t.Str {
	case "time.UnixMilli":
		return stripConv(t.Args[0])
	case "time.Unix":
		a, b := stripConv(t.Args[0]), stripConv(t.Args[1])
		if a.Op != "binop" || a.Str != "/" {
			return nil
		}
		if k, ok := a.Args[1].Num(); !ok || k != 1000 {
			return nil
		}
		if b.Op != "binop" || b.Str != "*" {
			return nil
		}
		if k, ok := b.Args[1].Num(); !ok || k != 1e6 {
			return nil
		}
		m := stripConv(b.Args[0])
		if m.Op != "binop" {
			return nil
		}
		x := stripConv(a.Args[0])
		switch m.Str {
		case "%":
			if k, ok := m.Args[1].Num(); ok && k == 1000 && stripConv(m.Args[0]) == x {
				return x
			}
		case "-": // ms - (ms/1000)*1000
			p := stripConv(m.Args[1])
			if stripConv(m.Args[0]) == x && p.Op == "binop" && p.Str == "*" && stripConv(p.Args[0]) == a {
				if k, ok := p.Args[1].Num(); ok && k == 1000 {
					return x
				}
			}
		}
	}
	return nil
}

func runC50(c *Ctx) {
	const pk = "internal/dtime"
	model := func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
		if ci.Name == "time.Since" || ci.Name == "time.Now" {
			return []*Outcome{{Res: e.T.mk("call", ci.Name, ci.Sig.Results().At(0).Type(), ci.Args...)}}, true
		}
		if ci.Fn == nil && ci.FnTerm != nil && ci.FnTerm.Op == "load" && ci.FnTerm.Args[0].Op == "global" && !ci.Common.IsInvoke() {
			return []*Outcome{{Res: e.T.mk("call", "dyn:"+ci.FnTerm.Args[0].Str, ci.Sig.Results().At(0).Type())}}, true
		}
		return nil, false
	}
	provider := ""
	each := func(name string, f func(e *Engine, st *State, r *Term) (bool, string)) {
		fn := c.P.Func(pk, name)
		if fn == nil {
			c.Bad("anchor:"+name, pk, "function %s not found", name)
			return
		}
		c.Explore(fn, &Opts{Model: model, OnExit: func(e *Engine, st *State, res []*Term) {
			ok, what := f(e, st, res[0])
			c.Expect(ok, "conversion-definition", name, c.P.Pos(fn.Pos()), "%s returns %s, which is not %s (%s)", name, Canon(res[0]), what, e.trailStr(st))
		}}, nil)
	}
	isNow := func(t *Term) bool {
		t = baseTime(t)
		return t.Op == "call" && strings.HasPrefix(t.Str, "dyn:") && strings.Contains(t.Str, "/dtime.")
	}
	arg := func(e *Engine, st *State) *Term {
		p := e.Param("$0", nil)
		if _, ok := p.Typ.Underlying().(*types.Pointer); ok {
			return e.Load(st, p, deref(p.Typ))
		}
		return p
	}
	each("Now", func(e *Engine, st *State, r *Term) (bool, string) {
		if isNow(r) {
			provider = baseTime(r).Str
		}
		return isNow(r), "what the replaceable time source returns"
	})
	each("NowMs", func(e *Engine, st *State, r *Term) (bool, string) {
		x, u, ok := timeUnit(r)
		return ok && u == 1e6 && isNow(x), "the current time of the replaceable source in milliseconds"
	})
	each("TimeToMs", func(e *Engine, st *State, r *Term) (bool, string) {
		x, u, ok := timeUnit(r)
		return ok && u == 1e6 && x == arg(e, st), "the nanoseconds of the argument divided by one million"
	})
	each("MsToTime", func(e *Engine, st *State, r *Term) (bool, string) {
		return msTime(r) == e.Param("$0", nil), "the instant that many milliseconds after the epoch, exact for every value"
	})
	each("MsPrecision", func(e *Engine, st *State, r *Term) (bool, string) {
		what := "the argument truncated to milliseconds"
		b := baseTime(r)
		if b.Op == "call" && b.Str == "(time.Time).Truncate" {
			k, ok := b.Args[1].Num()
			return ok && k == 1e6 && b.Args[0] == arg(e, st), what
		}
		m := msTime(r)
		if m == nil {
			return false, what
		}
		x, u, ok := timeUnit(m)
		return ok && u == 1e6 && x == arg(e, st), what
	})
	each("ElapsedTime", func(e *Engine, st *State, r *Term) (bool, string) {
		what := "the time elapsed since the argument in milliseconds"
		r = stripConv(r)
		p := e.Param("$0", nil)
		// difference of two millisecond readings
		if r.Op == "binop" && r.Str == "-" {
			x, u, ok := timeUnit(r.Args[0])
			y, v, ok2 := timeUnit(r.Args[1])
			if ok && ok2 && u == 1e6 && v == 1e6 && isNow(x) && y == p {
				return true, what
			}
		}
		unit := 1.0
		d := r
		for d.Op == "binop" && d.Str == "/" {
			k, ok := d.Args[1].Num()
			if !ok {
				return false, what
			}
			unit *= k
			d = stripConv(d.Args[0])
		}
		if d.Op == "call" && len(d.Args) == 1 {
			u := map[string]float64{"(time.Duration).Milliseconds": 1e6, "(time.Duration).Microseconds": 1e3, "(time.Duration).Nanoseconds": 1}[d.Str]
			if u > 0 {
				unit *= u
				d = stripConv(d.Args[0])
			}
		}
		if unit != 1e6 || d.Op != "call" {
			return false, what
		}
		switch d.Str {
		case "time.Since":
			return d.Args[0] == p, what
		case "(time.Time).Sub":
			return (isNow(d.Args[0]) || baseTime(d.Args[0]).Str == "time.Now") && d.Args[1] == p, what
		}
		return false, what
	})
	// the default time source is the system clock
	if provider != "" {
		g := strings.TrimPrefix(provider, "dyn:")
		n := 0
		if init := c.P.Func(pk, "init"); init != nil {
			c.Explore(init, &Opts{Model: model, OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
				if addr.Op != "global" || addr.Str != g {
					return
				}
				n++
				ok := false
				if val.Op == "func" && val.Fn != nil {
					if val.Fn.String() == "time.Now" {
						ok = true
					} else if len(val.Fn.Blocks) > 0 {
						ok = true
						c.Explore(val.Fn, &Opts{Model: model, OnExit: func(e2 *Engine, s2 *State, res []*Term) {
							if b := baseTime(res[0]); b.Op != "call" || b.Str != "time.Now" {
								ok = false
							}
						}}, nil)
					}
				}
				c.Expect(ok, "default-source-is-system-clock", shortGlobal(g), c.at(site), "the default time source does not return the system time")
			}}, nil)
		}
		if n == 0 {
			c.Bad("anchor:provider", pk, "the default time source %s is not initialised", shortGlobal(g))
		}
		// only the test hooks and the initialiser may replace it
		for _, p := range c.P.Mod {
			if p.SSA == nil {
				continue
			}
			for _, f := range allFuncs(p.SSA) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						gf := call.Common().StaticCallee()
						if gf == nil {
							continue
						}
						full := gf.String()
						path := fnPkgPath(f)
						if full == "time.Now" {
							c.Expect(strings.HasSuffix(path, "/"+pk), "clock-read-through-source", f.Name(), c.at(in), "%s reads the system clock directly instead of the replaceable time source", f)
						}
						if strings.HasSuffix(fnPkgPath(gf), "/"+pk) && strings.HasPrefix(gf.Name(), "SetNowProvider") {
							c.Expect(strings.HasSuffix(path, "/"+pk), "source-replaced-only-by-tests", f.Name(), c.at(in), "%s replaces the time source outside tests", f)
						}
					}
				}
			}
		}
	}
}

// ---- C51 -------------------------------------------------------------------

// firstSplit gives string functions their meaning relative to the first occurrence of a separator.
func firstSplit(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	if len(ci.Args) < 2 {
		return nil, false
	}
	str := types.Typ[types.String]
	q, sep := ci.Args[0], ci.Args[1]
	found := e.T.mk("sfound", "", types.Typ[types.Bool], q, sep)
	before := e.T.mk("sbefore", "", str, q, sep)
	after := e.T.mk("safter", "", str, q, sep)
	idx := e.T.mk("sindex", "", types.Typ[types.Int], q, sep)
	slice := func(n *State, elems ...*Term) *Term {
		return e.mkSlice(n, ci.Site, str, elems...)
	}
	list := func(rest bool) []*Outcome {
		yes, no := &Outcome{}, &Outcome{}
		n1, n2 := st.clone(), st.clone()
		_ = n1
		_ = n2
		yes.Assume = []Assumption{{found, true}}
		no.Assume = []Assumption{{found, false}}
		el := []*Term{before, after}
		if rest {
			el = []*Term{before, e.T.mk("spart", "1", str, q, sep)}
		}
		yes.Apply = func(n *State) { yes.Res = slice(n, el...) }
		no.Apply = func(n *State) { no.Res = slice(n, q) }
		return []*Outcome{yes, no}
	}
	switch ci.Name {
	case "strings.Contains":
		return []*Outcome{{Res: found}}, true
	case "strings.Cut":
		return []*Outcome{
			{Assume: []Assumption{{found, true}}, Res: e.T.mk("tuple", "", ci.Sig.Results(), before, after, e.T.Bool(true))},
			{Assume: []Assumption{{found, false}}, Res: e.T.mk("tuple", "", ci.Sig.Results(), q, e.T.S(""), e.T.Bool(false))}}, true
	case "strings.SplitN":
		if n, ok := ci.Args[2].Num(); ok && n == 2 {
			return list(false), true
		}
	case "strings.Split":
		return list(true), true
	case "strings.Index":
		return []*Outcome{
			{Assume: []Assumption{{found, true}}, Res: idx, Apply: func(n *State) {
				e.setIv(n, idx, Iv{Lo: 0, Hi: 1 << 62, Int: true})
			}},
			{Assume: []Assumption{{found, false}}, Res: e.T.Int(-1)}}, true
	}
	return nil, false
}

// mkSlice makes a slice value with known elements.
func (e *Engine) mkSlice(st *State, site ssa.Instruction, elem types.Type, elems ...*Term) *Term {
	arr := types.NewArray(elem, int64(len(elems)))
	key := "entry"
	ctx := ""
	if site != nil {
		ctx = st.top().ctx
		key = itoa(e.P.fnID(site.Parent())) + ":" + itoa(e.P.insID(site))
	}
	for _, x := range elems {
		key += "," + itoa(x.ID)
	}
	a := e.T.ctxTerm("alloc", "mks:"+ctx+":"+key+":"+itoa(len(elems)), "list", types.NewPointer(arr))
	for i, x := range elems {
		st.mem[e.T.mk("ia", "", elem, a, e.T.Int(int64(i)))] = x
	}
	return e.T.mk("slice", "full", types.NewSlice(elem), a)
}

// exactList returns the elements of a list whose length and order are known.
func (e *Engine) exactList(st *State, s *Term) ([]*Term, bool) {
	s = strip(s)
	switch {
	case s.IsNil(), s.Op == "zero":
		return nil, true
	case s.Op == "slice" && s.Str == "full" && s.Args[0].Op == "alloc" && s.Args[0].Typ != nil:
		a, ok := deref(s.Args[0].Typ).Underlying().(*types.Array)
		if !ok || a.Len() > 64 {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < a.Len(); i++ {
			out = append(out, e.Load(st, e.T.mk("ia", "", a.Elem(), s.Args[0], e.T.Int(i)), a.Elem()))
		}
		return out, true
	case s.Op == "mkslice":
		l, ok := st.mem[e.T.mk("mklen", "", nil, s)]
		if !ok {
			return nil, false
		}
		if e.IvOf(st, l).Hi <= 0 {
			return nil, true
		}
		if n, ok := l.Num(); ok && n <= 64 {
			var et types.Type
			if sl, ok := s.Typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
			var out []*Term
			for i := int64(0); i < int64(n); i++ {
				out = append(out, e.Load(st, e.T.mk("ia", "", et, s, e.T.Int(i)), et))
			}
			return out, true
		}
	}
	return nil, false
}

// splitPart normalises a string term to "before", "after", "whole", "" or "?".
func splitPart(e *Engine, st *State, t, q *Term) (string, string) {
	sepOf := func(x *Term) string {
		s, _ := x.Args[1].StrVal()
		return s
	}
	if t == q {
		return "whole", ""
	}
	if s, ok := t.StrVal(); ok && s == "" {
		return "empty", ""
	}
	switch t.Op {
	case "sbefore":
		if t.Args[0] == q {
			return "before", sepOf(t)
		}
	case "safter":
		if t.Args[0] == q {
			return "after", sepOf(t)
		}
	case "call":
		// what is left of the name after its prefix and one separator
		if n := strings.HasPrefix(t.Str, "strings.TrimPrefix"); n && len(t.Args) == 2 && t.Args[0] == q && t.Args[1].Op == "concat" && len(t.Args[1].Args) == 2 {
			b, sp := t.Args[1].Args[0], t.Args[1].Args[1]
			if b.Op == "sbefore" && b.Args[0] == q && b.Args[1] == sp {
				return "after", sepOf(b)
			}
		}
		// all parts but the first, joined again
		if strings.HasPrefix(t.Str, "strings.Join") && len(t.Args) == 2 && t.Args[0].Op == "slice" && len(t.Args[0].Args) >= 2 {
			if lo, ok := t.Args[0].Args[1].Num(); ok && lo == 1 && (len(t.Args[0].Args) < 3 || t.Args[0].Args[2].IsNil()) {
				if l, ok := e.exactList(st, t.Args[0].Args[0]); ok && len(l) == 2 && l[0].Op == "sbefore" && l[0].Args[0] == q && l[1].Op == "spart" && l[0].Args[1] == t.Args[1] {
					return "after", sepOf(l[0])
				}
			}
		}
	case "substr":
		if t.Args[0] != q {
			return "?", ""
		}
		lo, hi := t.Args[1], t.Args[2]
		if isZeroTerm(lo) && hi.Op == "sindex" && hi.Args[0] == q {
			return "before", sepOf(hi)
		}
		if hi == e.Len(q) && lo.Op == "binop" && lo.Str == "+" && lo.Args[0].Op == "sindex" && lo.Args[0].Args[0] == q {
			if k, ok := lo.Args[1].Num(); ok && int(k) == len(sepOf(lo.Args[0])) {
				return "after", sepOf(lo.Args[0])
			}
		}
	}
	return "?", ""
}

func runC51(c *Ctx) {
	const pk = "internal/queue/message"
	run := func(fn *ssa.Function, label string, both bool) {
		if fn == nil {
			c.Bad("anchor:"+label, pk, "%s not found", label)
			return
		}
		str := types.Typ[types.String]
		c.Explore(fn, &Opts{Model: firstSplit, OnPanic: func(e *Engine, st *State) {
			c.Bad("prefix-is-before-first-separator", c.P.Pos(fn.Pos()), "%s panics for some queue names (%s)", label, e.trailStr(st))
		}, OnLoad: func(e *Engine, st *State, a *Term, site ssa.Instruction) {
			if a.Op != "ia" || len(a.Args) != 2 {
				return
			}
			l, ok := e.exactList(st, a.Args[0])
			i, num := a.Args[1].Num()
			if ok && num {
				c.Expect(i >= 0 && int(i) < len(l), "prefix-is-before-first-separator", label+":index", c.P.Pos(site.Pos()), "%s reads element %v of a list of %d parts and panics (%s)", label, i, len(l), e.trailStr(st))
			}
		}, OnExit: func(e *Engine, st *State, res []*Term) {
			q := e.Param("$0", nil)
			if fn.Signature.Recv() != nil {
				q = e.Load(st, e.fa(q, "Queue", str), str)
			}
			found := e.T.mk("sfound", "", types.Typ[types.Bool], q, e.T.S("::"))
			f := e.Truth(st, found)
			p, sp := splitPart(e, st, res[0], q)
			where := c.P.Pos(fn.Pos())
			okp := p == "before" && sp == "::" && f == 1 || p == "whole" && f == 2
			c.Expect(okp, "prefix-is-before-first-separator", label, where, "%s returns prefix %s when the separator is %s (%s)", label, Canon(res[0]), []string{"possibly absent", "present", "absent"}[f], e.trailStr(st))
			if both {
				s, ss := splitPart(e, st, res[1], q)
				oks := s == "after" && ss == "::" && f == 1 || s == "empty" && f == 2
				c.Expect(oks, "suffix-is-after-first-separator", label, where, "%s returns suffix %s when the separator is %s (%s)", label, Canon(res[1]), []string{"possibly absent", "present", "absent"}[f], e.trailStr(st))
			}
		}}, nil)
	}
	run(c.P.Func(pk, "GetQueueParts"), "GetQueueParts", true)
	run(c.P.Func(pk, "GetQueuePrefix"), "GetQueuePrefix", false)
	run(c.P.Method(pk, "Message", "GetQueueParts"), "Message.GetQueueParts", true)
	if k, ok := c.P.Pkg("internal/queue/pool").Types.Scope().Lookup("QUEUE_SEPARATOR").(*types.Const); ok {
		c.Expect(k.Val().ExactString() == `"::"`, "separator", "", c.P.Pos(k.Pos()), "the queue separator is %s, not \"::\"", k.Val())
	}
	// pool names are distinct
	seen := map[string]string{}
	sc := c.P.Pkg("internal/queue/pool").Types.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !strings.HasSuffix(k.Type().String(), ".PoolType") {
			continue
		}
		v := k.Val().ExactString()
		o, dup := seen[v]
		c.Expect(!dup, "pool-names-distinct", n, c.P.Pos(k.Pos()), "pools %s and %s have the same name %s", n, o, v)
		seen[v] = n
	}
}

// ---- C52 -------------------------------------------------------------------

func runC52(c *Ctx) {
	const pk = "internal/queue/utils"
	fnOf := func(n string) *ssa.Function {
		f := c.P.Func(pk, n)
		if f == nil {
			c.Bad("anchor:"+n, pk, "%s not found", n)
		}
		return f
	}
	if fn := fnOf("MinInt64"); fn != nil {
		c.Explore(fn, &Opts{OnExit: func(e *Engine, st *State, res []*Term) {
			x, y := e.Param("$0", nil), e.Param("$1", nil)
			r := stripConv(res[0])
			ok := r == x && e.Truth(st, e.Lt(y, x)) == 2 || r == y && e.Truth(st, e.Lt(x, y)) == 2 ||
				r == x && e.Truth(st, e.Lt(x, y)) == 1 || r == y && e.Truth(st, e.Lt(y, x)) == 1
			c.Expect(ok, "min-returns-smaller", "MinInt64", c.P.Pos(fn.Pos()), "MinInt64 returns %s although the other argument may be smaller (%s)", Canon(r), e.trailStr(st))
		}}, nil)
	}
	parse := func(name string, good func(t *Term) bool, what string) {
		fn := fnOf(name)
		if fn == nil {
			return
		}
		c.Explore(fn, &Opts{OnExit: func(e *Engine, st *State, res []*Term) {
			src := func(t *Term, i string) *Term {
				t = stripConv(t)
				if t.Op == "ext" && t.Str == i {
					return t.Args[0]
				}
				return nil
			}
			where := c.P.Pos(fn.Pos())
			v, er := src(res[0], "0"), src(res[1], "1")
			switch e.nilness(st, res[1]) {
			case 2: // an error is reported
				if er == nil {
					// must stem from a failed parse
					ok := false
					for t, f := range st.facts {
						if f.Nil == 2 && t.Op == "ext" && t.Str == "1" && good(t.Args[0]) {
							ok = true
						}
					}
					c.Expect(ok, "error-only-on-parse-error", name, where, "%s reports an error that is not the parse error (%s)", name, e.trailStr(st))
					return
				}
				c.Expect(good(er), "parse-error-reported", name, where, "%s reports the error of %s", name, Canon(er))
			case 1:
				okErr := false
				if v != nil {
					e1 := e.ext(v, 1, types.Universe.Lookup("error").Type())
					okErr = e.nilness(st, e1) == 1
				}
				c.Expect(v != nil && good(v) && okErr, what, name, where, "%s returns %s without an error, although it is not known to be the parsed value (%s)", name, Canon(res[0]), e.trailStr(st))
			default:
				c.Expect(v != nil && good(v) && er == v, what, name, where, "%s returns %s with error %s: not the value and error of %s", name, Canon(res[0]), Canon(res[1]), what)
			}
		}}, nil)
	}
	isNum := func(t *Term, n float64) bool { v, ok := t.Num(); return ok && v == n }
	parse("StrToInt64", func(t *Term) bool {
		if t.Op != "call" || Canon(t.Args[0]) != "$0" {
			return false
		}
		return t.Str == "strconv.Atoi" || t.Str == "strconv.ParseInt" && isNum(t.Args[1], 10) && (isNum(t.Args[2], 64) || isNum(t.Args[2], 0))
	}, "base-10-64-bit-integer")
	parse("StrToFloat64", func(t *Term) bool {
		return t.Op == "call" && t.Str == "strconv.ParseFloat" && Canon(t.Args[0]) == "$0" && isNum(t.Args[1], 64)
	}, "64-bit-float")
	if fn := fnOf("Int64Ptr"); fn != nil {
		c.Explore(fn, &Opts{OnExit: func(e *Engine, st *State, res []*Term) {
			r := res[0]
			v := e.Load(st, r, types.Typ[types.Int64])
			c.Expect(r.Op == "alloc" && v == e.Param("$0", nil), "pointer-to-fresh-copy", "Int64Ptr", c.P.Pos(fn.Pos()), "Int64Ptr returns %s holding %s: not a fresh copy of its argument", Canon(r), Canon(v))
		}}, nil)
	}
}

func itoa(i int) string { return strconv.Itoa(i) }
