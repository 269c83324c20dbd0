package main

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C64", Min: 50, Pkgs: []string{metricsPkg},
		Technique: "Definite-assignment analysis of the instrument variables over the package initialisation, with constant flow into names, label keys and callbacks compared with the documented table",
		Note:      "All paths of the initialisation of the metrics package (which variable holds which instrument under which name); every place in the module that records an instrument; all paths of the two gauge callbacks and of the update of the queue maps. Label keys are compared where they are constants at the recording call; a recording through a helper that computes them is not judged. OpenTelemetry and the exporter are trusted.",
		Run:       runC64})
}

const metricsPkg = "internal/metrics"

type docMetric struct {
	kind   string
	labels []string
}

var docRow = regexp.MustCompile("(?m)^\\|\\s*`?(\\w+)`?\\s*\\|\\s*(Counter|Histogram|Gauge)\\s*\\|(.*)\\|([^|]*)\\|\\s*$")
var docLabel = regexp.MustCompile("`(\\w+)`")

// docMetrics reads the documented table.
func docMetrics(repo string) map[string]docMetric {
	out := map[string]docMetric{}
	b, err := os.ReadFile(filepath.Join(repo, "docs", "components.md"))
	if err != nil {
		return out
	}
	for _, m := range docRow.FindAllStringSubmatch(string(b), -1) {
		d := docMetric{kind: m[2]}
		for _, l := range docLabel.FindAllStringSubmatch(m[4], -1) {
			d.labels = append(d.labels, l[1])
		}
		sort.Strings(d.labels)
		out[m[1]] = d
	}
	return out
}

// instrumentKind is the kind of an instrument type, "" for other types.
func instrumentKind(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "go.opentelemetry.io/otel/metric" {
		return ""
	}
	s := n.Obj().Name()
	if !strings.HasPrefix(s, "Int64") && !strings.HasPrefix(s, "Float64") {
		return ""
	}
	for _, k := range []string{"UpDownCounter", "Counter", "Histogram", "Gauge"} {
		if strings.HasSuffix(s, k) {
			return k
		}
	}
	return ""
}

type instrument struct {
	name, kind, where string
	res               *Term
	callback          *ssa.Function
}

func runC64(c *Ctx) {
	sp := c.P.ssaPkg(metricsPkg)
	if sp == nil {
		c.Bad("anchor:metrics", metricsPkg, "the metrics package was not found")
		return
	}
	// where instruments are recorded
	vars := map[string]*ssa.Global{}
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok && instrumentKind(deref(g.Type())) != "" {
			vars[g.String()] = g
		}
	}
	type use struct {
		g    *ssa.Global
		fn   *ssa.Function
		call *ssa.CallCommon
		pos  token.Pos
	}
	var uses []use
	recorded := map[string]string{}
	for _, pk := range c.P.Mod {
		if pk.SSA == nil || strings.HasSuffix(pk.Path, "/mocks") {
			continue
		}
		for _, fn := range allFuncs(pk.SSA) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ld, ok := in.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						continue
					}
					g, ok := ld.X.(*ssa.Global)
					if !ok || vars[g.String()] == nil {
						continue
					}
					recorded[g.String()] = c.at(in)
					for _, r := range *ld.Referrers() {
						if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Value == ld {
							uses = append(uses, use{g, fn, ci.Common(), in.Pos()})
						}
					}
				}
			}
		}
	}

	// what the initialisation of the package creates
	byName := map[string]*instrument{}
	ofVar := map[string]*instrument{}
	entry := sp.Func("init")
	if entry == nil {
		c.Bad("anchor:metrics.init", metricsPkg, "the initialisation of the metrics package was not found")
		return
	}
	made := map[*Term]*instrument{}
	exits := 0
	c.Explore(entry, &Opts{
		Opaque: func(fn *ssa.Function) bool { return fnPkgPath(fn) != sp.Pkg.Path() || isInit(fn) && fn.Pkg != sp },
		Event: func(ci *CallInfo) bool {
			return strings.HasPrefix(ci.Name, "(go.opentelemetry.io/otel/metric.Meter).")
		},
		NoErrFork: func(string) bool { return true },
		KeepEvent: func(*Event) bool { return false },
		OnEvent: func(e *Engine, st *State, ev *Event) {
			where := c.at(ev.Site)
			m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
			if ev.Errs != nil {
				e.setNil(st, ev.Errs, true) // only a malformed name or option fails, and then nothing starts
			}
			if !strings.HasPrefix(m, "Int64") && !strings.HasPrefix(m, "Float64") {
				return
			}
			n, ok := ev.Args[1].StrVal()
			if !c.Expect(ok, "constant-name", m, where, "an instrument is created under a name that is not constant (%s)", Canon(ev.Args[1])) {
				return
			}
			in := &instrument{name: n, kind: m, where: where, res: ev.Res}
			if o := byName[n]; o != nil && o.res != ev.Res {
				c.Bad("one-instrument-per-name:"+n, where, "the metric %s is created a second time (first at %s): the two share one time series", n, o.where)
			} else {
				c.OK("one-instrument-per-name", n)
			}
			byName[n] = in
			made[ev.Res] = in
			for _, x := range e.Elems(st, ev.Args[len(ev.Args)-1]) {
				x = unbox(x)
				if x.Op == "call" && strings.Contains(x.Str, "Callback") && len(x.Args) == 1 && unbox(x.Args[0]).Op == "func" {
					in.callback = unbox(x.Args[0]).Fn
				}
			}
		},
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			if strings.Contains(ci.Name, "zap.") && (strings.Contains(ci.Name, "Logger).Panic") || strings.Contains(ci.Name, "Logger).Fatal")) {
				return nil, true // does not return
			}
			if strings.HasPrefix(ci.Name, "go.opentelemetry.io/otel/metric.With") && ci.Sig.Results().Len() == 1 {
				return []*Outcome{{Res: e.T.mk("call", ci.Name, ci.Sig.Results().At(0).Type(), ci.Args...)}}, true
			}
			return nil, false
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op != "global" || vars[addr.Str] == nil {
				return
			}
			v := unbox(val)
			if v.Op == "ext" {
				v = v.Args[0]
			}
			in := made[v]
			if in == nil {
				c.Expect(val.IsNil(), "instrument-of-variable", shortGlobal(addr.Str), c.at(site), "%s is set to %s, not to a new instrument", shortGlobal(addr.Str), Canon(val))
				delete(st.ghost, "set:"+addr.Str)
				return
			}
			if o := ofVar[addr.Str]; o != nil && o.name != in.name {
				c.Bad("one-name-per-instrument:"+shortGlobal(addr.Str), c.at(site), "%s holds the metric %s and then %s", shortGlobal(addr.Str), o.name, in.name)
			}
			ofVar[addr.Str] = in
			st.ghost["set:"+addr.Str] = "1"
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if st.ghost["init"] == "skip" {
				return
			}
			exits++
			for g, where := range recorded {
				c.Expect(st.ghost["set:"+g] != "", "instrument-created-before-use", shortGlobal(g), where, "%s is recorded here but the initialisation of the metrics package does not create it on every path (%s)", shortGlobal(g), e.trailStr(st))
			}
		},
		OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
			// the package is initialised once
			if u, ok := x.Cond.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "init$guard" {
					return !want
				}
			}
			return true
		},
	}, nil)
	if exits == 0 {
		c.Bad("anchor:metrics.init-exit", metricsPkg, "the initialisation of the metrics package never completes")
		return
	}

	// the documented table
	docs := docMetrics(c.P.Repo)
	if len(docs) < 5 {
		c.Bad("anchor:documented-metrics", "docs/components.md", "the table of metrics was not found")
	}
	for n, d := range docs {
		in := byName[n]
		if !c.Expect(in != nil, "documented-metric-exists", n, "docs/components.md", "the documented metric %s is not created", n) {
			continue
		}
		ok := strings.HasSuffix(in.kind, d.kind) && !strings.HasSuffix(in.kind, "UpDownCounter")
		c.Expect(ok, "documented-type", n, in.where, "the metric %s is documented as %s and created as %s", n, d.kind, in.kind)
	}

	// labels of what is recorded
	for _, u := range uses {
		in := ofVar[u.g.String()]
		if in == nil {
			continue
		}
		keys, ok := labelKeys(u.call)
		d, doc := docs[in.name]
		if !ok || !doc {
			continue
		}
		for _, l := range d.labels {
			if l == "retry" {
				continue // of one operation only
			}
			found := false
			for _, k := range keys {
				found = found || k == l
			}
			c.Expect(found, "documented-label", in.name+"."+l+"@"+u.fn.Name(), c.P.Pos(u.pos), "the metric %s is recorded without its documented label %s", in.name, l)
		}
		for _, k := range keys {
			found := false
			for _, l := range d.labels {
				found = found || k == l
			}
			c.Expect(found, "no-other-label", in.name+"."+k+"@"+u.fn.Name(), c.P.Pos(u.pos), "the metric %s is recorded with the label %s, which is not documented", in.name, k)
		}
	}

	c.queueMaps(byName)
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// labelKeys are the constant keys of the attributes given to a recording call.
func labelKeys(call *ssa.CallCommon) ([]string, bool) {
	if len(call.Args) < 2 {
		return nil, true
	}
	opts, ok := sliceLit(call.Args[len(call.Args)-1])
	if !ok {
		return nil, false
	}
	var keys []string
	for _, o := range opts {
		f, args := staticCall(o)
		if !strings.HasSuffix(f, "otel/metric.WithAttributes") || len(args) != 1 {
			return nil, false
		}
		as, ok := sliceLit(args[0])
		if !ok {
			return nil, false
		}
		for _, a := range as {
			f, args := staticCall(a)
			if !strings.Contains(f, "otel/attribute.") || len(args) != 2 {
				return nil, false
			}
			k, ok := args[0].(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, false
			}
			keys = append(keys, strings.Trim(k.Value.ExactString(), `"`))
		}
	}
	return keys, true
}

func staticCall(v ssa.Value) (string, []ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				return f.String(), x.Call.Args
			}
		}
		return "", nil
	}
}

// sliceLit are the values of a slice literal or of variadic arguments.
func sliceLit(v ssa.Value) ([]ssa.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				out = append(out, st.Val)
			}
		}
	}
	at, ok := deref(a.Type()).Underlying().(*types.Array)
	return out, ok && int(at.Len()) == len(out)
}

// queueMaps: the gauges observe every queue of their own map, and the update of a map keeps the queues it had.
func (c *Ctx) queueMaps(byName map[string]*instrument) {
	mt := c.P.Named(metricsPkg, "QueueMetricsMap")
	if mt == nil {
		c.Bad("anchor:queue-maps", metricsPkg, "the maps behind the gauges were not found")
		return
	}
	for _, g := range []struct{ metric, field, update string }{
		{"deckard_oldest_message", "OldestElement", "UpdateOldestElementMap"},
		{"deckard_total_messages", "TotalElements", "UpdateTotalElementsMap"},
	} {
		g := g
		if in := byName[g.metric]; in != nil {
			if in.callback == nil {
				c.Bad("gauge-has-a-callback:"+g.metric, in.where, "the gauge %s is created without a callback", g.metric)
			} else {
				c.gauge(g.metric, g.field, in.callback)
			}
		}
		fn := c.P.Method(metricsPkg, "QueueMetricsMap", g.update)
		if fn == nil {
			c.Bad("anchor:"+g.update, metricsPkg, "%s not found", g.update)
			continue
		}
		c.mapUpdate(g.field, fn)
	}
}

func (c *Ctx) gauge(metric, field string, fn *ssa.Function) {
	pos := c.P.Pos(fn.Pos())
	cur := func(e *Engine) *Term { return e.T.mk("gaugecur", "", nil) }
	n := 0
	own := func(m *Term) bool { return strings.HasSuffix(Canon(strip(m)), "."+field) }
	c.Explore(fn, &Opts{
		Event: func(ci *CallInfo) bool {
			return strings.HasSuffix(ci.Name, "Observer).Observe") || strings.HasSuffix(ci.Name, "Observer).ObserveInt64")
		},
		KeepEvent: func(*Event) bool { return false },
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			if strings.HasPrefix(ci.Name, "go.opentelemetry.io/otel/") && ci.Sig.Results().Len() == 1 && ci.Sig.Recv() == nil {
				return []*Outcome{{Res: e.T.mk("call", ci.Name, ci.Sig.Results().At(0).Type(), flat(e, st, ci.Args)...)}}, true
			}
			return nil, false
		},
		OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
			switch kind {
			case "range":
				n++
				c.Expect(own(m), "gauge-of-its-own-map", metric, c.at(site), "the gauge %s observes %s, not %s", metric, Canon(m), field)
			case "item":
				iterStart(st, "it", k)
				st.mem[cur(e)] = k
				delete(st.ghost, "seen")
			case "update", "delete", "clear":
				c.Bad("scrape-changes-nothing:"+metric, c.at(site), "the scrape of %s changes a map the housekeeper uses", metric)
			}
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			k := st.mem[cur(e)]
			where := c.at(ev.Site)
			if k == nil {
				c.Bad("gauge-observes-queues:"+metric, where, "the gauge %s observes something that is no queue of its map", metric)
				return
			}
			val := stripConv(ev.Args[1])
			ok := val.Op == "lookup" && own(val.Args[0]) && stripConv(val.Args[1]) == stripConv(k)
			c.Expect(ok, "gauge-value", metric, where, "the gauge %s reports %s, not the value of the queue it names", metric, Canon(val))
			lbl := false
			for _, o := range ev.Args[2:] {
				for _, x := range append(e.Elems(st, o), o) {
					if s := labelOf(x, k); s == "queue" {
						lbl = true
					}
				}
			}
			c.Expect(lbl, "gauge-label", metric, where, "the gauge %s is reported without the label queue naming the queue of the value", metric)
			st.ghost["seen"] = "1"
		},
		OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
			if !back || !iterEnd(st, "it", b) {
				return
			}
			c.Expect(st.ghost["seen"] != "", "gauge-reports-every-queue", metric, pos, "the gauge %s skips a queue of its map (%s)", metric, e.trailStr(st))
			delete(st.ghost, "seen")
			delete(st.mem, cur(e))
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			c.Expect(len(res) == 0 || e.nilness(st, res[len(res)-1]) == 1, "gauge-never-fails", metric, pos, "the callback of %s fails (%s)", metric, e.trailStr(st))
			c.Expect(st.ghost["it:"] == "", "gauge-callback", metric, pos, "the callback of %s ends early", metric)
		}}, nil)
	if n == 0 {
		c.Bad("gauge-reports-every-queue:"+metric, pos, "the gauge %s looks at no map", metric)
	}
}

// flat replaces slices in the arguments of a modelled call by their elements.
func flat(e *Engine, st *State, as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		if a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Slice); ok {
				out = append(out, e.Elems(st, a)...)
				continue
			}
		}
		out = append(out, a)
	}
	return out
}

// labelOf is the key of an attribute whose value is k, somewhere in x.
func labelOf(x, k *Term) string {
	x = unbox(x)
	if x.Op == "call" && strings.Contains(x.Str, "attribute.") && len(x.Args) == 2 && stripConv(x.Args[1]) == stripConv(k) {
		s, _ := unbox(x.Args[0]).StrVal()
		return s
	}
	for _, a := range x.Args {
		if s := labelOf(a, k); s != "" {
			return s
		}
	}
	return ""
}

func (c *Ctx) mapUpdate(field string, fn *ssa.Function) {
	pos := c.P.Pos(fn.Pos())
	name := fn.Name()
	cur := func(e *Engine) *Term { return e.T.mk("mapcur", "", nil) }
	kindOf := func(m *Term) string {
		m = strip(m)
		switch {
		case Canon(m) == "$0."+field:
			return "old"
		case Canon(m) == "$1":
			return "new"
		case m.Op == "mkmap":
			return "made"
		}
		return "other"
	}
	c.Explore(fn, &Opts{
		OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
			where := c.at(site)
			src := kindOf(m)
			switch kind {
			case "range":
				st.ghost["saw:"+src] = "1"
			case "item":
				iterStart(st, "it", k)
				st.mem[cur(e)] = k
				st.ghost["src"] = src
				delete(st.ghost, "upd")
			case "update":
				if src == "old" {
					c.Bad("published-map-not-changed:"+name, where, "%s changes the map a scrape may be reading; a concurrent scrape crashes the process", name)
					return
				}
				ck := st.mem[cur(e)]
				if ck == nil || stripConv(ck) != stripConv(k) {
					c.Bad("map-update:"+name, where, "%s sets a queue that is neither in the old nor in the new data (%s)", name, e.trailStr(st))
					return
				}
				switch st.ghost["src"] {
				case "old":
					n := e.IvOf(st, v)
					c.Expect(!n.NaN && n.Lo == 0 && n.Hi == 0, "vanished-queue-is-zero", name, where, "%s reports a queue that is gone with %s", name, Canon(v))
					absent := st.ghost["copied"] == "" && src == "made"
					for t, f := range st.facts {
						if t.Op == "has" && f.B == 2 && stripConv(t.Args[1]) == stripConv(k) && (kindOf(t.Args[0]) == "new" || t.Args[0] == m) {
							absent = true
						}
					}
					c.Expect(absent, "new-value-kept", name, where, "%s may overwrite the new value of a queue (%s)", name, e.trailStr(st))
				case "new":
					c.Expect(stripConv(v).Op == "lookup" && kindOf(stripConv(v).Args[0]) == "new", "new-value-kept", name, where, "%s reports %s for a queue", name, Canon(v))
				}
				st.ghost["upd"] = "1"
			case "delete", "clear":
				c.Bad("map-update-deletes:"+name, where, "%s deletes a queue from the data", name)
			}
		},
		OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
			if !back || !iterEnd(st, "it", b) {
				return
			}
			k := st.mem[cur(e)]
			done := st.ghost["upd"] != ""
			if st.ghost["src"] == "old" && !done {
				for t, f := range st.facts {
					if t.Op == "has" && f.B == 1 && stripConv(t.Args[1]) == stripConv(k) && (kindOf(t.Args[0]) == "new" || kindOf(t.Args[0]) == "made") {
						done = true
					}
				}
				c.Expect(done, "vanished-queue-is-zero", name+".every", pos, "%s forgets a queue that the new data does not have instead of reporting it as 0 (%s)", name, e.trailStr(st))
			}
			if st.ghost["src"] == "new" {
				c.Expect(done, "new-value-kept", name+".every", pos, "%s drops a queue of the new data (%s)", name, e.trailStr(st))
				st.ghost["copied"] = "1"
			}
			delete(st.mem, cur(e))
			delete(st.ghost, "src")
			delete(st.ghost, "upd")
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op != "fa" || Canon(addr.Args[0]) != "$0" {
				return
			}
			where := c.at(site)
			if !c.Expect(addr.Str == field, "update-of-its-own-map", name, where, "%s replaces %s", name, addr.Str) {
				return
			}
			st.ghost["stored"] = "1"
			if e.nilness(st, e.Param("$1", nil)) == 1 {
				c.OK("no-data", name)
				return
			}
			k := kindOf(val)
			c.Expect((k == "new" || k == "made" && st.ghost["saw:new"] != "") && st.ghost["saw:old"] != "", "merged-map-published", name, where, "%s publishes %s, which need not have every queue of the old and the new data (%s)", name, Canon(val), e.trailStr(st))
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			c.Expect(st.ghost["stored"] != "", "merged-map-published", name+".always", pos, "%s does not publish the new data (%s)", name, e.trailStr(st))
		}}, nil)
}
