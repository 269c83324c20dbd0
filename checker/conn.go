package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cachePkg, storagePkg = "internal/queue/cache", "internal/queue/storage"

var connPkgs = []string{cachePkg, storagePkg, "internal/config", "internal/cmd/deckard"}

func init() {
	register(&Check{ID: "C43", Min: 8, Pkgs: connPkgs,
		Technique: "Path-sensitive type flow over the factories: dynamic type of the result per requested type name, and typestate of failed connections in the factories and in main",
		Note:      "CreateCache and CreateStorage explored for every name and for names equal to none; result types are recognised by the client library they hold. main is explored with each factory failing: nothing may be started afterwards.",
		Run:       runC43})
	register(&Check{ID: "C44", Min: 15, Pkgs: connPkgs,
		Technique: "Typestate dataflow over the connection code: attempts, waits and cancellation counted on every abstract path, per value of the retry settings",
		Note:      "Connection code of both Redis modes and MongoDB explored over all failure patterns of the pings, for attempts in -1..4 and retry enabled or not; the delay is symbolic.",
		Run:       runC44})
}

// libOf: which client library an implementation holds.
func libOf(t types.Type) string {
	s := structOf(t)
	if p, ok := t.(*types.Pointer); ok && s == nil {
		s = structOf(p.Elem())
	}
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		x := types.TypeString(s.Field(i).Type(), nil)
		if strings.Contains(x, "go-redis") {
			return "redis"
		}
		if strings.Contains(x, "mongo-driver") {
			return "mongo"
		}
		if it, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
			for j := 0; j < it.NumEmbeddeds(); j++ {
				if strings.Contains(types.TypeString(it.EmbeddedType(j), nil), "go-redis") {
					return "redis"
				}
			}
		}
	}
	return "memory"
}

// connModel: pings and clients of the client libraries, retry settings with given values.
type connModel struct {
	c        *Ctx
	keys     map[string]string // global -> key
	attempts int64
	enabled  bool
	cluster  bool
	on       func(e *Engine, st *State, what string, ci *CallInfo) bool // false: stop the path
}

func (m *connModel) opts() *Opts {
	o := &Opts{Unroll: true, NoEscape: true, Model: m.model,
		KeepEvent: func(*Event) bool { return false }}
	return o
}

func isPing(n string) (string, bool) {
	i := strings.LastIndexByte(n, '.')
	if i < 0 || n[i+1:] != "Ping" {
		return "", false
	}
	switch {
	case strings.Contains(n, "go-redis"), strings.Contains(n, "RedisClient"):
		return "redis", true
	case strings.Contains(n, "mongo-driver"):
		return "mongo", true
	}
	return "", false
}

func (m *connModel) model(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	errT := types.Universe.Lookup("error").Type()
	if g := configGetter(e.P, ci); g != "" {
		a := strip(ci.Args[0])
		key := ""
		if a.Op == "load" && a.Args[0].Op == "global" {
			key = m.keys[a.Args[0].Str]
		} else if a.Op == "global" {
			key = m.keys[a.Str]
		}
		switch {
		case strings.HasSuffix(key, ".connection.retry.attempts") && m.right(key) && g == "GetInt":
			return []*Outcome{{Res: e.T.Int(m.attempts)}}, true
		case strings.HasSuffix(key, ".connection.retry.enabled") && m.right(key) && g == "GetBool":
			return []*Outcome{{Res: e.T.Bool(m.enabled)}}, true
		case strings.HasSuffix(key, ".connection.retry.delay") && m.right(key) && g == "GetDuration":
			t := e.T.mk("call", "DELAY", ci.Sig.Results().At(0).Type())
			t.Typ = ci.Sig.Results().At(0).Type()
			return []*Outcome{{Res: t}}, true
		case strings.Contains(key, "cluster") && g == "GetBool":
			return []*Outcome{{Res: e.T.Bool(m.cluster)}}, true
		}
		return nil, false
	}
	if lib, ok := isPing(ci.Name); ok {
		if !m.on(e, st, "ping", ci) {
			return nil, true
		}
		if lib == "mongo" {
			er := e.fresh(st, "opq", "ping", ci.Site, "ping", errT)
			er.Typ = errT
			return []*Outcome{
				{Res: er, Assume: []Assumption{{e.T.mk("eq", "", types.Typ[types.Bool], er, e.T.Nil()), true}}, Apply: func(n *State) { e.setNil(n, er, true); n.ghost["last"] = "ok" }},
				{Res: er, Apply: func(n *State) { e.setNil(n, er, false); n.ghost["last"] = "failed" }},
			}, true
		}
		cmd := e.fresh(st, "opq", "pingcmd", ci.Site, "ping", ci.Sig.Results().At(0).Type())
		cmd.Typ = ci.Sig.Results().At(0).Type()
		er, val := e.T.mk("call", "ping.err", errT, cmd), e.T.mk("call", "ping.val", str, cmd)
		er.Typ, val.Typ = errT, str
		return []*Outcome{
			{Res: cmd, Apply: func(n *State) { e.setNil(n, er, true); e.setStr(n, val, "PONG", true); n.ghost["last"] = "ok" }},
			{Res: cmd, Apply: func(n *State) { e.setNil(n, er, true); e.setStr(n, val, "PONG", false); n.ghost["last"] = "odd" }},
			{Res: cmd, Apply: func(n *State) { e.setNil(n, er, false); n.ghost["last"] = "failed" }},
		}, true
	}
	if len(ci.Args) > 0 {
		a := strip(ci.Args[0])
		if a.Op == "opq" && a.Label == "pingcmd" || strings.Contains(a.Label, "pingcmd") || a.Op == "opq" && strings.Contains(Canon(a), "pingcmd") {
			er, val := e.T.mk("call", "ping.err", errT, a), e.T.mk("call", "ping.val", str, a)
			er.Typ, val.Typ = errT, str
			switch {
			case strings.HasSuffix(ci.Name, ").Result"):
				return []*Outcome{{Res: e.T.mk("tuple", "", ci.Sig.Results(), val, er)}}, true
			case strings.HasSuffix(ci.Name, ").Err"):
				return []*Outcome{{Res: er}}, true
			case strings.HasSuffix(ci.Name, ").Val"):
				return []*Outcome{{Res: val}}, true
			}
		}
	}
	switch {
	case ci.Name == "(context.Context).Err" && st.ghost["cancelled"] != "":
		t := e.fresh(st, "opq", "ctxerr", ci.Site, "r", errT)
		t.Typ = errT
		return []*Outcome{{Res: t, Apply: func(n *State) { e.setNil(n, t, false) }}}, true
	case ci.Name == "time.Sleep", ci.Name == "time.NewTimer", ci.Name == "time.After", ci.Name == "time.NewTicker", ci.Name == "time.Tick":
		d := "other"
		if Canon(stripConv(ci.Args[0])) == "DELAY()" || strings.HasPrefix(Canon(stripConv(ci.Args[0])), "DELAY") {
			d = "delay"
		}
		st.ghost["timer"] = d
		if ci.Name == "time.Sleep" {
			m.on(e, st, "sleep", ci)
		}
	case strings.HasSuffix(ci.Name, "go.mongodb.org/mongo-driver/v2/mongo.Connect"):
		res := e.fresh(st, "opq", "mongoclient", ci.Site, "r", ci.Sig.Results())
		er := e.ext(res, 1, errT)
		cl := e.ext(res, 0, ci.Sig.Results().At(0).Type())
		tu := e.T.mk("tuple", "", ci.Sig.Results(), cl, er)
		return []*Outcome{
			{Res: tu, Apply: func(n *State) { e.setNil(n, er, true); e.setNil(n, cl, false) }},
			{Res: tu, Apply: func(n *State) { e.setNil(n, er, false); m.on(e, n, "connect-failed", ci) }}, // the count only stops at the next ping
		}, true
	case strings.HasSuffix(ci.Name, "redis/go-redis/v9.NewClient"), strings.HasSuffix(ci.Name, "redis/go-redis/v9.NewClusterClient"):
		res := e.fresh(st, "opq", short(ci.Name), ci.Site, "r", ci.Sig.Results().At(0).Type())
		res.Typ = ci.Sig.Results().At(0).Type()
		return []*Outcome{{Res: res, Apply: func(n *State) { e.setNil(n, res, false) }}}, true
	}
	return nil, false
}

func (m *connModel) right(key string) bool { return strings.HasPrefix(key, m.prefix()+".") }
func (m *connModel) prefix() string        { return m.c.prefix }

func (c *Ctx) settingKeys() map[string]string {
	out := map[string]string{}
	for _, s := range c.settings() {
		out[s.global] = s.key
	}
	return out
}

type factory struct {
	pkg, fn, name, lib, prefix string
	cluster                    bool
}

var factories = []factory{
	{cachePkg, "CreateCache", "REDIS", "redis", "cache", false},
	{cachePkg, "CreateCache", "REDIS", "redis", "cache", true},
	{storagePkg, "CreateStorage", "MONGODB", "mongo", "storage", false},
}

func runC44(c *Ctx) {
	keys := c.settingKeys()
	for _, f := range factories {
		fn := c.P.Func(f.pkg, f.fn)
		if fn == nil {
			c.Bad("anchor:"+f.fn, f.pkg, "factory %s not found", f.fn)
			continue
		}
		mode := f.name
		if f.cluster {
			mode += "-cluster"
		}
		pings := 0
		for _, enabled := range []bool{true, false} {
			for _, n := range []int64{-1, 0, 1, 2, 3, 4} {
				max := n
				if n < 1 || !enabled {
					max = 1
				}
				cfg := fmt.Sprintf("attempts=%d, enabled=%v", n, enabled)
				where := c.P.Pos(fn.Pos())
				c.prefix = f.prefix
				m := &connModel{c: c, keys: keys, attempts: n, enabled: enabled, cluster: f.cluster}
				reset := func(st *State) {
					delete(st.ghost, "n")
					delete(st.ghost, "waited")
					delete(st.ghost, "timer")
					delete(st.ghost, "cancelled")
				}
				count := func(st *State) int { return len(st.ghost["n"]) }
				attempt := func(e *Engine, st *State, ci *CallInfo) bool {
					pings++
					if st.ghost["last"] == "ok" { // the next client
						reset(st)
						st.ghost["phase"] += "+"
						if len(st.ghost["phase"]) > 3 {
							c.Bad("attempts-are-bounded:"+mode, c.at(ci.Site), "%s (%s): the server may be pinged again and again after a successful ping (%s)", mode, cfg, e.trailStr(st))
							return false
						}
					}
					k := count(st)
					if k > 0 {
						c.Expect(enabled, "no-retry-when-disabled", mode, c.at(ci.Site), "%s (%s): another attempt is made although retry is disabled (%s)", mode, cfg, e.trailStr(st))
						c.Expect(st.ghost["waited"] == "delay", "delay-between-attempts", mode, c.at(ci.Site), "%s (%s): another attempt is made without waiting the configured delay (%s)", mode, cfg, e.trailStr(st))
						c.Expect(st.ghost["cancelled"] == "", "no-attempt-after-cancellation", mode, c.at(ci.Site), "%s (%s): another attempt is made after the context was cancelled (%s)", mode, cfg, e.trailStr(st))
						c.Expect(st.ghost["waited"] != "delay" || st.ghost["sleep"] == "", "waiting-can-be-cancelled", mode, c.at(ci.Site), "%s (%s): the wait between attempts ignores the context", mode, cfg)
					}
					delete(st.ghost, "waited")
					delete(st.ghost, "timer")
					if !c.Expect(int64(k) < max, "attempts-are-bounded", mode, c.at(ci.Site), "%s (%s): more than %d attempt(s) are made (%s)", mode, cfg, max, e.trailStr(st)) {
						return false
					}
					st.ghost["n"] += "*"
					return true
				}
				m.on = func(e *Engine, st *State, what string, ci *CallInfo) bool {
					switch what {
					case "ping":
						return attempt(e, st, ci)
					case "connect-failed":
						ok := attempt(e, st, ci)
						st.ghost["last"] = "unconnected"
						return ok
					case "sleep":
						st.ghost["waited"], st.ghost["sleep"] = st.ghost["timer"], "y"
					}
					return true
				}
				o := m.opts()
				o.Event = nil
				o.OnEvent = nil
				o.KeepEvent = func(ev *Event) bool { return false }
				o.OnChan = func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
					if kind != "recv" {
						return
					}
					if isDone(e, st, ch) {
						st.ghost["cancelled"] = "y"
					} else if t := st.ghost["timer"]; t != "" {
						st.ghost["waited"] = t
					}
				}
				o.OnExit = func(e *Engine, st *State, res []*Term) {
					if len(res) < 2 {
						return
					}
					er := e.nilness(st, res[1])
					last := st.ghost["last"]
					if er != 2 {
						c.Expect(last == "ok", "success-only-after-a-successful-ping", mode+":"+last, where, "%s (%s): connecting may succeed although the last attempt was not (%s) (%s)", mode, cfg, orNone(last), e.trailStr(st))
						return
					}
					switch {
					case last == "ok" && n >= 1 && st.ghost["phase"] == "" && f.lib == "redis":
						c.Bad("a-successful-ping-connects:"+mode, where, "%s (%s): connecting may fail although the last attempt succeeded (%s)", mode, cfg, e.trailStr(st))
					case last == "failed" && st.ghost["cancelled"] == "":
						c.Expect(int64(count(st)) == max, "all-attempts-are-made", mode, where, "%s (%s): connecting gives up after %d attempt(s) instead of %d (%s)", mode, cfg, count(st), max, e.trailStr(st))
					case last == "failed":
						c.OK("cancellation-stops", mode)
					}
				}
				c.Explore(fn, o, func(st *State, args []*Term) {
					args[1] = c.curEngine.T.Const(constant.MakeString(f.name), args[1].Typ)
				})
			}
		}
		if pings == 0 {
			c.Bad("anchor:ping:"+mode, c.P.Pos(fn.Pos()), "%s: no connection attempt found", mode)
		}
	}
}

func orNone(s string) string {
	if s == "" {
		return "there was none"
	}
	return s
}

// isDone: the channel of a context.
func isDone(e *Engine, st *State, ch *Term) bool {
	ch = strip(ch)
	if ch.Op == "tuple" {
		return false
	}
	if ci := st.mem[e.T.mk("callinfo", "", nil, ch)]; ci != nil {
		return ci.Str == "(context.Context).Done"
	}
	return strings.Contains(Canon(ch), "Done")
}

func runC43(c *Ctx) {
	keys := c.settingKeys()
	type tc struct {
		factory
		want string // library, "" for an error
	}
	var cases []tc
	for _, f := range []struct{ pkg, fn, prefix string }{{cachePkg, "CreateCache", "cache"}, {storagePkg, "CreateStorage", "storage"}} {
		for _, n := range []string{"REDIS", "MONGODB", "MEMORY", "", "redis", "memory", "mongodb", "MEMORY ", "*"} {
			w := map[string]string{"MEMORY": "memory"}[n]
			if f.prefix == "cache" && n == "REDIS" {
				w = "redis"
			}
			if f.prefix == "storage" && n == "MONGODB" {
				w = "mongo"
			}
			for _, cl := range []bool{false, true} {
				if cl && w != "redis" {
					continue
				}
				cases = append(cases, tc{factory{f.pkg, f.fn, n, w, f.prefix, cl}, w})
			}
		}
	}
	for _, f := range cases {
		fn := c.P.Func(f.pkg, f.fn)
		if fn == nil {
			c.Bad("anchor:"+f.fn, f.pkg, "factory %s not found", f.fn)
			continue
		}
		where := c.P.Pos(fn.Pos())
		c.prefix = f.prefix
		m := &connModel{c: c, keys: keys, attempts: 1, enabled: false, cluster: f.cluster, on: func(e *Engine, st *State, what string, ci *CallInfo) bool {
			if what == "ping" {
				if st.ghost["last"] != "" && st.ghost["last"] != "ok" {
					c.Bad("failed-connection-is-an-error:"+f.fn, c.at(ci.Site), "%s goes on after a failed connection (%s)", f.fn, e.trailStr(st))
					return false
				}
				st.ghost["n"] += "*"
				return len(st.ghost["n"]) < 8
			}
			if what == "connect-failed" {
				st.ghost["last"] = "unconnected"
			}
			return true
		}}
		found := false
		o := m.opts()
		o.OnExit = func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 {
				return
			}
			r := res[0]
			got := "?"
			if r.Op == "iface" {
				got = libOf(r.Typ)
				r = r.Args[0]
			}
			what := "type " + fmt.Sprintf("%q", f.name)
			want := f.want
			if f.name == "*" {
				what = "any type name"
				// which name does this path stand for?
				p := e.Param("$1", nil)
				if fc, ok := st.facts[p]; ok && fc.SEq != nil {
					switch {
					case *fc.SEq == "MEMORY":
						want = "memory"
					case *fc.SEq == "REDIS" && f.prefix == "cache":
						want = "redis"
					case *fc.SEq == "MONGODB" && f.prefix == "storage":
						want = "mongo"
					}
				}
			}
			if want == "" {
				c.Bad("unknown-type-is-an-error:"+f.fn, where, "%s: %s yields a %s instance instead of an error (%s)", f.fn, what, got, e.trailStr(st))
				return
			}
			found = true
			c.Expect(got == want, "type-selects-its-implementation", f.fn+":"+f.name, where, "%s: %s selects the %s implementation (%s)", f.fn, what, got, e.trailStr(st))
			c.Expect(e.nilness(st, r) == 2, "instance-not-nil", f.fn+":"+f.name, where, "%s: %s may yield a nil instance without an error (%s)", f.fn, what, e.trailStr(st))
			if want != "memory" {
				c.Expect(st.ghost["last"] == "ok", "failed-connection-is-an-error", f.fn+":"+f.name, where, "%s: %s may yield an instance although the connection failed (%s)", f.fn, what, e.trailStr(st))
			}
		}
		c.Explore(fn, o, func(st *State, args []*Term) {
			if f.name != "*" {
				args[1] = c.curEngine.T.Const(constant.MakeString(f.name), args[1].Typ)
			}
		})
		if f.want != "" {
			c.Expect(found, "type-is-available", f.fn+":"+f.name, where, "%s: type %q never yields an instance", f.fn, f.name)
		} else {
			c.OK("unknown-type-is-an-error", f.fn+":"+f.name)
		}
	}
	// main
	mainFn := c.P.Func("internal/cmd/deckard", "main")
	if mainFn == nil {
		c.Bad("anchor:main", "internal/cmd/deckard", "main not found")
		return
	}
	seen := map[string]int{}
	fac := map[*ssa.Function]string{}
	for _, f := range [][3]string{{cachePkg, "CreateCache", "cache.type"}, {storagePkg, "CreateStorage", "storage.type"}} {
		if fn := c.P.Func(f[0], f[1]); fn != nil {
			fac[fn] = f[2]
		}
	}
	c.Explore(mainFn, &Opts{NoEscape: true, Depth: 6,
		Event: func(ci *CallInfo) bool { return fac[ci.Fn] != "" },
		Opaque: func(fn *ssa.Function) bool {
			p := fnPkgPath(fn)
			return !strings.HasSuffix(p, "internal/cmd/deckard") && fac[fn] == ""
		},
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			switch {
			case ci.Name == "os.Exit", strings.Contains(ci.Name, ").Fatal"), strings.Contains(ci.Name, ").Panic") && strings.Contains(ci.Name, "zap"), strings.HasPrefix(ci.Name, "log.Fatal"):
				return nil, true
			}
			return nil, false
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if st.ghost["failed"] == "" {
				return
			}
			start := strings.Contains(ci.Name, "/internal/queue.New") || strings.Contains(ci.Name, "/internal/service.New") || strings.HasSuffix(ci.Name, "ServeGRPCServer") || fac[ci.Fn] != ""
			if start {
				c.Bad("process-does-not-start-after-a-failure", c.at(ci.Site), "main goes on (%s) after a failed %s (%s)", short(ci.Name), st.ghost["failed"], e.trailStr(st))
			}
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			call, _ := ev.Site.(ssa.CallInstruction)
			if call == nil {
				return
			}
			key := fac[call.Common().StaticCallee()]
			seen[key]++
			cn := Canon(stripConv(ev.Args[1]))
			ok := false
			for g, k := range keys {
				if k == key && strings.Contains(cn, shortGlobal(g)) {
					ok = true
				}
			}
			c.Expect(ok, "configured-type-is-used", key, c.at(ev.Site), "%s is called with %s, not with the value of %s", short(ev.Name), cn, key)
		},
		OnFail: func(e *Engine, st *State, ev *Event) { st.ghost["failed"] = short(ev.Name) },
		OnPanic: func(e *Engine, st *State) {
			if st.ghost["failed"] != "" {
				c.OK("process-does-not-start-after-a-failure", st.ghost["failed"])
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			c.OK("main-explored", "")
		},
	}, nil)
	for _, k := range []string{"cache.type", "storage.type"} {
		c.Expect(seen[k] > 0, "factory-is-used", k, c.P.Pos(mainFn.Pos()), "main never creates the instance selected by %s", k)
	}
}
