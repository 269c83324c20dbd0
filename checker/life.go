package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const shutPkg, mainPkg, auditPkg, tracePkg = "internal/shutdown", "internal/cmd/deckard", "internal/audit", "internal/trace"

func init() {
	register(&Check{ID: "C60", Min: 10, Pkgs: []string{shutPkg, mainPkg},
		Technique: "Typestate dataflow over PerformShutdown and main: order of effects on every path",
		Note:      "Every path of PerformShutdown (with and without a server) must perform its effects in the required order, each once, in the calling goroutine; every normal exit of main must go through it with the process's own cancel function and server after a shutdown signal.",
		Run:       runC60})
	register(&Check{ID: "C61", Min: 20, Pkgs: []string{mainPkg, "internal/queue", shutPkg},
		Technique: "Typestate dataflow over the task scheduler (wait group, lock, timer) and value tracking of the arguments of every scheduled task",
		Note:      "The scheduler explored with and without a lock over all interleavings of its select; the go statements that start it are analysed for job, lock, wait group and interval of every task.",
		Run:       runC61})
	register(&Check{ID: "C62", Min: 14, Pkgs: []string{auditPkg},
		Technique: "Typestate dataflow over the auditor: received entries, buffer and batches in the sender; lockset and flag analysis of send against close",
		Note:      "All paths of the sender, of the batch sender, of Store and of every function that closes the entry channel.",
		Run:       runC62})
	register(&Check{ID: "C63", Min: 4, Pkgs: []string{tracePkg, shutPkg},
		Technique: "Value tracking from the installed tracer provider to the package state that shutdown flushes",
		Note:      "All paths of trace.Init and trace.Shutdown.",
		Run:       runC63})
}

func isG(t *Term, g string) bool { return strings.HasSuffix(Canon(strip(t)), g) }

// ---- C60 -------------------------------------------------------------------

func runC60(c *Ctx) {
	fn := c.P.Func(shutPkg, "PerformShutdown")
	if fn == nil {
		c.Bad("anchor:PerformShutdown", shutPkg, "PerformShutdown not found")
		return
	}
	where := c.P.Pos(fn.Pos())
	// which parameter is which
	cancel, server := "", ""
	for i, p := range fn.Params {
		switch {
		case strings.HasSuffix(p.Type().String(), "context.CancelFunc"), p.Type().String() == "func()":
			cancel = "$" + string(rune('0'+i))
		case strings.HasSuffix(p.Type().String(), "grpc.Server"):
			server = "$" + string(rune('0'+i))
		}
	}
	order := []string{"start", "stop", "critical", "flush", "cancel", "wait", "finish"}
	names := map[string]string{"start": "marking shutdown as started", "stop": "stopping the gRPC server gracefully", "critical": "waiting for critical background work", "flush": "flushing traces",
		"cancel": "cancelling the root context", "wait": "waiting for the remaining background work", "finish": "marking shutdown as finished"}
	step := func(e *Engine, st *State, s string, site ssa.Instruction) {
		done := strings.Fields(st.ghost["done"])
		for _, d := range done {
			if !c.Expect(d != s, "each-step-once", s, c.at(site), "%s happens twice during shutdown (%s)", names[s], e.trailStr(st)) {
				return
			}
			late := false
			for _, o := range order {
				if o == d {
					break
				}
				late = late || o == s
			}
			c.Expect(!late, "order", s+"-before-"+d, c.at(site), "%s happens after %s (%s)", names[s], names[d], e.trailStr(st))
		}
		st.ghost["done"] = strings.Join(append(done, s), " ")
	}
	c.Explore(fn, &Opts{NoEscape: true, NilParams: true,
		OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
			if kind != "close" {
				return
			}
			switch {
			case isG(ch, "shutdown.Started"):
				step(e, st, "start", site)
			case isG(ch, "shutdown.Finished"):
				step(e, st, "finish", site)
			}
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			switch {
			case strings.HasSuffix(ci.Name, "grpc.Server).GracefulStop"):
				if Canon(ci.Args[0]) == server {
					step(e, st, "stop", ci.Site)
				}
			case strings.HasSuffix(ci.Name, "grpc.Server).Stop"):
				c.Bad("graceful-stop", c.at(ci.Site), "the gRPC server is stopped without waiting for running calls (%s)", e.trailStr(st))
			case ci.Name == "(*sync.WaitGroup).Wait":
				switch {
				case isG(ci.Args[0], "shutdown.CriticalWaitGroup"):
					step(e, st, "critical", ci.Site)
				case isG(ci.Args[0], "shutdown.WaitGroup"):
					step(e, st, "wait", ci.Site)
				}
			case strings.HasSuffix(ci.Name, "/internal/trace.Shutdown"):
				step(e, st, "flush", ci.Site)
			case ci.FnTerm != nil && cancel != "" && Canon(ci.FnTerm) == cancel:
				step(e, st, "cancel", ci.Site)
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			for _, o := range order {
				has := strings.Contains(" "+st.ghost["done"]+" ", " "+o+" ")
				if o == "stop" {
					nil1 := e.nilness(st, e.Param(server, nil))
					c.Expect(has || nil1 == 1, "every-step-happens", o, where, "shutdown may finish without %s (%s)", names[o], e.trailStr(st))
					continue
				}
				if o == "cancel" && !has && e.nilness(st, e.Param(cancel, nil)) == 1 {
					continue
				}
				c.Expect(has, "every-step-happens", o, where, "shutdown may finish without %s (%s)", names[o], e.trailStr(st))
			}
		}}, nil)
	// main
	mainFn := c.P.Func(mainPkg, "main")
	if mainFn == nil {
		c.Bad("anchor:main", mainPkg, "main not found")
		return
	}
	c.Explore(mainFn, &Opts{NoEscape: true, Depth: 6,
		Opaque: func(f *ssa.Function) bool { return !strings.HasSuffix(fnPkgPath(f), mainPkg) },
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			switch {
			case ci.Name == "os.Exit", strings.Contains(ci.Name, ").Fatal"), strings.HasPrefix(ci.Name, "log.Fatal"):
				return nil, true
			case ci.Name == "context.WithCancel":
				ctx := e.fresh(st, "opq", "rootctx", ci.Site, "c", ci.Sig.Results().At(0).Type())
				can := e.fresh(st, "opq", "rootcancel", ci.Site, "f", ci.Sig.Results().At(1).Type())
				return []*Outcome{{Res: e.T.mk("tuple", "", ci.Sig.Results(), ctx, can)}}, true
			case strings.HasSuffix(ci.Name, ".ServeGRPCServer"):
				t := e.fresh(st, "opq", "grpcserver", ci.Site, "r", ci.Sig.Results().At(0).Type())
				er := e.fresh(st, "opq", "grpcerr", ci.Site, "e", ci.Sig.Results().At(1).Type())
				tu := e.T.mk("tuple", "", ci.Sig.Results(), t, er)
				return []*Outcome{
					{Res: tu, Apply: func(n *State) { e.setNil(n, er, true); n.ghost["server"] = "y" }},
					{Res: tu, Apply: func(n *State) { e.setNil(n, er, false) }},
				}, true
			}
			return nil, false
		},
		OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
			if kind == "recv" && isG(ch, "shutdown.CancelChan") {
				st.ghost["signal"] = "y"
			}
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if ci.Name == "os/signal.Notify" && isG(ci.Args[0], "shutdown.CancelChan") {
				st.ghost["notify"] = "y"
			}
			if ci.Fn != fn {
				return
			}
			c.Expect(st.ghost["notify"] == "y", "shutdown-signals-are-received", "", c.at(ci.Site), "main never subscribes to the shutdown signals")
			c.Expect(st.ghost["signal"] == "y", "shutdown-starts-on-a-signal", "", c.at(ci.Site), "main may shut down without having received a signal (%s)", e.trailStr(st))
			c.Expect(st.ghost["performed"] == "", "shutdown-once", "", c.at(ci.Site), "main may shut down twice")
			st.ghost["performed"] = "y"
			for i, p := range fn.Params {
				switch {
				case strings.HasSuffix(p.Type().String(), "context.CancelFunc"), p.Type().String() == "func()":
					c.Expect(Canon(ci.Args[i]) == "rootcancel", "root-context-is-cancelled", "", c.at(ci.Site), "shutdown is given %s instead of the cancel function of the root context", Canon(ci.Args[i]))
				case strings.HasSuffix(p.Type().String(), "grpc.Server"):
					if st.ghost["server"] == "y" {
						c.Expect(Canon(ci.Args[i]) == "grpcserver", "running-server-is-stopped", "", c.at(ci.Site), "shutdown is given %s instead of the running gRPC server (%s)", Canon(ci.Args[i]), e.trailStr(st))
					}
				}
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if st.ghost["signal"] == "" && st.ghost["performed"] == "" {
				return // never started
			}
			c.Expect(st.ghost["performed"] == "y", "exit-through-shutdown", "", c.P.Pos(mainFn.Pos()), "main may return without shutting down (%s)", e.trailStr(st))
		}}, nil)
}

// ---- C61 -------------------------------------------------------------------

// jobs: housekeeper function -> setting of its interval and whether it excludes the others.
var jobs = []struct {
	fn, key  string
	locked   bool
	critical bool
}{
	{"ProcessLockPool", "housekeeper.task.unlock.delay", false, false},
	{"ProcessTimeoutMessages", "housekeeper.task.timeout.delay", false, false},
	{"ComputeMetrics", "housekeeper.task.metrics.delay", false, false},
	{"RecoveryMessagesPool", "housekeeper.task.update.delay", true, true},
	{"RemoveExceedingMessages", "housekeeper.task.max_elements.delay", true, false},
	{"RemoveTTLMessages", "housekeeper.task.ttl.delay", true, false},
}

func runC61(c *Ctx) {
	keys := c.settingKeys()
	mainFn := c.P.Func(mainPkg, "main")
	if mainFn == nil {
		c.Bad("anchor:main", mainPkg, "main not found")
		return
	}
	jobFn := map[*ssa.Function]string{}
	for _, j := range jobs {
		if f := c.queueFunc(j.fn); f != nil {
			jobFn[f] = j.fn
		}
	}
	// which job does a function value run?
	var runs func(f *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool)
	runs = func(f *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if n := jobFn[f]; n != "" {
			out[n] = true
			return
		}
		if !strings.HasSuffix(fnPkgPath(f), mainPkg) {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						runs(v, seen, out)
					case *ssa.MakeClosure:
						g, _ := v.Fn.(*ssa.Function)
						runs(g, seen, out)
					}
				}
			}
		}
	}
	keyOf := func(t *Term) string {
		cn := Canon(stripConv(t))
		for g, k := range keys {
			if strings.HasSuffix(cn, "GetDuration("+shortGlobal(g)+")") {
				return k
			}
		}
		return cn
	}
	type sched struct{ lock, wg, key string }
	found := map[string][]sched{}
	scheds := map[*ssa.Function]map[bool]bool{}
	c.Explore(mainFn, &Opts{NoEscape: true, Depth: 7,
		Opaque: func(f *ssa.Function) bool { return !strings.HasSuffix(fnPkgPath(f), mainPkg) },
		OnGo: func(e *Engine, st *State, ci *CallInfo) {
			f := ci.Fn
			if f == nil || !strings.HasSuffix(fnPkgPath(f), mainPkg) {
				return
			}
			args := ci.Args
			var job *Term
			s := sched{lock: "none"}
			if len(args) == 0 && ci.FnTerm != nil && ci.FnTerm.Op == "func" {
				args = ci.FnTerm.Args // a literal started directly: what it captured
			}
			for _, a := range args {
				x := strip(a)
				ty := ""
				if a.Typ != nil {
					ty = a.Typ.String()
				}
				switch {
				case x.Op == "func":
					job = x
				case strings.HasSuffix(ty, "sync.Mutex"):
					if e.nilness(st, a) != 1 {
						s.lock = fmt.Sprintf("%s#%d", Canon(x), x.ID)
						if e.nilness(st, a) != 2 {
							s.lock = "maybe nil: " + s.lock
						}
					}
				case strings.HasSuffix(ty, "sync.WaitGroup"):
					s.wg = Canon(x)
				case strings.HasSuffix(ty, "time.Duration"):
					s.key = keyOf(x)
				}
			}
			if job == nil {
				return
			}
			out := map[string]bool{}
			seenF := map[*ssa.Function]bool{}
			var follow func(t *Term, d int)
			follow = func(t *Term, d int) {
				t = strip(t)
				if v := st.mem[t]; v != nil {
					t = strip(v)
				}
				if t.Op != "func" || d > 4 {
					return
				}
				runs(t.Fn, seenF, out)
				for _, a := range t.Args {
					follow(a, d+1)
				}
			}
			follow(job, 0)
			names := sortedKeys(out)
			if len(names) == 0 {
				return
			}
			c.Expect(len(names) == 1, "one-job-per-task", strings.Join(names, "+"), c.at(ci.Site), "one task runs several jobs: %s", strings.Join(names, ", "))
			for _, n := range names {
				dup := false
				for _, x := range found[n] {
					dup = dup || x == s
				}
				if !dup {
					found[n] = append(found[n], s)
				}
			}
			if scheds[f] == nil {
				scheds[f] = map[bool]bool{}
			}
			scheds[f][s.lock != "none"] = true
		}}, nil)
	lock := ""
	for _, j := range jobs {
		where := c.P.Pos(mainFn.Pos())
		if f := c.P.Func(mainPkg, "startHouseKeeperJobs"); f != nil {
			where = c.P.Pos(f.Pos())
		}
		if !c.Expect(len(found[j.fn]) > 0, "job-is-scheduled", j.fn, where, "no background task runs %s", j.fn) {
			continue
		}
		c.Expect(len(found[j.fn]) == 1, "job-scheduled-once", j.fn, where, "%s is scheduled in several ways", j.fn)
		s := found[j.fn][0]
		c.Expect(s.key == j.key, "own-interval", j.fn, where, "%s runs at the interval %s instead of %s", j.fn, s.key, j.key)
		if j.locked {
			c.Expect(s.lock != "none" && !strings.HasPrefix(s.lock, "maybe"), "exclusive-task-has-a-lock", j.fn, where, "%s runs with lock %s", j.fn, s.lock)
			if lock == "" {
				lock = s.lock
			}
			c.Expect(s.lock == lock, "exclusive-tasks-share-one-lock", j.fn, where, "%s uses lock %s while others use %s", j.fn, s.lock, lock)
		}
		want := "shutdown.WaitGroup"
		if j.critical {
			want = "shutdown.CriticalWaitGroup"
		}
		c.Expect(s.wg == want, "tracked-by-its-wait-group", j.fn, where, "%s is registered with %s instead of %s", j.fn, s.wg, want)
	}
	// the scheduler
	for f, kinds := range scheds {
		for locked := range kinds {
			c.scheduler(f, locked)
		}
	}
	if len(scheds) == 0 {
		c.Bad("anchor:scheduler", mainPkg, "no scheduler found")
	}
}

func (c *Ctx) scheduler(fn *ssa.Function, locked bool) {
	where := c.P.Pos(fn.Pos())
	var lockP, wgP, durP, fnP string
	for i, p := range fn.Params {
		n := "$" + string(rune('0'+i))
		ty := p.Type().String()
		switch {
		case strings.HasSuffix(ty, "sync.Mutex"):
			lockP = n
		case strings.HasSuffix(ty, "sync.WaitGroup"):
			wgP = n
		case strings.HasSuffix(ty, "time.Duration"):
			durP = n
		default:
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				fnP = n
			}
		}
	}
	if wgP == "" || durP == "" || fnP == "" || lockP == "" {
		c.Bad("anchor:scheduler:"+fn.Name(), where, "parameters of the task scheduler %s not recognised", fn.Name())
		return
	}
	key := map[bool]string{true: "with-lock", false: "without-lock"}[locked]
	ran, stopped := false, false
	c.Explore(fn, &Opts{NoEscape: true,
		OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
			if kind != "recv" {
				return
			}
			c.Expect(st.ghost["wg"] == "" && st.ghost["lock"] == "", "nothing-held-while-waiting", key, c.at(site), "the scheduler waits for the next tick while the task is still registered or the lock is held (%s)", e.trailStr(st))
			if isG(ch, "shutdown.Started") {
				st.ghost["stop"] = "y"
				stopped = true
				return
			}
			d := Canon(ch)
			if ci := st.mem[e.T.mk("callinfo", "", nil, strip(ch))]; ci != nil && len(ci.Args) > 0 {
				d = Canon(ci.Args[0])
			} else if x := strip(ch); x.Op == "load" && x.Args[0].Op == "fa" {
				if ci := st.mem[e.T.mk("callinfo", "", nil, x.Args[0].Args[0])]; ci != nil && len(ci.Args) > 0 {
					d = Canon(ci.Args[0])
				}
			}
			c.Expect(d == durP, "waits-its-own-interval", key, c.at(site), "the scheduler waits for %s instead of the interval of its task", d)
			st.ghost["tick"] = "y"
			delete(st.ghost, "ran")
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			switch ci.Name {
			case "(*sync.WaitGroup).Add":
				if Canon(ci.Args[0]) == wgP {
					n, ok := ci.Args[1].Num()
					if ok && n < 0 {
						delete(st.ghost, "wg")
						break
					}
					c.Expect(ok && n == 1 && st.ghost["wg"] == "", "registered-once", key, c.at(ci.Site), "a task execution is not registered exactly once (%s)", e.trailStr(st))
					c.Expect(st.ghost["stop"] == "", "no-task-after-shutdown-was-seen", key, c.at(ci.Site), "a task is registered after the scheduler saw the shutdown (%s)", e.trailStr(st))
					st.ghost["wg"] = "y"
				}
			case "(*sync.WaitGroup).Done":
				if Canon(ci.Args[0]) == wgP {
					c.Expect(st.ghost["wg"] == "y", "deregistered-once", key, c.at(ci.Site), "a task is deregistered without being registered (%s)", e.trailStr(st))
					delete(st.ghost, "wg")
				}
			case "(*sync.Mutex).Lock":
				if Canon(ci.Args[0]) == lockP {
					c.Expect(st.ghost["lock"] == "", "lock-not-reacquired", key, c.at(ci.Site), "the task lock is acquired twice (%s)", e.trailStr(st))
					st.ghost["lock"] = "y"
				}
			case "(*sync.Mutex).Unlock":
				if Canon(ci.Args[0]) == lockP {
					c.Expect(st.ghost["lock"] == "y", "unlock-follows-lock", key, c.at(ci.Site), "the task lock is released without being held (%s)", e.trailStr(st))
					delete(st.ghost, "lock")
				}
			}
			if ci.FnTerm != nil && Canon(ci.FnTerm) == fnP {
				ran = true
				c.Expect(st.ghost["wg"] == "y", "registered-while-running", key, c.at(ci.Site), "a task may run without being registered with its wait group (%s)", e.trailStr(st))
				c.Expect(!locked || st.ghost["lock"] == "y", "runs-under-its-lock", key, c.at(ci.Site), "an exclusive task may run without holding the lock (%s)", e.trailStr(st))
				c.Expect(st.ghost["stop"] == "", "no-task-after-shutdown-was-seen", key, c.at(ci.Site), "a task may run after the scheduler saw the shutdown (%s)", e.trailStr(st))
				c.Expect(st.ghost["tick"] == "y", "runs-after-its-interval", key, c.at(ci.Site), "a task may run before its interval has passed (%s)", e.trailStr(st))
				c.Expect(st.ghost["ran"] == "", "runs-once-per-tick", key, c.at(ci.Site), "a task may run twice per tick (%s)", e.trailStr(st))
				st.ghost["ran"] = "y"
			}
		},
		OnGo: func(e *Engine, st *State, ci *CallInfo) {
			if ci.FnTerm != nil && ci.FnTerm.Op == "func" {
				for _, a := range append(append([]*Term{}, ci.FnTerm.Args...), ci.Args...) {
					if Canon(strip(a)) == fnP {
						c.Bad("runs-in-the-scheduler:"+key, c.at(ci.Site), "the task is run in another goroutine: it is neither registered nor exclusive for its whole duration")
					}
				}
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			c.Expect(st.ghost["stop"] == "y", "scheduler-ends-only-at-shutdown", key, where, "the scheduler may end before shutdown (%s)", e.trailStr(st))
			c.Expect(st.ghost["wg"] == "" && st.ghost["lock"] == "", "nothing-held-at-the-end", key, where, "the scheduler may end with the task registered or the lock held (%s)", e.trailStr(st))
		}}, func(st *State, args []*Term) {
		for i, a := range args {
			if "$"+string(rune('0'+i)) == lockP {
				if locked {
					c.curEngine.setNil(st, a, false)
				} else {
					delete(st.facts, a)
					c.curEngine.setNil(st, a, true)
				}
			}
		}
	})
	c.Expect(ran, "scheduler-runs-its-task", key, where, "the scheduler never runs its task")
	c.Expect(stopped, "scheduler-watches-shutdown", key, where, "the scheduler never looks at the shutdown signal")
}

// ---- C63 -------------------------------------------------------------------

func runC63(c *Ctx) {
	fn := c.P.Func(tracePkg, "Init")
	down := c.P.Func(tracePkg, "Shutdown")
	if fn == nil || down == nil {
		c.Bad("anchor:trace", tracePkg, "trace.Init or trace.Shutdown not found")
		return
	}
	installed := false
	var globals = map[string]bool{}
	c.Explore(fn, &Opts{NoEscape: true,
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if strings.HasSuffix(ci.Name, "otel.SetTracerProvider") {
				installed = true
				st.mem[e.T.mk("ghostval", "installed", nil)] = strip(ci.Args[0])
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			p := st.mem[e.T.mk("ghostval", "installed", nil)]
			if p == nil {
				return
			}
			ok := false
			for a, v := range st.mem {
				if a.Op == "global" && strip(v) == p {
					globals[a.Str] = true
					ok = true
				}
			}
			c.Expect(ok, "installed-provider-is-kept", "", c.P.Pos(fn.Pos()), "Init installs a tracer provider without keeping it for shutdown (%s)", e.trailStr(st))
		}}, nil)
	c.Expect(installed, "provider-is-installed", "", c.P.Pos(fn.Pos()), "Init never installs a tracer provider")
	flushed := false
	c.Explore(down, &Opts{NoEscape: true,
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if strings.HasSuffix(ci.Name, "TracerProvider).Shutdown") {
				flushed = true
				st.ghost["flushed"] = "y"
				a := strip(ci.Args[0])
				c.Expect(a.Op == "load" && a.Args[0].Op == "global" && (len(globals) == 0 || globals[a.Args[0].Str]), "kept-provider-is-flushed", "", c.at(ci.Site), "Shutdown flushes %s, not the provider that Init keeps", Canon(a))
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if st.ghost["flushed"] == "y" {
				c.OK("flushed-when-installed", "")
				return
			}
			for g := range globals {
				t := e.T.mk("load", "", nil, e.T.mk("global", g, nil))
				c.Expect(e.nilness(st, t) == 1, "flushed-when-installed", "", c.P.Pos(down.Pos()), "Shutdown may return without flushing an installed provider (%s)", e.trailStr(st))
			}
		}}, nil)
	c.Expect(flushed, "shutdown-flushes", "", c.P.Pos(down.Pos()), "Shutdown never flushes the tracer provider")
}

// ---- C62 -------------------------------------------------------------------

// auditParts: what the auditor consists of.
type auditParts struct {
	impl    types.Type
	entry   types.Type
	chField string
	senders map[*ssa.Function]bool // functions that send one slice of entries
	bulk    map[*ssa.Function]bool // functions that call the bulk API
}

func isBulkCall(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return cc.Method.Name() == "Bulk"
	}
	return strings.HasSuffix(cc.Value.Type().String(), "esapi.Bulk")
}

func (c *Ctx) entrySlice(a *auditParts, t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), a.entry)
}

func (c *Ctx) auditParts() *auditParts {
	a := &auditParts{senders: map[*ssa.Function]bool{}, bulk: map[*ssa.Function]bool{}}
	n := c.P.Named(auditPkg, "Entry")
	if n == nil {
		c.Bad("anchor:Entry", auditPkg, "type Entry not found")
		return nil
	}
	a.entry = n
	for _, t := range c.P.Impls(auditPkg, "Auditor") {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		if s := structOf(p.Elem()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if ch, ok := s.Field(i).Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), a.entry) {
					a.chField = s.Field(i).Name()
					a.impl = t
				}
			}
		}
	}
	if a.impl == nil {
		c.Bad("anchor:Auditor", auditPkg, "no implementation of Auditor with a channel of entries found")
		return nil
	}
	pk := c.P.ssaPkg(auditPkg)
	for _, f := range allFuncs(pk) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && isBulkCall(call.Common()) {
					a.bulk[f] = true
				}
			}
		}
	}
	sends := map[*ssa.Function]bool{}
	for _, f := range allFuncs(pk) {
		has := false
		for _, p := range f.Params {
			has = has || c.entrySlice(a, p.Type())
		}
		if !has {
			continue
		}
		for g := range c.P.reachable(f) {
			if a.bulk[g] {
				sends[f] = true
			}
		}
	}
	// the innermost ones: their callers are followed
	for f := range sends {
		inner := true
		for g := range c.P.reachable(f) {
			inner = inner && (g == f || !sends[g])
		}
		if inner {
			a.senders[f] = true
		}
	}
	return a
}

func (a *auditParts) isEntries(ch *Term) bool {
	return strings.HasSuffix(Canon(strip(ch)), "."+a.chField)
}

func runC62(c *Ctx) {
	a := c.auditParts()
	if a == nil {
		return
	}
	store := c.P.methodOf(a.impl, "Store")
	start := c.P.methodOf(a.impl, "StartSender")
	if store == nil || start == nil {
		c.Bad("anchor:Auditor", auditPkg, "Store or StartSender not found")
		return
	}
	if len(a.senders) == 0 {
		c.Bad("anchor:send", auditPkg, "no function that sends a slice of entries to the bulk API found")
		return
	}
	lock, flags := c.auditStore(a, store)
	c.auditClose(a, lock, flags)
	usesCtx := map[*ssa.Function]map[int]bool{}
	for f := range a.senders {
		usesCtx[f] = c.auditSend(a, f)
	}
	c.auditSender(a, start, lock, usesCtx)
}

// lockCalls keeps the set of held locks of a path; the field name identifies the lock.
func lockCall(e *Engine, st *State, ci *CallInfo) (name, op string) {
	if len(ci.Args) == 0 {
		return "", ""
	}
	n := Canon(strip(ci.Args[0]))
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	switch ci.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st.ghost["L:"+n] = "w"
		return n, "lock"
	case "(*sync.RWMutex).RLock":
		st.ghost["L:"+n] = "r"
		return n, "rlock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		delete(st.ghost, "L:"+n)
		return n, "unlock"
	}
	return "", ""
}

func heldLocks(st *State) map[string]string {
	out := map[string]string{}
	for k, v := range st.ghost {
		if strings.HasPrefix(k, "L:") {
			out[k[2:]] = v
		}
	}
	return out
}

// auditStore returns the lock held while an entry is sent and the flags known to be false then.
func (c *Ctx) auditStore(a *auditParts, fn *ssa.Function) (string, map[string]bool) {
	where := c.P.Pos(fn.Pos())
	lock := ""
	flags := map[string]bool{}
	sent := false
	recv := func(e *Engine, f string) *Term {
		return e.T.mk("load", "", types.Typ[types.Bool], e.fa(e.Param("$0", nil), f, types.Typ[types.Bool]))
	}
	var bools []string
	if s := structOf(a.impl.(*types.Pointer).Elem()); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bools = append(bools, s.Field(i).Name())
			}
		}
	}
	var exits []func()
	c.Explore(fn, &Opts{NoEscape: true,
		OnCall: func(e *Engine, st *State, ci *CallInfo) { lockCall(e, st, ci) },
		OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) {
			if addr.Op == "fa" && Canon(addr.Args[0]) == "$0" {
				for l := range heldLocks(st) {
					st.ghost["ld:"+addr.Str+":"+l] = "y"
				}
			}
		},
		OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
			if !a.isEntries(ch) {
				return
			}
			if kind == "full" {
				c.Bad("no-entry-is-dropped", c.at(site), "an entry is dropped when the sender is busy (%s)", e.trailStr(st))
				st.ghost["sent"] = "y"
			}
			if kind != "send" {
				return
			}
			sent = true
			st.ghost["sent"] = "y"
			h := heldLocks(st)
			for l := range h {
				if lock == "" || lock > l {
					lock = l
				}
			}
			if len(h) == 0 {
				lock = "!"
			}
			ok := map[string]bool{}
			for _, b := range bools {
				for l := range h {
					if e.Truth(st, recv(e, b)) == 2 && st.ghost["ld:"+b+":"+l] == "y" {
						ok[b] = true
					}
				}
			}
			if len(flags) == 0 {
				flags = ok
			}
			for f := range flags {
				if !ok[f] {
					delete(flags, f)
				}
			}
			s := structOf(a.entry)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Name() == "Timestamp" || f.Name() == "QueuePrefix" || f.Name() == "QueueSuffix" {
					continue
				}
				x := Canon(stripConv(e.field(v, f.Name(), f.Type())))
				c.Expect(strings.HasSuffix(x, "$2."+f.Name()) || strings.HasSuffix(x, "$2#"+f.Name()), "entry-is-sent-as-given", f.Name(), c.at(site), "%s of the sent entry is %s, not the recorded one", f.Name(), x)
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			c.Expect(len(heldLocks(st)) == 0, "locks-released", "Store", where, "Store may return with a lock held (%s)", e.trailStr(st))
			if st.ghost["sent"] == "y" {
				return
			}
			trail := e.trailStr(st)
			off := map[string]int{}
			for _, b := range bools {
				off[b] = e.Truth(st, recv(e, b))
			}
			exits = append(exits, func() {
				ok := false
				for b, v := range off {
					ok = ok || flags[b] && v == 1
					ok = ok || !flags[b] && v == 2 && b == "enabled"
				}
				c.Expect(ok, "recorded-unless-disabled-or-stopped", "", where, "Store may drop an entry although auditing is enabled and not stopped (%s)", trail)
			})
		}}, nil)
	for _, f := range exits {
		f()
	}
	c.Expect(sent, "entries-are-recorded", "", where, "Store never hands the entry to the sender")
	return lock, flags
}

// auditClose: every close of the entry channel excludes sends.
func (c *Ctx) auditClose(a *auditParts, lock string, flags map[string]bool) {
	pk := c.P.ssaPkg(auditPkg)
	for _, f := range allFuncs(pk) {
		has := false
		for g := range c.P.reachable(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" && types.Identical(call.Call.Args[0].Type().Underlying().(*types.Chan).Elem(), a.entry) {
							has = has || g == f
						}
					}
				}
			}
		}
		if !has {
			continue
		}
		where := c.P.Pos(f.Pos())
		c.Explore(f, &Opts{NoEscape: true, Event: func(ci *CallInfo) bool { return a.senders[ci.Fn] }, KeepEvent: func(*Event) bool { return false },
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				if n, op := lockCall(e, st, ci); n == lock && (op == "lock" || op == "unlock") {
					if op == "unlock" && st.ghost["closed"] == "y" {
						c.Expect(st.ghost["flagged"] == "y", "stop-is-flagged-with-the-close", "", c.at(ci.Site), "the entry channel is closed but the lock is released before Store can see it: a later entry panics (%s)", e.trailStr(st))
					}
					if op == "unlock" {
						delete(st.ghost, "flagged")
					}
				}
			},
			OnStore: func(e *Engine, st *State, addr, v *Term, site ssa.Instruction) {
				if addr.Op == "fa" && flags[addr.Str] {
					if b, ok := v.Bool(); ok && b && st.ghost["L:"+lock] == "w" {
						st.ghost["flagged"] = "y"
					} else {
						delete(st.ghost, "flagged")
					}
				}
			},
			OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
				if kind != "close" || !a.isEntries(ch) {
					return
				}
				c.Expect(lock != "" && lock != "!" && st.ghost["L:"+lock] == "w", "close-excludes-stores", "", c.at(site), "the entry channel is closed while an entry may be being stored: that panics (%s)", e.trailStr(st))
				c.Expect(len(flags) > 0, "stores-look-before-sending", "", c.at(site), "the entry channel is closed but Store does not find out under the lock: a later entry panics")
				c.Expect(st.ghost["closed"] == "", "closed-once", "", c.at(site), "the entry channel may be closed twice (%s)", e.trailStr(st))
				st.ghost["closed"] = "y"
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				if st.ghost["closed"] == "y" {
					c.Expect(st.ghost["L:"+lock] == "", "locks-released", "close", where, "the lock is kept after closing the entry channel (%s)", e.trailStr(st))
				}
			}}, nil)
	}
}

// auditSend: one batch carries every entry it is given. Returns the context parameters the request depends on.
func (c *Ctx) auditSend(a *auditParts, fn *ssa.Function) map[int]bool {
	where := c.P.Pos(fn.Pos())
	uses := map[int]bool{}
	slice := ""
	for i, p := range fn.Params {
		if c.entrySlice(a, p.Type()) {
			slice = fmt.Sprintf("$%d", i)
		}
	}
	bulk := 0
	c.Explore(fn, &Opts{NoEscape: true,
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if ci.Name == "encoding/json.Marshal" {
				x := Canon(strip(ci.Args[0]))
				c.Expect(x == slice+"[*]" || strings.HasSuffix(x, slice+"[*]"), "every-entry-is-sent", "marshal", c.at(ci.Site), "%s marshals %s instead of the given entries", fn.Name(), x)
				st.ghost["marshalled"] = "y"
			}
			if strings.HasSuffix(ci.Name, ".WithContext") && len(ci.Args) > 0 {
				for i, p := range fn.Params {
					if Canon(strip(ci.Args[len(ci.Args)-1])) == fmt.Sprintf("$%d", i) && strings.HasSuffix(p.Type().String(), "context.Context") {
						uses[i] = true
					}
				}
			}
			if call, ok := ci.Site.(ssa.CallInstruction); ok && isBulkCall(call.Common()) {
				bulk++
				c.Expect(st.ghost["bulk"] == "", "one-request-per-batch", fn.Name(), c.at(ci.Site), "a batch may be sent twice (%s)", e.trailStr(st))
				st.ghost["bulk"] = "y"
				ok := c.flowsFrom(call.Common().Args, func(v ssa.Value) bool {
					k, isC := v.(*ssa.Call)
					return isC && k.Call.StaticCallee() != nil && funcName(k.Call.StaticCallee()) == "encoding/json.Marshal"
				})
				c.Expect(ok, "request-carries-the-entries", fn.Name(), c.at(ci.Site), "the bulk request does not depend on the marshalled entries")
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if st.ghost["bulk"] == "y" {
				return
			}
			empty := e.IvOf(st, e.Len(e.Param(slice, nil))).Hi <= 0
			c.Expect(empty, "batch-is-sent", fn.Name(), where, "%s may return without sending a non-empty batch (%s)", fn.Name(), e.trailStr(st))
		}}, nil)
	c.Expect(bulk > 0, "batch-is-sent", fn.Name(), where, "%s never sends a request", fn.Name())
	return uses
}

// flowsFrom: some value satisfying want is in the backward slice of the given values.
func (c *Ctx) flowsFrom(from []ssa.Value, want func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	work := append([]ssa.Value(nil), from...)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v == nil || seen[v] {
			continue
		}
		seen[v] = true
		if want(v) {
			return true
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					work = append(work, x.Val)
				case *ssa.IndexAddr, *ssa.FieldAddr:
					work = append(work, r.(ssa.Value))
				case ssa.CallInstruction:
					work = append(work, x.Common().Args...)
				}
			}
		}
		switch x := v.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr:
			for _, r := range *v.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == v {
					work = append(work, s.Val)
				}
			}
		case *ssa.Call:
			// writers such as (*strings.Builder).WriteString fill their receiver
			if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						work = append(work, r.Results...)
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				work = append(work, *op)
			}
		}
	}
	return false
}

func (c *Ctx) auditSender(a *auditParts, fn *ssa.Function, lock string, usesCtx map[*ssa.Function]map[int]bool) {
	where := c.P.Pos(fn.Pos())
	full, timer, recvd := false, false, false
	got := func(e *Engine) *Term { return e.T.mk("ghostval", "got", nil) }
	buffers := func(e *Engine, st *State, b *ssa.BasicBlock) []*Term {
		var out []*Term
		fr := st.top()
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if c.entrySlice(a, p.Type()) {
				out = append(out, fr.env[p])
			}
		}
		if len(out) > 0 {
			return out
		}
		for ad, v := range st.mem {
			if (ad.Op == "alloc" || ad.Op == "fa") && v.Typ != nil && c.entrySlice(a, v.Typ) {
				out = append(out, v)
			}
		}
		return out
	}
	// lostEntry: a received entry that went nowhere
	lostEntry := func(e *Engine, st *State) bool {
		g := st.mem[got(e)]
		if g == nil {
			return false
		}
		return e.Truth(st, e.T.mk("ext", "ok", types.Typ[types.Bool], g)) != 2
	}
	closers := 0
	c.Explore(fn, &Opts{NoEscape: true,
		Event:     func(ci *CallInfo) bool { return a.senders[ci.Fn] },
		KeepEvent: func(*Event) bool { return false },
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if n, op := lockCall(e, st, ci); op == "lock" && n == lock {
				c.Bad("sender-never-waits-for-stores", c.at(ci.Site), "the sender waits for the lock that Store holds while the entry channel is full: both wait for ever (%s)", e.trailStr(st))
			}
			switch ci.Name {
			case "(*sync.WaitGroup).Add":
				st.ghost["wg"] = "y"
			case "(*sync.WaitGroup).Done":
				c.Expect(st.ghost["held"] == "", "registered-until-everything-is-sent", "", c.at(ci.Site), "the sender deregisters from its wait group before sending its last entries (%s)", e.trailStr(st))
				st.ghost["wg"] = "done"
			}
		},
		OnGo: func(e *Engine, st *State, ci *CallInfo) {
			if a.senders[ci.Fn] {
				c.Bad("batches-are-sent-by-the-sender", c.at(ci.Site), "a batch is sent in another goroutine, which nothing waits for")
			}
			closers++
			c.Expect(st.ghost["stopping"] == "", "stopped-once", "", c.at(ci.Site), "the sender may stop the auditor twice (%s)", e.trailStr(st))
			st.ghost["stopping"] = "y"
		},
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			g := st.mem[got(e)]
			for _, x := range elems {
				if g != nil && strip(x) == g {
					delete(st.mem, got(e))
					st.ghost["held"] = "y"
				}
			}
		},
		OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
			if kind != "recv" {
				return
			}
			c.Expect(!lostEntry(e, st), "received-entries-are-kept", "", c.at(site), "an entry may be received and forgotten (%s)", e.trailStr(st))
			delete(st.mem, got(e))
			st.ghost["last"] = ""
			switch {
			case a.isEntries(ch):
				recvd = true
				c.Expect(st.ghost["wg"] == "y", "sender-is-registered", "", c.at(site), "the sender receives entries without being registered with the wait group (%s)", e.trailStr(st))
				st.mem[got(e)] = strip(v)
				st.ghost["last"] = "entry"
			case isDone(e, st, ch):
				st.ghost["done"] = "y"
			default:
				st.ghost["last"] = "timer"
				timer = true
			}
		},
		OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
			for _, x := range buffers(e, st, b) {
				n := e.IvOf(st, e.LenOf(st, x))
				if st.ghost["held"] == "y" {
					c.Expect(n.Hi > 0, "no-entry-is-discarded", "", c.P.Pos(b.Instrs[0].Pos()), "the buffer may be emptied without having been sent (%s)", e.trailStr(st))
				} else if back {
					c.Expect(n.Lo <= 0, "no-entry-is-sent-twice", "", c.P.Pos(b.Instrs[0].Pos()), "the buffer is kept after it was sent (%s)", e.trailStr(st))
				}
			}
			if back && st.ghost["last"] == "timer" {
				c.Expect(st.ghost["held"] == "", "sent-after-the-maximum-delay", "", where, "the delay may pass without the buffered entries being sent (%s)", e.trailStr(st))
			}
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			var sl *Term
			call := ev.Site.(ssa.CallInstruction).Common()
			f := call.StaticCallee()
			for i, p := range f.Params {
				if c.entrySlice(a, p.Type()) && i < len(ev.Args) {
					sl = ev.Args[i]
				}
			}
			if sl == nil {
				return
			}
			if st.ghost["done"] == "y" {
				for i := range usesCtx[f] {
					c.Expect(Canon(ev.Args[i]) != "$1", "last-batch-is-not-cancelled", "", c.at(ev.Site), "the last batch is sent with the cancelled context (%s)", e.trailStr(st))
				}
			}
			c.Expect(wholeSlice(e, st, sl), "whole-buffer-is-sent", "", c.at(ev.Site), "only a part of the buffer is sent (%s)", e.trailStr(st))
			g := st.mem[got(e)]
			for _, x := range e.Elems(st, sl) {
				if g != nil && strip(x) == g {
					delete(st.mem, got(e))
				}
			}
			if st.ghost["held"] == "y" {
				n := e.IvOf(st, e.LenOf(st, sl))
				c.Expect(n.Hi > 0, "whole-buffer-is-sent", "empty", c.at(ev.Site), "an empty batch is sent although entries are buffered (%s)", e.trailStr(st))
				if st.ghost["last"] == "entry" {
					full = true
				}
			}
			delete(st.ghost, "held")
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if e.Truth(st, e.T.mk("load", "", types.Typ[types.Bool], e.fa(e.Param("$0", nil), "enabled", types.Typ[types.Bool]))) == 2 && st.ghost["done"] == "" {
				return
			}
			c.Expect(st.ghost["held"] == "", "everything-is-sent-at-shutdown", "", where, "the sender may end with entries that were not sent (%s)", e.trailStr(st))
			c.Expect(!lostEntry(e, st), "received-entries-are-kept", "exit", where, "an entry may be received and forgotten (%s)", e.trailStr(st))
			g := st.mem[got(e)]
			drained := g != nil && e.Truth(st, e.T.mk("ext", "ok", types.Typ[types.Bool], g)) == 2
			c.Expect(drained, "queue-is-drained-at-shutdown", "", where, "the sender may end while accepted entries are still queued (%s)", e.trailStr(st))
			c.Expect(st.ghost["wg"] == "done", "sender-is-deregistered", "", where, "the sender ends without telling its wait group (%s)", e.trailStr(st))
		}}, nil)
	c.Expect(recvd, "sender-receives-entries", "", where, "the sender never receives entries")
	c.Expect(full, "sent-when-full", "", where, "no batch is sent when the buffer is full")
	c.Expect(timer, "sent-after-the-maximum-delay", "timer", where, "the sender has no maximum delay")
}
