package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C70", Min: 10, Pkgs: []string{queuePkg},
		Technique: "Path-sensitive loop coverage: every iteration over what the job listed reaches the operation for that element, and the path after a failed operation goes on to the next element",
		Note:      "All paths of the timeout, unlock, max-elements and metrics jobs; every listing and every operation may fail. Iterations skipped because shutdown began or the context was cancelled are not counted. What the operations do is decided by other properties.",
		Run:       runC70})
	register(&Check{ID: "C71", Min: 6, Pkgs: []string{queuePkg},
		Technique: "Value flow from the page read by recovery to the messages inserted in the cache, with interval reasoning on their score, and field coverage of every projection the jobs ask for",
		Note:      "All paths of the recovery, expiry, max-elements and metrics jobs. The storage is trusted to return the fields of a projection it was asked for (C36 decides that).",
		Run:       runC71})
	register(&Check{ID: "C72", Min: 5, Pkgs: []string{queuePkg, "internal/service"},
		Technique: "Loop coverage and value flow of whole batches: from the request to the storage and the cache, and from the queue to the reply",
		Note:      "All paths of the Add and Pull calls and of the two add operations of the queue.",
		Run:       runC72})
}

// stopModel makes the tests for shutdown and cancellation explicit: after one of them answered yes the path counts as stopped.
func stopModel(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	stop := func(s *State) { s.ghost["stop"] = "1" }
	if ci.Fn != nil && strings.HasSuffix(fnPkgPath(ci.Fn), "/internal/shutdown") && ci.Fn.Name() == "Ongoing" {
		return []*Outcome{{Res: e.T.Bool(true), Apply: stop}, {Res: e.T.Bool(false)}}, true
	}
	if strings.HasSuffix(ci.Name, "context.Context).Err") {
		v := e.fresh(st, "opq", "ctxerr", ci.Site, "x", ci.Sig.Results().At(0).Type())
		return []*Outcome{{Res: e.T.Nil()}, {Res: v, Apply: func(s *State) { stop(s); e.setNil(s, v, false) }}}, true
	}
	return nil, false
}

// cover is one job that must reach every element of what it lists.
type cover struct {
	c    *Ctx
	name string
	coll string // the listed collection
	ops  map[string]bool
	w    *loopWatch
	none func(e *Engine, st *State, cond *Term) bool // the branch taken shows that the element needs nothing
}

// subterm finds the parts of t written s.
func subterms(t *Term, s string, out []*Term) []*Term {
	if Canon(t) == s {
		return append(out, t)
	}
	for _, a := range t.Args {
		out = subterms(a, s, out)
	}
	return out
}

func (c *Ctx) newCover(name, coll string, ops ...string) *cover {
	v := &cover{c: c, name: name, coll: coll, ops: map[string]bool{}}
	for _, o := range ops {
		v.ops[o] = true
	}
	v.w = &loopWatch{key: "w70", doers: map[*ssa.Function]bool{}, is: func(e *Engine, st *State, x *Term) bool { return Canon(x) == coll }}
	return v
}

// bounds: the condition asks whether there are further elements.
func (v *cover) bounds(cond *Term) bool {
	return strings.Contains(strings.ReplaceAll(Canon(cond), v.coll+"[*]", ""), v.coll)
}

func (v *cover) opts(o *Opts) *Opts {
	onEvent, onFail, onExit := o.OnEvent, o.OnFail, o.OnExit
	o.Event = roleEvents
	o.Model = stopModel
	o.OnLoad = func(e *Engine, st *State, addr *Term, site ssa.Instruction) {
		if st.ghost["stop"] == "" {
			v.w.load(e, st, addr, site)
		}
	}
	o.OnHeader = func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
		if st.ghost["stop"] != "" {
			delete(st.ghost, v.w.key)
			return
		}
		// loops within the handling of one element
		tag := "#" + st.top().ctx + "/" + itoa(b.Index) + "#"
		if !back && st.ghost[v.w.key] != "" {
			if !strings.Contains(st.ghost["inner"], tag) {
				st.ghost["inner"] = sortTags(st.ghost["inner"] + tag)
			}
			return
		}
		if back && strings.Contains(st.ghost["inner"], tag) {
			return
		}
		delete(st.ghost, "inner")
		v.w.header(e, st, b, back, v.c, "every-element-processed:"+v.name, v.name+": an element of "+v.coll+" may be passed over")
		if back {
			delete(st.ghost, "failed")
		}
	}
	o.OnBranch = func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
		if st.ghost["failed"] != "" && v.bounds(cond) {
			delete(st.ghost, "failed")
		}
		if v.none != nil && st.ghost[v.w.key] != "" && v.none(e, st, cond) {
			st.ghost[v.w.key] = "done"
		}
		return true
	}
	o.OnEvent = func(e *Engine, st *State, ev *Event) {
		if onEvent != nil {
			onEvent(e, st, ev)
		}
	}
	o.OnFail = func(e *Engine, st *State, ev *Event) {
		if v.ops[role(ev.Name)] {
			st.ghost["failed"] = role(ev.Name)
			if st.ghost[v.w.key] != "" {
				v.w.done(st) // the element is left for the next run
			}
		}
		if onFail != nil {
			onFail(e, st, ev)
		}
	}
	o.OnExit = func(e *Engine, st *State, res []*Term) {
		if st.ghost["stop"] == "" {
			v.c.Expect(st.ghost["failed"] == "", "a-failure-does-not-stop-the-others", v.name, v.c.P.Pos(st.top().fn.Pos()), "%s: after a failed %s the remaining elements are not processed (%s)", v.name, st.ghost["failed"], e.trailStr(st))
		}
		if onExit != nil {
			onExit(e, st, res)
		}
	}
	return o
}

func (v *cover) flush() {
	v.w.flush(v.c, "every-element-processed:"+v.name)
	if len(v.w.doers) == 0 {
		v.c.Bad("anchor:"+v.name, queuePkg, "%s: no loop over %s does its work", v.name, v.coll)
	}
}

func runC70(c *Ctx) {
	lists := "cache.ListQueues#0"
	// listed: the pool a queue name was listed from
	listed := func(e *Engine, st *State, q *Term) *Event {
		for _, l := range evs(st, "cache.ListQueues") {
			if strip(q).hasRoot(l.Res) {
				return l
			}
		}
		return nil
	}
	keepLists := func(ev *Event) bool { return role(ev.Name) == "cache.ListQueues" }
	allListed := func(fn *ssa.Function, pools ...string) func(e *Engine, st *State, res []*Term) {
		return func(e *Engine, st *State, res []*Term) {
			if st.ghost["stop"] != "" {
				return
			}
			got := map[string]bool{}
			for _, l := range evs(st, "cache.ListQueues") {
				if !okEv(e, st, l) {
					return // reported, and tried again by the next run
				}
				if isStr(l.Args[2], "*") {
					for _, p := range pools {
						if isStr(l.Args[3], p) {
							got[p] = true
						}
					}
				}
			}
			for _, p := range pools {
				c.Expect(got[p], "every-pool-listed", fn.Name()+":"+p, c.P.Pos(fn.Pos()), "%s may finish without having listed all queues of the pool %q (%s)", fn.Name(), p, e.trailStr(st))
			}
		}
	}
	poolConst := func(n string) string { return c.pkgConst("internal/queue/pool", n) }
	proc, lockAck, lockNack := poolConst("PROCESSING_POOL"), poolConst("LOCK_ACK_POOL"), poolConst("LOCK_NACK_POOL")
	lockOf := map[string]string{lockAck: c.pkgConst("internal/queue/cache", "LOCK_ACK"), lockNack: c.pkgConst("internal/queue/cache", "LOCK_NACK")}

	// timeouts
	if fn := c.queueFunc("ProcessTimeoutMessages"); fn != nil {
		v := c.newCover("timeout", lists, "cache.TimeoutMessages")
		c.Explore(fn, v.opts(&Opts{KeepEvent: keepLists, OnExit: allListed(fn, proc),
			OnEvent: func(e *Engine, st *State, ev *Event) {
				if role(ev.Name) != "cache.TimeoutMessages" {
					return
				}
				l := listed(e, st, ev.Args[2])
				c.Expect(Canon(ev.Args[2]) == lists+"[*]" && l != nil && isStr(l.Args[3], proc), "operation-for-a-listed-queue", "timeout", c.at(ev.Site), "the timeout job times out %s", Canon(ev.Args[2]))
				v.w.done(st)
			}}), nil)
		v.flush()
	}
	// unlocks
	if fn := c.queueFunc("ProcessLockPool"); fn != nil {
		v := c.newCover("unlock", lists, "cache.UnlockMessages")
		c.Explore(fn, v.opts(&Opts{KeepEvent: keepLists, OnExit: allListed(fn, lockAck, lockNack),
			OnEvent: func(e *Engine, st *State, ev *Event) {
				if role(ev.Name) != "cache.UnlockMessages" {
					return
				}
				l := listed(e, st, ev.Args[2])
				ok := Canon(ev.Args[2]) == lists+"[*]" && l != nil
				c.Expect(ok, "operation-for-a-listed-queue", "unlock", c.at(ev.Site), "the unlock job unlocks %s", Canon(ev.Args[2]))
				if ok {
					p, _ := strip(l.Args[3]).StrVal()
					c.Expect(lockOf[p] != "" && isStr(ev.Args[3], lockOf[p]), "unlocked-as-locked", p, c.at(ev.Site), "a queue listed from the pool %q is unlocked as %s", p, Canon(ev.Args[3]))
				}
				v.w.done(st)
			}}), nil)
		v.flush()
	}
	// limits
	if fn := c.queueFunc("RemoveExceedingMessages"); fn != nil {
		coll := "storage.ListQueueConfigurations#0"
		v := c.newCover("max-elements", coll, "storage.Count", "storage.Find", "storage.Remove", "cache.Remove")
		v.none = func(e *Engine, st *State, cond *Term) bool { // no configuration, no limit, no name
			for _, t := range subterms(cond, coll+"[*].MaxElements", nil) {
				if e.IvOf(st, t).Hi <= 0 {
					return true
				}
			}
			for _, t := range subterms(cond, coll+"[*].Queue", nil) {
				if emptyText(e, st, t) == 1 {
					return true
				}
			}
			for _, t := range subterms(cond, coll+"[*]", nil) {
				if e.nilness(st, t) == 1 {
					return true
				}
			}
			return false
		}
		c.Explore(fn, v.opts(&Opts{KeepEvent: func(ev *Event) bool { return false },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				if role(ev.Name) == "storage.Count" {
					v.w.done(st)
				}
			}}), nil)
		v.flush()
	}
	// gauges
	if fn := c.queueFunc("ComputeMetrics"); fn != nil {
		coll := "storage.ListQueuePrefixes#0"
		v := c.newCover("metrics", coll, "storage.Count", "storage.Find")
		gauges := 0
		c.Explore(fn, v.opts(&Opts{KeepEvent: func(ev *Event) bool { return false },
			OnMap: func(e *Engine, st *State, kind string, m, k, val *Term, site ssa.Instruction) {
				if kind != "update" || Canon(k) != coll+"[*]" || val == nil {
					return
				}
				s := Canon(stripConv(val))
				kind = s
				if s == "storage.Count#0" {
					v.w.done(st)
					kind = "count"
				}
				if ageOf(e, st, val, "storage.Find#0[*].LastUsage") {
					kind = "age"
				}
				if old := st.ghost["map:"+itoa(m.ID)]; old != "" && old != kind {
					kind = old + " and " + kind
				}
				st.ghost["map:"+itoa(m.ID)] = kind
			},
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				want := ""
				switch {
				case strings.HasSuffix(ci.Name, ").UpdateOldestElementMap"):
					want = "age"
				case strings.HasSuffix(ci.Name, ").UpdateTotalElementsMap"):
					want = "count"
				default:
					return
				}
				got := st.ghost["map:"+itoa(strip(ci.Args[1]).ID)]
				if got != "" {
					gauges++
					c.Expect(got == want, "gauge-value", want, c.at(ci.Site), "the %s gauge is fed with %s", want, got)
				}
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				switch r := role(ev.Name); r {
				case "storage.Count", "storage.Find":
					o := ev.Args[2]
					q := optField(e, st, o, "InternalFilter", "QueuePrefix")
					c.Expect(Canon(q) == coll+"[*]", "gauge-of-its-own-queue", r, c.at(ev.Site), "a gauge of a queue is computed from %s of %s", r, Canon(q))
					if r == "storage.Find" {
						c.Expect(strings.HasPrefix(sortOf(e, st, o), "last_usage:1"), "gauge-of-its-own-queue", "oldest", c.at(ev.Site), "the oldest element is looked up sorted by %q", sortOf(e, st, o))
					}
				}
			}}), nil)
		v.flush()
		if gauges == 0 {
			c.Bad("anchor:gauges", c.P.Pos(fn.Pos()), "no gauge update recognised")
		}
	}
}

// batch watches loops over a collection: in a loop in which some iteration does the thing, every iteration that sees an element must.
type batch struct {
	key  string
	is   func(e *Engine, st *State, coll *Term) bool
	pend map[*ssa.BasicBlock]string
	did  map[*ssa.BasicBlock]bool
}

func newBatch(key string, is func(e *Engine, st *State, coll *Term) bool) *batch {
	return &batch{key: key, is: is, pend: map[*ssa.BasicBlock]string{}, did: map[*ssa.BasicBlock]bool{}}
}

func (w *batch) load(e *Engine, st *State, addr *Term) {
	for addr.Op == "fa" {
		addr = addr.Args[0]
	}
	if addr.Op == "ia" && w.is(e, st, addr.Args[0]) {
		w.seen(e, st)
	}
}

func (w *batch) seen(e *Engine, st *State) {
	f := st.top()
	if e.P.liveFor(f.fn).cyc[f.block] && st.ghost[w.key] == "" {
		st.ghost[w.key] = "seen"
	}
}

func (w *batch) done(st *State) { st.ghost[w.key] = "done" }

func (w *batch) header(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
	tag := "#" + st.top().ctx + "/" + itoa(b.Index) + "#"
	in := w.key + ":in"
	if !back && st.ghost[w.key] != "" {
		if !strings.Contains(st.ghost[in], tag) {
			st.ghost[in] = sortTags(st.ghost[in] + tag)
		}
		return
	}
	if back && strings.Contains(st.ghost[in], tag) {
		return
	}
	delete(st.ghost, in)
	if back {
		switch st.ghost[w.key] {
		case "seen":
			w.pend[b] = e.trailStr(st)
		case "done":
			w.did[b] = true
		}
		delete(st.ghost, w.key)
	}
}

// flush reports; it tells whether any loop did the thing.
func (w *batch) flush(c *Ctx, rule, disc, msg string) bool {
	for b := range w.did {
		p, bad := w.pend[b]
		c.Expect(!bad, rule, disc+":"+b.Parent().Name(), c.P.Pos(b.Parent().Pos()), "%s (%s)", msg, p)
	}
	return len(w.did) > 0
}

// wholeSlices: outside loops no part of a slice of these elements is cut off.
func (c *Ctx) wholeSlices(rule, disc string, elem func(types.Type) bool) func(e *Engine, st *State, x *ssa.Slice, t *Term) {
	return func(e *Engine, st *State, x *ssa.Slice, t *Term) {
		sl, ok := x.X.Type().Underlying().(*types.Slice)
		if !ok || !elem(sl.Elem()) || x.Low == nil && x.High == nil {
			return
		}
		f := st.top()
		base := e.val(st, x.X)
		n := e.LenOf(st, base)
		lowOK, highOK, empty := true, true, false
		if x.Low != nil {
			l := e.val(st, x.Low)
			k, isN := l.Num()
			lowOK = isN && k == 0
		}
		if x.High != nil {
			h := stripConv(e.val(st, x.High))
			k, isN := h.Num()
			empty = isN && k == 0
			highOK = h == n || Canon(h) == Canon(n)
		}
		if e.P.liveFor(f.fn).cyc[f.block] {
			return // a part of a batch that is processed in parts
		}
		c.Expect(empty || lowOK && highOK, rule, disc, c.at(x), "a part of %s is cut off before it is used (%s)", Canon(base), e.trailStr(st))
	}
}

func runC71(c *Ctx) {
	const pg = "storage.Find#0"
	f64 := types.Typ[types.Float64]
	// fields a projection returns
	projected := func(e *Engine, st *State, opt *Term, f string) bool {
		p := optField(e, st, opt, "Projection")
		if p.IsNil() || p.Op == "zero" || e.nilness(st, p) == 1 {
			return true
		}
		m := strip(e.Load(st, p, types.NewMap(types.Typ[types.String], types.Typ[types.Int])))
		if m.IsNil() || m.Op == "zero" {
			return true
		}
		incl, val := false, -1
		for _, k := range e.mapKeys(st, m) {
			v, ok := st.mem[e.T.mk("mval", "", nil, m, k)].Num()
			if !ok {
				return false
			}
			if v != 0 && !isStr(k, "_id") {
				incl = true
			}
			if isStr(k, f) {
				val = 0
				if v != 0 {
					val = 1
				}
			}
		}
		return val == 1 || val == -1 && !incl
	}
	n := 0
	for _, j := range []struct {
		fn     string
		fields []string
	}{
		{"RecoveryMessagesPool", []string{"id", "queue", "score"}},
		{"RemoveTTLMessages", []string{"id", "queue"}},
		{"RemoveExceedingMessages", []string{"id"}},
		{"ComputeMetrics", []string{"last_usage"}},
	} {
		fn := c.queueFunc(j.fn)
		if fn == nil {
			continue
		}
		rec := j.fn == "RecoveryMessagesPool"
		scores := newBatch("w71", func(e *Engine, st *State, x *Term) bool { return Canon(x) == pg })
		orig := func(e *Engine) *Term { return e.T.mk("c71:orig", "", nil) }
		elem := func(e *Engine) *Term { return e.T.mk("c71:elem", "", nil) }
		clamps := 0
		o := &Opts{Event: roleEvents, KeepEvent: func(ev *Event) bool { return false },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				if role(ev.Name) != "storage.Find" {
					return
				}
				if rec {
					f := strip(optField(e, st, ev.Args[2], "InternalFilter"))
					if zeroish(f) || e.nilness(st, f) == 1 {
						return // only the internal id of the newest message is wanted
					}
				}
				n++
				for _, f := range j.fields {
					c.Expect(projected(e, st, ev.Args[2], f), "fields-in-use-are-selected", j.fn+":"+f, c.at(ev.Site), "%s reads messages without their field %q", j.fn, f)
				}
			}}
		if rec {
			o.OnLoad = func(e *Engine, st *State, addr *Term, site ssa.Instruction) {
				was := st.ghost["w71"]
				scores.load(e, st, addr)
				if was == "" && st.ghost["w71"] == "seen" {
					el := addr
					for el.Op == "fa" {
						el = el.Args[0]
					}
					st.mem[elem(e)] = el
					st.mem[orig(e)] = e.Load(st, e.fa(el, "Score", f64), f64)
				}
			}
			o.OnStore = func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
				if addr.Op != "fa" || val.Typ == nil || !strings.HasSuffix(Canon(addr), "[*].Score") && !strings.HasSuffix(Canon(addr), ".Score") {
					return
				}
				if addr.Args[0].Op != "ia" || Canon(addr.Args[0].Args[0]) != pg {
					return
				}
				clamps++
				src := st.mem[orig(e)]
				if src == nil || st.mem[elem(e)] != addr.Args[0] {
					src = e.Load(st, addr, f64)
				}
				ok, msg := clampOf(e, st, val, src, 0, 1<<53)
				ok = ok || e.IvOf(st, val).numEmpty() && e.IvOf(st, src).NaN // not a number stays what it is
				c.Expect(ok, "score-kept-within-its-range", "value", c.at(site), "recovery changes the score of a message to %s (%s)", msg, e.trailStr(st))
				scores.done(st)
			}
			o.OnHeader = func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				if back && st.ghost["w71"] == "seen" {
					if el := st.mem[elem(e)]; el != nil { // left as it was: within the range
						iv := e.IvOf(st, e.Load(st, e.fa(el, "Score", f64), f64))
						if iv.Lo >= 0 && iv.Hi <= 1<<53 {
							delete(st.ghost, "w71")
						}
					}
				}
				scores.header(e, st, b, back)
				if st.ghost["w71"] == "" {
					delete(st.mem, elem(e))
					delete(st.mem, orig(e))
				}
			}
		}
		c.Explore(fn, o, nil)
		if rec {
			if !scores.flush(c, "score-kept-within-its-range", "all", "a message may be recovered with a score out of the range 0..2^53") {
				c.Bad("score-kept-within-its-range", c.P.Pos(fn.Pos()), "recovery does not bring the scores of the messages it restores into the range 0..2^53")
			}
		}
	}
	if n < 4 {
		c.Bad("anchor:reads", queuePkg, "%d reads of the housekeeping jobs recognised", n)
	}
}

func runC72(c *Ctx) {
	isMsgPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && (n.Obj().Name() == "Message" || n.Obj().Name() == "AddMessage") && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), c.P.ModPath)
	}
	isMsg := func(t types.Type) bool { return isMsgPtr(t) || isMsgPtr(types.NewPointer(t)) }
	idOf := func(e *Engine, st *State, m *Term, f string) string {
		if m.Typ == nil || !isMsgPtr(m.Typ) || m.Op == "elems" || m.IsNil() {
			return ""
		}
		return Canon(stripConv(e.Load(st, e.fa(m, f, types.Typ[types.String]), types.Typ[types.String])))
	}
	copied := func(w *batch, f, want string) *Opts {
		o := &Opts{DropOld: true}
		o.OnLoad = func(e *Engine, st *State, addr *Term, site ssa.Instruction) { w.load(e, st, addr) }
		o.OnHeader = func(e *Engine, st *State, b *ssa.BasicBlock, back bool) { w.header(e, st, b, back) }
		o.OnStore = func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op == "ia" && strings.HasSuffix(idOf(e, st, val, f), want) {
				w.done(st)
			}
		}
		o.OnAppend = func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			for _, m := range elems {
				if strings.HasSuffix(idOf(e, st, m, f), want) {
					w.done(st)
				}
			}
		}
		return o
	}
	// the Add call
	if fn := c.rpc("Add"); fn != nil {
		w := newBatch("w72", func(e *Engine, st *State, x *Term) bool { return Canon(x) == "$2.Messages" })
		o := copied(w, "ID", "$2.Messages[*].Id")
		o.Event = func(ci *CallInfo) bool { return queueCall(ci) != "" }
		o.OnSlice = c.wholeSlices("whole-batch-is-passed-on", "Add", isMsgPtr)
		c.Explore(fn, o, nil)
		if !w.flush(c, "every-message-is-taken-over", "Add", "a message of the request may be left out") {
			c.Bad("anchor:Add", c.P.Pos(fn.Pos()), "no loop over the messages of the request recognised")
		}
	}
	// the Pull call
	if fn := c.rpc("Pull"); fn != nil {
		w := newBatch("w72", func(e *Engine, st *State, x *Term) bool { return strings.HasSuffix(Canon(x), ".Pull#0") })
		o := copied(w, "Id", ".Pull#0[*].ID")
		o.Event = func(ci *CallInfo) bool { return queueCall(ci) == "Pull" }
		o.OnSlice = c.wholeSlices("whole-batch-is-passed-on", "Pull", isMsg)
		c.Explore(fn, o, nil)
		if !w.flush(c, "every-message-is-taken-over", "Pull", "a pulled message may be missing from the reply") {
			c.Bad("anchor:Pull", c.P.Pos(fn.Pos()), "no loop over the pulled messages recognised")
		}
	}
	// the queue
	if fn := c.queueMethod("Pull"); fn != nil {
		c.Explore(fn, &Opts{Event: roleEvents, DropOld: true, OnSlice: c.wholeSlices("whole-batch-is-passed-on", "queue.Pull", isMsg),
			KeepEvent: func(ev *Event) bool { return role(ev.Name) == "storage.Find" },
			OnExit: func(e *Engine, st *State, res []*Term) {
				if e.nilness(st, res[1]) == 2 {
					return
				}
				for i, f := range evs(st, "storage.Find") {
					l := e.ext(f.Res, 0, nil)
					if !okEv(e, st, f) || e.IvOf(st, e.LenOf(st, l)).Hi <= 0 {
						continue
					}
					got, what := false, Canon(res[0])
					if e.nilness(st, res[0]) != 1 {
						v := e.Load(st, res[0], types.NewSlice(types.Typ[types.Int]))
						what = Canon(v)
						got = strip(v).hasRoot(f.Res)
						for _, x := range e.Elems(st, v) {
							got = got || strip(x).hasRoot(f.Res)
						}
					}
					for t := range st.facts { // nothing was read if the collection it went into is empty
						if t.Op != "len" || e.IvOf(st, t).Hi > 0 {
							continue
						}
						got = got || strip(t.Args[0]).hasRoot(f.Res)
						for _, x := range e.Elems(st, t.Args[0]) {
							got = got || strip(x).hasRoot(f.Res)
						}
					}
					c.Expect(got, "every-message-read-is-returned", itoa(i+1), c.P.Pos(fn.Pos()), "the messages of read %d may be missing from the result %s (%s)", i+1, what, e.trailStr(st))
				}
			}}, nil)
	}
	if fn := c.queueMethod("AddMessagesToStorage"); fn != nil {
		w := newBatch("w72", func(e *Engine, st *State, x *Term) bool { return Canon(x) == "$2" })
		o := copied(w, "ID", "$2[*].ID")
		o.Event = roleEvents
		o.OnSlice = c.wholeSlices("whole-batch-is-passed-on", "storage", isMsgPtr)
		n, direct := 0, false
		o.OnEvent = func(e *Engine, st *State, ev *Event) {
			if role(ev.Name) != "storage.Insert" {
				return
			}
			n++
			a := ev.Args[2]
			if Canon(a) == "$2" {
				direct = true
				return
			}
			for _, x := range e.Elems(st, a) {
				c.Expect(x.IsNil() || Canon(x) == "$2[*]", "inserts-what-was-added", "storage", c.at(ev.Site), "the storage is given %s", Canon(x))
			}
		}
		c.Explore(fn, o, nil)
		if n == 0 {
			c.Bad("anchor:storage", c.P.Pos(fn.Pos()), "nothing is inserted in the storage")
		}
		ok := w.flush(c, "every-message-is-taken-over", "storage", "a message may be left out of the storage")
		c.Expect(ok || direct, "every-message-is-taken-over", "storage", c.P.Pos(fn.Pos()), "the storage is not given all messages")
	}
	if fn := c.queueMethod("AddMessagesToCache"); fn != nil {
		w := newBatch("w72", func(e *Engine, st *State, x *Term) bool { return Canon(x) == "$2" })
		g := newBatch("w72g", func(e *Engine, st *State, x *Term) bool { return false })
		whole := func(e *Engine, st *State, l *Term) bool {
			for _, x := range e.Elems(st, l) {
				if Canon(x) == "$2[*]" {
					return true
				}
			}
			return Canon(l) == "$2"
		}
		n := 0
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(*Event) bool { return false },
			OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) { w.load(e, st, addr) },
			OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				w.header(e, st, b, back)
				g.header(e, st, b, back)
			},
			OnSlice: c.wholeSlices("whole-batch-is-passed-on", "cache", isMsgPtr),
			OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
				switch kind {
				case "update":
					if v != nil && Canon(k) == "$2[*].Queue" && whole(e, st, v) {
						w.done(st)
					}
				case "range":
					g.seen(e, st)
				}
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				if role(ev.Name) != "cache.Insert" {
					return
				}
				n++
				if whole(e, st, ev.Args[3]) && st.ghost["w72"] != "" {
					w.done(st)
				}
				g.done(st)
			}}, nil)
		if n == 0 {
			c.Bad("anchor:cache", c.P.Pos(fn.Pos()), "nothing is inserted in the cache")
		}
		if !w.flush(c, "every-message-is-taken-over", "cache", "a message may be left out of the cache") {
			c.Bad("anchor:cache:loop", c.P.Pos(fn.Pos()), "no loop over the added messages recognised")
		}
		g.flush(c, "every-queue-is-inserted", "cache", "the messages of a queue may be left out of the cache")
	}
}

// ageOf: v is computed from the field and the clock.
func ageOf(e *Engine, st *State, v *Term, field string) bool {
	found, clock := false, false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = callTerm(e, st, strip(t))
		if seen[t] {
			return
		}
		seen[t] = true
		found = found || strings.Contains(Canon(t), field)
		clock = clock || t.Op == "opq" || strings.Contains(t.Str, "Now") || strings.Contains(t.Str, "time.Since")
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(v)
	return found && clock
}
