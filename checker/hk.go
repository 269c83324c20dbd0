package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var hkPkgs = append([]string{"internal/queue/pool", "internal/queue/configuration"}, qPkgs...)

func init() {
	register(&Check{ID: "C14", Min: 12, Pkgs: hkPkgs,
		Technique: "Typestate dataflow over all paths of the cache recovery job (order, error outcomes and arguments of storage and cache calls)",
		Note:      "On each path (every storage/cache call failing or succeeding): what the storage breakpoint is set to and after which successful inserts, when and after what the finished marker is written, that starting marks recovery running first, and that each page starts at the stored breakpoint in ascending internal-id order.",
		Run:       runC14})
	register(&Check{ID: "C15", Min: 4, Pkgs: hkPkgs,
		Technique: "Guard dataflow: every removal of the expiry and max-elements jobs is dominated by a successful read of the recovery marker that excludes running",
		Note:      "All paths of both jobs; the fact that the marker was read without error and differs from the running value must hold at each storage.Remove and cache.Remove.",
		Run:       runC15})
	register(&Check{ID: "C16", Min: 12, Pkgs: hkPkgs,
		Technique: "Value-flow and guard dataflow on the selection options and removal arguments of the expiry and max-elements jobs",
		Note:      "For each storage.Remove: the ids and queue are fields of messages of the job's own storage.Find; the find options carry the expiry date given to the job, respectively the queue, an ascending expiry sort and the limit count-max; the facts imply a positive maximum that is exceeded.",
		Run:       runC16})
	register(&Check{ID: "C18", Min: 8, Pkgs: hkPkgs,
		Technique: "Typestate dataflow: a negative shutdown check is required in the same loop iteration before each storage or cache operation",
		Note:      "All paths of the timeout, unlock, expiry, max-elements and metrics jobs; the permission obtained from a shutdown check ends at every header of a loop that operates on queues.",
		Run:       runC18})
	register(&Check{ID: "C19", Min: 8, Pkgs: hkPkgs,
		Technique: "Taint dataflow from queue names to metric attribute values",
		Note:      "Every attribute with key queue that reaches metric.WithAttributes in the queue layer is the prefix component of the queue-name split (or a prefix listed by storage); so are the keys of the gauge maps.",
		Run:       runC19})
}

// sortOf returns the "key:dir" list of a sort option, e.g. "expiry_date:1".
func sortOf(e *Engine, st *State, opt *Term) string {
	m := strip(optField(e, st, opt, "Sort"))
	if m.IsNil() || m.Op == "const" || m.Op == "zero" {
		return ""
	}
	var out []string
	for _, k := range e.mapKeys(st, m) {
		out = append(out, strings.Trim(Canon(k), `"`)+":"+Canon(st.mem[e.T.mk("mval", "", nil, m, k)]))
	}
	return strings.Join(out, ",")
}

func runC14(c *Ctx) {
	fn := c.queueFunc("RecoveryMessagesPool")
	if fn == nil {
		return
	}
	running, bpKey, limKey, finished := c.pkgConst("internal/queue/cache", "RECOVERY_RUNNING"), c.pkgConst("internal/queue/cache", "RECOVERY_STORAGE_BREAKPOINT_KEY"), c.pkgConst("internal/queue/cache", "RECOVERY_BREAKPOINT_KEY"), c.pkgConst("internal/queue/cache", "RECOVERY_FINISHED")
	where := c.P.Pos(fn.Pos())
	n := map[string]int{}
	getRes := func(e *Engine, st *State, key string) []*Term {
		var out []*Term
		for _, g := range evs(st, "cache.Get") {
			if isStr(g.Args[2], key) {
				out = append(out, e.ext(g.Res, 0, str))
			}
		}
		return out
	}
	page := func(e *Engine, st *State) *Event { // the page read: the last Find with a breakpoint filter
		fs := evs(st, "storage.Find")
		for i := len(fs) - 1; i >= 0; i-- {
			f := strip(optField(e, st, fs[i].Args[2], "InternalFilter"))
			if !zeroish(f) && e.nilness(st, f) != 1 {
				return fs[i]
			}
		}
		return nil
	}
	w := newBatch("w14", func(e *Engine, st *State, x *Term) bool { return Canon(x) == "storage.Find#0" })
	c.Explore(fn, &Opts{Event: roleEvents,
		KeepEvent: func(ev *Event) bool {
			return !strings.HasPrefix(role(ev.Name), "audit.") && role(ev.Name) != "cache.Insert"
		},
		OnFail: func(e *Engine, st *State, ev *Event) {
			if role(ev.Name) == "cache.Insert" {
				st.ghost["insfail"] = "1"
			}
		},
		OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) {
			w.load(e, st, addr)
			if addr.Op == "ia" && addr.Args[1] == e.binop(token.SUB, e.LenOf(st, addr.Args[0]), e.T.Int(1), types.Typ[types.Int]) {
				st.ghost["lastload"] = "1" // the last element of a slice; that slices of page elements are complete is rule whole-page-inserted
			}
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op == "ia" && val.Op == "ia" && Canon(val) == "storage.Find#0[*]" {
				w.done(st)
			}
		},
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			for _, x := range elems {
				if strip(x).Op == "ia" && Canon(x) == "storage.Find#0[*]" {
					w.done(st)
				}
			}
		},
		OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
			w.header(e, st, b, back)
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			switch role(ev.Name) {
			case "cache.Insert":
				st.ghost["ins"] = "1"
				pg := page(e, st)
				c.Expect(pg != nil && okEv(e, st, pg), "inserts-come-from-a-page", "", c.at(ev.Site), "messages are inserted in the cache without a successful page read (%s)", e.trailStr(st))
				for _, x := range e.Elems(st, ev.Args[3]) {
					if x.IsNil() {
						continue
					}
					c.Expect(Canon(x) == "storage.Find#0[*]", "inserts-come-from-a-page", "elem", c.at(ev.Site), "recovery inserts %s in the cache", Canon(x))
				}
			case "storage.Find":
				o := ev.Args[2]
				f := strip(optField(e, st, o, "InternalFilter"))
				if zeroish(f) || e.nilness(st, f) == 1 {
					return
				}
				n["page"]++
				gt, lte := optField(e, st, o, "InternalFilter", "InternalIdBreakpointGt"), optField(e, st, o, "InternalFilter", "InternalIdBreakpointLte")
				in := func(t *Term, key string) bool {
					for _, r := range getRes(e, st, key) {
						if r == t {
							return true
						}
						if v, ok := t.StrVal(); ok && v == "" && !notStr(e, st, r, "") {
							return true
						}
					}
					return false
				}
				c.Expect(in(gt, bpKey), "page-starts-at-the-stored-breakpoint", "", c.at(ev.Site), "the page starts after %s", Canon(gt))
				c.Expect(in(lte, limKey), "page-ends-at-the-recovery-breakpoint", "", c.at(ev.Site), "the page ends at %s", Canon(lte))
				c.Expect(sortOf(e, st, o) == "_id:1", "pages-in-ascending-id-order", "", c.at(ev.Site), "the page is sorted by %q", sortOf(e, st, o))
				for _, r := range getRes(e, st, bpKey) {
					if !notStr(e, st, r, finished) {
						c.Bad("no-page-after-finish", c.at(ev.Site), "a page may be read although the recovery is finished (%s)", e.trailStr(st))
					} else {
						c.OK("no-page-after-finish", "")
					}
				}
			case "cache.Set":
				if isStr(ev.Args[2], bpKey) {
					if isStr(ev.Args[3], finished) {
						n["finish"]++
						cleared := false
						for _, s := range evs(st, "cache.Set") {
							if isStr(s.Args[2], running) && isStr(s.Args[3], "false") && okEv(e, st, s) {
								cleared = true
							}
						}
						c.Expect(cleared, "finished-only-after-running-is-cleared", "", c.at(ev.Site), "the finished marker may be written while the running marker is still set (%s)", e.trailStr(st))
						fs := evs(st, "storage.Find")
						ok := false
						if len(fs) > 0 {
							f := fs[len(fs)-1]
							l := e.Len(e.ext(f.Res, 0, types.NewSlice(str)))
							lim := e.IvOf(st, stripConv(optField(e, st, f.Args[2], "Limit")))
							iv := e.IvOf(st, l)
							ok = okEv(e, st, f) && (iv.Hi <= 0 || iv.Hi < lim.Lo)
						}
						c.Expect(ok, "finished-only-after-a-short-page", "", c.at(ev.Site), "recovery may be declared finished although the last page was full (%s)", e.trailStr(st))
						c.Expect(st.ghost["insfail"] == "", "finished-only-after-successful-inserts", "", c.at(ev.Site), "recovery may be declared finished after a failed cache insert (%s)", e.trailStr(st))
						return
					}
					n["advance"]++
					v := ev.Args[3]
					ok, msg := false, Canon(v)
					for _, g := range evs(st, "storage.GetStringInternalId") {
						if g.Res == strip(v) {
							p := strip(g.Args[2])
							pg := page(e, st)
							if pg != nil && p.Op == "ia" {
								coll := e.ext(pg.Res, 0, nil)
								last := e.binop(token.SUB, e.Len(strip(p.Args[0])), e.T.Int(1), types.Typ[types.Int])
								msg = Canon(p) + " at " + Canon(p.Args[1])
								ok = strip(p.Args[0]).hasRoot(pg.Res) && Canon(p.Args[0]) == Canon(coll) && (p.Args[1] == last || st.ghost["lastload"] == "1" && !p.Args[1].IsConst())
							}
						}
					}
					c.Expect(ok, "breakpoint-is-the-last-of-the-page", "", c.at(ev.Site), "the storage breakpoint is set to %s, not to the id of the last message of the page", msg)
					c.Expect(st.ghost["insfail"] == "", "breakpoint-only-after-successful-inserts", "err", c.at(ev.Site), "the breakpoint may advance after a failed cache insert (%s)", e.trailStr(st))
					c.Expect(st.ghost["ins"] == "1", "breakpoint-only-after-successful-inserts", "", c.at(ev.Site), "the breakpoint may advance without the page having been inserted (%s)", e.trailStr(st))
				}
				if isStr(ev.Args[2], limKey) {
					n["start"]++
					sets := evs(st, "cache.Set")
					ok := len(sets) > 0 && isStr(sets[0].Args[2], running) && isStr(sets[0].Args[3], "true") && okEv(e, st, sets[0])
					c.Expect(ok, "marked-running-before-anything-else", "", c.at(ev.Site), "recovery starts without having been marked running first (%s)", e.trailStr(st))
				}
				if isStr(ev.Args[2], running) && isStr(ev.Args[3], "true") {
					c.Expect(len(evs(st, "storage.Find")) == 0, "marked-running-before-anything-else", "order", c.at(ev.Site), "the running marker is written after storage was read")
				}
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {}}, nil)
	w.flush(c, "whole-page-inserted", "", "a message of the page may be left out of the insert")
	for _, k := range []string{"page", "finish", "advance", "start"} {
		if n[k] == 0 {
			c.Bad("anchor:"+k, where, "recovery step %q was not recognised", k)
		}
	}
}

func runC15(c *Ctx) {
	running := c.pkgConst("internal/queue/cache", "RECOVERY_RUNNING")
	for _, name := range []string{"RemoveTTLMessages", "RemoveExceedingMessages"} {
		fn := c.queueFunc(name)
		if fn == nil {
			continue
		}
		n := 0
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(ev *Event) bool { return role(ev.Name) == "cache.Get" },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				r := role(ev.Name)
				if r != "storage.Remove" && r != "cache.Remove" {
					return
				}
				n++
				ok := false
				for _, g := range evs(st, "cache.Get") {
					if isStr(g.Args[2], running) && okEv(e, st, g) && notStr(e, st, e.ext(g.Res, 0, str), "true") {
						ok = true
					}
				}
				c.Expect(ok, "no-removal-during-recovery", name+":"+r, c.at(ev.Site), "%s: %s may run while recovery is running or its state is unknown (%s)", name, r, e.trailStr(st))
			}}, nil)
		if n == 0 {
			c.Bad("anchor:"+name, c.P.Pos(fn.Pos()), "%s removes nothing", name)
		}
	}
	// the marker tested is the one recovery writes
	if fn := c.queueFunc("RecoveryMessagesPool"); fn != nil {
		n := 0
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(ev *Event) bool { return false }, OnEvent: func(e *Engine, st *State, ev *Event) {
			if role(ev.Name) == "cache.Set" && isStr(ev.Args[2], running) && isStr(ev.Args[3], "true") {
				n++
			}
		}}, nil)
		c.Expect(n > 0, "recovery-writes-the-marker", "", c.P.Pos(fn.Pos()), "recovery never writes the running marker %q", running)
	}
}

func runC16(c *Ctx) {
	// expiry job
	n := 0
	if fn := c.queueFunc("RemoveTTLMessages"); fn != nil {
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(ev *Event) bool { return role(ev.Name) == "storage.Find" },
			OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
				if kind != "update" || !strings.HasPrefix(Canon(k), "storage.Find#0[*]") || v == nil || (v.Op != "coll" && v.Op != "mkslice" && v.Op != "slice") {
					return
				}
				els := e.Elems(st, v)
				if len(els) == 0 {
					return
				}
				last := strip(els[len(els)-1])
				found := false
				for _, x := range els {
					if baseOf(x) == baseOf(k) {
						found = true
					}
				}
				c.Expect(found, "ids-are-grouped-with-their-own-queue", "TTL", c.at(site), "id %s is filed under the queue %s of another message", Canon(last), Canon(k))
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				r := role(ev.Name)
				if r == "storage.Find" {
					d := optField(e, st, ev.Args[2], "InternalFilter", "ExpiryDate")
					c.Expect(Canon(d) == "$2", "selected-by-the-given-expiry-date", "TTL", c.at(ev.Site), "the expiry job selects messages with expiry filter %s, not with the date it was given", Canon(d))
					c.Expect(sortOf(e, st, ev.Args[2]) == "expiry_date:1", "oldest-expiry-first", "TTL", c.at(ev.Site), "the expiry job sorts by %q", sortOf(e, st, ev.Args[2]))
				}
				if r != "storage.Remove" {
					return
				}
				n++
				fs := evs(st, "storage.Find")
				c.Expect(len(fs) == 1 && okEv(e, st, fs[0]), "removes-only-what-was-selected", "TTL:read", c.at(ev.Site), "the expiry job removes messages without a successful selection")
				c.Expect(Canon(ev.Args[2]) == "storage.Find#0[*].Queue", "removes-only-what-was-selected", "TTL:queue", c.at(ev.Site), "the expiry job removes from queue %s", Canon(ev.Args[2]))
				for _, x := range e.Elems(st, ev.Args[3]) {
					c.Expect(Canon(x) == "storage.Find#0[*].ID", "removes-only-what-was-selected", "TTL:ids", c.at(ev.Site), "the expiry job removes id %s", Canon(x))
				}
			}}, nil)
		if n == 0 {
			c.Bad("anchor:TTL", c.P.Pos(fn.Pos()), "the expiry job removes nothing")
		}
	}
	// max-elements job
	n = 0
	if fn := c.queueFunc("RemoveExceedingMessages"); fn != nil {
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(ev *Event) bool { return false },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				r := role(ev.Name)
				cfgQ, cfgM := "storage.ListQueueConfigurations#0[*].Queue", "storage.ListQueueConfigurations#0[*].MaxElements"
				switch r {
				case "storage.Count":
					o := ev.Args[2]
					q := optField(e, st, o, "InternalFilter", "Queue")
					c.Expect(Canon(q) == cfgQ, "counts-the-limited-queue", "MAX", c.at(ev.Site), "the max-elements job counts queue %s", Canon(q))
					for _, f := range []string{"Ids", "QueuePrefix", "ExpiryDate", "InternalIdBreakpointGt", "InternalIdBreakpointLte"} {
						v := optField(e, st, o, "InternalFilter", f)
						c.Expect(zeroish(v), "counts-the-limited-queue", "MAX:"+f, c.at(ev.Site), "the max-elements job counts with filter %s = %s", f, Canon(v))
					}
				case "storage.Find":
					o := ev.Args[2]
					q := optField(e, st, o, "InternalFilter", "Queue")
					c.Expect(Canon(q) == cfgQ, "selects-in-the-limited-queue", "MAX", c.at(ev.Site), "the max-elements job selects in queue %s", Canon(q))
					lim := stripConv(optField(e, st, o, "Limit"))
					c.Expect(lim.Op == "binop" && lim.Str == "-" && Canon(stripConv(lim.Args[0])) == "storage.Count#0" && Canon(stripConv(lim.Args[1])) == cfgM, "removes-exactly-the-excess", "MAX", c.at(ev.Site), "the max-elements job selects %s messages, not count minus limit", Canon(lim))
					c.Expect(strings.HasPrefix(sortOf(e, st, o), "expiry_date:1"), "oldest-expiry-first", "MAX", c.at(ev.Site), "the max-elements job sorts by %q", sortOf(e, st, o))
					st.ghost["lim"] = "1"
					if lim.Op == "binop" {
						m := e.IvOf(st, stripConv(lim.Args[1]))
						c.Expect(m.Lo >= 1, "only-with-a-positive-limit", "MAX", c.at(ev.Site), "the max-elements job acts on a queue whose limit may be %s (%s)", m, e.trailStr(st))
						gt := e.Truth(st, e.Lt(stripConv(lim.Args[1]), stripConv(lim.Args[0]))) == 1 || e.Truth(st, e.Le(stripConv(lim.Args[0]), stripConv(lim.Args[1]))) == 2 || e.IvOf(st, lim).Lo >= 1
						c.Expect(gt, "only-when-the-limit-is-exceeded", "MAX", c.at(ev.Site), "the max-elements job selects messages although the count may not exceed the limit (%s)", e.trailStr(st))
					}
				case "storage.Remove":
					n++
					c.Expect(st.ghost["lim"] == "1", "removes-only-what-was-selected", "MAX:read", c.at(ev.Site), "the max-elements job removes messages it did not select")
					c.Expect(Canon(ev.Args[2]) == cfgQ, "removes-only-what-was-selected", "MAX:queue", c.at(ev.Site), "the max-elements job removes from queue %s", Canon(ev.Args[2]))
					for _, x := range e.Elems(st, ev.Args[3]) {
						if s, ok := strip(x).StrVal(); ok && s == "" {
							continue // initial contents of a preallocated slice
						}
						c.Expect(Canon(x) == "storage.Find#0[*].ID", "removes-only-what-was-selected", "MAX:ids", c.at(ev.Site), "the max-elements job removes id %s", Canon(x))
					}
				}
			}}, nil)
		if n == 0 {
			c.Bad("anchor:MAX", c.P.Pos(fn.Pos()), "the max-elements job removes nothing")
		}
	}
}

// baseOf is the message a field value was read from.
func baseOf(t *Term) *Term {
	t = strip(t)
	if t.Op == "load" && t.Args[0].Op == "fa" {
		return t.Args[0].Args[0]
	}
	if t.Op == "field" {
		return t.Args[0]
	}
	return t
}

func zeroish(t *Term) bool {
	t = strip(t)
	if t.Op == "zero" || t.IsNil() {
		return true
	}
	if t.Op != "const" {
		return false
	}
	if s, ok := t.StrVal(); ok {
		return s == ""
	}
	n, ok := t.Num()
	return ok && n == 0
}

var hkJobs = []string{"ProcessTimeoutMessages", "ProcessLockPool", "RemoveTTLMessages", "RemoveExceedingMessages", "ComputeMetrics"}

func runC18(c *Ctx) {
	for _, name := range hkJobs {
		fn := c.queueFunc(name)
		if fn == nil {
			continue
		}
		n := 0
		opLoop := map[*ssa.BasicBlock]bool{}
		isOp := func(r string) bool {
			return strings.HasPrefix(r, "storage.") || strings.HasPrefix(r, "cache.")
		}
		for f := range c.P.reachable(fn) {
			if strings.HasSuffix(fnPkgPath(f), "/internal/queue") {
				for h := range c.loopsWithCalls(f, isOp) {
					opLoop[h] = true
				}
			}
		}
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(ev *Event) bool { return false },
			Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
				if ci.Fn == nil || !strings.HasSuffix(fnPkgPath(ci.Fn), "/internal/shutdown") || ci.Fn.Name() != "Ongoing" {
					return nil, false
				}
				return []*Outcome{{Res: e.T.Bool(true)}, {Res: e.T.Bool(false), Apply: func(s *State) { s.ghost["chk"] = "1" }}}, true
			},
			OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				if opLoop[b] {
					delete(st.ghost, "chk")
					st.ghost["loop"] = "1"
				}
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				r := role(ev.Name)
				if !isOp(r) || st.ghost["loop"] == "" {
					return
				}
				n++
				c.Expect(st.ghost["chk"] == "1", "checked-before-each-queue", name+":"+r, c.at(ev.Site), "%s: %s may start for another queue after shutdown has begun (%s)", name, r, e.trailStr(st))
			}}, nil)
		if n == 0 {
			c.Bad("anchor:"+name, c.P.Pos(fn.Pos()), "%s has no loop over queues", name)
		}
	}
	// the check itself is true exactly when Started is closed
	fn := c.P.Func("internal/shutdown", "Ongoing")
	if fn == nil {
		c.Bad("anchor:Ongoing", "internal/shutdown", "shutdown.Ongoing not found")
		return
	}
	c.Explore(fn, &Opts{ChanEv: true, OnExit: func(e *Engine, st *State, res []*Term) {
		recv := false
		for _, ev := range st.events {
			if strings.HasPrefix(ev.Name, "recv") && len(ev.Args) > 0 && strings.HasSuffix(Canon(ev.Args[0]), "shutdown.Started") {
				recv = true
			}
		}
		b, ok := res[0].Bool()
		c.Expect(ok && b == recv, "ongoing-iff-started-closed", "", c.P.Pos(fn.Pos()), "Ongoing returns %s on a path that did (%v) receive from the closed Started channel", Canon(res[0]), recv)
	}}, nil)
}

// loopsWithCalls returns the headers of natural loops of f from whose body an operation is reachable.
func (c *Ctx) loopsWithCalls(f *ssa.Function, isOp func(string) bool) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			// body of the loop with back edge b->s
			body := map[*ssa.BasicBlock]bool{s: true}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if body[x] {
					continue
				}
				body[x] = true
				stack = append(stack, x.Preds...)
			}
			for x := range body {
				for _, in := range x.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := call.Common()
					if cc.IsInvoke() && isOp(role(cc.Method.FullName())) {
						out[s] = true
					}
					if g := cc.StaticCallee(); g != nil && strings.HasPrefix(fnPkgPath(g), c.P.ModPath) {
						for h := range c.P.reachable(g) {
							for _, hb := range h.Blocks {
								for _, hin := range hb.Instrs {
									if hc, ok := hin.(ssa.CallInstruction); ok && hc.Common().IsInvoke() && isOp(role(hc.Common().Method.FullName())) && strings.HasSuffix(fnPkgPath(h), "/internal/queue") {
										out[s] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func runC19(c *Ctx) {
	var entries []*ssa.Function
	for _, m := range []string{"Ack", "Nack", "Pull", "Remove", "TimeoutMessages", "AddMessagesToCache"} {
		if f := c.queueMethod(m); f != nil {
			entries = append(entries, f)
		}
	}
	for _, m := range append([]string{"RecoveryMessagesPool"}, hkJobs...) {
		if f := c.queueFunc(m); f != nil {
			entries = append(entries, f)
		}
	}
	prefixOK := func(t *Term) bool {
		cn := Canon(t)
		return strings.HasPrefix(cn, "message.GetQueueParts(") && strings.HasSuffix(cn, ")#0") || cn == "storage.ListQueuePrefixes#0[*]"
	}
	attrs, gauges := 0, 0
	for _, fn := range entries {
		c.Explore(fn, &Opts{Event: roleEvents, Model: queueParts, KeepEvent: func(ev *Event) bool { return false },
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				switch {
				case ci.Name == "go.opentelemetry.io/otel/metric.WithAttributes":
					for _, a := range e.Elems(st, ci.Args[len(ci.Args)-1]) {
						call := callTerm(e, st, strip(a))
						if call.Op != "call" || !strings.HasPrefix(call.Str, "go.opentelemetry.io/otel/attribute.") || len(call.Args) < 2 || !isStr(call.Args[0], "queue") {
							continue
						}
						attrs++
						c.Expect(prefixOK(call.Args[1]), "queue-label-is-the-prefix", c.fnOf(ci.Site), c.at(ci.Site), "the queue label is %s, not the queue prefix", Canon(call.Args[1]))
					}
				case strings.HasSuffix(ci.Name, ").UpdateOldestElementMap") || strings.HasSuffix(ci.Name, ").UpdateTotalElementsMap"):
					m := strip(ci.Args[1])
					for _, k := range e.mapKeys(st, m) {
						gauges++
						c.Expect(prefixOK(k), "gauge-keyed-by-prefix", short(ci.Name), c.at(ci.Site), "a gauge is keyed by %s, not by the queue prefix", Canon(k))
					}
				}
			}}, nil)
	}
	if attrs == 0 || gauges == 0 {
		c.Bad("anchor:labels", "internal/queue", "%d queue labels and %d gauge keys recognised", attrs, gauges)
	}
	// every other place that records a metric attribute named queue
	for _, pk := range c.P.Mod {
		if pk.SSA == nil {
			continue
		}
		for _, f := range allFuncs(pk.SSA) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() == nil || funcName(call.Common().StaticCallee()) != "go.opentelemetry.io/otel/metric.WithAttributes" {
						continue
					}
					if c.analysed[f.String()] {
						c.OK("record-sites-analysed", f.Name())
					} else {
						c.Assume("metric record site " + f.String() + " outside the queue layer (label values come from the gauge maps or fixed task names)")
					}
				}
			}
		}
	}
}
