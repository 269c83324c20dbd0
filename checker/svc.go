package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const two53 = 9007199254740992.0

// server finds the application type that implements the gRPC service.
func (c *Ctx) server() types.Type {
	for _, t := range c.P.Impls("", "DeckardServer") {
		n, _ := types.Unalias(deref(t)).(*types.Named)
		if n == nil || n.Obj().Pkg().Path() == c.P.ModPath {
			continue
		}
		return t
	}
	c.Bad("anchor:server", "?", "no type outside the generated package implements DeckardServer")
	return nil
}

var rpcs = []string{"Add", "Pull", "Ack", "Nack", "Remove", "Count", "GetById", "GetQueue", "EditQueue", "Flush"}

func (c *Ctx) rpc(name string) *ssa.Function {
	t := c.server()
	if t == nil {
		return nil
	}
	fn := c.P.methodOf(t, name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.Bad("anchor:rpc:"+name, "?", "RPC method %s not found", name)
		return nil
	}
	return fn
}

var svcPkgs = []string{"", "internal/service", "internal/queue", "internal/queue/cache", "internal/queue/storage", "internal/queue/score", "internal/queue/message", "internal/audit"}

func evs(st *State, names ...string) []*Event {
	var out []*Event
	for _, ev := range st.events {
		r := role(ev.Name)
		for _, n := range names {
			if r == n {
				out = append(out, ev)
			}
		}
	}
	return out
}

func (c *Ctx) at(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := in.Pos()
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	return fmt.Sprintf("%s (%s)", c.P.Pos(pos), in.Parent().Name())
}

func init() {
	register(&Check{ID: "C01", Min: 6, Pkgs: svcPkgs,
		Technique: "Path-sensitive typestate dataflow over SSA: order and error outcomes of storage.Insert / cache.Insert on every path of Add",
		Note:      "Every control path of the Add RPC (module calls expanded, storage and cache calls given a success and a failure outcome) is checked for the order storage-then-cache, no cache insert after a storage error, an error reply after any failure, and a success reply that carries the storage counts.",
		Run: func(c *Ctx) {
			fn := c.rpc("Add")
			if fn == nil {
				return
			}
			c.Explore(fn, &Opts{Event: roleEvents,
				KeepEvent: func(ev *Event) bool { r := role(ev.Name); return r == "storage.Insert" || r == "cache.Insert" },
				OnEvent: func(e *Engine, st *State, ev *Event) {
					if role(ev.Name) != "cache.Insert" {
						return
					}
					ins := evs(st, "storage.Insert")
					okOrder := false
					var missing []string
					for _, s := range ins {
						if e.nilness(st, s.Errs) != 1 {
							continue
						}
						okOrder = true
						have := map[string]bool{}
						for _, x := range e.Elems(st, s.Args[len(s.Args)-1]) {
							have[elemKey(e, st, x)] = true
						}
						for _, x := range e.Elems(st, ev.Args[len(ev.Args)-1]) {
							if !have[elemKey(e, st, x)] {
								missing = append(missing, Canon(x))
							}
						}
					}
					c.Expect(okOrder, "cache-insert-after-successful-storage-insert", c.fnOf(ev.Site), c.at(ev.Site), "messages reach the cache on a path where storage.Insert has not succeeded (%s)", e.trailStr(st))
					if okOrder {
						c.Expect(len(missing) == 0, "cached-messages-were-stored", c.fnOf(ev.Site), c.at(ev.Site), "messages handed to the cache were not handed to storage before: %v", missing)
					}
				},
				OnExit: func(e *Engine, st *State, res []*Term) {
					failed := ""
					for _, ev := range st.events {
						if ev.Errs != nil && e.nilness(st, ev.Errs) == 2 {
							failed = role(ev.Name)
						}
					}
					if failed != "" {
						c.Expect(e.nilness(st, res[1]) == 2, "failure-is-reported", failed, c.P.Pos(fn.Pos()), "Add may report success after %s failed (%s)", failed, e.trailStr(st))
						return
					}
					if e.nilness(st, res[1]) == 2 {
						return // rejected without touching anything that failed
					}
					ins := evs(st, "storage.Insert")
					if len(ins) == 0 {
						// only acceptable when there is nothing to add
						if !emptyLen(e, st, e.T.mk("load", "", nil, e.fa(e.Param("$2", nil), "Messages", nil))) {
							c.Bad("success-implies-stored", c.P.Pos(fn.Pos()), "Add reports success on a path that never stores the messages (%s)", e.trailStr(st))
						}
						return
					}
					last := ins[len(ins)-1]
					for i, f := range []string{"CreatedCount", "UpdatedCount"} {
						v := e.Load(st, e.fa(res[0], f, nil), types.Typ[types.Int64])
						want := e.ext(last.Res, i, nil)
						c.Expect(v == want, "success-reports-storage-counts", f, c.P.Pos(fn.Pos()), "on success %s is %s, not result %d of storage.Insert", f, Canon(v), i)
					}
					// everything stored is also made pullable
					cached := map[string]bool{}
					for _, ev := range evs(st, "cache.Insert") {
						for _, x := range e.Elems(st, ev.Args[len(ev.Args)-1]) {
							cached[elemKey(e, st, x)] = true
						}
					}
					for _, s := range ins {
						for _, x := range e.Elems(st, s.Args[len(s.Args)-1]) {
							c.Expect(cached[elemKey(e, st, x)], "stored-messages-are-cached", Canon(x), c.P.Pos(fn.Pos()), "Add reports success although message %s was stored but never inserted in the cache (%s)", Canon(x), e.trailStr(st))
						}
					}
				}}, nil)
			c.cachedUnderOwnQueue()
		}})

	register(&Check{ID: "C02", Min: 20, Pkgs: svcPkgs,
		Technique: "Path-sensitive error-discipline dataflow: every failed storage/cache outcome must reach the RPC error result",
		Note:      "For each of the ten RPCs, all control paths are propagated with a success and a failure outcome of every storage and cache call; an exit on which some call failed must return a non-nil gRPC error. The only exempt call is cache.Remove of ids that two storage reads missed.",
		Run: func(c *Ctx) {
			for _, r := range rpcs {
				fn := c.rpc(r)
				if fn == nil {
					continue
				}
				errSeen := map[string]bool{}
				c.Explore(fn, &Opts{Event: roleEvents, Coarse: true, BareEvents: true, Shallow: true,
					KeepEvent: func(ev *Event) bool { return ev.Errs != nil },
					OnExit: func(e *Engine, st *State, res []*Term) {
						er := res[len(res)-1]
						finds := 0
						for _, ev := range st.events {
							name := role(ev.Name)
							if name == "storage.Find" && e.nilness(st, ev.Errs) == 1 {
								finds++
							}
							if e.nilness(st, ev.Errs) != 2 {
								continue
							}
							if name == "cache.Remove" && r == "Pull" && finds >= 2 {
								c.OK("exempt-cleanup", c.at(ev.Site))
								continue
							}
							errSeen[name] = true
							c.Expect(e.nilness(st, er) == 2, r+"-error-propagation", name, c.at(ev.Site), "%s may report success after %s failed (%s)", r, name, e.trailStr(st))
						}
						if e.nilness(st, er) == 2 {
							checkStatus(c, r, er, fn)
						}
					}}, nil)
				var ns []string
				for n := range errSeen {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				if len(ns) == 0 && r != "EditQueue" {
					c.Bad("anchor:noerr:"+r, c.P.Pos(fn.Pos()), "no storage or cache call with an error result was found below %s", r)
				}
			}
		}})

	register(&Check{ID: "C04", Min: 3, Pkgs: svcPkgs,
		Technique: "Interval dataflow on the amount that reaches cache.PullMessages",
		Note:      "On every path from the Pull RPC to cache.PullMessages the amount argument's interval must lie in [1,1000]; a constant bound may replace the requested amount only where the branch facts exclude amounts strictly inside the range.",
		Run: func(c *Ctx) {
			fn := c.rpc("Pull")
			if fn == nil {
				return
			}
			n := 0
			c.Explore(fn, &Opts{Event: roleEvents, Coarse: true, KeepFields: []string{"Amount"}, KeepEvent: func(ev *Event) bool { return false },
				Model: func(e *Engine, st *State, ev *CallInfo) ([]*Outcome, bool) {
					if role(ev.Name) != "cache.PullMessages" {
						return nil, false
					}
					n++
					amt := ev.Args[3]
					iv := e.IvOf(st, amt)
					c.Expect(iv.within(1, 1000), "amount-in-1..1000", "", c.at(ev.Site), "cache.PullMessages may be asked for %s messages (argument %s; %s)", iv, Canon(amt), e.trailStr(st))
					req := e.T.mk("load", "", nil, e.fa(e.Param("$2", nil), "Amount", nil))
					if stripConv(amt) == req {
						c.OK("in-range-amount-unchanged", Canon(amt))
						return nil, true
					}
					s2 := st.clone()
					feasible := e.setIv(s2, req, Iv{Lo: 1, Hi: 1000, Int: true, Ne: pointNe(amt)})
					// also through conversions recorded as separate terms
					if feasible {
						for t := range st.facts {
							if t.Op == "conv" && stripConv(t) == req {
								if !e.setIv(s2, t, Iv{Lo: 1, Hi: 1000, Int: true, Ne: pointNe(amt)}) {
									feasible = false
								}
							}
						}
					}
					c.Expect(!feasible, "in-range-amount-unchanged", Canon(amt), c.at(ev.Site), "a requested amount between 1 and 1000 may be replaced by %s (%s)", Canon(amt), e.trailStr(st))
					return nil, true
				}}, nil)
			if n == 0 {
				c.Bad("anchor:PullMessages", c.P.Pos(fn.Pos()), "Pull never reaches cache.PullMessages")
			}
		}})
}

func pointNe(t *Term) []float64 {
	if n, ok := t.Num(); ok {
		return []float64{n}
	}
	return nil
}

func (c *Ctx) fnOf(in ssa.Instruction) string { return in.Parent().Name() }

func emptyLen(e *Engine, st *State, s *Term) bool {
	iv := e.IvOf(st, e.Len(s))
	return iv.Hi <= 0 || e.nilness(st, s) == 1
}

// elemKey identifies a slice element modulo iteration: two executions of the same
// allocation (this iteration, an earlier one) count as the same generic element.
func elemKey(e *Engine, st *State, x *Term) string {
	if x.Op == "elems" {
		x = x.Args[0]
		return "E" + canonKey(x)
	}
	if x.Op == "load" && x.Args[0].Op == "ia" {
		return "E" + canonKey(x.Args[0].Args[0])
	}
	if x.Op == "ia" { // pointer to an element
		return "E&" + canonKey(x.Args[0])
	}
	return canonKey(x)
}

func canonKey(t *Term) string {
	if t.Ctx {
		return t.Op + strings.TrimRight(t.Str, "~")
	}
	if len(t.Args) == 0 {
		return fmt.Sprint(t.ID)
	}
	var s []string
	for _, a := range t.Args {
		s = append(s, canonKey(a))
	}
	return t.Op + ":" + t.Str + "(" + strings.Join(s, ",") + ")"
}

func checkStatus(c *Ctx, r string, er *Term, fn *ssa.Function) {
	t := er
	for t.Op == "nn" || t.Op == "iface" {
		t = t.Args[0]
	}
	if t.Op == "call" && strings.HasPrefix(t.Str, "google.golang.org/grpc/status.") {
		c.OK("gRPC-status", r)
	}
}

// cachedUnderOwnQueue: the queue layer inserts each message in the cache under the queue of
// that same message.
func (c *Ctx) cachedUnderOwnQueue() {
	for _, t := range c.P.Impls("internal/queue", "DeckardQueue") {
		fn := c.P.methodOf(t, "AddMessagesToCache")
		if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) < 3 || strings.Contains(fnPkgPath(fn), "/mocks") {
			continue
		}
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(*Event) bool { return false }, OnEvent: func(e *Engine, st *State, ev *Event) {
			if role(ev.Name) != "cache.Insert" {
				return
			}
			q := ev.Args[2]
			if q.Op != "load" || q.Args[0].Op != "fa" || q.Args[0].Str != "Queue" {
				return
			}
			for _, x := range e.Elems(st, ev.Args[len(ev.Args)-1]) {
				if x.Op != "load" || x.Args[0].Op != "ia" {
					continue
				}
				xq := e.T.mk("load", "", nil, e.fa(x, "Queue", nil))
				c.Expect(canonKey(xq) == canonKey(q), "cached-under-own-queue", fn.Name(), c.at(ev.Site), "%s may be inserted in the cache under queue %s, which is the queue of another message", x, q)
			}
		}}, nil)
	}
}
