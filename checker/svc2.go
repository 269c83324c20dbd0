package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func reqField(e *Engine, name string) *Term {
	return e.T.mk("load", "", nil, e.fa(e.Param("$2", nil), name, nil))
}

var msgScoreEvents = map[string]bool{"storage.Insert": true, "storage.Ack": true, "storage.Nack": true, "cache.Insert": true, "cache.MakeAvailable": true, "cache.LockMessage": true}

// msgElems returns the message pointers handed to a storage/cache call.
func msgElems(e *Engine, st *State, ev *Event) []*Term {
	switch role(ev.Name) {
	case "storage.Insert", "cache.Insert":
		return e.Elems(st, ev.Args[len(ev.Args)-1])
	case "storage.Ack", "storage.Nack", "cache.MakeAvailable", "cache.LockMessage":
		return []*Term{ev.Args[2]}
	}
	return nil
}

var f64 = types.Typ[types.Float64]

func (c *Ctx) msgField(e *Engine, st *State, m *Term, f string, typ types.Type) *Term {
	if m.Op == "ia" || m.Local || m.Op == "param" || m.Op == "load" || m.Op == "ext" || m.Op == "opq" || m.Op == "fa" {
		return e.Load(st, e.fa(m, f, typ), typ)
	}
	return e.field(m, f, typ)
}

func init() {
	register(&Check{ID: "C05", Min: 10, Pkgs: svcPkgs,
		Technique: "Interval (with NaN) dataflow on the score of every message handed to storage or cache by Add, Ack and Nack",
		Note:      "For every path of the three RPCs, the abstract value of Message.Score at each storage.Insert/Ack/Nack and cache.Insert/MakeAvailable/LockMessage call must lie in [0,2^53] without NaN; the undefined marker is accepted only where the path facts give a positive lock time and no provided score; a provided in-range score may not be replaced.",
		Run: func(c *Ctx) {
			n := map[string]int{}
			for _, r := range []string{"Add", "Ack", "Nack"} {
				fn := c.rpc(r)
				if fn == nil {
					continue
				}
				c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: func(*Event) bool { return false },
					OnEvent: func(e *Engine, st *State, ev *Event) {
						name := role(ev.Name)
						if !msgScoreEvents[name] {
							return
						}
						for _, m := range msgElems(e, st, ev) {
							if m.IsNil() {
								continue
							}
							s := c.msgField(e, st, m, "Score", f64)
							iv := e.IvOf(st, s)
							n[r+":"+name]++
							key := r + ":" + name
							req := provided(e, st, r, s)
							if v, ok := s.Num(); ok && v == -1 {
								ok := r != "Add" && strings.HasPrefix(name, "storage.") || name == "cache.LockMessage"
								lock := e.IvOf(st, reqField(e, "LockMs"))
								sc := e.IvOf(st, reqField(e, "Score"))
								c.Expect(ok && lock.Lo >= 1, "undefined-score-only-when-locking", key, c.at(ev.Site), "%s: %s may receive the undefined score (-1) although the lock time may be %s (%s)", r, name, lock, e.trailStr(st))
								c.Expect(!sc.NaN && sc.Lo == 0 && sc.Hi == 0, "undefined-score-only-when-not-provided", key, c.at(ev.Site), "%s: %s may receive the undefined score although the request score may be %s", r, name, sc)
								continue
							}
							c.Expect(iv.within(0, two53), "score-in-0..2^53", key, c.at(ev.Site), "%s: the score handed to %s may be %s (value %s; %s)", r, name, iv, Canon(s), e.trailStr(st))
							if req == nil {
								continue
							}
							if stripConv(s) == req {
								c.OK("provided-score-kept", key)
								continue
							}
							s2 := st.clone()
							feasible := e.setIv(s2, req, Iv{Lo: 0, Hi: two53, LoOpen: true, Ne: pointNe(s)})
							c.Expect(!feasible, "provided-score-kept", key, c.at(ev.Site), "%s: a provided score in range may be replaced by %s at %s (%s)", r, Canon(s), name, e.trailStr(st))
						}
					}}, nil)
			}
			for _, k := range []string{"Add:storage.Insert", "Add:cache.Insert", "Ack:storage.Ack", "Ack:cache.LockMessage", "Ack:cache.MakeAvailable", "Nack:storage.Nack", "Nack:cache.LockMessage", "Nack:cache.MakeAvailable"} {
				if n[k] == 0 {
					c.Bad("anchor:"+k, "?", "no path of %s was found", k)
				}
			}
		}})

	register(&Check{ID: "C06", Min: 12, Pkgs: []string{"internal/queue/score", "internal/dtime"},
		Technique: "Interval dataflow: every return of each score helper against its total specification",
		Note:      "For each path of the exported helpers of the score package, the input interval (NaN included) established by the branch facts is compared with the value class that is returned.",
		Run:       runC06})

	register(&Check{ID: "C07", Min: 5, Pkgs: append([]string{"internal/cmd/deckard", "internal/config"}, svcPkgs...),
		Technique: "Path-sensitive guard dataflow on the delete-everything operations plus reverse call-graph reachability",
		Note:      "Every path of the Flush RPC that reaches storage.Flush or cache.Flush must carry the fact that the instance flag is set; every function from which those operations are reachable must be that RPC's call chain; the flag comes only from the constructor argument and, in main, is true only under both type settings being MEMORY.",
		Run:       runC07})
}

// provided is the request's score field the message's score is about, or nil.
func provided(e *Engine, st *State, r string, s *Term) *Term {
	if r != "Add" {
		return reqField(e, "Score")
	}
	// find the element whose score was branched on
	for t := range st.facts {
		if t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Str == "Score" && strings.Contains(Canon(t), "$2.Messages[*]") {
			if !strings.Contains(t.String(), "~") {
				return t
			}
		}
	}
	return nil
}

func runC06(c *Ctx) {
	minT, maxT := 0.0, two53
	e0 := NewEngine(c.P, &Opts{})
	for n, want := range map[string]float64{"Min": 0, "Max": two53, "Undefined": -1} {
		g := e0.globalConst(c.P.ModPath + "/internal/queue/score." + n)
		ok := false
		if g != nil {
			v, isN := g.Num()
			ok = isN && v == want
		}
		c.Expect(ok, "score-constants", n, "internal/queue/score", "score.%s is not the constant %v", n, want)
	}
	explore := func(name string, f func(e *Engine, st *State, in Iv, x, res *Term)) {
		fn := c.P.Func("internal/queue/score", name)
		if fn == nil {
			c.Bad("anchor:"+name, "internal/queue/score", "function %s not found", name)
			return
		}
		n := 0
		c.Explore(fn, &Opts{OnExit: func(e *Engine, st *State, res []*Term) {
			n++
			x := e.Param("$0", f64)
			f(e, st, e.IvOf(st, x), x, res[0])
		}}, nil)
		if n == 0 {
			c.Bad("anchor:noexit:"+name, "?", "no exit of %s analysed", name)
		}
	}
	// value the pointer result designates
	deref := func(e *Engine, st *State, r *Term) *Term { return e.Load(st, r, f64) }
	for _, name := range []string{"GetPullMinScore", "GetPullMaxScore"} {
		explore(name, func(e *Engine, st *State, in Iv, x, r *Term) {
			w := name
			where := c.P.Pos(c.P.Func("internal/queue/score", name).Pos())
			if e.nilness(st, r) == 1 {
				c.Expect(in.within(0, 0), "no-filter-only-for-zero", w, where, "%s returns no filter for inputs in %s", name, in)
				return
			}
			c.Expect(!in.has(0), "zero-means-no-filter", w, where, "%s may return a filter for 0", name)
			v := deref(e, st, r)
			if v == x {
				in.NaN = false // a NaN request is outside the documented domain
				c.Expect(in.within(minT, maxT), "in-range-kept", w, where, "%s returns the request unchanged for inputs in %s", name, in)
				return
			}
			n, ok := v.Num()
			switch {
			case ok && n == maxT:
				c.Expect(in.NaN || in.Lo >= maxT, "max-only-above", w, where, "%s returns the maximum for inputs in %s", name, in)
			case ok && n == minT:
				c.Expect(in.NaN || in.Hi <= minT, "min-only-below", w, where, "%s returns the minimum for inputs in %s", name, in)
			default:
				c.Bad("other-result:"+w, where, "%s returns %s for inputs in %s", name, Canon(v), in)
			}
		})
	}
	explore("GetAddScore", func(e *Engine, st *State, in Iv, x, r *Term) {
		where := c.P.Pos(c.P.Func("internal/queue/score", "GetAddScore").Pos())
		iv := e.IvOf(st, r)
		if r == x {
			c.Expect(iv.within(minT, maxT) && !in.has(0), "in-range-kept", "GetAddScore", where, "GetAddScore returns the request unchanged for inputs in %s", in)
			return
		}
		n, ok := r.Num()
		switch {
		case ok && n == maxT:
			c.Expect(!in.NaN && in.Lo >= maxT, "max-only-above", "GetAddScore", where, "GetAddScore returns the maximum for inputs in %s", in)
		case ok && n == minT:
			c.Expect(in.Hi <= minT && !in.has(0) || in.NaN && in.numEmpty(), "min-only-below", "GetAddScore", where, "GetAddScore returns the minimum for inputs in %s", in)
		default:
			cn := Canon(r)
			c.Expect(in.within(0, 0) && strings.Contains(cn, "ime"), "default-only-for-zero", "GetAddScore", where, "GetAddScore returns %s for inputs in %s", cn, in)
		}
	})
	explore("IsUndefined", func(e *Engine, st *State, in Iv, x, r *Term) {
		where := c.P.Pos(c.P.Func("internal/queue/score", "IsUndefined").Pos())
		s1, s2 := st.clone(), st.clone()
		okT := e.Assume(s1, r, true)
		okF := e.Assume(s2, r, false)
		if okT {
			i := e.IvOf(s1, x)
			c.Expect(i.within(-1, -1), "undefined-iff-minus-one", "true", where, "IsUndefined is true for inputs in %s", i)
		}
		if okF {
			i := e.IvOf(s2, x)
			c.Expect(!i.has(-1), "undefined-iff-minus-one", "false", where, "IsUndefined may be false for -1")
		}
	})
	// default algorithm: current time in milliseconds
	fn := c.P.Func("internal/queue/score", "GetScoreByDefaultAlgorithm")
	if fn == nil {
		c.Bad("anchor:GetScoreByDefaultAlgorithm", "?", "GetScoreByDefaultAlgorithm not found")
		return
	}
	c.Explore(fn, &Opts{Opaque: func(f *ssa.Function) bool { return strings.HasSuffix(fnPkgPath(f), "/dtime") },
		OnExit: func(e *Engine, st *State, res []*Term) {
			src := stripConv(res[0])
			ci := st.mem[e.T.mk("callinfo", "", nil, src)]
			c.Expect(ci != nil && strings.HasSuffix(ci.Str, "dtime.NowMs"), "default-is-now-ms", "", c.P.Pos(fn.Pos()), "the default score is %s, not the current time in milliseconds", Canon(res[0]))
		}}, nil)
	_ = math.Inf
}

func runC07(c *Ctx) {
	fn := c.rpc("Flush")
	if fn == nil {
		return
	}
	seen := 0
	flagField := ""
	c.Explore(fn, &Opts{Event: roleEvents, OnEvent: func(e *Engine, st *State, ev *Event) {
		n := role(ev.Name)
		if n != "storage.Flush" && n != "cache.Flush" {
			return
		}
		seen++
		ok := false
		for t, f := range st.facts {
			if f.B == 1 && t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Args[0] == e.Param("$0", nil) {
				ok = true
				flagField = t.Args[0].Str
			}
		}
		c.Expect(ok, "flush-only-when-instance-flag-set", n, c.at(ev.Site), "%s is reached without the memory-instance flag being checked (%s)", n, e.trailStr(st))
	}, OnExit: func(e *Engine, st *State, res []*Term) {
		if len(evs(st, "storage.Flush", "cache.Flush")) > 0 {
			return
		}
		v := e.Load(st, e.fa(res[0], "Success", types.Typ[types.Bool]), types.Typ[types.Bool])
		c.Expect(e.Truth(st, v) == 2 || e.nilness(st, res[1]) == 2, "refused-flush-reports-no-success", "", c.P.Pos(fn.Pos()), "Flush may report success without having flushed (%s)", e.trailStr(st))
	}}, nil)
	if seen == 0 {
		c.Bad("anchor:flush", c.P.Pos(fn.Pos()), "the Flush RPC never reaches a flush operation")
		return
	}
	// nothing else reaches the flush operations
	allowed := c.P.reachable(fn)
	for _, pk := range c.P.Mod {
		if pk.SSA == nil {
			continue
		}
		for _, f := range allFuncs(pk.SSA) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := call.Common()
					name := ""
					if cc.IsInvoke() {
						name = role(cc.Method.FullName())
						if name == "" && cc.Method.Name() == "Flush" && strings.Contains(cc.Method.FullName(), "DeckardQueue") {
							name = "queue.Flush"
						}
					} else if g := cc.StaticCallee(); g != nil && g.Name() == "Flush" && g.Signature.Recv() != nil && strings.HasPrefix(fnPkgPath(g), c.P.ModPath+"/internal/") && !strings.HasSuffix(fnPkgPath(g), "/logger") {
						name = "queue.Flush"
					}
					if name != "storage.Flush" && name != "cache.Flush" && name != "queue.Flush" {
						continue
					}
					c.Expect(allowed[f] && callersWithin(c.P, f, fn), "flush-reachable-only-from-Flush-RPC", f.Name(), c.at(in), "%s is called in %s, which is not only reachable through the guarded Flush RPC", name, f)
				}
			}
		}
	}
	// the flag is set only from the constructor's argument
	t := c.server()
	for _, pk := range c.P.Mod {
		if pk.SSA == nil {
			continue
		}
		for _, f := range allFuncs(pk.SSA) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(deref(fa.X.Type()), deref(t)) || structOf(fa.X.Type()).Field(fa.Field).Name() != flagField {
						continue
					}
					_, isParam := s.Val.(*ssa.Parameter)
					cst, isConst := s.Val.(*ssa.Const)
					c.Expect(isParam || isConst && cst.Value != nil && cst.Value.String() == "false", "flag-set-from-constructor-argument", f.Name(), c.at(in), "the memory-instance flag is set to %s in %s", s.Val, f)
				}
			}
		}
	}
	// main: the service is built as a memory instance only under both MEMORY types
	mainFn := c.P.Func("internal/cmd/deckard", "main")
	if mainFn == nil {
		c.Bad("anchor:main", "?", "main not found")
		return
	}
	calls := 0
	for f := range c.P.reachable(mainFn) {
		if fnPkgPath(f) != c.P.ModPath+"/internal/cmd/deckard" {
			continue
		}
		hasCtor := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if g := call.Call.StaticCallee(); g != nil && g.Signature.Results().Len() > 0 && types.Identical(g.Signature.Results().At(0).Type(), t) {
						hasCtor = true
					}
				}
			}
		}
		if !hasCtor {
			continue
		}
		c.Explore(f, &Opts{OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if ci.Fn == nil || ci.Sig.Results().Len() == 0 || !types.Identical(ci.Sig.Results().At(0).Type(), t) || fnPkgPath(ci.Site.Parent()) != c.P.ModPath+"/internal/cmd/deckard" {
				return
			}
			calls++
			// is this call a memory instance? resolve the flag argument through the constructor
			mem := ctorFlag(c, e, st, ci, flagField)
			if mem == nil {
				c.Bad("ctor:"+ci.Name, c.at(ci.Site), "cannot tell whether %s builds a memory instance", ci.Name)
				return
			}
			s2 := st.clone()
			if !e.Assume(s2, mem, true) {
				c.OK("non-memory-constructor", ci.Name)
				return
			}
			need := map[string]bool{"CacheType": false, "StorageType": false}
			for x, fct := range s2.facts {
				if fct.SEq != nil && *fct.SEq == "MEMORY" {
					cn := Canon(x)
					for k := range need {
						if strings.Contains(cn, k) {
							need[k] = true
						}
					}
				}
			}
			c.Expect(need["CacheType"] && need["StorageType"], "memory-instance-only-when-both-memory", "", c.at(ci.Site), "a memory instance may be built although the cache and storage types are not both known to be MEMORY (%v; %s)", need, e.trailStr(st))
		}, Opaque: func(g *ssa.Function) bool {
			p := fnPkgPath(g)
			return p != c.P.ModPath+"/internal/cmd/deckard"
		}}, nil)
	}
	if calls == 0 {
		c.Bad("anchor:ctor", "internal/cmd/deckard", "main never builds the service")
	}
	_ = fmt.Sprint
}

// callTerm describes an opaque call result by the call that made it.
func callTerm(e *Engine, st *State, t *Term) *Term {
	if ci := st.mem[e.T.mk("callinfo", "", nil, t)]; ci != nil {
		return ci
	}
	return t
}

// callersWithin: every caller of f (transitively) is root or below it only.
func callersWithin(p *Program, f, root *ssa.Function) bool {
	rev := p.callers()
	seen := map[*ssa.Function]bool{}
	var walk func(x *ssa.Function) bool
	walk = func(x *ssa.Function) bool {
		if x == root || seen[x] {
			return true
		}
		seen[x] = true
		if len(rev[x]) == 0 {
			return false // an entry of its own
		}
		for _, y := range rev[x] {
			if !walk(y) {
				return false
			}
		}
		return true
	}
	return walk(f)
}

// ctorFlag evaluates the flag a constructor call will store.
func ctorFlag(c *Ctx, e *Engine, st *State, ci *CallInfo, field string) *Term {
	var out *Term
	sub := NewEngine(c.P, &Opts{Opaque: func(g *ssa.Function) bool { return !strings.HasSuffix(fnPkgPath(g), "/service") }})
	sub.T = e.T
	sub.O.OnExit = func(e2 *Engine, s2 *State, res []*Term) {
		out = e2.Load(s2, e2.fa(res[0], field, types.Typ[types.Bool]), types.Typ[types.Bool])
	}
	sub.Run(ci.Fn, func(s2 *State, args []*Term) {
		for i := range args {
			if i < len(ci.Args) {
				args[i] = ci.Args[i]
			}
		}
	})
	return out
}
