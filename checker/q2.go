package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13", Min: 12, Pkgs: qPkgs,
		Technique: "Path-sensitive dataflow with evidence tags: every id that reaches cache.Remove must carry a failed membership test against both storage reads",
		Note:      "All paths of the queue's Pull: options of both storage.Find calls (queue, ids, limit, retry), evidence carried by each id from the two reads to cache.Remove, completeness of the membership set, failure handling, and provenance of the returned messages.",
		Run:       runC13})
	register(&Check{ID: "C17", Min: 25, Pkgs: qPkgs,
		Technique: "Typestate dataflow: each audit entry against the operation it reports, on all paths of the queue operations",
		Note:      "For each auditor.Store on any path: signal constant, id and queue provenance, and success of the operations reported; conversely every successful operation path stores exactly one entry per affected id (loop iterations that skip or repeat an entry are reported).",
		Run:       runC17})
}

// loopWatch reports iterations over a watched collection that complete without doing a thing.
type loopWatch struct {
	key     string
	is      func(e *Engine, st *State, coll *Term) bool
	doers   map[*ssa.Function]bool
	pending []finding
	pendFn  []*ssa.Function
}

func (w *loopWatch) load(e *Engine, st *State, addr *Term, site ssa.Instruction) {
	for addr.Op == "fa" {
		addr = addr.Args[0]
	}
	if addr.Op != "ia" || !w.is(e, st, addr.Args[0]) {
		return
	}
	f := st.top()
	if !e.P.liveFor(f.fn).cyc[f.block] {
		return
	}
	if st.ghost[w.key] == "" {
		st.ghost[w.key] = f.ctx
	}
}

func (w *loopWatch) done(st *State) bool {
	for _, f := range st.frames {
		w.doers[f.fn] = true
	}
	dup := st.ghost[w.key] == "done"
	st.ghost[w.key] = "done"
	return dup
}

func (w *loopWatch) header(e *Engine, st *State, b *ssa.BasicBlock, back bool, c *Ctx, rule, msg string) {
	f := st.top()
	if back && st.ghost[w.key] == f.ctx {
		w.pending = append(w.pending, finding{rule + ":" + f.fn.Name(), c.P.Pos(f.fn.Pos()), msg + " (" + e.trailStr(st) + ")"})
		w.pendFn = append(w.pendFn, f.fn)
	}
	if back || st.ghost[w.key] != "" {
		delete(st.ghost, w.key)
	}
}

func (w *loopWatch) flush(c *Ctx, rule string) {
	for i, p := range w.pending {
		if w.doers[w.pendFn[i]] {
			c.Bad(p.key, p.where, "%s", p.msg)
		}
	}
	if len(w.doers) > 0 {
		c.OK(rule, w.key)
	}
}

// optField reads a field of a *FindOptions argument.
func optField(e *Engine, st *State, p *Term, path ...string) *Term {
	for _, f := range path[:len(path)-1] {
		p = e.Load(st, e.fa(p, f, nil), types.NewPointer(types.NewStruct(nil, nil)))
	}
	f := path[len(path)-1]
	return e.Load(st, e.fa(p, f, nil), types.Typ[types.Int])
}

func runC13(c *Ctx) {
	fn := c.queueMethod("Pull")
	if fn == nil {
		return
	}
	finds, removes, rets := 0, 0, 0
	w := &loopWatch{key: "w13", doers: map[*ssa.Function]bool{}, is: func(e *Engine, st *State, x *Term) bool { return Canon(x) == "storage.Find#0" }}
	evid := func(e *Engine, st *State, id *Term) map[int]bool {
		out := map[int]bool{}
		for k, f := range evs(st, "storage.Find") {
			if st.ghost["nl:ev"] == itoa(id.ID)+":"+itoa(k) {
				out[k] = true
			}
			res := e.ext(f.Res, 0, nil)
			for t := range st.facts {
				if t.Op == "len" && strip(t.Args[0]).hasRoot(f.Res) && e.IvOf(st, t).Hi <= 0 {
					out[k] = true
				}
			}
			_ = res
			for t, fc := range st.facts {
				if fc.B != 2 {
					continue
				}
				switch {
				case t.Op == "has" && strip(t.Args[1]) == id:
					keys := e.mapKeys(st, t.Args[0])
					ok := len(keys) > 0
					for _, kk := range keys {
						if !kk.hasRoot(f.Res) || Canon(kk) != "storage.Find#0[*].ID" {
							ok = false
						}
					}
					if ok {
						out[k] = true
					}
				case t.Op == "eq" && len(t.Args) == 2:
					a, b := strip(t.Args[0]), strip(t.Args[1])
					if b == id {
						a, b = b, a
					}
					if a == id && b.hasRoot(f.Res) && Canon(b) == "storage.Find#0[*].ID" {
						out[k] = true
					}
				}
			}
		}
		return out
	}
	tags := func(t *Term) map[string]bool {
		out := map[string]bool{}
		for t.Op == "nf" || t.Op == "iface" {
			if t.Op == "nf" {
				for _, x := range strings.Split(t.Str, "") {
					out[x] = true
				}
			}
			t = t.Args[0]
		}
		return out
	}
	c.Explore(fn, &Opts{Event: roleEvents,
		KeepEvent: func(ev *Event) bool { return !strings.HasPrefix(role(ev.Name), "audit.") },
		OnLoad:    func(e *Engine, st *State, addr *Term, site ssa.Instruction) { w.load(e, st, addr, site) },
		OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
			mk := "del:" + itoa(strip(m).ID)
			switch {
			case kind == "update" && Canon(k) == "storage.Find#0[*].ID":
				w.done(st)
			case kind == "delete" && Canon(k) == "storage.Find#0[*].ID":
				// the ids found are taken out of the set
				w.done(st)
				for i, f := range evs(st, "storage.Find") {
					if k.hasRoot(f.Res) {
						st.ghost[mk] = itoa(i)
					}
				}
			case kind == "update":
				delete(st.ghost, mk)
			case kind == "key" && st.ghost[mk] != "":
				st.ghost["nl:ev"] = itoa(strip(k).ID) + ":" + st.ghost[mk]
			}
		},
		OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
			// a search through everything found ends without a match
			if h := st.ghost["nl:h"]; h != "" && h == itoa(x.Block().Index)+"@"+st.top().ctx && !want && !strings.HasPrefix(st.ghost["nl:all"], "!") {
				st.ghost["nl:ev"] = st.ghost["nl:all"]
			}
			return true
		},
		OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
			here := itoa(b.Index) + "@" + st.top().ctx
			if !back || st.ghost["nl:h"] != here {
				for _, k := range []string{"nl:h", "nl:all", "nl:ev"} {
					delete(st.ghost, k)
				}
			}
			if back {
				// the element of this iteration was compared with the id in vain
				ne := "!"
				for t, fc := range st.facts {
					if t.Op != "eq" || fc.B != 2 || len(t.Args) != 2 {
						continue
					}
					x, y := strip(t.Args[0]), strip(t.Args[1])
					if Canon(x) == "storage.Find#0[*].ID" {
						x, y = y, x
					}
					if Canon(y) != "storage.Find#0[*].ID" || Canon(x) != "cache.PullMessages#0[*]" {
						continue
					}
					for i, f := range evs(st, "storage.Find") {
						if y.hasRoot(f.Res) {
							ne = itoa(x.ID) + ":" + itoa(i)
						}
					}
				}
				if o := st.ghost["nl:all"]; o != "" && o != ne {
					ne = "!"
				}
				st.ghost["nl:h"], st.ghost["nl:all"] = here, ne
			}
			w.header(e, st, b, back, c, "found-set-complete", "a found message may be left out of the set that decides what is missing")
		},
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			for i, x := range elems {
				b := strip(x)
				if Canon(b) != "cache.PullMessages#0[*]" || b.Op == "elems" {
					continue
				}
				tg := ""
				ev := evid(e, st, b)
				for k := 0; k < 4; k++ {
					if ev[k] || tags(x)[string(rune('0'+k))] {
						tg += string(rune('0' + k))
					}
				}
				if tg != "" {
					n := e.T.mk("nf", tg, b.Typ, b)
					n.Typ = b.Typ
					elems[i] = n
				}
			}
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			switch role(ev.Name) {
			case "storage.Find":
				finds++
				o := ev.Args[2]
				nth := len(evs(st, "storage.Find")) // this one included
				key := map[int]string{1: "first", 2: "retry"}[nth]
				if nth > 2 {
					c.Bad("reads:"+c.fnOf(ev.Site), c.at(ev.Site), "Pull may read storage %d times", nth)
					return
				}
				q := optField(e, st, o, "InternalFilter", "Queue")
				c.Expect(Canon(q) == "$2", "read-of-the-pulled-queue", key, c.at(ev.Site), "the %s storage read is for queue %s", key, Canon(q))
				idp := optField(e, st, o, "InternalFilter", "Ids")
				ids := e.Load(st, idp, types.NewSlice(str))
				lim := stripConv(optField(e, st, o, "Limit"))
				k, isN := lim.Num()
				c.Expect(isN && k == 0 || lim == e.Len(ids), "limit-does-not-cut-the-read", key, c.at(ev.Site), "the %s storage read asks for ids %s with limit %s", key, Canon(ids), Canon(lim))
				retry := optField(e, st, o, "Retry")
				if nth == 1 {
					c.Expect(Canon(ids) == "cache.PullMessages#0", "first-read-covers-all-pulled-ids", key, c.at(ev.Site), "the first storage read asks for %s", Canon(ids))
				} else {
					b, isB := retry.Bool()
					c.Expect(isB && b, "second-read-is-the-retry-read", key, c.at(ev.Site), "the second storage read does not ask for a retry read")
					ok := true
					for _, x := range e.Elems(st, ids) {
						if Canon(x) != "cache.PullMessages#0[*]" {
							ok = false
						}
					}
					c.Expect(ok, "second-read-covers-the-missing-ids", key, c.at(ev.Site), "the second storage read asks for %s", canonSet(e.Elems(st, ids)))
				}
			case "cache.Remove":
				removes++
				fs := evs(st, "storage.Find")
				ok := len(fs) == 2 && okEv(e, st, fs[0]) && okEv(e, st, fs[1])
				c.Expect(ok, "removed-only-after-two-successful-reads", "", c.at(ev.Site), "ids are removed from the cache after %d storage reads (%s)", len(fs), e.trailStr(st))
				c.Expect(Canon(ev.Args[2]) == "$2", "removed-from-the-pulled-queue", "", c.at(ev.Site), "ids are removed from queue %s", Canon(ev.Args[2]))
				for _, x := range e.Elems(st, ev.Args[3]) {
					tg := tags(x)
					c.Expect(Canon(x) == "cache.PullMessages#0[*]" && tg["1"], "removed-only-if-missing-from-both-reads", "", c.at(ev.Site), "an id (%s) that was not looked up in vain in the retry read may be removed from the cache (%s)", Canon(x), e.trailStr(st))
				}
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			where := c.P.Pos(fn.Pos())
			for _, ev := range evs(st, "storage.Find", "cache.PullMessages") {
				if failedEv(e, st, ev) {
					c.Expect(e.nilness(st, res[1]) == 2, "failed-read-fails-the-pull", role(ev.Name), where, "Pull may succeed after %s failed", role(ev.Name))
				}
			}
			if e.nilness(st, res[1]) == 2 || e.nilness(st, res[0]) == 1 {
				return
			}
			ms := e.Load(st, res[0], types.NewSlice(types.Typ[types.Int]))
			for _, x := range e.Elems(st, ms) {
				rets++
				c.Expect(Canon(x) == "storage.Find#0[*]", "returns-only-stored-messages", "", where, "Pull may return %s", Canon(x))
			}
		}}, nil)
	w.flush(c, "found-set-complete")
	if finds == 0 || removes == 0 || rets == 0 {
		c.Bad("anchor:pull", c.P.Pos(fn.Pos()), "Pull: %d reads, %d removals, %d results recognised", finds, removes, rets)
	}
}

func runC17(c *Ctx) {
	sig := map[string]string{}
	for _, s := range []string{"ACK", "NACK", "TIMEOUT", "REMOVE", "UNLOCK", "INSERT_CACHE", "MISSING_STORAGE"} {
		v := c.pkgConst("internal/audit", s)
		if o, dup := sig[v]; dup {
			c.Bad("signals-distinct:"+s, "internal/audit", "signals %s and %s share the value %q", o, s, v)
		}
		sig[v] = s
		c.OK("signals-distinct", s)
	}
	type entry struct {
		name   string
		fn     *ssa.Function
		signal string
		ops    []string // operations that must have succeeded
		id     string   // canonical id
		coll   string   // watched collection
	}
	var es []entry
	for _, x := range []entry{
		{name: "Ack", signal: "ACK", id: "$2.ID", ops: []string{"storage.Ack", "cache.LockMessage|cache.MakeAvailable"}},
		{name: "Nack", signal: "NACK", id: "$2.ID", ops: []string{"storage.Nack", "cache.LockMessage|cache.MakeAvailable"}},
		{name: "TimeoutMessages", signal: "TIMEOUT", id: "cache.TimeoutMessages#0[*]", coll: "cache.TimeoutMessages#0", ops: []string{"cache.TimeoutMessages"}},
		{name: "AddMessagesToCache", signal: "INSERT_CACHE", id: "cache.Insert#0[*]", coll: "cache.Insert#0", ops: []string{"cache.Insert"}},
		{name: "Remove", signal: "REMOVE", id: "$4[*]", coll: "$4", ops: []string{"storage.Remove", "cache.Remove"}},
		{name: "Pull", signal: "MISSING_STORAGE", id: "cache.PullMessages#0[*]", ops: []string{"storage.Find"}},
	} {
		x.fn = c.queueMethod(x.name)
		es = append(es, x)
	}
	es = append(es, entry{name: "ProcessLockPool", fn: c.queueFunc("ProcessLockPool"), signal: "UNLOCK", id: "cache.UnlockMessages#0[*]", coll: "cache.UnlockMessages#0", ops: []string{"cache.UnlockMessages"}})
	for _, x := range es {
		x := x
		if x.fn == nil {
			continue
		}
		seen := 0
		w := &loopWatch{key: "w17", doers: map[*ssa.Function]bool{}, is: func(e *Engine, st *State, t *Term) bool { return x.coll != "" && Canon(t) == x.coll }}
		opMatch := func(r string) string {
			for _, o := range x.ops {
				for _, a := range strings.Split(o, "|") {
					if a == r {
						return o
					}
				}
			}
			return ""
		}
		where := c.P.Pos(x.fn.Pos())
		c.Explore(x.fn, &Opts{Event: roleEvents,
			KeepEvent: func(ev *Event) bool {
				r := role(ev.Name)
				if x.name == "ProcessLockPool" || x.name == "AddMessagesToCache" {
					return false
				}
				return opMatch(r) != ""
			},
			OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) { w.load(e, st, addr, site) },
			OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				w.header(e, st, b, back, c, "audit-every-affected-id", x.name+": an affected id may get no audit entry")
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				r := role(ev.Name)
				if opMatch(r) != "" {
					// facts about the newest occurrence of each operation
					st.ghost["op:"+opMatch(r)] = ev.Name
					if len(ev.Args) > 2 {
						q := Canon(ev.Args[2])
						if x.name == "Ack" || x.name == "Nack" {
							q = Canon(c.msgField(e, st, ev.Args[2], "Queue", str))
						}
						if r != "storage.Find" {
							st.ghost["q"] = q
						}
					}
					delete(st.ghost, "aud")
					return
				}
				if r != "audit.Store" {
					return
				}
				seen++
				en := ev.Args[2]
				sv, ok := e.field(en, "Signal", str).StrVal()
				c.Expect(ok && sig[sv] == x.signal, "own-signal", x.name, c.at(ev.Site), "%s records signal %q, not %s", x.name, sv, x.signal)
				id, q := e.field(en, "ID", str), e.field(en, "Queue", str)
				c.Expect(Canon(id) == x.id, "audit-names-the-affected-message", x.name, c.at(ev.Site), "%s: the audit entry names %s, not %s", x.name, Canon(id), x.id)
				wq := st.ghost["q"]
				if x.name == "Pull" {
					wq = "$2"
				}
				c.Expect(Canon(q) == wq, "audit-names-the-queue", x.name, c.at(ev.Site), "%s: the audit entry names queue %s, the operation was on %s", x.name, Canon(q), wq)
				for _, o := range x.ops {
					good := st.ghost["op:"+o] != ""
					for _, oe := range st.events {
						if opMatch(role(oe.Name)) == o && !okEv(e, st, oe) {
							good = false
						}
					}
					// the newest result is the one whose error the facts must exclude
					for t, f := range st.facts {
						if f.Nil == 2 && isErrT(t.Typ) && !strings.Contains(t.String(), "~") {
							for _, a := range strings.Split(o, "|") {
								if cn := Canon(t); cn == a || strings.HasPrefix(cn, a+"#") {
									good = false
								}
							}
						}
					}
					c.Expect(good, "audited-only-after-success", x.name+":"+o, c.at(ev.Site), "%s: the entry is recorded although %s may not have succeeded (%s)", x.name, o, e.trailStr(st))
				}
				if x.coll != "" {
					dup := w.done(st)
					c.Expect(!dup, "one-entry-per-id", x.name, c.at(ev.Site), "%s: an id may be audited twice", x.name)
				} else if x.name != "Pull" {
					c.Expect(st.ghost["aud"] == "", "one-entry-per-id", x.name, c.at(ev.Site), "%s: the message may be audited twice", x.name)
				}
				st.ghost["aud"] = "1"
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				if len(res) > 0 && e.nilness(st, res[len(res)-1]) == 2 {
					return
				}
				switch x.name {
				case "Ack", "Nack":
					c.Expect(st.ghost["aud"] == "1", "success-is-audited", x.name, where, "%s may succeed without an audit entry (%s)", x.name, e.trailStr(st))
				case "TimeoutMessages":
					for _, ev := range evs(st, "cache.TimeoutMessages") {
						n := st.clone()
						l := e.Len(e.ext(ev.Res, 0, types.NewSlice(str)))
						some := e.setIv(n, l, Iv{Lo: 1, Hi: 1e18, Int: true})
						c.Expect(st.ghost["aud"] == "1" || !some, "success-is-audited", x.name, where, "%s may time messages out without an audit entry (%s)", x.name, e.trailStr(st))
					}
				case "Remove":
					n := st.clone()
					some := e.setIv(n, e.Len(e.Param("$4", nil)), Iv{Lo: 1, Hi: 1e18, Int: true})
					c.Expect(st.ghost["aud"] == "1" || !some, "success-is-audited", x.name, where, "%s may remove messages without an audit entry (%s)", x.name, e.trailStr(st))
				}
			}}, nil)
		w.flush(c, "audit-every-affected-id")
		if seen == 0 {
			c.Bad("anchor:"+x.name, where, "%s records no audit entry", x.name)
		}
	}
}
