package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var qPkgs = []string{"internal/queue", "internal/queue/cache", "internal/queue/storage", "internal/queue/message", "internal/audit", "internal/shutdown"}

var str = types.Typ[types.String]
var i64 = types.Typ[types.Int64]

// pkgConst returns the string value of a package-level constant.
func (c *Ctx) pkgConst(pkg, name string) string {
	pk := c.P.Pkg(pkg)
	if pk != nil && pk.Types != nil {
		if k, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	c.Bad("anchor:const:"+name, pkg, "constant %s.%s not found", pkg, name)
	return "?" + name
}

// notStr: the facts exclude that t equals s.
func notStr(e *Engine, st *State, t *Term, s string) bool {
	n := st.clone()
	return !e.setStr(n, strip(t), s, true)
}

func isStr(t *Term, s string) bool {
	v, ok := strip(t).StrVal()
	return ok && v == s
}

func okEv(e *Engine, st *State, ev *Event) bool {
	return ev.Errs == nil || e.nilness(st, ev.Errs) == 1
}

func failedEv(e *Engine, st *State, ev *Event) bool {
	return ev.Errs != nil && e.nilness(st, ev.Errs) == 2
}

// same compares two values canonically (indices and iteration ignored).
func same(a, b *Term) bool { return Canon(stripConv(a)) == Canon(stripConv(b)) }

func canonSet(ts []*Term) string {
	m := map[string]bool{}
	for _, t := range ts {
		m[Canon(t)] = true
	}
	return strings.Join(sortedKeys(m), ",")
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// queueImpl is the application's queue type.
func (c *Ctx) queueMethod(name string) *ssa.Function {
	for _, t := range c.P.Impls("internal/queue", "DeckardQueue") {
		if fn := c.P.methodOf(t, name); fn != nil && len(fn.Blocks) > 0 {
			return fn
		}
	}
	c.Bad("anchor:queue."+name, "internal/queue", "no implementation of DeckardQueue.%s found", name)
	return nil
}

func (c *Ctx) queueFunc(name string) *ssa.Function {
	fn := c.P.Func("internal/queue", name)
	if fn == nil {
		c.Bad("anchor:queue."+name, "internal/queue", "function %s not found", name)
	}
	return fn
}

func init() {
	register(&Check{ID: "C11", Min: 20, Pkgs: svcPkgs,
		Technique: "Typestate dataflow over all paths of the Ack and Nack RPCs with value tracking of the message",
		Note:      "Each release (cache.LockMessage, cache.MakeAvailable) must follow a successful storage.Ack/Nack of the same message, once per path, in the pool that the lock time and the kind of request select; no operation happens for an empty queue or id; score and lock time are the ones given to storage; a success reply implies the release happened.",
		Run:       runC11})
	register(&Check{ID: "C12", Min: 14, Pkgs: svcPkgs,
		Technique: "Typestate dataflow over all paths of Remove, Ack and Nack with value tracking of queue and ids",
		Note:      "Each cache.Remove must follow a successful storage.Remove with the same queue and ids, which are the requested ones; replies carry the counts of the two layers; an ack/nack removal happens only after a successful release and only when requested, and is reported.",
		Run:       runC12})
}

func runC11(c *Ctx) {
	for _, r := range []string{"Ack", "Nack"} {
		fn := c.rpc(r)
		if fn == nil {
			continue
		}
		n := map[string]int{}
		lockWant := c.pkgConst("internal/queue/cache", map[string]string{"Ack": "LOCK_ACK", "Nack": "LOCK_NACK"}[r])
		c.Explore(fn, &Opts{Event: roleEvents,
			KeepEvent: func(ev *Event) bool {
				x := role(ev.Name)
				return x == "storage."+r || x == "cache.LockMessage" || x == "cache.MakeAvailable"
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				name := role(ev.Name)
				isStore := name == "storage.Ack" || name == "storage.Nack"
				isRel := name == "cache.LockMessage" || name == "cache.MakeAvailable"
				if !isStore && !isRel {
					return
				}
				key := r + ":" + name
				n[name]++
				m := ev.Args[2]
				id, q := c.msgField(e, st, m, "ID", str), c.msgField(e, st, m, "Queue", str)
				sc, lk := c.msgField(e, st, m, "Score", f64), c.msgField(e, st, m, "LockMs", i64)
				c.Expect(notStr(e, st, id, "") && notStr(e, st, q, ""), "nothing-happens-for-an-empty-id-or-queue", key, c.at(ev.Site), "%s: %s may be called for a message without id or queue (%s)", r, name, e.trailStr(st))
				c.Expect(Canon(id) == "$2.Id" && Canon(q) == "$2.Queue", "the-requested-message", key, c.at(ev.Site), "%s: %s is called for message %s of queue %s, not for the requested one", r, name, Canon(id), Canon(q))
				sig := Canon(sc) + "|" + Canon(lk)
				if isStore {
					c.Expect(name == "storage."+r, "storage-records-the-same-kind", key, c.at(ev.Site), "%s records %s", r, name)
					st.ghost["sig"] = sig
					return
				}
				stored := false
				for _, s := range evs(st, "storage."+r) {
					if okEv(e, st, s) {
						stored = true
					}
				}
				c.Expect(stored, "storage-before-cache", key, c.at(ev.Site), "%s: %s is reached without a successful storage.%s (%s)", r, name, r, e.trailStr(st))
				rel := 0
				for _, x := range evs(st, "cache.LockMessage", "cache.MakeAvailable") {
					if x != ev {
						rel++
					}
				}
				c.Expect(rel == 0, "released-once", key, c.at(ev.Site), "%s: the message may be released twice (%s)", r, e.trailStr(st))
				if stored {
					c.Expect(st.ghost["sig"] == sig, "same-score-and-lock-in-storage-and-cache", key, c.at(ev.Site), "%s: score and lock time are %s in storage but %s in %s (%s)", r, st.ghost["sig"], sig, name, e.trailStr(st))
				}
				lock := e.IvOf(st, reqField(e, "LockMs"))
				if name == "cache.LockMessage" {
					c.Expect(lock.Lo >= 1, "locked-only-with-a-lock-time", key, c.at(ev.Site), "%s: the message is locked although lock_ms may be %s", r, lock)
					c.Expect(Canon(lk) == "$2.LockMs", "lock-time-is-the-requested-one", key, c.at(ev.Site), "%s: the message is locked for %s", r, Canon(lk))
					c.Expect(isStr(ev.Args[3], lockWant), "own-lock-pool", key, c.at(ev.Site), "%s: the message goes to lock pool %s, not %s", r, Canon(ev.Args[3]), lockWant)
				} else {
					c.Expect(lock.Hi <= 0, "available-only-without-lock-time", key, c.at(ev.Site), "%s: the message is made available although lock_ms may be %s", r, lock)
				}
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				if e.nilness(st, res[1]) == 2 {
					return
				}
				ok := false
				for _, x := range evs(st, "cache.LockMessage", "cache.MakeAvailable") {
					if okEv(e, st, x) {
						ok = true
					}
				}
				c.Expect(ok, "success-means-released", r, c.P.Pos(fn.Pos()), "%s may succeed without having released the message (%s)", r, e.trailStr(st))
			}}, nil)
		for _, k := range []string{"storage." + r, "cache.LockMessage", "cache.MakeAvailable"} {
			if n[k] == 0 {
				c.Bad("anchor:"+r+":"+k, c.P.Pos(fn.Pos()), "%s never reaches %s", r, k)
			}
		}
	}
}

func runC12(c *Ctx) {
	n := map[string]int{}
	for _, r := range []string{"Remove", "Ack", "Nack"} {
		fn := c.rpc(r)
		if fn == nil {
			continue
		}
		wantIDs := "$2.Ids[*]"
		if r != "Remove" {
			wantIDs = "$2.Id"
		}
		c.Explore(fn, &Opts{Event: roleEvents,
			KeepEvent: func(ev *Event) bool { return !strings.HasPrefix(role(ev.Name), "audit.") },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				name := role(ev.Name)
				if name != "storage.Remove" && name != "cache.Remove" {
					return
				}
				key := r + ":" + name
				n[key]++
				ids := canonSet(e.Elems(st, ev.Args[3]))
				c.Expect(Canon(ev.Args[2]) == "$2.Queue" && ids == wantIDs, "exactly-the-requested-ids", key, c.at(ev.Site), "%s: %s is called with queue %s and ids %s", r, name, Canon(ev.Args[2]), ids)
				c.Expect(r != "Remove" || wholeSlice(e, st, ev.Args[3]), "all-the-requested-ids", key, c.at(ev.Site), "%s: %s is called with only a part of the ids (%s)", r, name, ev.Args[3])
				prev := evs(st, name)
				c.Expect(len(prev) <= 1, "removed-once", key, c.at(ev.Site), "%s: %s may run twice (%s)", r, name, e.trailStr(st))
				if name == "cache.Remove" {
					ok := false
					for _, s := range evs(st, "storage.Remove") {
						if okEv(e, st, s) {
							ok = true
						}
					}
					c.Expect(ok, "storage-before-cache", key, c.at(ev.Site), "%s: cache.Remove is reached without a successful storage.Remove (%s)", r, e.trailStr(st))
				}
				if r != "Remove" {
					rel, asked := false, e.Truth(st, reqField(e, "RemoveMessage")) == 1
					for _, s := range evs(st, "cache.LockMessage", "cache.MakeAvailable") {
						if okEv(e, st, s) {
							rel = true
						}
					}
					c.Expect(rel, "removed-after-successful-"+strings.ToLower(r), key, c.at(ev.Site), "%s: the message may be removed although the %s did not succeed (%s)", r, strings.ToLower(r), e.trailStr(st))
					c.Expect(asked, "removed-only-when-requested", key, c.at(ev.Site), "%s: the message may be removed without remove_message (%s)", r, e.trailStr(st))
				}
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				if e.nilness(st, res[1]) == 2 {
					return
				}
				out := res[0]
				where := c.P.Pos(fn.Pos())
				removed := len(evs(st, "storage.Remove", "cache.Remove")) == 2
				if r != "Remove" {
					asked := e.Truth(st, reqField(e, "RemoveMessage"))
					c.Expect(removed || asked == 2, "a-requested-removal-happens", r, where, "%s may succeed without the requested removal (%s)", r, e.trailStr(st))
					out = e.Load(st, e.fa(res[0], "RemovalResponse", nil), types.Typ[types.Int])
					if !removed {
						return
					}
				}
				for _, f := range [][2]string{{"CacheRemoved", "cache.Remove"}, {"StorageRemoved", "storage.Remove"}} {
					v := e.Load(st, e.fa(out, f[0], i64), i64)
					if !removed {
						k, isN := v.Num()
						c.Expect(isN && k == 0 && emptyLen(e, st, e.T.mk("load", "", nil, e.fa(e.Param("$2", nil), "Ids", nil))), "nothing-removed-only-for-no-ids", r+":"+f[0], where, "%s may succeed without removing the given ids (%s)", r, e.trailStr(st))
						continue
					}
					c.Expect(Canon(stripConv(v)) == f[1]+"#0", "reply-carries-the-layer's-count", r+":"+f[0], where, "%s: %s of the reply is %s, not the count of %s", r, f[0], Canon(v), f[1])
				}
			}}, nil)
		for _, k := range []string{"storage.Remove", "cache.Remove"} {
			if n[r+":"+k] == 0 {
				c.Bad("anchor:"+r+":"+k, c.P.Pos(fn.Pos()), "%s never reaches %s", r, k)
			}
		}
	}
	_ = fmt.Sprint
}

// wholeSlice: the slice is not a fixed part of another one.
func wholeSlice(e *Engine, st *State, s *Term) bool {
	s = strip(s)
	if s.Op == "slice" && s.Str != "full" {
		return false
	}
	for _, x := range e.Elems(st, s) {
		b := strip(x)
		if b.Op == "load" && b.Args[0].Op == "ia" && b.Args[0].Args[1].IsConst() && !b.Args[0].Args[0].Local {
			return false
		}
	}
	return true
}
