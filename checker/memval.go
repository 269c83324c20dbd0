package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func mentionsNow(t *Term) bool {
	if t.Op == "call" && isNow(t) {
		return true
	}
	for _, a := range t.Args {
		if mentionsNow(a) {
			return true
		}
	}
	return false
}

// runValues decides C25 and C26: the scores and deadlines with which the operations insert entries in the pools.
func (o *memOp) runValues() {
	c := o.c
	switch o.name {
	case "Insert", "MakeAvailable", "PullMessages", "TimeoutMessages", "LockMessage", "UnlockMessages":
	default:
		return
	}
	h := &listHooks{c: c, insert: func(e *Engine, st *State, l, ent *Term, how string, mark *Term, site ssa.Instruction) {
		pool, _ := o.poolOf(e, st, l)
		if pool == "" {
			st.mem[mlk(e, "held", l)] = ent
			return
		}
		o.values(e, st, ent, pool, site)
	}}
	kinds := []string{""}
	if o.lockT >= 0 {
		kinds = []string{"lock_ack", "lock_nack"}
	}
	for _, kind := range kinds {
		o.kind = kind
		c.Explore(o.fn, &Opts{NoEscape: true, Model: listModel(h, nil),
			OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
				pool := o.m.pool[o.fieldOfMap(m)]
				if pool == "" || kind != "update" {
					return
				}
				nw := strip(v)
				if p, _ := o.poolOf(e, st, nw); p != "" || nw.IsNil() {
					return
				}
				st.mem[mlk(e, "pool", nw)] = e.T.mk("tuple", "", nil, e.T.S(pool), strip(k))
				if held := st.mem[mlk(e, "held", nw)]; held != nil {
					delete(st.mem, mlk(e, "held", nw))
					o.values(e, st, held, pool, site)
				}
			},
			OnGC: func(e *Engine, st *State, live map[*Term]bool) {
				dead := func(t *Term) bool {
					for _, r := range t.roots {
						if !live[r] {
							return true
						}
					}
					return false
				}
				for a := range st.mem {
					if !strings.HasPrefix(a.Op, "ml:") || len(a.Args) == 0 {
						continue
					}
					switch a.Op {
					case "ml:pool", "ml:held", "ml:of":
						if !dead(a.Args[0]) {
							continue
						}
					}
					delete(st.mem, a)
				}
			}}, func(st *State, args []*Term) {
			if kind != "" {
				st.facts[args[o.lockT]] = Fact{SEq: &kind}
			}
		})
		want := "primary_pool"
		if o.name == "PullMessages" {
			want = "processing_pool"
		}
		if o.name == "LockMessage" {
			want = kind + "_pool"
		}
		o.expect(o.id, o.moved[want+kind], "operation-inserts-entries", kind, c.P.Pos(o.fn.Pos()), "%s never inserts an entry in %s", o.name, want)
	}
}

func (o *memOp) values(e *Engine, st *State, ent *Term, pool string, site ssa.Instruction) {
	c := o.c
	where := c.at(site)
	o.moved[pool+o.kind] = true
	sc := stripNum(o.fieldOf(e, st, ent, o.m.score))
	id := strip(o.fieldOf(e, st, ent, o.m.id))
	raw := o.raw(e, ent, o.m.score)
	old := strip(ent).Op == "ta"
	tr := e.trailStr(st)
	ofMsg := func(t *Term, f string) (*Term, bool) {
		t = stripNum(strip(t))
		if t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Str == f {
			return strip(t.Args[0].Args[0]), true
		}
		return nil, false
	}
	// a message's own score, for its own id
	own := func(single bool) bool {
		m, ok := ofMsg(sc, "Score")
		m2, ok2 := ofMsg(id, "ID")
		if !ok || !ok2 || m != m2 {
			return false
		}
		if single {
			return m == o.p(e, o.msg)
		}
		return mentions(m, o.p(e, o.msg))
	}
	deadline := func(t *Term) (bool, string) {
		op := &rop{name: o.name, msg: o.msg}
		r := &rds{c: c, id: o.id, op: op, pullDead: o.dead}
		d := &deadlineOp{c: c, r: r, now: func(t *Term) bool { return isNow(stripNum(t)) }}
		if o.name == "LockMessage" {
			d.dur = func(x *Term) bool { m, ok := ofMsg(x, "LockMs"); return ok && m == o.p(e, o.msg) }
		} else {
			p := o.p(e, o.dead)
			d.dur = func(x *Term) bool { return stripConv(x) == p }
			d.dflt = func(e *Engine, st *State, x *Term) int { return r.dfltDeadline(e, st, p, x) }
		}
		return d.check(e, st, t)
	}
	switch o.name {
	case "Insert":
		if pool == "primary_pool" {
			o.expect("C25", own(false), "inserted-with-its-score", "", where, "Insert gives an entry the score %s instead of that of its message (%s)", Canon(sc), tr)
		}
	case "MakeAvailable":
		if pool == "primary_pool" {
			o.expect("C25", own(true), "available-with-its-score", "", where, "MakeAvailable gives the entry the score %s instead of that of the message (%s)", Canon(sc), tr)
		}
	case "PullMessages":
		switch pool {
		case "processing_pool":
			ok, why := deadline(sc)
			o.expect("C26", ok, "deadline-is-now-plus-duration", "", where, "PullMessages: the deadline of the message is %s %s (%s)", Canon(sc), why, tr)
		case "primary_pool":
			o.expect("C25", old && sc == stripNum(raw), "put-back-with-its-score", "", where, "PullMessages puts an entry back with score %s (%s)", Canon(sc), tr)
		}
	case "TimeoutMessages":
		if pool == "primary_pool" {
			n, ok := sc.Num()
			o.expect("C25", ok && n == 0, "timed-out-with-minimum-score", "", where, "a timed-out message returns with score %s (%s)", Canon(sc), tr)
		} else {
			o.expect("C26", sc == stripNum(raw), "deadlines-stay", "", where, "TimeoutMessages changes the deadline of a message to %s (%s)", Canon(sc), tr)
		}
	case "LockMessage":
		if pool == "processing_pool" {
			o.expect("C26", old && sc == stripNum(raw), "deadlines-stay", "", where, "LockMessage changes the deadline of a message to %s (%s)", Canon(sc), tr)
			return
		}
		o.expect("C25", own(true), "lock-keeps-the-promised-score", "", where, "LockMessage keeps the score %s (%s)", Canon(sc), tr)
		if o.m.lock != "" {
			lu := stripNum(o.fieldOf(e, st, ent, o.m.lock))
			ok, why := deadline(lu)
			o.expect("C26", ok, "deadline-is-now-plus-duration", "", where, "LockMessage: the deadline of the message is %s %s (%s)", Canon(lu), why, tr)
		}
	case "UnlockMessages":
		if pool != "primary_pool" {
			o.expect("C25", old && sc == stripNum(raw), "kept-scores-stay", "", where, "UnlockMessages changes the score of a locked message to %s (%s)", Canon(sc), tr)
			return
		}
		undef := e.Truth(st, e.Eq(raw, e.T.Const(floatConst(-1), types.Typ[types.Float64])))
		if undef == 0 {
			if iv := e.IvOf(st, raw); !iv.NaN && iv.within(-1, -1) {
				undef = 1
			} else if !iv.has(-1) {
				undef = 2
			}
		}
		if sc == stripNum(raw) {
			o.expect("C25", old && undef == 2, "undefined-score-is-replaced", o.kind, where, "an unlocked message may return with the marker of an undefined score as its score (%s)", tr)
			return
		}
		o.expect("C25", undef == 1, "promised-score-is-kept", o.kind, where, "an unlocked message returns with score %s instead of the one it was locked with (%s)", Canon(sc), tr)
		if o.kind == "lock_ack" {
			o.expect("C25", isNow(sc), "default-score-of-the-lock", o.kind, where, "a message locked by ack without a score returns with %s instead of the current time (%s)", Canon(sc), tr)
		} else {
			n, ok := sc.Num()
			o.expect("C25", ok && n == 0, "default-score-of-the-lock", o.kind, where, "a message locked by nack without a score returns with %s instead of the minimum (%s)", Canon(sc), tr)
		}
	}
}

func floatConst(f float64) constant.Value { return constant.MakeFloat64(f) }
