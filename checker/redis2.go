package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rcall struct {
	r    *rds
	e    *Engine
	st   *State
	slot string
	keys []*rkeyd
	args []*Term
	dyn  *rdyn
	site ssa.Instruction
	run  *luaRun
	cur  *lstate
}

// lmem is one member a script adds to, or removes from, a sorted set.
type lmem struct {
	cmd    string
	key    *rkeyd
	kname  string // the key as the script names it
	score  *lv
	member *lv
	coll   string // the member ranges over a collection
	full   bool   // and is every element of it
	conds  map[string]bool
	cs     string
	eff    *leff
	each   *leach
	alt    *lalt
}

func condStr(m map[string]bool) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func (r *rds) runScript(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	c := r.c
	where := c.at(ci.Site)
	res := e.fresh(st, "opq", "redis.Script", ci.Site, "r", ci.Sig.Results().At(0).Type())
	res.Typ = ci.Sig.Results().At(0).Type()
	e.refresh(ci, res)
	out := []*Outcome{{Res: res, Apply: func(n *State) {
		n.facts[res] = Fact{Nil: 2}
		n.mem[e.T.mk("rd:last", "", nil)] = e.T.mk("tuple", "", nil, res)
		n.ghost["rd:site"] = where
	}}}
	if len(ci.Args) < 5 {
		return nil, false
	}
	r.failChecked(e, st, where, "another script runs")
	if st.ghost["rd:site"] != "" && st.ghost["rd:site"] != where && r.op.kind != "remove" && r.op.kind != "insert" {
		r.expect("C21", false, "one-script-per-operation", r.op.name, where, "%s runs more than one script: another operation may come in between (%s)", r.op.name, e.trailStr(st))
	}
	text, slot, ok := r.textOf(ci.Args[0])
	if !ok {
		c.Bad("unknown-script:"+r.op.name, where, "the script run by %s is not a constant: %s", r.op.name, Canon(ci.Args[0]))
		return out, true
	}
	r.client(e, st, ci.Args[2], where)
	ks, ok := e.exactList(st, ci.Args[3])
	if !ok {
		c.Bad("unknown-keys:"+r.op.name, where, "the keys handed to script %s by %s are not known: %s", slot, r.op.name, Canon(ci.Args[3]))
		return out, true
	}
	rc := &rcall{r: r, e: e, st: st, slot: slot, site: ci.Site}
	tags := r.queueTerms(e)
	seen := map[string]bool{}
	for _, k := range ks {
		kd := r.keyOf(e, st, k, tags)
		r.checkKey(e, st, kd, ci.Site, false)
		r.expect("C22", kd.tagged(), "key-tagged-with-the-queue", r.op.name+":"+kd.suffix, where, "the key %s of script %s is not tagged with the queue name of the operation (%s)", Canon(k), slot, e.trailStr(st))
		if kd.tagged() && kd.mid == r.mid {
			if p, ok := r.suffix[kd.suffix]; ok {
				kd.role = p
			} else if !strings.Contains(kd.suffix, "<") {
				kd.role = "score:" + kd.suffix
			}
		}
		r.expect("C22", kd.role != "?", "key-is-a-pool-of-the-queue", r.op.name+":"+kd.suffix, where, "the key %s of script %s is no pool of the queue", Canon(k), slot)
		r.expect("C22", !seen[kd.role], "script-keys-differ", r.op.name+":"+kd.suffix, where, "script %s is handed the key %s twice", slot, Canon(k))
		seen[kd.role] = true
		rc.keys = append(rc.keys, kd)
	}
	for _, q := range tags {
		ok, ch := r.noBraces(e, st, q)
		r.expect("C22", ok, "queue-name-without-braces", r.op.name, where, "%s may reach Redis with a queue name that contains '%s' (%s)", r.op.name, ch, e.trailStr(st))
	}
	al := strip(ci.Args[4])
	na := -1
	if xs, ok := e.exactList(st, al); ok {
		for _, x := range xs {
			rc.args = append(rc.args, strip(x))
		}
		na = len(xs)
	} else {
		rc.dyn = r.dynArgs(e, st, al)
		r.expect("C24", !math.IsInf(rc.dyn.max, 1), "argument-list-is-partitioned", r.op.name, where, "script %s may be handed any number of arguments: %s", slot, rc.dyn.why)
		r.expect("C21", rc.dyn.kind != "?", "arguments-are-the-messages", r.op.name, where, "the arguments of script %s are not understood: %s", slot, rc.dyn.why)
	}
	blk, ok := r.parsed[text]
	if !ok {
		var err error
		blk, err = luaParse(text)
		if err != nil {
			c.Bad("script-syntax:"+slot, where, "script %s cannot be parsed: %v", slot, err)
			r.parsed[text] = nil
			return out, true
		}
		r.parsed[text] = blk
	}
	if blk == nil {
		return out, true
	}
	rc.run = &luaRun{}
	outs := rc.run.run(blk, len(ks), na)
	for _, p := range rc.run.problem {
		c.Bad("undecided:script:"+slot+":"+p, where, "cannot decide: script %s, %s is not understood", slot, p)
	}
	if len(rc.run.problem) > 0 {
		return out, true
	}
	n := 0
	for _, o := range outs {
		if !rc.feasible(o.st.conds) {
			continue
		}
		n++
		rc.path(o)
	}
	rc.bounds()
	if n == 0 {
		c.Bad("script-without-path:"+slot, where, "no path of script %s is possible as %s calls it", slot, r.op.name)
	}
	r.seenOp[r.op.name+r.op.lock] = true
	return out, true
}

// failChecked: before going on, the operation has established that the previous call succeeded.
func (r *rds) failChecked(e *Engine, st *State, where, what string) {
	last := st.mem[e.T.mk("rd:last", "", nil)]
	if last == nil {
		return
	}
	er := e.T.mk("rd:Err", "", nil, last.Args[0])
	if e.nilness(st, er) != 1 {
		// redis.Nil answered by a read is no failure
		for t, f := range st.facts {
			if f.B == 1 && t.Op == "eq" && mentions(t, er) && (mentionsGlobal(t, ".Nil")) {
				return
			}
			if f.B == 1 && t.Op == "call" && t.Str == "errors.Is" && strip(t.Args[0]) == er && mentionsGlobal(t.Args[1], ".Nil") {
				return
			}
			// the kind of failure decides what happens next
			if f.B != 0 && strings.HasPrefix(what, "Del ") && mentions(t, er) && (t.Op == "call" || t.Op == "opq" || t.Op == "eq") && e.nilness(st, er) == 2 {
				return
			}
		}
	}
	r.expect("C21", e.nilness(st, er) == 1, "failed-calls-are-reported", r.op.name, where, "a failed Redis call of %s may pass unnoticed: %s (%s)", r.op.name, what, e.trailStr(st))
}

func mentionsGlobal(t *Term, suf string) bool {
	if t.Op == "global" && strings.HasSuffix(t.Str, suf) {
		return true
	}
	if s, ok := t.StrVal(); ok && s == "redis: nil" && suf == ".Nil" {
		return true
	}
	for _, a := range t.Args {
		if mentionsGlobal(a, suf) {
			return true
		}
	}
	return false
}

func (rc *rcall) argTerm(v *lv) *Term {
	switch v.K {
	case "arg":
		if i := int(v.N) - 1; rc.dyn == nil && i >= 0 && i < len(rc.args) {
			return rc.args[i]
		}
	case "str":
		return rc.e.T.S(v.S)
	case "num":
		if v.N == math.Trunc(v.N) {
			return rc.e.T.Int(int64(v.N))
		}
		return rc.e.T.Const(constant.MakeFloat64(v.N), types.Typ[types.Float64])
	}
	return nil
}

// sent is the text Redis receives for a constant argument.
func (rc *rcall) sent(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	t = rc.numConst(t)
	if s, ok := t.StrVal(); ok {
		return s, true
	}
	if f, ok := t.Num(); ok {
		return strconv.FormatFloat(f, 'f', -1, 64), true
	}
	return "", false
}

func (rc *rcall) numConst(t *Term) *Term {
	t = strip(t)
	if t.Op == "load" && t.Args[0].Op == "global" {
		if v := rc.e.globalConst(t.Args[0].Str); v != nil {
			return v
		}
	}
	if f, ok := rc.st.facts[t]; ok && f.SEq != nil {
		return rc.e.T.S(*f.SEq)
	}
	return t
}

// feasible: the comparisons of a script path agree with what is known of the arguments.
func (rc *rcall) feasible(conds map[string]bool) bool {
	for k, want := range conds {
		v := rc.run.condv[k]
		if v == nil || len(v.A) != 2 || !strings.HasPrefix(k, "==:") {
			continue
		}
		t := rc.argTerm(v.A[0])
		o := rc.argTerm(v.A[1])
		if t == nil || o == nil {
			continue
		}
		want = want == (v.N == 1) == true
		w, ok := rc.sent(o)
		if !ok {
			continue
		}
		if s, ok := rc.sent(t); ok {
			if (s == w) != conds[k] {
				return false
			}
			continue
		}
		num := t.Typ != nil && (isFloatT(t.Typ) || isIntT(t.Typ))
		f, err := strconv.ParseFloat(w, 64)
		if num && conds[k] && (err != nil || strings.ContainsAny(w, "in")) {
			return false // numbers are never sent like this
		}
		if num && err == nil && conds[k] && !rc.e.IvOf(rc.st, t).has(f) {
			return false
		}
	}
	return true
}

func (rc *rcall) keyOf(v *lv) *rkeyd {
	if v != nil && v.K == "key" && int(v.N) >= 1 && int(v.N) <= len(rc.keys) {
		return rc.keys[int(v.N)-1]
	}
	return nil
}

// ranges of elements a script selects
type lrange struct {
	eff *leff
	key *rkeyd
}

var readCmds = map[string]bool{"ZSCORE": true, "ZMSCORE": true, "ZCARD": true, "ZCOUNT": true, "EXISTS": true, "ZRANK": true, "TIME": true, "ZRANGE": true, "ZREVRANGE": true, "ZRANGEBYSCORE": true, "ZREVRANGEBYSCORE": true}

// collect lists what a path of a script adds, removes and selects.
func (rc *rcall) collect(effs []*leff, base map[string]bool, each *leach, alt *lalt, out *[]*lmem, ranges *[]lrange) {
	c, r := rc.r.c, rc.r
	for _, f := range effs {
		if f.each != nil {
			for _, a := range f.each.alts {
				cs := map[string]bool{}
				for k, v := range base {
					cs[k] = v
				}
				for k, v := range a.conds {
					cs[k] = v
				}
				if rc.feasible(cs) {
					rc.collect(a.effs, cs, f.each, a, out, ranges)
				}
			}
			continue
		}
		where := c.at(rc.site)
		k := rc.keyOf(f.key)
		if k == nil {
			r.expect("C22", f.key == nil, "scripts-use-only-declared-keys", rc.slot, where, "script %s line %d uses a key that is not one of KEYS: %v", rc.slot, f.line, f.key)
			k = &rkeyd{role: "?"}
		}
		add := func(m lmem) {
			m.cmd, m.key, m.eff, m.each, m.alt = f.cmd, k, f, each, alt
			if f.key != nil {
				m.kname = f.key.String()
			}
			if m.conds == nil {
				m.conds = base
			}
			m.cs = condStr(m.conds)
			if m.member.K == "elem" && len(m.member.A) > 0 {
				m.coll = m.member.A[0].String()
			}
			*out = append(*out, &m)
		}
		fromTab := func(t *lv, pairs bool) {
			// only the state of the path knows the table
			items := rc.cur.tabs[int(t.N)]
			step := 1
			if pairs {
				step = 2
			}
			emit := func(vs []litem, conds map[string]bool, e2 *leach, a2 *lalt, full bool) {
				if len(vs)%step != 0 {
					r.expect("C21", false, "scores-and-members-alternate", rc.slot, where, "script %s line %d: the list does not hold pairs of score and member", rc.slot, f.line)
					return
				}
				for i := 0; i+step <= len(vs); i += step {
					m := lmem{member: vs[i+step-1].v, conds: conds, full: full}
					if m.member == nil {
						continue
					}
					if pairs {
						m.score = vs[i].v
					}
					m.cmd, m.key, m.eff, m.each, m.alt, m.kname = f.cmd, k, f, e2, a2, f.key.String()
					m.cs = condStr(conds)
					if m.member.K == "elem" && len(m.member.A) > 0 {
						m.coll = m.member.A[0].String()
					}
					*out = append(*out, &m)
				}
			}
			var singles []litem
			for _, it := range items {
				if it.each == nil {
					singles = append(singles, it)
					continue
				}
				for _, a := range it.each.alts {
					cs := map[string]bool{}
					for k, v := range base {
						cs[k] = v
					}
					for k, v := range a.conds {
						cs[k] = v
					}
					if len(a.items) > 0 && rc.feasible(cs) {
						emit(a.items, cs, it.each, a, false)
					}
				}
			}
			emit(singles, base, each, alt, false)
		}
		switch f.cmd {
		case "ZADD":
			args := f.args
			for len(args) > 0 && args[0].K == "str" {
				switch strings.ToUpper(args[0].S) {
				case "NX", "CH":
					args = args[1:]
					continue
				case "XX", "GT", "LT", "INCR":
					r.expect("C21", false, "add-always-adds", rc.slot, where, "script %s line %d adds with %s: the member may not be added", rc.slot, f.line, args[0].S)
					args = args[1:]
					continue
				}
				break
			}
			i := 0
			for i < len(args) {
				if args[i].K == "spread" {
					t := args[i].A[0]
					i++
					switch {
					case t.K == "tab":
						fromTab(t, true)
					case t.K == "argv" && rc.dyn != nil && rc.dyn.kind == "pairs":
						add(lmem{score: &lv{K: "elem", A: []*lv{t}, S: "2"}, member: &lv{K: "elem", A: []*lv{t}, S: "2", N: 1}, full: true})
					default:
						r.expect("C21", false, "scores-and-members-alternate", rc.slot, where, "script %s line %d adds a list that holds no pairs of score and member", rc.slot, f.line)
					}
					continue
				}
				if i+1 >= len(args) || args[i+1].K == "spread" {
					r.expect("C21", false, "scores-and-members-alternate", rc.slot, where, "script %s line %d adds a score without a member", rc.slot, f.line)
					break
				}
				add(lmem{score: args[i], member: args[i+1]})
				i += 2
			}
		case "ZREM":
			for _, a := range f.args {
				if a.K == "spread" {
					t := a.A[0]
					if t.K == "tab" {
						fromTab(t, false)
					} else {
						add(lmem{member: &lv{K: "elem", A: []*lv{t}, S: "1"}, full: true})
					}
					continue
				}
				add(lmem{member: a})
			}
		case "ZRANGE", "ZREVRANGE", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE":
			*ranges = append(*ranges, lrange{f, k})
		default:
			r.expect("C21", readCmds[f.cmd], "scripts-only-move-members", rc.slot+":"+f.cmd, where, "script %s line %d issues %s, which is not accounted for", rc.slot, f.line, f.cmd)
		}
	}
}

// sets of members are the same: one argument, or the same elements of a collection
func sameSet(a, b *lmem) bool {
	if a.coll == "" || b.coll == "" {
		return a.member.String() == b.member.String() && a.coll == b.coll
	}
	if a.coll != b.coll {
		return false
	}
	if a.full && b.full {
		return true
	}
	return a.member.String() == b.member.String() && a.cs == b.cs
}

func (rc *rcall) path(o lout) {
	r, c, e, st := rc.r, rc.r.c, rc.e, rc.st
	op := r.op
	where := c.at(rc.site)
	if o.st.failed {
		r.expect("C21", len(o.st.effs) == 0, "error-replies-change-nothing", rc.slot, where, "script %s may answer with an error after changing data", rc.slot)
		return
	}
	rc.cur = o.st
	conds := o.st.conds
	var ms []*lmem
	var rg []lrange
	rc.collect(o.st.effs, conds, nil, nil, &ms, &rg)
	// a member handled in every round of a loop is every element
	type gk struct {
		eff  string
		each *leach
		key  string
	}
	cover := map[gk]map[*lalt]bool{}
	for _, m := range ms {
		if m.each != nil {
			k := gk{m.cmd, m.each, m.kname}
			if cover[k] == nil {
				cover[k] = map[*lalt]bool{}
			}
			cover[k][m.alt] = true
		}
	}
	for _, m := range ms {
		if m.each == nil || m.coll == "" {
			continue
		}
		all := !m.each.partial && m.each.coll.String() == m.coll
		for _, a := range m.each.alts {
			if len(rc.altFeasible(a, conds)) > 0 && !cover[gk{m.cmd, m.each, m.kname}][a] {
				all = false
			}
		}
		m.full = m.full || all
	}
	var adds, rems []*lmem
	for _, m := range ms {
		if m.cmd == "ZADD" {
			adds = append(adds, m)
		} else {
			rems = append(rems, m)
		}
	}
	desc := func(m *lmem) string { return fmt.Sprintf("%s", m.member) }
	isPool := func(s string) bool {
		for _, p := range poolNames {
			if s == p {
				return true
			}
		}
		return false
	}
	rangeOf := func(coll string) *lrange {
		for i := range rg {
			if strings.HasPrefix(coll, "coll:"+rg[i].eff.res) && len(coll) == len("coll:"+rg[i].eff.res) {
				return &rg[i]
			}
		}
		return nil
	}
	ids := rc.idArg()
	isID := func(m *lmem) bool { return m.member.K == "arg" && ids[int(m.member.N)] }
	key := op.name + "/" + rc.slot
	// ---- additions
	for _, a := range adds {
		if strings.HasPrefix(a.key.role, "score:") {
			r.expect("C21", op.kind == "one" && op.lock != "" && a.key.role == r.scoreRole(op.lock), "scores-are-kept-only-by-locks", key, where, "%s: script %s line %d writes to %s", op.name, rc.slot, a.eff.line, a.key.role)
			continue
		}
		if !r.expect("C21", a.key.role == op.to, "added-to-the-destination", key, where, "%s: script %s line %d adds %s to %s instead of %s", op.name, rc.slot, a.eff.line, desc(a), a.key.role, op.to) {
			continue
		}
		switch op.kind {
		case "insert":
			for _, p := range poolNames {
				ok := false
				for i, k := range rc.keys {
					if k.role != p {
						continue
					}
					if v, has := a.conds[fmt.Sprintf("has:key:%d|%s|0", i+1, a.member)]; has && !v {
						ok = true
					}
				}
				r.expect("C21", ok, "inserted-only-when-in-no-pool", key+":"+p, where, "%s: script %s line %d may add a message that is already in %s", op.name, rc.slot, a.eff.line, p)
			}
			r.expect("C21", a.member.K == "elem" && a.member.S == "2" && a.member.N == 1 && a.score != nil && a.score.K == "elem" && a.score.N == 0, "inserts-the-given-ids", key, where, "%s: script %s line %d adds %s with score %s, which are not id and score of one message", op.name, rc.slot, a.eff.line, a.member, a.score)
		default:
			owned := false
			for _, m := range rems {
				if m.key.role != op.from || !sameSet(a, m) {
					continue
				}
				switch {
				case a.coll != "":
					if x := rangeOf(a.coll); x != nil && x.key.role == op.from {
						owned = true
					}
				default:
					h, known := conds["hit:"+m.eff.res]
					p := conds[fmt.Sprintf("has:%s|%s|0", m.kname, m.member)]
					owned = owned || known && h || p
				}
			}
			r.expect("C21", owned, "added-only-when-taken-from-the-source", key, where, "%s: script %s line %d adds %s to %s without having taken it from %s", op.name, rc.slot, a.eff.line, desc(a), a.key.role, op.from)
			if op.kind == "one" {
				r.expect("C21", isID(a), "moves-the-message-itself", key, where, "%s: script %s line %d moves %s instead of the id of the message", op.name, rc.slot, a.eff.line, desc(a))
			}
		}
	}
	// ---- removals
	got := map[string]bool{}
	for _, m := range rems {
		if op.kind == "remove" {
			if m.coll == "argv" && m.full {
				got[m.key.role] = true
			}
			continue
		}
		if strings.HasPrefix(m.key.role, "score:") {
			got[m.key.role] = m.full || m.coll == ""
			continue
		}
		if !r.expect("C21", m.key.role == op.from, "removed-from-the-source", key, where, "%s: script %s line %d removes %s from %s instead of %s", op.name, rc.slot, m.eff.line, desc(m), m.key.role, op.from) {
			continue
		}
		kept := false
		if h, ok := conds["hit:"+m.eff.res]; ok && !h && m.coll == "" {
			kept = true // nothing was removed
		}
		if v, ok := conds[fmt.Sprintf("has:%s|%s|0", m.kname, m.member)]; ok && !v {
			kept = true
		}
		for _, a := range adds {
			kept = kept || a.key.role == op.to && sameSet(a, m)
		}
		r.expect("C21", kept, "removed-only-when-added-to-the-destination", key, where, "%s: script %s line %d removes %s from %s and may not add it to %s: the message is lost", op.name, rc.slot, m.eff.line, desc(m), op.from, op.to)
	}
	if op.kind == "remove" {
		for _, p := range append(append([]string(nil), poolNames...), r.scoreRole("lock_ack"), r.scoreRole("lock_nack")) {
			r.expect("C21", got[p], "removal-covers-every-pool", key+":"+p, where, "%s: script %s does not remove the ids from %s", op.name, rc.slot, p)
		}
		r.expect("C21", len(adds) == 0, "removal-adds-nothing", key, where, "%s: script %s adds members", op.name, rc.slot)
	}
	moved := false
	for _, a := range adds {
		moved = moved || a.key.role == op.to
	}
	if moved {
		r.moves[op.name+op.lock] = true
	}
	// elements that are in the pools but passed over
	if op.kind == "range" {
		for _, x := range rg {
			em, ok := conds["empty:coll:"+x.eff.res]
			if ok && em {
				continue
			}
			whole := false
			for _, a := range adds {
				whole = whole || a.coll == "coll:"+x.eff.res && a.full && a.key.role == op.to
			}
			r.expect("C21", whole, "every-selected-message-is-moved", key, where, "%s: script %s line %d selects messages that are not all moved", op.name, rc.slot, x.eff.line)
		}
	}
	if op.kind == "insert" {
		// every id that was in no pool is added
		for _, f := range o.st.effs {
			if f.each == nil || f.each.coll.K != "argv" {
				continue
			}
			for _, al := range f.each.alts {
				present := false
				for k, v := range al.conds {
					present = present || strings.HasPrefix(k, "has:") && v
				}
				if present {
					continue
				}
				ins := false
				for _, a := range adds {
					ins = ins || a.alt == al || condSub(al.conds, a.conds)
				}
				if em, ok := rc.emptyTab(conds); ok && em {
					continue // nothing was to be added
				}
				r.expect("C21", ins, "new-messages-are-added", key, where, "%s: script %s may pass over a message that is in no pool", op.name, rc.slot)
			}
		}
	}
	rc.reply(o, adds, rems, rg)
	rc.scores(o, adds, rems)
	rc.selects(o, rg)
	_ = e
	_ = st
	_ = isPool
}

func condSub(a, b map[string]bool) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (rc *rcall) emptyTab(conds map[string]bool) (bool, bool) {
	for k, v := range conds {
		if strings.HasPrefix(k, "empty:tab") {
			return v, true
		}
	}
	return false, false
}

func (rc *rcall) altFeasible(a *lalt, base map[string]bool) []*lalt {
	cs := map[string]bool{}
	for k, v := range base {
		cs[k] = v
	}
	for k, v := range a.conds {
		cs[k] = v
	}
	if a.sig == "return" || !rc.feasible(cs) {
		return nil
	}
	return []*lalt{a}
}

// idArg: the positions at which the id of the message is handed over.
func (rc *rcall) idArg() map[int]bool {
	out := map[int]bool{}
	for i, a := range rc.args {
		if rc.isMsgField(a, "ID") {
			out[i+1] = true
		}
	}
	return out
}

func (rc *rcall) isMsgField(t *Term, f string) bool {
	if rc.r.op.msg < 0 {
		return false
	}
	p := rc.e.Param(fmt.Sprintf("$%d", rc.r.op.msg), nil)
	t = stripConv(t)
	return t.Op == "load" && t.Args[0].Op == "fa" && t.Args[0].Str == f && strip(t.Args[0].Args[0]) == p
}

// reply: the answer of the script tells what it did.
func (rc *rcall) reply(o lout, adds, rems []*lmem, rg []lrange) {
	r, op := rc.r, rc.r.op
	where := r.c.at(rc.site)
	key := op.name + "/" + rc.slot
	var v *lv = lNil
	if len(o.ret) > 0 {
		v = o.ret[0]
	}
	moved := false
	for _, a := range adds {
		moved = moved || a.key.role == op.to
	}
	switch op.kind {
	case "one":
		one := v.K == "num" && v.N == 1
		zero := v.K == "num" && v.N == 0
		if v.K == "cnt" {
			for _, m := range rems {
				if m.eff.res == v.S {
					h, known := o.st.conds["hit:"+v.S]
					one, zero = known && h, known && !h
				}
			}
			for _, m := range adds {
				one = one || m.eff.res == v.S // the member was not there before
			}
		}
		if moved {
			r.expect("C21", one, "reply-tells-whether-it-moved", key, where, "%s: script %s moves the message but answers %s", op.name, rc.slot, v)
		} else {
			r.expect("C21", zero, "reply-tells-whether-it-moved", key, where, "%s: script %s does not move the message but answers %s", op.name, rc.slot, v)
		}
	case "range":
		ok := false
		for _, x := range rg {
			cn := "coll:" + x.eff.res
			switch {
			case !moved:
				ok = ok || v.K == "str" && v.S == "" || v.String() == cn || v.K == "tab" && len(o.st.tabs[int(v.N)]) == 0
			case v.String() == cn:
				ok = true
			case v.K == "tab" && len(o.st.tabs[int(v.N)]) == 1:
				if ea := o.st.tabs[int(v.N)][0].each; ea != nil && ea.coll.String() == cn && !ea.partial {
					ok = true
					for _, a := range ea.alts {
						ok = ok && len(a.items) == 1 && a.items[0].v != nil && a.items[0].v.String() == "elem:1("+cn+")"
					}
				}
			}
		}
		r.expect("C21", ok, "reply-lists-the-moved-messages", key, where, "%s: script %s answers %s, which is not the list of the messages it moved", op.name, rc.slot, v)
	case "insert":
		ok := v.K == "tab"
		if ok {
			for _, it := range o.st.tabs[int(v.N)] {
				if it.each == nil {
					ok = false
					continue
				}
				for _, a := range it.each.alts {
					for _, x := range a.items {
						if x.v == nil || !(x.v.K == "elem" && x.v.S == "2" && x.v.N == 1) {
							ok = false
						}
					}
					present := false
					for k, h := range a.conds {
						present = present || strings.HasPrefix(k, "has:") && h
					}
					ok = ok && len(a.items) == map[bool]int{true: 0, false: 1}[present]
				}
			}
			if len(o.st.tabs[int(v.N)]) == 0 {
				em, known := rc.emptyTab(o.st.conds)
				ok = !moved && (!known || em) && len(adds) == 0
			}
		}
		r.expect("C21", ok, "reply-lists-the-inserted-messages", key, where, "%s: script %s answers %s, which is not the list of the ids it added", op.name, rc.slot, v)
	}
}

func rdNow(t *Term) bool { return t != nil && stripNum(t).Op == "nowms" }

// scores: which score each move writes.
func (rc *rcall) scores(o lout, adds, rems []*lmem) {
	r, op, e, st := rc.r, rc.r.op, rc.e, rc.st
	where := r.c.at(rc.site)
	key := op.name + op.lock
	conds := o.st.conds
	marker := false // the path knows that the score is the marker of an undefined one
	known := false
	for k, v := range conds {
		cv := rc.run.condv[k]
		if cv == nil || len(cv.A) != 2 || !strings.HasPrefix(k, "==:") || cv.A[0].K != "arg" {
			continue
		}
		if t := rc.argTerm(cv.A[0]); t != nil && rc.isMsgField(t, "Score") {
			s, _ := rc.sent(rc.argTerm(cv.A[1]))
			if f, err := strconv.ParseFloat(s, 64); err == nil && r.undefined != nil && f == *r.undefined {
				known = true
				marker = v
			} else {
				r.expect("C25", false, "undefined-marker", key, where, "script %s compares the score with %q, which is not the marker of an undefined score", rc.slot, s)
			}
		}
	}
	wroteScore := false
	moved := false
	for _, a := range adds {
		if strings.HasPrefix(a.key.role, "score:") {
			t := rc.argTerm(a.score)
			r.expect("C25", a.key.role == r.scoreRole(op.lock), "score-kept-for-the-lock", key, where, "%s keeps the score in %s", op.name, a.key.role)
			r.expect("C25", t != nil && rc.isMsgField(t, "Score"), "lock-keeps-the-promised-score", key, where, "%s keeps %s as the score of the locked message", op.name, rc.show(a.score))
			r.expect("C25", known && !marker, "undefined-score-is-not-kept", key, where, "%s may keep the marker of an undefined score as the score of the locked message", op.name)
			r.expect("C25", a.member.K == "arg" && rc.idArg()[int(a.member.N)], "lock-keeps-the-score-of-the-message", key, where, "%s keeps a score for %s", op.name, a.member)
			wroteScore = true
			continue
		}
		if a.key.role != op.to {
			continue
		}
		moved = true
		t := rc.argTerm(a.score)
		switch op.name {
		case "MakeAvailable":
			r.expect("C25", t != nil && rc.isMsgField(t, "Score"), "available-with-its-score", key, where, "MakeAvailable sets the score to %s", rc.show(a.score))
		case "TimeoutMessages":
			s, ok := rc.sent(t)
			r.expect("C25", ok && s == "0", "timed-out-with-minimum-score", key, where, "a timed-out message returns with score %s", rc.show(a.score))
		case "Insert":
			r.expect("C25", a.score.K == "elem" && a.score.N == 0 && a.score.S == "2" && rc.dyn != nil && rc.dyn.kind == "pairs", "inserted-with-its-score", key, where, "an inserted message gets score %s", rc.show(a.score))
		case "PullMessages", "LockMessage":
			want := "the deadline of the message"
			ok, why := r.deadline(e, st, t)
			r.expect("C26", ok, "deadline-is-now-plus-duration", key, where, "%s: %s is %s %s (%s)", op.name, want, rc.show(a.score), why, e.trailStr(st))
		case "UnlockMessages":
			var sk string
			for i, k := range rc.keys {
				if k.role == r.scoreRole(op.lock) {
					sk = fmt.Sprintf("key:%d", i+1)
				}
			}
			hk := fmt.Sprintf("%s|%s|0", sk, a.member)
			has, tested := a.conds["has:"+hk]
			switch {
			case sk == "":
				r.expect("C25", false, "unlock-reads-the-kept-score", key, where, "UnlockMessages does not read the scores kept for the lock")
			case a.score.K == "zscore":
				r.expect("C25", a.score.S == hk && tested && has, "unlock-uses-the-kept-score", key, where, "an unlocked message may return with score %s", a.score)
			default:
				r.expect("C25", tested && !has, "unlock-uses-the-kept-score", key, where, "an unlocked message may return with score %s although a score was kept for it", rc.show(a.score))
				want := "the minimum score"
				ok := false
				if op.lock == "lock_ack" {
					want = "the current time"
					ok = rdNow(t)
				} else if s, k := rc.sent(t); k {
					ok = s == "0"
				}
				r.expect("C25", ok, "unlock-default-score", key, where, "a message locked by %s without a score returns with %s instead of %s", op.lock, rc.show(a.score), want)
			}
		}
	}
	if op.name == "LockMessage" && moved && !wroteScore {
		r.expect("C25", known && marker, "lock-keeps-the-promised-score", key, where, "LockMessage may not keep the score of a message that has one")
	}
	if op.name == "UnlockMessages" && moved {
		cleared := false
		for _, m := range rems {
			cleared = cleared || m.key.role == r.scoreRole(op.lock) && m.full
		}
		r.expect("C25", cleared, "unlock-forgets-the-kept-score", key, where, "UnlockMessages leaves the kept scores behind: a later lock of the message would return with them")
	}
}

func (rc *rcall) show(v *lv) string {
	if v == nil {
		return "nothing"
	}
	if t := rc.argTerm(v); t != nil {
		return Canon(stripConv(t))
	}
	return v.String()
}

// selects: which messages a range takes.
func (rc *rcall) selects(o lout, rg []lrange) {
	r, op, e, st := rc.r, rc.r.op, rc.e, rc.st
	if op.kind != "range" {
		return
	}
	where := r.c.at(rc.site)
	key := op.name + op.lock
	r.expect("C28", len(rg) > 0, "selects-from-the-source", key, where, "%s: script %s selects no messages", op.name, rc.slot)
	for _, x := range rg {
		f := x.eff
		r.expect("C28", x.key.role == op.from, "selects-from-the-source", key, where, "%s: script %s line %d selects from %s instead of %s", op.name, rc.slot, f.line, x.key.role, op.from)
		lo, hi, limit, off, desc, why := rc.rangeArgs(f)
		if !r.expect("C28", why == "", "range-is-understood", key, where, "%s: script %s line %d: %s", op.name, rc.slot, f.line, why) {
			continue
		}
		inf := func(v *lv, s string) bool {
			if v == nil {
				return true
			}
			if t := rc.argTerm(v); t != nil {
				if w, ok := rc.sent(t); ok && w == s {
					return true
				}
			}
			return o.st.conds["==:"+v.String()+":"+strconv.Quote(s)]
		}
		// a filter that the range ignores must be absent
		r.expect("C28", off == 0, "range-from-the-first", key, where, "%s: script %s line %d skips %v messages", op.name, rc.slot, f.line, off)
		if op.name == "PullMessages" {
			r.expect("C28", !desc, "lowest-scores-first", key, where, "PullMessages: script %s line %d takes the highest scores first", rc.slot, f.line)
			t := rc.argTerm(limit)
			r.expect("C28", t != nil && stripConv(t) == e.Param(fmt.Sprintf("$%d", r.pullN), nil), "takes-the-requested-number", key, where, "PullMessages: script %s line %d takes %s messages", rc.slot, f.line, rc.show(limit))
			for _, b := range []struct {
				v    *lv
				s    string
				p    int
				name string
			}{{lo, "-inf", r.pullMin, "minimum"}, {hi, "+inf", r.pullMax, "maximum"}} {
				p := e.Param(fmt.Sprintf("$%d", b.p), nil)
				switch e.nilness(st, p) {
				case 1:
					r.expect("C28", inf(b.v, b.s), "no-filter-without-a-bound", key+b.name, where, "PullMessages without a %s score filters by %s", b.name, rc.show(b.v))
				case 2:
					t := rc.argTermN(b.v)
					ok := t != nil && stripConv(t).Op == "load" && strip(stripConv(t).Args[0]) == p
					r.expect("C28", ok, "filters-by-the-bound", key+b.name, where, "PullMessages with a %s score filters by %s (script %s line %d)", b.name, rc.show(b.v), rc.slot, f.line)
				default:
					r.expect("C28", false, "bound-is-tested", key+b.name, where, "PullMessages does not establish whether a %s score is given (%s)", b.name, e.trailStr(st))
				}
			}
			continue
		}
		t := rc.argTermN(hi)
		r.expect("C28", t != nil && rdNow(t), "only-due-messages", key, where, "%s: script %s line %d selects deadlines up to %s instead of the current time", op.name, rc.slot, f.line, rc.show(hi))
		r.expect("C26", t != nil && rdNow(t), "compared-with-now", key, where, "%s compares deadlines with %s instead of the current time in milliseconds", op.name, rc.show(hi))
		low := inf(lo, "-inf")
		if tl := rc.argTermN(lo); tl != nil {
			if s, ok := rc.sent(tl); ok && s == "0" {
				low = true
			}
		}
		r.expect("C28", low, "every-due-message", key, where, "%s: script %s line %d leaves out deadlines below %s", op.name, rc.slot, f.line, rc.show(lo))
		n := 1.0
		if limit != nil {
			n = 0
			if tl := rc.argTerm(limit); tl != nil {
				if s, ok := rc.sent(tl); ok {
					n, _ = strconv.ParseFloat(s, 64)
				}
			}
		}
		r.expect("C28", n >= 1, "limit-is-positive", key, where, "%s: script %s line %d is limited to %s messages", op.name, rc.slot, f.line, rc.show(limit))
	}
}

func (rc *rcall) argTermN(v *lv) *Term {
	if v == nil {
		return nil
	}
	return rc.argTerm(v)
}

// rangeArgs normalises a range command: bounds by score, number, offset, order.
func (rc *rcall) rangeArgs(f *leff) (lo, hi, limit *lv, off float64, desc bool, why string) {
	num := func(v *lv) (float64, bool) {
		if v.K == "num" {
			return v.N, true
		}
		if v.K == "str" {
			x, err := strconv.ParseFloat(v.S, 64)
			return x, err == nil
		}
		return 0, false
	}
	args := f.args
	if len(args) < 2 {
		return nil, nil, nil, 0, false, "the range has no bounds"
	}
	byScore := strings.HasSuffix(f.cmd, "BYSCORE")
	desc = strings.HasPrefix(f.cmd, "ZREV")
	a, b := args[0], args[1]
	rest := args[2:]
	for len(rest) > 0 {
		switch {
		case rest[0].K != "str":
			return nil, nil, nil, 0, desc, "the range has unknown options"
		case strings.EqualFold(rest[0].S, "LIMIT") && len(rest) >= 3:
			x, ok := num(rest[1])
			if !ok {
				return nil, nil, nil, 0, desc, "the range has an unknown offset"
			}
			off, limit = x, rest[2]
			rest = rest[3:]
		case strings.EqualFold(rest[0].S, "BYSCORE") && f.cmd == "ZRANGE":
			byScore = true
			rest = rest[1:]
		case strings.EqualFold(rest[0].S, "REV") && f.cmd == "ZRANGE":
			desc = true
			rest = rest[1:]
		default:
			return nil, nil, nil, 0, desc, "the range has the option " + rest[0].S
		}
	}
	if byScore {
		lo, hi = a, b
		if desc {
			lo, hi = b, a
		}
		return
	}
	// by position: from, to inclusive
	x, ok := num(a)
	if !ok {
		return nil, nil, nil, 0, desc, "the range has an unknown start"
	}
	off = x
	if n, ok := num(b); ok {
		if n < 0 {
			limit = nil
			if n != -1 {
				why = "the range leaves out the last messages"
			}
			return
		}
		limit = lNum(n - x + 1)
		return
	}
	if b.K == "op" && b.S == "-" && b.A[1].K == "num" && b.A[1].N == 1-x || b.K == "op" && b.S == "+" && b.A[1].K == "num" && b.A[1].N == x-1 {
		limit = b.A[0]
		return
	}
	return nil, nil, nil, 0, desc, "the range ends at " + b.String() + ", which is not the requested number"
}

// bounds: how many values each unpack yields.
func (rc *rcall) bounds() {
	r, op := rc.r, rc.r.op
	where := r.c.at(rc.site)
	const max = 7900
	collMax := func(v *lv, st *lstate) (float64, string) {
		switch v.K {
		case "argv":
			if rc.dyn != nil {
				return rc.dyn.max, rc.dyn.why
			}
			return float64(len(rc.args)), ""
		case "coll":
			for _, f := range st.effs {
				if f.res != v.S {
					continue
				}
				_, _, limit, _, _, why := rc.rangeArgs(f)
				if why != "" {
					return math.Inf(1), why
				}
				if limit == nil {
					return math.Inf(1), "the range has no limit"
				}
				t := rc.argTerm(limit)
				if t == nil {
					return math.Inf(1), "the limit is unknown"
				}
				if s, ok := rc.sent(t); ok {
					if x, err := strconv.ParseFloat(s, 64); err == nil && x >= 0 {
						return x, ""
					}
					return math.Inf(1), "the limit is " + s
				}
				if op.name == "PullMessages" && stripConv(t) == rc.e.Param(fmt.Sprintf("$%d", r.pullN), nil) {
					return r.nmax, "the number of messages to pull"
				}
				if iv := rc.e.IvOf(rc.st, t); iv.Lo >= 0 && !math.IsInf(iv.Hi, 1) {
					return iv.Hi, ""
				}
				return math.Inf(1), "the limit is " + rc.show(limit)
			}
		}
		return math.Inf(1), v.String() + " has no bound"
	}
	for _, u := range rc.run.unpacks {
		total, why := 0.0, ""
		add := func(x float64, w string) {
			total += x
			if w != "" {
				why = w
			}
		}
		if u.coll != nil {
			x, w := collMax(u.coll, u.st)
			add(x, w)
		}
		for _, it := range u.items {
			if it.each == nil {
				add(1, "")
				continue
			}
			x, w := collMax(it.each.coll, u.st)
			per := 0
			for _, a := range it.each.alts {
				if len(a.items) > per {
					per = len(a.items)
				}
			}
			add(math.Ceil(x/float64(it.each.step))*float64(per), w)
		}
		r.expect("C24", total <= max, "unpack-is-bounded", op.name+"/"+rc.slot+":"+fmt.Sprint(u.line), where, "%s: script %s line %d may unpack %v values; Lua fails from 8000 (%s)", op.name, rc.slot, u.line, total, why)
		if u.tab != nil {
			r.expect("C21", rc.nonEmpty(u), "no-command-without-members", op.name+"/"+rc.slot, where, "%s: script %s line %d may unpack an empty list: the command is refused and the script stops half way", op.name, rc.slot, u.line)
		}
		// a command without members is refused
		if u.coll != nil && u.coll.K == "coll" {
			em, known := u.st.conds["empty:"+u.coll.String()]
			r.expect("C21", known && !em, "no-command-without-members", op.name+"/"+rc.slot, where, "%s: script %s line %d may unpack an empty list: the command is refused and the script stops half way", op.name, rc.slot, u.line)
		}
	}
}

// nonEmpty: the table unpacked is known to hold something.
func (rc *rcall) nonEmpty(u lunpack) bool {
	collNE := func(c *lv) bool {
		if c.K == "argv" {
			return rc.dyn == nil && len(rc.args) > 0 || rc.dyn != nil && !math.IsInf(rc.dyn.max, 1) // parts are never empty
		}
		em, known := u.st.conds["empty:"+c.String()]
		return known && !em
	}
	fills := func(a *lalt, items []litem) bool { return len(a.items) > 0 }
	for _, it := range u.items {
		if it.each == nil {
			return true
		}
		all := collNE(it.each.coll)
		for _, a := range it.each.alts {
			all = all && (fills(a, nil) || len(rc.altFeasible(a, u.st.conds)) == 0)
		}
		if all {
			return true
		}
	}
	// this table, or one filled in the same rounds, was found not to be empty
	for i, items := range u.st.tabs {
		em, known := u.st.conds["empty:"+(&lv{K: "tab", N: float64(i)}).String()]
		if !known || em {
			continue
		}
		if float64(i) == u.tab.N {
			return true
		}
		for _, x := range items {
			for _, y := range u.items {
				if x.each == nil || y.each == nil || x.each.line != y.each.line || len(x.each.alts) != len(y.each.alts) {
					continue
				}
				ok := true
				for k := range x.each.alts {
					ok = ok && (len(x.each.alts[k].items) == 0 || len(y.each.alts[k].items) > 0)
				}
				if ok && len(items) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// ---- argument lists --------------------------------------------------------

func (r *rds) dynArgs(e *Engine, st *State, al *Term) *rdyn {
	d := &rdyn{kind: "?", max: math.Inf(1), slice: al}
	part, list, why := r.partOf(e, st, al)
	if part > 0 {
		// a part of a longer list
		d.max = part
		base := strip(list)
		if r.idList(e, st, base) {
			d.kind = "ids"
		} else {
			d.why = "the list partitioned is not that of the ids: "
		}
		return d
	}
	b := strip(al)
	if b.Op == "mkslice" || b.Op == "coll" {
		src, per, w := r.pairs(e, st, b)
		if src == nil {
			if r.idList(e, st, b) {
				d.kind = "ids"
				d.why = "the list is not partitioned"
				return d
			}
			d.why = w
			return d
		}
		d.kind = "pairs"
		p, l, w2 := r.partOf(e, st, src)
		if p > 0 {
			d.max = p * float64(per)
			if !r.isMsgs(e, l) {
				d.kind, d.why = "?", "the list partitioned is not that of the messages"
			}
			return d
		}
		d.why = "the messages are not partitioned: " + w2
		if !r.isMsgs(e, strip(src)) {
			d.kind = "?"
		}
		return d
	}
	d.why = why
	if r.idList(e, st, b) {
		d.kind = "ids"
	}
	return d
}

func (r *rds) isMsgs(e *Engine, t *Term) bool {
	return r.op.kind == "insert" && r.op.list >= 0 && strip(t) == e.Param(fmt.Sprintf("$%d", r.op.list), nil)
}

// idList: the list holds exactly the ids the operation was given, in order.
func (r *rds) idList(e *Engine, st *State, b *Term) bool {
	if r.op.id < 0 {
		return false
	}
	p := e.Param(fmt.Sprintf("$%d", r.op.id), nil)
	if b == p {
		return true
	}
	elemOf := func(v *Term) bool {
		v = strip(v)
		if v.Op == "elems" && v.Args[0] == p {
			return true
		}
		return v.Op == "load" && v.Args[0].Op == "ia" && strip(v.Args[0].Args[0]) == p
	}
	switch b.Op {
	case "mkslice":
		ln := st.mem[e.T.mk("mklen", "", nil, b)]
		if ln != nil && len(r.store[r.baseTerm(b)]) == 0 {
			if n, ok := strip(ln).Num(); ok && n == 0 {
				return true // an empty list has no parts
			}
		}
		if ln == nil || strip(ln) != e.Len(p) {
			return false
		}
		ss := r.store[r.baseTerm(b)]
		for _, s := range ss {
			if !elemOf(s.val) || strip(s.val).Op == "load" && strip(s.val).Args[0].Args[1] != s.idx {
				return false
			}
		}
		return len(ss) > 0
	case "coll":
		for _, x := range b.Args {
			if !elemOf(x) {
				return false
			}
		}
		return len(b.Args) > 0
	}
	return false
}

// baseTerm identifies a list across the rounds of a loop.
func (r *rds) baseTerm(t *Term) *Term { return t }

// pairs: the list holds score and id of each element of a source list.
func (r *rds) pairs(e *Engine, st *State, b *Term) (src *Term, per int, why string) {
	msgField := func(v *Term) (*Term, string) {
		v = stripConv(strip(v))
		if v.Op == "load" && v.Args[0].Op == "fa" {
			el := strip(v.Args[0].Args[0])
			f := v.Args[0].Str
			if el.Op == "load" && el.Args[0].Op == "ia" {
				return strip(el.Args[0].Args[0]), f
			}
			if el.Op == "elems" {
				return strip(el.Args[0]), f
			}
		}
		return nil, ""
	}
	switch b.Op {
	case "mkslice":
		ss := r.store[b]
		if len(ss) == 0 {
			return nil, 0, "nothing is stored in the list"
		}
		var sc, id *rstore
		for i := range ss {
			s, f := msgField(ss[i].val)
			if s == nil || src != nil && s != src {
				return nil, 0, "the list holds " + Canon(ss[i].val)
			}
			src = s
			switch f {
			case "Score":
				sc = &ss[i]
			case "ID":
				id = &ss[i]
			default:
				return nil, 0, "the list holds " + f
			}
		}
		if sc == nil || id == nil {
			return nil, 0, "the list does not hold score and id of each message"
		}
		o1, ok1 := evenIndex(sc.ia.Index)
		o2, ok2 := evenIndex(id.ia.Index)
		if !ok1 || !ok2 || o1 != 0 || o2 != 1 {
			return nil, 0, "score and id are not stored one after the other for each message"
		}
		ln := st.mem[e.T.mk("mklen", "", nil, b)]
		if ln == nil {
			return nil, 0, "the length of the list is unknown"
		}
		x := strip(ln)
		two := e.T.Int(2)
		l := r.lenOf(e, st, src)
		if x != e.binop(token.MUL, two, l, types.Typ[types.Int]) && x != e.binop(token.MUL, l, two, types.Typ[types.Int]) && x != e.binop(token.ADD, l, l, types.Typ[types.Int]) {
			return nil, 0, "the list is not twice as long as the list of messages: " + Canon(x)
		}
		return src, 2, ""
	case "coll":
		seen := map[string]bool{}
		for _, x := range b.Args {
			s, f := msgField(x)
			if s == nil || src != nil && s != src || f != "Score" && f != "ID" {
				return nil, 0, "the list holds " + Canon(x)
			}
			src = s
			seen[f] = true
		}
		if !seen["Score"] || !seen["ID"] || r.badOrder {
			return nil, 0, "score and id are not appended one after the other for each message"
		}
		return src, 2, ""
	}
	return nil, 0, "the list is " + Canon(b)
}

func (r *rds) lenOf(e *Engine, st *State, t *Term) *Term { return e.LenOf(st, t) }

// evenIndex: the index runs through 0, 2, 4, ... plus the offset returned.
func evenIndex(v ssa.Value) (int, bool) {
	off := 0
	for {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			break
		}
		if b.Op == token.ADD {
			if n, ok := intConst(b.Y); ok {
				off += n
				v = b.X
				continue
			}
			if n, ok := intConst(b.X); ok {
				off += n
				v = b.Y
				continue
			}
			// k+k
			if b.X == b.Y {
				return off, counter(b.X, 1)
			}
			return 0, false
		}
		if b.Op == token.MUL {
			x := b.X
			n, ok := intConst(b.Y)
			if !ok {
				n, ok = intConst(b.X)
				x = b.Y
			}
			return off, ok && n == 2 && counter(x, 1)
		}
		if b.Op == token.SHL {
			n, ok := intConst(b.Y)
			return off, ok && n == 1 && counter(b.X, 1)
		}
		return 0, false
	}
	return off, counter(v, 2)
}

func intConst(v ssa.Value) (int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.Value)
	return int(n), ok
}

// counter: the value starts at 0 and grows by step in each round.
func counter(v ssa.Value, step int) bool {
	// range loops count from -1 and add one at the head
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if p, ok := b.X.(*ssa.Phi); ok {
			if n, ok := intConst(b.Y); ok && n == step {
				for _, ed := range p.Edges {
					if m, ok := intConst(ed); ok && m == -step {
						continue
					}
					if ed != ssa.Value(b) {
						return false
					}
				}
				return true
			}
		}
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, ed := range p.Edges {
		if m, ok := intConst(ed); ok && m == 0 {
			continue
		}
		b, ok := ed.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			return false
		}
		if n, ok := intConst(b.Y); !ok || n != step {
			return false
		}
	}
	return true
}

// partOf: the slice is one part of a list cut into parts of constant size that together cover it.
func (r *rds) partOf(e *Engine, st *State, t *Term) (size float64, list *Term, why string) {
	t = strip(t)
	if t.Op != "slice" || len(t.Args) < 3 {
		return 0, nil, "the list is not cut into parts"
	}
	list = strip(t.Args[0])
	lo, hi := strip(t.Args[1]), strip(t.Args[2])
	if lo.Op == "field" && hi.Op == "field" && strip(lo.Args[0]) == strip(hi.Args[0]) && lo.Str == "Low" && hi.Str == "High" {
		p := r.parts[strip(lo.Args[0]).ID]
		if p == nil {
			return 0, nil, "the bounds of the part are unknown"
		}
		n, ok := p.size.Num()
		if !ok || n < 1 {
			return 0, nil, "the size of the parts is " + Canon(p.size)
		}
		if strip(p.list) != e.LenOf(st, list) {
			r.expect("C24", false, "parts-cover-the-list", r.op.name, "", "%s cuts a list of %s into parts computed for %s elements", r.op.name, Canon(e.LenOf(st, list)), Canon(p.list))
			return 0, nil, "the parts are computed for another length"
		}
		r.expect("C24", true, "parts-cover-the-list", r.op.name, "", "")
		return n, list, ""
	}
	if x := r.slices[t]; x != nil {
		if k := chunkLoop(x); k > 0 {
			r.expect("C24", true, "parts-cover-the-list", r.op.name, "", "")
			return float64(k), list, ""
		}
	}
	return 0, nil, "the bounds of the part are not understood"
}

// chunkLoop recognises for lo := 0; lo < len(s); lo += k { s[lo:min(lo+k, len(s))] }.
func chunkLoop(x *ssa.Slice) int {
	p, ok := x.Low.(*ssa.Phi)
	if !ok || x.High == nil {
		return 0
	}
	k := 0
	for _, ed := range p.Edges {
		if m, ok := intConst(ed); ok && m == 0 {
			continue
		}
		switch b := ed.(type) {
		case *ssa.BinOp:
			n, ok := intConst(b.Y)
			if b.Op != token.ADD || b.X != ssa.Value(p) || !ok || n < 1 || k != 0 && k != n {
				return 0
			}
			k = n
		default:
			return 0
		}
	}
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && c.Call.Args[0] == x.X
	}
	isNext := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			return false
		}
		n, ok := intConst(b.Y)
		return ok && n == k
	}
	okHi := false
	switch h := x.High.(type) {
	case *ssa.Call:
		if b, ok := h.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" && len(h.Call.Args) == 2 {
			okHi = isLen(h.Call.Args[0]) && isNext(h.Call.Args[1]) || isLen(h.Call.Args[1]) && isNext(h.Call.Args[0])
		}
	case *ssa.Phi:
		l, n := 0, 0
		for _, ed := range h.Edges {
			switch {
			case isLen(ed):
				l++
			case isNext(ed):
				n++
			default:
				return 0
			}
		}
		okHi = l > 0 && n > 0
	}
	if !okHi {
		return 0
	}
	i, ok := p.Block().Instrs[len(p.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS || b.X != ssa.Value(p) || !isLen(b.Y) {
		return 0
	}
	return k
}
