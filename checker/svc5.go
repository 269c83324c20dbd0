package main

import (
	"go/types"
	"math"
	"strings"
)

const two63 = 9223372036854775808.0

func init() {
	register(&Check{ID: "C67", Min: 25, Pkgs: svcPkgs,
		Technique: "Path-sensitive value flow from every request field to the arguments of the storage and cache operations, and from their results to the reply",
		Note:      "All paths of Pull, Ack, Nack, Count, GetById, Remove, EditQueue and GetQueue: each argument of each storage/cache/configuration call is traced to the request field with that meaning (with clamping and default values accepted only where the path facts exclude every other request value), and each reply count to the operation that produced it.",
		Run:       runC67})
}

// clampOf: v is src, or one of the bounds where src is known to be beyond it.
func clampOf(e *Engine, st *State, v, src *Term, lo, hi float64) (bool, string) {
	if stripConv(v) == stripConv(src) {
		return true, ""
	}
	iv := e.IvOf(st, src)
	n, isN := v.Num()
	if v.Op == "zero" {
		n, isN = 0, true
	}
	if !isN {
		return false, Canon(v)
	}
	switch {
	case n == lo && (iv.Hi <= lo || iv.numEmpty()):
		return true, ""
	case n == hi && (iv.Lo >= hi || iv.numEmpty()):
		return true, ""
	case !iv.NaN && iv.Lo == n && iv.Hi == n:
		return true, ""
	}
	return false, Canon(v) + " for requests in " + iv.String()
}

func runC67(c *Ctx) {
	n := map[string]int{}
	keepNone := func(*Event) bool { return false }
	i64 := types.Typ[types.Int64]
	noStr := func(e *Engine, st *State, v *Term) bool { return emptyText(e, st, v) == 1 || v.Op == "zero" }
	str := types.Typ[types.String]

	model := func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
		if ci.Fn != nil && strings.HasSuffix(fnPkgPath(ci.Fn), "/internal/dtime") && ci.Sig.Params().Len() == 0 && ci.Sig.Results().Len() == 1 && strings.HasPrefix(ci.Fn.Name(), "Now") {
			return []*Outcome{{Res: e.T.mk("call", "dtime."+ci.Fn.Name(), ci.Sig.Results().At(0).Type())}}, true
		}
		return nil, false
	}
	var onPull func(e *Engine, st *State, ci *CallInfo)
	pullArgs := func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
		if role(ci.Name) == "cache.PullMessages" {
			onPull(e, st, ci)
			return nil, true // nothing after it matters here
		}
		return model(e, st, ci)
	}
	// ---- Pull
	if fn := c.rpc("Pull"); fn != nil {
		onPull = func(e *Engine, st *State, ev *CallInfo) {
			n["Pull"]++
			a := ev.Args
			where := c.at(ev.Site)
			c.Expect(Canon(a[2]) == "$2.Queue", "pull-queue", "", where, "Pull takes messages of queue %s, not of the requested one", Canon(a[2]))
			dl := stripConv(a[6])
			c.Expect(Canon(dl) == "$2.AckDeadlineMs", "pull-deadline", "", where, "Pull uses the acknowledgement deadline %s, not the requested one (%s)", Canon(a[6]), e.trailStr(st))
			bound := func(rule, what string, p *Term, s2 *State, src *Term) {
				if e.nilness(s2, p) == 1 {
					iv := e.IvOf(s2, src)
					c.Expect(!iv.NaN && iv.Lo == 0 && iv.Hi == 0, rule, "none", where, "Pull applies no %s score although %s may be %s (%s)", what, Canon(src), iv, e.trailStr(s2))
					return
				}
				v := e.Load(s2, p, f64)
				ok, got := clampOf(e, s2, v, src, 0, two53)
				c.Expect(ok, rule, "value", where, "Pull applies the %s score %s, expected %s (%s)", what, got, Canon(src), e.trailStr(s2))
			}
			mn, mx, sf := reqField(e, "MinScore"), reqField(e, "MaxScore"), reqField(e, "ScoreFilter")
			bound("pull-min-score", "minimum", a[4], st, mn)
			// the deprecated filter counts only without a maximum score
			s1 := st.clone()
			if e.setIv(s1, mx, Iv{Lo: 0, Hi: 0}) && e.setIv(s1, sf, Iv{Lo: 1, Hi: two63}) {
				var src *Term
				for t := range s1.facts {
					if x := filterSource(t, sf); x != nil && (src == nil || t.Op == "conv") {
						src = x
					}
				}
				if src == nil && e.nilness(s1, a[5]) != 1 {
					if x := filterSource(e.Load(s1, a[5], f64), sf); x != nil {
						src = x
					}
				}
				if src == nil {
					c.Bad("pull-score-filter", where, "Pull ignores the score filter of a request without maximum score (%s)", e.trailStr(st))
				} else {
					bound("pull-score-filter", "maximum", a[5], s1, src)
				}
			}
			for _, k := range []int{0, 1, 2} {
				s2 := st.clone()
				ok := false
				switch k {
				case 0:
					ok = e.setIv(s2, sf, Iv{Lo: -two63, Hi: 0})
				case 1:
					ok = e.setIv(s2, mx, Iv{Lo: 0, Hi: math.Inf(1), LoOpen: true})
				case 2:
					ok = e.setIv(s2, mx, Iv{Lo: math.Inf(-1), Hi: 0, HiOpen: true})
				}
				if ok {
					bound("pull-max-score", "maximum", a[5], s2, mx)
				}
			}
		}
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: keepNone, Model: pullArgs}, nil)
	}

	// ---- Ack, Nack
	for _, r := range []string{"Ack", "Nack"} {
		fn := c.rpc(r)
		if fn == nil {
			continue
		}
		msg := c.P.Named("internal/queue/message", "Message")
		c.Explore(fn, &Opts{Event: roleEvents, KeepEvent: keepNone, Model: model, OnEvent: func(e *Engine, st *State, ev *Event) {
			name := role(ev.Name)
			where := c.at(ev.Site)
			if name == "storage.Remove" || name == "cache.Remove" {
				n[r+":"+name]++
				c.Expect(Canon(ev.Args[2]) == "$2.Queue", "removed-queue", r+":"+name, where, "%s removes from queue %s, not from the requested one", r, Canon(ev.Args[2]))
				ids, ok := e.exactList(st, ev.Args[3])
				if !ok {
					ids = e.Elems(st, ev.Args[3])
				}
				c.Expect(len(ids) == 1 && Canon(ids[0]) == "$2.Id", "removed-id", r+":"+name, where, "%s removes %v, not the requested message", r, canons(ids))
				rm := reqField(e, "RemoveMessage")
				c.Expect(e.Truth(st, rm) == 1, "removed-only-on-request", r+":"+name, where, "%s removes a message the request does not ask to remove (%s)", r, e.trailStr(st))
				return
			}
			if !msgScoreEvents[name] {
				return
			}
			m := ev.Args[2]
			key := r + ":" + name
			n[key]++
			fld := func(f string) *Term { return c.msgField(e, st, m, f, fieldTyp(msg, f)) }
			for _, f := range [][2]string{{"ID", "Id"}, {"Queue", "Queue"}} {
				c.Expect(Canon(fld(f[0])) == "$2."+f[1], "message-identity", key+":"+f[0], where, "%s: %s of the message handed to %s is %s, not %s of the request (%s)", r, f[0], name, Canon(fld(f[0])), f[1], e.trailStr(st))
			}
			lock := reqField(e, "LockMs")
			li := e.IvOf(st, lock)
			if strings.HasPrefix(name, "storage.") {
				c.Expect(name == "storage."+r, "own-storage-operation", key, where, "%s calls %s", r, name)
				for _, f := range [][2]string{{"Breakpoint", "Breakpoint"}, {"LastScoreSubtract", "ScoreSubtract"}} {
					c.Expect(Canon(stripConv(fld(f[0]))) == "$2."+f[1], "message-fields", key+":"+f[0], where, "%s: %s of the message handed to %s is %s, not %s of the request (%s)", r, f[0], name, Canon(fld(f[0])), f[1], e.trailStr(st))
				}
				if r == "Ack" {
					lu := fld("LastUsage")
					v := baseTime(strip(e.Load(st, lu, fieldTyp(msg, "ExpiryDate"))))
					c.Expect(v.Op == "call" && strings.HasSuffix(v.Str, ".Now"), "last-usage-is-now", key, where, "Ack stores the last usage %s, not the current time", Canon(v))
				}
			}
			v, isN := stripConv(fld("LockMs")).Num()
			lk := Canon(stripConv(fld("LockMs"))) == "$2.LockMs" || isN && li.Lo == v && li.Hi == v || fld("LockMs").Op == "zero" && li.Hi <= 0 || isN && v == 0 && li.Hi <= 0
			switch name {
			case "cache.LockMessage":
				c.Expect(lk, "lock-time", key, where, "%s: the message is locked for %s ms, not for the requested time (%s)", r, Canon(fld("LockMs")), e.trailStr(st))
				c.Expect(li.Lo >= 1, "locked-only-on-request", key, where, "%s locks a message although the requested lock time may be %s", r, li)
				t, _ := ev.Args[3].StrVal()
				c.Expect(t == "lock_"+strings.ToLower(r), "lock-type", key, where, "%s locks the message as %q", r, t)
			case "cache.MakeAvailable":
				c.Expect(li.Hi <= 0, "available-only-without-lock", key, where, "%s makes a message available although the requested lock time may be %s (%s)", r, li, e.trailStr(st))
			}
			// score when none is provided
			sc := reqField(e, "Score")
			s0 := st.clone()
			if !e.setIv(s0, sc, Iv{Lo: 0, Hi: 0}) {
				return
			}
			s := fld("Score")
			sv, isS := s.Num()
			s1 := s0.clone()
			if name == "cache.LockMessage" && e.setIv(s1, lock, Iv{Lo: 1, Hi: two63}) {
				c.Expect(isS && sv == -1, "score-left-to-unlock", key, where, "%s: a locked message without provided score gets score %s instead of leaving it to the unlock (%s)", r, Canon(s), e.trailStr(st))
			}
			if !e.setIv(s0, lock, Iv{Lo: -two63, Hi: 0}) {
				return
			}
			if r == "Nack" {
				c.Expect(isS && sv == 0 || s.Op == "zero", "nack-default-score", key, where, "Nack: a message without provided score and lock gets score %s, not the minimum (%s)", Canon(s), e.trailStr(st))
				return
			}
			ss := reqField(e, "ScoreSubtract")
			ok := false
			got := Canon(s)
			try := func(t *Term) {
				if ok || t.Op != "binop" || t.Str != "-" || stripConv(t.Args[1]) != ss || !isNowMs(e, st, t.Args[0]) {
					return
				}
				ok, got = clampOf(e, s0, s, t, 0, two53)
			}
			try(stripConv(s))
			for t := range s0.facts {
				try(stripConv(t))
			}
			c.Expect(ok, "ack-default-score", key, where, "Ack: a message without provided score and lock gets score %s, not the default minus score_subtract (%s)", got, e.trailStr(st))
		}}, nil)
		for _, k := range []string{":storage." + r, ":cache.LockMessage", ":cache.MakeAvailable", ":storage.Remove", ":cache.Remove"} {
			if n[r+k] == 0 {
				c.Bad("anchor:"+r+k, "?", "no path of %s to %s was found", r, k[1:])
			}
		}
	}

	// ---- Count, GetById
	filter := func(e *Engine, st *State, ev *Event, r string, only map[string]string) {
		where := c.at(ev.Site)
		ot := c.P.Named("internal/queue/storage", "FindOptions")
		ft := c.P.Named("internal/queue/storage", "InternalFilter")
		if ot == nil || ft == nil {
			c.Bad("anchor:filter", "?", "storage.FindOptions / InternalFilter not found")
			return
		}
		f := e.Load(st, e.fa(ev.Args[2], "InternalFilter", fieldTyp(ot, "InternalFilter")), fieldTyp(ot, "InternalFilter"))
		if !c.Expect(e.nilness(st, f) != 1, "filter-given", r, where, "%s reads storage without a filter", r) {
			return
		}
		s := structOf(ft)
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			v := e.Load(st, e.fa(f, fd.Name(), fd.Type()), fd.Type())
			want, set := only[fd.Name()]
			switch {
			case set && fd.Name() == "Ids":
				l := e.Load(st, v, fd.Type().(*types.Pointer).Elem())
				ids, ok := e.exactList(st, l)
				if !ok {
					ids = e.Elems(st, l)
				}
				c.Expect(len(ids) == 1 && Canon(ids[0]) == want, "filter-field", r+":"+fd.Name(), where, "%s looks for the ids %v, not for %s", r, canons(ids), want)
			case set:
				c.Expect(Canon(v) == want, "filter-field", r+":"+fd.Name(), where, "%s filters %s by %s, not by %s", r, fd.Name(), Canon(v), want)
			default:
				empty := e.nilness(st, v) == 1 || v.Op == "zero"
				if types.Identical(fd.Type(), str) {
					empty = noStr(e, st, v)
				}
				c.Expect(empty, "no-other-filter", r+":"+fd.Name(), where, "%s also filters %s by %s", r, fd.Name(), Canon(v))
			}
		}
		n[r]++
	}
	if fn := c.rpc("Count"); fn != nil {
		c.Explore(fn, &Opts{Event: roleEvents, OnEvent: func(e *Engine, st *State, ev *Event) {
			if role(ev.Name) == "storage.Count" {
				filter(e, st, ev, "Count", map[string]string{"Queue": "$2.Queue"})
			}
		}, OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 {
				return
			}
			failed := false
			for _, ev := range evs(st, "storage.Count") {
				failed = failed || e.nilness(st, ev.Errs) != 1
			}
			v := e.Load(st, e.fa(res[0], "Count", i64), i64)
			n["CountReply"]++
			c.Expect(!failed && Canon(stripConv(v)) == "storage.Count#0", "count-reply", "", c.P.Pos(fn.Pos()), "Count replies %s, not the number storage counted (%s)", Canon(v), e.trailStr(st))
		}}, nil)
	}
	if fn := c.rpc("GetById"); fn != nil {
		pb := c.P.Named("", "Message")
		c.Explore(fn, &Opts{Event: roleEvents, OnEvent: func(e *Engine, st *State, ev *Event) {
			if role(ev.Name) == "storage.Find" {
				filter(e, st, ev, "GetById", map[string]string{"Queue": "$2.Queue", "Ids": "$2.Id"})
			}
		}, OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 || pb == nil {
				return
			}
			v := e.Load(st, e.fa(res[0], "Found", types.Typ[types.Bool]), types.Typ[types.Bool])
			m := e.Load(st, e.fa(res[0], "Message", types.NewPointer(pb)), types.NewPointer(pb))
			n["Found"]++
			tv, nl := e.Truth(st, v), e.nilness(st, m)
			c.Expect(tv == 1 && nl == 2 || tv == 2 && nl == 1, "found-iff-message", "", c.P.Pos(fn.Pos()), "GetById replies found=%s with message %s (%s)", Canon(v), Canon(m), e.trailStr(st))
			if tv == 2 {
				// not found only when storage returned nothing usable
				for _, ev := range evs(st, "storage.Find") {
					if ev.Res.Op == "tuple" || ev.Res != nil {
						l := e.IvOf(st, e.Len(e.ext(ev.Res, 0, nil)))
						c.Expect(!l.has(1), "found-when-stored", "", c.P.Pos(fn.Pos()), "GetById may reply not found although storage returned one message (%s)", e.trailStr(st))
					}
				}
			}
		}}, nil)
	}

	// ---- Remove
	if fn := c.rpc("Remove"); fn != nil {
		c.Explore(fn, &Opts{Event: roleEvents, OnEvent: func(e *Engine, st *State, ev *Event) {
			name := role(ev.Name)
			if name != "storage.Remove" && name != "cache.Remove" {
				return
			}
			n["Remove:"+name]++
			c.Expect(Canon(ev.Args[2]) == "$2.Queue", "removed-queue", "Remove:"+name, c.at(ev.Site), "Remove removes from queue %s, not from the requested one", Canon(ev.Args[2]))
			ids := ev.Args[3]
			cn := Canon(ids)
			ok := cn == "$2.Ids"
			if !ok {
				es := e.Elems(st, ids)
				ok = len(es) > 0
				for _, x := range es {
					ok = ok && Canon(x) == "$2.Ids[*]"
				}
			}
			c.Expect(ok, "removed-ids", "Remove:"+name, c.at(ev.Site), "Remove removes %s, not the requested ids", cn)
		}, OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 {
				return
			}
			done := len(evs(st, "storage.Remove")) > 0
			for f, op := range map[string]string{"CacheRemoved": "cache.Remove", "StorageRemoved": "storage.Remove"} {
				v := stripConv(e.Load(st, e.fa(res[0], f, i64), i64))
				k, isN := v.Num()
				zero := v.Op == "zero" || isN && k == 0
				n["RemoveReply"]++
				c.Expect(Canon(v) == op+"#0" || zero && !done, "remove-reply", f, c.P.Pos(fn.Pos()), "Remove replies %s as %s (%s)", Canon(v), f, e.trailStr(st))
			}
			if !done {
				iv := e.IvOf(st, e.Len(reqField(e, "Ids")))
				c.Expect(iv.Hi <= 0, "remove-not-skipped", "", c.P.Pos(fn.Pos()), "Remove replies success without removing anything although the request may hold %s ids (%s)", iv, e.trailStr(st))
			}
		}}, nil)
	}

	// ---- EditQueue, GetQueue
	cfgEvents := func(ci *CallInfo) bool {
		return strings.Contains(ci.Name, "/internal/queue.QueueConfigurationService).")
	}
	cfg := c.P.Named("internal/queue/configuration", "QueueConfiguration")
	pbc := c.P.Named("", "QueueConfiguration")
	if fn := c.rpc("EditQueue"); fn != nil && cfg != nil {
		c.Explore(fn, &Opts{Event: cfgEvents, OnEvent: func(e *Engine, st *State, ev *Event) {
			if !strings.HasSuffix(ev.Name, ".EditQueueConfiguration") {
				return
			}
			n["EditQueue"]++
			for _, f := range [][2]string{{"Queue", "$2.Queue"}, {"MaxElements", "$2.Configuration.MaxElements"}} {
				v := c.msgField(e, st, ev.Args[2], f[0], fieldTyp(cfg, f[0]))
				c.Expect(Canon(stripConv(v)) == f[1], "edit-fields", f[0], c.at(ev.Site), "EditQueue stores %s = %s, not %s of the request", f[0], Canon(v), f[1])
			}
		}, OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 {
				return
			}
			v := e.Load(st, e.fa(res[0], "Success", types.Typ[types.Bool]), types.Typ[types.Bool])
			if e.Truth(st, v) == 2 {
				return
			}
			done := false
			for _, ev := range st.events {
				done = done || strings.HasSuffix(ev.Name, ".EditQueueConfiguration") && ev.Errs != nil && e.nilness(st, ev.Errs) == 1
			}
			c.Expect(done, "edit-success-only-after-edit", "", c.P.Pos(fn.Pos()), "EditQueue may reply success although the edit was not made (%s)", e.trailStr(st))
		}}, nil)
	}
	if fn := c.rpc("GetQueue"); fn != nil && cfg != nil && pbc != nil {
		c.Explore(fn, &Opts{Event: cfgEvents, OnEvent: func(e *Engine, st *State, ev *Event) {
			if strings.HasSuffix(ev.Name, ".GetQueueConfiguration") {
				n["GetQueue"]++
				c.Expect(Canon(ev.Args[2]) == "$2.Queue", "get-queue", "", c.at(ev.Site), "GetQueue reads the configuration of %s, not of the requested queue", Canon(ev.Args[2]))
			}
		}, OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 {
				return
			}
			q := e.Load(st, e.fa(res[0], "Configuration", types.NewPointer(pbc)), types.NewPointer(pbc))
			v := c.msgField(e, st, q, "MaxElements", i64)
			c.Expect(strings.HasSuffix(Canon(stripConv(v)), "GetQueueConfiguration#0.MaxElements") || e.isNilSource(st, "GetQueueConfiguration#0") && v.Op != "opq", "get-queue-reply", "", c.P.Pos(fn.Pos()), "GetQueue replies max elements %s, not the configured value (%s)", Canon(v), e.trailStr(st))
		}}, nil)
	}
	for _, k := range []string{"Pull", "Count", "CountReply", "GetById", "Found", "Remove:storage.Remove", "Remove:cache.Remove", "RemoveReply", "EditQueue", "GetQueue"} {
		if n[k] == 0 {
			c.Bad("anchor:"+k, "?", "%s: nothing to compare was found", k)
		}
	}
}

// isNilSource: a value whose canonical name ends like suffix is known to be nil.
func (e *Engine) isNilSource(st *State, suffix string) bool {
	for t, f := range st.facts {
		if f.Nil == 1 && strings.HasSuffix(Canon(t), suffix) {
			return true
		}
	}
	return false
}

func canons(ts []*Term) []string {
	var s []string
	for _, t := range ts {
		s = append(s, Canon(t))
	}
	return s
}

// isNowMs: the default score, i.e. the current time in milliseconds.
func isNowMs(e *Engine, st *State, t *Term) bool {
	t = stripConv(t)
	return t.Op == "call" && strings.HasSuffix(t.Str, "dtime.NowMs")
}

// filterSource: t is the time score_filter milliseconds ago.
func filterSource(t, sf *Term) *Term {
	x := t
	for x.Op == "conv" || x.Op == "iface" || x.Op == "nf" {
		x = x.Args[0]
	}
	if x.Op == "binop" && x.Str == "-" && stripConv(x.Args[1]) == sf && strings.Contains(Canon(x.Args[0]), "Now") {
		return t
	}
	return nil
}
