package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *rds) scoreRole(lock string) string {
	for s, p := range r.suffix {
		if p == lock+"_pool" {
			return "score:" + s + r.scoreSuf
		}
	}
	return "score:?"
}

// client: commands go to the configured client, or to the node a cluster-wide call names.
func (r *rds) client(e *Engine, st *State, t *Term, where string) {
	t = strip(t)
	ok := t.Op == "load" && t.Args[0].Op == "fa" && r.clientF[t.Args[0].Str] || t.Op == "ta" || t.Op == "param"
	r.expect("C21", ok, "runs-on-the-configured-client", r.op.name, where, "%s issues a command on %s", r.op.name, Canon(t))
}

// node: a scan or deletion reaches one node only, unless it is the single node.
func (r *rds) onNode(e *Engine, st *State, t *Term, m, where string) {
	t = strip(t)
	if t.Op == "param" && strings.HasPrefix(t.Str, "cb:") {
		return
	}
	cl := false
	for f := range r.clusterF {
		x := e.T.mk("load", "", types.Typ[types.Bool], e.fa(e.Param("$0", nil), f, types.Typ[types.Bool]))
		cl = cl || e.Truth(st, x) == 2
	}
	// or the client was found not to be a cluster client
	for x, f := range st.facts {
		if x.Op == "taok" && strings.Contains(x.Str, "ClusterClient") && f.B == 2 {
			cl = true
		}
	}
	r.expect("C23", cl, "cluster-scans-visit-every-master", r.op.name+":"+m, where, "%s issues %s on the client although it may be a cluster: only one node is reached (%s)", r.op.name, m, e.trailStr(st))
}

var adminCmds = map[string]bool{"Ping": true, "Close": true, "Options": true, "PoolStats": true, "AddHook": true, "WithContext": true, "Conn": true, "String": true, "ForEachMaster": true, "ForEachSlave": true, "ForEachShard": true, "Process": true, "SetLogger": true, "ReloadState": true, "WithTimeout": true, "Client": true}
var readMethods = map[string]bool{"ZScore": true, "ZCard": true, "ZCount": true, "ZRange": true, "ZRangeByScore": true, "ZRank": true, "Exists": true, "TTL": true, "Type": true, "Get": true}

func (r *rds) command(e *Engine, st *State, ci *CallInfo, m string) ([]*Outcome, bool) {
	c := r.c
	where := c.at(ci.Site)
	op := r.op
	a := ci.Args
	if strings.HasPrefix(m, "ForEach") {
		st.ghost["rd:each"] = m
		r.expect("C23", m == "ForEachMaster" || m == "ForEachShard", "cluster-scans-visit-every-master", op.name+":"+m, where, "%s visits the nodes by %s, which leaves masters out", op.name, m)
		r.clusterSeen = true
		return nil, false
	}
	if adminCmds[m] {
		return nil, false
	}
	if strings.HasPrefix(m, "Flush") {
		r.expect("C23", false, "never-flushes-the-database", op.name, where, "%s issues %s: keys of other applications are deleted", op.name, m)
		return nil, false
	}
	res := ci.Sig.Results()
	if res.Len() != 1 {
		return nil, false
	}
	t := e.fresh(st, "opq", "redis."+m, ci.Site, "r", res.At(0).Type())
	t.Typ = res.At(0).Type()
	e.refresh(ci, t)
	a = ci.Args
	out := &Outcome{Res: t, Apply: func(n *State) {
		n.facts[t] = Fact{Nil: 2}
		n.mem[e.T.mk("rd:last", "", nil)] = e.T.mk("tuple", "", nil, t)
		switch m {
		case "Scan":
			n.mem[e.T.mk("rd:scan", "", nil)] = e.T.mk("tuple", "", nil, t)
			n.ghost["rd:batch"] = "pending"
		}
	}}
	r.failChecked(e, st, where, m+" is issued")
	switch m {
	case "Scan":
		r.onNode(e, st, a[0], m, where)
		last := st.mem[e.T.mk("rd:scan", "", nil)]
		if last != nil {
			last = last.Args[0]
		}
		cur := strip(a[2])
		n, isC := cur.Num()
		switch {
		case last == nil:
			ok := isC && n == 0 || e.IvOf(st, cur).within(0, 0)
			r.expect("C23", ok || st.ghost["rd:scanning"] != "", "scan-starts-at-zero", op.name, where, "%s starts a scan at cursor %s", op.name, Canon(cur))
		default:
			lc := r.cursorOf(e, last)
			r.expect("C23", cur == lc || isC && n == 0 && e.Truth(st, e.Eq(lc, e.T.Int(0))) == 1, "scan-follows-its-cursor", op.name, where, "%s continues a scan at %s instead of the cursor answered (%s)", op.name, Canon(cur), e.trailStr(st))
		}
		r.held(e, st, last)
		r.expect("C23", st.ghost["rd:batch"] != "pending", "scanned-keys-are-kept", op.name, where, "%s scans on without having used the keys found (%s)", op.name, e.trailStr(st))
		k := r.keyOf(e, st, a[3], r.patternTerms(e))
		r.checkKey(e, st, k, ci.Site, true)
		r.expect("C23", k.prefix == "E" || strings.HasPrefix(k.prefix, "D:"), "pattern-prefix-is-literal", op.name, where, "%s scans for %s: a prefix with a special character matches keys of others", op.name, Canon(strip(a[3])))
		if op.name == "ListQueues" {
			r.expect("C23", k.tagged(), "lists-keys-of-queues", op.name+":"+k.suffix, where, "ListQueues scans for %s", Canon(strip(a[3])))
		} else {
			r.expect("C23", strings.HasPrefix(k.mid, ":") && strings.HasSuffix(k.mid+k.suffix, "*") && k.tag == nil, "flush-covers-the-namespace", op.name, where, "%s scans for %s", op.name, Canon(strip(a[3])))
			r.expect("C23", k.mid == ":*", "flush-covers-the-namespace", op.name, where, "%s scans for %s, which leaves keys of the namespace out", op.name, Canon(strip(a[3])))
		}
		st.ghost["rd:scanning"] = "y"
		r.scans++
	case "Del", "Unlink":
		r.onNode(e, st, a[0], m, where)
		if t := strip(a[len(a)-1]); true {
			if last := st.mem[e.T.mk("rd:scan", "", nil)]; last != nil && mentions(t, e.T.mk("rd:Val", "", nil, last.Args[0])) {
				st.ghost["rd:batch"] = ""
			}
			// one part of the list of keys, but not of a shortened list
			if t.Op == "slice" {
				t = strip(t.Args[0])
			}
			short := t.Op == "slice" && len(t.Args) > 2 && t.Args[2] != nil && strip(t.Args[2]).Op != "len" && !strip(t.Args[2]).IsNil()
			r.expect("C23", !short, "deletes-every-scanned-key", op.name, where, "%s deletes only a part of the keys found: %s (%s)", op.name, Canon(t), e.trailStr(st))
		}
		ok := true
		for _, x := range e.Elems(st, a[len(a)-1]) {
			ok = ok && (r.fromScan(e, st, x, 0) || isEmptyStr(x)) // an element of a list that is empty
		}
		if !ok {
			ok = r.scannedKeys(e, st, a[len(a)-1])
		}
		r.expect("C23", ok, "deletes-only-scanned-keys", op.name, where, "%s deletes %s, which is not known to be in the namespace", op.name, Canon(strip(a[len(a)-1])))
		r.scanDone(e, st, where, "keys are deleted")
		r.expect("C23", op.name == "Flush", "deletes-only-in-flush", op.name, where, "%s deletes keys", op.name)
		r.dels++
	default:
		var key *Term
		if len(a) > 2 && a[2].Typ != nil && isStrT(a[2].Typ) {
			key = strip(a[2])
		}
		if key == nil && len(a) > 2 {
			if _, ok := strip(a[2]).StrVal(); ok {
				key = strip(a[2])
			}
		}
		if key == nil {
			c.Bad("unknown-command:"+m, where, "%s issues %s, which is not accounted for", op.name, m)
			return []*Outcome{out}, true
		}
		k := r.keyOf(e, st, key, append(r.queueTerms(e), r.keyTerms(e)...))
		r.checkKey(e, st, k, ci.Site, false)
		r.expect("C22", k.tagged(), "key-tagged", op.name+":"+m, where, "the key %s of %s has no tag", Canon(key), m)
		if op.name == "Get" || op.name == "Set" {
			r.genMid[k.mid] = true
			r.expect("C22", r.mid == "" || !strings.HasPrefix(k.mid, r.mid) && !strings.HasPrefix(r.mid, k.mid), "general-keys-are-no-pools", op.name, where, "the key %s may be that of a queue", Canon(key))
			r.expect("C21", m == map[string]string{"Get": "Get", "Set": "Set"}[op.name], "commands-of-get-and-set", op.name+":"+m, where, "%s issues %s", op.name, m)
			if m == "Set" && len(a) > 4 {
				n, ok := a[4].Num()
				r.expect("C21", stripConv(a[3]) == e.Param("$3", nil) && ok && n == 0, "values-are-kept", op.name, where, "Set stores %s with expiry %s", Canon(a[3]), Canon(a[4]))
			}
		} else {
			for _, q := range r.queueTerms(e) {
				ok, ch := r.noBraces(e, st, q)
				r.expect("C22", ok, "queue-name-without-braces", op.name, where, "%s may reach Redis with a queue name that contains '%s' (%s)", op.name, ch, e.trailStr(st))
			}
			r.expect("C21", readMethods[m], "changes-only-by-scripts", op.name+":"+m, where, "%s issues %s directly: moves are not atomic", op.name, m)
			if op.name == "IsProcessing" {
				role := r.suffix[k.suffix]
				r.expect("C21", role == "processing_pool" && k.mid == r.mid, "asks-the-processing-pool", op.name, where, "IsProcessing asks %s", Canon(key))
				r.expect("C21", len(a) > 3 && stripConv(a[3]) == e.Param("$3", nil), "asks-for-the-id", op.name, where, "IsProcessing asks for %s", Canon(a[len(a)-1]))
			}
		}
	}
	return []*Outcome{out}, true
}

func (r *rds) keyTerms(e *Engine) []*Term {
	if r.op.name == "Get" || r.op.name == "Set" {
		return []*Term{e.Param("$2", nil)}
	}
	return nil
}

func (r *rds) patternTerms(e *Engine) []*Term {
	if r.op.name == "ListQueues" {
		return []*Term{e.Param("$2", nil)}
	}
	return nil
}

func (r *rds) cursorOf(e *Engine, cmd *Term) *Term { return e.T.mk("rd:Val1", "", nil, cmd) }

// fromScan: the key was found by a scan of the namespace.
func (r *rds) fromScan(e *Engine, st *State, x *Term, d int) bool {
	x = strip(x)
	if d > 8 {
		return false
	}
	switch x.Op {
	case "rd:Val":
		return strings.HasPrefix(x.Args[0].Label, "redis.Scan")
	case "elems", "load", "ia", "slice", "ext":
		return r.fromScan(e, st, x.Args[0], d+1)
	case "zero", "const":
		return x.Op == "zero"
	case "coll":
		for _, a := range x.Args {
			if !r.fromScan(e, st, a, d+1) {
				return false
			}
		}
		return true
	case "mkslice":
		for _, a := range e.Elems(st, x) {
			if a.Op != "zero" && !isEmptyStr(a) && !r.fromScan(e, st, a, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func isEmptyStr(t *Term) bool { s, ok := t.StrVal(); return ok && s == "" }

func (r *rds) scannedKeys(e *Engine, st *State, t *Term) bool {
	t = strip(t)
	for t.Op == "slice" {
		t = strip(t.Args[0])
	}
	return r.fromScan(e, st, t, 0)
}

// scanDone: the scan reached its end and its keys were kept, or it failed.
func (r *rds) scanDone(e *Engine, st *State, where, what string) {
	last := st.mem[e.T.mk("rd:scan", "", nil)]
	if last == nil {
		return
	}
	last = last.Args[0]
	er := e.T.mk("rd:Err", "", nil, last)
	if e.nilness(st, er) == 2 {
		return
	}
	cur := r.cursorOf(e, last)
	zero := e.Truth(st, e.Eq(cur, e.T.Int(0))) == 1 || e.IvOf(st, cur).within(0, 0)
	r.expect("C23", zero, "scan-runs-to-its-end", r.op.name, where, "%s: %s although the scan has not come to its end (%s)", r.op.name, what, e.trailStr(st))
	r.expect("C23", st.ghost["rd:batch"] != "pending", "scanned-keys-are-kept", r.op.name, where, "%s: %s although keys found were not used (%s)", r.op.name, what, e.trailStr(st))
}

// constOf resolves package-level values that are never changed.
func (r *rds) constOf(e *Engine, t *Term) (float64, bool) {
	t = stripNum(strip(t))
	if n, ok := t.Num(); ok {
		return n, true
	}
	if t.Op != "load" || t.Args[0].Op != "global" {
		return 0, false
	}
	if v := e.globalConst(t.Args[0].Str); v != nil {
		return v.Num()
	}
	// a duration converted at start
	for _, pk := range r.c.P.Mod {
		if pk.SSA == nil {
			continue
		}
		f := pk.SSA.Func("init")
		n, val, ok := 0, 0.0, false
		once := map[*ssa.Function]bool{}
		for _, g := range append(allFuncs(pk.SSA), f) {
			if g == nil || once[g] {
				continue
			}
			once[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					s, is := in.(*ssa.Store)
					if !is || s.Addr.String() != t.Args[0].Str && "*"+s.Addr.String() != t.Args[0].Str {
						continue
					}
					if gl, isG := s.Addr.(*ssa.Global); !isG || gl.String() != t.Args[0].Str {
						continue
					}
					n++
					cl, is := s.Val.(*ssa.Call)
					if !is || cl.Call.StaticCallee() == nil || len(cl.Call.Args) != 1 {
						continue
					}
					cv := cl.Call.Args[0]
					for {
						if x, is := cv.(*ssa.ChangeType); is {
							cv = x.X
							continue
						}
						if x, is := cv.(*ssa.Convert); is {
							cv = x.X
							continue
						}
						break
					}
					k, is := cv.(*ssa.Const)
					if !is || k.Value == nil {
						continue
					}
					d, _ := constant.Float64Val(constant.ToFloat(k.Value))
					switch funcName(cl.Call.StaticCallee()) {
					case "(time.Duration).Milliseconds":
						val, ok = math.Trunc(d/1e6), true
					case "(time.Duration).Seconds":
						val, ok = d/1e9, true
					case "(time.Duration).Microseconds":
						val, ok = math.Trunc(d/1e3), true
					case "(time.Duration).Nanoseconds":
						val, ok = d, true
					}
				}
			}
		}
		if n == 1 && ok {
			return val, true
		}
		if n > 0 {
			return 0, false
		}
	}
	return 0, false
}

type deadlineOp struct {
	c    *Ctx
	r    *rds
	dur  func(t *Term) bool                      // the term is the duration asked for
	dflt func(e *Engine, st *State, t *Term) int // 1: the default applies and t is it; 2: it does not apply; 0 wrong
	now  func(t *Term) bool
}

// deadline: the value is now plus the duration, both in milliseconds, without wrapping around.
func (r *rds) deadline(e *Engine, st *State, t *Term) (bool, string) {
	if t == nil {
		return false, "which is unknown"
	}
	op := r.op
	d := &deadlineOp{c: r.c, r: r, now: rdNow}
	if op.name == "LockMessage" {
		d.dur = func(x *Term) bool {
			x = stripConv(x)
			return x.Op == "load" && x.Args[0].Op == "fa" && x.Args[0].Str == "LockMs" && strip(x.Args[0].Args[0]) == e.Param(fmt.Sprintf("$%d", op.msg), nil)
		}
	} else {
		p := e.Param(fmt.Sprintf("$%d", r.pullDead), nil)
		d.dur = func(x *Term) bool { return stripConv(x) == p }
		d.dflt = func(e *Engine, st *State, x *Term) int { return r.dfltDeadline(e, st, p, x) }
	}
	return d.check(e, st, t)
}

func (r *rds) dfltDeadline(e *Engine, st *State, p, x *Term) int {
	iv := e.IvOf(st, p)
	if !iv.has(0) {
		return 2
	}
	if n, ok := r.constOf(e, x); ok && n == 300000 && iv.within(0, 0) {
		return 1
	}
	return 0
}

func (d *deadlineOp) check(e *Engine, st *State, t *Term) (bool, string) {
	x := stripNum(strip(t))
	isDur := func(y *Term) bool { return d.dur(y) || d.dflt != nil && d.dflt(e, st, y) == 1 }
	// what the path knows of the duration
	upper, lower, above, below := false, false, false, false
	for f, v := range st.facts {
		if f.Op != "lt" && f.Op != "le" || v.B == 0 {
			continue
		}
		a, b := stripNum(f.Args[0]), stripNum(f.Args[1])
		aBelow := v.B == 1
		if !aBelow {
			a, b = b, a // not a<b means b<=a
		}
		rel := func(y *Term) bool { // something the duration is compared with
			if _, ok := d.r.constOf(e, y); ok {
				return true
			}
			if y.Op == "neg" && d.now(y.Args[0]) {
				return true
			}
			return y.Op == "binop" && y.Str == "-" && d.now(y.Args[1]) || d.now(y) || y.Op == "binop" && y.Str == "+" && y.Args[0].Op == "neg"
		}
		isSum := func(y *Term) bool {
			return y.Op == "binop" && y.Str == "+" && (d.now(y.Args[0]) && isDur(y.Args[1]) || d.now(y.Args[1]) && isDur(y.Args[0]))
		}
		switch {
		case isDur(a) && rel(b):
			upper = true
			below = true
		case isDur(b) && rel(a):
			lower = true
			above = true
		case isSum(b) && (rel(a)): // sum >= something: it did not wrap around
			lower, upper = true, true
			above = true
		case isSum(a) && rel(b):
			if n, ok := d.r.constOf(e, b); ok && n <= 0 || d.now(b) {
				above, below = true, true // it wrapped around, or the duration is negative
			} else {
				upper = true
			}
		}
	}
	if n, ok := d.r.constOf(e, x); ok {
		switch {
		case n >= two53 && n < 9.2e18 && above:
			return true, ""
		case n == 0 && below:
			return true, ""
		}
		return false, "which does not depend on the duration"
	}
	if d.now(x) {
		if below {
			return true, ""
		}
		return false, "without the duration"
	}
	if x.Op != "binop" || x.Str != "+" {
		return false, "which is not the current time plus the duration"
	}
	var du *Term
	switch {
	case d.now(x.Args[0]):
		du = x.Args[1]
	case d.now(x.Args[1]):
		du = x.Args[0]
	default:
		return false, "which is not based on the current time in milliseconds"
	}
	switch {
	case d.dflt != nil && d.dflt(e, st, du) == 1:
		return true, ""
	case d.dflt != nil && d.dflt(e, st, du) == 0:
		return false, "although a duration of zero stands for five minutes"
	case !d.dur(du):
		return false, "where the duration is " + Canon(du)
	}
	if x.Typ != nil && isFloatT(x.Typ) {
		return true, ""
	}
	iv := e.IvOf(st, stripNum(du))
	upper = upper || iv.Hi <= math.Pow(2, 62)
	lower = lower || iv.Lo >= 0
	if !upper {
		return false, "which wraps around for a huge duration: the deadline lies in the past"
	}
	if !lower {
		return false, "which may be negative and then never comes due"
	}
	return true, ""
}

// ---- driver ----------------------------------------------------------------

func (c *Ctx) redisCache(id string) {
	r := c.redisImpl(id)
	if r == nil {
		return
	}
	r.clusterF = map[string]bool{}
	for i := 0; i < r.strct.NumFields(); i++ {
		if b, ok := r.strct.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			r.clusterF[r.strct.Field(i).Name()] = true
		}
	}
	r.moves, r.seenOp = map[string]bool{}, map[string]bool{}
	r.pullN, r.pullMin, r.pullMax, r.pullDead = -1, -1, -1, -1
	e0 := NewEngine(c.P, &Opts{})
	for _, pk := range c.P.Mod {
		if strings.HasSuffix(pk.Path, "internal/queue/score") {
			if v := e0.globalConst(pk.Path + ".Undefined"); v != nil {
				if n, ok := v.Num(); ok {
					r.undefined = &n
				}
			}
		}
	}
	if r.undefined == nil {
		c.Bad("anchor:score.Undefined", "internal/queue/score", "the marker of an undefined score was not found")
		return
	}
	r.roles()
	if c.badSeen["anchor:pools"] {
		return
	}
	if id == "C24" {
		r.nmax = r.pullBound()
	}
	iface := c.P.Named(cachePkg, "Cache")
	it, _ := iface.Underlying().(*types.Interface)
	routes := map[string]rop{
		"MakeAvailable":   {kind: "one", from: "processing_pool", to: "primary_pool"},
		"LockMessage":     {kind: "one", from: "processing_pool"},
		"UnlockMessages":  {kind: "range", to: "primary_pool"},
		"PullMessages":    {kind: "range", from: "primary_pool", to: "processing_pool"},
		"TimeoutMessages": {kind: "range", from: "processing_pool", to: "primary_pool"},
		"Insert":          {kind: "insert", to: "primary_pool"},
		"Remove":          {kind: "remove"},
	}
	for i := 0; i < it.NumMethods(); i++ {
		name := it.Method(i).Name()
		fn := c.P.methodOf(r.impl, name)
		if fn == nil || len(fn.Blocks) == 0 {
			c.Bad("anchor:"+name, cachePkg, "%s.%s not found", r.name, name)
			continue
		}
		if name == "Close" || name == "ListQueues" {
			continue
		}
		rt, known := routes[name]
		if !known {
			rt = rop{kind: "other"}
		}
		rt.name = name
		rt.msg, rt.queue, rt.id, rt.list = -1, -1, -1, -1
		lockP, ints, floats := -1, 0, 0
		for i, p := range fn.Params {
			t := p.Type().String()
			switch {
			case i == 0:
			case strings.HasPrefix(t, "*") && strings.HasSuffix(t, "message.Message"):
				rt.msg = i
			case strings.HasPrefix(t, "[]*") && strings.HasSuffix(t, "message.Message"):
				rt.list = i
			case strings.HasSuffix(t, "cache.LockType"):
				lockP = i
			case t == "string" && rt.queue < 0 && name != "Get" && name != "Set":
				rt.queue = i
			case t == "[]string":
				rt.id = i
			case t == "*float64":
				if floats++; floats == 1 {
					r.pullMin = i
				} else {
					r.pullMax = i
				}
			case t == "int64":
				if ints++; ints == 1 {
					r.pullN = i
				} else {
					r.pullDead = i
				}
			}
		}
		locks := []string{""}
		if lockP >= 0 {
			locks = []string{"lock_ack", "lock_nack"}
		}
		for _, l := range locks {
			op := rt
			op.lock = l
			if l != "" {
				if name == "LockMessage" {
					op.to = l + "_pool"
				} else {
					op.from = l + "_pool"
				}
			}
			r.op = &op
			r.explore(fn, lockP)
			if op.kind == "remove" || op.kind == "insert" {
				in := overwrites(fn, 0, 0)
				where := c.P.Pos(fn.Pos())
				if in != nil {
					where = c.at(in)
				}
				r.expect("C21", in == nil, "result-covers-every-part", name, where, "%s: the result of one part replaces those of the parts before it", name)
			}
			if known {
				c.Expect(r.seenOp[name+l], "operation-runs-a-script", name+l, c.P.Pos(fn.Pos()), "%s %s runs no script", name, l)
				if op.kind != "remove" {
					r.expect("C21", r.moves[name+l], "operation-moves-messages", name+l, c.P.Pos(fn.Pos()), "%s %s never moves a message", name, l)
				}
			}
		}
	}
	if id == "C23" {
		c.Expect(r.scans > 0 && r.dels > 0, "flush-deletes", "Flush", cachePkg, "Flush does not scan and delete keys")
	}
}

// roles: ListQueues tells which key holds which pool.
func (r *rds) roles() {
	c := r.c
	lq := c.P.methodOf(r.impl, "ListQueues")
	if lq == nil {
		c.Bad("anchor:ListQueues", cachePkg, "ListQueues not found")
		return
	}
	pp := -1
	for i, p := range lq.Params {
		if strings.HasSuffix(p.Type().String(), "pool.PoolType") {
			pp = i
		}
	}
	for _, pool := range poolNames {
		pool := pool
		r.op = &rop{name: "ListQueues", msg: -1, queue: -1, id: -1, kind: "list"}
		r.listPool = pool
		c.Explore(lq, r.opts(lq), func(st *State, args []*Term) {
			if pp >= 0 {
				st.facts[args[pp]] = Fact{SEq: &pool}
			}
		})
	}
	have := map[string]string{}
	for s, p := range r.suffix {
		have[p] = s
	}
	for _, p := range poolNames {
		if _, ok := have[p]; !ok {
			c.Bad("anchor:pools", c.P.Pos(lq.Pos()), "ListQueues scans no keys for pool %s", p)
			return
		}
	}
	c.Expect(len(r.suffix) == len(poolNames), "pools-have-different-keys", "", c.P.Pos(lq.Pos()), "two pools of a queue have the same key")
	// the keys of kept scores are named in the lock operation
	lk := c.P.methodOf(r.impl, "LockMessage")
	if lk == nil {
		return
	}
	lp := -1
	for i, p := range lk.Params {
		if strings.HasSuffix(p.Type().String(), "cache.LockType") {
			lp = i
		}
	}
	kinds := map[string]bool{}
	id := r.id
	r.id = ""
	for _, l := range []string{"lock_ack", "lock_nack"} {
		r.op = &rop{name: "LockMessage", msg: 2, queue: -1, id: -1, kind: "one", lock: l, from: "processing_pool", to: l + "_pool"}
		for i, p := range lk.Params {
			if strings.HasSuffix(p.Type().String(), "message.Message") {
				r.op.msg = i
			}
		}
		o := r.opts(lk)
		inner := o.Model
		o.Model = func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			if recv, m := redisShort(ci.Name); recv == "Script" && m == "Run" && len(ci.Args) > 3 {
				ks, _ := e.exactList(st, ci.Args[3])
				for _, k := range ks {
					kd := r.keyOf(e, st, k, r.queueTerms(e))
					if _, ok := r.suffix[kd.suffix]; !ok && strings.HasPrefix(kd.suffix, have[l+"_pool"]) {
						kinds[strings.TrimPrefix(kd.suffix, have[l+"_pool"])] = true
					}
				}
			}
			return inner(e, st, ci)
		}
		l := l
		saveBad, saveSeen := c.bad, map[string]bool{}
		for k := range c.badSeen {
			saveSeen[k] = true
		}
		c.Explore(lk, o, func(st *State, args []*Term) {
			if lp >= 0 {
				args[lp] = r.c.curEngine.T.S(l)
			}
		})
		c.bad, c.badSeen = saveBad, saveSeen
	}
	r.id = id
	if len(kinds) == 1 {
		for k := range kinds {
			r.scoreSuf = k
		}
	} else {
		r.expect("C25", false, "scores-kept-in-one-place", "", c.P.Pos(lk.Pos()), "the two lock types keep scores under different names: %v", sortedB(kinds))
	}
}

func (r *rds) opts(fn *ssa.Function) *Opts {
	c := r.c
	return &Opts{NoEscape: true, Exact: true, Model: r.modelAll,
		NoElems: r.op.name == "ListQueues",
		KeepPhi: func(v *Term) bool { return strings.HasPrefix(strip(v).Op, "rd:Val") },
		CallsBack: func(n string) bool {
			_, m := redisShort(n)
			return strings.HasPrefix(m, "ForEach") && strings.Contains(n, goredis)
		},
		OnReturn: func(e *Engine, st *State, res []*Term) {
			if last := st.mem[e.T.mk("rd:scan", "", nil)]; last != nil && st.ghost["rd:batch"] == "pending" {
				v := e.T.mk("rd:Val", "", nil, last.Args[0])
				for _, x := range res {
					if x != nil && mentions(x, v) {
						st.ghost["rd:batch"] = ""
					}
				}
			}
		},
		OnSlice: func(e *Engine, st *State, x *ssa.Slice, t *Term) { r.slices[t] = x },
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			lockCall(e, st, ci)
		},
		OnChan: func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) {
			if kind != "recv" {
				return
			}
			ci := st.mem[e.T.mk("callinfo", "", nil, strip(ch))]
			if ci != nil && strings.HasSuffix(ci.Str, "gopart.Partition") && len(ci.Args) == 2 {
				r.parts[v.ID] = &rpart{strip(ci.Args[0]), strip(ci.Args[1])}
			}
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			r.sharedWrite(e, st, addr, site)
			s, _ := site.(*ssa.Store)
			if s == nil {
				return
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || addr.Op != "ia" {
				return
			}
			b := baseSlice(strip(addr.Args[0]))
			if b.Op != "mkslice" {
				return
			}
			var keep []rstore
			for _, x := range r.store[b] {
				if x.ia != ia {
					keep = append(keep, x)
				}
			}
			r.store[b] = append(keep, rstore{addr.Args[1], val, ia})
		},
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			for _, x := range elems {
				if r.fromScan(e, st, x, 0) {
					st.ghost["rd:batch"] = ""
				}
			}
			r.appendOrder(e, elems)
		},
		OnExit: func(e *Engine, st *State, res []*Term) { r.exit(e, st, res, c.P.Pos(fn.Pos())) },
	}
}

// appendOrder notes whether score and id of a message are appended in this order.
func (r *rds) appendOrder(e *Engine, elems []*Term) {
	var fs []string
	var els []*Term
	for _, x := range elems {
		x = stripConv(strip(x))
		if x.Op == "load" && x.Args[0].Op == "fa" && (x.Args[0].Str == "Score" || x.Args[0].Str == "ID") {
			fs = append(fs, x.Args[0].Str)
			els = append(els, strip(x.Args[0].Args[0]))
		}
	}
	if len(fs) == 0 {
		return
	}
	if len(fs) != 2 || fs[0] != "Score" || fs[1] != "ID" || els[0] != els[1] {
		r.badOrder = true
	}
}

// held: the keys found are the value of a variable still in use.
func (r *rds) held(e *Engine, st *State, cmd *Term) {
	if cmd == nil || st.ghost["rd:batch"] != "pending" {
		return
	}
	v := e.T.mk("rd:Val", "", nil, cmd)
	for _, f := range st.frames {
		for _, x := range f.env {
			if x == v || (x.Op == "coll" || x.Op == "slice") && mentions(x, v) {
				st.ghost["rd:batch"] = ""
			}
		}
	}
}

// sharedWrite: results collected from several nodes at once are guarded by a lock, and added up.
func (r *rds) sharedWrite(e *Engine, st *State, addr *Term, site ssa.Instruction) {
	if !strings.Contains(st.top().ctx, "/cb") {
		return
	}
	where := r.c.at(site)
	root := addrRoot(addr)
	if root.Op == "alloc" && strings.Contains(root.Str, "/cb") {
		return // its own
	}
	if root.Op != "alloc" && root.Op != "mkmap" && root.Op != "mkslice" {
		return
	}
	if root.Op != "alloc" && strings.Contains(root.Str, "/cb") {
		return
	}
	r.expect("C23", len(heldLocks(st)) > 0, "nodes-report-under-a-lock", r.op.name, where, "%s changes %s for several nodes at once without holding a lock (%s)", r.op.name, Canon(addr), e.trailStr(st))
	s, ok := site.(*ssa.Store)
	if !ok {
		return
	}
	if _, ok := s.Val.Type().Underlying().(*types.Slice); !ok {
		return
	}
	ok = false
	seen := map[ssa.Value]bool{}
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		if v == nil || seen[v] || ok {
			return
		}
		seen[v] = true
		if u, is := v.(*ssa.UnOp); is && u.Op == token.MUL && u.X == s.Addr {
			ok = true
			return
		}
		if in, is := v.(ssa.Instruction); is {
			for _, o := range in.Operands(nil) {
				uses(*o)
			}
		}
		if a, is := v.(*ssa.Alloc); is { // the array of a variadic call
			for _, ref := range *a.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					uses(y.Val)
				case *ssa.IndexAddr:
					for _, ref2 := range *y.Referrers() {
						if st2, is := ref2.(*ssa.Store); is {
							uses(st2.Val)
						}
					}
				}
			}
		}
	}
	uses(s.Val)
	r.expect("C23", ok, "nodes-add-to-the-result", r.op.name, where, "%s replaces the keys found on one node with those of another", r.op.name)
}

func (r *rds) modelAll(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	one := func(t *Term) ([]*Outcome, bool) { return []*Outcome{{Res: t}}, true }
	a := ci.Args
	switch ci.Name {
	case "strings.TrimPrefix":
		if t, ok := trimPrefix(e, strip(a[0]), strip(a[1])); ok {
			return one(t)
		}
	case "(*strings.Replacer).Replace":
		if r.escaper(strip(a[0])) {
			if s, ok := strip(a[1]).StrVal(); ok {
				if !strings.ContainsAny(s, `*?[]\^`) {
					return one(strip(a[1]))
				}
				return nil, false
			}
			return one(e.T.mk("globesc", "", types.Typ[types.String], strip(a[1])))
		}
	}
	if r.op.name == "ListQueues" && r.listPool != "" {
		if _, m := redisShort(ci.Name); m == "Scan" && len(a) > 3 {
			k := r.keyOf(e, st, a[3], r.patternTerms(e))
			if k.tagged() {
				if old, ok := r.suffix[k.suffix]; ok && old != r.listPool {
					r.c.Bad("pools-have-different-keys", r.c.at(ci.Site), "ListQueues scans the same keys for %s and %s", old, r.listPool)
				}
				r.suffix[k.suffix] = r.listPool
				if r.mid != "" && r.mid != k.mid {
					r.expect("C22", false, "pools-named-alike", "", r.c.at(ci.Site), "keys of pools begin with %s and %s", r.mid, k.mid)
				}
				r.mid = k.mid
				if r.id != "C23" && r.id != "C21" {
					return []*Outcome{}, true // all there is to learn here
				}
			}
		}
	}
	return r.model(e, st, ci)
}

func trimPrefix(e *Engine, s, p *Term) (*Term, bool) {
	parts := func(t *Term) []*Term {
		if t.Op == "concat" {
			return t.Args
		}
		return []*Term{t}
	}
	xs, ps := append([]*Term(nil), parts(s)...), parts(p)
	for _, q := range ps {
		if len(xs) == 0 {
			return nil, false
		}
		if xs[0] == q {
			xs = xs[1:]
			continue
		}
		a, ok1 := xs[0].StrVal()
		b, ok2 := q.StrVal()
		if !ok1 || !ok2 || !strings.HasPrefix(a, b) {
			return nil, false
		}
		xs[0] = e.T.S(a[len(b):])
	}
	return e.concat(xs, nil), true
}

// escaper: a package-level replacer that puts a backslash before every special character of patterns.
func (r *rds) escaper(t *Term) bool {
	if t.Op != "load" || t.Args[0].Op != "global" {
		return false
	}
	for _, pk := range r.c.P.Mod {
		if pk.SSA == nil {
			continue
		}
		f := pk.SSA.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.String() != t.Args[0].Str {
					continue
				}
				cl, ok := s.Val.(*ssa.Call)
				if !ok || cl.Call.StaticCallee() == nil || funcName(cl.Call.StaticCallee()) != "strings.NewReplacer" {
					continue
				}
				have := map[string]string{}
				// the variadic array is filled before
				idx := map[int]string{}
				sl, ok := cl.Call.Args[0].(*ssa.Slice)
				if !ok {
					continue
				}
				for _, b2 := range f.Blocks {
					for _, in2 := range b2.Instrs {
						s2, ok := in2.(*ssa.Store)
						if !ok {
							continue
						}
						ia, ok := s2.Addr.(*ssa.IndexAddr)
						if !ok || ia.X != sl.X {
							continue
						}
						n, ok := intConst(ia.Index)
						k, ok2 := s2.Val.(*ssa.Const)
						if ok && ok2 && k.Value != nil {
							idx[n] = constant.StringVal(k.Value)
						}
					}
				}
				for i := 0; i+1 < len(idx); i += 2 {
					have[idx[i]] = idx[i+1]
				}
				for _, ch := range []string{"*", "?", "[", `\`} {
					if have[ch] != `\`+ch {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

func (r *rds) explore(fn *ssa.Function, lockP int) {
	r.badOrder = false
	r.store = map[*Term][]rstore{}
	r.parts = map[int]*rpart{}
	r.slices = map[*Term]*ssa.Slice{}
	r.c.Explore(fn, r.opts(fn), func(st *State, args []*Term) {
		if lockP >= 0 {
			args[lockP] = r.c.curEngine.T.S(r.op.lock)
		}
		if r.op.kind == "one" {
			// the message is handed over by the queue: its fields do not change meanwhile
		}
	})
}

// pullBound is the largest number of messages the RPC layer asks for.
func (r *rds) pullBound() float64 {
	c := r.c
	fn := c.rpc("Pull")
	if fn == nil {
		return math.Inf(1)
	}
	max, seen := 0.0, false
	c.Explore(fn, &Opts{NoEscape: true, Event: roleEvents,
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			if role(ci.Name) != "cache.PullMessages" || len(ci.Args) < 4 {
				return nil, false
			}
			iv := e.IvOf(st, ci.Args[3])
			seen = true
			if iv.NaN || iv.Hi > max {
				max = iv.Hi
			}
			c.Expect(iv.Lo >= 0 && iv.Hi <= 7900, "pull-amount-is-bounded", "", c.at(ci.Site), "the cache may be asked for %s messages at once", iv)
			return []*Outcome{}, true
		}}, nil)
	if !seen {
		c.Bad("anchor:PullMessages", c.P.Pos(fn.Pos()), "the Pull RPC does not reach the cache")
		return math.Inf(1)
	}
	// nobody else pulls
	for f, callers := range c.P.callers() {
		if f.Name() != "PullMessages" {
			continue
		}
		_ = callers
	}
	return max
}

// exit: what the operation tells its caller.
func (r *rds) exit(e *Engine, st *State, res []*Term, where string) {
	op := r.op
	var er *Term
	for _, x := range res {
		if x != nil && x.Typ != nil && isErrT(x.Typ) {
			er = x
		}
	}
	if len(res) > 0 {
		er = res[len(res)-1]
	}
	failed := er != nil && e.nilness(st, er) == 2
	if op.name == "Flush" || op.name == "ListQueues" {
		if !failed {
			r.scanDone(e, st, where, "it returns")
		}
		if op.name == "ListQueues" && !failed {
			r.failChecked(e, st, where, "it returns without an error")
		}
		return
	}
	last := st.mem[e.T.mk("rd:last", "", nil)]
	if failed || op.kind == "" {
		return
	}
	r.failChecked(e, st, where, "it returns without an error")
	key := op.name + op.lock
	tr := e.trailStr(st)
	switch op.kind {
	case "one":
		v := res[0]
		if last == nil {
			b, ok := v.Bool()
			r.expect("C21", ok && !b, "result-tells-whether-it-moved", key, where, "%s reports %s without having run its script (%s)", op.name, Canon(v), tr)
			return
		}
		r.expect("C21", r.movedResult(e, st, v, last.Args[0]), "result-tells-whether-it-moved", key, where, "%s reports %s, which does not tell whether the script moved the message (%s)", op.name, Canon(v), tr)
	case "range", "insert":
		ok := true
		what := ""
		for _, x := range e.Elems(st, res[0]) {
			if !r.replyElem(e, st, x, 0) {
				ok = false
				what = Canon(x)
			}
		}
		r.expect("C21", ok, "result-lists-the-ids", key, where, "%s reports %s, which is not in the reply of its script (%s)", op.name, what, tr)
		if op.kind == "range" && last != nil {
			b := baseSlice(strip(res[0]))
			empty := b.IsNil() || b.Op == "zero" || b.Op == "coll" && len(b.Args) == 0
			if empty {
				// only when the reply was empty
				val := e.T.mk("rd:Val", "", nil, last.Args[0])
				known := false
				for t, f := range st.facts {
					if !mentions(t, val) {
						continue
					}
					switch {
					case t.Op == "eq" && f.B == 1:
						known = true
						for _, x := range t.Args { // compared with nothing
							if n, ok := x.Num(); ok && n != 0 {
								known = false
							}
						}
					case t.Op == "len":
						known = known || e.IvOf(st, t).Hi <= 0
					case (t.Op == "lt" || t.Op == "le") && f.B != 0:
						lo, hi := t.Args[0], t.Args[1]
						if n, ok := lo.Num(); ok && f.B == 2 && (t.Op == "lt" && n <= 0 || t.Op == "le" && n <= 1) {
							known = true // not 0 < x
						}
						if n, ok := hi.Num(); ok && f.B == 1 && (t.Op == "lt" && n <= 1 || t.Op == "le" && n <= 0) {
							known = true
						}
					}
				}
				r.expect("C21", known, "result-lists-the-ids", key, where, "%s may report no messages although its script moved some (%s)", op.name, tr)
			}
		}
	case "other":
		if op.name == "IsProcessing" && last != nil {
			b, ok := res[0].Bool()
			cmd := last.Args[0]
			errT := e.T.mk("rd:Err", "", nil, cmd)
			n := e.nilness(st, errT)
			if !ok {
				// derived from the error
				r.expect("C21", mentions(res[0], errT), "processing-means-in-the-pool", key, where, "IsProcessing answers %s", Canon(res[0]))
				return
			}
			r.expect("C21", b == (n == 1), "processing-means-in-the-pool", key, where, "IsProcessing answers %v when the id is %s the pool (%s)", b, map[bool]string{true: "in", false: "not in"}[n == 1], tr)
		}
	}
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// isReply: the value is the answer of the last script.
func (r *rds) isReply(t, cmd *Term) bool {
	t = stripNum(strip(t))
	for t.Op == "ta" || t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0]
	}
	return strings.HasPrefix(t.Op, "rd:") && t.Op != "rd:Err" && t.Args[0] == cmd
}

func (r *rds) movedResult(e *Engine, st *State, v, cmd *Term) bool {
	v = strip(v)
	one := func(t *Term) (int, bool) { // which truth of t means moved
		if t.Op == "eq" && len(t.Args) == 2 {
			a, b := t.Args[0], t.Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if n, ok := b.Num(); ok && r.isReply(a, cmd) {
				switch n {
				case 1:
					return 1, true
				case 0:
					return 2, true
				}
			}
		}
		if (t.Op == "lt" || t.Op == "le") && len(t.Args) == 2 {
			a, b := t.Args[0], t.Args[1]
			if n, ok := a.Num(); ok && r.isReply(b, cmd) && (t.Op == "lt" && n == 0 || t.Op == "le" && n == 1) {
				return 1, true
			}
			if n, ok := b.Num(); ok && r.isReply(a, cmd) && (t.Op == "lt" && n == 1 || t.Op == "le" && n == 0) {
				return 2, true
			}
		}
		return 0, false
	}
	if b, ok := v.Bool(); ok {
		for t, f := range st.facts {
			if w, ok := one(t); ok && f.B != 0 {
				return (f.B == w) == b
			}
			if r.isReply(t, cmd) && f.Iv != nil {
				if f.Iv.within(1, 1) {
					return b
				}
				if !f.Iv.has(1) {
					return !b
				}
			}
		}
		return false
	}
	neg := false
	for v.Op == "not" {
		v, neg = v.Args[0], !neg
	}
	w, ok := one(v)
	return ok && (w == 1) != neg
}

// replyElem: the id comes from the reply of the script.
func (r *rds) replyElem(e *Engine, st *State, x *Term, d int) bool {
	x = strip(x)
	if d > 10 {
		return false
	}
	switch x.Op {
	case "rd:Val":
		return strings.HasPrefix(x.Args[0].Label, "redis.Script")
	case "zero":
		return true // not yet filled in
	case "const":
		return isEmptyStr(x)
	case "call":
		if x.Str == "fmt.Sprint" && len(x.Args) == 1 {
			return r.replyElem(e, st, x.Args[0], d+1)
		}
		if x.Str == "fmt.Sprint" || x.Str == "fmt.Sprintf" {
			for _, a := range x.Args {
				if a.Op == "list" && len(a.Args) == 1 && r.replyElem(e, st, a.Args[0], d+1) {
					return true
				}
			}
		}
	case "elems", "load", "ia", "slice", "ta", "ext", "iface", "conv", "field":
		return r.replyElem(e, st, x.Args[0], d+1)
	case "coll", "list":
		for _, a := range x.Args {
			if !r.replyElem(e, st, a, d+1) {
				return false
			}
		}
		return true
	case "mkslice":
		for _, a := range e.Elems(st, x) {
			if !r.replyElem(e, st, a, d+1) {
				return false
			}
		}
		return true
	}
	return strings.HasPrefix(x.Op, "rd:") && x.Op != "rd:Err"
}

var _ = token.ADD

// overwrites finds where a loop replaces the result instead of adding to it.
func overwrites(fn *ssa.Function, idx int, depth int) ssa.Instruction {
	if fn == nil || fn.Blocks == nil || depth > 4 {
		return nil
	}
	reach := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	reachOf := func(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		if m := reach[b]; m != nil {
			return m
		}
		m := map[*ssa.BasicBlock]bool{}
		var w []*ssa.BasicBlock
		w = append(w, b.Succs...)
		for len(w) > 0 {
			x := w[0]
			w = w[1:]
			if !m[x] {
				m[x] = true
				w = append(w, x.Succs...)
			}
		}
		reach[b] = m
		return m
	}
	var uses func(v ssa.Value, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool
	uses = func(v ssa.Value, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if is(v) {
			return true
		}
		if _, ok := v.(*ssa.Const); ok {
			return false
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && uses(*o, is, seen) {
				return true
			}
		}
		return false
	}
	var found ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || found != nil {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for i, ed := range x.Edges {
				p := x.Block().Preds[i]
				if reachOf(x.Block())[p] && p != x.Block() || p == x.Block() {
					if _, ok := ed.(*ssa.Const); !ok && !uses(ed, func(y ssa.Value) bool { return y == ssa.Value(x) }, map[ssa.Value]bool{}) {
						if in, ok := ed.(ssa.Instruction); ok && reachOf(in.Block())[in.Block()] {
							found = in
							return
						}
					}
				}
				walk(ed)
			}
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return
			}
			for _, ref := range *a.Referrers() {
				s, ok := ref.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(a) {
					continue
				}
				if _, ok := s.Val.(*ssa.Const); !ok && reachOf(s.Block())[s.Block()] {
					ld := func(y ssa.Value) bool {
						u, ok := y.(*ssa.UnOp)
						return ok && u.Op == token.MUL && u.X == ssa.Value(a)
					}
					if !uses(s.Val, ld, map[ssa.Value]bool{}) {
						found = s
						return
					}
				}
				walk(s.Val)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && fnPkgPath(f) == fnPkgPath(fn) {
					if in := overwrites(f, x.Index, depth+1); in != nil {
						found = in
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				walk(x.Call.Args[0])
				return
			}
			if f := x.Call.StaticCallee(); f != nil && fnPkgPath(f) == fnPkgPath(fn) {
				if in := overwrites(f, idx, depth+1); in != nil {
					found = in
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && idx < len(rt.Results) {
				walk(rt.Results[idx])
			}
		}
	}
	return found
}
