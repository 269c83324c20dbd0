package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const goredis = "github.com/redis/go-redis/v9"

func init() {
	tech := "Abstract interpretation of the embedded Lua scripts, composed with path-sensitive dataflow of the Go code that binds their keys and arguments"
	register(&Check{ID: "C21", Min: 30, Pkgs: []string{cachePkg}, Technique: tech + ": every id a script adds to a pool is owned by a removal from its source",
		Note: "Every path of every script as it is called from every path of the Redis cache operations, for any number of elements.",
		Run:  func(c *Ctx) { c.redisCache("C21") }})
	register(&Check{ID: "C22", Min: 20, Pkgs: []string{cachePkg}, Technique: "Provenance of every key handed to Redis, with branch facts on the queue name",
		Note: "Every command and script call of the Redis cache on every path.",
		Run:  func(c *Ctx) { c.redisCache("C22") }})
	register(&Check{ID: "C23", Min: 20, Pkgs: []string{cachePkg}, Technique: "Provenance of keys and patterns, and typestate of key scans (cursor, batches, shards)",
		Note: "Every command of the Redis cache on every path, single-node and cluster.",
		Run:  func(c *Ctx) { c.redisCache("C23") }})
	register(&Check{ID: "C24", Min: 6, Pkgs: append([]string{cachePkg}, svcPkgs...), Technique: tech + ": interval bounds on every list a script unpacks",
		Note: "Every unpack of every script path; bounds come from LIMIT and partition constants and from the interval of the pull amount at the RPC.",
		Run:  func(c *Ctx) { c.redisCache("C24") }})
	register(&Check{ID: "C25", Min: 10, Pkgs: []string{cachePkg, "internal/queue/score"}, Technique: tech + ": provenance of every score written",
		Note: "Scores written by every operation of both caches on every path.",
		Run:  func(c *Ctx) { c.redisCache("C25"); c.memCache("C25") }})
	register(&Check{ID: "C26", Min: 8, Pkgs: []string{cachePkg, "internal/dtime"}, Technique: tech + ": provenance and units of every deadline",
		Note: "Deadlines written and compared by every operation of both caches on every path.",
		Run:  func(c *Ctx) { c.redisCache("C26"); c.memCache("C26") }})
	register(&Check{ID: "C28", Min: 10, Pkgs: []string{cachePkg}, Technique: tech + ": bounds, order and limit of every range a script selects",
		Note: "Every range command of every script path, with the arguments bound by the Go code.",
		Run:  func(c *Ctx) { c.redisCache("C28") }})
}

type rkeyd struct {
	role   string // pool name, "score:<lock>", "general", "?"
	tag    *Term
	prefix string // "P" the configured prefix, "D:<text>" the default one
	mid    string
	suffix string
	t      *Term
}

type rdyn struct { // a list of arguments of unknown length
	kind  string // "pairs" score,id of each element; "ids" elements of a list; "?"
	max   float64
	why   string
	slice *Term
}

type rop struct {
	name, from, to string
	lock           string // lock type value explored
	msg, queue     int    // parameter positions
	id, list       int
	kind           string // one, range, insert, remove
}

type rds struct {
	c       *Ctx
	id      string
	impl    types.Type
	name    string
	strct   *types.Struct
	slots   map[string]string // where a script is kept -> its text
	clientF map[string]bool   // fields holding a Redis client
	parsed  map[string][]*lnode
	suffix  map[string]string // what follows the queue in a key -> pool
	mid     string
	dflt    map[string]bool // default prefixes seen
	op      *rop
	parts   map[int]*rpart // partition elements by term
	pairIdx map[*Term]*rpairs
	store   map[*Term][]rstore
	nmax    float64 // bound on the pull amount
	genMid  map[string]bool

	clusterF    map[string]bool
	clusterSeen bool
	scans, dels int
	moves       map[string]bool
	seenOp      map[string]bool
	pullN       int
	pullMin     int
	pullMax     int
	pullDead    int
	undefined   *float64
	scoreSuf    string
	listPool    string
	badOrder    bool
	slices      map[*Term]*ssa.Slice
}

type rpart struct {
	list *Term // len term of the partitioned list
	size *Term
}

type rstore struct {
	idx, val *Term
	ia       *ssa.IndexAddr
}

type rpairs struct{ bad string }

func (r *rds) expect(prop string, ok bool, rule, key, where, format string, a ...any) bool {
	if prop != r.id {
		return ok
	}
	return r.c.Expect(ok, rule, key, where, format, a...)
}

func isRedisT(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), goredis)
}

// isCmdable: the type offers Redis commands.
func (c *Ctx) isCmdable(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := c.P.SSA.MethodSets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "ZAdd", "ZRem", "Scan":
			n++
		}
	}
	return n == 3
}

func (c *Ctx) redisImpl(id string) *rds {
	r := &rds{c: c, id: id, slots: map[string]string{}, clientF: map[string]bool{}, parsed: map[string][]*lnode{}, suffix: map[string]string{}, dflt: map[string]bool{}, parts: map[int]*rpart{}, pairIdx: map[*Term]*rpairs{}, store: map[*Term][]rstore{}, genMid: map[string]bool{}, slices: map[*Term]*ssa.Slice{}}
	for _, t := range c.P.Impls(cachePkg, "Cache") {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		s := structOf(p.Elem())
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if c.isCmdable(s.Field(i).Type()) {
				r.impl, r.name, r.strct = t, p.Elem().(*types.Named).Obj().Name(), s
				r.clientF[s.Field(i).Name()] = true
			}
		}
	}
	if r.impl == nil {
		c.Bad("anchor:redis-cache", cachePkg, "no implementation of Cache holding a Redis client found")
		return nil
	}
	r.findScripts()
	if len(r.slots) == 0 {
		c.Bad("anchor:scripts", cachePkg, "no Redis script with constant text found")
		return nil
	}
	return r
}

// text of a script value in the IR
func (r *rds) scriptText(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return "", false
		}
		if f.Name() == "NewScript" && strings.HasPrefix(fnPkgPath(f), goredis) && len(x.Call.Args) == 1 {
			return r.constText(x.Call.Args[0])
		}
	case *ssa.MakeInterface:
		return r.scriptText(x.X)
	case *ssa.ChangeInterface:
		return r.scriptText(x.X)
	}
	return "", false
}

func (r *rds) constText(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			e := NewEngine(r.c.P, &Opts{})
			if t := e.globalConst(g.String()); t != nil {
				return t.StrVal()
			}
		}
	case *ssa.BinOp:
		a, ok1 := r.constText(x.X)
		b, ok2 := r.constText(x.Y)
		return a + b, ok1 && ok2
	}
	return "", false
}

func (r *rds) findScripts() {
	pk := r.c.P.ssaPkg(cachePkg)
	put := func(slot, text, where string) {
		if old, ok := r.slots[slot]; ok && old != text {
			r.c.Bad("script-slot:"+slot, where, "two scripts are kept as %s", slot)
		}
		r.slots[slot] = text
	}
	fns := append(allFuncs(pk), pk.Func("init"))
	for _, f := range fns {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if t, ok := r.scriptText(x.Value); ok {
						if k, ok := r.constText(x.Key); ok {
							put("map:"+k, t, r.c.at(x))
						}
					}
				case *ssa.Store:
					if t, ok := r.scriptText(x.Val); ok {
						switch a := x.Addr.(type) {
						case *ssa.Global:
							put("global:"+a.String(), t, r.c.at(x))
						case *ssa.FieldAddr:
							put("field:"+structOf(a.X.Type()).Field(a.Field).Name(), t, r.c.at(x))
						}
					}
				}
			}
		}
	}
}

// textOf resolves the receiver of Run.
func (r *rds) textOf(t *Term) (string, string, bool) {
	t = strip(t)
	slot := ""
	switch {
	case t.Op == "lookup" || t.Op == "mval":
		if k, ok := strip(t.Args[1]).StrVal(); ok {
			slot = "map:" + k
		}
	case t.Op == "load" && t.Args[0].Op == "global":
		slot = "global:" + t.Args[0].Str
	case t.Op == "load" && t.Args[0].Op == "fa":
		slot = "field:" + t.Args[0].Str
	case t.Op == "call" && strings.HasSuffix(t.Str, ".NewScript"):
		if s, ok := t.Args[0].StrVal(); ok {
			return s, "inline", true
		}
	}
	s, ok := r.slots[slot]
	return s, strings.TrimPrefix(strings.TrimPrefix(slot, "map:"), "field:"), ok
}

// ---- keys ------------------------------------------------------------------

func isGlobEscape(t *Term, p func(*Term) bool) bool {
	// the prefix with the special characters of patterns escaped
	if t.Op == "call" || t.Op == "opq" || t.Op == "globesc" {
		for _, a := range t.Args {
			if p(strip(a)) {
				return true
			}
		}
	}
	return false
}

// parts of a key: prefix, text before the tag, tag, text after it.
func (r *rds) keyOf(e *Engine, st *State, t *Term, tags []*Term) *rkeyd {
	t = strip(t)
	k := &rkeyd{role: "?", t: t}
	parts := []*Term{t}
	if t.Op == "concat" {
		parts = t.Args
	}
	isPrefix := func(x *Term) bool {
		return x.Op == "load" && x.Args[0].Op == "fa" && strip(x.Args[0].Args[0]) == e.Param("$0", nil) && !r.clientF[x.Args[0].Str]
	}
	first := strip(parts[0])
	i := 0
	switch {
	case isPrefix(first):
		k.prefix = "P"
		i = 1
		if f := st.facts[first]; f.SEq != nil && *f.SEq == "" {
			k.prefix = "empty"
		}
	case isGlobEscape(first, isPrefix):
		k.prefix = "E"
		i = 1
	default:
		if s, ok := first.StrVal(); ok {
			j := strings.Index(s, ":")
			if j > 0 {
				k.prefix = "D:" + s[:j]
				k.mid = s[j:]
				i = 1
			}
		}
		if first.Op == "load" && first.Args[0].Op == "global" {
			k.prefix = "?"
		}
	}
	if k.prefix == "D:" || k.prefix == "" {
		k.prefix = "?" + Canon(first)
	}
	isTag := func(x *Term) bool {
		for _, q := range tags {
			if x == q || e.same(st, x, q) {
				return true
			}
		}
		return false
	}
	rest := ""
	for ; i < len(parts); i++ {
		p := strip(parts[i])
		if s, ok := p.StrVal(); ok {
			if k.tag == nil {
				k.mid += s
			} else {
				rest += s
			}
			continue
		}
		if k.tag == nil && isTag(p) {
			k.tag = p
			continue
		}
		rest += "<" + Canon(p) + ">"
		if k.tag == nil {
			k.mid += "<" + Canon(p) + ">"
		}
	}
	k.suffix = rest
	return k
}

func (k *rkeyd) tagged() bool {
	return k.tag != nil && strings.HasSuffix(k.mid, "{") && strings.HasPrefix(k.suffix, "}")
}

// ---- models ----------------------------------------------------------------

func (r *rds) cmdTerm(t *Term) *Term {
	t = strip(t)
	for t.Op == "fa" {
		t = strip(t.Args[0])
	}
	return t
}

func redisShort(n string) (recv, m string) {
	i := strings.LastIndex(n, ").")
	if i < 0 {
		return "", n[strings.LastIndex(n, ".")+1:]
	}
	m = n[i+2:]
	recv = n[:i]
	if j := strings.LastIndex(recv, "."); j >= 0 {
		recv = recv[j+1:]
	}
	return recv, m
}

func (r *rds) model(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	one := func(t *Term) ([]*Outcome, bool) { return []*Outcome{{Res: t}}, true }
	a := ci.Args
	n := ci.Name
	_, m0 := redisShort(n)
	switch {
	case strings.HasSuffix(n, "/dtime.NowMs"):
		return one(e.T.mk("nowms", "", types.Typ[types.Int64]))
	case strings.HasSuffix(n, "/dtime.TimeToMs") && len(a) == 1:
		v := e.Load(st, strip(a[0]), nil)
		if v != nil && strip(v).Op == "nowtime" {
			return one(e.T.mk("nowms", "", types.Typ[types.Int64]))
		}
	case strings.HasSuffix(n, "/dtime.Now") || n == "time.Now":
		t := e.T.mk("nowtime", "", ci.Sig.Results().At(0).Type())
		return one(t)
	case n == "(time.Time).UnixMilli" && strip(a[0]).Op == "nowtime":
		return one(e.T.mk("nowms", "", types.Typ[types.Int64]))
	case strings.HasSuffix(n, "/dtime.ElapsedTime"):
		return one(e.T.mk("opq", "elapsed", types.Typ[types.Int64]))
	case strings.HasSuffix(n, "score.GetScoreByDefaultAlgorithm") || strings.HasSuffix(n, "score.GetScoreFromTime"):
		return nil, false
	case (m0 == "Error") && len(a) == 1 && strip(a[0]).Op == "rd:Err":
		return one(e.T.mk("call", "errtext", types.Typ[types.String], strip(a[0])))
	case n == "fmt.Sprint" || n == "fmt.Sprintf" || n == "strings.Join":
		return r.sprint(e, st, ci)
	}
	if !strings.Contains(n, goredis) && !(ci.Common != nil && ci.Common.IsInvoke() && r.c.isCmdable(ci.Common.Value.Type())) {
		return nil, false
	}
	recv, m := redisShort(n)
	pure := func(op string, t *Term, typ types.Type) *Term {
		x := e.T.mk("rd:"+op, "", typ, t)
		if x.Typ == nil {
			x.Typ = typ
		}
		return x
	}
	switch {
	case recv == "Script" && (m == "Run" || m == "EvalSha" || m == "Eval" || m == "RunRO"):
		return r.runScript(e, st, ci)
	case strings.HasSuffix(recv, "Cmd") || recv == "baseCmd":
		x := r.cmdTerm(a[0])
		res := ci.Sig.Results()
		er := pure("Err", x, nil)
		switch {
		case m == "Err":
			return one(er)
		case m == "Val" && res.Len() == 1:
			return one(pure("Val", x, res.At(0).Type()))
		case res.Len() >= 2 && isErrT(res.At(res.Len()-1).Type()):
			var ps []*Term
			for i := 0; i < res.Len()-1; i++ {
				op := "Val"
				if m != "Result" {
					op = m
				}
				if i > 0 {
					op += fmt.Sprint(i)
				}
				ps = append(ps, pure(op, x, res.At(i).Type()))
			}
			ps = append(ps, er)
			return one(e.T.mk("tuple", "", res, ps...))
		}
		return nil, false
	}
	if ci.Common != nil && (ci.Common.IsInvoke() && r.c.isCmdable(ci.Common.Value.Type()) || len(a) > 0 && a[0].Typ != nil && r.c.isCmdable(a[0].Typ)) {
		return r.command(e, st, ci, m)
	}
	return nil, false
}

func (r *rds) sprint(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	a := ci.Args
	if ci.Name == "strings.Join" {
		xs, ok := e.exactList(st, a[0])
		sep, ok2 := a[1].StrVal()
		if !ok || !ok2 {
			return nil, false
		}
		var parts []*Term
		for i, x := range xs {
			if i > 0 && sep != "" {
				parts = append(parts, e.T.S(sep))
			}
			parts = append(parts, strip(x))
		}
		return []*Outcome{{Res: e.concat(parts, nil)}}, true
	}
	xs, ok := e.exactList(st, a[len(a)-1])
	if !ok {
		return nil, false
	}
	for i := range xs {
		xs[i] = strip(xs[i])
		if xs[i].Typ == nil || !isStrT(xs[i].Typ) {
			if _, isS := xs[i].StrVal(); !isS {
				if len(xs) == 1 && ci.Name == "fmt.Sprint" {
					return []*Outcome{{Res: e.T.mk("call", "fmt.Sprint", types.Typ[types.String], xs[0])}}, true
				}
				return nil, false
			}
		}
	}
	if ci.Name == "fmt.Sprint" {
		// operands are separated by spaces only when neither is a string
		return []*Outcome{{Res: e.concat(xs, nil)}}, true
	}
	f, ok := a[0].StrVal()
	if !ok {
		return nil, false
	}
	var parts []*Term
	k := 0
	for {
		i := strings.Index(f, "%")
		if i < 0 || i+1 >= len(f) {
			break
		}
		parts = append(parts, e.T.S(f[:i]))
		switch f[i+1] {
		case 's', 'v':
			if k >= len(xs) {
				return nil, false
			}
			parts = append(parts, xs[k])
			k++
		case '%':
			parts = append(parts, e.T.S("%"))
		default:
			return nil, false
		}
		f = f[i+2:]
	}
	if strings.Contains(f, "%") || k != len(xs) {
		return nil, false
	}
	parts = append(parts, e.T.S(f))
	return []*Outcome{{Res: e.concat(parts, nil)}}, true
}

func (r *rds) queueTerms(e *Engine) []*Term {
	var out []*Term
	if r.op.queue >= 0 {
		out = append(out, e.Param(fmt.Sprintf("$%d", r.op.queue), nil))
	}
	if r.op.msg >= 0 {
		out = append(out, e.T.mk("load", "", nil, e.T.mk("fa", "Queue", nil, e.Param(fmt.Sprintf("$%d", r.op.msg), nil))))
	}
	return out
}

// noBraces: the path established that the queue name has neither brace.
func (r *rds) noBraces(e *Engine, st *State, q *Term) (bool, string) {
	q = strip(q)
	for _, ch := range []string{"{", "}"} {
		ok := false
		for t, f := range st.facts {
			if t.Op != "call" || len(t.Args) < 2 || strip(t.Args[0]) != q {
				continue
			}
			if s, isS := t.Args[1].StrVal(); isS {
				switch t.Str {
				case "strings.ContainsAny":
					ok = ok || f.B == 2 && strings.Contains(s, ch)
				case "strings.Contains":
					ok = ok || f.B == 2 && s == ch
				case "strings.IndexAny", "strings.LastIndexAny":
					ok = ok || strings.Contains(s, ch) && e.IvOf(st, t).Hi < 0
				case "strings.Index", "strings.LastIndex":
					ok = ok || s == ch && e.IvOf(st, t).Hi < 0
				case "strings.Count":
					ok = ok || s == ch && e.IvOf(st, t).Hi <= 0
				}
			}
			if n, isN := t.Args[1].Num(); isN && n == float64(ch[0]) {
				switch t.Str {
				case "strings.ContainsRune":
					ok = ok || f.B == 2
				case "strings.IndexRune", "strings.IndexByte", "strings.LastIndexByte":
					ok = ok || e.IvOf(st, t).Hi < 0
				}
			}
		}
		for t, f := range st.facts { // comparisons with -1
			if t.Op == "eq" && f.B == 1 && len(t.Args) == 2 {
				c, x := t.Args[0], t.Args[1]
				if !c.IsConst() {
					c, x = x, c
				}
				if n, isN := c.Num(); isN && n == -1 && x.Op == "call" && strings.HasPrefix(x.Str, "strings.Index") && strip(x.Args[0]) == q {
					if s, isS := x.Args[1].StrVal(); isS && strings.Contains(s, ch) && (s == ch || strings.Contains(x.Str, "Any")) {
						ok = true
					}
				}
			}
		}
		if !ok {
			return false, ch
		}
	}
	return true, ""
}

func (r *rds) checkKey(e *Engine, st *State, k *rkeyd, site ssa.Instruction, pattern bool) {
	where := r.c.at(site)
	key := r.op.name + ":" + k.suffix
	okp := k.prefix == "P" || pattern && k.prefix == "E"
	if strings.HasPrefix(k.prefix, "D:") {
		// the default prefix, only when none is configured
		okp = false
		for t, f := range st.facts {
			if t.Op == "load" && t.Args[0].Op == "fa" && strip(t.Args[0].Args[0]) == e.Param("$0", nil) && f.SEq != nil && *f.SEq == "" {
				okp = true
			}
		}
		r.dflt[k.prefix] = true
		okp = okp && len(r.dflt) == 1
	}
	r.expect("C23", okp, "key-has-prefix", key, where, "the key %s does not start with the configured prefix (%s)", Canon(k.t), e.trailStr(st))
	r.expect("C23", strings.HasPrefix(k.mid, ":"), "prefix-is-delimited", key, where, "the key %s does not separate the prefix with a colon", Canon(k.t))
}

func itoaF(f float64) string { return fmt.Sprint(f) }

func sortedB(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
