package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const poolPkg = "internal/queue/pool"

func init() {
	register(&Check{ID: "C20", Min: 30, Pkgs: []string{cachePkg},
		Technique: "Typestate and ownership dataflow over the in-memory pools: every removed entry is a credit that must reach a pool the operation names",
		Note:      "All paths of every method of the in-memory cache; linked lists are abstracted to membership, absence and scan order of the entries the method touches.",
		Run:       func(c *Ctx) { c.memCache("C20") }})
	register(&Check{ID: "C27", Min: 20, Pkgs: []string{cachePkg},
		Technique: "Scan-completeness dataflow over the loops of the in-memory cache (every element visited is handled or rightly skipped)",
		Note:      "All paths of pull, timeout, unlock and insertion of the in-memory cache, for any number of elements.",
		Run:       func(c *Ctx) { c.memCache("C27") }})
}

// memPools describes the in-memory implementation: which field holds which pool and what an entry is made of.
type memPools struct {
	impl  types.Type
	name  string
	pool  map[string]string // field -> pool
	entry *types.Named
	id    string // entry field
	score string
	lock  string
}

var poolNames = []string{"primary_pool", "processing_pool", "lock_ack_pool", "lock_nack_pool"}

func (c *Ctx) isListMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && strings.HasSuffix(m.Elem().String(), "container/list.List")
}

func (c *Ctx) memPools() *memPools {
	m := &memPools{pool: map[string]string{}}
	for _, t := range c.P.Impls(cachePkg, "Cache") {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		s := structOf(p.Elem())
		n := 0
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if c.isListMap(s.Field(i).Type()) {
				n++
			}
		}
		if n > 0 {
			m.impl, m.name = t, p.Elem().(*types.Named).Obj().Name()
		}
	}
	if m.impl == nil {
		c.Bad("anchor:memory-cache", cachePkg, "no implementation of Cache with pools held in lists found")
		return nil
	}
	// ListQueues tells which pool each field holds
	lq := c.P.methodOf(m.impl, "ListQueues")
	if lq == nil {
		c.Bad("anchor:ListQueues", cachePkg, "ListQueues not found")
		return nil
	}
	pp := -1
	for i, p := range lq.Params {
		if strings.HasSuffix(p.Type().String(), "pool.PoolType") {
			pp = i
		}
	}
	c.Explore(lq, &Opts{NoEscape: true, Model: listModel(nil, nil),
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			if pp < 0 {
				return
			}
			f := st.facts[e.Param(fmt.Sprintf("$%d", pp), nil)]
			for _, x := range elems {
				for k := range st.facts {
					if k.Op == "rkey" && k.Args[1] == strip(x) && f.SEq != nil {
						if a := k.Args[0]; a.Op == "load" && a.Args[0].Op == "fa" {
							if old, ok := m.pool[a.Args[0].Str]; ok && old != *f.SEq {
								c.Bad("list-queues-pool", c.at(site), "ListQueues lists the same pool for %s and %s", old, *f.SEq)
							}
							m.pool[a.Args[0].Str] = *f.SEq
						}
					}
				}
			}
		}}, nil)
	have := map[string]bool{}
	for _, p := range m.pool {
		have[p] = true
	}
	for _, p := range poolNames {
		if !have[p] {
			c.Bad("anchor:pool:"+p, c.P.Pos(lq.Pos()), "ListQueues lists no field of %s for pool %s", m.name, p)
		}
	}
	// the entry type is what elements are asserted to
	pk := c.P.ssaPkg(cachePkg)
	for _, f := range allFuncs(pk) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok {
					if p, ok := ta.AssertedType.(*types.Pointer); ok {
						if n, ok := p.Elem().(*types.Named); ok && structOf(n) != nil && n.Obj().Pkg() == pk.Pkg {
							m.entry = n
						}
					}
				}
			}
		}
	}
	if m.entry == nil {
		c.Bad("anchor:entry", cachePkg, "the type of list entries was not found")
		return nil
	}
	s := structOf(m.entry)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case isStrT(f.Type()) && m.id == "":
			m.id = f.Name()
		case isFloatT(f.Type()) && strings.Contains(strings.ToLower(f.Name()), "score"):
			m.score = f.Name()
		case (isFloatT(f.Type()) || isIntT(f.Type())) && strings.Contains(strings.ToLower(f.Name()), "lock"):
			m.lock = f.Name()
		}
	}
	if m.id == "" || m.score == "" || m.lock == "" {
		c.Bad("anchor:entry", cachePkg, "the entry type %s has no recognisable id, score and lock fields", m.entry.Obj().Name())
		return nil
	}
	return m
}

// ---- abstract lists --------------------------------------------------------

func mlk(e *Engine, kind string, args ...*Term) *Term { return e.T.mk("ml:"+kind, "", nil, args...) }

func mlList(e *Engine, st *State, key *Term) []*Term {
	if v := st.mem[key]; v != nil {
		return v.Args
	}
	return nil
}

func mlPut(e *Engine, st *State, key *Term, xs []*Term) {
	seen := map[*Term]bool{}
	var out []*Term
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	if len(out) == 0 {
		delete(st.mem, key)
		return
	}
	st.mem[key] = e.T.mk("list", "", nil, out...)
}

func mlAdd(e *Engine, st *State, key *Term, xs ...*Term) {
	mlPut(e, st, key, append(append([]*Term(nil), mlList(e, st, key)...), xs...))
}

func (e *Engine) same(st *State, a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == b || e.Truth(st, e.Eq(a, b)) == 1 {
		return true
	}
	// one value both are equal to
	for t, f := range st.facts {
		if t.Op == "eq" && f.B == 1 {
			var o *Term
			switch a {
			case t.Args[0]:
				o = t.Args[1]
			case t.Args[1]:
				o = t.Args[0]
			}
			if o != nil && (o == b || e.Truth(st, e.Eq(o, b)) == 1) {
				return true
			}
		}
	}
	return false
}

// listHooks are told what happens to the lists.
type listHooks struct {
	c      *Ctx
	insert func(e *Engine, st *State, l, val *Term, how string, mark *Term, site ssa.Instruction)
	remove func(e *Engine, st *State, l, elem *Term, site ssa.Instruction)
	deref  func(e *Engine, st *State, l *Term, site ssa.Instruction)
	next   func(e *Engine, st *State, elem *Term, site ssa.Instruction)
	access func(e *Engine, st *State, l *Term, write bool, site ssa.Instruction)
}

// idOf is the identity of a list element, when the element type is known.
func listEmpty(e *Engine, st *State, l *Term) int { // 1 empty, 2 not empty
	if st.mem[mlk(e, "empty", l)] != nil || e.nilness(st, l) == 1 {
		return 1
	}
	if t := st.mem[mlk(e, "len", l)]; t != nil {
		iv := e.IvOf(st, t)
		if iv.Hi <= 0 {
			return 1
		}
		if iv.Lo >= 1 {
			return 2
		}
	}
	for a := range st.mem {
		if a.Op == "ml:present" && a.Args[0] == l {
			return 2
		}
	}
	return 0
}

func listMutated(e *Engine, st *State, l *Term) {
	delete(st.mem, mlk(e, "len", l))
	delete(st.mem, mlk(e, "empty", l))
	delete(st.mem, mlk(e, "done", l))
	delete(st.mem, mlk(e, "endle", l))
	delete(st.mem, mlk(e, "endge", l))
	delete(st.mem, mlk(e, "cleared", l))
}

// listModel models container/list.
func listModel(h *listHooks, elemID func(e *Engine, st *State, elem *Term) *Term) func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	return func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
		n := ci.Name
		switch {
		case strings.HasSuffix(n, "dtime.NowMs"):
			return []*Outcome{{Res: e.T.mk("call", "dtime.NowMs", types.Typ[types.Int64])}}, true
		case strings.HasSuffix(n, "dtime.Now"):
			return []*Outcome{{Res: e.T.mk("call", "dtime.Now", ci.Sig.Results().At(0).Type())}}, true
		case n == "container/list.New":
			t := e.fresh(st, "opq", "list", ci.Site, "r", ci.Sig.Results().At(0).Type())
			t.Typ = ci.Sig.Results().At(0).Type()
			st.facts[t] = Fact{Nil: 2}
			st.mem[mlk(e, "empty", t)] = e.T.Bool(true)
			return []*Outcome{{Res: t}}, true
		}
		if strings.HasPrefix(n, "(*container/list.Element).") {
			el := strip(ci.Args[0])
			if h != nil && h.next != nil {
				h.next(e, st, el, ci.Site)
			}
			l := st.mem[mlk(e, "of", el)]
			r := e.fresh(st, "opq", "elem", ci.Site, "r", ci.Args[0].Typ)
			e.refresh(ci, r)
			el = strip(ci.Args[0])
			r.Typ = ci.Sig.Results().At(0).Type()
			step := "next"
			if strings.HasSuffix(n, "Prev") {
				step = "prev"
			}
			if l == nil || st.mem[mlk(e, "gone", el)] != nil {
				return []*Outcome{{Res: r, Apply: func(s *State) { e.setNil(s, r, true) }}}, true
			}
			return []*Outcome{
				{Res: r, Apply: func(s *State) {
					e.setNil(s, r, true)
					s.mem[mlk(e, step, r)] = el
					s.mem[mlk(e, "endof", r)] = l
				}},
				{Res: r, Apply: func(s *State) {
					e.setNil(s, r, false)
					s.mem[mlk(e, step, r)] = el
					s.mem[mlk(e, "of", r)] = l
					if elemID != nil {
						s.mem[mlk(e, "present", l, elemID(e, s, r))] = e.T.Bool(true)
					}
				}}}, true
		}
		if !strings.HasPrefix(n, "(*container/list.List).") {
			return nil, false
		}
		op := strings.TrimPrefix(n, "(*container/list.List).")
		l := strip(ci.Args[0])
		if h != nil && h.deref != nil {
			h.deref(e, st, l, ci.Site)
		}
		if e.nilness(st, l) == 1 {
			return []*Outcome{}, true
		}
		e.setNil(st, l, false)
		if h != nil && h.access != nil {
			h.access(e, st, l, op != "Len" && op != "Front" && op != "Back", ci.Site)
		}
		switch op {
		case "Len":
			k := mlk(e, "len", l)
			if t := st.mem[k]; t != nil {
				return []*Outcome{{Res: t}}, true
			}
			t := e.fresh(st, "opq", "listlen", ci.Site, "r", types.Typ[types.Int])
			t.Typ = types.Typ[types.Int]
			delete(st.facts, t)
			iv := Iv{Lo: 0, Hi: 1 << 53, Int: true}
			switch listEmpty(e, st, l) {
			case 1:
				iv.Hi = 0
			case 2:
				iv.Lo = 1
			}
			e.setIv(st, t, iv)
			st.mem[k] = t
			return []*Outcome{{Res: t}}, true
		case "Front", "Back":
			r := e.fresh(st, "opq", "elem", ci.Site, "r", ci.Sig.Results().At(0).Type())
			e.refresh(ci, r)
			l = strip(ci.Args[0])
			r.Typ = ci.Sig.Results().At(0).Type()
			var outs []*Outcome
			em := listEmpty(e, st, l)
			if em != 2 {
				outs = append(outs, &Outcome{Res: r, Apply: func(s *State) {
					e.setNil(s, r, true)
					s.mem[mlk(e, "empty", l)] = e.T.Bool(true)
					s.mem[mlk(e, "endof", r)] = l
					s.mem[mlk(e, strings.ToLower(op), r)] = l
				}})
			}
			if em != 1 {
				outs = append(outs, &Outcome{Res: r, Apply: func(s *State) {
					e.setNil(s, r, false)
					s.mem[mlk(e, "of", r)] = l
					s.mem[mlk(e, strings.ToLower(op), r)] = l
					if elemID != nil {
						s.mem[mlk(e, "present", l, elemID(e, s, r))] = e.T.Bool(true)
					}
				}})
			}
			return outs, true
		case "PushBack", "PushFront", "InsertBefore", "InsertAfter":
			var mark *Term
			if len(ci.Args) > 2 {
				mark = strip(ci.Args[2])
			}
			if h != nil && h.insert != nil {
				h.insert(e, st, l, strip(ci.Args[1]), op, mark, ci.Site)
			}
			r := e.fresh(st, "opq", "elem", ci.Site, "r", ci.Sig.Results().At(0).Type())
			st.facts[r] = Fact{Nil: 2}
			return []*Outcome{{Res: r}}, true
		case "Remove":
			el := strip(ci.Args[1])
			if h != nil && h.remove != nil {
				h.remove(e, st, l, el, ci.Site)
			}
			r := e.fresh(st, "opq", "removed", ci.Site, "r", ci.Sig.Results().At(0).Type())
			return []*Outcome{{Res: r}}, true
		default:
			if h != nil && h.c != nil {
				h.c.Bad("list-operation:"+op, h.c.at(ci.Site), "the effect of list operation %s on the pools is not understood", op)
			}
		}
		return nil, false
	}
}

// ---- the cache -------------------------------------------------------------

type memOp struct {
	m     *memPools
	c     *Ctx
	id    string // property being decided
	name  string
	fn    *ssa.Function
	msg   int // parameter index of the message(s), queue, lock type
	queue int
	lockT int
	n     int
	min   int
	max   int
	dead  int
	ids   int
	kind  string
	moved map[string]bool
}

func (c *Ctx) memCache(id string) {
	m := c.memPools()
	if m == nil {
		return
	}
	iface := c.P.Named(cachePkg, "Cache")
	it, _ := iface.Underlying().(*types.Interface)
	ms := c.P.SSA.MethodSets.MethodSet(m.impl)
	inIface := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		inIface[it.Method(i).Name()] = true
	}
	for i := 0; i < ms.Len(); i++ {
		name := ms.At(i).Obj().Name()
		fn := c.P.SSA.MethodValue(ms.At(i))
		if fn == nil || len(fn.Blocks) == 0 || !inIface[name] {
			continue
		}
		o := &memOp{m: m, c: c, id: id, name: name, fn: fn, msg: -1, queue: -1, lockT: -1, n: -1, min: -1, max: -1, dead: -1, ids: -1, moved: map[string]bool{}}
		floats, ints := 0, 0
		for i, p := range fn.Params {
			t := p.Type().String()
			switch {
			case i == 0:
			case strings.HasSuffix(t, "message.Message"):
				o.msg = i
			case strings.HasSuffix(t, "cache.LockType"):
				o.lockT = i
			case t == "string" && o.queue < 0 && name != "Get" && name != "Set" && name != "ListQueues":
				o.queue = i
			case t == "*float64":
				if floats++; floats == 1 {
					o.min = i
				} else {
					o.max = i
				}
			case t == "int64":
				if ints++; ints == 1 {
					o.n = i
				} else {
					o.dead = i
				}
			case t == "[]string":
				o.ids = i
			}
		}
		if id == "C25" || id == "C26" {
			o.runValues()
			continue
		}
		o.run()
	}
}

func (o *memOp) p(e *Engine, i int) *Term {
	if i < 0 {
		return e.T.mk("none", "", nil)
	}
	return e.Param(fmt.Sprintf("$%d", i), nil)
}

// entryOf is the entry an element holds.
func (o *memOp) entryOf(e *Engine, el *Term) *Term {
	v := e.fa(el, "Value", types.NewInterfaceType(nil, nil))
	return e.T.mk("ta", "", types.NewPointer(o.m.entry), e.T.mk("load", "", v.Typ, v))
}

func (o *memOp) fieldOf(e *Engine, st *State, ent *Term, f string) *Term {
	s := structOf(o.m.entry)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return e.Load(st, e.fa(ent, f, s.Field(i).Type()), s.Field(i).Type())
		}
	}
	return e.T.Nil()
}

// raw is the value the field had when the operation began.
func (o *memOp) raw(e *Engine, ent *Term, f string) *Term {
	s := structOf(o.m.entry)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return e.T.mk("load", "", s.Field(i).Type(), e.fa(ent, f, s.Field(i).Type()))
		}
	}
	return e.T.Nil()
}

func (o *memOp) elemID(e *Engine, st *State, el *Term) *Term {
	return o.fieldOf(e, st, o.entryOf(e, el), o.m.id)
}

// poolOf tells which pool and queue a list belongs to.
func (o *memOp) poolOf(e *Engine, st *State, l *Term) (string, *Term) {
	if p := st.mem[mlk(e, "pool", l)]; p != nil {
		s, _ := p.Args[0].StrVal()
		return s, p.Args[1]
	}
	if l.Op == "lookup" {
		if f := o.fieldOfMap(l.Args[0]); f != "" {
			return o.m.pool[f], l.Args[1]
		}
	}
	return "", nil
}

func (o *memOp) fieldOfMap(m *Term) string {
	if m.Op == "load" && m.Args[0].Op == "fa" && Canon(m.Args[0].Args[0]) == "$0" {
		return m.Args[0].Str
	}
	return ""
}

// listIn is the list currently held by a pool for the queue of the operation.
func (o *memOp) listIn(e *Engine, st *State, pool string) *Term {
	for f, p := range o.m.pool {
		if p != pool {
			continue
		}
		var ft types.Type
		s := structOf(o.m.impl)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				ft = s.Field(i).Type()
			}
		}
		m := e.Load(st, e.fa(e.Param("$0", nil), f, ft), ft)
		for _, k := range o.queueTerms(e) {
			if v := st.mem[e.T.mk("mval", "", nil, m, k)]; v != nil {
				return strip(v)
			}
		}
		for _, k := range o.queueTerms(e) {
			l := e.T.mk("lookup", "", nil, m, k)
			if l.Typ != nil || len(o.queueTerms(e)) == 1 {
				return l
			}
		}
		return e.T.mk("lookup", "", nil, m, o.queueTerms(e)[0])
	}
	return nil
}

// queueTerms: the names of the queue the operation is about.
func (o *memOp) queueTerms(e *Engine) []*Term {
	if o.queue >= 0 {
		return []*Term{o.p(e, o.queue)}
	}
	return []*Term{e.T.mk("load", "", types.Typ[types.String], e.fa(o.p(e, o.msg), "Queue", types.Typ[types.String]))}
}

func (o *memOp) ownQueue(e *Engine, st *State, k *Term) bool {
	k = strip(k)
	for _, q := range o.queueTerms(e) {
		if e.same(st, k, q) {
			return true
		}
	}
	// the queue of one of the given messages, which Insert compared with its parameter
	if o.queue >= 0 && o.msg >= 0 && k.Op == "load" && Canon(k) == fmt.Sprintf("$%d[*].Queue", o.msg) {
		o.moved["other"] = true
		return true
	}
	return false
}

func (o *memOp) lockPool(e *Engine, st *State) string {
	return o.kind + "_pool"
}

// source and target of the moves the operation may make
func (o *memOp) route(e *Engine, st *State) (from, to string) {
	switch o.name {
	case "Insert":
		return "new", "primary_pool"
	case "PullMessages":
		return "primary_pool", "processing_pool"
	case "MakeAvailable", "TimeoutMessages":
		return "processing_pool", "primary_pool"
	case "LockMessage":
		return "processing_pool", o.lockPool(e, st)
	case "UnlockMessages":
		return o.lockPool(e, st), "primary_pool"
	}
	return "", ""
}

func (o *memOp) expect(prop string, ok bool, rule, key, where, format string, a ...any) {
	if prop != o.id {
		return
	}
	o.c.Expect(ok, rule, o.name+":"+key, where, format, a...)
}

// queueChecked: a message of another queue makes Insert fail.
func (o *memOp) queueChecked(e *Engine, st *State, failed bool, where string) {
	if o.name != "Insert" {
		return
	}
	q := o.p(e, o.queue)
	want := fmt.Sprintf("$%d[*].Queue", o.msg)
	for t, f := range st.facts {
		if t.Op == "eq" && f.B == 2 && (t.Args[0] == q && Canon(t.Args[1]) == want || t.Args[1] == q && Canon(t.Args[0]) == want) {
			if failed {
				o.moved["rejects"] = true
			} else {
				o.expect("C27", false, "messages-of-other-queues-are-rejected", "", where, "Insert may succeed although a message names another queue (%s)", e.trailStr(st))
			}
		}
	}
}

func isNow(t *Term) bool {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op == "call" && t.Str == "dtime.NowMs" {
		return true
	}
	s := Canon(t)
	return strings.Contains(s, "dtime.Now(") && strings.Contains(s, "UnixMilli") && t.Op == "call"
}

func stripNum(t *Term) *Term {
	for t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// due: 1 the deadline has passed, 2 it has not, 0 unknown
func (o *memOp) due(e *Engine, st *State, deadline *Term) int {
	for t, f := range st.facts {
		if t.Op != "lt" && t.Op != "le" || f.B == 0 {
			continue
		}
		x, y := stripNum(t.Args[0]), stripNum(t.Args[1])
		switch {
		case x == deadline && isNow(y): // d < now, d <= now
			if f.B == 1 {
				return 1
			}
			if t.Op == "le" {
				return 2
			}
		case isNow(x) && y == deadline: // now < d, now <= d
			if f.B == 2 {
				return 1
			}
			if t.Op == "lt" {
				return 2
			}
		}
	}
	return 0
}

// matches: 1 the entry passes the score filters, 2 it does not
func (o *memOp) matches(e *Engine, st *State, sc *Term) int {
	if o.min < 0 || o.max < 0 {
		return 1
	}
	res := 1
	for _, b := range []int{o.min, o.max} {
		p := o.p(e, b)
		switch e.nilness(st, p) {
		case 1:
			continue
		case 0:
			res = 0
			continue
		}
		v := e.T.mk("load", "", types.Typ[types.Float64], p)
		var out int
		if b == o.min {
			out = e.Truth(st, e.Lt(sc, v))
			if out == 0 {
				switch e.Truth(st, e.Le(v, sc)) {
				case 1:
					out = 2
				case 2:
					out = 1
				}
			}
		} else {
			out = e.Truth(st, e.Lt(v, sc))
			if out == 0 {
				switch e.Truth(st, e.Le(sc, v)) {
				case 1:
					out = 2
				case 2:
					out = 1
				}
			}
		}
		if out == 1 {
			return 2
		}
		if out == 0 {
			res = 0
		}
	}
	return res
}

// handled: the element may be passed over by the operation's own scan
func (o *memOp) handled(e *Engine, st *State, el *Term) bool {
	if st.mem[mlk(e, "gone", el)] != nil {
		return true
	}
	ent := o.entryOf(e, el)
	switch o.name {
	case "TimeoutMessages":
		return o.due(e, st, o.raw(e, ent, o.m.score)) == 2
	case "UnlockMessages":
		return o.due(e, st, o.raw(e, ent, o.m.lock)) == 2
	case "PullMessages":
		return o.matches(e, st, o.raw(e, ent, o.m.score)) == 2
	}
	return false
}

func (o *memOp) credits(e *Engine) *Term { return e.T.mk("ml:credits", "", nil) }

func (o *memOp) removeHook(e *Engine, st *State, l, el *Term, site ssa.Instruction) {
	c := o.c
	own := st.mem[mlk(e, "of", el)]
	o.expect("C20", own == l, "removed-from-its-own-list", "", c.at(site), "%s removes an element from a list it is not known to belong to, which does nothing (%s)", o.name, e.trailStr(st))
	pool, key := o.poolOf(e, st, l)
	o.expect("C20", pool != "", "only-pool-entries-are-removed", "", c.at(site), "%s removes an entry from a list that is no pool", o.name)
	if key != nil {
		o.expect("C27", o.ownQueue(e, st, key), "only-the-named-queue", "", c.at(site), "%s removes an entry of queue %s", o.name, Canon(key))
	}
	ent := o.entryOf(e, el)
	x := o.fieldOf(e, st, ent, o.m.id)
	// other handles of the same element are stale too
	for a, v := range st.mem {
		if a.Op == "ml:of" && v == l && e.same(st, o.fieldOf(e, st, o.entryOf(e, a.Args[0]), o.m.id), x) {
			st.mem[mlk(e, "gone", a.Args[0])] = e.T.Bool(true)
		}
	}
	st.mem[mlk(e, "gone", el)] = e.T.Bool(true)
	listMutated(e, st, l)
	for a := range st.mem {
		if a.Op == "ml:present" && a.Args[0] == l && e.Truth(st, e.Eq(a.Args[1], x)) != 2 && !o.distinctFrom(e, st, a.Args[1], x) {
			delete(st.mem, a)
		}
	}
	names := []*Term{x}
	for t, f := range st.facts {
		if t.Op == "eq" && f.B == 1 {
			if t.Args[0] == x {
				names = append(names, t.Args[1])
			} else if t.Args[1] == x {
				names = append(names, t.Args[0])
			}
		}
	}
	sort.Slice(names, func(i, j int) bool { return names[i].ID < names[j].ID })
	for _, y := range names {
		st.mem[mlk(e, "absent", l, y)] = e.T.Bool(true)
	}
	if o.name == "Remove" {
		ok := false
		for _, y := range names {
			ok = ok || strings.HasPrefix(Canon(y), fmt.Sprintf("$%d[*]", o.ids))
		}
		o.expect("C20", ok, "only-the-given-ids-are-removed", "", c.at(site), "Remove removes %s, which is not one of the given ids (%s)", Canon(x), e.trailStr(st))
		return
	}
	// the deadline or filter that allows the move
	switch o.name {
	case "TimeoutMessages":
		o.expect("C27", o.due(e, st, o.raw(e, o.owner(e, st, x, ent), o.m.score)) == 1, "only-due-messages-move", "", c.at(site), "a message may time out before its deadline (%s)", e.trailStr(st))
	case "UnlockMessages":
		o.expect("C27", o.due(e, st, o.raw(e, o.owner(e, st, x, ent), o.m.lock)) == 1, "only-due-messages-move", "", c.at(site), "a message may be unlocked before its lock ends (%s)", e.trailStr(st))
	}
	best := x
	for _, y := range names {
		if !y.hasRoot(el) && (best == x || best.depth > y.depth) {
			best = y
		}
	}
	mlAdd(e, st, o.credits(e), e.T.mk("tuple", "", nil, best, e.T.S(pool)))
}

// owner: the entry whose id this is, when the removed element was found again by its id
func (o *memOp) owner(e *Engine, st *State, x, ent *Term) *Term {
	for t, f := range st.facts {
		if t.Op == "eq" && f.B == 1 && (t.Args[0] == x || t.Args[1] == x) {
			y := t.Args[0]
			if y == x {
				y = t.Args[1]
			}
			if y.Op == "load" && y.Args[0].Op == "fa" && y.Args[0].Str == o.m.id && y.Args[0].Args[0].Op == "ta" {
				return y.Args[0].Args[0]
			}
		}
	}
	return ent
}

func (o *memOp) distinctFrom(e *Engine, st *State, a, x *Term) bool {
	if a != x && o.distinctElems(e, st, a, x) {
		return true
	}
	for t, f := range st.facts {
		if t.Op == "eq" && f.B == 1 && (t.Args[0] == x && t.Args[1] != a && o.distinctElems(e, st, a, t.Args[1]) || t.Args[1] == x && t.Args[0] != a && o.distinctElems(e, st, a, t.Args[0])) {
			return true
		}
	}
	return false
}

// distinctElems: neighbouring elements of one list hold different ids
func (o *memOp) distinctElems(e *Engine, st *State, a, b *Term) bool {
	el := func(x *Term) *Term {
		if x.Op == "load" && x.Args[0].Op == "fa" && x.Args[0].Args[0].Op == "ta" {
			if v := x.Args[0].Args[0].Args[0]; v.Op == "load" && v.Args[0].Op == "fa" {
				return v.Args[0].Args[0]
			}
		}
		return nil
	}
	x, y := el(a), el(b)
	if x == nil || y == nil {
		return false
	}
	return st.mem[mlk(e, "next", x)] == y || st.mem[mlk(e, "next", y)] == x
}

func (o *memOp) insertHook(e *Engine, st *State, l, ent *Term, how string, mark *Term, site ssa.Instruction) {
	c := o.c
	x := o.fieldOf(e, st, ent, o.m.id)
	sc := o.fieldOf(e, st, ent, o.m.score)
	pool, key := o.poolOf(e, st, l)
	if mark != nil {
		o.expect("C20", st.mem[mlk(e, "of", mark)] == l && st.mem[mlk(e, "gone", mark)] == nil, "inserted-next-to-a-member", "", c.at(site), "%s inserts next to an element that is not in the list, which does nothing (%s)", o.name, e.trailStr(st))
	}
	// position
	sorted := false
	switch how {
	case "PushBack":
		sorted = listEmpty(e, st, l) == 1
		for _, t := range mlList(e, st, mlk(e, "endle", l)) {
			sorted = sorted || e.same(st, t, sc)
		}
		if !sorted { // not before the last element
			for a, v := range st.mem {
				if a.Op == "ml:back" && v == l {
					sorted = sorted || o.notAbove(e, st, o.fieldOf(e, st, o.entryOf(e, a.Args[0]), o.m.score), sc)
				}
			}
		}
	case "PushFront":
		sorted = listEmpty(e, st, l) == 1
		for _, t := range mlList(e, st, mlk(e, "endge", l)) {
			sorted = sorted || e.same(st, t, sc)
		}
		for a, v := range st.mem {
			if a.Op == "ml:front" && v == l {
				sorted = sorted || o.notAbove(e, st, sc, o.fieldOf(e, st, o.entryOf(e, a.Args[0]), o.m.score))
			}
		}
	case "InsertBefore":
		sorted = o.notAbove(e, st, sc, o.fieldOf(e, st, o.entryOf(e, mark), o.m.score))
		if sorted && st.mem[mlk(e, "front", mark)] != l {
			sorted = false
			for _, t := range mlList(e, st, mlk(e, "prele", mark)) {
				sorted = sorted || e.same(st, t, sc)
			}
		}
	case "InsertAfter":
		sorted = o.notAbove(e, st, o.fieldOf(e, st, o.entryOf(e, mark), o.m.score), sc)
		if sorted && st.mem[mlk(e, "back", mark)] != l {
			sorted = false
			for _, t := range mlList(e, st, mlk(e, "prege", mark)) {
				sorted = sorted || e.same(st, t, sc)
			}
		}
	}
	o.expect("C27", sorted, "pools-stay-sorted-by-score", how, c.at(site), "%s may insert an entry out of score order (%s)", o.name, e.trailStr(st))
	if pool == "" {
		o.expect("C20", listEmpty(e, st, l) == 1, "new-list-holds-one-entry", "", c.at(site), "%s inserts an entry in a list that is no pool", o.name)
		listMutated(e, st, l)
		st.mem[mlk(e, "held", l)] = ent
		return
	}
	o.arrive(e, st, l, pool, key, ent, site)
	listMutated(e, st, l)
	for a := range st.mem {
		if a.Op == "ml:absent" && a.Args[0] == l {
			delete(st.mem, a)
		}
	}
	st.mem[mlk(e, "present", l, x)] = e.T.Bool(true)
}

// notAbove: a <= b is known
func (o *memOp) notAbove(e *Engine, st *State, a, b *Term) bool {
	return a == b || e.Truth(st, e.Le(a, b)) == 1 || e.Truth(st, e.Lt(a, b)) == 1 || e.Truth(st, e.Lt(b, a)) == 2 || e.Truth(st, e.Le(b, a)) == 2
}

// arrive: an entry enters a pool.
func (o *memOp) arrive(e *Engine, st *State, l *Term, pool string, key, ent *Term, site ssa.Instruction) {
	c := o.c
	x := o.fieldOf(e, st, ent, o.m.id)
	o.expect("C27", key != nil && o.ownQueue(e, st, key), "only-the-named-queue", "insert", c.at(site), "%s inserts an entry in queue %s", o.name, Canon(key))
	from, to := o.route(e, st)
	var rest []*Term
	matched := false
	for _, cr := range mlList(e, st, o.credits(e)) {
		src, _ := cr.Args[1].StrVal()
		coll := strings.HasPrefix(src, "c:")
		src = strings.TrimPrefix(src, "c:")
		if !e.same(st, cr.Args[0], x) {
			rest = append(rest, cr)
			continue
		}
		_ = coll
		if src == pool {
			matched = true
			continue // removed and put back
		}
		matched = true
		o.moved[src+">"+pool] = true
		o.expect("C20", src == from && pool == to, "moves-only-where-the-operation-says", "", c.at(site), "%s moves a message from %s to %s (%s)", o.name, src, pool, e.trailStr(st))
	}
	mlPut(e, st, o.credits(e), rest)
	settled := mlk(e, "settled", l, x)
	if matched {
		st.mem[settled] = e.T.Bool(true)
	} else if st.mem[settled] != nil && o.absent(e, st, l, x) {
		matched = true // an element of a collection visited again
	}
	if !matched {
		if from == "new" && pool == to {
			missing := ""
			for _, p := range poolNames {
				q := o.listIn(e, st, p)
				if q == l && o.present(e, st, l, x) {
					continue
				}
				if !o.absent(e, st, q, x) {
					missing = p
				}
			}
			o.expect("C20", missing == "", "new-only-when-absent-from-every-pool", "", c.at(site), "%s inserts a message without knowing that it is not in %s (%s)", o.name, missing, e.trailStr(st))
			o.moved["new>"+pool] = true
		} else {
			o.expect("C20", false, "inserted-only-after-removal", "", c.at(site), "%s inserts a message in %s without having removed it from another pool (%s)", o.name, pool, e.trailStr(st))
		}
	}
	if from != "" && pool == to {
		mlAdd(e, st, mlk(e, "moved"), x)
	}
}

func (o *memOp) present(e *Engine, st *State, l, x *Term) bool {
	for a := range st.mem {
		if a.Op == "ml:present" && a.Args[0] == l && e.same(st, a.Args[1], x) {
			return true
		}
	}
	return false
}

func (o *memOp) absent(e *Engine, st *State, l, x *Term) bool {
	if l == nil {
		return false
	}
	if listEmpty(e, st, l) == 1 {
		return true
	}
	for a := range st.mem {
		if a.Op == "ml:absent" && a.Args[0] == l && e.same(st, a.Args[1], x) {
			return true
		}
	}
	return false
}

func (o *memOp) entriesInEnv(e *Engine, st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	ptr := types.NewPointer(o.m.entry)
	for v, t := range st.top().env {
		if types.Identical(v.Type(), ptr) && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// header follows the scans of lists.
func (o *memOp) header(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
	c := o.c
	fr := st.top()
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !strings.HasSuffix(p.Type().String(), "container/list.Element") {
			continue
		}
		hk := fmt.Sprintf("%s:%d:%d", fr.ctx, e.P.fnID(fr.fn), e.P.insID(p))
		scan := e.T.mk("ml:scan", hk, nil)
		ne := e.T.mk("ml:ne", hk, nil)
		le := e.T.mk("ml:le", hk, nil)
		ge := e.T.mk("ml:ge", hk, nil)
		all := e.T.mk("ml:all", hk, nil)
		x := strip(fr.env[p])
		fwd := st.mem[mlk(e, "front", x)]
		if fwd == nil {
			fwd = st.mem[mlk(e, "back", x)]
		}
		if fwd == nil && x.IsNil() {
			delete(st.mem, scan)
			continue
		}
		if !back || fwd != nil {
			// the scan begins
			delete(st.mem, ne)
			delete(st.mem, le)
			delete(st.mem, ge)
			if fwd == nil {
				delete(st.mem, scan)
				continue
			}
			st.mem[scan] = x
			st.mem[all] = e.T.Bool(true)
			if e.nilness(st, x) == 1 {
				st.mem[mlk(e, "done", fwd)] = e.T.Bool(true)
			}
			continue
		}
		y := st.mem[scan]
		if y == nil {
			continue
		}
		l := st.mem[mlk(e, "of", y)]
		dir := "next"
		prev := st.mem[mlk(e, "next", x)]
		if prev == nil {
			prev = st.mem[mlk(e, "prev", x)]
			dir = "prev"
		}
		if prev != y || l == nil {
			delete(st.mem, scan)
			continue
		}
		// what is known of the element passed over
		var ids, scs, geq []*Term
		ye := o.entryOf(e, y)
		yid, ysc := o.fieldOf(e, st, ye, o.m.id), o.fieldOf(e, st, ye, o.m.score)
		first := st.mem[mlk(e, "front", y)] != nil || st.mem[mlk(e, "back", y)] != nil
		cands := map[*Term]bool{}
		for _, en := range o.entriesInEnv(e, st) {
			if en == ye {
				continue
			}
			cands[o.fieldOf(e, st, en, o.m.id)] = true
			s := o.fieldOf(e, st, en, o.m.score)
			if o.notAbove(e, st, ysc, s) {
				scs = append(scs, s)
			}
			if o.notAbove(e, st, s, ysc) {
				geq = append(geq, s)
			}
		}
		for t, f := range st.facts {
			if t.Op == "eq" && f.B == 2 {
				if t.Args[0] == yid {
					cands[t.Args[1]] = true
				} else if t.Args[1] == yid {
					cands[t.Args[0]] = true
				}
			}
		}
		for k := range cands {
			if e.Truth(st, e.Eq(yid, k)) == 2 || st.mem[mlk(e, "gone", y)] != nil && e.same(st, yid, k) {
				ids = append(ids, k)
			}
		}
		if !first {
			ids = intersect(ids, mlList(e, st, ne))
			scs = intersect(scs, mlList(e, st, le))
			geq = intersect(geq, mlList(e, st, ge))
		}
		mlPut(e, st, ne, ids)
		mlPut(e, st, le, scs)
		mlPut(e, st, ge, geq)
		if !o.handled(e, st, y) {
			delete(st.mem, all)
		}
		st.mem[scan] = x
		if dir == "next" {
			mlPut(e, st, mlk(e, "prele", x), scs)
		} else {
			mlPut(e, st, mlk(e, "prege", x), geq)
		}
		if e.nilness(st, x) == 1 { // the end
			for _, k := range ids {
				if o.present(e, st, l, k) {
					st.ghost["infeasible"] = "y"
				}
				st.mem[mlk(e, "absent", l, k)] = e.T.Bool(true)
			}
			if st.mem[mlk(e, "len", l)] != nil || true {
				if dir == "next" {
					mlPut(e, st, mlk(e, "endle", l), scs)
				} else {
					mlPut(e, st, mlk(e, "endge", l), geq)
				}
			}
			if st.mem[all] != nil {
				st.mem[mlk(e, "done", l)] = e.T.Bool(true)
			}
		}
	}
	if !back {
		return
	}
	// entries of a collection are put back one by one
	for v, t := range fr.env {
		in, ok := v.(ssa.Instruction)
		if !ok || !b.Dominates(in.Block()) || in.Block() == b && false {
			continue
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			continue
		}
		if _, ok := u.X.(*ssa.IndexAddr); !ok || !types.Identical(v.Type(), types.NewPointer(o.m.entry)) {
			continue
		}
		for _, cr := range mlList(e, st, o.credits(e)) {
			if s, _ := cr.Args[1].StrVal(); strings.HasPrefix(s, "c:") && e.same(st, cr.Args[0], o.fieldOf(e, st, t, o.m.id)) {
				o.expect("C20", false, "no-message-is-lost", "collection", c.P.Pos(in.Pos()), "%s may leave a message it took out of its pool outside every pool (%s)", o.name, e.trailStr(st))
			}
		}
	}
	if o.name == "Remove" {
		o.removeHeader(e, st, b)
	}
}

func intersect(a, b []*Term) []*Term {
	in := map[*Term]bool{}
	for _, x := range b {
		in[x] = true
	}
	var out []*Term
	for _, x := range a {
		if in[x] {
			out = append(out, x)
		}
	}
	return out
}

// removeHeader: in each round over the ids, a list lost the id of that round.
func (o *memOp) removeHeader(e *Engine, st *State, b *ssa.BasicBlock) {
	fr := st.top()
	// the loop runs over all the ids
	x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := x.Cond.(*ssa.BinOp)
	if !ok || !stepsIndex(cmp.X, b) {
		return
	}
	var twin *Term
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok && stepsIndex(cmp.X, b) && isIntT(p.Type()) && usesPhi(cmp.X, p) {
			t := fr.env[p]
			if t == nil || t.Op != "opq" {
				continue
			}
			twin = e.T.ctxTerm(t.Op, t.Str+"~", t.Label, t.Typ)
		}
	}
	if twin == nil {
		return
	}
	var ln *Term
	if v, ok := fr.env[cmp.Y]; ok {
		ln = stripNum(v)
	}
	if ln == nil || ln.Op != "len" || ln.Args[0] != o.p(e, o.ids) {
		if c, ok := cmp.Y.(*ssa.Call); !ok || len(c.Call.Args) != 1 || fr.env[c.Call.Args[0]] != o.p(e, o.ids) {
			return
		}
	}
	want := fmt.Sprintf("$%d[*]", o.ids)
	for _, p := range poolNames {
		l := o.listIn(e, st, p)
		tag := fmt.Sprintf("%s:%d:%d", fr.ctx, e.P.fnID(fr.fn), b.Index)
		k := e.T.mk("ml:miss", tag, nil, l)
		st.mem[e.T.mk("ml:seen", tag, nil, l)] = e.T.Bool(true)
		gone := listEmpty(e, st, l) == 1
		for a := range st.mem {
			gone = gone || a.Op == "ml:absent" && a.Args[0] == l && Canon(a.Args[1]) == want && a.Args[1].hasRoot(twin)
		}
		if !gone {
			st.mem[k] = e.T.Bool(true)
		}
	}
}

func usesPhi(v ssa.Value, p *ssa.Phi) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return x == p
	case *ssa.BinOp:
		return usesPhi(x.X, p)
	case *ssa.Convert:
		return usesPhi(x.X, p)
	}
	return false
}

func stepsIndex(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == b
	case *ssa.BinOp:
		return stepsIndex(x.X, b)
	case *ssa.Convert:
		return stepsIndex(x.X, b)
	}
	return false
}

func (o *memOp) run() {
	c, fn := o.c, o.fn
	where := c.P.Pos(fn.Pos())
	h := &listHooks{c: c,
		insert: o.insertHook,
		remove: o.removeHook,
		deref: func(e *Engine, st *State, l *Term, site ssa.Instruction) {
			o.expect("C27", e.nilness(st, l) == 2, "unknown-queues-do-not-panic", "", c.at(site), "%s may use the list of a queue that has none: that panics (%s)", o.name, e.trailStr(st))
		},
		next: func(e *Engine, st *State, el *Term, site ssa.Instruction) {
			o.expect("C27", st.mem[mlk(e, "gone", el)] == nil, "scan-continues-after-a-removal", "", c.at(site), "%s steps on from an element it removed: the scan ends early (%s)", o.name, e.trailStr(st))
			o.expect("C27", e.nilness(st, el) != 1, "scan-stops-at-the-end", "", c.at(site), "%s steps past the end of a list: that panics (%s)", o.name, e.trailStr(st))
		},
	}
	kinds := []string{""}
	if o.lockT >= 0 {
		kinds = []string{"lock_ack", "lock_nack"}
	}
	for _, kind := range kinds {
		o.kind = kind
		c.Explore(fn, &Opts{NoEscape: true, Model: listModel(h, o.elemID),
			OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
				f := o.fieldOfMap(m)
				pool := o.m.pool[f]
				if pool == "" || o.name == "ListQueues" {
					return
				}
				if kind == "lookup" || kind == "update" {
					o.expect("C27", o.ownQueue(e, st, k), "only-the-named-queue", kind, c.at(site), "%s touches queue %s", o.name, Canon(k))
				}
				if kind == "delete" {
					l := st.mem[e.T.mk("mval", "", nil, m, strip(k))]
					if l == nil {
						l = e.T.mk("lookup", "", nil, m, strip(k))
					}
					o.expect("C20", listEmpty(e, st, strip(l)) == 1, "only-empty-pools-are-dropped", "", c.at(site), "%s drops the list of a pool that may hold messages (%s)", o.name, e.trailStr(st))
				}
				if kind != "update" {
					return
				}
				nw := strip(v)
				old := st.mem[e.T.mk("mval", "", nil, m, strip(k))]
				if old == nil {
					old = e.T.mk("lookup", "", nil, m, strip(k))
				}
				old = strip(old)
				if nw == old || nw.IsNil() && e.nilness(st, old) == 1 {
					return
				}
				held := st.mem[mlk(e, "held", nw)]
				p2, _ := o.poolOf(e, st, nw)
				fresh := held != nil || listEmpty(e, st, nw) == 1
				o.expect("C20", fresh && p2 == "" && (listEmpty(e, st, old) == 1), "a-pool-is-never-replaced", pool, c.at(site), "%s replaces the list of %s by another one: its messages are lost or shared (%s)", o.name, pool, e.trailStr(st))
				if p2 == "" && !nw.IsNil() {
					st.mem[mlk(e, "pool", nw)] = e.T.mk("tuple", "", nil, e.T.S(pool), strip(k))
					if held != nil {
						delete(st.mem, mlk(e, "held", nw))
						o.arrive(e, st, nw, pool, strip(k), held, site)
						st.mem[mlk(e, "present", nw, o.fieldOf(e, st, held, o.m.id))] = e.T.Bool(true)
					}
				}
			},
			OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
				for _, x := range elems {
					x = strip(x)
					if x.Typ != nil && types.Identical(x.Typ, types.NewPointer(o.m.entry)) {
						id := o.fieldOf(e, st, x, o.m.id)
						var out []*Term
						for _, cr := range mlList(e, st, o.credits(e)) {
							if s, _ := cr.Args[1].StrVal(); e.same(st, cr.Args[0], id) && !strings.HasPrefix(s, "c:") {
								cr = e.T.mk("tuple", "", nil, cr.Args[0], e.T.S("c:"+s))
							}
							out = append(out, cr)
						}
						mlPut(e, st, o.credits(e), out)
					}
				}
				if o.name == "PullMessages" && o.fn.Signature.Results().Len() > 0 && types.Identical(dst.Typ, o.fn.Signature.Results().At(0).Type()) {
					o.limit(e, st, dst, site)
				}
			},
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				if strings.HasPrefix(ci.Name, "(*sync.") && strings.HasSuffix(ci.Name, "ock") {
					if strings.HasSuffix(ci.Name, "Unlock") || strings.HasSuffix(ci.Name, "RUnlock") {
						st.ghost["unlocked"] = "y"
					} else if st.ghost["unlocked"] != "" {
						// others had the lock: nothing is known of the pools any more
						for a := range st.mem {
							switch a.Op {
							case "ml:present", "ml:absent", "ml:len", "ml:empty", "ml:front", "ml:back", "ml:cleared", "ml:done", "ml:next", "ml:prev", "ml:endof", "ml:endle", "ml:endge", "ml:prele", "ml:prege":
								delete(st.mem, a)
							}
						}
					}
				}
				if o.name != "Remove" && (ci.Name == "(*sync.Mutex).Unlock" || ci.Name == "(*sync.RWMutex).Unlock") {
					o.expect("C20", len(mlList(e, st, o.credits(e))) == 0, "no-message-is-between-pools-while-unlocked", "", c.at(ci.Site), "%s releases the lock while a message it took out of its pool is in no pool (%s)", o.name, e.trailStr(st))
				}
			},
			OnHeader: o.header,
			OnGC:     o.clean,
			OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
				if st.ghost["infeasible"] != "" {
					return false
				}
				return o.branch(e, st, x, cond, want)
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				if st.ghost["infeasible"] != "" {
					return
				}
				o.exit(e, st, res, where)
			}}, func(st *State, args []*Term) {
			if kind != "" {
				st.facts[args[o.lockT]] = Fact{SEq: &kind}
			}
		})
	}
	need := map[string][]string{
		"Insert": {"new>primary_pool"}, "PullMessages": {"primary_pool>processing_pool"}, "MakeAvailable": {"processing_pool>primary_pool"},
		"TimeoutMessages": {"processing_pool>primary_pool"}, "LockMessage": {"processing_pool>lock_ack_pool", "processing_pool>lock_nack_pool"},
		"UnlockMessages": {"lock_ack_pool>primary_pool", "lock_nack_pool>primary_pool"}}
	if o.moved["other"] {
		o.expect("C27", o.moved["rejects"], "messages-of-other-queues-are-rejected", "never", where, "Insert uses the queue of each message without rejecting messages of other queues")
	}
	for _, n := range need[o.name] {
		o.expect("C20", o.moved[n], "operation-moves-messages", n, where, "%s never moves a message %s", o.name, strings.ReplaceAll(n, ">", " to "))
	}
}

// limit: no more than the requested number of messages is handed out.
func (o *memOp) limit(e *Engine, st *State, dst *Term, site ssa.Instruction) {
	n := o.p(e, o.n)
	ok := e.Truth(st, e.Lt(e.LenOf(st, dst), n)) == 1 || st.ghost["room"] != ""
	delete(st.ghost, "room")
	o.expect("C27", ok, "at-most-the-requested-number", "", o.c.at(site), "a message may be handed out beyond the requested number (%s)", e.trailStr(st))
}

func (o *memOp) branch(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
	t := cond
	if o.name == "PullMessages" {
		if l := o.listIn(e, st, "primary_pool"); listEmpty(e, st, l) == 1 || o.countedOut(e, st, l) {
			st.ghost["full"] = "y"
		}
	}
	for t.Op == "not" {
		t, want = t.Args[0], !want
	}
	if o.name == "PullMessages" && t.Op == "lt" && want && stripNum(t.Args[1]) == o.p(e, o.n) {
		st.ghost["room"] = "y"
	}
	if t.Op == "lt" && !want {
		ln := stripNum(t.Args[1])
		// a range loop over a collection of entries ends
		if ln.Op == "len" && ln.Args[0].Op == "coll" {
			var rest []*Term
			for _, cr := range mlList(e, st, o.credits(e)) {
				s, _ := cr.Args[1].StrVal()
				in := false
				for _, el := range ln.Args[0].Args {
					if el.Typ != nil && types.Identical(el.Typ, types.NewPointer(o.m.entry)) {
						in = in || e.same(st, cr.Args[0], o.fieldOf(e, st, el, o.m.id))
					}
				}
				if !(in && strings.HasPrefix(s, "c:")) {
					rest = append(rest, cr)
				}
			}
			mlPut(e, st, o.credits(e), rest)
		}
		if o.name == "Remove" && ln.Op == "len" && ln.Args[0] == o.p(e, o.ids) {
			fr := st.top()
			for _, p := range poolNames {
				l := o.listIn(e, st, p)
				tag := fmt.Sprintf("%s:%d:%d", fr.ctx, e.P.fnID(fr.fn), x.Block().Index)
				if st.mem[e.T.mk("ml:miss", tag, nil, l)] == nil && (st.mem[e.T.mk("ml:seen", tag, nil, l)] != nil || e.IvOf(st, ln).Hi <= 0) {
					st.mem[mlk(e, "cleared", l)] = e.T.Bool(true)
				}
				delete(st.mem, e.T.mk("ml:miss", tag, nil, l))
				delete(st.mem, e.T.mk("ml:seen", tag, nil, l))
			}
		}
		if o.name == "PullMessages" && stripNum(t.Args[1]) == o.p(e, o.n) {
			if everyRound(x.Cond) {
				o.expect("C27", false, "filtered-messages-do-not-count", "", o.c.at(x), "a message that does not match the filters uses up the requested number")
			}
			st.ghost["full"] = "y"
		}
	}
	return true
}

// everyRound: the compared value is a counter stepped in each round of its loop.
func everyRound(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, s := range []ssa.Value{b.X, b.Y} {
		for {
			if k, ok := s.(*ssa.Convert); ok {
				s = k.X
				continue
			}
			break
		}
		p, ok := s.(*ssa.Phi)
		if !ok || !isIntT(p.Type()) {
			continue
		}
		all, n := true, 0
		for i, ed := range p.Edges {
			if !p.Block().Dominates(p.Block().Preds[i]) {
				continue
			}
			n++
			step, ok := ed.(*ssa.BinOp)
			all = all && ok && step.X == ssa.Value(p)
		}
		if n > 0 && all {
			// a single latch joins the rounds: the step is unconditional
			return true
		}
	}
	return false
}

func (o *memOp) exit(e *Engine, st *State, res []*Term, where string) {
	failed := len(res) > 0 && e.nilness(st, res[len(res)-1]) == 2 && isErrT(o.fn.Signature.Results().At(len(res)-1).Type())
	for a := range st.mem {
		if a.Op == "ml:held" {
			o.expect("C20", false, "no-message-is-lost", "unstored", where, "%s may put a message in a list that it does not store (%s)", o.name, e.trailStr(st))
		}
	}
	if o.name != "Remove" {
		cr := mlList(e, st, o.credits(e))
		o.expect("C20", len(cr) == 0, "no-message-is-lost", "", where, "%s may leave a message it took out of its pool outside every pool (%s)", o.name, e.trailStr(st))
	} else if !failed {
		for _, p := range poolNames {
			l := o.listIn(e, st, p)
			o.expect("C20", listEmpty(e, st, l) == 1 || st.mem[mlk(e, "cleared", l)] != nil, "removal-covers-every-pool", p, where, "Remove may leave one of the ids in %s (%s)", p, e.trailStr(st))
		}
	}
	o.queueChecked(e, st, failed, where)
	if failed {
		return
	}
	from, _ := o.route(e, st)
	switch o.name {
	case "TimeoutMessages", "UnlockMessages":
		if from == "?" {
			break
		}
		l := o.listIn(e, st, from)
		ok := listEmpty(e, st, l) == 1 || st.mem[mlk(e, "done", l)] != nil
		if !ok && o.name == "TimeoutMessages" {
			ok = o.sortedStop(e, st, l)
		}
		o.expect("C27", ok, "every-due-message-is-processed", from, where, "%s may end before every message of %s was examined (%s)", o.name, from, e.trailStr(st))
	case "PullMessages":
		l := o.listIn(e, st, from)
		ok := listEmpty(e, st, l) == 1 || st.mem[mlk(e, "done", l)] != nil || st.ghost["full"] != ""
		o.expect("C27", ok, "pull-looks-until-full-or-exhausted", "", where, "PullMessages may stop although messages were not looked at and the requested number was not reached (%s)", e.trailStr(st))
	}
	// the reported ids are the moved ones
	if len(res) > 0 && (from != "" && o.name != "MakeAvailable" && o.name != "LockMessage") {
		moved := mlList(e, st, mlk(e, "moved"))
		got := e.Elems(st, res[0])
		for _, x := range moved {
			ok := false
			for _, g := range got {
				ok = ok || e.same(st, g, x)
			}
			o.expect("C27", ok, "moved-ids-are-reported", "", where, "%s moves a message without reporting its id (%s)", o.name, e.trailStr(st))
		}
		if o.name != "Insert" {
			for _, g := range got {
				ok := g.Op == "elems"
				for _, x := range moved {
					ok = ok || e.same(st, g, x)
				}
				o.expect("C27", ok, "only-moved-ids-are-reported", "", where, "%s reports %s, which it did not move (%s)", o.name, Canon(g), e.trailStr(st))
			}
		}
	}
	if o.name == "MakeAvailable" || o.name == "LockMessage" {
		moved := len(mlList(e, st, mlk(e, "moved"))) > 0
		t := e.Truth(st, res[0])
		o.expect("C27", t == 1 && moved || t == 2 && !moved, "result-tells-whether-it-moved", "", where, "%s reports success although the message did not move, or the reverse (%s)", o.name, e.trailStr(st))
	}
}

// sortedStop: the scan ended at an element that is not due in a pool sorted by deadline.
func (o *memOp) sortedStop(e *Engine, st *State, l *Term) bool {
	for a, x := range st.mem {
		if a.Op == "ml:scan" && st.mem[mlk(e, "of", x)] == l && st.mem[e.T.mk("ml:all", a.Str, nil)] != nil && st.mem[mlk(e, "gone", x)] == nil && o.handled(e, st, x) {
			return true
		}
	}
	for a, v := range st.mem {
		if a.Op == "ml:front" && v == l && st.mem[mlk(e, "gone", a.Args[0])] == nil && o.handled(e, st, a.Args[0]) {
			return true
		}
	}
	return false
}

// countedOut: as many rounds as the pool had entries.
func (o *memOp) countedOut(e *Engine, st *State, l *Term) bool {
	for t, f := range st.facts {
		if t.Op == "lt" && f.B == 2 {
			y := stripNum(t.Args[1])
			if y.Op == "opq" && y.Label == "listlen" {
				return true
			}
		}
	}
	return false
}

// clean forgets what no longer matters about the lists, so that loops have few states.
func (o *memOp) clean(e *Engine, st *State, live map[*Term]bool) {
	if o.name != "TimeoutMessages" && o.name != "UnlockMessages" {
		// deadlines are not compared with the current time here
		for t := range st.facts {
			if mentionsNow(t) {
				delete(st.facts, t)
			}
		}
	}
	ctxs := map[string]bool{}
	inEnv := map[*Term]bool{}
	var strs []*Term
	for _, f := range st.frames {
		ctxs[f.ctx] = true
		for v, t := range f.env {
			inEnv[strip(t)] = true
			if isStrT(v.Type()) {
				strs = append(strs, t)
			}
			if strings.HasSuffix(v.Type().String(), "message.Message") && isPtrT(v.Type()) {
				strs = append(strs, e.Load(st, e.fa(t, "ID", types.Typ[types.String]), types.Typ[types.String]))
			}
		}
	}
	keep := map[*Term]bool{}
	for r := range live {
		keep[r] = true
	}
	for a, v := range st.mem {
		switch a.Op {
		case "ml:scan", "ml:ne", "ml:le", "ml:ge", "ml:all", "ml:miss", "ml:seen":
			if !ctxs[a.Str[:strings.IndexByte(a.Str, ':')]] {
				delete(st.mem, a)
			} else if a.Op == "ml:scan" {
				for _, r := range v.roots {
					keep[r] = true
				}
			}
		case "ml:credits", "ml:moved":
			for _, r := range v.roots {
				keep[r] = true
			}
		}
	}
	dead := func(t *Term) bool {
		for _, r := range t.roots {
			if !keep[r] {
				return true
			}
		}
		return false
	}
	for a := range st.mem {
		switch a.Op {
		case "ml:front", "ml:back", "ml:next", "ml:prev", "ml:of", "ml:gone", "ml:prele", "ml:prege", "ml:endof":
			if dead(a.Args[0]) {
				delete(st.mem, a)
			}
		case "ml:present", "ml:absent", "ml:settled":
			if dead(a.Args[1]) {
				delete(st.mem, a)
			} else if a.Op == "ml:absent" {
				strs = append(strs, a.Args[1])
			}
		}
	}
	from, to := o.route(e, st)
	norm := func(l *Term) {
		pool, _ := o.poolOf(e, st, l)
		if pool == "" || pool == from || pool == to || inEnv[l] || o.name == "Remove" {
			return
		}
		if listEmpty(e, st, l) == 1 {
			for _, x := range strs {
				st.mem[mlk(e, "absent", l, x)] = e.T.Bool(true)
			}
		}
		delete(st.mem, mlk(e, "empty", l))
		delete(st.mem, mlk(e, "len", l))
		delete(st.mem, mlk(e, "endle", l))
		delete(st.mem, mlk(e, "endge", l))
		delete(st.mem, mlk(e, "done", l))
		if l.Op == "lookup" {
			delete(st.facts, l)
		}
	}
	var ls []*Term
	for l := range st.facts {
		if l.Op == "lookup" {
			ls = append(ls, l)
		}
	}
	for a := range st.mem {
		if strings.HasPrefix(a.Op, "ml:") && len(a.Args) > 0 && a.Args[0].Op == "lookup" {
			ls = append(ls, a.Args[0])
		}
	}
	for _, l := range ls {
		norm(l)
	}
	for a, v := range st.mem {
		if a.Op == "ml:len" {
			if e.IvOf(st, v).Hi <= 0 {
				st.mem[mlk(e, "empty", a.Args[0])] = e.T.Bool(true)
				delete(st.mem, a)
			} else if dead(v) {
				delete(st.mem, a)
			}
		}
	}
}

func isPtrT(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }
