package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const storePkg = "internal/queue/storage"

func init() {
	register(&Check{ID: "C30", Min: 20, Pkgs: []string{cachePkg, storePkg},
		Technique: "Lockset dataflow: every access to a field, map, list or stored object of an in-memory store against the locks held on its path, intersected over all operations",
		Note:      "All paths of every exported method of the in-memory cache and storage; objects reachable from shared maps and lists are tracked through copies, list elements and pointers.",
		Run:       func(c *Ctx) { c.locksets("C30") }})
	register(&Check{ID: "C31", Min: 8, Pkgs: []string{cachePkg, storePkg},
		Technique: "Atomicity dataflow: shared state is forgotten whenever the lock is released, so that every update must rest on what was read in its own critical section",
		Note:      "All paths of every exported method of the in-memory cache and storage, with shared maps and the objects found in them versioned by critical section.",
		Run:       func(c *Ctx) { c.locksets("C31") }})
	register(&Check{ID: "C32", Min: 4, Pkgs: []string{storePkg},
		Technique: "Ownership and escape dataflow: no object the in-memory storage modifies in place is reachable from its callers",
		Note:      "All paths of every method of the in-memory storage; the kinds of objects modified in place are collected first, then every stored and every returned message is followed to pointers of those kinds.",
		Run:       func(c *Ctx) { c.locksets("C32") }})
}

type lsAccess struct {
	write bool
	held  map[string]string
	key   string
	where string
	fn    string
	trail string
}

type lockset struct {
	c      *Ctx
	id     string
	impl   types.Type
	name   string
	locks  map[string]bool
	acc    map[string][]lsAccess
	seen   map[string]bool
	method string

	second   bool            // C32: the kinds of modified objects are known
	inPlace  map[string]bool // kinds of objects modified in place
	stored   int
	returned int
}

// memImpls finds the in-memory implementations of the cache and of the storage.
func (c *Ctx) memImpls() []types.Type {
	var out []types.Type
	for _, x := range [][2]string{{cachePkg, "Cache"}, {storePkg, "Storage"}} {
		n := 0
		for _, t := range c.P.Impls(x[0], x[1]) {
			p, ok := t.(*types.Pointer)
			if !ok {
				continue
			}
			s := structOf(p.Elem())
			for i := 0; s != nil && i < s.NumFields(); i++ {
				m, ok := s.Field(i).Type().Underlying().(*types.Map)
				if ok && (c.isListMap(m) || strings.HasSuffix(strings.TrimPrefix(m.Elem().String(), "*"), "message.Message")) {
					out = append(out, t)
					n++
					break
				}
			}
		}
		if n == 0 {
			c.Bad("anchor:"+x[1], x[0], "no in-memory implementation of %s found", x[1])
		}
	}
	return out
}

func isLockT(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

func (c *Ctx) locksets(id string) {
	for _, t := range c.memImpls() {
		if id == "C32" && c.P.methodOf(t, "PullMessages") != nil {
			continue // the cache keeps ids and numbers only
		}
		l := &lockset{c: c, id: id, impl: t, name: t.(*types.Pointer).Elem().(*types.Named).Obj().Name(), locks: map[string]bool{}, acc: map[string][]lsAccess{}, seen: map[string]bool{}}
		s := structOf(t.(*types.Pointer).Elem())
		for i := 0; i < s.NumFields(); i++ {
			if isLockT(s.Field(i).Type()) {
				l.locks[s.Field(i).Name()] = true
			}
		}
		ms := c.P.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			fn := c.P.SSA.MethodValue(ms.At(i))
			if fn == nil || len(fn.Blocks) == 0 || !m.Exported() {
				continue
			}
			l.method = m.Name()
			l.explore(fn)
		}
		if id == "C30" {
			l.judge()
		}
		if id == "C32" {
			l.second = true
			for i := 0; i < ms.Len(); i++ {
				fn := c.P.SSA.MethodValue(ms.At(i))
				if fn != nil && len(fn.Blocks) > 0 && ms.At(i).Obj().Exported() {
					l.method = ms.At(i).Obj().Name()
					l.explore(fn)
				}
			}
			c.Expect(l.stored > 0, "messages-are-stored", l.name, c.P.Pos(l.impl.(*types.Pointer).Elem().(*types.Named).Obj().Pos()), "no message stored by %s was found", l.name)
			c.Expect(l.returned > 0, "messages-are-returned", l.name, c.P.Pos(l.impl.(*types.Pointer).Elem().(*types.Named).Obj().Pos()), "no message returned by %s was found", l.name)
		}
	}
}

// root is the shared variable an address or object belongs to, with the map it was found in.
func (l *lockset) root(e *Engine, st *State, t *Term) (field string, m *Term) {
	for i := 0; t != nil && i < 40; i++ {
		t = strip(t)
		if sh := st.mem[e.T.mk("ls:shared", "", nil, t)]; sh != nil {
			f, _ := sh.Args[0].StrVal()
			return f, sh.Args[1]
		}
		switch t.Op {
		case "fa", "ia":
			if Canon(t.Args[0]) == "$0" {
				return t.Str, nil
			}
			t = t.Args[0]
		case "load":
			if a := t.Args[0]; a.Op == "fa" && Canon(a.Args[0]) == "$0" {
				return a.Str, t
			}
			t = t.Args[0]
		case "lookup", "elems", "slice", "idx", "tassert", "asserted", "ext", "field":
			t = t.Args[0]
		case "opq":
			if strings.HasPrefix(t.Label, "shared:") {
				return strings.TrimPrefix(t.Label, "shared:"), t
			}
			if o := st.mem[mlk(e, "of", t)]; o != nil {
				t = o
				continue
			}
			return "", nil
		default:
			// what a field of the store was last set to
			for a, v := range st.mem {
				if v == t && a.Op == "fa" && Canon(a.Args[0]) == "$0" && (t.Op == "mkmap" || t.Op == "alloc") {
					return a.Str, t
				}
			}
			return "", nil
		}
	}
	return "", nil
}

// recv is the address of a field of the store.
func (l *lockset) field(e *Engine, f string) *Term {
	s := structOf(l.impl.(*types.Pointer).Elem())
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return e.fa(e.Param("$0", nil), f, s.Field(i).Type())
		}
	}
	return nil
}

func (l *lockset) stale(e *Engine, st *State, f string, m *Term) bool {
	a := l.field(e, f)
	if m == nil || a == nil {
		return false
	}
	cur := e.Load(st, a, deref(a.Typ))
	return cur != m
}

// access records that shared variable v is read or written.
func (l *lockset) access(e *Engine, st *State, f, v string, write bool, site ssa.Instruction) {
	if f == "" || l.locks[f] {
		return
	}
	if write {
		st.ghost["wrote"] = "y"
	} else {
		st.ghost["cur:"+f] = "y"
	}
	h := heldLocks(st)
	var hs []string
	for k, m := range h {
		hs = append(hs, k+m)
	}
	sort.Strings(hs)
	k := fmt.Sprint(v, write, hs, site.Parent(), l.c.P.insID(site))
	if l.seen[k] {
		return
	}
	l.seen[k] = true
	l.acc[v] = append(l.acc[v], lsAccess{write, h, fmt.Sprintf("%s:%s", v, site.Parent().Name()), l.c.at(site), l.method, e.trailStr(st)})
}

func (l *lockset) objType(t *Term) string {
	for t.Op == "fa" || t.Op == "ia" {
		t = t.Args[0]
	}
	if t.Typ == nil {
		return "object"
	}
	n := t.Typ.String()
	if i := strings.LastIndexAny(n, "./"); i >= 0 {
		n = n[i+1:]
	}
	return strings.TrimPrefix(n, "*")
}

func (l *lockset) object(e *Engine, st *State, addr *Term, write bool, site ssa.Instruction) {
	if addr.Op == "fa" && Canon(addr.Args[0]) == "$0" {
		l.access(e, st, addr.Str, addr.Str, write, site)
		return
	}
	f, m := l.root(e, st, addr)
	if f == "" {
		return
	}
	if addr.Op == "fa" && addr.Str == "Value" && strings.Contains(addrRoot(addr).Typ.String(), "list.Element") {
		return
	}
	if write {
		if l.inPlace == nil {
			l.inPlace = map[string]bool{}
		}
		l.inPlace[l.objType(addr)] = true
	}
	l.access(e, st, f, f+" contents ("+l.objType(addr)+")", write, site)
	if write {
		l.fresh(e, st, f, m, addr, "modified", site)
	}
}

// fresh demands that an object about to be changed was found in the present critical section.
func (l *lockset) fresh(e *Engine, st *State, f string, m, obj *Term, what string, site ssa.Instruction) {
	if l.id != "C31" {
		return
	}
	where := l.c.at(site)
	if !l.c.Expect(!l.stale(e, st, f, m), "found-in-the-same-critical-section", l.method+":"+f, where, "%s.%s: an object of %s that was found before the lock was last released is %s: it may have been removed or replaced since (%s)", l.name, l.method, f, what, e.trailStr(st)) {
		return
	}
	if st.ghost["old:"+f] == "" {
		return
	}
	r := addrRoot(obj)
	for r.Op == "load" {
		r = addrRoot(r.Args[0])
	}
	if r.Op == "lookup" {
		known := e.nilness(st, r) == 2 || e.Truth(st, e.T.mk("has", "", types.Typ[types.Bool], r.Args[0], r.Args[1])) == 1
		l.c.Expect(known, "looked-at-in-the-same-critical-section", l.method+":"+f, where, "%s.%s: an entry of %s is %s on the strength of what was read before the lock was last released (%s)", l.name, l.method, f, what, e.trailStr(st))
	}
}

func (l *lockset) onMap(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
	f, mt := l.root(e, st, m)
	if f == "" {
		return
	}
	write := kind == "update" || kind == "delete" || kind == "clear"
	l.access(e, st, f, f+" contents (map)", write, site)
	if !write {
		return
	}
	if mt != nil && m != mt && m.Op == "load" {
		if l.inPlace == nil {
			l.inPlace = map[string]bool{}
		}
		l.inPlace["map"] = true
	}
	if l.id == "C31" {
		where := l.c.at(site)
		if !l.c.Expect(!l.stale(e, st, f, mt), "found-in-the-same-critical-section", l.method+":"+f, where, "%s.%s: a map %s held before the lock was last released is changed (%s)", l.name, l.method, f, e.trailStr(st)) {
			return
		}
		if kind == "update" && st.ghost["old:"+f] != "" {
			k := stripKey(k)
			lk := e.T.mk("lookup", "", nil, m, k)
			known := e.Truth(st, e.T.mk("has", "", types.Typ[types.Bool], m, k)) != 0 || e.nilness(st, lk) != 0 || st.mem[e.T.mk("mval", "", nil, m, k)] != nil

			l.c.Expect(known, "looked-at-in-the-same-critical-section", l.method+":"+f, where, "%s.%s: an entry of %s is set on the strength of what was read before the lock was last released (%s)", l.name, l.method, f, e.trailStr(st))
		}
	}
	if l.second && kind == "update" && v != nil && isMessagePtr(v.Typ) {
		l.stored++
		l.reach(e, st, v, func(p *Term, path string) {
			l.c.Expect(!l.callers(p), "stored-messages-are-the-storage's-own", path, l.c.at(site), "%s.%s keeps %s of the caller: later changes by either side show in the other (%s)", l.name, l.method, Canon(p), e.trailStr(st))
		}, "message", 0)
	}
	if kind == "update" && v != nil {
		l.share(e, st, f, m, v)
	}
}

func (l *lockset) share(e *Engine, st *State, f string, m, v *Term) {
	v = strip(v)
	if v.Op == "alloc" || v.Op == "opq" && strings.HasPrefix(v.Label, "list") || strings.HasPrefix(v.Op, "$") || v.Op == "param" {
		st.mem[e.T.mk("ls:shared", "", nil, v)] = e.T.mk("tuple", "", nil, e.T.S(f), m)
	}
}

// lock follows the lock operations; the state of the store is forgotten when a lock is released.
func (l *lockset) lock(e *Engine, st *State, ci *CallInfo) {
	if !strings.HasPrefix(ci.Name, "(*sync.Mutex).") && !strings.HasPrefix(ci.Name, "(*sync.RWMutex).") || len(ci.Args) == 0 {
		return
	}
	n := Canon(strip(ci.Args[0]))
	n = n[strings.LastIndexByte(n, '.')+1:]
	op := ci.Name[strings.LastIndexByte(ci.Name, '.')+1:]
	held := st.ghost["L:"+n]
	where := l.c.at(ci.Site)
	is30 := l.id == "C30"
	switch op {
	case "Lock", "RLock":
		if is30 {
			l.c.Expect(held == "", "never-acquired-twice", l.method, where, "%s.%s acquires %s while holding it: deadlock (%s)", l.name, l.method, n, e.trailStr(st))
		}
		st.ghost["L:"+n] = map[string]string{"Lock": "w", "RLock": "r"}[op]
	case "Unlock", "RUnlock":
		want := map[string]string{"Unlock": "w", "RUnlock": "r"}[op]
		if is30 {
			l.c.Expect(held == want, "released-as-acquired", l.method, where, "%s.%s releases %s, which it does not hold that way: panic (%s)", l.name, l.method, n, e.trailStr(st))
		}
		delete(st.ghost, "L:"+n)
		if len(heldLocks(st)) == 0 {
			l.forget(e, st, ci.Site)
		}
	}
}

// forget: anyone may change the store now.
func (l *lockset) forget(e *Engine, st *State, site ssa.Instruction) {
	for g := range st.ghost {
		if strings.HasPrefix(g, "cur:") {
			delete(st.ghost, g)
			st.ghost["old:"+g[4:]] = "y"
		}
	}
	s := structOf(l.impl.(*types.Pointer).Elem())
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if l.locks[f.Name()] {
			continue
		}
		t := e.fresh(st, "opq", "shared:"+f.Name(), site, "sh"+f.Name(), f.Type())
		t.Typ = f.Type()
		st.facts[t] = Fact{}
		delete(st.facts, t)
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			e.setNil(st, t, false)
		}
		st.mem[l.field(e, f.Name())] = t
	}
}

func (l *lockset) explore(fn *ssa.Function) {
	c := l.c
	where := c.P.Pos(fn.Pos())
	lists := l.hasLists() // positions in lists are not worth remembering across joins
	c.Explore(fn, &Opts{NoEscape: true, Shallow: !l.second, NoElems: lists, Coarse: lists, DropOld: !lists,
		OnHeader: l.header,
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			if strings.HasPrefix(ci.Name, "(*sync.") && (strings.HasSuffix(ci.Name, ").TryLock") || strings.HasSuffix(ci.Name, ").TryRLock")) {
				n := Canon(strip(ci.Args[0]))
				n = n[strings.LastIndexByte(n, '.')+1:]
				if st.ghost["L:"+n] != "" {
					return []*Outcome{{Res: e.T.Bool(false)}}, true
				}
				return []*Outcome{{Res: e.T.Bool(true), Apply: func(s *State) {
					s.ghost["L:"+n] = map[bool]string{true: "r", false: "w"}[strings.HasSuffix(ci.Name, "TryRLock")]
				}}, {Res: e.T.Bool(false)}}, true
			}
			return l.lists(e, st, ci)
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) { l.lock(e, st, ci) },
		OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) { l.object(e, st, addr, false, site) },
		OnStore: func(e *Engine, st *State, addr, v *Term, site ssa.Instruction) {
			l.object(e, st, addr, true, site)
			if l.second && addr.Op == "ia" && v.Typ != nil && strings.HasSuffix(v.Typ.String(), "message.Message") && !isPtrT(v.Typ) {
				l.out(e, st, v, l.c.at(site))
			}
		},
		OnMap: l.onMap,
		OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
			t := cond
			if t.Op == "not" {
				t, want = t.Args[0], !want
			}
			if l.second && want && t.Op == "eq" {
				for i := range t.Args {
					if o := strip(t.Args[1-i]); t.Args[i].IsNil() && o.Typ != nil && isPtrT(o.Typ) && structOf(deref(o.Typ)) != nil {
						st.mem[e.T.mk("ls:nil", "", nil, strip(t.Args[1-i]))] = e.T.Bool(true)
					}
				}
			}
			return true
		},
		RunGo: func(e *Engine, st *State, site ssa.Instruction) {
			for g := range st.ghost {
				if strings.HasPrefix(g, "L:") {
					delete(st.ghost, g)
				}
			}
			l.forget(e, st, site)
		},
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			if !l.second {
				return
			}
			for _, x := range elems {
				if x.Typ == nil || !strings.HasSuffix(strings.TrimPrefix(x.Typ.String(), "*"), "message.Message") || isPtrT(x.Typ) {
					continue
				}
				l.out(e, st, x, l.c.at(site))
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if l.second {
				for _, r := range res {
					if r.Typ == nil {
						continue
					}
					switch r.Typ.Underlying().(type) {
					case *types.Slice:
						for _, x := range e.Elems(st, r) {
							if x.Typ != nil && isPtrT(x.Typ) {
								l.out(e, st, x, where) // values were looked at when they were put in
							}
						}
					case *types.Pointer:
						l.out(e, st, r, where)
					}
				}
				return
			}
			if l.id == "C32" {
				return
			}
			if l.id == "C30" {
				c.Expect(len(heldLocks(st)) == 0, "released-on-every-exit", l.method, where, "%s.%s may return with a lock held (%s)", l.name, l.method, e.trailStr(st))
				return
			}
			if l.method == "Insert" && len(res) > 0 {
				er := res[len(res)-1]
				if isErrT(fn.Signature.Results().At(len(res)-1).Type()) && e.nilness(st, er) != 1 {
					c.Expect(st.ghost["wrote"] == "", "a-rejected-insert-changes-nothing", "", where, "%s.Insert may fail after having changed the store (%s)", l.name, e.trailStr(st))
				}
			}
		}}, nil)
}

// judge: for every shared variable that is written, one lock is held at every access, exclusively at writes.
func (l *lockset) judge() {
	var vs []string
	for v := range l.acc {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for _, v := range vs {
		as := l.acc[v]
		written := false
		for _, a := range as {
			written = written || a.write
		}
		if !written {
			continue
		}
		best, bestN := "", -1
		var lk []string
		for n := range l.locks {
			lk = append(lk, n)
		}
		sort.Strings(lk)
		fits := func(a lsAccess, n string) bool { return a.held[n] == "w" || a.held[n] == "r" && !a.write }
		for _, n := range lk {
			k := 0
			for _, a := range as {
				if fits(a, n) {
					k++
				}
			}
			if k > bestN {
				best, bestN = n, k
			}
		}
		for _, a := range as {
			kind := "read"
			if a.write {
				kind = "written"
			}
			how := ""
			if a.write && a.held[best] == "r" {
				how = " exclusively"
			}
			l.c.Expect(fits(a, best), "accessed-under-its-lock", l.name+"."+a.key, a.where, "%s of %s is %s by %s without its lock %q held%s: data race (%s)", v, l.name, kind, a.fn, best, how, a.trail)
		}
	}
}

// header: the values of counters do not matter.
func (l *lockset) header(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
	for t, f := range st.facts {
		if (t.Op == "lt" || t.Op == "eq" || f.Iv != nil || f.SEq != nil || f.SNe != nil) && !t.hasRoot(e.Param("$0", nil)) {
			delete(st.facts, t)
		}
		if t.Op == "load" || t.Op == "field" {
			delete(st.facts, t)
		}
	}
	if l.second && back {
		// copies made in earlier rounds were looked at when they were stored or returned
		for a := range st.mem {
			if r := addrRoot(a); a.Op == "fa" && r.Op == "alloc" {
				delete(st.mem, a)
				st.mem[e.T.mk("hv", "", nil, r)] = e.T.mk("old", "", nil)
			}
		}
	}
	s := structOf(l.impl.(*types.Pointer).Elem())
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Basic); ok {
			a := l.field(e, f.Name())
			if v := st.mem[a]; v != nil && v.Op != "const" && !strings.HasPrefix(v.Label, "shared:") {
				t := e.fresh(st, "opq", "shared:"+f.Name(), b.Instrs[0], "cnt"+f.Name(), f.Type())
				st.mem[a] = t
			}
		}
	}
}

// lists: operations of container/list as accesses to the list; only the list an element came from is remembered.
func (l *lockset) lists(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	if !strings.HasPrefix(ci.Name, "(*container/list.") {
		if ci.Name == "container/list.New" {
			t := e.fresh(st, "opq", "list", ci.Site, "r", ci.Sig.Results().At(0).Type())
			st.facts[t] = Fact{Nil: 2}
			return []*Outcome{{Res: t}}, true
		}
		return nil, false
	}
	x := strip(ci.Args[0])
	op := ci.Name[strings.LastIndexByte(ci.Name, '.')+1:]
	write := !strings.HasPrefix(ci.Name, "(*container/list.Element)") && op != "Len" && op != "Front" && op != "Back"
	f, m := l.root(e, st, x)
	if f != "" {
		l.access(e, st, f, f+" contents (list)", write, ci.Site)
		if l.id == "C31" && strings.HasPrefix(ci.Name, "(*container/list.Element)") {
			l.c.Expect(!l.stale(e, st, f, m), "found-in-the-same-critical-section", l.method+":"+f, l.c.at(ci.Site), "%s.%s steps on from an element of %s that was found before the lock was last released: it may have been removed since (%s)", l.name, l.method, f, e.trailStr(st))
		}
		if write {
			l.fresh(e, st, f, m, x, "changed", ci.Site)
			if op == "Remove" {
				if f2, m2 := l.root(e, st, strip(ci.Args[1])); f2 != "" {
					l.fresh(e, st, f2, m2, x, "removed", ci.Site)
				}
			} else if len(ci.Args) > 1 {
				l.share(e, st, f, m, ci.Args[1])
			}
		}
	}
	if ci.Sig.Results().Len() == 0 {
		return nil, false
	}
	rt := ci.Sig.Results().At(0).Type()
	r := e.fresh(st, "opq", "elem", ci.Site, "r", rt)
	r.Typ = rt
	e.refresh(ci, r)
	x = strip(ci.Args[0])
	if !strings.HasSuffix(rt.String(), "list.Element") {
		return []*Outcome{{Res: r}}, true
	}
	if strings.HasPrefix(ci.Name, "(*container/list.Element)") {
		if x = st.mem[mlk(e, "of", x)]; x == nil {
			return []*Outcome{{Res: r}}, true
		}
	}
	return []*Outcome{{Res: r, Apply: func(s *State) { e.setNil(s, r, true) }},
		{Res: r, Apply: func(s *State) {
			e.setNil(s, r, false)
			s.mem[mlk(e, "of", r)] = x
		}}}, true
}

func (l *lockset) hasLists() bool {
	s := structOf(l.impl.(*types.Pointer).Elem())
	for i := 0; i < s.NumFields(); i++ {
		if l.c.isListMap(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func isMessagePtr(t types.Type) bool {
	return t != nil && isPtrT(t) && strings.HasSuffix(t.String(), "message.Message")
}

// callers tells whether an object came in as an argument.
func (l *lockset) callers(p *Term) bool {
	found := false
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if d > 30 || found {
			return
		}
		switch t.Op {
		case "fa", "ia", "load", "elems", "slice", "field", "ta", "idx":
			walk(t.Args[0], d+1)
		default:
			c := Canon(t)
			found = strings.HasPrefix(c, "$") && !strings.HasPrefix(c, "$0")
		}
	}
	walk(strip(p), 0)
	return found
}

// out: an object handed to a caller.
func (l *lockset) out(e *Engine, st *State, x *Term, where string) {
	msg := x.Typ != nil && strings.HasSuffix(strings.TrimPrefix(x.Typ.String(), "*"), "message.Message")
	if msg {
		l.returned++
	}
	if x.Op == "elems" {
		return
	}
	l.reach(e, st, x, func(p *Term, path string) {
		f, _ := l.root(e, st, p)
		l.c.Expect(f == "", "returned-messages-are-copies", l.method+":"+path, where, "%s.%s hands out %s of a stored message, which later operations modify (%s)", l.name, l.method, Canon(p), e.trailStr(st))
	}, "message", 0)
}

// reach visits the pointers to objects of a kind modified in place that are reachable from x.
func (l *lockset) reach(e *Engine, st *State, x *Term, visit func(p *Term, path string), path string, d int) {
	if x == nil || x.Typ == nil || d > 4 {
		return
	}
	x = strip(x)
	if x.IsNil() || x.Op == "zero" || e.nilness(st, x) == 1 || st.mem[e.T.mk("ls:nil", "", nil, x)] != nil {
		return
	}
	t := x.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		n := p.Elem().String()
		n = n[strings.LastIndexAny(n, "./")+1:]
		if !l.inPlace[n] {
			return
		}
		visit(x, path)
		if s := structOf(p.Elem()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isPtrT(f.Type()) || isMapT(f.Type()) {
					l.reach(e, st, e.Load(st, e.fa(x, f.Name(), f.Type()), f.Type()), visit, path+"."+f.Name(), d+1)
				}
			}
		}
		return
	}
	if isMapT(t) {
		if l.inPlace["map"] {
			visit(x, path)
		}
		return
	}
	if s := structOf0(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isPtrT(f.Type()) || isMapT(f.Type()) {
				l.reach(e, st, e.field(x, f.Name(), f.Type()), visit, path+"."+f.Name(), d+1)
			}
		}
	}
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }
