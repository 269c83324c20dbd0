package main

// Path-sensitive interprocedural dataflow over SSA. Abstract states (frames,
// symbolic memory, branch facts, event word) are propagated along every control
// path of the current source; states that reach a block with the same abstraction
// are merged, so loops and joins converge. Calls into the module are expanded,
// role interfaces (storage, cache, auditor) become events with a success and a
// failure outcome, everything else is opaque.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Name string
	Args []*Term // receiver first for methods
	Res  *Term   // result term (tuple for several results)
	Errs *Term   // error result, when the last result is an error
	Site ssa.Instruction
	Ctx  string
	term *Term
}

type Trail struct {
	pos  token.Pos
	prev *Trail
}

type deferRec struct {
	call *ssa.CallCommon
	site ssa.Instruction
	fn   *Term
	args []*Term
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []deferRec
	ctx    string
	loop   bool // the frame runs inside a cycle of some caller
	call   ssa.Instruction
	retVal ssa.Value // value in the caller that receives the result
	isDef  bool      // running as a deferred call
	drop   bool      // result is discarded
	isGo   bool      // running as a goroutine of its own: the path ends with it
}

type Fact struct {
	Nil int // 1 nil, 2 non-nil
	B   int // 1 true, 2 false
	Iv  *Iv
	SEq *string
	SNe []string
}

func (f Fact) key() string {
	s := fmt.Sprintf("%d%d", f.Nil, f.B)
	if f.Iv != nil {
		s += f.Iv.key()
	}
	if f.SEq != nil {
		s += "=" + *f.SEq
	}
	for _, x := range f.SNe {
		s += "!" + x
	}
	return s
}

type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]Fact
	events []*Event
	ghost  map[string]string
	trail  *Trail
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{trail: s.trail}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferRec(nil), f.defers...)
		n.frames[i] = &g
	}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[*Term]Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.events = append([]*Event(nil), s.events...)
	n.ghost = make(map[string]string, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

type CallInfo struct {
	Name   string // full name of the callee (interface method or function), "" when unknown
	Fn     *ssa.Function
	Common *ssa.CallCommon
	Args   []*Term
	Site   ssa.Instruction
	FnTerm *Term
	Sig    *types.Signature
	st     *State
}

type Opts struct {
	Event      func(c *CallInfo) bool
	NoErrFork  func(name string) bool
	Opaque     func(fn *ssa.Function) bool
	OnEvent    func(e *Engine, st *State, ev *Event)
	OnFail     func(e *Engine, st *State, ev *Event) // the continuation in which the event returned an error
	OnExit     func(e *Engine, st *State, res []*Term)
	OnCall     func(e *Engine, st *State, c *CallInfo) // every call before it is resolved
	OnStore    func(e *Engine, st *State, addr, val *Term, site ssa.Instruction)
	OnLoad     func(e *Engine, st *State, addr *Term, site ssa.Instruction)
	OnMap      func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction)
	OnGo       func(e *Engine, st *State, c *CallInfo)
	RunGo      func(e *Engine, st *State, site ssa.Instruction) // goroutines are explored, from a state prepared by RunGo
	OnAppend   func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction)
	OnChan     func(e *Engine, st *State, kind string, ch, v *Term, site ssa.Instruction) // recv, send, close; empty and full for a select that took its default
	OnHeader   func(e *Engine, st *State, b *ssa.BasicBlock, back bool)
	OnPanic    func(e *Engine, st *State)
	OnSlice    func(e *Engine, st *State, x *ssa.Slice, t *Term)
	KeepPhi    func(v *Term) bool                                                // the value of a numeric loop variable is kept
	OnGC       func(e *Engine, st *State, live map[*Term]bool)                   // live: objects the frames refer to
	OnBranch   func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool // false: the branch is infeasible
	Model      func(e *Engine, st *State, c *CallInfo) ([]*Outcome, bool)
	stop       func() bool
	MaxStates  int
	Depth      int
	NilParams  bool // parameters may be nil
	KeepEvent  func(ev *Event) bool
	ChanEv     bool
	NoEscape   bool // external calls do not havoc local memory
	BareEvents bool // events do not remember their arguments
	KeepFields []string
	Exact      bool // lists appended to outside loops keep their order
	Unroll     bool // numeric loop variables keep their concrete value (loops over known lists)
	Shallow    bool // forget the contents of local structs (but for errors and functions)
	DropOld    bool // forget the contents of, and facts about, objects of earlier loop iterations
	OnReturn   func(e *Engine, st *State, res []*Term)
	CallsBack  func(name string) bool // the function handed over runs, and its result is that of the call
	NoElems    bool                   // forget facts about collection elements at joins
	Coarse     bool                   // forget facts about collection elements and contents of protocol messages at joins
}

// Outcome is one result of a modelled call.
type Outcome struct {
	Res    *Term
	Assume []Assumption
	Apply  func(st *State)
}
type Assumption struct {
	T    *Term
	Want bool
}

type Engine struct {
	P         *Program
	T         *Terms
	O         *Opts
	seen      map[[2]uint64]bool
	work      []*State
	NStates   int
	NSteps    int
	NPaths    int
	Undecided string
	Inlined   map[*ssa.Function]bool
	impl      map[types.Type]types.Type
	curCall   *CallInfo
}

func NewEngine(p *Program, o *Opts) *Engine {
	if o.MaxStates == 0 {
		o.MaxStates = 1000000
		if n, err := strconv.Atoi(os.Getenv("VERIF_MAX")); err == nil {
			o.MaxStates = n // to look into an explosion
		}
	}
	if o.Depth == 0 {
		o.Depth = 14
	}
	return &Engine{P: p, T: NewTerms(), O: o, seen: map[[2]uint64]bool{}, Inlined: map[*ssa.Function]bool{}}
}

func (e *Engine) fail(format string, a ...any) {
	if e.Undecided == "" {
		e.Undecided = fmt.Sprintf(format, a...)
	}
}

// Param returns the term for a parameter of an entry function.
func (e *Engine) Param(name string, typ types.Type) *Term {
	t := e.T.mk("param", name, typ)
	if typ != nil {
		t.Typ = typ
	}
	return t
}

// Run explores fn from its entry with symbolic parameters.
func (e *Engine) Run(fn *ssa.Function, init func(st *State, args []*Term)) {
	if fn == nil || len(fn.Blocks) == 0 {
		e.fail("no body for entry function")
		return
	}
	st := &State{mem: map[*Term]*Term{}, facts: map[*Term]Fact{}, ghost: map[string]string{}}
	fr := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, ctx: fmt.Sprintf("%d", e.P.fnID(fn))}
	st.frames = []*Frame{fr}
	var args []*Term
	for i, p := range fn.Params {
		n := fmt.Sprintf("$%d", i)
		t := e.Param(n, p.Type())
		args = append(args, t)
		fr.env[p] = t
		if !e.O.NilParams {
			switch u := p.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				if q, ok := u.(*types.Pointer); ok {
					if _, ok := q.Elem().Underlying().(*types.Basic); ok {
						continue // an optional value
					}
				}
				st.facts[t] = Fact{Nil: 2}
			}
		}
	}
	for _, f := range fn.FreeVars {
		fr.env[f] = e.Param("^"+f.Name(), f.Type())
	}
	if init != nil {
		init(st, args)
		for i, p := range fn.Params {
			fr.env[p] = args[i]
		}
	}
	e.Inlined[fn] = true
	e.push(st)
	e.loop()
}

func (e *Engine) push(st *State) { e.work = append(e.work, st) }

func (e *Engine) loop() {
	for len(e.work) > 0 {
		if e.Undecided != "" {
			return
		}
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.NStates++
		if e.NStates > 250000 && e.NStates%1000 == 0 && e.O.stop != nil && e.O.stop() {
			return
		}
		if profOn {
			e.prof(st)
		}
		if dump := os.Getenv("VERIF_DUMP"); dump != "" && e.NStates > e.O.MaxStates-4 {
			fmt.Println("-----", e.NStates)
			fmt.Println(e.Dump(st))
		}
		if e.NStates > e.O.MaxStates {
			if profOn {
				e.profReport()
			}
			e.fail("state budget exhausted (%d) in %s", e.O.MaxStates, st.top().fn)
			return
		}
		e.run(st)
	}
}

// ---- state helpers ---------------------------------------------------------

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		return e.T.Const(normConst(x.Value, x.Type()), x.Type())
	case *ssa.Global:
		t := e.T.mk("global", x.String(), x.Type())
		return t
	case *ssa.Function:
		return e.T.Func(x)
	case *ssa.Builtin:
		return e.T.mk("builtin", x.Name(), nil)
	}
	fr := st.top()
	if t, ok := fr.env[v]; ok {
		return t
	}
	return e.T.mk("undef", fmt.Sprintf("%s:%s", fr.ctx, v.Name()), v.Type())
}

func normConst(v constant.Value, t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		if f := constant.ToFloat(v); f.Kind() == constant.Float || f.Kind() == constant.Int {
			if i := constant.ToInt(f); i.Kind() == constant.Int {
				return i
			}
			return f
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			return i
		}
	}
	return v
}

func (e *Engine) zero(t types.Type) *Term {
	if t == nil {
		return e.T.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.T.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsNumeric != 0:
			return e.T.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return e.T.Const(constant.MakeString(""), t)
		}
		return e.T.Nil()
	case *types.Struct, *types.Array:
		return e.T.mk("zero", "", t)
	case *types.Tuple:
		var as []*Term
		for i := 0; i < u.Len(); i++ {
			as = append(as, e.zero(u.At(i).Type()))
		}
		return e.T.mk("tuple", "", t, as...)
	}
	return e.T.Nil()
}

func (e *Engine) fresh(st *State, op, label string, in ssa.Instruction, sub string, typ types.Type) *Term {
	fr := st.top()
	key := fmt.Sprintf("%s:%d:%d%s", fr.ctx, e.P.fnID(in.Parent()), e.P.insID(in), sub)
	t := e.T.ctxTerm(op, key, label, typ)
	if e.inLoop(st, in) {
		e.rename(st, t)
	}
	return t
}

func (e *Engine) inLoop(st *State, in ssa.Instruction) bool {
	fr := st.top()
	return fr.loop || fr.isDef || e.P.liveFor(fr.fn).cyc[in.Block()]
}

// rename turns every occurrence of a ctx term into its "previous execution" twin.
func (e *Engine) rename(st *State, t *Term) {
	if strings.HasSuffix(t.Str, "~") || !e.occurs(st, t) {
		return
	}
	old := e.T.ctxTerm(t.Op, t.Str+"~", t.Label, t.Typ)
	memo := map[*Term]*Term{}
	if e.traceless(st, t, old) {
		return
	}
	e.forgetAncient(st, old)
	// drop what was known of the older twin
	for a := range st.mem {
		if a.hasRoot(old) {
			delete(st.mem, a)
		}
	}
	for a := range st.facts {
		if a.hasRoot(old) {
			delete(st.facts, a)
		}
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			if v.hasRoot(t) {
				f.env[k] = e.T.subst(v, t, old, memo)
			}
		}
		for i := range f.defers {
			for j, a := range f.defers[i].args {
				f.defers[i].args[j] = e.T.subst(a, t, old, memo)
			}
			if f.defers[i].fn != nil {
				f.defers[i].fn = e.T.subst(f.defers[i].fn, t, old, memo)
			}
		}
	}
	nm := make(map[*Term]*Term, len(st.mem))
	type kv struct{ k, v *Term }
	var moved []kv
	for a, v := range st.mem {
		na, nv := a, v
		if a.hasRoot(t) {
			na = e.T.subst(a, t, old, memo)
		}
		if v.hasRoot(t) {
			nv = e.T.subst(v, t, old, memo)
		}
		if na != a {
			moved = append(moved, kv{na, nv})
		} else {
			nm[na] = nv
		}
	}
	sort.Slice(moved, func(i, j int) bool { return moved[i].k.ID < moved[j].k.ID })
	for _, m := range moved {
		nm[m.k] = m.v
	}
	st.mem = nm
	nf := make(map[*Term]Fact, len(st.facts))
	for a, v := range st.facts {
		if a.hasRoot(t) {
			a = e.T.subst(a, t, old, memo)
		}
		nf[a] = v
	}
	st.facts = nf
	var evs []*Event
	seen := map[*Term]bool{}
	for _, ev := range st.events {
		if ev.term.hasRoot(t) {
			ne := *ev
			ne.Args = make([]*Term, len(ev.Args))
			for i, a := range ev.Args {
				ne.Args[i] = e.T.subst(a, t, old, memo)
			}
			if ev.Res != nil {
				ne.Res = e.T.subst(ev.Res, t, old, memo)
			}
			if ev.Errs != nil {
				ne.Errs = e.T.subst(ev.Errs, t, old, memo)
			}
			ne.term = e.T.subst(ev.term, t, old, memo)
			ev = &ne
		}
		if strings.Contains(ev.Ctx, "") && seen[ev.term] {
			continue
		}
		seen[ev.term] = true
		evs = append(evs, ev)
	}
	st.events = evs
	for k, v := range st.ghost {
		if strings.Contains(v, "#"+fmt.Sprint(t.ID)+"#") {
			st.ghost[k] = strings.ReplaceAll(v, "#"+fmt.Sprint(t.ID)+"#", "#"+fmt.Sprint(old.ID)+"#")
		}
	}
}

// traceless: the previous iteration left nothing behind while a collection still holds what an
// earlier one collected; that earlier one stays the remembered iteration.
func (e *Engine) traceless(st *State, t, old *Term) bool {
	if !strings.HasPrefix(t.Label, "loop:") {
		return false
	}
	collected := func(v, r *Term) bool {
		if v.Op == "coll" {
			for _, a := range v.Args {
				if a.hasRoot(r) {
					return true
				}
			}
		}
		return false
	}
	fr := st.top()
	in := e.P.liveFor(fr.fn).in[fr.block]
	if in == nil {
		return false
	}
	hit := false
	for i, f := range st.frames {
		for k, v := range f.env {
			if i == len(st.frames)-1 {
				if p, ok := k.(*ssa.Phi); ok && p.Block() == fr.block {
					continue // being replaced
				}
				if !in[k] {
					continue
				}
			}
			if v.hasRoot(t) {
				return false
			}
			hit = hit || collected(v, old)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a.hasRoot(t) {
					return false
				}
			}
		}
	}
	// new values of the other loop variables are not in the environment yet
	for k, v := range fr.env {
		if p, ok := k.(*ssa.Phi); ok && p.Block() == fr.block {
			_ = v
			for j, b := range p.Block().Preds {
				if b == fr.prev {
					if w, ok := fr.env[p.Edges[j]]; ok {
						if w.hasRoot(t) && !isBasicNum(p.Type()) {
							return false
						}
						hit = hit || collected(w, old)
					}
				}
			}
		}
	}
	if !hit {
		return false
	}
	for a, v := range st.mem {
		if !a.hasRoot(t) && v.hasRoot(t) && !scanNote(a) {
			return false
		}
	}
	for _, ev := range st.events {
		if ev.term.hasRoot(t) {
			return false
		}
	}
	for k, v := range fr.env {
		if v.hasRoot(t) {
			delete(fr.env, k)
		}
	}
	for a, v := range st.mem {
		if a.hasRoot(t) || v.hasRoot(t) {
			delete(st.mem, a)
		}
	}
	for a := range st.facts {
		if a.hasRoot(t) {
			delete(st.facts, a)
		}
	}
	return true
}

// scanNote: what a scan of a list learned about the elements passed over
func scanNote(a *Term) bool {
	switch a.Op {
	case "ml:ne", "ml:le", "ml:ge", "ml:endle", "ml:endge", "ml:prele", "ml:prege":
		return true
	}
	return false
}

// forgetAncient: the objects of an earlier loop iteration whose contents are described by
// terms that are about to denote a later iteration leave the collections that hold them
// (every combination of iterations is the most recent one on some other path).
func (e *Engine) forgetAncient(st *State, old *Term) {
	kill := map[*Term]bool{}
	for a, v := range st.mem {
		if !v.hasRoot(old) {
			continue
		}
		if r := addrRoot(a); r != old && r.Ctx && r.Op == "alloc" && strings.HasSuffix(r.Str, "~") {
			kill[r] = true
		}
	}
	if len(kill) == 0 {
		return
	}
	memo := map[*Term]*Term{}
	var strip func(t *Term) *Term
	strip = func(t *Term) *Term {
		hit := false
		for r := range kill {
			if t.hasRoot(r) {
				hit = true
			}
		}
		if !hit || t.Ctx {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var args []*Term
		for _, a := range t.Args {
			if t.Op == "coll" && kill[a] && len(t.Args) > 1 {
				continue
			}
			args = append(args, strip(a))
		}
		r := t
		switch t.Op {
		case "coll":
			r = e.T.Coll(t.Typ, args...)
		case "slice", "iface", "conv", "ext", "tuple", "nn", "structv":
			r = e.T.mk(t.Op, t.Str, t.Typ, args...)
			if r.Label == "" {
				r.Label = t.Label
			}
		}
		memo[t] = r
		return r
	}
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = strip(v)
		}
	}
	for a, v := range st.mem {
		st.mem[a] = strip(v)
	}
}

func (e *Engine) occurs(st *State, t *Term) bool {
	for _, f := range st.frames {
		for _, v := range f.env {
			if v.hasRoot(t) {
				return true
			}
		}
	}
	for a, v := range st.mem {
		if a.hasRoot(t) || v.hasRoot(t) {
			return true
		}
	}
	for a := range st.facts {
		if a.hasRoot(t) {
			return true
		}
	}
	for _, ev := range st.events {
		if ev.term.hasRoot(t) {
			return true
		}
	}
	return false
}

// gc removes dead bindings so that equal abstractions meet.
func (e *Engine) gc(st *State) {
	live := map[*Term]bool{} // ctx roots
	var stack []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, r := range t.roots {
			if !live[r] {
				live[r] = true
				stack = append(stack, r)
			}
		}
	}
	for i, f := range st.frames {
		l := e.P.liveFor(f.fn)
		in := l.in[f.block]
		for v, t := range f.env {
			keep := false
			if i == len(st.frames)-1 && f.idx == 0 {
				keep = in == nil || in[v]
			} else {
				keep = true
				if !e.maybeLive(f, v) {
					keep = false
				}
			}
			if !keep {
				delete(f.env, v)
				continue
			}
			add(t)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	if e.O.OnGC != nil {
		e.O.OnGC(e, st, live)
	}
	for _, ev := range st.events {
		add(ev.term)
	}
	for k := range st.ghost {
		if strings.HasPrefix(k, "lv:") || strings.HasPrefix(k, "rng:") {
			c := k[strings.IndexByte(k, ':')+1:]
			c = c[:strings.IndexByte(c, ':')]
			ok := false
			for _, f := range st.frames {
				if f.ctx == c {
					ok = true
				}
			}
			if !ok {
				delete(st.ghost, k)
			}
		}
	}
	// memory: an entry is live when all ctx roots of its address are live or it has none
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			ok := true
			for _, r := range a.roots {
				if !live[r] && addrRoot(a).hasRoot(r) {
					ok = false
					break
				}
			}
			if ok {
				n := len(live)
				add(v)
				add(a)
				if len(live) != n {
					changed = true
				}
			}
		}
	}
	for a := range st.mem {
		for _, r := range a.roots {
			if !live[r] {
				delete(st.mem, a)
				break
			}
		}
	}
	if e.O.DropOld {
		e.dropOld(st)
	}
	if e.O.Shallow {
		e.shallow(st)
	}
	var reach []map[string]bool
	if e.O.Coarse {
		for _, f := range st.frames {
			reach = append(reach, e.P.fieldsFrom(f.fn, f.block))
		}
	}
	for t := range st.facts {
		if e.O.NoElems && elemFact(t) || e.O.Coarse && (elemFact(t) || e.deadField(t, reach)) {
			delete(st.facts, t)
			continue
		}
		for _, r := range t.roots {
			if !live[r] {
				delete(st.facts, t)
				break
			}
		}
	}
}

func (e *Engine) shallow(st *State) {
	old := e.T.mk("old", "", nil)
	for a := range st.mem {
		if a.Op != "fa" {
			continue
		}
		r := addrRoot(a)
		if r.Op != "alloc" || r.Typ == nil {
			continue
		}
		s := structOf(r.Typ)
		if s == nil {
			continue
		}
		ok := true
		for i := 0; i < s.NumFields(); i++ {
			switch s.Field(i).Type().Underlying().(type) {
			case *types.Interface, *types.Signature, *types.Chan:
				ok = false
			}
		}
		if ok {
			delete(st.mem, a)
			st.mem[e.T.mk("hv", "", nil, r)] = old
		}
	}
}

func oldRoot(r *Term) bool { return strings.HasSuffix(r.Str, "~") }

func (e *Engine) dropOld(st *State) {
	old := e.T.mk("old", "", nil)
	for a := range st.mem {
		r := addrRoot(a)
		if a.Op != "hv" && r.Op == "alloc" && oldRoot(r) {
			delete(st.mem, a)
			st.mem[e.T.mk("hv", "", nil, r)] = old
		}
	}
	outcome := map[*Term]bool{}
	for _, ev := range st.events {
		if ev.Errs != nil {
			outcome[ev.Errs] = true
			outcome[strip(ev.Errs)] = true
		}
		if ev.Res != nil {
			outcome[ev.Res] = true
		}
	}
	for t := range st.facts {
		if outcome[t] {
			continue
		}
		for _, r := range t.roots {
			if oldRoot(r) {
				delete(st.facts, t)
				break
			}
		}
	}
}

// deadField: the term reads a field no code ahead reads again.
func (e *Engine) deadField(t *Term, reach []map[string]bool) bool {
	if t.Op == "fa" || t.Op == "field" {
		ok := false
		for _, k := range e.O.KeepFields {
			if k == t.Str {
				return false
			}
		}
		for _, r := range reach {
			if r[t.Str] {
				ok = true
			}
		}
		if !ok {
			return true
		}
	}
	for _, a := range t.Args {
		if e.deadField(a, reach) {
			return true
		}
	}
	return false
}

// elemFact: the term reads an element of a collection.
func elemFact(t *Term) bool {
	if t.Op == "ia" || t.Op == "lookup" || t.Op == "elems" {
		return true
	}
	for _, a := range t.Args {
		if elemFact(a) {
			return true
		}
	}
	return false
}

// maybeLive: v may still be used after the suspended call of frame f.
func (e *Engine) maybeLive(f *Frame, v ssa.Value) bool {
	l := e.P.liveFor(f.fn)
	for _, s := range f.block.Succs {
		if l.in[s][v] {
			return true
		}
		for k, p := range s.Preds {
			if p != f.block {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if phi.Edges[k] == v {
					return true
				}
			}
		}
	}
	for i := f.idx; i < len(f.block.Instrs); i++ {
		if i < 0 {
			continue
		}
		for _, op := range f.block.Instrs[i].Operands(nil) {
			if *op == v {
				return true
			}
		}
	}
	return false
}

func addrRoot(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" || a.Op == "slice" || a.Op == "mkey" || a.Op == "mval" {
		a = a.Args[0]
	}
	return a
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}
func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (e *Engine) key(st *State) [2]uint64 {
	a, b := uint64(1), uint64(2)
	put := func(x uint64) {
		a = mix(a, x)
		b = mix(b+0x1234567, x^0xABCDEF)
	}
	for _, f := range st.frames {
		put(uint64(e.P.fnID(f.fn))<<20 | uint64(f.block.Index)<<8)
		put(uint64(f.idx))
		put(hstr(f.ctx))
		if f.block.Index == 0 && f.prev == nil {
			put(7)
		}
		var sum uint64
		for v, t := range f.env {
			n := uint64(0)
			if in, ok := v.(ssa.Instruction); ok {
				n = uint64(e.P.insID(in)) + 1000
			} else {
				n = hstr(v.Name())
			}
			sum += mix(mix(3, n), uint64(t.ID))
		}
		put(sum)
		for _, d := range f.defers {
			put(uint64(e.P.insID(d.site)))
			for _, x := range d.args {
				put(uint64(x.ID))
			}
		}
	}
	var sum uint64
	for k, v := range st.mem {
		sum += mix(mix(5, uint64(k.ID)), uint64(v.ID))
	}
	put(sum)
	sum = 0
	for k, v := range st.facts {
		sum += mix(mix(9, uint64(k.ID)), hstr(v.key()))
	}
	put(sum)
	for _, ev := range st.events {
		put(uint64(ev.term.ID))
	}
	sum = 0
	for k, v := range st.ghost {
		sum += mix(hstr(k), hstr(v))
	}
	put(sum)
	return [2]uint64{a, b}
}

// ---- memory ----------------------------------------------------------------

func (e *Engine) fa(base *Term, name string, typ types.Type) *Term {
	t := e.T.mk("fa", name, typ, base)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// field of a struct value
func (e *Engine) field(v *Term, name string, typ types.Type) *Term {
	switch v.Op {
	case "structv":
		names := strings.Split(v.Str, ";")
		for i, n := range names {
			if n == name && i < len(v.Args) {
				return v.Args[i]
			}
		}
	case "zero":
		return e.zero(typ)
	case "load":
		return e.T.mk("load", "", typ, e.fa(v.Args[0], name, typ))
	case "hld":
		return e.T.mk("hld", "", typ, v.Args[0], e.fa(v.Args[1], name, typ))
	}
	return e.T.mk("field", name, typ, v)
}

func baseSlice(s *Term) *Term {
	for s.Op == "slice" {
		s = s.Args[0]
	}
	return s
}

type alt struct {
	addr *Term
	val  *Term
}

// alts resolves an address against what is known of local arrays and collections.
func (e *Engine) alts(st *State, addr *Term, elem types.Type) []alt {
	switch addr.Op {
	case "ia":
		s, idx := baseSlice(addr.Args[0]), addr.Args[1]
		switch {
		case s.Op == "coll":
			var out []alt
			for _, x := range s.Args {
				if x.Op == "elems" {
					out = append(out, alt{addr: e.T.mk("ia", "", addr.Typ, x.Args[0], idx)})
				} else {
					out = append(out, alt{val: x})
				}
			}
			return out
		case s.Op == "const" || s.Op == "zero":
			return []alt{{val: e.zero(elem)}}
		case s.Local && (s.Op == "alloc" || s.Op == "mkslice"):
			if !idx.IsConst() {
				if iv := e.IvOf(st, idx); iv.Lo == iv.Hi && iv.Int {
					idx = e.T.Int(int64(iv.Lo))
				}
			}
			if idx.IsConst() && s.Op == "alloc" {
				return []alt{{addr: e.T.mk("ia", "", addr.Typ, s, idx)}}
			}
			exact := e.T.mk("ia", "", addr.Typ, s, idx)
			seen := map[*Term]bool{}
			var keys []*Term
			for a := range st.mem {
				b := a
				for b.Op == "fa" {
					b = b.Args[0]
				}
				// find ia over s along the chain
				for c := a; c.Op == "fa" || c.Op == "ia"; c = c.Args[0] {
					if c.Op == "ia" && c.Args[0] == s && !seen[c] {
						seen[c] = true
						keys = append(keys, c)
					}
				}
			}
			if seen[exact] {
				return []alt{{addr: exact}}
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
			if len(keys) == 0 {
				return []alt{{addr: exact}}
			}
			var out []alt
			for _, k := range keys {
				out = append(out, alt{addr: k})
			}
			return out
		}
	case "fa":
		var bt types.Type
		if addr.Args[0].Typ != nil {
			bt = addr.Args[0].Typ
			if p, ok := bt.Underlying().(*types.Pointer); ok {
				bt = p.Elem()
			}
		}
		sub := e.alts(st, addr.Args[0], bt)
		if len(sub) == 1 && sub[0].addr == addr.Args[0] {
			return []alt{{addr: addr}}
		}
		var out []alt
		for _, s := range sub {
			if s.addr != nil {
				out = append(out, alt{addr: e.fa(s.addr, addr.Str, addr.Typ)})
			} else {
				out = append(out, alt{val: e.field(s.val, addr.Str, elem)})
			}
		}
		return out
	}
	return []alt{{addr: addr}}
}

func (e *Engine) loadVals(st *State, addr *Term, typ types.Type) []*Term {
	as := e.alts(st, addr, typ)
	if len(as) > 16 {
		return []*Term{e.T.mk("load", "", typ, addr)}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		v := a.val
		if v == nil {
			v = e.load1(st, a.addr, typ)
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		out = []*Term{e.zero(typ)}
	}
	return out
}

func (e *Engine) hasUnder(st *State, addr *Term) bool {
	for a := range st.mem {
		for b := a; b.Op == "fa" || b.Op == "ia"; b = b.Args[0] {
			if b.Args[0] == addr {
				return true
			}
		}
	}
	return false
}

// Load1 is the single-valued load used by checks.
func (e *Engine) Load(st *State, addr *Term, typ types.Type) *Term {
	vs := e.loadVals(st, addr, typ)
	return vs[0]
}

func (e *Engine) load1(st *State, addr *Term, typ types.Type) *Term {
	v, has := st.mem[addr]
	if s := structOf0(typ); s != nil {
		root := addrRoot(addr)
		if (e.hasUnder(st, addr) || root.Local && !has) && s.NumFields() <= 64 {
			if root.Local && !has && !e.hasUnder(st, addr) && st.mem[e.T.mk("hv", "", nil, root)] == nil {
				// whole parent stored?
				if pv := e.parentVal(st, addr, typ); pv != nil {
					return pv
				}
				return e.zero(typ)
			}
			var names []string
			var args []*Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				names = append(names, f.Name())
				args = append(args, e.load1(st, e.fa(addr, f.Name(), f.Type()), f.Type()))
			}
			return e.T.mk("structv", strings.Join(names, ";"), typ, args...)
		}
	}
	if has {
		return v
	}
	if pv := e.parentVal(st, addr, typ); pv != nil {
		return pv
	}
	root := addrRoot(addr)
	if hv := st.mem[e.T.mk("hv", "", nil, root)]; hv != nil {
		return e.T.mk("hld", "", typ, hv, addr)
	}
	if root.Local {
		return e.zero(typ)
	}
	if root == addr && root.Op == "global" {
		if c := e.globalConst(root.Str); c != nil {
			return c
		}
		if tb := e.globalTable(root.Str); tb != nil {
			m := e.T.mk("mkmap", root.Str, typ)
			m.Local = true
			for k, v := range tb {
				a := e.T.mk("mval", "", nil, m, e.T.Const(normConst(k.Value, k.Type()), k.Type()))
				if st.mem[a] == nil {
					st.mem[a] = e.T.Const(normConst(v.Value, v.Type()), v.Type())
				}
			}
			return m
		}
	}
	t := e.T.mk("load", "", typ, addr)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

func structOf0(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// parentVal: a containing struct was stored as a whole.
func (e *Engine) parentVal(st *State, addr *Term, typ types.Type) *Term {
	if addr.Op != "fa" {
		return nil
	}
	b := addr.Args[0]
	if v, ok := st.mem[b]; ok {
		return e.field(v, addr.Str, typ)
	}
	if b.Op == "fa" {
		var bt types.Type = b.Typ
		if pv := e.parentVal(st, b, bt); pv != nil {
			return e.field(pv, addr.Str, typ)
		}
	}
	return nil
}

func (e *Engine) store(st *State, addr, v *Term) {
	if e.O.Coarse && addr.Op == "fa" && e.isPB(addr.Args[0].Typ) && !isPtr(v) {
		v = e.T.mk("some", typeKey(addr.Typ), addr.Typ)
	}
	// clear what is below
	for a := range st.mem {
		for b := a; b.Op == "fa" || b.Op == "ia"; b = b.Args[0] {
			if b.Args[0] == addr {
				delete(st.mem, a)
				break
			}
		}
	}
	if addr.Op == "ia" {
		// normalise slices of local arrays
		if s := baseSlice(addr.Args[0]); s != addr.Args[0] && s.Local {
			addr = e.T.mk("ia", "", addr.Typ, s, addr.Args[1])
		}
	}
	if v.Op == "structv" {
		delete(st.mem, addr)
		for i, n := range strings.Split(v.Str, ";") {
			e.store(st, e.fa(addr, n, v.Args[i].Typ), v.Args[i])
		}
		return
	}
	st.mem[addr] = v
}

func (e *Engine) havoc(st *State, root *Term, in ssa.Instruction, label string) {
	for a := range st.mem {
		if addrRoot(a) == root && a.Op != "hv" {
			delete(st.mem, a)
		}
	}
	hv := e.fresh(st, "opq", label, in, "hv", nil)
	st.mem[e.T.mk("hv", "", nil, root)] = hv
}

// Elems enumerates the elements a slice term may hold.
func (e *Engine) Elems(st *State, s *Term) []*Term {
	s = strip(s)
	b := baseSlice(s)
	var out []*Term
	switch {
	case b.Op == "coll":
		for _, x := range b.Args {
			if x.Op == "elems" {
				out = append(out, x)
			} else {
				out = append(out, x)
			}
		}
	case b.Op == "const" || b.Op == "zero":
	case b.Local && (b.Op == "alloc" || b.Op == "mkslice"):
		seen := map[*Term]bool{}
		var keys []*Term
		for a := range st.mem {
			for c := a; c.Op == "fa" || c.Op == "ia"; c = c.Args[0] {
				if c.Op == "ia" && c.Args[0] == b && !seen[c] {
					seen[c] = true
					keys = append(keys, c)
				}
			}
		}
		sort.Slice(keys, func(i, j int) bool {
			x, okx := keys[i].Args[1].Num()
			y, oky := keys[j].Args[1].Num()
			if okx && oky {
				return x < y
			}
			return keys[i].ID < keys[j].ID
		})
		var et types.Type
		if b.Typ != nil {
			switch u := deref(b.Typ).Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
		}
		for _, k := range keys {
			out = append(out, e.load1(st, k, et))
		}
		if b.Op == "mkslice" && len(keys) == 0 {
			if l, ok := st.mem[e.T.mk("mklen", "", nil, b)]; ok && e.IvOf(st, l).Hi <= 0 {
				return out
			}
			out = append(out, e.zero(et))
		}
	default:
		out = append(out, e.T.mk("elems", "", nil, b))
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- facts -----------------------------------------------------------------

func (e *Engine) nilness(st *State, t *Term) int {
	switch t.Op {
	case "const":
		if t.Val == nil {
			return 1
		}
		return 2
	case "iface", "func", "alloc", "mkslice", "mkmap", "mkchan", "fa", "ia", "global", "structv":
		return 2
	case "slice":
		return e.nilness(st, t.Args[0])
	case "coll":
		for _, x := range t.Args {
			if x.Op != "elems" {
				return 2
			}
		}
		if len(t.Args) == 0 {
			return 0
		}
	case "nn":
		return 2
	case "conv", "ta":
		if f, ok := st.facts[t]; ok && f.Nil != 0 {
			return f.Nil
		}
		return e.nilness(st, t.Args[0])
	case "load":
		if t.Args[0].Op == "global" && e.sentinel(t.Args[0].Str) {
			return 2
		}
	case "lookup":
		if len(t.Args) == 2 && st.facts[e.T.mk("has", "", types.Typ[types.Bool], t.Args...)].B == 2 {
			return 1
		}
	}
	if f, ok := st.facts[t]; ok && f.Nil != 0 {
		return f.Nil
	}
	if f, ok := st.facts[t]; ok && f.SEq != nil {
		return 2
	}
	return 0
}

func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStrT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isErrT(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "error"
}

func meet(a, b Iv) Iv {
	r := a
	if b.Lo > r.Lo || b.Lo == r.Lo && b.LoOpen {
		r.Lo, r.LoOpen = b.Lo, b.LoOpen
	}
	if b.Hi < r.Hi || b.Hi == r.Hi && b.HiOpen {
		r.Hi, r.HiOpen = b.Hi, b.HiOpen
	}
	r.NaN = a.NaN && b.NaN
	r.Int = a.Int || b.Int
	r.Ne = append(append([]float64(nil), a.Ne...), b.Ne...)
	sort.Float64s(r.Ne)
	var ne []float64
	for i, x := range r.Ne {
		if i == 0 || x != r.Ne[i-1] {
			ne = append(ne, x)
		}
	}
	r.Ne = ne
	return r.norm()
}

// IvOf computes the interval of a numeric term in a state.
func (e *Engine) IvOf(st *State, t *Term) Iv { return e.iv(st, t, 0) }

func (e *Engine) iv(st *State, t *Term, d int) Iv {
	inf := math.Inf(1)
	base := Iv{Lo: -inf, Hi: inf, NaN: true}
	if t.Typ != nil {
		if v, ok := typeIv(t.Typ); ok {
			base = v
		}
	}
	if f, ok := t.Num(); ok {
		return Iv{Lo: f, Hi: f, Int: f == math.Trunc(f)}
	}
	if d > 10 {
		return base
	}
	switch t.Op {
	case "len", "cap":
		base = Iv{Lo: 0, Hi: math.Pow(2, 63), Int: true}
		a := baseSlice(t.Args[0])
		if a.Op == "coll" {
			if len(a.Args) == 0 {
				base.Hi = 0
			}
			for _, x := range a.Args {
				if x.Op != "elems" {
					base.Lo = 1
				}
			}
		}
	case "conv":
		x := e.iv(st, t.Args[0], d+1)
		toF := isFloatT(t.Typ)
		if x.Int && toF {
			base = x
			base.Int = false
			base.LoOpen, base.HiOpen = false, false
		} else if x.Int && isIntT(t.Typ) {
			if x.Lo >= base.Lo && x.Hi <= base.Hi {
				base = x
			}
		} else if !x.Int && isIntT(t.Typ) {
			if !x.NaN && x.Lo >= base.Lo && x.Hi < base.Hi {
				base = Iv{Lo: math.Trunc(x.Lo), Hi: math.Trunc(x.Hi), Int: true}
			}
		} else if toF && !x.Int {
			base = x
		}
	case "binop":
		x := e.iv(st, t.Args[0], d+1)
		y := e.iv(st, t.Args[1], d+1)
		var r Iv
		ok := true
		switch t.Str {
		case "+":
			r = Iv{Lo: x.Lo + y.Lo, Hi: x.Hi + y.Hi}
		case "-":
			r = Iv{Lo: x.Lo - y.Hi, Hi: x.Hi - y.Lo}
		case "*":
			ps := []float64{x.Lo * y.Lo, x.Lo * y.Hi, x.Hi * y.Lo, x.Hi * y.Hi}
			r = Iv{Lo: inf, Hi: -inf}
			for _, p := range ps {
				if math.IsNaN(p) {
					ok = false
				}
				r.Lo, r.Hi = math.Min(r.Lo, p), math.Max(r.Hi, p)
			}
		case "/":
			if y.Lo > 0 && !y.NaN {
				r = Iv{Lo: math.Min(x.Lo/y.Lo, x.Lo/y.Hi), Hi: math.Max(x.Hi/y.Lo, x.Hi/y.Hi)}
				if base.Int {
					r.Lo, r.Hi = math.Trunc(r.Lo), math.Trunc(r.Hi)
				}
			} else {
				ok = false
			}
		default:
			ok = false
		}
		if math.IsNaN(r.Lo) || math.IsNaN(r.Hi) {
			ok = false
		}
		if ok {
			if base.Int {
				r.Int = true
				if r.Lo >= base.Lo && r.Hi <= base.Hi {
					base = r
				}
			} else {
				r.NaN = x.NaN || y.NaN || math.IsInf(x.Lo, 0) || math.IsInf(x.Hi, 0) || math.IsInf(y.Lo, 0) || math.IsInf(y.Hi, 0)
				base = r
			}
		}
	case "call":
		// wall-clock readings are assumed to be after 1970 and within the range of UnixNano
		if len(t.Args) == 1 && t.Args[0].Op == "opq" {
			switch t.Str {
			case "(time.Time).UnixNano":
				base = Iv{Lo: 0, Hi: base.Hi, Int: true}
			case "(time.Time).UnixMicro":
				base = Iv{Lo: 0, Hi: 9.2e15, Int: true}
			case "(time.Time).UnixMilli":
				base = Iv{Lo: 0, Hi: 9.2e12, Int: true}
			case "(time.Time).Unix":
				base = Iv{Lo: 0, Hi: 9.2e9, Int: true}
			}
		}
	case "neg":
		x := e.iv(st, t.Args[0], d+1)
		base = Iv{Lo: -x.Hi, Hi: -x.Lo, LoOpen: x.HiOpen, HiOpen: x.LoOpen, NaN: x.NaN, Int: x.Int}
	}
	if f, ok := st.facts[t]; ok && f.Iv != nil {
		base = meet(base, *f.Iv)
	}
	return base
}

func (e *Engine) setIv(st *State, t *Term, v Iv) bool {
	if t.IsConst() {
		x, _ := t.Num()
		return v.has(x)
	}
	cur := e.IvOf(st, t)
	n := meet(cur, v)
	if n.empty() {
		return false
	}
	if n.key() == cur.key() {
		return true
	}
	f := st.facts[t]
	f.Iv = &n
	st.facts[t] = f
	// propagate through int<->float conversion and +/- const
	if t.Op == "conv" && n.Int && isIntT(t.Args[0].Typ) {
		e.setIv(st, t.Args[0], Iv{Lo: n.Lo, Hi: n.Hi, LoOpen: n.LoOpen, HiOpen: n.HiOpen, Int: true, Ne: n.Ne})
	}
	if t.Op == "binop" && n.Int && t.Args[1].IsConst() {
		c, _ := t.Args[1].Num()
		if t.Str == "+" {
			e.setIv(st, t.Args[0], Iv{Lo: n.Lo - c, Hi: n.Hi - c, Int: true})
		}
		if t.Str == "-" {
			e.setIv(st, t.Args[0], Iv{Lo: n.Lo + c, Hi: n.Hi + c, Int: true})
		}
	}
	return true
}

func (e *Engine) setNil(st *State, t *Term, isNil bool) bool {
	want := 2
	if isNil {
		want = 1
	}
	cur := e.nilness(st, t)
	if cur != 0 {
		return cur == want
	}
	f := st.facts[t]
	f.Nil = want
	st.facts[t] = f
	if isNil && t.Op != "const" {
		// a nil slice/map is empty
		l := e.T.mk("len", "", types.Typ[types.Int], t)
		if lf, ok := st.facts[l]; ok && lf.Iv != nil && lf.Iv.Lo > 0 {
			return false
		}
	}
	return true
}

// Truth evaluates a boolean term: 1 true, 2 false, 0 unknown.
func (e *Engine) Truth(st *State, c *Term) int {
	if b, ok := c.Bool(); ok {
		if b {
			return 1
		}
		return 2
	}
	neg := func(x int) int {
		if x == 0 {
			return 0
		}
		return 3 - x
	}
	switch c.Op {
	case "not":
		return neg(e.Truth(st, c.Args[0]))
	case "eq":
		x, y := c.Args[0], c.Args[1]
		if x == y && !isFloatT(x.Typ) {
			return 1
		}
		if y.IsNil() {
			switch e.nilness(st, x) {
			case 1:
				return 1
			case 2:
				return 2
			}
		}
		if x.IsNil() {
			switch e.nilness(st, y) {
			case 1:
				return 1
			case 2:
				return 2
			}
		}
		if sx, sy, ok := e.strPair(st, x, y); ok {
			if sx == sy {
				return 1
			}
			return 2
		}
		if s, ok := y.StrVal(); ok {
			for _, n := range st.facts[x].SNe {
				if n == s {
					return 2
				}
			}
		}
		if s, ok := x.StrVal(); ok {
			for _, n := range st.facts[y].SNe {
				if n == s {
					return 2
				}
			}
		}
		if numeric(x) && numeric(y) {
			a, b := e.IvOf(st, x), e.IvOf(st, y)
			if x == y && !a.NaN {
				return 1
			}
			if !a.NaN && !b.NaN && a.Lo == a.Hi && b.Lo == b.Hi && a.Lo == b.Lo {
				return 1
			}
			if x != y {
				m := meet(a, b)
				m.NaN = false
				if m.numEmpty() {
					return 2
				}
			} else if a.NaN && a.numEmpty() {
				return 2
			}
		}
		if bx, ok := x.Bool(); ok {
			t := e.Truth(st, y)
			if t != 0 {
				if (t == 1) == bx {
					return 1
				}
				return 2
			}
		}
		if by, ok := y.Bool(); ok {
			t := e.Truth(st, x)
			if t != 0 {
				if (t == 1) == by {
					return 1
				}
				return 2
			}
		}
	case "lt", "le":
		x, y := c.Args[0], c.Args[1]
		a, b := e.IvOf(st, x), e.IvOf(st, y)
		strict := c.Op == "lt"
		if !a.numEmpty() && !b.numEmpty() {
			if !a.NaN && !b.NaN {
				if a.Hi < b.Lo || a.Hi == b.Lo && (!strict || a.HiOpen || b.LoOpen) {
					return 1
				}
			}
			if a.Lo > b.Hi || a.Lo == b.Hi && (strict || a.LoOpen || b.HiOpen) {
				return 2
			}
		} else {
			return 2
		}
		if x == y && strict {
			return 2
		}
	}
	if f, ok := st.facts[c]; ok && f.B != 0 {
		return f.B
	}
	return 0
}

func (e *Engine) strPair(st *State, x, y *Term) (string, string, bool) {
	g := func(t *Term) (string, bool) {
		if s, ok := t.StrVal(); ok {
			return s, true
		}
		if f, ok := st.facts[t]; ok && f.SEq != nil {
			return *f.SEq, true
		}
		return "", false
	}
	a, ok1 := g(x)
	b, ok2 := g(y)
	return a, b, ok1 && ok2
}

func numeric(t *Term) bool {
	if _, ok := t.Num(); ok {
		return true
	}
	return isFloatT(t.Typ) || isIntT(t.Typ)
}

// Assume adds a branch condition; false when infeasible.
func (e *Engine) Assume(st *State, c *Term, want bool) bool {
	switch e.Truth(st, c) {
	case 1:
		return want
	case 2:
		return !want
	}
	switch c.Op {
	case "not":
		return e.Assume(st, c.Args[0], !want)
	case "eq":
		x, y := c.Args[0], c.Args[1]
		if y.IsNil() {
			return e.setNil(st, x, want)
		}
		if x.IsNil() {
			return e.setNil(st, y, want)
		}
		if b, ok := y.Bool(); ok {
			return e.Assume(st, x, b == want)
		}
		if b, ok := x.Bool(); ok {
			return e.Assume(st, y, b == want)
		}
		if s, ok := y.StrVal(); ok {
			return e.setStr(st, x, s, want)
		}
		if s, ok := x.StrVal(); ok {
			return e.setStr(st, y, s, want)
		}
		if numeric(x) && numeric(y) {
			a, b := e.IvOf(st, x), e.IvOf(st, y)
			if x == y { // NaN test
				if want {
					return e.setIv(st, x, Iv{Lo: a.Lo, Hi: a.Hi, LoOpen: a.LoOpen, HiOpen: a.HiOpen, Int: a.Int, Ne: a.Ne})
				}
				return e.setNaN(st, x)
			}
			if want {
				an, bn := a, b
				an.NaN, bn.NaN = false, false
				if !e.setIv(st, x, bn) || !e.setIv(st, y, an) {
					return false
				}
			} else {
				if b.Lo == b.Hi && !b.NaN {
					n := a
					n.Ne = append(append([]float64(nil), a.Ne...), b.Lo)
					if !e.setIv(st, x, n.norm()) {
						return false
					}
				}
				if a.Lo == a.Hi && !a.NaN {
					n := b
					n.Ne = append(append([]float64(nil), b.Ne...), a.Lo)
					if !e.setIv(st, y, n.norm()) {
						return false
					}
				}
			}
		}
	case "lt", "le":
		x, y := c.Args[0], c.Args[1]
		a, b := e.IvOf(st, x), e.IvOf(st, y)
		strict := c.Op == "lt"
		inf := math.Inf(1)
		if want {
			if !e.setIv(st, x, Iv{Lo: -inf, Hi: b.Hi, HiOpen: strict || b.HiOpen, Int: a.Int}) {
				return false
			}
			if !e.setIv(st, y, Iv{Lo: a.Lo, Hi: inf, LoOpen: strict || a.LoOpen, Int: b.Int}) {
				return false
			}
		} else if !(a.NaN && !b.NaN) && !(b.NaN && !a.NaN) || true {
			// not(x<y): x>=y or a NaN is involved
			if !b.NaN {
				n := Iv{Lo: b.Lo, Hi: inf, LoOpen: !strict || b.LoOpen, NaN: a.NaN, Int: a.Int}
				if !e.setIv(st, x, n) {
					return false
				}
			}
			if !a.NaN {
				n := Iv{Lo: -inf, Hi: a.Hi, HiOpen: !strict || a.HiOpen, NaN: b.NaN, Int: b.Int}
				if !e.setIv(st, y, n) {
					return false
				}
			}
		}
	}
	if e.Truth(st, c) != 0 {
		return true
	}
	f := st.facts[c]
	f.B = 2
	if want {
		f.B = 1
	}
	st.facts[c] = f
	return true
}

func (e *Engine) setNaN(st *State, t *Term) bool {
	cur := e.IvOf(st, t)
	if !cur.NaN {
		return false
	}
	n := Iv{Lo: 1, Hi: 0, NaN: true}
	f := st.facts[t]
	f.Iv = &n
	st.facts[t] = f
	return true
}

func (e *Engine) setStr(st *State, t *Term, s string, want bool) bool {
	f := st.facts[t]
	if want {
		if f.SEq != nil {
			return *f.SEq == s
		}
		for _, n := range f.SNe {
			if n == s {
				return false
			}
		}
		f.SEq = &s
		f.SNe = nil
	} else {
		if f.SEq != nil {
			return *f.SEq != s
		}
		f.SNe = append(append([]string(nil), f.SNe...), s)
		sort.Strings(f.SNe)
	}
	st.facts[t] = f
	return true
}

// ---- term builders for operators -------------------------------------------

func (e *Engine) Not(t *Term) *Term {
	if b, ok := t.Bool(); ok {
		return e.T.Bool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return e.T.mk("not", "", types.Typ[types.Bool], t)
}

func (e *Engine) Eq(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		if x.Val == nil || y.Val == nil {
			return e.T.Bool(x.Val == nil && y.Val == nil)
		}
		if x.Val.Kind() == y.Val.Kind() || numeric(x) && numeric(y) {
			return e.T.Bool(constant.Compare(x.Val, token.EQL, y.Val))
		}
	}
	// len(string)==0
	if n, ok := y.Num(); ok && n == 0 && x.Op == "len" && isStrT(x.Args[0].Typ) {
		return e.Eq(x.Args[0], e.T.S(""))
	}
	if n, ok := x.Num(); ok && n == 0 && y.Op == "len" && isStrT(y.Args[0].Typ) {
		return e.Eq(y.Args[0], e.T.S(""))
	}
	if x.Op == "iface" && y.Op == "iface" {
		x, y = x.Args[0], y.Args[0]
	}
	if x.ID > y.ID && !y.IsConst() || x.IsConst() && !y.IsConst() {
		x, y = y, x
	}
	return e.T.mk("eq", "", types.Typ[types.Bool], x, y)
}

func (e *Engine) Lt(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && x.Val != nil && y.Val != nil && numeric(x) == numeric(y) {
		return e.T.Bool(constant.Compare(x.Val, token.LSS, y.Val))
	}
	if n, ok := x.Num(); ok && y.Op == "len" && isStrT(y.Args[0].Typ) && n == 0 { // 0 < len(s)
		return e.Not(e.Eq(y.Args[0], e.T.S("")))
	}
	if n, ok := y.Num(); ok && x.Op == "len" && isStrT(x.Args[0].Typ) && n == 1 { // len(s) < 1
		return e.Eq(x.Args[0], e.T.S(""))
	}
	return e.T.mk("lt", "", types.Typ[types.Bool], x, y)
}

func (e *Engine) Le(x, y *Term) *Term {
	if isFloatT(x.Typ) || isFloatT(y.Typ) {
		if x.IsConst() && y.IsConst() {
			return e.T.Bool(constant.Compare(x.Val, token.LEQ, y.Val))
		}
		return e.T.mk("le", "", types.Typ[types.Bool], x, y)
	}
	return e.Not(e.Lt(y, x))
}

func (e *Engine) binop(op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return e.Eq(x, y)
	case token.NEQ:
		return e.Not(e.Eq(x, y))
	case token.LSS:
		return e.Lt(x, y)
	case token.GTR:
		return e.Lt(y, x)
	case token.LEQ:
		return e.Le(x, y)
	case token.GEQ:
		return e.Le(y, x)
	}
	if x.IsConst() && y.IsConst() && x.Val != nil && y.Val != nil {
		func() {
			defer func() { _ = recover() }()
			o := op
			if o == token.QUO && isIntT(typ) {
				o = token.QUO_ASSIGN
			}
			var v constant.Value
			if o == token.SHL || o == token.SHR {
				n, _ := constant.Uint64Val(y.Val)
				v = constant.Shift(x.Val, o, uint(n))
			} else {
				v = constant.BinaryOp(x.Val, o, y.Val)
			}
			if v != nil && v.Kind() != constant.Unknown {
				v = normConst(v, typ)
				x = e.T.Const(v, typ)
				y = nil
			}
		}()
		if y == nil {
			return x
		}
	}
	if isStrT(typ) && op == token.ADD {
		if s, ok := x.StrVal(); ok && s == "" {
			return y
		}
		if s, ok := y.StrVal(); ok && s == "" {
			return x
		}
		// left-assoc concat list
		var parts []*Term
		for _, t := range []*Term{x, y} {
			if t.Op == "concat" {
				parts = append(parts, t.Args...)
			} else {
				parts = append(parts, t)
			}
		}
		return e.concat(parts, typ)
	}
	if n, ok := y.Num(); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return x
	}
	// (a+c1)+c2
	if isIntT(typ) && (op == token.ADD || op == token.SUB) && y.IsConst() && x.Op == "binop" && x.Str == "+" && x.Args[1].IsConst() {
		c := constant.BinaryOp(x.Args[1].Val, op, y.Val)
		return e.binop(token.ADD, x.Args[0], e.T.Const(c, typ), typ)
	}
	if isIntT(typ) && op == token.SUB && y.IsConst() {
		c := constant.UnaryOp(token.SUB, y.Val, 0)
		return e.T.mk("binop", "+", typ, x, e.T.Const(c, typ))
	}
	if op == token.ADD && x.IsConst() || op == token.MUL && x.IsConst() {
		x, y = y, x
	}
	t := e.T.mk("binop", op.String(), typ, x, y)
	if t.depth > maxDepth {
		return e.T.mk("deep", typeKey(typ), typ)
	}
	return t
}

func (e *Engine) concat(parts []*Term, typ types.Type) *Term {
	var out, flat []*Term
	for _, p := range parts {
		if p.Op == "concat" {
			flat = append(flat, p.Args...)
		} else {
			flat = append(flat, p)
		}
	}
	for _, p := range flat {
		if s, ok := p.StrVal(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if q, ok := out[len(out)-1].StrVal(); ok {
					out[len(out)-1] = e.T.S(q + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return e.T.S("")
	}
	if len(out) == 1 {
		return out[0]
	}
	// a string built in a loop: only the set of its parts is kept, so that the loop has finitely many states
	grown := len(out) > 24
	for _, p := range out {
		grown = grown || p.Op == "concat*"
	}
	if grown {
		seen := map[*Term]bool{}
		var set []*Term
		var add func(p *Term)
		add = func(p *Term) {
			if p.Op == "concat*" {
				for _, q := range p.Args {
					add(q)
				}
			} else if !seen[p] {
				seen[p] = true
				set = append(set, p)
			}
		}
		for _, p := range out {
			add(p)
		}
		sort.Slice(set, func(i, j int) bool { return Canon(set[i]) < Canon(set[j]) })
		return e.T.mk("concat*", "", types.Typ[types.String], set...)
	}
	return e.T.mk("concat", "", types.Typ[types.String], out...)
}

func (e *Engine) Len(t *Term) *Term {
	it := types.Typ[types.Int]
	if s, ok := t.StrVal(); ok {
		return e.T.Int(int64(len(s)))
	}
	switch t.Op {
	case "const", "zero":
		if t.Val == nil {
			if t.Op == "zero" {
				if a, ok := t.Typ.Underlying().(*types.Array); ok {
					return e.T.Int(a.Len())
				}
			}
			return e.T.Int(0)
		}
	case "alloc":
		if a, ok := deref(t.Typ).Underlying().(*types.Array); ok {
			return e.T.Int(a.Len())
		}
	case "slice":
		if t.Str == "full" {
			return e.Len(t.Args[0])
		}
	case "coll":
		if len(t.Args) == 0 {
			return e.T.Int(0)
		}
		if len(t.Args) == 1 && t.Args[0].Op == "elems" {
			return e.Len(t.Args[0].Args[0])
		}
	case "conv":
		if isStrT(t.Args[0].Typ) {
			return e.Len(t.Args[0])
		}
	}
	return e.T.mk("len", "", it, t)
}

func isBasicNum(t types.Type) bool { return isFloatT(t) || isIntT(t) }

func (e *Engine) conv(x *Term, to types.Type) *Term {
	from := x.Typ
	if x.IsConst() && x.Val != nil {
		switch {
		case isIntT(to) && (x.Val.Kind() == constant.Int || x.Val.Kind() == constant.Float):
			v := constant.ToInt(x.Val)
			if v.Kind() == constant.Int {
				if _, ok := constant.Int64Val(v); ok {
					return e.T.Const(v, to)
				}
			} else if f, _ := constant.Float64Val(x.Val); math.Abs(f) < 1e18 {
				return e.T.Const(constant.MakeInt64(int64(f)), to)
			}
		case isFloatT(to) && (x.Val.Kind() == constant.Int || x.Val.Kind() == constant.Float):
			return e.T.Const(normConst(x.Val, to), to)
		case isStrT(to) && x.Val.Kind() == constant.String:
			return x
		}
	}
	if x.IsNil() {
		return x
	}
	if from != nil && isIntT(from) && isIntT(to) {
		a, _ := typeIv(from)
		b, _ := typeIv(to)
		if a.Lo >= b.Lo && a.Hi <= b.Hi {
			if x.Op == "conv" || x.Typ == to {
				return x
			}
			// widening: keep the same value
			return x
		}
	}
	if isStrT(to) && from != nil && isStrT(from) {
		return x
	}
	if from != nil && types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return e.T.mk("conv", "", to, x)
}

// ---- globals ---------------------------------------------------------------

var globalCache = map[*Program]map[string]*ssa.Const{}

// globalConst returns the constant a package variable always holds: it is stored
// exactly once, in its package initialiser, with a constant.
func (e *Engine) globalConst(name string) *Term {
	m := globalCache[e.P]
	if m == nil {
		m = map[string]*ssa.Const{}
		nn := map[string]bool{}
		stores := map[string]int{}
		for _, pk := range e.P.Mod {
			if pk.SSA == nil {
				continue
			}
			for _, fn := range allFuncs(pk.SSA) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						g, ok := s.Addr.(*ssa.Global)
						if !ok || strings.Contains(g.Name(), "$") {
							continue
						}
						stores[g.String()]++
						if c, ok := s.Val.(*ssa.Const); ok && fn.Name() == "init" && c.Value != nil {
							m[g.String()] = c
						}
						if fn.Name() == "init" && nonNilInit(s.Val) {
							nn[g.String()] = true
						}
					}
				}
			}
			for _, mem := range pk.SSA.Members {
				if g, ok := mem.(*ssa.Global); ok && stores[g.String()] == 0 {
					if b, ok := deref(g.Type()).Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer && !strings.Contains(g.Name(), "$") {
						m[g.String()] = ssa.NewConst(zeroConst(b), deref(g.Type()))
						stores[g.String()] = 1
					}
				}
			}
		}
		for n, c := range stores {
			if c != 1 {
				delete(m, n)
				delete(nn, n)
			}
		}
		globalCache[e.P] = m
		sentinelCache[e.P] = nn
	}
	if c, ok := m[name]; ok {
		return e.T.Const(normConst(c.Value, c.Type()), c.Type())
	}
	return nil
}

// sentinelCache: package variables that always hold the non-nil value of their initialiser.
var sentinelCache = map[*Program]map[string]bool{}

func (e *Engine) sentinel(name string) bool {
	e.globalConst(name)
	return sentinelCache[e.P][name]
}

func nonNilInit(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && (nonNilResults[funcName(f)] || funcName(f) == "regexp.MustCompile")
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.Function, *ssa.MakeMap, *ssa.MakeChan:
		return true
	}
	return false
}

var tableCache = map[*Program]map[string]map[*ssa.Const]*ssa.Const{}

// globalTable returns the entries of a package-level map that is filled with constants
// by the package initialiser and only ever read afterwards.
func (e *Engine) globalTable(name string) map[*ssa.Const]*ssa.Const {
	all := tableCache[e.P]
	if all == nil {
		all = map[string]map[*ssa.Const]*ssa.Const{}
		tableCache[e.P] = all
		bad := map[string]bool{}
		for _, pk := range e.P.Mod {
			if pk.SSA == nil {
				continue
			}
			for _, fn := range allFuncs(pk.SSA) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							g, ok := (*op).(*ssa.Global)
							if !ok {
								continue
							}
							if _, ok := deref(g.Type()).Underlying().(*types.Map); !ok {
								continue
							}
							switch x := in.(type) {
							case *ssa.Store:
								tb := constTable(x)
								if x.Addr != g || fn.Name() != "init" || all[g.String()] != nil || tb == nil {
									bad[g.String()] = true
									continue
								}
								all[g.String()] = tb
							case *ssa.UnOp:
								for _, r := range *x.Referrers() {
									switch r := r.(type) {
									case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
									case *ssa.Call:
										if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
											bad[g.String()] = true
										}
									default:
										bad[g.String()] = true
									}
								}
							case *ssa.DebugRef:
							default:
								bad[g.String()] = true
							}
						}
					}
				}
			}
		}
		for g := range bad {
			delete(all, g)
		}
	}
	return all[name]
}

// constTable: the map stored is made here and filled with constants only.
func constTable(s *ssa.Store) map[*ssa.Const]*ssa.Const {
	mm, ok := s.Val.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	tb := map[*ssa.Const]*ssa.Const{}
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			k, ok1 := r.Key.(*ssa.Const)
			v, ok2 := r.Value.(*ssa.Const)
			if !ok1 || !ok2 || r.Map != mm || k.Value == nil || v.Value == nil {
				return nil
			}
			tb[k] = v
		case *ssa.Store:
			if r != s {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return tb
}

func zeroConst(b *types.Basic) constant.Value {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsString != 0:
		return constant.MakeString("")
	}
	return constant.MakeInt64(0)
}

// allFuncs lists every function of a package with a body, including closures and methods.
func allFuncs(pk *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := pk.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
				for i := 0; i < nt.NumMethods(); i++ {
					add(pk.Prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	return out
}

// isPB: a message type generated from the protocol definition.
func (e *Engine) isPB(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == e.P.ModPath
}
func isPtr(t *Term) bool { return t.Op == "alloc" || t.Op == "coll" }

func (e *Engine) Dump(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "frame %s b%d i%d\n", f.fn.Name(), f.block.Index, f.idx)
		var ks []string
		for v, t := range f.env {
			ks = append(ks, fmt.Sprintf("   %s = %s", v.Name(), Canon(t)))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, "\n") + "\n")
	}
	var ks []string
	for a, v := range st.mem {
		ks = append(ks, "  mem "+Canon(a)+" := "+Canon(v))
	}
	for a, v := range st.facts {
		ks = append(ks, "  fact "+Canon(a)+" : "+v.key())
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, "\n") + "\n")
	for _, ev := range st.events {
		b.WriteString("  ev " + Canon(ev.term) + "\n")
	}
	fmt.Fprintf(&b, "  ghost %v\n", st.ghost)
	return b.String()
}

var profOn = os.Getenv("VERIF_PROF") != ""
var profN = map[string]int{}
var profL = map[string]map[string]int{}

func (e *Engine) prof(st *State) {
	f := st.top()
	k := fmt.Sprintf("%s b%d d%d", f.fn.Name(), f.block.Index, len(st.frames))
	profN[k]++
	if profN[k] > 3000 {
		return
	}
	m := profL[k]
	if m == nil {
		m = map[string]int{}
		profL[k] = m
	}
	for a, v := range st.mem {
		m[fmt.Sprintf("mem %d %s := %d %s", a.ID, a, v.ID, v)]++
	}
	for a, v := range st.facts {
		m[fmt.Sprintf("fact %d %s : %s", a.ID, a, v.key())]++
	}
	for _, ev := range st.events {
		m[fmt.Sprintf("ev %d %s", ev.term.ID, ev.term)]++
	}
	for a, v := range st.ghost {
		m["ghost "+a+"="+v]++
	}
	for i, f := range st.frames {
		for v, t := range f.env {
			m[fmt.Sprintf("env %d %s = %s", i, v.Name(), t)]++
		}
	}
	m["TOTAL"]++
}

func (e *Engine) profReport() {
	var ks []string
	for k := range profN {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profN[ks[i]] > profN[ks[j]] })
	for i, k := range ks {
		if i > 6 {
			break
		}
		fmt.Println(profN[k], k)
		if i > 2 {
			continue
		}
		var ls []string
		tot := profL[k]["TOTAL"]
		for l, n := range profL[k] {
			if n < tot {
				ls = append(ls, fmt.Sprintf("   %6d/%d %s", n, tot, l))
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ls)))
		if len(ls) > 60 {
			ls = ls[:60]
		}
		fmt.Println(strings.Join(ls, "\n"))
	}
}
