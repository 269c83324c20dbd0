package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// run propagates one state until it terminates, merges or forks.
func (e *Engine) run(st *State) {
	for {
		if e.Undecided != "" {
			return
		}
		fr := st.top()
		if fr.idx >= len(fr.block.Instrs) {
			return
		}
		in := fr.block.Instrs[fr.idx]
		e.NSteps++
		if e.NSteps > 30_000_000 {
			e.fail("step budget exhausted")
			return
		}
		if !e.step(st, in) {
			return
		}
	}
}

// enter moves the top frame to block b, applying phis; false when merged.
func (e *Engine) enter(st *State, b *ssa.BasicBlock) bool {
	fr := st.top()
	from := fr.block
	fr.prev = from
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	lv := e.P.liveFor(fr.fn)
	header := len(phis) >= 0 && lv.cyc[b] && isHeader(b)
	back := header && b.Dominates(from)
	if len(phis) > 0 {
		k := -1
		for i, p := range b.Preds {
			if p == from {
				k = i
			}
		}
		vals := make([]*Term, len(phis))
		for i, p := range phis {
			vals[i] = e.val(st, p.Edges[k])
		}
		fr.block = b
		for i, p := range phis {
			v := vals[i]
			if header && isBasicNum(p.Type()) && !e.O.Unroll && !(e.O.KeepPhi != nil && e.O.KeepPhi(v)) {
				v = e.loopVar(st, p, v, back)
			}
			fr.env[p] = v
		}
	}
	fr.block = b
	fr.idx = len(phis)
	if back && !e.O.Unroll {
		e.widenMem(st)
	}
	if header && e.O.OnHeader != nil {
		e.O.OnHeader(e, st, b, back)
	}
	if len(b.Preds) > 1 || len(st.frames) > 1 && false {
		save := fr.idx
		fr.idx = 0
		e.gc(st)
		fr.idx = save
		k := e.key(st)
		if e.seen[k] {
			return false
		}
		e.seen[k] = true
	}
	return true
}

// widenMem forgets the exact value of numbers in memory that keep growing round a loop.
func (e *Engine) widenMem(st *State) {
	for a, v := range st.mem {
		if v == nil || v.IsConst() || v.Typ == nil || !isBasicNum(v.Typ) || len(v.Args) != 2 || strings.HasPrefix(a.Op, "ml:") || strings.HasPrefix(a.Op, "ms:") {
			continue
		}
		n, ok := v.Args[1].Num()
		if !ok || v.Args[0].Op == "loopmem" && n == 0 || n < 3 && n > -3 {
			continue
		}
		if a.Op != "fa" && a.Op != "alloc" {
			continue
		}
		w := e.T.mk("loopmem", "", v.Typ, a)
		delete(st.facts, w)
		st.mem[a] = w
	}
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// loopVar abstracts a numeric loop-carried value.
func (e *Engine) loopVar(st *State, p *ssa.Phi, v *Term, back bool) *Term {
	b := p.Block()
	fr := st.top()
	inc, dec, modified, strict := true, true, false, true
	for i, ed := range p.Edges {
		if !b.Dominates(b.Preds[i]) {
			continue
		}
		if ed == ssa.Value(p) {
			continue
		}
		modified = true
		m := monotone(p, ed, map[ssa.Value]bool{}, &strict)
		if m == 2 {
			strict = false
		}
		if m != 1 && m != 2 {
			inc = false
		}
		if m != -1 && m != 2 {
			dec = false
		}
	}
	if !modified {
		return v
	}
	if e.shortCount(st, p, v) {
		return v
	}
	t := e.fresh(st, "opq", "loop:"+p.Comment, p, "", p.Type())
	iv, ok := typeIv(p.Type())
	if !ok {
		return t
	}
	gk := fmt.Sprintf("lv:%s:%d:%d", fr.ctx, e.P.fnID(fr.fn), e.P.insID(p))
	_ = gk
	if !back {
		x := e.IvOf(st, v)
		if inc {
			iv.Lo = x.Lo
			if strict && iv.Int {
				iv.Lo++
			}
		}
		if dec {
			iv.Hi = x.Hi
			if strict && iv.Int {
				iv.Hi--
			}
		}
		st.ghost[gk] = fmt.Sprintf("%v|%v", iv.Lo, iv.Hi)
		iv = x
	} else if s, ok := st.ghost[gk]; ok {
		fmt.Sscanf(strings.ReplaceAll(s, "|", " "), "%g %g", &iv.Lo, &iv.Hi)
	}
	delete(st.facts, t)
	e.setIv(st, t, iv)
	return t
}

// shortCount: the variable counts the rounds of a loop over a few known elements.
func (e *Engine) shortCount(st *State, p *ssa.Phi, v *Term) bool {
	n, ok := v.Num()
	if !ok || n < -1 || n > 8 {
		return false
	}
	for i, ed := range p.Edges {
		if !p.Block().Dominates(p.Block().Preds[i]) {
			continue
		}
		s, ok := ed.(*ssa.BinOp)
		if !ok || s.Op != token.ADD || s.X != ssa.Value(p) {
			return false
		}
		if c, ok := s.Y.(*ssa.Const); !ok || c.Value == nil || constant.Compare(c.Value, token.NEQ, constant.MakeInt64(1)) {
			return false
		}
	}
	x, ok := p.Block().Instrs[len(p.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := x.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	if c.X != ssa.Value(p) {
		s, ok := c.X.(*ssa.BinOp)
		if !ok || s.X != ssa.Value(p) || s.Block() != p.Block() {
			return false
		}
	}
	if in, ok := c.Y.(ssa.Instruction); ok && (!in.Block().Dominates(p.Block()) || in.Block() == p.Block()) {
		return false
	}
	var m float64
	switch y := c.Y.(type) {
	case *ssa.Const:
		m, ok = e.val(st, y).Num()
	default:
		var t *Term
		if t, ok = st.top().env[y]; ok {
			m, ok = t.Num()
		}
	}
	return ok && m <= 8
}

// monotone: 1 when ed >= phi always, -1 when <=, 2 equal, 0 unknown.
func monotone(p *ssa.Phi, ed ssa.Value, seen map[ssa.Value]bool, strict *bool) int {
	if ed == ssa.Value(p) {
		return 2
	}
	if seen[ed] {
		return 2
	}
	seen[ed] = true
	switch x := ed.(type) {
	case *ssa.BinOp:
		var other ssa.Value
		base := 0
		if m := monotone(p, x.X, seen, strict); m != 0 {
			base, other = m, x.Y
		} else if x.Op == token.ADD {
			if m := monotone(p, x.Y, seen, strict); m != 0 {
				base, other = m, x.X
			}
		}
		if base == 0 {
			return 0
		}
		sign := 0
		if c, ok := other.(*ssa.Const); ok && c.Value != nil && (c.Value.Kind() == constant.Int || c.Value.Kind() == constant.Float) {
			sign = constant.Sign(c.Value)
			if sign == 0 {
				return base
			}
		} else if isLenLike(other) {
			sign = 1
			*strict = false
		} else {
			return 0
		}
		if x.Op == token.SUB {
			sign = -sign
		} else if x.Op != token.ADD {
			return 0
		}
		if base == 2 || base == sign {
			return sign
		}
	case *ssa.Phi:
		r := 2
		for _, y := range x.Edges {
			m := monotone(p, y, seen, strict)
			if m == 0 {
				return 0
			}
			if m == 2 {
				*strict = false
				continue
			}
			if r != 2 && r != m {
				return 0
			}
			r = m
		}
		return r
	}
	return 0
}

func isLenLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return isIntT(x.X.Type()) && isLenLike(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
	}
	return false
}

func (e *Engine) set(st *State, v ssa.Value, t *Term) {
	if t.depth > maxDepth {
		t = e.T.mk("deep", typeKey(v.Type()), v.Type())
	}
	st.top().env[v] = t
}

// forkVals continues with each alternative value for v.
func (e *Engine) forkVals(st *State, v ssa.Value, vals []*Term) bool {
	for i := len(vals) - 1; i >= 1; i-- {
		n := st.clone()
		e.set(n, v, vals[i])
		n.top().idx++
		e.push(n)
	}
	e.set(st, v, vals[0])
	st.top().idx++
	return true
}

// sharedAddr: the address is used for more than one plain load or store.
func sharedAddr(x *ssa.IndexAddr) bool {
	n := 0
	for _, r := range *x.Referrers() {
		switch r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp, *ssa.Store:
			n++
		default:
			return true
		}
	}
	return n > 1
}

func (e *Engine) step(st *State, in ssa.Instruction) bool {
	fr := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		fr.idx++
		return true
	case *ssa.Alloc:
		t := e.fresh(st, "alloc", allocLabel(x), x, "", x.Type())
		t.Typ = x.Type()
		for a := range st.mem {
			if addrRoot(a) == t || a.Op == "hv" && a.Args[0] == t {
				delete(st.mem, a)
			}
		}
		e.set(st, x, t)
	case *ssa.MakeSlice:
		t := e.fresh(st, "mkslice", "make", x, "", x.Type())
		ln := e.val(st, x.Len)
		for a := range st.mem {
			if addrRoot(a) == t {
				delete(st.mem, a)
			}
		}
		lt := e.T.mk("len", "", types.Typ[types.Int], t)
		st.mem[e.T.mk("mklen", "", nil, t)] = ln
		if n, ok := ln.Num(); ok {
			delete(st.facts, lt)
			e.setIv(st, lt, Iv{Lo: n, Hi: n, Int: true})
		}
		e.set(st, x, t)
	case *ssa.MakeMap:
		t := e.fresh(st, "mkmap", "map", x, "", x.Type())
		for a := range st.mem {
			if addrRoot(a) == t {
				delete(st.mem, a)
			}
		}
		e.set(st, x, t)
	case *ssa.MakeChan:
		t := e.fresh(st, "mkchan", "chan", x, "", x.Type())
		st.mem[e.T.mk("mklen", "", nil, t)] = e.val(st, x.Size)
		e.set(st, x, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		e.set(st, x, e.T.Func(x.Fn.(*ssa.Function), bs...))
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		e.set(st, x, e.T.mk("iface", "", x.X.Type(), v))
	case *ssa.ChangeInterface:
		e.set(st, x, e.val(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, e.val(st, x.X))
	case *ssa.Convert:
		e.set(st, x, e.conv(e.val(st, x.X), x.Type()))
	case *ssa.MultiConvert:
		e.set(st, x, e.conv(e.val(st, x.X), x.Type()))
	case *ssa.SliceToArrayPointer:
		e.set(st, x, e.val(st, x.X))
	case *ssa.FieldAddr:
		base := e.val(st, x.X)
		s := structOf(x.X.Type())
		f := s.Field(x.Field)
		e.set(st, x, e.fa(base, f.Name(), f.Type()))
	case *ssa.Field:
		s := structOf0(x.X.Type())
		f := s.Field(x.Field)
		e.set(st, x, e.field(e.val(st, x.X), f.Name(), f.Type()))
	case *ssa.IndexAddr:
		s := e.val(st, x.X)
		i := e.val(st, x.Index)
		a := e.T.mk("ia", "", deref(x.Type()), s, i)
		if b := baseSlice(s); b.Op == "coll" && len(b.Args) > 1 && sharedAddr(x) {
			// the fields read through this address belong to one element
			var as []*Term
			seen := map[*Term]bool{}
			for _, c := range b.Args {
				var n *Term
				if c.Op == "elems" {
					n = e.T.mk("ia", "", deref(x.Type()), c.Args[0], i)
				} else {
					n = e.T.mk("ia", "", deref(x.Type()), e.T.Coll(b.Typ, c), i)
				}
				if !seen[n] {
					seen[n] = true
					as = append(as, n)
				}
			}
			return e.forkVals(st, x, as)
		}
		e.set(st, x, a)
	case *ssa.Index:
		s := e.val(st, x.X)
		e.set(st, x, e.T.mk("idx", "", x.Type(), s, e.val(st, x.Index)))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			addr := e.val(st, x.X)
			if e.O.OnLoad != nil {
				e.O.OnLoad(e, st, addr, x)
			}
			return e.forkVals(st, x, e.loadVals(st, addr, x.Type()))
		case token.NOT:
			e.set(st, x, e.Not(e.val(st, x.X)))
		case token.SUB:
			v := e.val(st, x.X)
			if v.IsConst() && v.Val != nil {
				e.set(st, x, e.T.Const(constant.UnaryOp(token.SUB, v.Val, 0), x.Type()))
			} else {
				e.set(st, x, e.T.mk("neg", "", x.Type(), v))
			}
		case token.ARROW:
			ch := e.val(st, x.X)
			if e.O.ChanEv {
				e.event(st, "recv", []*Term{ch}, nil, nil, x)
			}
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			v := e.fresh(st, "opq", "recv", x, "", et)
			if x.CommaOk {
				ok := e.T.mk("ext", "ok", types.Typ[types.Bool], v)
				e.set(st, x, e.T.mk("tuple", "", x.Type(), v, ok))
			} else {
				e.set(st, x, v)
			}
			if e.O.OnChan != nil {
				e.O.OnChan(e, st, "recv", ch, v, x)
			}
		default:
			e.set(st, x, e.T.mk("unop", x.Op.String(), x.Type(), e.val(st, x.X)))
		}
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		if x.Op == token.EQL || x.Op == token.NEQ {
			if _, ok := x.X.Type().Underlying().(*types.Interface); ok && b.Op == "iface" && a.Op != "iface" {
				b2 := b
				t := e.Eq(a, b2)
				if x.Op == token.NEQ {
					t = e.Not(t)
				}
				e.set(st, x, t)
				break
			}
		}
		e.set(st, x, e.binop(x.Op, a, b, x.Type()))
	case *ssa.Store:
		addr, v := e.val(st, x.Addr), e.val(st, x.Val)
		if e.O.OnStore != nil {
			e.O.OnStore(e, st, addr, v, x)
		}
		e.store(st, addr, v)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		if e.O.OnMap != nil {
			e.O.OnMap(e, st, "update", m, k, v, x)
		}
		st.mem[e.T.mk("mval", "", nil, m, stripKey(k))] = v
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		e.set(st, x, e.ext(t, x.Index, x.Type()))
	case *ssa.Range:
		m := e.val(st, x.X)
		rk := fmt.Sprintf("rng:%s:%d:%d", fr.ctx, e.P.fnID(fr.fn), e.P.insID(x))
		st.ghost[rk] = ""
		e.set(st, x, e.T.mk("range", rk, nil, m))
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.TypeAssert:
		v := e.val(st, x.X)
		if v.Op == "iface" {
			ok := types.Identical(v.Typ, x.AssertedType)
			known := true
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				ok = types.Implements(v.Typ, it)
				if !ok {
					known = true
				}
			}
			if known {
				r := v.Args[0]
				if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
					r = v
				}
				if x.CommaOk {
					if !ok {
						r = e.zero(x.AssertedType)
					}
					e.set(st, x, e.T.mk("tuple", "", x.Type(), r, e.T.Bool(ok)))
				} else {
					if !ok {
						e.panicExit(st)
						return false
					}
					e.set(st, x, r)
				}
				break
			}
		}
		r := e.T.mk("ta", "", x.AssertedType, v)
		if x.CommaOk {
			e.set(st, x, e.T.mk("tuple", "", x.Type(), r, e.T.mk("taok", typeKey(x.AssertedType), types.Typ[types.Bool], v)))
		} else {
			e.set(st, x, r)
		}
	case *ssa.Slice:
		s := e.val(st, x.X)
		if x.Low == nil && x.High == nil && x.Max == nil {
			if s.Op == "alloc" {
				e.set(st, x, e.T.mk("slice", "full", x.Type(), s))
			} else {
				e.set(st, x, s)
			}
			break
		}
		if isStrT(x.X.Type()) {
			lo, hi := e.T.Int(0), e.Len(s)
			if x.Low != nil {
				lo = e.val(st, x.Low)
			}
			if x.High != nil {
				hi = e.val(st, x.High)
			}
			if sv, ok := s.StrVal(); ok {
				a, ok1 := lo.Num()
				b, ok2 := hi.Num()
				if ok1 && ok2 && a >= 0 && b <= float64(len(sv)) && a <= b {
					e.set(st, x, e.T.S(sv[int(a):int(b)]))
					break
				}
			}
			e.set(st, x, e.T.mk("substr", "", x.Type(), s, lo, hi))
			break
		}
		lo, hi := e.T.Nil(), e.T.Nil()
		if x.Low != nil {
			lo = e.val(st, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, x.High)
			if n, ok := hi.Num(); ok && n == 0 { // s[:0]
				e.set(st, x, e.T.Coll(x.Type()))
				break
			}
		}
		sl := e.T.mk("slice", "", x.Type(), s, lo, hi)
		if e.O.OnSlice != nil {
			e.O.OnSlice(e, st, x, sl)
		}
		e.set(st, x, sl)
	case *ssa.If:
		c := e.val(st, x.Cond)
		tr := e.Truth(st, c)
		tb, fb := fr.block.Succs[0], fr.block.Succs[1]
		if tr != 1 {
			n := st
			if tr == 0 {
				n = st.clone()
			}
			n.trail = &Trail{x.Cond.Pos(), n.trail}
			ok := e.Assume(n, c, false) && (e.O.OnBranch == nil || e.O.OnBranch(e, n, x, c, false)) && e.enter(n, fb)
			if tr == 2 {
				return ok
			}
			if ok {
				e.push(n)
			}
		}
		if e.Assume(st, c, true) && (e.O.OnBranch == nil || e.O.OnBranch(e, st, x, c, true)) {
			return e.enter(st, tb)
		}
		return false
	case *ssa.Jump:
		return e.enter(st, fr.block.Succs[0])
	case *ssa.Return:
		return e.doReturn(st, x)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			// stay on RunDefers until all have run
			return e.invoke(st, d.call, d.fn, d.args, d.site, nil, true)
		}
	case *ssa.Panic:
		e.panicExit(st)
		return false
	case *ssa.Defer:
		fn, args := e.callArgs(st, &x.Call)
		fr.defers = append(fr.defers, deferRec{&x.Call, x, fn, args})
		if len(fr.defers) > 40 {
			e.fail("deferred calls pile up in a loop of %s", fr.fn)
			return false
		}
	case *ssa.Go:
		fn, args := e.callArgs(st, &x.Call)
		ci := e.info(st, &x.Call, fn, args, x)
		if e.O.OnGo != nil {
			e.O.OnGo(e, st, ci)
		}
		if e.O.RunGo != nil {
			n := st.clone()
			n.ghost["goroutine"] = fmt.Sprint(len(n.frames))
			e.O.RunGo(e, n, x)
			if gfn, gargs := e.callArgs(n, &x.Call); e.invoke(n, &x.Call, gfn, gargs, x, nil, false) && len(n.frames) > len(st.frames) {
				n.top().isGo = true
				e.push(n)
			}
		}
		if e.O.ChanEv {
			e.event(st, "go", append([]*Term{fn}, args...), nil, nil, x)
		}
	case *ssa.Send:
		ch, v := e.val(st, x.Chan), e.val(st, x.X)
		if e.O.ChanEv {
			e.event(st, "send", []*Term{ch, v}, nil, nil, x)
		}
		if e.O.OnChan != nil {
			e.O.OnChan(e, st, "send", ch, v, x)
		}
	case *ssa.Select:
		return e.selectStmt(st, x)
	case *ssa.Call:
		fn, args := e.callArgs(st, &x.Call)
		return e.invoke(st, &x.Call, fn, args, x, x, false)
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(st, v, e.fresh(st, "opq", "?", in, "", v.Type()))
		}
	}
	st.top().idx++
	return true
}

func allocLabel(a *ssa.Alloc) string {
	if a.Comment != "" {
		return a.Comment
	}
	return "alloc"
}

func stripKey(k *Term) *Term { return strip(k) }

func (e *Engine) panicExit(st *State) {
	if e.O.OnPanic != nil {
		e.O.OnPanic(e, st)
	}
}

func (e *Engine) ext(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		if i < len(t.Args) {
			return t.Args[i]
		}
	}
	if t.Op == "zero" {
		return e.zero(typ)
	}
	r := e.T.mk("ext", fmt.Sprint(i), typ, t)
	if r.Typ == nil {
		r.Typ = typ
	}
	return r
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) bool {
	m, k := e.val(st, x.X), e.val(st, x.Index)
	if isStrT(x.X.Type()) {
		e.set(st, x, e.T.mk("idx", "", x.Type(), m, k))
		st.top().idx++
		return true
	}
	if e.O.OnMap != nil {
		e.O.OnMap(e, st, "lookup", m, k, nil, x)
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	mk := func(v *Term, ok *Term) *Term {
		if x.CommaOk {
			return e.T.mk("tuple", "", x.Type(), v, ok)
		}
		return v
	}
	sk := stripKey(k)
	if v, ok := st.mem[e.T.mk("mval", "", nil, m, sk)]; ok {
		e.set(st, x, mk(v, e.T.Bool(true)))
		st.top().idx++
		return true
	}
	if m.IsNil() {
		e.set(st, x, mk(e.zero(et), e.T.Bool(false)))
		st.top().idx++
		return true
	}
	if m.Local {
		keys := e.mapKeys(st, m)
		var cand []*Term
		for _, kk := range keys {
			if kk.IsConst() && sk.IsConst() {
				continue
			}
			cand = append(cand, kk)
		}
		has := e.T.mk("has", "", types.Typ[types.Bool], m, sk)
		if len(cand) == 0 {
			e.set(st, x, mk(e.zero(et), e.T.Bool(false)))
			st.top().idx++
			return true
		}
		// present with one of the stored values, or absent
		for _, kk := range cand {
			n := st.clone()
			if kk.IsConst() && !e.Assume(n, e.Eq(sk, kk), true) {
				continue
			}
			if e.Assume(n, has, true) {
				e.set(n, x, mk(st.mem[e.T.mk("mval", "", nil, m, kk)], e.T.Bool(true)))
				n.top().idx++
				e.push(n)
			}
		}
		for _, kk := range cand {
			if kk.IsConst() && !e.Assume(st, e.Eq(sk, kk), false) {
				return false
			}
		}
		if e.Assume(st, has, false) {
			e.set(st, x, mk(e.zero(et), e.T.Bool(false)))
			st.top().idx++
			return true
		}
		return false
	}
	v := e.T.mk("lookup", "", et, m, sk)
	if v.Typ == nil {
		v.Typ = et
	}
	e.set(st, x, mk(v, e.T.mk("has", "", types.Typ[types.Bool], m, sk)))
	st.top().idx++
	return true
}

func (e *Engine) mapKeys(st *State, m *Term) []*Term {
	var keys []*Term
	for a := range st.mem {
		if a.Op == "mval" && a.Args[0] == m {
			keys = append(keys, a.Args[1])
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	return keys
}

func (e *Engine) next(st *State, x *ssa.Next) bool {
	it := e.val(st, x.Iter)
	tup := x.Type().(*types.Tuple)
	done := func(s *State) {
		e.set(s, x, e.T.mk("tuple", "", x.Type(), e.T.Bool(false), e.zero(tup.At(1).Type()), e.zero(tup.At(2).Type())))
		s.top().idx++
	}
	var m *Term
	if it.Op == "range" {
		m = it.Args[0]
	} else {
		m = it
	}
	if m.IsNil() && !x.IsString {
		done(st)
		return true
	}
	if m.Local && m.Op == "mkmap" {
		if e.O.OnMap != nil {
			e.O.OnMap(e, st, "range", m, nil, nil, x)
		}
		keys := e.mapKeys(st, m)
		rk := it.Str
		left := 0
		for _, k := range keys {
			tag := fmt.Sprintf("#%d#", k.ID)
			if strings.Contains(st.ghost[rk], tag) {
				continue
			}
			left++
			n := st.clone()
			n.ghost[rk] = sortTags(n.ghost[rk] + tag)
			v := n.mem[e.T.mk("mval", "", nil, m, k)]
			// the iteration visits the pair again as the current one
			e.set(n, x, e.T.mk("tuple", "", x.Type(), e.T.Bool(true), k, v))
			n.top().idx++
			if e.O.OnMap != nil {
				e.O.OnMap(e, n, "key", m, k, v, x)
			}
			e.push(n)
		}
		if left > 0 {
			return false
		}
		done(st)
		return true
	}
	if e.O.OnMap != nil && !x.IsString {
		e.O.OnMap(e, st, "range", m, nil, nil, x)
	}
	n := st.clone()
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	k := e.fresh(n, "opq", "key", x, "k", kt)
	k.Typ = kt
	var v *Term
	if x.IsString {
		v = e.T.mk("rune", "", vt, m, k)
	} else {
		v = e.T.mk("lookup", "", vt, m, k)
		if v.Typ == nil {
			v.Typ = vt
		}
	}
	n.facts[e.T.mk("rkey", "", nil, m, k)] = Fact{B: 1}
	n.facts[e.T.mk("has", "", types.Typ[types.Bool], m, k)] = Fact{B: 1}
	e.set(n, x, e.T.mk("tuple", "", x.Type(), e.T.Bool(true), k, v))
	n.top().idx++
	if e.O.OnMap != nil && !x.IsString {
		e.O.OnMap(e, n, "item", m, k, v, x)
	}
	e.push(n)
	done(st)
	return true
}

func sortTags(s string) string {
	ps := strings.Split(strings.Trim(s, "#"), "##")
	sort.Strings(ps)
	return "#" + strings.Join(ps, "##") + "#"
}

func (e *Engine) selectStmt(st *State, x *ssa.Select) bool {
	tup := x.Type().(*types.Tuple)
	n := len(x.States)
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		s := st.clone()
		args := []*Term{e.T.Const(constant.MakeInt64(int64(i)), types.Typ[types.Int]), e.fresh(s, "opq", "recvok", x, "ok", types.Typ[types.Bool])}
		args[1].Typ = types.Typ[types.Bool]
		ri := 2
		for j, ss := range x.States {
			if ss.Dir != types.RecvOnly {
				continue
			}
			if ri >= tup.Len() {
				break
			}
			if j == i {
				v := e.fresh(s, "opq", "recv", x, fmt.Sprintf("r%d", j), tup.At(ri).Type())
				v.Typ = tup.At(ri).Type()
				args = append(args, v)
			} else {
				args = append(args, e.zero(tup.At(ri).Type()))
			}
			ri++
		}
		if e.O.ChanEv {
			if i >= 0 {
				ss := x.States[i]
				if ss.Dir == types.RecvOnly {
					e.event(s, "recv", []*Term{e.val(s, ss.Chan)}, nil, nil, x)
				} else {
					e.event(s, "send", []*Term{e.val(s, ss.Chan), e.val(s, ss.Send)}, nil, nil, x)
				}
			}
		}
		e.set(s, x, e.T.mk("tuple", "", x.Type(), args...))
		if e.O.OnChan != nil {
			ri := 2
			for j, ss := range x.States {
				if ss.Dir == types.RecvOnly {
					if j == i {
						e.O.OnChan(e, s, "recv", e.val(s, ss.Chan), args[ri], x)
					} else if i < 0 {
						e.O.OnChan(e, s, "empty", e.val(s, ss.Chan), nil, x)
					}
					ri++
				} else if j == i {
					e.O.OnChan(e, s, "send", e.val(s, ss.Chan), e.val(s, ss.Send), x)
				} else if i < 0 {
					e.O.OnChan(e, s, "full", e.val(s, ss.Chan), e.val(s, ss.Send), x)
				}
			}
		}
		s.top().idx++
		e.push(s)
	}
	return false
}

// ---- calls -----------------------------------------------------------------

func (e *Engine) callArgs(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fn := e.val(st, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return fn, args
}

// funcName is the stable printed name of a callee.
func funcName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if tf, ok := f.Object().(*types.Func); ok {
			return tf.FullName()
		}
	}
	return f.String()
}

func (e *Engine) info(st *State, c *ssa.CallCommon, fn *Term, args []*Term, site ssa.Instruction) *CallInfo {
	ci := &CallInfo{Common: c, Args: args, Site: site, FnTerm: fn, st: st}
	ci.Sig = c.Signature()
	if c.IsInvoke() {
		ci.Name = c.Method.FullName()
		return ci
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.Name = "builtin." + b.Name()
		return ci
	}
	if fn.Op == "func" {
		ci.Fn = fn.Fn
		ci.Name = funcName(fn.Fn)
	} else if f := c.StaticCallee(); f != nil {
		ci.Fn = f
		ci.Name = funcName(f)
	}
	return ci
}

func (e *Engine) event(st *State, name string, args []*Term, res, er *Term, site ssa.Instruction) *Event {
	ev := &Event{Name: name, Args: args, Res: res, Errs: er, Site: site, Ctx: st.top().ctx}
	as := append([]*Term(nil), args...)
	if e.O.BareEvents {
		as = nil
		ev.Args = nil
	}
	if res != nil {
		as = append(as, res)
	}
	ev.term = e.T.mk("ev", fmt.Sprintf("%s@%d:%d", name, e.P.fnID(site.Parent()), e.P.insID(site)), nil, as...)
	if e.O.KeepEvent != nil && !e.O.KeepEvent(ev) {
		return ev
	}
	st.events = append(st.events, ev)
	if len(st.events) > 60 {
		e.fail("event word too long in %s", site.Parent())
	}
	return ev
}

func (e *Engine) resultTyp(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Engine) invoke(st *State, c *ssa.CallCommon, fn *Term, args []*Term, site ssa.Instruction, res ssa.Value, isDefer bool) bool {
	ci := e.info(st, c, fn, args, site)
	if e.O.OnCall != nil {
		e.O.OnCall(e, st, ci)
	}
	adv := func(s *State, t *Term) {
		if res != nil && t != nil {
			e.set(s, res, t)
		}
		if !isDefer {
			s.top().idx++
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b.Name(), ci, site, res, isDefer, adv)
	}
	if e.O.Model != nil {
		if outs, ok := e.O.Model(e, st, ci); ok {
			return e.outcomes(st, outs, adv)
		}
	}
	if e.O.Event != nil && e.O.Event(ci) {
		return e.eventCall(st, ci, site, adv)
	}
	if outs, ok := e.stdModel(st, ci); ok {
		return e.outcomes(st, outs, adv)
	}
	// resolve a body
	var target *ssa.Function
	var bind []*Term
	targs := args
	if c.IsInvoke() {
		recv := args[0]
		var rt types.Type
		if recv.Op == "iface" {
			rt = recv.Typ
			recv = recv.Args[0]
		} else if u := e.uniqueImpl(c.Value.Type()); u != nil {
			rt = u
			r2 := e.T.mk("ta", "", u, recv)
			recv = r2
		}
		if rt != nil {
			if sel := e.P.SSA.MethodSets.MethodSet(rt).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				target = e.P.SSA.MethodValue(sel)
				targs = append([]*Term{recv}, args[1:]...)
			}
		}
	} else if fn.Op == "func" {
		target = fn.Fn
		bind = fn.Args
	} else {
		target = c.StaticCallee()
	}
	if target != nil && len(target.Blocks) > 0 && e.inlinable(st, target) {
		return e.enterCall(st, target, targs, bind, site, res, isDefer)
	}
	return e.opaqueCall(st, ci, target, site, adv)
}

func (e *Engine) inlinable(st *State, fn *ssa.Function) bool {
	if e.O.Opaque != nil && e.O.Opaque(fn) {
		return false
	}
	if fn.Pkg == nil && fn.Synthetic == "" && fn.Parent() == nil {
		return false
	}
	p := fnPkgPath(fn)
	if p == "slices" {
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		if n := o.Name(); n != "ContainsFunc" && n != "IndexFunc" {
			return false
		}
	} else if p != "" && !(p == e.P.ModPath || strings.HasPrefix(p, e.P.ModPath+"/")) {
		return false
	}
	if strings.HasSuffix(p, "/logger") || strings.HasSuffix(p, "/trace") {
		return false
	}
	if fn.Pos().IsValid() && strings.HasSuffix(e.P.Fset.Position(fn.Pos()).Filename, ".pb.go") && !strings.HasPrefix(fn.Name(), "Get") {
		return false
	}
	if len(st.frames) >= e.O.Depth {
		return false
	}
	for _, f := range st.frames {
		if f.fn == fn {
			return false
		}
	}
	return true
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (e *Engine) enterCall(st *State, fn *ssa.Function, args, bind []*Term, site ssa.Instruction, res ssa.Value, isDefer bool) bool {
	fr := st.top()
	e.Inlined[fn] = true
	nf := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, call: site, retVal: res, isDef: isDefer}
	nf.ctx = fmt.Sprintf("%s/%d.%d", fr.ctx, e.P.fnID(site.Parent()), e.P.insID(site))
	nf.loop = fr.loop || fr.isDef || e.P.liveFor(fr.fn).cyc[fr.block]
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		} else {
			nf.env[p] = e.T.mk("undef", p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			nf.env[f] = bind[i]
		}
	}
	if !isDefer {
		fr.idx++
	}
	st.frames = append(st.frames, nf)
	return true
}

func (e *Engine) doReturn(st *State, x *ssa.Return) bool {
	fr := st.top()
	if fr.isGo {
		return false
	}
	var rs []*Term
	for _, r := range x.Results {
		rs = append(rs, e.val(st, r))
	}
	if len(st.frames) == 1 {
		e.NPaths++
		if e.O.OnExit != nil {
			e.O.OnExit(e, st, rs)
		}
		return false
	}
	if e.O.OnReturn != nil {
		e.O.OnReturn(e, st, rs)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.retVal != nil && !fr.drop {
		var t *Term
		switch len(rs) {
		case 0:
		case 1:
			t = rs[0]
		default:
			t = e.T.mk("tuple", "", fr.fn.Signature.Results(), rs...)
		}
		if t != nil {
			e.set(st, fr.retVal, t)
		}
	}
	return true
}

func (e *Engine) outcomes(st *State, outs []*Outcome, adv func(*State, *Term)) bool {
	for i, o := range outs {
		n := st
		if i < len(outs)-1 {
			n = st.clone()
		}
		ok := true
		for _, a := range o.Assume {
			if !e.Assume(n, a.T, a.Want) {
				ok = false
				break
			}
		}
		if !ok {
			if n == st {
				return false
			}
			continue
		}
		if o.Apply != nil {
			o.Apply(n)
		}
		adv(n, o.Res)
		if n != st {
			e.push(n)
		}
	}
	return len(outs) > 0
}

// refresh re-reads call arguments after the previous result of the same call was renamed.
func (e *Engine) refresh(ci *CallInfo, t *Term) {
	if t == nil {
		return
	}
	for i, a := range ci.Args {
		if a.hasRoot(t) {
			args := append([]*Term(nil), ci.Args...)
			args[i] = e.T.subst(a, t, e.T.ctxTerm(t.Op, t.Str+"~", t.Label, t.Typ), map[*Term]*Term{})
			ci.Args = args
		}
	}
}

// eventCall records the call and continues once per outcome.
func (e *Engine) eventCall(st *State, ci *CallInfo, site ssa.Instruction, adv func(*State, *Term)) bool {
	sig := ci.Sig
	n := sig.Results().Len()
	var res, er *Term
	if n > 0 {
		res = e.fresh(st, "opq", short(ci.Name), site, "r", e.resultTyp(sig))
		res.Typ = e.resultTyp(sig)
		last := sig.Results().At(n - 1).Type()
		if isErrT(last) {
			if n == 1 {
				er = res
			} else {
				er = e.ext(res, n-1, last)
			}
		}
	} else {
		res = e.fresh(st, "opq", short(ci.Name), site, "r", nil)
	}
	rt := res
	if n > 1 {
		var parts []*Term
		for i := 0; i < n; i++ {
			parts = append(parts, e.ext(res, i, sig.Results().At(i).Type()))
		}
		rt = e.T.mk("tuple", "", sig.Results(), parts...)
	}
	e.refresh(ci, res)
	ev := e.event(st, ci.Name, ci.Args, res, er, site)
	if e.O.OnEvent != nil {
		if e.O.BareEvents {
			x := *ev
			x.Args = ci.Args
			ev = &x
		}
		e.O.OnEvent(e, st, ev)
	}
	if er != nil && (e.O.NoErrFork == nil || !e.O.NoErrFork(ci.Name)) {
		f := st.clone()
		if e.setNil(f, er, false) {
			if e.O.OnFail != nil {
				e.O.OnFail(e, f, ev)
			}
			adv(f, rt)
			e.push(f)
		}
		if !e.setNil(st, er, true) {
			return false
		}
	}
	adv(st, rt)
	return true
}

func short(n string) string {
	if r := role(n); r != "" {
		return r
	}
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(n)
}

var purePkgs = []string{"strings.", "strconv.", "math.", "unicode.", "path.", "errors.Is", "slices.Contains", "fmt.Sprint", "fmt.Sprintf", "(time.Time).", "(time.Duration).", "time.Unix", "time.UnixMilli", "bytes."}

func isPure(n string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var nonNilResults = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "time.NewTicker": true, "time.NewTimer": true,
	"github.com/elliotchance/orderedmap/v2.NewOrderedMap": true, "container/list.New": true, "crypto/x509.NewCertPool": true,
	"google.golang.org/grpc/credentials.NewTLS": true,
}

func (e *Engine) opaqueCall(st *State, ci *CallInfo, target *ssa.Function, site ssa.Instruction, adv func(*State, *Term)) bool {
	sig := ci.Sig
	rt := e.resultTyp(sig)
	name := ci.Name
	if isPure(name) {
		var as []*Term
		for _, a := range ci.Args {
			as = append(as, e.pureArg(st, a))
		}
		t := e.T.mk("call", name, rt, as...)
		if t.Typ == nil {
			t.Typ = rt
		}
		if sig.Results().Len() > 1 {
			var parts []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				parts = append(parts, e.ext(t, i, sig.Results().At(i).Type()))
			}
			t = e.T.mk("tuple", "", rt, parts...)
		}
		adv(st, t)
		return true
	}
	// closures handed to unknown code may or may not run
	var clos []*Term
	for _, a := range ci.Args {
		b := strip(a)
		if b.Op == "func" && b.Fn != nil && len(b.Fn.Blocks) > 0 && !pureClosureTaker(name) {
			clos = append(clos, b)
		}
	}
	if !e.O.NoEscape {
		for _, a := range ci.Args {
			b := strip(a)
			r := addrRoot(b)
			if r.Local && r.Op == "alloc" && (b.Op == "alloc" || b.Op == "fa" || b.Op == "ia") && !readOnlyCall(name) {
				e.havoc(st, r, site, short(name))
			}
		}
	}
	var res *Term
	if rt != nil {
		res = e.fresh(st, "opq", short(name), site, "r", rt)
		res.Typ = rt
		e.refresh(ci, res)
		st.mem[e.T.mk("callinfo", "", nil, res)] = e.T.mk("call", name, rt, ci.Args...)
		if sig.Results().Len() > 1 {
			var parts []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				parts = append(parts, e.ext(res, i, sig.Results().At(i).Type()))
			}
			res = e.T.mk("tuple", "", rt, parts...)
		}
		if nonNilResults[name] {
			st.facts[res] = Fact{Nil: 2}
		}
	}
	if len(clos) > 0 {
		// variant in which the callback runs once
		n := st.clone()
		adv(n, res)
		cl := clos[0]
		fr := n.top()
		nf := &Frame{fn: cl.Fn, block: cl.Fn.Blocks[0], env: map[ssa.Value]*Term{}, call: site, drop: true}
		nf.ctx = fmt.Sprintf("%s/cb%d.%d", fr.ctx, e.P.fnID(site.Parent()), e.P.insID(site))
		nf.loop = true
		sure := false
		if e.O.CallsBack != nil && e.O.CallsBack(name) {
			if v, ok := site.(ssa.Value); ok && rt != nil && types.Identical(cl.Fn.Signature.Results(), sig.Results()) {
				nf.retVal, nf.drop, sure = v, false, true
			}
		}
		e.Inlined[cl.Fn] = true
		for i, p := range cl.Fn.Params {
			t := e.T.mk("param", fmt.Sprintf("cb:%s:%d", nf.ctx, i), p.Type())
			t.Typ = p.Type()
			nf.env[p] = t
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				n.facts[t] = Fact{Nil: 2}
			}
		}
		for i, f := range cl.Fn.FreeVars {
			if i < len(cl.Args) {
				nf.env[f] = cl.Args[i]
			}
		}
		dup := false
		for _, f := range n.frames {
			if f.fn == cl.Fn {
				dup = true
			}
		}
		if !dup && len(n.frames) < e.O.Depth {
			n.frames = append(n.frames, nf)
			e.push(n)
			if sure {
				return false
			}
		}
	}
	adv(st, res)
	return true
}

func pureClosureTaker(n string) bool {
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "strings.")
}

// readOnlyCall: known not to write through pointer arguments.
func readOnlyCall(n string) bool {
	for _, p := range []string{"fmt.", "(*go.uber.org/zap", "(go.opentelemetry.io", "go.opentelemetry.io", "(*sync.", "google.golang.org/grpc.", "google.golang.org/grpc/reflection", "(*crypto/x509.CertPool).AppendCertsFromPEM",
		"go.mongodb.org/mongo-driver/mongo/options.", "(*go.mongodb.org/mongo-driver/mongo/options.", "google.golang.org/grpc/credentials.", "github.com/redis/go-redis", "(github.com/redis/go-redis", "(*github.com/redis/go-redis",
		"(*github.com/elliotchance/orderedmap", "(*container/list"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// pureArg resolves slices of local arrays to a value list so that pure terms are comparable.
func (e *Engine) pureArg(st *State, a *Term) *Term {
	if a.Op == "slice" && a.Str == "full" && a.Args[0].Local {
		return e.T.mk("list", "", nil, e.Elems(st, a)...)
	}
	return a
}

func (e *Engine) uniqueImpl(t types.Type) types.Type {
	if e.impl == nil {
		e.impl = map[types.Type]types.Type{}
	}
	if r, ok := e.impl[t]; ok {
		return r
	}
	e.impl[t] = nil
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.P.ModPath) {
		return nil
	}
	var found []types.Type
	for _, pk := range e.P.Mod {
		if pk.Types == nil {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				found = append(found, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				found = append(found, pt)
			}
		}
	}
	if len(found) > 1 {
		// drop types that are there for a larger interface of the module
		var keep []types.Type
		for _, f := range found {
			larger := false
			for _, pk := range e.P.Mod {
				if pk.Types == nil {
					continue
				}
				for _, nm := range pk.Types.Scope().Names() {
					tn, ok := pk.Types.Scope().Lookup(nm).(*types.TypeName)
					if !ok {
						continue
					}
					if o, ok := tn.Type().Underlying().(*types.Interface); ok && o.NumMethods() > it.NumMethods() && types.Implements(f, o) && types.Implements(o, it) {
						larger = true
					}
				}
			}
			if !larger {
				keep = append(keep, f)
			}
		}
		found = keep
	}
	if len(found) == 1 {
		e.impl[t] = found[0]
		return found[0]
	}
	return nil
}

// LenOf is what the builtin len returns for a in a state.
func (e *Engine) LenOf(st *State, a *Term) *Term {
	if a.Op == "mkslice" {
		if l, ok := st.mem[e.T.mk("mklen", "", nil, a)]; ok {
			return l
		}
	}
	if a.Local && a.Op == "mkmap" {
		keys := e.mapKeys(st, a)
		exact := true
		for _, k := range keys {
			exact = exact && k.IsConst()
		}
		if exact {
			return e.T.Int(int64(len(keys)))
		}
	}
	if e.nilness(st, a) == 1 {
		return e.T.Int(0)
	}
	return e.Len(a)
}

func (e *Engine) builtin(st *State, name string, ci *CallInfo, site ssa.Instruction, res ssa.Value, isDefer bool, adv func(*State, *Term)) bool {
	args := ci.Args
	var rt types.Type
	if res != nil {
		rt = res.Type()
	}
	switch name {
	case "len":
		if e.O.OnMap != nil && args[0].Typ != nil {
			if _, ok := args[0].Typ.Underlying().(*types.Map); ok {
				e.O.OnMap(e, st, "len", args[0], nil, nil, site)
			}
		}
		adv(st, e.LenOf(st, args[0]))
	case "append":
		dst := args[0]
		var elems []*Term
		add := func(s *Term) { elems = append(elems, e.Elems(st, s)...) }
		base := baseSlice(dst)
		if base.Op == "mkslice" {
			if l, ok := st.mem[e.T.mk("mklen", "", nil, base)]; ok {
				if n, isC := l.Num(); isC && n == 0 {
				} else if e.IvOf(st, l).Hi <= 0 {
				} else {
					var et types.Type
					if s, ok := base.Typ.Underlying().(*types.Slice); ok {
						et = s.Elem()
					}
					elems = append(elems, e.zero(et))
				}
			}
			for _, x := range e.Elems(st, dst) {
				elems = append(elems, x)
			}
			if l, ok := st.mem[e.T.mk("mklen", "", nil, base)]; ok {
				if n, isC := l.Num(); isC && n == 0 {
					elems = nil
				}
			}
		} else {
			add(dst)
		}
		var added []*Term
		if len(args) > 1 {
			if isStrT(args[1].Typ) {
				added = []*Term{args[1]}
			} else {
				added = e.Elems(st, args[1])
			}
		}
		if e.O.OnAppend != nil {
			e.O.OnAppend(e, st, dst, added, site)
		}
		if (e.O.Unroll || e.O.Exact && !e.inLoop(st, site)) && len(args) > 1 {
			if x, ok := e.exactList(st, dst); ok {
				if y, ok := e.exactList(st, args[1]); ok {
					if sl, ok := dst.Typ.Underlying().(*types.Slice); ok {
						adv(st, e.mkSlice(st, site, sl.Elem(), append(append([]*Term{}, x...), y...)...))
						return true
					}
				}
			}
		}
		elems = append(elems, added...)
		var typ types.Type = rt
		if typ == nil {
			typ = dst.Typ
		}
		if len(elems) > 14 {
			// too many distinct elements: summarise
			adv(st, e.fresh(st, "opq", "bigcoll", site, "", typ))
			return true
		}
		adv(st, e.T.Coll(typ, elems...))
	case "cap":
		adv(st, e.T.mk("cap", "", types.Typ[types.Int], args[0]))
	case "copy":
		dst := baseSlice(args[0])
		if dst.Local {
			for _, x := range e.Elems(st, args[1]) {
				v := x
				if x.Op == "elems" {
					v = e.T.mk("load", "", x.Typ, e.T.mk("ia", "", nil, x.Args[0], e.T.mk("any", "", types.Typ[types.Int])))
				}
				st.mem[e.T.mk("ia", "", nil, dst, e.T.mk("any", fmt.Sprint(x.ID), types.Typ[types.Int]))] = v
			}
		}
		adv(st, e.fresh(st, "opq", "copy", site, "", types.Typ[types.Int]))
	case "delete":
		if e.O.OnMap != nil {
			e.O.OnMap(e, st, "delete", args[0], args[1], nil, site)
		}
		delete(st.mem, e.T.mk("mval", "", nil, args[0], stripKey(args[1])))
		adv(st, nil)
	case "min", "max":
		cur := []*State{st}
		vals := []*Term{args[0]}
		for _, a := range args[1:] {
			var ns []*State
			var nv []*Term
			for i, s := range cur {
				c := e.Lt(vals[i], a)
				if name == "max" {
					c = e.Lt(a, vals[i])
				}
				s2 := s.clone()
				if e.Assume(s, c, true) {
					ns, nv = append(ns, s), append(nv, vals[i])
				}
				if e.Assume(s2, c, false) {
					if isFloatT(a.Typ) || isFloatT(vals[i].Typ) {
						// NaN propagates
						iv1, iv2 := e.IvOf(s2, vals[i]), e.IvOf(s2, a)
						if iv1.NaN || iv2.NaN {
							s3 := s2.clone()
							nan := e.T.mk("nan", "", a.Typ)
							s3.facts[nan] = Fact{Iv: &Iv{Lo: 1, Hi: 0, NaN: true}}
							ns, nv = append(ns, s3), append(nv, nan)
							for _, t := range []*Term{vals[i], a} {
								iv := e.IvOf(s2, t)
								if iv.NaN {
									iv.NaN = false
									e.setIv(s2, t, iv)
								}
							}
							if e.IvOf(s2, a).numEmpty() || e.IvOf(s2, vals[i]).numEmpty() {
								continue
							}
						}
					}
					ns, nv = append(ns, s2), append(nv, a)
				}
			}
			cur, vals = ns, nv
		}
		for i, s := range cur {
			adv(s, vals[i])
			e.push(s)
		}
		return false
	case "panic":
		e.panicExit(st)
		return false
	case "close":
		if e.O.ChanEv {
			e.event(st, "close", args, nil, nil, site)
		}
		if e.O.OnChan != nil {
			e.O.OnChan(e, st, "close", args[0], nil, site)
		}
		adv(st, nil)
	case "recover":
		adv(st, e.T.Nil())
	case "ssa:wrapnilchk":
		adv(st, args[0])
	default:
		if rt != nil {
			adv(st, e.fresh(st, "opq", name, site, "", rt))
		} else {
			adv(st, nil)
		}
	}
	return true
}

// stdModel gives library functions used in decisions their meaning.
func (e *Engine) stdModel(st *State, ci *CallInfo) ([]*Outcome, bool) {
	one := func(t *Term) ([]*Outcome, bool) { return []*Outcome{{Res: t}}, true }
	a := ci.Args
	if m := configGetter(e.P, ci); m != "" {
		t := e.T.mk("call", "config."+m, ci.Sig.Results().At(0).Type(), strip(a[0]))
		if t.Typ == nil {
			t.Typ = ci.Sig.Results().At(0).Type()
		}
		return one(t)
	}
	if strings.HasPrefix(ci.Name, "(*github.com/elliotchance/orderedmap/v2.OrderedMap") && strings.HasSuffix(ci.Name, ").Set") && len(a) == 3 {
		return []*Outcome{{Res: e.T.mk("some", "bool", types.Typ[types.Bool]), Apply: func(n *State) {
			n.mem[e.T.mk("mval", "", nil, strip(a[0]), strip(a[1]))] = strip(a[2])
		}}}, true
	}
	switch ci.Name {
	case "math.IsNaN":
		return one(e.Not(e.eqSelf(a[0])))
	case "math.IsInf":
		if s, ok := a[1].Num(); ok {
			inf := func(sg int) *Term {
				return e.T.mk("isinf", fmt.Sprint(sg), types.Typ[types.Bool], a[0])
			}
			_ = s
			iv := e.IvOf(st, a[0])
			if !math.IsInf(iv.Lo, 0) && !math.IsInf(iv.Hi, 0) {
				return one(e.T.Bool(false))
			}
			yes := &Outcome{Res: e.T.Bool(true), Assume: []Assumption{{inf(int(s)), true}}}
			no := &Outcome{Res: e.T.Bool(false), Assume: []Assumption{{inf(int(s)), false}}, Apply: func(n *State) {
				v := e.IvOf(n, a[0])
				if s >= 0 && math.IsInf(v.Hi, 1) {
					v.HiOpen = true
				}
				if s <= 0 && math.IsInf(v.Lo, -1) {
					v.LoOpen = true
				}
				e.setIv(n, a[0], v)
			}}
			return []*Outcome{yes, no}, true
		}
	case "math.Min", "math.Max":
		x, y := a[0], a[1]
		nx, ny := e.Not(e.eqSelf(x)), e.Not(e.eqSelf(y))
		var outs []*Outcome
		nan := e.T.mk("nan", "", types.Typ[types.Float64])
		mk := func(n *State) { n.facts[nan] = Fact{Iv: &Iv{Lo: 1, Hi: 0, NaN: true}} }
		outs = append(outs, &Outcome{Res: nan, Assume: []Assumption{{nx, true}}, Apply: mk})
		outs = append(outs, &Outcome{Res: nan, Assume: []Assumption{{nx, false}, {ny, true}}, Apply: mk})
		c := e.Lt(x, y)
		if ci.Name == "math.Max" {
			c = e.Lt(y, x)
		}
		outs = append(outs, &Outcome{Res: x, Assume: []Assumption{{nx, false}, {ny, false}, {c, true}}})
		outs = append(outs, &Outcome{Res: y, Assume: []Assumption{{nx, false}, {ny, false}, {c, false}}})
		return outs, true
	case "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
		t := e.T.mk("call", ci.Name, ci.Sig.Results().At(0).Type(), a[0], e.pureArg(st, a[1]))
		if n, ok := a[0].Num(); ok {
			if n == 0 {
				return one(e.T.Nil())
			}
			return one(e.T.mk("nn", "", nil, t))
		}
		return one(t)
	case "errors.New":
		return one(e.T.mk("nn", "", nil, e.T.mk("call", ci.Name, nil, a...)))
	case "fmt.Errorf":
		return one(e.T.mk("nn", "", nil, e.T.mk("call", ci.Name, nil, a[0], e.pureArg(st, a[1]))))
	case "(time.Duration).Milliseconds":
		return e.durFold(a[0], 1_000_000, ci)
	case "(time.Duration).Nanoseconds":
		return e.durFold(a[0], 1, ci)
	case "(time.Duration).Microseconds":
		return e.durFold(a[0], 1000, ci)
	case "(*sync.Once).Do":
		f := strip(a[1])
		if f.Op == "func" && len(f.Fn.Blocks) > 0 {
			return nil, false
		}
	case "strings.Join", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace":
	}
	return nil, false
}

func (e *Engine) durFold(t *Term, div int64, ci *CallInfo) ([]*Outcome, bool) {
	if t.IsConst() && t.Val != nil {
		if n, ok := constant.Int64Val(constant.ToInt(t.Val)); ok {
			return []*Outcome{{Res: e.T.Const(constant.MakeInt64(n/div), types.Typ[types.Int64])}}, true
		}
	}
	return nil, false
}

func (e *Engine) eqSelf(x *Term) *Term {
	if x.IsConst() {
		return e.T.Bool(true)
	}
	return e.T.mk("eq", "", types.Typ[types.Bool], x, x)
}

// Positions of a path, for reports.
func (e *Engine) trailStr(st *State) string {
	var ps []string
	last := ""
	for t := st.trail; t != nil && len(ps) < 14; t = t.prev {
		p := e.P.Pos(t.pos)
		if p == "?" || p == last {
			continue
		}
		last = p
		ps = append(ps, p)
	}
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	return strings.Join(ps, " → ")
}

// configGetter recognises a read of a configuration key from outside the config package.
func configGetter(p *Program, ci *CallInfo) string {
	if len(ci.Args) == 0 || ci.Sig.Results().Len() != 1 || ci.Site == nil || fnPkgPath(ci.Site.Parent()) == p.ModPath+"/internal/config" {
		return ""
	}
	i := strings.Index(ci.Name, "/internal/config.")
	j := strings.LastIndex(ci.Name, ").Get")
	if i < 0 || j < i {
		return ""
	}
	return ci.Name[j+2:]
}
