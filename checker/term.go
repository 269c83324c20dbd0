package main

// Hash-consed abstract values. A term names where a value comes from (its
// provenance) in a finite, depth-bounded vocabulary; facts about terms (nil-ness,
// truth, numeric interval, string constant) live in the State.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	ID    int
	Op    string
	Str   string
	Args  []*Term
	Val   constant.Value
	Fn    *ssa.Function
	Typ   types.Type
	Label string
	Ctx   bool // fresh per execution of an instruction
	Local bool // memory object created on this path
	roots []*Term
	depth int
}

type Terms struct {
	m   map[string]*Term
	all []*Term
}

func NewTerms() *Terms { return &Terms{m: map[string]*Term{}} }

const maxDepth = 14

func (ts *Terms) intern(key string, mk func() *Term) *Term {
	if t, ok := ts.m[key]; ok {
		return t
	}
	t := mk()
	t.ID = len(ts.all) + 1
	ts.all = append(ts.all, t)
	ts.m[key] = t
	seen := map[*Term]bool{}
	for _, a := range t.Args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, r := range a.roots {
			if !seen[r] {
				seen[r] = true
				t.roots = append(t.roots, r)
			}
		}
	}
	if t.Ctx {
		t.roots = append(t.roots, t)
	}
	return t
}

func (ts *Terms) mk(op, str string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(str)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	if op == "zero" || op == "iface" || op == "ta" || op == "conv" {
		b.WriteByte('|')
		b.WriteString(typeKey(typ))
	}
	return ts.intern(b.String(), func() *Term {
		return &Term{Op: op, Str: str, Typ: typ, Args: append([]*Term(nil), args...)}
	})
}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, nil)
}

// fresh per-instruction object
func (ts *Terms) ctxTerm(op, key, label string, typ types.Type) *Term {
	return ts.intern("C"+op+"|"+key, func() *Term {
		return &Term{Op: op, Str: key, Label: label, Typ: typ, Ctx: true, Local: op == "alloc" || op == "mkslice" || op == "mkmap" || op == "mkchan"}
	})
}

func (ts *Terms) Const(v constant.Value, typ types.Type) *Term {
	k := "nil"
	if v != nil {
		k = v.Kind().String() + v.ExactString()
	}
	return ts.intern("K|"+k, func() *Term { return &Term{Op: "const", Str: k, Val: v, Typ: typ} })
}
func (ts *Terms) Bool(b bool) *Term { return ts.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) Int(i int64) *Term { return ts.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (ts *Terms) S(s string) *Term  { return ts.Const(constant.MakeString(s), types.Typ[types.String]) }
func (ts *Terms) Nil() *Term        { return ts.Const(nil, types.Typ[types.UntypedNil]) }
func (ts *Terms) Func(f *ssa.Function, bind ...*Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "F|%p", f)
	for _, a := range bind {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	return ts.intern(b.String(), func() *Term {
		return &Term{Op: "func", Str: f.String(), Fn: f, Args: append([]*Term(nil), bind...), Typ: f.Signature}
	})
}

// collection of element terms
func (ts *Terms) Coll(typ types.Type, elems ...*Term) *Term {
	seen := map[*Term]bool{}
	var es []*Term
	for _, e := range elems {
		if !seen[e] {
			seen[e] = true
			es = append(es, e)
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].ID < es[j].ID })
	return ts.mk("coll", "", typ, es...)
}

func (t *Term) hasRoot(r *Term) bool {
	for _, x := range t.roots {
		if x == r {
			return true
		}
	}
	return false
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsNil() bool   { return t.Op == "const" && t.Val == nil }
func (t *Term) Bool() (bool, bool) {
	if t.Op == "const" && t.Val != nil && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}
func (t *Term) Num() (float64, bool) {
	if t.Op == "const" && t.Val != nil && (t.Val.Kind() == constant.Int || t.Val.Kind() == constant.Float) {
		f, _ := constant.Float64Val(constant.ToFloat(t.Val))
		return f, true
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && t.Val != nil && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

// subst replaces root old by nw inside t.
func (ts *Terms) subst(t, old, nw *Term, memo map[*Term]*Term) *Term {
	if !t.hasRoot(old) {
		return t
	}
	if t == old {
		return nw
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = ts.subst(a, old, nw, memo)
	}
	var r *Term
	switch {
	case t.Ctx:
		r = t // a fresh object does not contain others
	case t.Op == "coll":
		r = ts.Coll(t.Typ, args...)
	case t.Op == "func":
		r = ts.Func(t.Fn, args...)
	default:
		r = ts.mk(t.Op, t.Str, t.Typ, args...)
		if r.Label == "" {
			r.Label = t.Label
		}
	}
	memo[t] = r
	return r
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if t.Val == nil {
			return "nil"
		}
		return t.Val.String()
	case "param":
		return t.Str
	case "global":
		return t.Str
	case "alloc", "mkslice", "mkmap", "mkchan", "opq":
		s := t.Label
		if s == "" {
			s = t.Op
		}
		if strings.HasSuffix(t.Str, "~") {
			s += "~"
		}
		return s
	case "fa":
		return "&" + t.Args[0].str(d+1) + "." + t.Str
	case "load":
		if t.Args[0].Op == "fa" {
			return t.Args[0].Args[0].str(d+1) + "." + t.Args[0].Str
		}
		if t.Args[0].Op == "ia" {
			return t.Args[0].Args[0].str(d+1) + "[" + t.Args[0].Args[1].str(d+1) + "]"
		}
		if t.Args[0].Op == "global" {
			return t.Args[0].Str
		}
		return "*" + t.Args[0].str(d+1)
	case "field":
		return t.Args[0].str(d+1) + "." + t.Str
	case "ia":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "func":
		return "func " + t.Fn.Name()
	case "iface":
		return t.Args[0].str(d)
	case "ext":
		return t.Args[0].str(d+1) + "#" + t.Str
	case "call", "ev":
		return t.Str + "(" + as() + ")"
	case "binop":
		return "(" + t.Args[0].str(d+1) + " " + t.Str + " " + t.Args[1].str(d+1) + ")"
	case "zero":
		return "zero"
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + t.Str
	}
	return s + "(" + as() + ")"
}

// strip removes interface boxing.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "nf") {
		t = t.Args[0]
	}
	return t
}

// ---- intervals ------------------------------------------------------------

type Iv struct {
	Lo, Hi         float64
	LoOpen, HiOpen bool
	NaN            bool
	Int            bool
	Ne             []float64
}

func (v Iv) String() string {
	l, r := "[", "]"
	if v.LoOpen {
		l = "("
	}
	if v.HiOpen {
		r = ")"
	}
	s := fmt.Sprintf("%s%v,%v%s", l, v.Lo, v.Hi, r)
	if v.NaN {
		s += "∪NaN"
	}
	if len(v.Ne) > 0 {
		s += fmt.Sprintf("\\%v", v.Ne)
	}
	return s
}
func (v Iv) key() string { return v.String() }
func (v Iv) empty() bool {
	if v.NaN {
		return false
	}
	return v.numEmpty()
}
func (v Iv) numEmpty() bool {
	if v.Lo > v.Hi {
		return true
	}
	if v.Lo == v.Hi {
		if v.LoOpen || v.HiOpen {
			return true
		}
		for _, n := range v.Ne {
			if n == v.Lo {
				return true
			}
		}
	}
	return false
}
func (v Iv) norm() Iv {
	if v.Int {
		if v.LoOpen {
			if !math.IsInf(v.Lo, 0) {
				v.Lo = math.Floor(v.Lo) + 1
			}
			v.LoOpen = false
		} else {
			v.Lo = math.Ceil(v.Lo)
		}
		if v.HiOpen {
			if !math.IsInf(v.Hi, 0) {
				v.Hi = math.Ceil(v.Hi) - 1
			}
			v.HiOpen = false
		} else {
			v.Hi = math.Floor(v.Hi)
		}
		for again := true; again; {
			again = false
			for _, n := range v.Ne {
				if n == v.Lo && v.Lo <= v.Hi {
					v.Lo++
					again = true
				}
				if n == v.Hi && v.Lo <= v.Hi {
					v.Hi--
					again = true
				}
			}
		}
	}
	var ne []float64
	for _, n := range v.Ne {
		if n == v.Lo && !v.LoOpen && v.Lo < v.Hi {
			v.LoOpen = true
			continue
		}
		if n == v.Hi && !v.HiOpen && v.Lo < v.Hi {
			v.HiOpen = true
			continue
		}
		if n > v.Lo && n < v.Hi || n == v.Lo && n == v.Hi {
			ne = append(ne, n)
		}
	}
	v.Ne = ne
	return v
}
func (v Iv) has(x float64) bool {
	if math.IsNaN(x) {
		return v.NaN
	}
	if x < v.Lo || x > v.Hi || x == v.Lo && v.LoOpen || x == v.Hi && v.HiOpen {
		return false
	}
	for _, n := range v.Ne {
		if n == x {
			return false
		}
	}
	return true
}
func (v Iv) within(lo, hi float64) bool { return !v.NaN && (v.numEmpty() || v.Lo >= lo && v.Hi <= hi) }

func typeIv(t types.Type) (Iv, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Iv{}, false
	}
	inf := math.Inf(1)
	switch b.Kind() {
	case types.Int, types.Int64:
		return Iv{Lo: -math.Pow(2, 63), Hi: math.Pow(2, 63), Int: true}, true
	case types.Int32:
		return Iv{Lo: math.MinInt32, Hi: math.MaxInt32, Int: true}, true
	case types.Int16:
		return Iv{Lo: math.MinInt16, Hi: math.MaxInt16, Int: true}, true
	case types.Int8:
		return Iv{Lo: -128, Hi: 127, Int: true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return Iv{Lo: 0, Hi: math.Pow(2, 64), Int: true}, true
	case types.Uint32:
		return Iv{Lo: 0, Hi: math.MaxUint32, Int: true}, true
	case types.Uint16:
		return Iv{Lo: 0, Hi: math.MaxUint16, Int: true}, true
	case types.Uint8:
		return Iv{Lo: 0, Hi: 255, Int: true}, true
	case types.Float32, types.Float64:
		return Iv{Lo: -inf, Hi: inf, NaN: true}, true
	case types.UntypedInt, types.UntypedRune:
		return Iv{Lo: -inf, Hi: inf, Int: true}, true
	case types.UntypedFloat:
		return Iv{Lo: -inf, Hi: inf}, true
	}
	return Iv{}, false
}
