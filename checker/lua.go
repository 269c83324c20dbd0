package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- syntax ----------------------------------------------------------------

type lnode struct {
	op   string // expressions: nil true false num str name index call bin un func table; statements: local assign call if fornum forin while repeat do return break localfunc
	s    string
	k    []*lnode   // operands
	l    []*lnode   // second list (right-hand sides, call arguments, table values)
	body [][]*lnode // blocks
	strs []string
	line int
}

type ltok struct {
	k, s string
	line int
}

func luaLex(src string) ([]ltok, error) {
	var out []ltok
	line := 1
	i := 0
	long := func(i int) (string, int, bool) { // [[...]] or [=[...]=]
		j := i + 1
		for j < len(src) && src[j] == '=' {
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", i, false
		}
		end := "]" + strings.Repeat("=", j-i-1) + "]"
		e := strings.Index(src[j+1:], end)
		if e < 0 {
			return "", i, false
		}
		return src[j+1 : j+1+e], j + 1 + e + len(end), true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r' || c == ';':
			i++
		case strings.HasPrefix(src[i:], "--"):
			if strings.HasPrefix(src[i:], "--[") {
				if s, e, ok := long(i + 2); ok {
					line += strings.Count(s, "\n")
					i = e
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			w := src[i:j]
			k := "name"
			switch w {
			case "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while":
				k = w
			}
			out = append(out, ltok{k, w, line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.' && j+1 < len(src) && src[j+1] != '.' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F') {
				j++
			}
			out = append(out, ltok{"num", src[i:j], line})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("line %d: unfinished string", line)
			}
			out = append(out, ltok{"str", b.String(), line})
			i = j + 1
		case c == '[' && i+1 < len(src) && (src[i+1] == '[' || src[i+1] == '='):
			s, e, ok := long(i)
			if !ok {
				out = append(out, ltok{"[", "[", line})
				i++
				continue
			}
			out = append(out, ltok{"str", strings.TrimPrefix(s, "\n"), line})
			line += strings.Count(s, "\n")
			i = e
		default:
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, ltok{o, o, line})
					i += len(o)
					goto next
				}
			}
			if !strings.ContainsRune("+-*/%^#<>=(){}[],.:", rune(c)) {
				return nil, fmt.Errorf("line %d: unexpected %q", line, c)
			}
			out = append(out, ltok{string(c), string(c), line})
			i++
		next:
		}
	}
	return append(out, ltok{"eof", "", line}), nil
}

type lparser struct {
	t []ltok
	i int
}

type lsyntax struct{ msg string }

func luaParse(src string) (blk []*lnode, err error) {
	t, err := luaLex(src)
	if err != nil {
		return nil, err
	}
	p := &lparser{t: t}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(lsyntax); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	blk = p.block()
	p.want("eof")
	return blk, nil
}

func (p *lparser) k() string { return p.t[p.i].k }
func (p *lparser) is(k string) bool {
	if p.k() == k {
		p.i++
		return true
	}
	return false
}
func (p *lparser) want(k string) ltok {
	if p.k() != k {
		panic(lsyntax{fmt.Sprintf("line %d: %q expected, found %q", p.t[p.i].line, k, p.t[p.i].s)})
	}
	p.i++
	return p.t[p.i-1]
}
func (p *lparser) n(op string) *lnode { return &lnode{op: op, line: p.t[p.i].line} }

func (p *lparser) block() []*lnode {
	var out []*lnode
	for {
		switch p.k() {
		case "eof", "end", "else", "elseif", "until":
			return out
		case "return":
			n := p.n("return")
			p.i++
			switch p.k() {
			case "eof", "end", "else", "elseif", "until":
			default:
				n.k = p.exprs()
			}
			return append(out, n)
		case "break":
			out = append(out, p.n("break"))
			p.i++
		default:
			out = append(out, p.stat())
		}
	}
}

func (p *lparser) stat() *lnode {
	switch p.k() {
	case "local":
		n := p.n("local")
		p.i++
		if p.is("function") {
			n.op = "localfunc"
			n.s = p.want("name").s
			n.k = []*lnode{p.funcBody()}
			return n
		}
		for {
			n.strs = append(n.strs, p.want("name").s)
			if !p.is(",") {
				break
			}
		}
		if p.is("=") {
			n.l = p.exprs()
		}
		return n
	case "function":
		n := p.n("assign")
		p.i++
		v := p.n("name")
		v.s = p.want("name").s
		n.k = []*lnode{v}
		n.l = []*lnode{p.funcBody()}
		return n
	case "if":
		n := p.n("if")
		p.i++
		for {
			n.k = append(n.k, p.expr(0))
			p.want("then")
			n.body = append(n.body, p.block())
			if p.is("elseif") {
				continue
			}
			if p.is("else") {
				n.body = append(n.body, p.block())
			}
			p.want("end")
			return n
		}
	case "while":
		n := p.n("while")
		p.i++
		n.k = []*lnode{p.expr(0)}
		p.want("do")
		n.body = [][]*lnode{p.block()}
		p.want("end")
		return n
	case "repeat":
		n := p.n("repeat")
		p.i++
		n.body = [][]*lnode{p.block()}
		p.want("until")
		n.k = []*lnode{p.expr(0)}
		return n
	case "do":
		n := p.n("do")
		p.i++
		n.body = [][]*lnode{p.block()}
		p.want("end")
		return n
	case "for":
		n := p.n("fornum")
		p.i++
		n.strs = []string{p.want("name").s}
		if p.is("=") {
			n.k = p.exprs()
		} else {
			n.op = "forin"
			for p.is(",") {
				n.strs = append(n.strs, p.want("name").s)
			}
			p.want("in")
			n.k = p.exprs()
		}
		p.want("do")
		n.body = [][]*lnode{p.block()}
		p.want("end")
		return n
	}
	n := p.n("assign")
	e := p.suffixed()
	if p.k() != "=" && p.k() != "," {
		if e.op != "call" {
			panic(lsyntax{fmt.Sprintf("line %d: statement expected", n.line)})
		}
		n.op, n.k = "call", []*lnode{e}
		return n
	}
	n.k = []*lnode{e}
	for p.is(",") {
		n.k = append(n.k, p.suffixed())
	}
	p.want("=")
	n.l = p.exprs()
	return n
}

func (p *lparser) exprs() []*lnode {
	out := []*lnode{p.expr(0)}
	for p.is(",") {
		out = append(out, p.expr(0))
	}
	return out
}

func (p *lparser) funcBody() *lnode {
	n := p.n("func")
	p.want("(")
	for p.k() != ")" {
		if p.is("...") {
			n.s = "..."
		} else {
			n.strs = append(n.strs, p.want("name").s)
		}
		if !p.is(",") {
			break
		}
	}
	p.want(")")
	n.body = [][]*lnode{p.block()}
	p.want("end")
	return n
}

var lprec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (p *lparser) expr(limit int) *lnode {
	var l *lnode
	switch p.k() {
	case "not", "#", "-":
		l = p.n("un")
		l.s = p.k()
		p.i++
		l.k = []*lnode{p.expr(8)}
	default:
		l = p.simple()
	}
	for {
		pr, ok := lprec[p.k()]
		if !ok || pr[0] <= limit {
			return l
		}
		n := p.n("bin")
		n.s = p.k()
		p.i++
		n.k = []*lnode{l, p.expr(pr[1])}
		l = n
	}
}

func (p *lparser) simple() *lnode {
	n := p.n(p.k())
	switch p.k() {
	case "nil", "true", "false":
		p.i++
		return n
	case "num", "str":
		n.s = p.t[p.i].s
		p.i++
		return n
	case "...":
		n.op = "vararg"
		p.i++
		return n
	case "function":
		p.i++
		return p.funcBody()
	case "{":
		n.op = "table"
		p.i++
		for p.k() != "}" {
			switch {
			case p.k() == "[":
				p.i++
				n.k = append(n.k, p.expr(0))
				p.want("]")
				p.want("=")
				n.l = append(n.l, p.expr(0))
			case p.k() == "name" && p.t[p.i+1].k == "=":
				k := p.n("str")
				k.s = p.t[p.i].s
				p.i += 2
				n.k = append(n.k, k)
				n.l = append(n.l, p.expr(0))
			default:
				n.k = append(n.k, nil)
				n.l = append(n.l, p.expr(0))
			}
			if !p.is(",") {
				break
			}
		}
		p.want("}")
		return n
	}
	return p.suffixed()
}

func (p *lparser) suffixed() *lnode {
	var e *lnode
	if p.is("(") {
		e = p.expr(0)
		p.want(")")
		if e.op == "call" { // one value
			n := p.n("paren")
			n.k = []*lnode{e}
			e = n
		}
	} else {
		e = p.n("name")
		e.s = p.want("name").s
	}
	for {
		switch p.k() {
		case ".":
			n := p.n("index")
			p.i++
			k := p.n("str")
			k.s = p.want("name").s
			n.k = []*lnode{e, k}
			e = n
		case "[":
			n := p.n("index")
			p.i++
			n.k = []*lnode{e, p.expr(0)}
			p.want("]")
			e = n
		case "(":
			n := p.n("call")
			p.i++
			n.k = []*lnode{e}
			if p.k() != ")" {
				n.l = p.exprs()
			}
			p.want(")")
			e = n
		case "str", "{":
			n := p.n("call")
			n.k = []*lnode{e}
			n.l = []*lnode{p.simple()}
			e = n
		default:
			return e
		}
	}
}

// ---- abstract values -------------------------------------------------------

// lv kinds: nil bool num str | key arg | tab (reference to a table of the state) | argv keys (whole, unknown length)
// coll (elements a command returned) | elem (one element of a collection, A[0], N its offset, S the step)
// idx (loop index over A[0], S the step) | cnt (0/1 result) | int (some number) | zscore | op | acc | func | spread
type lv struct {
	K, S string
	N    float64
	A    []*lv
	node *lnode
	env  []map[string]int
}

func (v *lv) String() string {
	switch v.K {
	case "nil":
		return "nil"
	case "bool", "num":
		if v.K == "bool" {
			return fmt.Sprint(v.N == 1)
		}
		return strconv.FormatFloat(v.N, 'f', -1, 64)
	case "str":
		return strconv.Quote(v.S)
	}
	var as []string
	for _, a := range v.A {
		as = append(as, a.String())
	}
	s := v.K
	if v.S != "" {
		s += ":" + v.S
	}
	if v.N != 0 || v.K == "arg" || v.K == "key" || v.K == "tab" {
		s += ":" + strconv.FormatFloat(v.N, 'f', -1, 64)
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ",") + ")"
	}
	return s
}

var (
	lNil   = &lv{K: "nil"}
	lTrue  = &lv{K: "bool", N: 1}
	lFalse = &lv{K: "bool"}
)

func lNum(n float64) *lv { return &lv{K: "num", N: n} }
func lStr(s string) *lv  { return &lv{K: "str", S: s} }

// an item of a table: one value, or the values added in each round of a loop
type litem struct {
	v    *lv
	each *leach
}

type lalt struct {
	conds map[string]bool
	effs  []*leff
	items []litem
	sig   string
}

type leach struct {
	coll    *lv
	step    int
	alts    []*lalt
	partial bool
	line    int
}

type leff struct {
	cmd  string
	key  *lv
	args []*lv
	res  string
	line int
	each *leach
	seq  int
}

type lstate struct {
	env    []map[string]int
	cells  []*lv
	tabs   [][]litem
	conds  map[string]bool
	effs   []*leff
	nres   int
	failed bool
}

func (s *lstate) clone() *lstate {
	n := &lstate{nres: s.nres, failed: s.failed}
	for _, m := range s.env {
		c := map[string]int{}
		for k, v := range m {
			c[k] = v
		}
		n.env = append(n.env, c)
	}
	n.cells = append([]*lv(nil), s.cells...)
	for _, t := range s.tabs {
		n.tabs = append(n.tabs, append([]litem(nil), t...))
	}
	n.conds = map[string]bool{}
	for k, v := range s.conds {
		n.conds[k] = v
	}
	n.effs = append([]*leff(nil), s.effs...)
	return n
}

type lout struct {
	st  *lstate
	sig string // "" break return
	ret []*lv
}

type lev struct {
	st *lstate
	v  *lv
}

type luaRun struct {
	problem []string // constructs that are not understood
	budget  int
	unpacks []lunpack
	depth   int
	condv   map[string]*lv
}

type lunpack struct {
	items []litem
	coll  *lv
	tab   *lv
	line  int
	st    *lstate
}

func (r *luaRun) bad(line int, f string, a ...any) {
	m := fmt.Sprintf("line %d: ", line) + fmt.Sprintf(f, a...)
	for _, p := range r.problem {
		if p == m {
			return
		}
	}
	r.problem = append(r.problem, m)
}

// run executes a script with nk keys and, when na >= 0, na arguments.
func (r *luaRun) run(blk []*lnode, nk, na int) []lout {
	st := &lstate{conds: map[string]bool{}}
	var ks, as []litem
	for i := 1; i <= nk; i++ {
		ks = append(ks, litem{v: &lv{K: "key", N: float64(i)}})
	}
	st.tabs = append(st.tabs, ks)
	argv := &lv{K: "argv"}
	if na >= 0 {
		for i := 1; i <= na; i++ {
			as = append(as, litem{v: &lv{K: "arg", N: float64(i)}})
		}
		st.tabs = append(st.tabs, as)
		argv = &lv{K: "tab", N: 1}
	}
	st.env = []map[string]int{{}}
	st.declare("KEYS", &lv{K: "tab", N: 0})
	st.declare("ARGV", argv)
	r.budget = 20000
	return r.block(blk, st)
}

func (s *lstate) declare(n string, v *lv) {
	s.cells = append(s.cells, v)
	s.env[len(s.env)-1][n] = len(s.cells) - 1
}

func (s *lstate) find(n string) (int, bool) {
	for i := len(s.env) - 1; i >= 0; i-- {
		if c, ok := s.env[i][n]; ok {
			return c, true
		}
	}
	return 0, false
}

func (r *luaRun) block(blk []*lnode, st *lstate) []lout {
	st.env = append(st.env, map[string]int{})
	outs := r.stmts(blk, st)
	for _, o := range outs {
		o.st.env = o.st.env[:len(o.st.env)-1]
	}
	return outs
}

func (r *luaRun) stmts(blk []*lnode, st *lstate) []lout {
	cur := []*lstate{st}
	var done []lout
	for _, n := range blk {
		var next []*lstate
		for _, s := range cur {
			r.budget--
			if r.budget < 0 {
				r.bad(n.line, "the script has too many paths")
				return done
			}
			for _, o := range r.stmt(n, s) {
				if o.sig == "" {
					next = append(next, o.st)
				} else {
					done = append(done, o)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		done = append(done, lout{st: s})
	}
	return done
}

func (r *luaRun) stmt(n *lnode, st *lstate) []lout {
	switch n.op {
	case "local":
		var outs []lout
		for _, e := range r.exprs(n.l, st) {
			for i, name := range n.strs {
				v := lNil
				if i < len(e.vs) {
					v = e.vs[i]
				}
				e.st.declare(name, v)
			}
			outs = append(outs, lout{st: e.st})
		}
		return outs
	case "localfunc":
		st.declare(n.s, lNil)
		c, _ := st.find(n.s)
		st.cells[c] = &lv{K: "func", S: fmt.Sprint(n.line), node: n.k[0], env: copyEnv(st.env)}
		return []lout{{st: st}}
	case "assign":
		var outs []lout
		for _, e := range r.exprs(n.l, st) {
			ss := []*lstate{e.st}
			for i, t := range n.k {
				v := lNil
				if i < len(e.vs) {
					v = e.vs[i]
				}
				var nx []*lstate
				for _, s := range ss {
					nx = append(nx, r.assign(t, v, s)...)
				}
				ss = nx
			}
			for _, s := range ss {
				outs = append(outs, lout{st: s})
			}
		}
		return outs
	case "call":
		var outs []lout
		for _, e := range r.exprs(n.k, st) {
			if e.st.failed {
				outs = append(outs, lout{st: e.st, sig: "return", ret: []*lv{{K: "error"}}})
				continue
			}
			outs = append(outs, lout{st: e.st})
		}
		return outs
	case "do":
		return r.block(n.body[0], st)
	case "return":
		var outs []lout
		for _, e := range r.exprs(n.k, st) {
			outs = append(outs, lout{st: e.st, sig: "return", ret: e.vs})
		}
		return outs
	case "break":
		return []lout{{st: st, sig: "break"}}
	case "if":
		cur := []*lstate{st}
		var outs []lout
		for i, c := range n.k {
			var next []*lstate
			for _, s := range cur {
				for _, e := range r.expr(c, s) {
					for _, b := range r.truth(e.st, e.v) {
						if b.v.N == 1 {
							outs = append(outs, r.block(n.body[i], b.st)...)
						} else {
							next = append(next, b.st)
						}
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			if len(n.body) > len(n.k) {
				outs = append(outs, r.block(n.body[len(n.k)], s)...)
			} else {
				outs = append(outs, lout{st: s})
			}
		}
		return outs
	case "fornum":
		var outs []lout
		for _, e := range r.exprs(n.k, st) {
			outs = append(outs, r.fornum(n, e.st, e.vs)...)
		}
		return outs
	case "forin":
		var outs []lout
		if n.k[0].op == "call" && len(n.k[0].l) == 1 && n.k[0].k[0].op == "name" && (n.k[0].k[0].s == "ipairs" || n.k[0].k[0].s == "pairs") {
			for _, e := range r.expr(n.k[0].l[0], st) {
				outs = append(outs, r.over(n, e.st, e.v)...)
			}
			return outs
		}
		r.bad(n.line, "a for loop over something other than ipairs or pairs of a list")
		return []lout{{st: st}}
	}
	r.bad(n.line, "statement %s", n.op)
	return []lout{{st: st}}
}

func copyEnv(e []map[string]int) []map[string]int {
	var out []map[string]int
	for _, m := range e {
		c := map[string]int{}
		for k, v := range m {
			c[k] = v
		}
		out = append(out, c)
	}
	return out
}

func (r *luaRun) assign(t *lnode, v *lv, st *lstate) []*lstate {
	switch t.op {
	case "name":
		if c, ok := st.find(t.s); ok {
			st.cells[c] = v
		} else {
			st.cells = append(st.cells, v)
			st.env[0][t.s] = len(st.cells) - 1
		}
		return []*lstate{st}
	case "index":
		var out []*lstate
		for _, e := range r.exprs(t.k, st) {
			tab, k := e.vs[0], e.vs[1]
			if tab.K == "tab" {
				// t[#t+1] = v
				if n, ok := r.exact(e.st, tab); ok && k.K == "num" && int(k.N) == n+1 {
					e.st.tabs[int(tab.N)] = append(e.st.tabs[int(tab.N)], litem{v: v})
				} else if k.K == "op" && k.S == "+" && k.A[0].K == "len" && k.A[0].A[0].String() == tab.String() && k.A[1].K == "num" && k.A[1].N == 1 {
					e.st.tabs[int(tab.N)] = append(e.st.tabs[int(tab.N)], litem{v: v})
				} else {
					r.bad(t.line, "a table entry other than the next one is assigned")
				}
			} else {
				r.bad(t.line, "an entry of something that is no local table is assigned")
			}
			out = append(out, e.st)
		}
		return out
	}
	r.bad(t.line, "assignment")
	return []*lstate{st}
}

// exact: the number of items of a table, when known
func (r *luaRun) exact(st *lstate, t *lv) (int, bool) {
	if t.K != "tab" {
		return 0, false
	}
	n := 0
	for _, it := range st.tabs[int(t.N)] {
		if it.each != nil {
			return 0, false
		}
		n++
	}
	return n, true
}

type levs struct {
	st *lstate
	vs []*lv
}

func (r *luaRun) exprs(ns []*lnode, st *lstate) []levs {
	cur := []levs{{st: st}}
	for i, n := range ns {
		var next []levs
		for _, c := range cur {
			for _, e := range r.multi(n, c.st, i == len(ns)-1) {
				next = append(next, levs{e.st, append(append([]*lv(nil), c.vs...), e.vs...)})
			}
		}
		cur = next
	}
	return cur
}

// multi evaluates an expression that may yield several values.
func (r *luaRun) multi(n *lnode, st *lstate, last bool) []levs {
	if last && n.op == "call" && n.k[0].op == "name" && n.k[0].s == "unpack" || last && n.op == "call" && n.k[0].op == "index" && n.k[0].k[1].s == "unpack" {
		var out []levs
		for _, e := range r.exprs(n.l, st) {
			if len(e.vs) != 1 {
				r.bad(n.line, "unpack with bounds")
				out = append(out, levs{e.st, nil})
				continue
			}
			t := e.vs[0]
			if t.K == "tab" {
				items := e.st.tabs[int(t.N)]
				if k, ok := r.exact(e.st, t); ok {
					r.unpacks = append(r.unpacks, lunpack{tab: t, items: items, line: n.line, st: e.st})
					var vs []*lv
					for i := 0; i < k; i++ {
						vs = append(vs, items[i].v)
					}
					out = append(out, levs{e.st, vs})
					continue
				}
				r.unpacks = append(r.unpacks, lunpack{tab: t, items: append([]litem(nil), items...), line: n.line, st: e.st})
				sp := &lv{K: "spread", A: []*lv{t}}
				out = append(out, levs{e.st, []*lv{sp}})
				continue
			}
			r.unpacks = append(r.unpacks, lunpack{coll: t, line: n.line, st: e.st})
			if t.K != "coll" && t.K != "argv" {
				r.bad(n.line, "unpack of %s", t)
			}
			out = append(out, levs{e.st, []*lv{{K: "spread", A: []*lv{t}}}})
		}
		return out
	}
	if last && n.op == "call" {
		return r.call(n, st)
	}
	var out []levs
	for _, e := range r.expr(n, st) {
		out = append(out, levs{e.st, []*lv{e.v}})
	}
	return out
}

func (r *luaRun) expr(n *lnode, st *lstate) []lev {
	one := func(v *lv) []lev { return []lev{{st, v}} }
	switch n.op {
	case "nil":
		return one(lNil)
	case "true":
		return one(lTrue)
	case "false":
		return one(lFalse)
	case "num":
		f, err := strconv.ParseFloat(n.s, 64)
		if err != nil {
			i, _ := strconv.ParseInt(n.s, 0, 64)
			f = float64(i)
		}
		return one(lNum(f))
	case "str":
		return one(lStr(n.s))
	case "paren":
		return r.expr(n.k[0], st)
	case "name":
		if c, ok := st.find(n.s); ok {
			return one(st.cells[c])
		}
		return one(&lv{K: "lib", S: n.s})
	case "func":
		return one(&lv{K: "func", S: fmt.Sprint(n.line), node: n, env: copyEnv(st.env)})
	case "table":
		var out []lev
		for _, k := range n.k {
			if k != nil {
				r.bad(n.line, "a table with named entries")
				return one(&lv{K: "unknown"})
			}
		}
		for _, e := range r.exprs(n.l, st) {
			var items []litem
			for _, v := range e.vs {
				if v.K == "spread" {
					if v.A[0].K == "tab" {
						items = append(items, e.st.tabs[int(v.A[0].N)]...)
					} else {
						items = append(items, litem{each: &leach{coll: v.A[0], step: 1, alts: []*lalt{{items: []litem{{v: &lv{K: "elem", A: []*lv{v.A[0]}, S: "1"}}}}}}})
					}
					continue
				}
				items = append(items, litem{v: v})
			}
			e.st.tabs = append(e.st.tabs, items)
			out = append(out, lev{e.st, &lv{K: "tab", N: float64(len(e.st.tabs) - 1)}})
		}
		return out
	case "index":
		var out []lev
		for _, e := range r.exprs(n.k, st) {
			out = append(out, lev{e.st, r.index(n, e.st, e.vs[0], e.vs[1])})
		}
		return out
	case "call":
		var out []lev
		for _, e := range r.call(n, st) {
			v := lNil
			if len(e.vs) > 0 {
				v = e.vs[0]
			}
			out = append(out, lev{e.st, v})
		}
		return out
	case "un":
		var out []lev
		for _, e := range r.expr(n.k[0], st) {
			switch n.s {
			case "not":
				for _, b := range r.truth(e.st, e.v) {
					v := lTrue
					if b.v.N == 1 {
						v = lFalse
					}
					out = append(out, lev{b.st, v})
				}
			case "#":
				out = append(out, lev{e.st, r.length(e.st, e.v)})
			default:
				if e.v.K == "num" {
					out = append(out, lev{e.st, lNum(-e.v.N)})
				} else {
					out = append(out, lev{e.st, &lv{K: "op", S: "neg", A: []*lv{e.v}}})
				}
			}
		}
		return out
	case "bin":
		if n.s == "and" || n.s == "or" {
			var out []lev
			for _, e := range r.expr(n.k[0], st) {
				for _, b := range r.truth(e.st, e.v) {
					if (b.v.N == 1) == (n.s == "or") {
						v := e.v
						if v.K == "cond" {
							v = b.v
						}
						out = append(out, lev{b.st, v})
						continue
					}
					out = append(out, r.expr(n.k[1], b.st)...)
				}
			}
			return out
		}
		var out []lev
		for _, a := range r.expr(n.k[0], st) {
			for _, b := range r.expr(n.k[1], a.st) {
				out = append(out, lev{b.st, r.binop(b.st, n.s, a.v, b.v)})
			}
		}
		return out
	}
	r.bad(n.line, "expression %s", n.op)
	return one(&lv{K: "unknown"})
}

func (r *luaRun) length(st *lstate, v *lv) *lv {
	if n, ok := r.exact(st, v); ok {
		return lNum(float64(n))
	}
	if v.K == "str" {
		return lNum(float64(len(v.S)))
	}
	return &lv{K: "len", A: []*lv{v}}
}

func (r *luaRun) index(n *lnode, st *lstate, t, k *lv) *lv {
	off := 0.0
	i := k
	if k.K == "op" && (k.S == "+" || k.S == "-") && k.A[1].K == "num" {
		i, off = k.A[0], k.A[1].N
		if k.S == "-" {
			off = -off
		}
	}
	switch {
	case t.K == "lib":
		return &lv{K: "lib", S: t.S + "." + k.S}
	case t.K == "tab" && k.K == "num":
		items := st.tabs[int(t.N)]
		if _, ok := r.exact(st, t); ok {
			if k.N >= 1 && int(k.N) <= len(items) {
				return items[int(k.N)-1].v
			}
			return lNil
		}
		return &lv{K: "elem", A: []*lv{t}, S: "at", N: k.N}
	case (t.K == "argv" || t.K == "coll") && k.K == "num":
		if t.K == "argv" {
			return &lv{K: "arg", N: k.N}
		}
		return &lv{K: "elem", A: []*lv{t}, S: "at", N: k.N}
	case i.K == "idx" && i.A[0].String() == t.String():
		return &lv{K: "elem", A: []*lv{t}, S: i.S, N: off}
	}
	r.bad(n.line, "entry %s of %s", k, t)
	return &lv{K: "unknown"}
}

func lbool(b bool) *lv {
	if b {
		return lTrue
	}
	return lFalse
}

func cmpNum(op string, a, b float64) bool {
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	case "==":
		return a == b
	}
	return a != b
}

func (r *luaRun) binop(st *lstate, op string, a, b *lv) *lv {
	flip := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "~=": "~="}
	if f, ok := flip[op]; ok {
		// constants on the right
		if a.K == "num" && b.K != "num" || a.K == "nil" || a.K == "bool" || a.K == "str" && b.K != "str" {
			a, b, op = b, a, f
		}
		switch {
		case a.K == "num" && b.K == "num":
			return lbool(cmpNum(op, a.N, b.N))
		case (op == "==" || op == "~=") && (b.K == "nil" || b.K == "bool" || b.K == "str") && (a.K == "nil" || a.K == "bool" || a.K == "str" || a.K == "num" || a.K == "tab"):
			return lbool((a.K == b.K && a.S == b.S && a.N == b.N) == (op == "=="))
		case (op == "==" || op == "~=") && b.K == "nil":
			switch a.K {
			case "zscore": // a missing member is false, never nil
				return lbool(op == "~=")
			case "next":
				return &lv{K: "cond", S: "empty:" + a.A[0].String(), N: bN(op == "==")}
			case "elem":
				if a.S == "at" && a.N == 1 {
					return &lv{K: "cond", S: "empty:" + a.A[0].String(), N: bN(op == "==")}
				}
				return lbool(op != "==")
			case "arg", "key", "coll", "argv", "cnt", "int", "len":
				return lbool(op != "==")
			}
		case (op == "==" || op == "~=") && b.K == "bool" && a.K == "zscore":
			if b.N == 1 {
				return lbool(op == "~=")
			}
			return &lv{K: "cond", S: "has:" + a.S, N: bN(op == "~=")}
		case b.K == "num" && a.K == "cnt":
			x, y := cmpNum(op, 0, b.N), cmpNum(op, 1, b.N)
			if x == y {
				return lbool(x)
			}
			return &lv{K: "cond", S: "hit:" + a.S, N: bN(y)}
		case b.K == "num" && a.K == "len":
			x, y, z := cmpNum(op, 0, b.N), cmpNum(op, 1, b.N), cmpNum(op, 2, b.N)
			if y == z && x == y && b.N < 2 {
				return lbool(x)
			}
			if y == z && b.N < 2 {
				return &lv{K: "cond", S: "empty:" + a.A[0].String(), N: bN(x)}
			}
		}
		n := 1.0
		if op == "~=" {
			op, n = "==", 0
		}
		return &lv{K: "cond", S: op + ":" + a.String() + ":" + b.String(), N: n, A: []*lv{a, b}}
	}
	if a.K == "num" && b.K == "num" {
		switch op {
		case "+":
			return lNum(a.N + b.N)
		case "-":
			return lNum(a.N - b.N)
		case "*":
			return lNum(a.N * b.N)
		}
	}
	if op == ".." && a.K == "str" && b.K == "str" {
		return lStr(a.S + b.S)
	}
	if op == "+" && a.K == "num" {
		a, b = b, a
	}
	if (op == "+" || op == "-") && b.K == "num" && a.K == "op" && (a.S == "+" || a.S == "-") && a.A[1].K == "num" {
		x, y := a.A[1].N, b.N
		if a.S == "-" {
			x = -x
		}
		if op == "-" {
			y = -y
		}
		if x+y == 0 {
			return a.A[0]
		}
		return &lv{K: "op", S: "+", A: []*lv{a.A[0], lNum(x + y)}}
	}
	return &lv{K: "op", S: op, A: []*lv{a, b}}
}

func bN(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// truth forks on a condition.
func (r *luaRun) truth(st *lstate, v *lv) []lev {
	fork := func(k string, pos bool) []lev {
		if b, ok := st.conds[k]; ok {
			return []lev{{st, lbool(b == pos)}}
		}
		t := st.clone()
		t.conds[k] = true
		st.conds[k] = false
		return []lev{{t, lbool(pos)}, {st, lbool(!pos)}}
	}
	switch v.K {
	case "nil":
		return []lev{{st, lFalse}}
	case "bool":
		return []lev{{st, v}}
	case "cond":
		if r.condv == nil {
			r.condv = map[string]*lv{}
		}
		r.condv[v.S] = v
		return fork(v.S, v.N == 1)
	case "zscore":
		return fork("has:"+v.S, true)
	case "next":
		return fork("empty:"+v.A[0].String(), false)
	case "elem":
		if v.S == "at" && v.N == 1 {
			return fork("empty:"+v.A[0].String(), false)
		}
	case "acc", "unknown", "any":
		return fork("any:"+v.String(), true)
	}
	return []lev{{st, lTrue}}
}

func (r *luaRun) call(n *lnode, st *lstate) []levs {
	if n.k[0].op == "name" && n.k[0].s == "unpack" {
		r.bad(n.line, "unpack that is not the last value of a list")
	}
	var out []levs
	for _, f := range r.expr(n.k[0], st) {
		for _, e := range r.exprs(n.l, f.st) {
			out = append(out, r.apply(n, e.st, f.v, e.vs)...)
		}
	}
	return out
}

func (r *luaRun) apply(n *lnode, st *lstate, f *lv, args []*lv) []levs {
	ret := func(vs ...*lv) []levs { return []levs{{st, vs}} }
	arg := func(i int) *lv {
		if i < len(args) {
			return args[i]
		}
		return lNil
	}
	if f.K == "func" {
		if r.depth > 6 {
			r.bad(n.line, "recursion")
			return ret(&lv{K: "unknown"})
		}
		r.depth++
		defer func() { r.depth-- }()
		save := st.env
		st.env = append(copyEnv(f.env), map[string]int{})
		for i, p := range f.node.strs {
			st.declare(p, arg(i))
		}
		var out []levs
		for _, o := range r.stmts(f.node.body[0], st) {
			o.st.env = copyEnv(save)
			out = append(out, levs{o.st, o.ret})
		}
		return out
	}
	if f.K != "lib" {
		r.bad(n.line, "call of %s", f)
		return ret(&lv{K: "unknown"})
	}
	switch f.S {
	case "redis.call", "redis.pcall":
		return r.redis(n, st, args)
	case "tostring", "tonumber":
		if a := arg(0); a.K == "num" && f.S == "tostring" {
			return ret(lStr(a.String()))
		} else if a.K == "str" && f.S == "tonumber" {
			if x, err := strconv.ParseFloat(a.S, 64); err == nil {
				return ret(lNum(x))
			}
		}
		return ret(arg(0))
	case "table.insert":
		if len(args) == 2 && args[0].K == "tab" {
			t := int(args[0].N)
			st.tabs[t] = append(append([]litem(nil), st.tabs[t]...), litem{v: args[1]})
			return ret()
		}
		r.bad(n.line, "table.insert at a position")
		return ret()
	case "table.getn":
		return ret(r.length(st, arg(0)))
	case "next":
		a := arg(0)
		if k, ok := r.exact(st, a); ok {
			if k == 0 {
				return ret(lNil)
			}
			return ret(lNum(1))
		}
		return ret(&lv{K: "next", A: []*lv{a}})
	case "error", "redis.error_reply":
		st.failed = true
		return ret(&lv{K: "error"})
	case "redis.status_reply", "redis.log", "redis.replicate_commands", "redis.breakpoint", "redis.debug":
		return ret(arg(0))
	case "type":
		return ret(&lv{K: "any", S: "type", A: args})
	}
	if strings.HasPrefix(f.S, "math.") || strings.HasPrefix(f.S, "string.") {
		return ret(&lv{K: "op", S: f.S, A: args})
	}
	r.bad(n.line, "call of %s", f.S)
	return ret(&lv{K: "unknown"})
}

func (r *luaRun) redis(n *lnode, st *lstate, args []*lv) []levs {
	if len(args) < 1 || args[0].K != "str" {
		r.bad(n.line, "a Redis command whose name is not constant")
		return []levs{{st, []*lv{{K: "unknown"}}}}
	}
	st.nres++
	e := &leff{cmd: strings.ToUpper(args[0].S), line: n.line, res: fmt.Sprintf("%d@%d", st.nres, n.line), seq: st.nres}
	if len(args) > 1 {
		e.key = args[1]
		e.args = args[2:]
	}
	st.effs = append(st.effs, e)
	single := true
	for _, a := range e.args {
		single = single && a.K != "spread"
	}
	var v *lv
	switch e.cmd {
	case "ZREM":
		v = &lv{K: "int", S: e.res}
		if single && len(e.args) == 1 {
			v.K = "cnt"
		}
	case "ZADD":
		v = &lv{K: "int", S: e.res}
		if single && len(e.args) == 2 {
			v.K = "cnt"
		}
	case "ZSCORE":
		// the answer is the same until the set changes
		id := "?"
		if len(e.args) == 1 {
			id = e.key.String() + "|" + e.args[0].String()
		}
		gen := 0
		for _, x := range st.effs {
			if x.key != nil && x.key.String() == e.key.String() && (x.cmd == "ZADD" || x.cmd == "ZREM" || x.cmd == "DEL" || x.cmd == "ZINCRBY") {
				gen++
			}
		}
		v = &lv{K: "zscore", S: fmt.Sprintf("%s|%d", id, gen)}
	case "ZRANGE", "ZREVRANGE", "ZRANGEBYSCORE", "ZREVRANGEBYSCORE":
		v = &lv{K: "coll", S: e.res}
	default:
		v = &lv{K: "any", S: e.res}
	}
	return []levs{{st, []*lv{v}}}
}

// ---- loops -----------------------------------------------------------------

func (r *luaRun) fornum(n *lnode, st *lstate, vs []*lv) []lout {
	if len(vs) < 2 {
		r.bad(n.line, "for")
		return []lout{{st: st}}
	}
	step := 1.0
	if len(vs) > 2 {
		if vs[2].K != "num" || vs[2].N == 0 {
			r.bad(n.line, "a for loop with an unknown step")
			return []lout{{st: st}}
		}
		step = vs[2].N
	}
	if vs[0].K == "num" && vs[1].K == "num" {
		var vals []*lv
		for x := vs[0].N; step > 0 && x <= vs[1].N || step < 0 && x >= vs[1].N; x += step {
			vals = append(vals, lNum(x))
			if len(vals) > 64 {
				r.bad(n.line, "a for loop with many rounds")
				return []lout{{st: st}}
			}
		}
		return r.unroll(n, st, vals, func(s *lstate, v *lv) { s.declare(n.strs[0], v) })
	}
	if vs[0].K == "num" && vs[0].N == 1 && vs[1].K == "len" && step > 0 {
		c := vs[1].A[0]
		return r.generic(n, st, c, int(step), nil, func(s *lstate) {
			s.declare(n.strs[0], &lv{K: "idx", A: []*lv{c}, S: fmt.Sprint(step)})
		})
	}
	r.bad(n.line, "a for loop whose bounds are not understood")
	return []lout{{st: st}}
}

func (r *luaRun) over(n *lnode, st *lstate, c *lv) []lout {
	bind := func(s *lstate, k, v *lv) {
		s.declare(n.strs[0], k)
		if len(n.strs) > 1 {
			s.declare(n.strs[1], v)
		}
	}
	if _, ok := r.exact(st, c); ok {
		var vals []*lv
		for _, it := range st.tabs[int(c.N)] {
			vals = append(vals, it.v)
		}
		i := 0
		return r.unroll(n, st, vals, func(s *lstate, v *lv) { i++; bind(s, lNum(float64(i)), v) })
	}
	if c.K == "tab" && len(st.tabs[int(c.N)]) == 1 {
		// a list filled in a loop: its elements come from the rounds that added one
		each := st.tabs[int(c.N)][0].each
		var from []*lalt
		for _, a := range each.alts {
			if len(a.items) > 0 {
				from = append(from, a)
			}
		}
		if len(from) == 1 && len(from[0].items) == 1 && from[0].items[0].v != nil && !each.partial {
			a := from[0]
			return r.generic(n, st, each.coll, each.step, a.conds, func(s *lstate) {
				bind(s, &lv{K: "any", S: "i"}, a.items[0].v)
			})
		}
	}
	if c.K != "coll" && c.K != "argv" {
		r.bad(n.line, "a loop over %s", c)
		return []lout{{st: st}}
	}
	return r.generic(n, st, c, 1, nil, func(s *lstate) {
		bind(s, &lv{K: "idx", A: []*lv{c}, S: "1"}, &lv{K: "elem", A: []*lv{c}, S: "1"})
	})
}

func (r *luaRun) unroll(n *lnode, st *lstate, vals []*lv, bind func(s *lstate, v *lv)) []lout {
	cur := []*lstate{st}
	var done []lout
	for _, v := range vals {
		var next []*lstate
		for _, s := range cur {
			s.env = append(s.env, map[string]int{})
			save := *r
			_ = save
			bind(s, v)
			for _, o := range r.block(n.body[0], s) {
				o.st.env = o.st.env[:len(o.st.env)-1]
				switch o.sig {
				case "":
					next = append(next, o.st)
				case "break":
					done = append(done, lout{st: o.st})
				default:
					done = append(done, o)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		done = append(done, lout{st: s})
	}
	return done
}

// generic runs the body once, for any element.
func (r *luaRun) generic(n *lnode, st *lstate, c *lv, step int, pre map[string]bool, bind func(s *lstate)) []lout {
	in := st.clone()
	in.effs = nil
	for k, v := range pre {
		in.conds[k] = v
	}
	in.env = append(in.env, map[string]int{})
	bind(in)
	base := len(in.cells)
	start := in.clone()
	outs := r.block(n.body[0], in)
	each := &leach{coll: c, step: step, line: n.line}
	added := map[int]*leach{}
	changed := map[int]bool{}
	var early []lout
	for _, o := range outs {
		a := &lalt{conds: map[string]bool{}, effs: o.st.effs, sig: o.sig}
		for k, v := range o.st.conds {
			if _, ok := st.conds[k]; !ok {
				a.conds[k] = v
			}
		}
		if o.sig == "break" {
			each.partial = true
		}
		if o.sig == "return" {
			s := st.clone()
			for k, v := range a.conds {
				s.conds[k] = v
			}
			s.effs = append(s.effs, &leff{each: &leach{coll: c, step: step, alts: []*lalt{a}, partial: true}, line: n.line})
			early = append(early, lout{st: s, sig: "return", ret: o.ret})
			each.partial = each.partial || false
			continue
		}
		each.alts = append(each.alts, a)
		for i := range start.cells[:base] {
			if i < len(o.st.cells) && o.st.cells[i].String() != start.cells[i].String() {
				changed[i] = true
			}
		}
	}
	// what each round adds to tables made before the loop
	for t := range st.tabs {
		any := false
		var alts []*lalt
		for _, o := range outs {
			if o.sig == "return" {
				continue
			}
			x := o.st.tabs[t]
			conds := map[string]bool{}
			for k, v := range o.st.conds {
				if _, ok := st.conds[k]; !ok {
					conds[k] = v
				}
			}
			al := &lalt{conds: conds, items: append([]litem(nil), x[len(st.tabs[t]):]...)}
			any = any || len(al.items) > 0
			alts = append(alts, al)
		}
		if any {
			added[t] = &leach{coll: c, step: step, alts: alts, partial: each.partial, line: n.line}
		}
	}
	// rounds that have no effect are kept: they tell that an element may be passed over
	st.effs = append(st.effs, &leff{each: each, line: n.line})
	for t, x := range added {
		st.tabs[t] = append(append([]litem(nil), st.tabs[t]...), litem{each: x})
	}
	var ids []int
	for i := range changed {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		if i < len(st.cells) {
			st.cells[i] = &lv{K: "acc", S: fmt.Sprintf("%d@%d", i, n.line)}
		}
	}
	for _, o := range outs {
		if o.st.nres > st.nres {
			st.nres = o.st.nres
		}
	}
	return append(early, lout{st: st})
}
