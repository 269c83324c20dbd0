package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The in-memory storage: which map entry an operation touches (C33), the fields it leaves in the
// stored message (C34, C35) and the messages it returns (C36).

type memDocs struct {
	t     types.Type
	field string // the map of the stored messages
	elem  types.Type
	kt    types.Type
}

func (c *Ctx) memDocsOf() []*memDocs {
	var out []*memDocs
	for _, t := range c.memImpls() {
		if c.P.methodOf(t, "Ack") == nil {
			continue
		}
		s := structOf(t.(*types.Pointer).Elem())
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && strings.HasSuffix(strings.TrimPrefix(m.Elem().String(), "*"), "message.Message") {
				out = append(out, &memDocs{t: t, field: s.Field(i).Name(), elem: m.Elem(), kt: m.Key()})
			}
		}
	}
	return out
}

func (d *memDocs) is(m *Term) bool { return m != nil && Canon(strip(m)) == "$0."+d.field }

// keyParts names the queue and the id an identity is made of; why says what makes two messages share one.
func keyParts(e *Engine, st *State, k *Term) (queue, id, why string) {
	k = stripConv(unbox(k))
	if k.Op == "structv" {
		for i, n := range strings.Split(k.Str, ";") {
			if strings.EqualFold(n, "queue") && i < len(k.Args) {
				queue = Canon(stripConv(k.Args[i]))
			}
			if strings.EqualFold(n, "id") && i < len(k.Args) {
				id = Canon(stripConv(k.Args[i]))
			}
		}
		if queue == "" || id == "" {
			for _, a := range k.Args {
				if s := Canon(stripConv(a)); strings.HasSuffix(s, ".Queue") || s == "$2" {
					queue = s
				} else if strings.HasSuffix(s, ".ID") || s == "$3[*]" {
					id = s
				}
			}
		}
		if queue == "" || id == "" {
			return queue, id, "the identity lacks the queue or the id"
		}
		return queue, id, ""
	}
	var ps []*Term
	switch {
	case k.Op == "concat":
		for _, a := range k.Args {
			ps = append(ps, stripConv(a))
		}
	case k.Op == "call" && strings.HasSuffix(k.Str, "fmt.Sprintf"):
		f, ok := k.Args[0].StrVal()
		if !ok {
			return "", "", "the identity is " + Canon(k)
		}
		args := e.Elems(st, k.Args[len(k.Args)-1])
		if l := strip(k.Args[len(k.Args)-1]); l.Op == "list" {
			args = l.Args
		}
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				j := i
				for j < len(f) && f[j] != '%' {
					j++
				}
				ps = append(ps, e.T.S(f[i:j]))
				i = j - 1
				continue
			}
			i++
			if i >= len(f) || n >= len(args) {
				return "", "", "the identity is " + Canon(k)
			}
			a := stripConv(unbox(args[n]))
			n++
			if f[i] == 'q' {
				a = e.T.mk("call", "strconv.Quote", types.Typ[types.String], a)
			}
			ps = append(ps, a)
		}
	default:
		ps = []*Term{k}
	}
	qi, ii, qw, li := -1, -1, "", -1
	for i, p := range ps {
		x, wrap := p, ""
		if p.Op == "len" {
			wrap = "len"
			x = stripConv(p.Args[0])
		}
		for x.Op == "call" || x.Op == "nf" {
			if x.Op == "call" {
				n := x.Str
				if i := strings.LastIndexByte(n, '/'); i >= 0 {
					n = n[i+1:]
				}
				wrap += n + " "
			}
			if len(x.Args) == 0 {
				break
			}
			y := stripConv(x.Args[len(x.Args)-1])
			for _, a := range x.Args {
				if a := stripConv(a); strings.HasSuffix(Canon(a), ".Queue") || strings.HasSuffix(Canon(a), ".ID") || a.Op == "len" || a.Op == "call" || strings.HasPrefix(Canon(a), "$") {
					y = a
					break
				}
			}
			if y.Op == "len" {
				wrap += "len"
				y = stripConv(y.Args[0])
			}
			x = y
		}
		s := Canon(x)
		switch {
		case strings.HasSuffix(s, ".Queue") || s == "$2":
			if strings.Contains(wrap, "len") {
				if li < 0 {
					li = i
				}
				continue
			}
			queue, qi, qw = s, i, wrap
		case strings.HasSuffix(s, ".ID") || s == "$3[*]":
			if wrap != "" && !strings.Contains(wrap, "len") && !strings.Contains(wrap, "Quote") && !strings.Contains(wrap, "Encode") && !strings.Contains(wrap, "Escape") {
				return queue, s, "the identity holds " + Canon(p) + " instead of the id"
			}
			id, ii = s, i
		}
	}
	if qi < 0 || ii < 0 {
		return queue, id, "the identity " + Canon(k) + " lacks the queue or the id"
	}
	sep := func(i int, bad string) bool {
		if i < 0 || i >= len(ps) {
			return false
		}
		s, ok := ps[i].StrVal()
		return ok && s != "" && !strings.ContainsRune(bad, rune(s[0]))
	}
	const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	switch {
	case qi > ii:
		return queue, id, "the identity " + Canon(k) + " has the id first: two messages may share it"
	case li >= 0 && li < qi && sep(li+1, "0123456789") && qi == li+2:
	case strings.Contains(qw, "strconv.Quote"):
	case strings.Contains(qw, "Encode") && sep(qi+1, alnum+"+/=-_"):
	case strings.Contains(qw, "Escape") && sep(qi+1, alnum+"%+-_.~$&=:@"):
	default:
		return queue, id, "two messages of different queues may share the identity " + Canon(k)
	}
	return queue, id, ""
}

func (c *Ctx) memKeys() {
	for _, d := range c.memDocsOf() {
		d := d
		for _, m := range c.ifaceMethods(storePkg, "Storage") {
			fn := c.P.methodOf(d.t, m)
			if fn == nil {
				continue
			}
			seen := 0
			key := func(e *Engine, st *State, k *Term, where, what string) {
				seen++
				kk := stripConv(unbox(k))
				if kk.Op == "opq" || st.facts[e.T.mk("rkey", "", nil, kk, kk)].B == 1 {
					// the key of an entry the operation iterates over: the path must compare the message
					if m != "Remove" {
						c.Expect(m != "Ack" && m != "Nack" && m != "Insert", "memory-touches-the-exact-message", m, where, "%s of the in-memory storage %s some stored message (%s)", m, what, e.trailStr(st))
						return
					}
					q, id := false, false
					for t, f := range st.facts {
						if f.B != 1 || t.Op != "eq" {
							continue
						}
						s := [2]string{Canon(stripConv(t.Args[0])), Canon(stripConv(t.Args[1]))}
						for i := 0; i < 2; i++ {
							a, b := s[i], s[1-i]
							if t.Args[i].hasRoot(kk) {
								q = q || strings.HasSuffix(a, ".Queue") && b == "$2"
								id = id || strings.HasSuffix(a, ".ID") && b == "$3[*]"
							}
						}
					}
					for t, f := range st.facts {
						if ci := callOf(st, e, t); f.B == 1 && ci != nil && strings.HasPrefix(ci.Str, "slices.Contains") && len(ci.Args) == 2 && Canon(stripConv(ci.Args[0])) == "$3" && ci.Args[1].hasRoot(kk) && strings.HasSuffix(Canon(stripConv(ci.Args[1])), ".ID") {
							id = true
						}
					}
					if !id {
						id = hasId(e, st, kk)
					}
					c.Expect(q && id, "memory-touches-the-exact-message", m, where, "%s of the in-memory storage %s a message whose queue or id need not be a requested one (%s)", m, what, e.trailStr(st))
					return
				}
				q, id, why := keyParts(e, st, k)
				if why != "" {
					c.Bad("memory-identity-is-unique:"+m, where, "%s of the in-memory storage: %s", m, why)
					return
				}
				c.OK("memory-identity-is-unique", m)
				ok := true
				switch m {
				case "Ack", "Nack":
					ok = q == "$2.Queue" && id == "$2.ID"
				case "Insert":
					ok = q == "$2[*].Queue" && id == "$2[*].ID"
				case "Remove":
					ok = q == "$2" && id == "$3[*]"
				}
				c.Expect(ok, "memory-touches-the-exact-message", m, where, "%s of the in-memory storage %s the message with queue %s and id %s", m, what, q, id)
			}
			reads := m != "Ack" && m != "Nack" && m != "Insert" && m != "Remove"
			c.Explore(fn, &Opts{
				Opaque: copier, Shallow: reads, Coarse: reads, NoElems: reads, DropOld: reads,
				OnMap: func(e *Engine, st *State, kind string, mm, k, v *Term, site ssa.Instruction) {
					if !d.is(mm) {
						return
					}
					where := c.at(site)
					switch kind {
					case "lookup":
						if m == "Ack" || m == "Nack" || m == "Insert" {
							key(e, st, k, where, "reads")
						}
					case "update":
						c.Expect(m == "Insert" || m == "Ack" || m == "Nack", "memory-changes-only-where-documented", m, where, "%s of the in-memory storage stores a message", m)
						key(e, st, k, where, "writes")
					case "delete":
						c.Expect(m == "Remove" || m == "Flush", "deletions-only-in-remove-and-flush", "memory."+m, where, "%s of the in-memory storage deletes a message", m)
						if m == "Remove" {
							key(e, st, k, where, "deletes")
						}
					case "clear":
						c.Expect(m == "Flush", "deletions-only-in-remove-and-flush", "memory."+m, where, "%s of the in-memory storage deletes every message", m)
					}
				},
				OnStore: func(e *Engine, st *State, a, v *Term, site ssa.Instruction) {
					if Canon(a) == "$0."+d.field {
						c.Expect(m == "Flush", "deletions-only-in-remove-and-flush", "memory."+m, c.at(site), "%s of the in-memory storage replaces all messages", m)
					}
				}}, nil)
			if seen == 0 && (m == "Ack" || m == "Nack" || m == "Insert" || m == "Remove") {
				c.Bad("anchor:memory."+m, c.P.Pos(fn.Pos()), "%s of the in-memory storage touches no message", m)
			}
		}
	}
}

// hasId: a set made of the requested ids holds the id of the message under the key.
func hasId(e *Engine, st *State, k *Term) bool {
	for t, f := range st.facts {
		if t.Op != "has" || f.B != 1 || !t.Args[0].Local || !strings.HasSuffix(Canon(t.Args[1]), ".ID") || !t.Args[1].hasRoot(k) {
			continue
		}
		ok := false
		for _, kk := range e.mapKeys(st, t.Args[0]) {
			ok = Canon(kk) == "$3[*]"
			if !ok {
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// copier: a function from a message to a message, taken as an unknown copy.
func copier(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 {
		return false
	}
	is := func(t types.Type) bool {
		return strings.HasSuffix(strings.TrimPrefix(t.String(), "*"), "internal/queue/message.Message")
	}
	return is(s.Params().At(0).Type()) && is(s.Results().At(0).Type())
}

// storedDoc remembers the entry an operation on one message works on.
const docKey, docVal = "ms:key", "ms:val"

func (c *Ctx) memAck() {
	msg := c.P.Named("internal/queue/message", "Message")
	for _, d := range c.memDocsOf() {
		d := d
		for _, m := range []string{"Ack", "Nack"} {
			fn := c.P.methodOf(d.t, m)
			if fn == nil {
				continue
			}
			ms := msg.Underlying().(*types.Struct)
			set := map[string]string{"Score": "$2.Score", "LockMs": "$2.LockMs"}
			cnt := map[string]string{"Nacks": "+1", "ConsecutiveNacks": "+1", "ConsecutiveAcks": "0", "Acks": ""}
			if m == "Ack" {
				set["LastUsage"], set["LastScoreSubtract"], set["Breakpoint"] = "$2.LastUsage", "$2.LastScoreSubtract", "$2.Breakpoint"
				cnt = map[string]string{"Acks": "+1", "ConsecutiveAcks": "+1", "ConsecutiveNacks": "0", "Nacks": ""}
			}
			found := 0
			c.Explore(fn, &Opts{
				OnMap: func(e *Engine, st *State, kind string, mm, k, v *Term, site ssa.Instruction) {
					if !d.is(mm) {
						return
					}
					switch kind {
					case "lookup":
						st.mem[e.T.mk(docKey, "", nil)] = e.T.mk("lookup", "", d.elem, mm, stripKey(k))
					case "update":
						st.mem[e.T.mk(docVal, "", nil)] = v
					}
				},
				OnExit: func(e *Engine, st *State, res []*Term) {
					where := c.P.Pos(fn.Pos())
					if len(res) == 2 && e.nilness(st, res[1]) == 2 {
						return
					}
					old := st.mem[e.T.mk(docKey, "", nil)]
					if old == nil {
						c.Bad("memory-records:"+m+":lookup", where, "%s of the in-memory storage may succeed without looking the message up (%s)", m, e.trailStr(st))
						return
					}
					has := e.T.mk("has", "", types.Typ[types.Bool], old.Args[0], old.Args[1])
					if e.Truth(st, has) == 2 || e.nilness(st, old) == 1 {
						return
					}
					found++
					cur := old
					if v := st.mem[e.T.mk(docVal, "", nil)]; v != nil {
						cur = v
					}
					for i := 0; i < ms.NumFields(); i++ {
						f := ms.Field(i)
						if f.Name() == "Diagnostics" {
							continue
						}
						got := Canon(stripConv(e.Load(st, e.fa(cur, f.Name(), f.Type()), f.Type())))
						was := Canon(old) + "." + f.Name()
						want := []string{was}
						if w := set[f.Name()]; w != "" {
							want = []string{w}
						} else if m == "Ack" && f.Name() == "UsageCount" {
							want = []string{"(" + was + "+1)", "(1+" + was + ")"}
						} else if m == "Ack" && f.Name() == "TotalScoreSubtract" {
							want = []string{"(" + was + "+$2.LastScoreSubtract)", "($2.LastScoreSubtract+" + was + ")"}
						}
						ok := false
						for _, w := range want {
							ok = ok || got == w
						}
						c.Expect(ok, "memory-records", m+":"+f.Name(), where, "%s of the in-memory storage leaves %s = %s in the stored message, expected %s (%s)", m, f.Name(), got, want[0], e.trailStr(st))
					}
					dt := fieldTyp(msg, "Diagnostics")
					i64 := types.Typ[types.Int64]
					d0 := e.T.mk("load", "", dt, e.fa(old, "Diagnostics", dt))
					d1 := e.Load(st, e.fa(cur, "Diagnostics", dt), dt)
					for _, n := range sortedKeys(cnt) {
						pt := types.NewPointer(i64)
						p0 := e.T.mk("load", "", pt, e.fa(d0, n, pt))
						fresh := e.nilness(st, d0) == 1 || e.nilness(st, p0) == 1
						was := "*" + Canon(p0)
						got := "nil"
						if e.nilness(st, d1) != 1 {
							p1 := e.Load(st, e.fa(d1, n, pt), pt)
							if e.nilness(st, p1) != 1 {
								got = Canon(stripConv(e.Load(st, p1, i64)))
							}
						}
						ok, want := false, ""
						switch cnt[n] {
						case "+1":
							want = "one more"
							ok = fresh && got == "1" || !fresh && (got == "("+was+"+1)" || got == "(1+"+was+")")
						case "0":
							want = "0"
							ok = got == "0"
						default:
							want = "no change"
							ok = fresh && (got == "0" || got == "nil") || got == was
						}
						c.Expect(ok, "memory-records", m+":Diagnostics."+n, where, "%s of the in-memory storage leaves the diagnostics counter %s = %s, expected %s (%s)", m, n, got, want, e.trailStr(st))
					}
				}}, nil)
			if found == 0 {
				c.Bad("anchor:memory."+m, c.P.Pos(fn.Pos()), "%s of the in-memory storage never finds a message", m)
			}
		}
	}
}

// iterStart remembers that the current iteration of the loops around the current call looked at x.
func iterStart(st *State, key string, x *Term) {
	for _, f := range st.frames {
		st.ghost[key+":"+f.ctx] = strconv.Itoa(f.block.Index)
	}
}

// iterEnd: the state goes round the loop in which iterStart was called.
func iterEnd(st *State, key string, b *ssa.BasicBlock) bool {
	f := st.top()
	s := st.ghost[key+":"+f.ctx]
	if s == "" {
		return false
	}
	n, _ := strconv.Atoi(s)
	if n >= len(f.fn.Blocks) || !b.Dominates(f.fn.Blocks[n]) {
		return false
	}
	for k := range st.ghost {
		if strings.HasPrefix(k, key+":") {
			delete(st.ghost, k)
		}
	}
	return true
}

func (c *Ctx) memReinsert() {
	msg := c.P.Named("internal/queue/message", "Message")
	ms := msg.Underlying().(*types.Struct)
	content := map[string]bool{"Description": true, "ExpiryDate": true, "Metadata": true, "Payload": true, "StringPayload": true}
	derived := map[string]bool{"QueuePrefix": true, "QueueSuffix": true, "Timeless": true}
	for _, d := range c.memDocsOf() {
		d := d
		fn := c.P.methodOf(d.t, "Insert")
		if fn == nil {
			continue
		}
		n, re := 0, 0
		c.Explore(fn, &Opts{Opaque: copier,
			OnMap: func(e *Engine, st *State, kind string, mm, k, v *Term, site ssa.Instruction) {
				if !d.is(mm) {
					return
				}
				look := e.T.mk("lookup", "", d.elem, mm, stripKey(k))
				switch kind {
				case "lookup":
					st.mem[e.T.mk(docKey, "", nil)] = look
					iterStart(st, "re", look)
				case "update":
					n++
					where := c.at(site)
					has := e.T.mk("has", "", types.Typ[types.Bool], mm, stripKey(k))
					if e.Truth(st, has) == 2 || e.nilness(st, look) == 1 {
						// new: every field is that of the inserted message
						src := strip(v)
						if src.Op == "call" && len(src.Args) == 1 || src.Op == "opq" && len(src.Args) == 1 {
							src = strip(src.Args[0])
						}
						c.OK("memory-new-message-stored", "Insert")
						return
					}
					for i := 0; i < ms.NumFields(); i++ {
						f := ms.Field(i)
						if content[f.Name()] || derived[f.Name()] {
							continue
						}
						got := Canon(stripConv(e.Load(st, e.fa(v, f.Name(), f.Type()), f.Type())))
						c.Expect(got == Canon(look)+"."+f.Name(), "re-adding-keeps-state", "memory:"+f.Name(), where, "Insert of the in-memory storage replaces %s of a message that may already exist with %s (%s)", f.Name(), got, e.trailStr(st))
					}
				}
			},
			OnStore: func(e *Engine, st *State, a, v *Term, site ssa.Instruction) {
				if a.Op != "fa" {
					return
				}
				look := st.mem[e.T.mk(docKey, "", nil)]
				if look == nil || strip(a.Args[0]) != look {
					if b := a.Args[0]; b.Op == "load" || b.Op == "fa" {
						if look != nil && strings.HasPrefix(Canon(b), Canon(look)+".") {
							c.Bad("re-adding-keeps-state:memory:"+a.Str, c.at(site), "Insert of the in-memory storage changes %s of a message that already exists (%s)", Canon(a), e.trailStr(st))
						}
					}
					return
				}
				if e.Truth(st, e.T.mk("has", "", types.Typ[types.Bool], look.Args[0], look.Args[1])) == 2 {
					return
				}
				re++
				got := Canon(stripConv(v))
				switch {
				case got == Canon(look)+"."+a.Str:
				case content[a.Str] || derived[a.Str]:
					c.Expect(got == "$2[*]."+a.Str, "value-of-the-same-field", "memory:"+a.Str, c.at(site), "Insert of the in-memory storage stores %s as %s", got, a.Str)
				default:
					c.Bad("re-adding-keeps-state:memory:"+a.Str, c.at(site), "Insert of the in-memory storage changes %s of a message that already exists (%s)", a.Str, e.trailStr(st))
				}
			},
			OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				if !back || !iterEnd(st, "re", b) {
					return
				}
				look := st.mem[e.T.mk(docKey, "", nil)]
				delete(st.mem, e.T.mk(docKey, "", nil))
				if look == nil || e.Truth(st, e.T.mk("has", "", types.Typ[types.Bool], look.Args[0], look.Args[1])) != 1 {
					return
				}
				for f := range content {
					t := fieldTyp(msg, f)
					got := Canon(stripConv(e.Load(st, e.fa(look, f, t), t)))
					c.Expect(got == "$2[*]."+f, "contents-are-stored", "memory:"+f, c.P.Pos(fn.Pos()), "re-adding a message to the in-memory storage leaves %s = %s (%s)", f, got, e.trailStr(st))
				}
			}}, nil)
		if n == 0 {
			c.Bad("anchor:memory.Insert", c.P.Pos(fn.Pos()), "Insert of the in-memory storage stores no message")
		}
	}
}

// ---- the messages a search returns -----------------------------------------

// memCond evaluates, on the current path, the conditions a search puts on the stored message at hand:
// 1 holds (or was not requested), 2 does not, 0 not known.
func (c *Ctx) memCond(e *Engine, st *State, d *memDocs, find bool) map[string]int {
	opt := e.Param("$2", nil)
	out := map[string]int{}
	var flt *Term
	if e.nilness(st, opt) != 1 {
		flt = e.Load(st, e.fa(opt, "InternalFilter", nil), types.NewPointer(types.NewStruct(nil, nil)))
		if e.nilness(st, flt) == 1 {
			flt = nil
		}
	}
	pre := "lookup($0." + d.field + ", "
	item := st.mem[e.T.mk("ms:item", "", nil)]
	mf := func(t *Term, f string) bool {
		if item == nil || !t.hasRoot(item) {
			return false
		}
		s := Canon(stripConv(unbox(t)))
		return strings.HasPrefix(s, pre) && strings.HasSuffix(s, ")."+f)
	}
	order := func(f string, other func(t *Term) bool) int { // the field compared with the other: bits 1 less, 2 equal, 4 greater
		r := 7
		for t, fc := range st.facts {
			if len(t.Args) != 2 {
				continue
			}
			i := -1
			if mf(t.Args[0], f) && other(t.Args[1]) {
				i = 0
			} else if mf(t.Args[1], f) && other(t.Args[0]) {
				i = 1
			} else {
				continue
			}
			r &= relBits(e, st, t, fc, i == 1)
		}
		return r
	}
	if find {
		s := 0
		if flt != nil {
			ep := e.Load(st, e.fa(flt, "ExpiryDate", nil), types.NewPointer(types.NewStruct(nil, nil)))
			if e.nilness(st, ep) == 2 {
				s = 1
			} else if e.nilness(st, ep) == 0 {
				s = -1
			}
		}
		if s == 0 {
			for t, fc := range st.facts {
				if fc.B == 1 && mf(t, "Timeless") {
					s = 1
				}
			}
			timed := false
			for t, fc := range st.facts {
				timed = timed || fc.B == 2 && mf(t, "Timeless")
			}
			if s == 0 {
				r := 7
				if b := st.ghost["exp:bits"]; b != "" {
					r, _ = strconv.Atoi(b)
				}
				switch {
				case r == 4:
					s = 1
				case r&4 == 0 && timed:
					s = 2
				}
			}
		}
		if s < 0 {
			s = 0
		}
		out["that it has not expired"] = s
	}
	if flt == nil {
		return out
	}
	for _, f := range []string{"Queue", "QueuePrefix"} {
		req := e.Load(st, e.fa(flt, f, str), str)
		if emptyText(e, st, req) == 1 {
			out[f] = 1
			continue
		}
		r := order(f, func(t *Term) bool { return stripConv(t) == req })
		switch {
		case r == 2:
			out[f] = 1
		case r&2 == 0 && emptyText(e, st, req) == 2:
			out[f] = 2
		default:
			out[f] = 0
		}
	}
	for _, f := range []string{"InternalIdBreakpointGt", "InternalIdBreakpointLte"} {
		req := e.Load(st, e.fa(flt, f, str), str)
		if emptyText(e, st, req) == 1 {
			out[f] = 1
			continue
		}
		name := Canon(req)
		r := order("InternalId", func(t *Term) bool { return strings.Contains(Canon(t), name) })
		in, no := 4, 3
		if f == "InternalIdBreakpointLte" {
			in, no = 3, 4
		}
		switch {
		case r&^in == 0:
			out[f] = 1
		case r&^no == 0:
			out[f] = 2
		default:
			out[f] = 0
		}
	}
	ep := e.Load(st, e.fa(flt, "ExpiryDate", nil), types.NewPointer(types.NewStruct(nil, nil)))
	if e.nilness(st, ep) == 1 {
		out["ExpiryDate"] = 1
	} else {
		name := Canon(ep)
		r := order("ExpiryDate", func(t *Term) bool { return Canon(t) == "*"+name })
		switch {
		case r&4 == 0:
			out["ExpiryDate"] = 1
		case r == 4 && e.nilness(st, ep) == 2:
			out["ExpiryDate"] = 2
		}
		if out["ExpiryDate"] == 0 {
			out["ExpiryDate"] = 0
		}
	}
	ids := e.Load(st, e.fa(flt, "Ids", nil), types.NewPointer(types.NewSlice(str)))
	out["Ids"] = 0
	if e.nilness(st, ids) == 1 {
		out["Ids"] = 1
		return out
	}
	list := e.Load(st, ids, types.NewSlice(str))
	iv := e.IvOf(st, e.Len(list))
	if iv.Hi <= 0 {
		out["Ids"] = 1
		return out
	}
	el := Canon(list) + "[*]"
	in, set := st.ghost["ids:in"] != "", 0
	for t, fc := range st.facts {
		if t.Op == "has" && t.Args[0].Local && mf(t.Args[1], "ID") {
			ok := true
			for _, k := range e.mapKeys(st, t.Args[0]) {
				ok = ok && Canon(k) == el
			}
			if ok {
				set = fc.B
			}
		}
	}
	switch {
	case in || set == 1:
		out["Ids"] = 1
	case iv.Lo >= 1 && (set == 2 || st.ghost["ids:left"] == ""):
		out["Ids"] = 2
	}
	return out
}

// relBits: the orders of the left side with respect to the right one that a fact leaves possible.
func relBits(e *Engine, st *State, t *Term, fc Fact, swapped bool) int {
	r := 7
	tf := func(yes int) {
		switch fc.B {
		case 1:
			r = yes
		case 2:
			r = 7 &^ yes
		}
	}
	name := t.Op
	if t.Op == "call" {
		name = t.Str
	}
	switch {
	case name == "eq":
		tf(2)
	case name == "lt":
		tf(1)
	case name == "le":
		tf(3)
	case strings.HasSuffix(name, "Time).Before") || name == "time.Time.Before":
		tf(1)
	case strings.HasSuffix(name, "Time).After") || name == "time.Time.After":
		tf(4)
	case strings.HasSuffix(name, "Time).Equal") || name == "time.Time.Equal":
		tf(2)
	case strings.HasSuffix(name, "Time).Compare") || name == "time.Time.Compare" || strings.HasPrefix(name, "cmp.Compare") || name == "strings.Compare":
		iv := e.IvOf(st, t)
		r = 0
		if iv.Lo < 0 {
			r |= 1
		}
		if iv.Lo <= 0 && iv.Hi >= 0 {
			r |= 2
		}
		if iv.Hi > 0 {
			r |= 4
		}
		if f := st.facts[e.Eq(t, e.T.Int(0))]; f.B == 2 {
			r &^= 2
		}
	default:
		return 7
	}
	if swapped {
		r = r&2 | r>>2&1 | r<<2&4
	}
	return r
}

func (c *Ctx) memFilters() {
	for _, d := range c.memDocsOf() {
		d := d
		for _, m := range []string{"Find", "Count"} {
			m := m
			fn := c.P.methodOf(d.t, m)
			if fn == nil {
				continue
			}
			n, skipped := 0, 0
			sorters := map[string]ssa.CallInstruction{}
			judge := func(e *Engine, st *State, taken bool, where string) {
				cs := c.memCond(e, st, d, m == "Find")
				if taken {
					n++
					for _, k := range sortedKeys(cs) {
						c.Expect(cs[k] == 1, "memory-filter", m+":"+k, where, "%s of the in-memory storage may return a message that does not satisfy the condition on %s (%s)", m, k, e.trailStr(st))
					}
					return
				}
				skipped++
				for _, v := range cs {
					if v == 2 {
						c.OK("memory-complete", m)
						return
					}
				}
				c.Bad("memory-complete:"+m, where, "%s of the in-memory storage may leave out a message that satisfies every condition (%v; %s)", m, cs, e.trailStr(st))
			}
			in := e0("ms:in")
			c.Explore(fn, &Opts{Opaque: copier,
				Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
					if strings.HasSuffix(ci.Name, "/dtime.Now") || ci.Name == "time.Now" {
						return []*Outcome{{Res: e.T.mk("call", "dtime.Now", ci.Sig.Results().At(0).Type())}}, true
					}
					return nil, false
				},
				OnMap: func(e *Engine, st *State, kind string, mm, k, v *Term, site ssa.Instruction) {
					if kind == "item" && d.is(mm) {
						iterStart(st, "it", v)
						delete(st.ghost, in)
						delete(st.ghost, "ids:left")
						delete(st.ghost, "ids:in")
						delete(st.ghost, "exp:bits")
						st.mem[e.T.mk("ms:item", "", nil)] = k
					}
					if kind == "update" && k != nil && strings.HasSuffix(Canon(k), ".Ids[*]") {
						delete(st.ghost, "ids:left")
					}
				},
				OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) {
					if addr.Op == "ia" && strings.HasSuffix(Canon(addr.Args[0]), ".Ids") {
						st.ghost["ids:left"] = "1"
						delete(st.ghost, "ids:miss")
					}
				},
				OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
					v, ok := site.(ssa.Value)
					if !ok || !strings.HasSuffix(strings.TrimPrefix(strings.TrimPrefix(v.Type().String(), "[]"), "*"), "message.Message") {
						return
					}
					for k := range st.ghost {
						if strings.HasPrefix(k, "it:") {
							c.Expect(st.ghost[in] == "", "each-message-once", m, c.at(site), "%s of the in-memory storage may return a message twice", m)
							st.ghost[in] = "1"
							judge(e, st, true, c.at(site))
							return
						}
					}
				},
				OnStore: func(e *Engine, st *State, a, v *Term, site ssa.Instruction) {
					if m == "Count" && a.Op == "alloc" && v.Typ != nil && isIntT(v.Typ) && strings.HasSuffix(Canon(v), "+1)") {
						st.ghost[in] = "1"
						judge(e, st, true, c.at(site))
					}
				},
				OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
					f := st.top()
					end := back && iterEnd(st, "it", b)
					if back && !end && st.ghost["ids:miss"] != "" {
						delete(st.ghost, "ids:left")
						delete(st.ghost, "ids:miss")
					}
					if end {
						if st.ghost[in] == "" && m == "Count" {
							for _, p := range b.Instrs {
								p, ok := p.(*ssa.Phi)
								if !ok {
									break
								}
								was := st.mem[e.T.mk("ms:phi", p.Name(), nil)]
								if was == nil || !isIntT(p.Type()) {
									continue
								}
								for i, pr := range b.Preds {
									if pr == f.prev {
										now := Canon(e.valAt(st, p.Edges[i], p, was))
										if now != Canon(was) {
											st.ghost[in] = "1"
											c.Expect(now == "("+Canon(was)+"+1)" || isNext(was, e.valAt(st, p.Edges[i], p, was)), "each-message-once", m, c.at(p), "Count of the in-memory storage goes from %s to %s for one message", Canon(was), now)
											judge(e, st, true, c.at(p))
										}
									}
								}
							}
						}
						if st.ghost[in] == "" {
							judge(e, st, false, c.P.Pos(f.fn.Pos()))
						}
						delete(st.ghost, in)
						delete(st.mem, e.T.mk("ms:item", "", nil))
					}
					if m == "Count" {
						for _, p := range b.Instrs {
							p, ok := p.(*ssa.Phi)
							if !ok {
								break
							}
							if isIntT(p.Type()) {
								st.mem[e.T.mk("ms:phi", p.Name(), nil)] = f.env[p]
							}
						}
					}
				},
				OnGC: func(e *Engine, st *State, live map[*Term]bool) {
					if k := st.mem[e.T.mk("ms:item", "", nil)]; k != nil {
						for _, r := range k.roots {
							live[r] = true
						}
						for t := range st.facts {
							if t.Op == "has" && t.Args[0].Local && t.hasRoot(k) {
								for _, r := range t.roots {
									live[r] = true
								}
							}
						}
					}
				},
				OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
					for cond.Op == "not" {
						cond, want = cond.Args[0], !want
					}
					if len(cond.Args) == 2 {
						for i := 0; i < 2; i++ {
							a := Canon(stripConv(cond.Args[i]))
							if !strings.HasPrefix(a, "lookup($0."+d.field+", ") || !strings.HasSuffix(a, ").ExpiryDate") || !strings.Contains(Canon(cond.Args[1-i]), "dtime.Now") {
								continue
							}
							r := 7
							if b := st.ghost["exp:bits"]; b != "" {
								r, _ = strconv.Atoi(b)
							}
							fc := Fact{B: 2}
							if want {
								fc.B = 1
							}
							st.ghost["exp:bits"] = strconv.Itoa(r & relBits(e, st, cond, fc, i == 1))
						}
					}
					if ci := callOf(st, e, cond); ci != nil && strings.HasPrefix(ci.Str, "slices.Contains") && len(ci.Args) == 2 {
						a, b := Canon(stripConv(ci.Args[0])), Canon(stripConv(ci.Args[1]))
						if strings.HasSuffix(a, ".Ids") && strings.HasPrefix(b, "lookup($0."+d.field+", ") && strings.HasSuffix(b, ").ID") {
							delete(st.ghost, "ids:left")
							if want {
								st.ghost["ids:in"] = "1"
							}
						}
					}
					if cond.Op != "eq" {
						return true
					}
					for i := 0; i < 2; i++ {
						a, b := Canon(stripConv(cond.Args[i])), Canon(stripConv(cond.Args[1-i]))
						if strings.HasSuffix(a, ".Ids[*]") && strings.HasPrefix(b, "lookup($0."+d.field+", ") && strings.HasSuffix(b, ").ID") {
							if want {
								delete(st.ghost, "ids:left")
								st.ghost["ids:in"] = "1"
							} else {
								st.ghost["ids:miss"] = "1"
							}
						}
					}
					return true
				},
				OnCall: func(e *Engine, st *State, ci *CallInfo) {
					if strings.HasPrefix(ci.Name, "sort.S") || strings.HasPrefix(ci.Name, "slices.Sort") {
						st.ghost["sorted"] = "1"
						c.Expect(strip(ci.Args[0]).Op != "slice", "memory-sort", "before-limit", c.at(ci.Site), "Find of the in-memory storage limits the messages before sorting them")
						if x, ok := ci.Site.(ssa.CallInstruction); ok {
							sorters[c.at(ci.Site)] = x
						}
					}
				},
				OnExit: func(e *Engine, st *State, res []*Term) {
					where := c.P.Pos(fn.Pos())
					if len(res) != 2 || e.nilness(st, res[1]) == 2 {
						return
					}
					for k := range st.ghost {
						if strings.HasPrefix(k, "it:") {
							c.Bad("memory-complete:"+m+":rest", where, "%s of the in-memory storage may stop before it has looked at every message (%s)", m, e.trailStr(st))
							break
						}
					}
					if m != "Find" || e.nilness(st, res[0]) == 1 {
						return
					}
					opt := e.Param("$2", nil)
					r := strip(res[0])
					if e.nilness(st, opt) == 1 {
						c.Expect(r.Op != "slice", "memory-limit", "nil-options", where, "Find of the in-memory storage without options returns %s", Canon(r))
						return
					}
					L := e.Load(st, e.fa(opt, "Limit", types.Typ[types.Int64]), types.Typ[types.Int64])
					iv := e.IvOf(st, L)
					if r.Op == "slice" {
						hi := r.Args[len(r.Args)-1]
						if len(r.Args) > 2 {
							hi = r.Args[2]
						}
						c.Expect(iv.Lo >= 1 && strings.Contains(Canon(hi), ".Limit") && (len(r.Args) < 2 || r.Args[1].IsNil() || r.Args[1].IsConst()), "memory-limit", "cut", where, "Find of the in-memory storage returns %s for the limit %s (%s)", Canon(r), iv.key(), e.trailStr(st))
					} else {
						ok := iv.Hi <= 0
						for t, f := range st.facts {
							if t.Op == "lt" && f.B == 2 && stripConv(t.Args[0]) == L && stripConv(t.Args[1]).Op == "len" || t.Op == "lt" && f.B == 1 && stripConv(t.Args[1]) == L && stripConv(t.Args[0]).Op == "len" {
								ok = true
							}
						}
						c.Expect(ok, "memory-limit", "whole", where, "Find of the in-memory storage may return more messages than requested (%s)", e.trailStr(st))
					}
					so := e.Load(st, e.fa(opt, "Sort", nil), types.NewPointer(types.NewStruct(nil, nil)))
					c.Expect(st.ghost["sorted"] != "" || e.nilness(st, so) == 1, "memory-sort", "Find", where, "Find of the in-memory storage ignores the requested order (%s)", e.trailStr(st))
				}}, nil)
			if n == 0 || skipped == 0 {
				c.Bad("anchor:memory."+m, c.P.Pos(fn.Pos()), "%s of the in-memory storage: %d messages taken, %d left out on any path", m, n, skipped)
			}
			if m != "Find" {
				continue
			}
			if len(sorters) == 0 {
				c.Bad("anchor:memory.sort", c.P.Pos(fn.Pos()), "Find of the in-memory storage sorts nothing")
			}
			for _, at := range sortedKeys(sorters) {
				c.memOrder(sorters[at], at)
			}
		}
	}
}

// callOf is the call a value is the result of.
func callOf(st *State, e *Engine, t *Term) *Term {
	if t.Op == "call" {
		return t
	}
	return st.mem[e.T.mk("callinfo", "", nil, t)]
}

func e0(s string) string { return s }

func isNext(was, now *Term) bool {
	a, ok1 := was.Num()
	b, ok2 := now.Num()
	return ok1 && ok2 && b == a+1
}

// valAt is the value an edge of a loop variable had at the end of the iteration.
func (e *Engine) valAt(st *State, v ssa.Value, p *ssa.Phi, was *Term) *Term {
	if v == ssa.Value(p) {
		return was
	}
	return e.val(st, v)
}

// memOrder decides the comparison the messages are sorted with.
func (c *Ctx) memOrder(call ssa.CallInstruction, at string) {
	args := call.Common().Args
	var fn *ssa.Function
	for _, a := range args[1:] {
		for {
			switch x := a.(type) {
			case *ssa.MakeClosure:
				fn = x.Fn.(*ssa.Function)
			case *ssa.Function:
				fn = x
			case *ssa.ChangeType:
				a = x.X
				continue
			}
			break
		}
	}
	if fn == nil && len(args) == 1 {
		if mi, ok := args[0].(*ssa.MakeInterface); ok {
			fn = c.P.methodOf(mi.X.Type(), "Less")
		}
	}
	if fn == nil || len(fn.Params) < 2 {
		c.Bad("memory-sort:comparison", at, "the comparison the messages are sorted with is not known")
		return
	}
	off := len(fn.Params) - 2
	fields := map[string]string{"expiry_date": "ExpiryDate", "score": "Score", "_id": "InternalId"}
	seen := map[string]bool{}
	var sideOf func(t *Term) int
	sideOf = func(t *Term) int {
		if t.Op == "param" {
			switch t.Str {
			case "$" + itoa(off):
				return 1
			case "$" + itoa(off+1):
				return 2
			}
			return 0
		}
		r := 0
		for _, a := range t.Args {
			r |= sideOf(a)
		}
		return r
	}
	fieldOf := func(t *Term) string {
		s := Canon(stripConv(unbox(t)))
		return s[strings.LastIndexByte(s, '.')+1:]
	}
	rel := func(e *Engine, st *State, f string) int {
		r := 7
		for t, fc := range st.facts {
			if len(t.Args) != 2 || fieldOf(t.Args[0]) != f || fieldOf(t.Args[1]) != f {
				continue
			}
			a, b := sideOf(t.Args[0]), sideOf(t.Args[1])
			if a == 1 && b == 2 || a == 2 && b == 1 {
				r &= relBits(e, st, t, fc, a == 2)
			}
		}
		return r
	}
	key := func(st *State) string {
		for t, f := range st.facts {
			if f.SEq != nil && sideOf(t) == 0 && fields[*f.SEq] != "" {
				return *f.SEq
			}
		}
		return ""
	}
	dir := func(e *Engine, st *State) int {
		for t := range st.facts {
			s := Canon(t)
			if t.Op == "eq" || t.Op == "lt" || sideOf(t) != 0 || t.Typ == nil || !isIntT(t.Typ) || !strings.Contains(s, "Get") && !strings.HasSuffix(s, ".Value") {
				continue
			}
			iv := e.IvOf(st, t)
			one, minus := e.Truth(st, e.Eq(t, e.T.Int(1))), e.Truth(st, e.Eq(t, e.T.Int(-1)))
			switch {
			case iv.Hi < 0 || minus == 1 || one == 2:
				return -1
			case iv.Lo > -1 || one == 1 || minus == 2:
				return 1
			}
		}
		for t, f := range st.facts {
			if t.Op != "eq" || f.B == 0 || sideOf(t) != 0 {
				continue
			}
			for i := 0; i < 2; i++ {
				if n, ok := t.Args[i].Num(); ok && (strings.Contains(Canon(t.Args[1-i]), "Get") || strings.HasSuffix(Canon(t.Args[1-i]), ".Value")) {
					if n == -1 && f.B == 1 || n == 1 && f.B == 2 {
						return -1
					}
					if n == -1 && f.B == 2 || n == 1 && f.B == 1 {
						return 1
					}
				}
			}
		}
		return 0
	}
	c.Explore(fn, &Opts{
		OnBranch: func(e *Engine, st *State, x *ssa.If, cond *Term, want bool) bool {
			for cond.Op == "not" {
				cond, want = cond.Args[0], !want
			}
			if len(cond.Args) == 2 && sideOf(cond) == 0 {
				if d := dir(e, st); d != 0 {
					st.ghost["dir"] = itoa(d)
				}
			}
			return true
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if strings.Contains(ci.Name, "orderedmap") && strings.Contains(ci.Name, "Get") {
				iterStart(st, "key", nil)
			}
		},
		OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) {
			s := Canon(addr)
			if addr.Op == "ia" && strings.Contains(s, "Keys") || strings.HasSuffix(s, ".Key") {
				iterStart(st, "key", nil)
			}
		},
		OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
			if !back || !iterEnd(st, "key", b) {
				return
			}
			delete(st.ghost, "dir")
			if k := key(st); k != "" {
				c.Expect(rel(e, st, fields[k])&^2 == 0, "memory-sort", "next-key:"+k, at, "messages with different %s may be ordered by the next key (%s)", k, e.trailStr(st))
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			in := false
			for k := range st.ghost {
				in = in || strings.HasPrefix(k, "key:")
			}
			k := key(st)
			if !in || k == "" || len(res) != 1 {
				return
			}
			check := func(n *State, sign int) { // the first message goes before (-1), after (1) or either way (0)
				d := dir(e, n)
				if g := n.ghost["dir"]; d == 0 && g != "" {
					d, _ = strconv.Atoi(g)
				}
				if d == 0 {
					c.Bad("memory-sort:direction:"+k, at, "the requested direction of %s is ignored (%s)", k, e.trailStr(st))
					return
				}
				r := rel(e, n, fields[k])
				less := 1
				if d < 0 {
					less = 4
				}
				ok := false
				switch sign {
				case -1:
					ok = r&^less == 0
					seen[k+itoa(d)] = true
				case 1:
					ok = r&^(5&^less) == 0 || r&2 != 0 && k == "_id" && r&less == 0
				case 2: // not before
					ok = r&less == 0 && (r&2 == 0 || k == "_id")
				default:
					ok = r&^2 == 0 && k == "_id"
				}
				c.Expect(ok, "memory-sort", k, at, "messages sorted by %s may come out in the wrong order, or ties may not be ordered by the next key (%s)", k, e.trailStr(st))
			}
			r := res[0]
			if r.Typ != nil && isIntT(r.Typ) {
				for _, x := range []struct {
					iv   Iv
					sign int
				}{{Iv{Lo: -1e18, Hi: -1, Int: true}, -1}, {Iv{Lo: 0, Hi: 0, Int: true}, 0}, {Iv{Lo: 1, Hi: 1e18, Int: true}, 1}} {
					if v, ok := r.Num(); ok {
						if v >= x.iv.Lo && v <= x.iv.Hi {
							check(st, x.sign)
						}
						continue
					}
					n := st.clone()
					if e.setIv(n, r, x.iv) {
						check(n, x.sign)
					}
				}
				return
			}
			for _, want := range []bool{true, false} {
				n := st.clone()
				if e.Assume(n, r, want) {
					check(n, map[bool]int{true: -1, false: 2}[want])
				}
			}
		}}, nil)
	for k := range fields {
		for _, d := range []int{1, -1} {
			c.Expect(seen[k+itoa(d)], "memory-sort", "orders-by:"+k, at, "messages are never ordered by %s (direction %d)", k, d)
		}
	}
}
