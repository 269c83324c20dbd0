package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// anyTyp is used where only the identity of a value matters.
func fieldTyp(t types.Type, name string) types.Type {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Int]
}

// queueParts models the queue name split as a pure function of the name.
func queueParts(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	if ci.Fn == nil || !strings.HasSuffix(fnPkgPath(ci.Fn), "/internal/queue/message") {
		return nil, false
	}
	str := types.Typ[types.String]
	switch ci.Fn.Name() {
	case "GetQueueParts", "GetQueuePrefix":
		a := ci.Args[0]
		if ci.Fn.Signature.Recv() != nil {
			a = e.Load(st, e.fa(a, "Queue", str), str)
		}
		t := e.T.mk("call", "message.GetQueueParts", ci.Sig.Results(), a)
		p := e.ext(t, 0, str)
		if ci.Fn.Name() == "GetQueuePrefix" {
			return []*Outcome{{Res: p}}, true
		}
		return []*Outcome{{Res: e.T.mk("tuple", "", ci.Sig.Results(), p, e.ext(t, 1, str))}}, true
	}
	return nil, false
}

func init() {
	register(&Check{ID: "C03", Min: 20, Pkgs: svcPkgs,
		Technique: "Field-by-field value-flow analysis over SSA of Add, Pull and GetById",
		Note:      "For every path, the abstract value of each field of the messages handed to storage.Insert (Add) and of each field of the response messages (Pull, GetById) must be the same-named field of the request message, respectively of the message read from storage.",
		Run:       runC03})
}

func runC03(c *Ctx) {
	msg := c.P.Named("internal/queue/message", "Message")
	pb := c.P.Named("", "Message")
	if msg == nil || pb == nil {
		c.Bad("anchor:types", "?", "message types not found")
		return
	}
	n := map[string]int{}
	add := c.rpc("Add")
	if add != nil {
		c.Explore(add, &Opts{Event: roleEvents, Model: queueParts, KeepEvent: func(*Event) bool { return false },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				name := role(ev.Name)
				if name != "storage.Insert" && name != "cache.Insert" {
					return
				}
				for _, m := range msgElems(e, st, ev) {
					if m.IsNil() {
						continue
					}
					src := "$2.Messages[*]"
					for _, f := range [][2]string{{"ID", "Id"}, {"Queue", "Queue"}, {"Timeless", "Timeless"}, {"Description", "Description"}, {"Payload", "Payload"}, {"StringPayload", "StringPayload"}, {"Metadata", "Metadata"}} {
						v := c.msgField(e, st, m, f[0], fieldTyp(msg, f[0]))
						n["Add"]++
						c.Expect(c.sameField(e, st, v, src+"."+f[1], src), "stored-field-is-the-client's", "Add:"+f[0]+":"+name, c.at(ev.Site), "Add: field %s of the message handed to %s is %s, not %s of the same request message (%s)", f[0], name, Canon(v), f[1], e.trailStr(st))
					}
					for i, f := range []string{"QueuePrefix", "QueueSuffix"} {
						v := c.msgField(e, st, m, f, types.Typ[types.String])
						want := "message.GetQueueParts(" + src + ".Queue)#" + []string{"0", "1"}[i]
						cn := Canon(v)
						ok := cn == want || (strings.Contains(cn, "Split") || strings.Contains(cn, "Cut")) && strings.Contains(cn, src+".Queue")
						c.Expect(ok, "stored-queue-parts", "Add:"+f, c.at(ev.Site), "Add: %s of the stored message is %s, not the %s of its queue name", f, cn, f)
					}
				}
			}}, nil)
	}
	fields := [][2]string{{"Id", "ID"}, {"Description", "Description"}, {"Queue", "Queue"}, {"Score", "Score"}, {"Breakpoint", "Breakpoint"}, {"Payload", "Payload"}, {"StringPayload", "StringPayload"}, {"Metadata", "Metadata"}}
	checkOut := func(r, from string, e *Engine, st *State, m *Term, where string) {
		src := ""
		for i, f := range fields {
			v := c.msgField(e, st, m, f[0], fieldTyp(pb, f[0]))
			cn := Canon(v)
			n[r]++
			if i == 0 {
				src = strings.TrimSuffix(cn, "."+f[1])
			}
			c.Expect(cn == src+"."+f[1] && strings.Contains(src, from), "returned-field-is-the-stored-one", r+":"+f[0], where, "%s: field %s of the returned message is %s, not %s of the message read from storage (%s)", r, f[0], cn, f[1], e.trailStr(st))
		}
		d := c.msgField(e, st, m, "Diagnostics", fieldTyp(pb, "Diagnostics"))
		srcNil := false
		for t, f := range st.facts {
			if f.Nil == 1 && Canon(t) == src+".Diagnostics" {
				srcNil = true
			}
		}
		if e.nilness(st, d) == 1 {
			c.Expect(srcNil, "returned-diagnostics-are-the-stored-ones", r+":nil", where, "%s: diagnostics may be missing although they are stored (%s)", r, e.trailStr(st))
			return
		}
		for _, f := range []string{"Acks", "Nacks", "ConsecutiveAcks", "ConsecutiveNacks"} {
			v := e.Load(st, e.fa(d, f, types.Typ[types.Int64]), types.Typ[types.Int64])
			cn := Canon(v)
			want := src + ".Diagnostics." + f
			ok := strings.TrimPrefix(cn, "*") == want
			if k, isN := v.Num(); isN && k == 0 {
				ok = srcNil
				for t, fc := range st.facts {
					if fc.Nil == 1 && Canon(t) == want {
						ok = true
					}
				}
			}
			n[r+"D"]++
			c.Expect(ok, "returned-diagnostics-are-the-stored-ones", r+":"+f, where, "%s: diagnostics counter %s is %s, not %s (%s)", r, f, cn, want, e.trailStr(st))
		}
	}
	if pull := c.rpc("Pull"); pull != nil {
		isPull := func(ci *CallInfo) bool { return queueCall(ci) == "Pull" }
		isMsg := func(t *Term) bool {
			return t.Typ != nil && types.Identical(t.Typ, types.NewPointer(pb)) && !t.IsNil()
		}
		c.Explore(pull, &Opts{Event: isPull, DropOld: true, OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			for _, m := range elems {
				if isMsg(m) && m.Op != "elems" {
					checkOut("Pull", "Pull#0", e, st, m, c.at(site))
				}
			}
		}, OnStore: func(e *Engine, st *State, addr, m *Term, site ssa.Instruction) {
			if isMsg(m) && addr.Op == "ia" && m.Op != "elems" {
				if b, ok := site.(*ssa.Store); ok {
					if ia, ok := b.Addr.(*ssa.IndexAddr); ok {
						if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
							return
						}
					}
				}
				checkOut("Pull", "Pull#0", e, st, m, c.at(site))
			}
		}}, nil)
	}
	if get := c.rpc("GetById"); get != nil {
		c.Explore(get, &Opts{Event: roleEvents, KeepEvent: func(*Event) bool { return false }, OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 {
				return
			}
			m := e.Load(st, e.fa(res[0], "Message", types.NewPointer(pb)), types.NewPointer(pb))
			if e.nilness(st, m) == 1 {
				return
			}
			checkOut("GetById", "storage.Find#0", e, st, m, c.P.Pos(get.Pos()))
		}}, nil)
	}
	for _, r := range []string{"Add", "Pull", "GetById", "PullD", "GetByIdD"} {
		if n[r] == 0 {
			c.Bad("anchor:"+r, "?", "%s: no message was found to compare", r)
		}
	}
}

// sameField: v is the field named want (canonical path), or the zero value where the source is nil.
func (c *Ctx) sameField(e *Engine, st *State, v *Term, want, src string) bool {
	if Canon(stripConv(v)) == want {
		return true
	}
	if v.Op == "const" || v.Op == "zero" {
		for t, f := range st.facts {
			if f.Nil == 1 && Canon(t) == src {
				return true
			}
		}
	}
	return false
}

// queueCall returns the method name of a call to the queue layer made from another package.
func queueCall(ci *CallInfo) string {
	if ci.Site == nil || strings.HasSuffix(fnPkgPath(ci.Site.Parent()), "/internal/queue") {
		return ""
	}
	i := strings.Index(ci.Name, "/internal/queue.")
	j := strings.LastIndex(ci.Name, ").")
	if i < 0 || j < i {
		return ""
	}
	return ci.Name[j+2:]
}
