package main

// The documents the Mongo storage hands to the driver: filters, updates, sort orders and projections.

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mop names the operation of a call on a Mongo collection.
func mop(name string) string {
	for _, p := range []string{"MongoCollectionInterface).", "mongo.Collection)."} {
		if i := strings.Index(name, p); i >= 0 {
			return name[i+len(p):]
		}
	}
	return ""
}

// bdoc is a document: keys in no order, with their values; known is false when the analysis lost track of it.
type bdoc struct {
	keys  []string
	vals  map[string]*Term
	dyn   []*Term // keys that are not constants
	known bool
	m     *Term
}

func isBsonT(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return isBsonT(types.Unalias(a), names...) || strings.Contains(a.String(), "/bson.")
		}
		return false
	}
	if n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "mongo-driver") {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return len(names) == 0
}

// bson reads a document value (bson.M, bson.D, a map literal, or a pointer to one).
func (e *Engine) bson(st *State, t *Term) *bdoc {
	d := &bdoc{vals: map[string]*Term{}}
	t = unbox(t)
	if t.Typ != nil {
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			t = unbox(e.Load(st, t, p.Elem()))
		}
	}
	d.m = t
	add := func(k, v *Term) {
		if s, ok := unbox(k).StrVal(); ok {
			if _, dup := d.vals[s]; !dup {
				d.keys = append(d.keys, s)
			}
			d.vals[s] = v
		} else {
			d.dyn = append(d.dyn, k)
		}
	}
	switch {
	case t.Op == "mkmap" && t.Local:
		d.known = true
		for _, k := range e.mapKeys(st, t) {
			add(k, st.mem[e.T.mk("mval", "", nil, t, k)])
		}
	case t.IsNil() || t.Op == "zero":
		d.known = true
	default:
		if t.Typ == nil {
			return d
		}
		if _, ok := t.Typ.Underlying().(*types.Slice); !ok {
			return d
		}
		es, ok := e.exactList(st, t)
		if !ok {
			es = e.Elems(st, t)
		}
		d.known = true
		for _, x := range es {
			if x.Op == "elems" {
				d.known = false
				continue
			}
			add(e.field(x, "Key", types.Typ[types.String]), e.field(x, "Value", types.NewInterfaceType(nil, nil)))
		}
	}
	sort.Strings(d.keys)
	return d
}

func unbox(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "nf" || t.Op == "conv" && t.Typ != nil && !isNumT(t.Typ)) {
		t = t.Args[0]
	}
	return t
}

func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// bsonNames maps the stored names of the fields of a struct, nested ones with dots, to the path of the field.
func bsonNames(t types.Type) map[string]string {
	out := map[string]string{}
	var walk func(t types.Type, pre, path string)
	walk = func(t types.Type, pre, path string) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			n, opts, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("bson"), ",")
			if n == "-" {
				continue
			}
			if n == "" {
				n = strings.ToLower(f.Name())
			}
			if strings.Contains(opts, "inline") {
				walk(f.Type(), pre, path)
				continue
			}
			out[pre+n] = path + f.Name()
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if nm, ok := ft.(*types.Named); ok && strings.HasSuffix(nm.Obj().Pkg().Path(), "/message") {
				walk(ft, pre+n+".", path+f.Name()+".")
			}
		}
	}
	walk(t, "", "")
	return out
}

// mongoImpl finds the implementation of the storage that hands documents to the Mongo driver.
func (c *Ctx) mongoImpl() types.Type {
	for _, t := range c.P.Impls(storePkg, "Storage") {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		s := structOf(p.Elem())
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if strings.Contains(s.Field(i).Type().String(), "mongo.") {
				return t
			}
		}
	}
	c.Bad("anchor:mongo", storePkg, "no Mongo implementation of the storage found")
	return nil
}

func (c *Ctx) mongoMethod(name string) *ssa.Function {
	t := c.mongoImpl()
	if t == nil {
		return nil
	}
	fn := c.P.methodOf(t, name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.Bad("anchor:mongo."+name, storePkg, "the Mongo storage has no method %s", name)
		return nil
	}
	return fn
}

func (d *bdoc) String() string {
	var s []string
	for _, k := range d.keys {
		s = append(s, k+"="+Canon(d.vals[k]))
	}
	for _, k := range d.dyn {
		s = append(s, "["+Canon(k)+"]")
	}
	if !d.known {
		s = append(s, "?")
	}
	return "{" + strings.Join(s, ", ") + "}"
}

func init() {
	register(&Check{ID: "C33", Min: 14, Pkgs: []string{storePkg},
		Technique: "Value flow into the key of the in-memory documents and into every Mongo filter, with a syntactic proof that the key function is injective",
		Note:      "All paths of Insert, Ack, Nack, Remove of both storages, and of every other operation of the interface for deletions: the key term must determine queue and id (concatenation whose parts are separable, or a struct), each Mongo filter must name queue and id of the message it updates, and deletions without a filter occur only in Flush. The map, strconv and the driver's filter semantics are trusted.",
		Run:       runC33})
	register(&Check{ID: "C34", Min: 20, Pkgs: []string{storePkg},
		Technique: "Symbolic effect comparison of Ack and Nack: final field values of the in-memory message and the $set/$inc documents against one table",
		Note:      "All paths of Ack and Nack of both storages; for each, the set of fields changed and the value of each relative to the stored message and the request.",
		Run:       runC34})
	register(&Check{ID: "C35", Min: 40, Pkgs: []string{storePkg, "internal/queue/message"},
		Technique: "Symbolic reconstruction of every BSON document built for the driver, checked against the stored names of the message struct; effect analysis of the in-memory re-insert",
		Note:      "All paths of every Mongo operation (keys of filters, update operators, distinct fields) and of Insert of both storages. Keys supplied at run time by callers (projections, sort orders) are passed through and not judged.",
		Run:       runC35})
	register(&Check{ID: "C36", Min: 30, Pkgs: []string{storePkg},
		Technique: "Path-sensitive comparison of the filter each storage applies with the filter requested, field by field",
		Note:      "All paths of Find and Count of both storages: on each path the constraint applied for each filter field must be exactly the requested one, or the path facts must show that the field was not supplied; order and limit are followed to the driver options and to the comparator. The driver and sort.SliceStable are trusted.",
		Run:       runC36})
	register(&Check{ID: "C37", Min: 6, Pkgs: []string{storePkg},
		Technique: "Value flow from read preference to client to collection to the read that uses it",
		Note:      "All paths of the constructor of the Mongo storage (client options, database and collection of each field) and of Find.",
		Run:       runC37})
}

// contentFields are the fields of a message that re-adding it replaces.
var contentFields = []string{"Description", "ExpiryDate", "Metadata", "Payload", "StringPayload", "QueuePrefix", "QueueSuffix"}

// stateFields are the fields that only deliveries change.
var stateFields = map[string]bool{"Score": true, "LastUsage": true, "UsageCount": true, "TotalScoreSubtract": true, "LastScoreSubtract": true, "Breakpoint": true, "Diagnostics": true, "LockMs": true, "ID": true, "Queue": true, "InternalId": true}

func subOps(e *Engine, st *State, d *bdoc) map[string]*bdoc {
	out := map[string]*bdoc{}
	for _, k := range d.keys {
		if strings.HasPrefix(k, "$") {
			out[k] = e.bson(st, d.vals[k])
		}
	}
	return out
}

func mopEvents(ci *CallInfo) bool { return mop(ci.Name) != "" }

// mongoDocs explores a method of the Mongo storage, reporting each filter and update document.
func (c *Ctx) mongoDocs(method string, on func(e *Engine, st *State, op, kind string, d *bdoc, where string)) {
	fn := c.mongoMethod(method)
	if fn == nil {
		return
	}
	c.Explore(fn, &Opts{Event: mopEvents, KeepEvent: func(*Event) bool { return false },
		OnEvent: func(e *Engine, st *State, ev *Event) {
			op := mop(ev.Name)
			arg := func(i int) *Term {
				if i < len(ev.Args) {
					return ev.Args[i]
				}
				return e.T.Nil()
			}
			switch op {
			case "BulkWrite":
				on(e, st, op, "call", nil, c.at(ev.Site))
			case "Distinct":
				on(e, st, op, "field:"+constStr(arg(2)), e.bson(st, arg(3)), c.at(ev.Site))
			case "UpdateOne", "UpdateMany", "FindOneAndUpdate", "ReplaceOne", "FindOneAndReplace":
				on(e, st, op, "filter", e.bson(st, arg(2)), c.at(ev.Site))
				on(e, st, op, "update", e.bson(st, arg(3)), c.at(ev.Site))
			case "UpdateByID":
				on(e, st, op, "update", e.bson(st, arg(3)), c.at(ev.Site))
			case "Find", "FindOne", "CountDocuments", "DeleteOne", "DeleteMany", "FindOneAndDelete":
				on(e, st, op, "filter", e.bson(st, arg(2)), c.at(ev.Site))
			default:
				on(e, st, op, "call", nil, c.at(ev.Site))
			}
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op != "fa" || !(addr.Str == "Filter" || addr.Str == "Update" || addr.Str == "Replacement") || len(addr.Args) == 0 || addr.Args[0].Typ == nil {
				return
			}
			t := strings.TrimPrefix(addr.Args[0].Typ.String(), "*")
			i := strings.Index(t, "mongo.")
			if !strings.Contains(t, "mongo-driver") || i < 0 || !strings.HasSuffix(t, "Model") {
				return
			}
			on(e, st, t[i+6:], strings.ToLower(addr.Str), e.bson(st, val), c.at(site))
		},
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			i := strings.LastIndex(ci.Name, "Model).Set")
			if i < 0 || !strings.Contains(ci.Name, "mongo.") || len(ci.Args) < 2 {
				return
			}
			what := strings.ToLower(ci.Name[i+len("Model).Set"):])
			if what == "filter" || what == "update" || what == "replacement" {
				j := strings.Index(ci.Name, "mongo.")
				on(e, st, ci.Name[j+6:i+5], what, e.bson(st, ci.Args[1]), c.at(ci.Site))
			}
		}}, nil)
}

func constStr(t *Term) string {
	s, ok := unbox(t).StrVal()
	if !ok {
		return "?" + Canon(t)
	}
	return s
}

// keyBase splits "x.Field" of a canonical value.
func valueOf(v *Term) string { return Canon(stripConv(unbox(v))) }

func sameMessage(id, q string) (string, bool) {
	b := strings.TrimSuffix(id, ".ID")
	return b, b != id && q == b+".Queue"
}

// ---- C33 -------------------------------------------------------------------

func runC33(c *Ctx) {
	for _, m := range []string{"Ack", "Nack"} {
		n := 0
		c.mongoDocs(m, func(e *Engine, st *State, op, kind string, d *bdoc, where string) {
			if kind != "filter" {
				return
			}
			n++
			ok := d.known && d.vals["id"] != nil && d.vals["queue"] != nil && valueOf(d.vals["id"]) == "$2.ID" && valueOf(d.vals["queue"]) == "$2.Queue"
			c.Expect(ok, "update-of-the-exact-message", "mongo."+m, where, "%s of the Mongo storage updates the documents matching %s, not the message with its queue and id (%s)", m, d, e.trailStr(st))
		})
		if n == 0 {
			c.Bad("anchor:mongo."+m, storePkg, "%s of the Mongo storage updates no document", m)
		}
	}
	n := 0
	c.mongoDocs("Insert", func(e *Engine, st *State, op, kind string, d *bdoc, where string) {
		if op == "BulkWrite" {
			return
		}
		base := ""
		switch kind {
		case "filter":
			n++
			if d.vals["id"] != nil && d.vals["queue"] != nil {
				b, ok := sameMessage(valueOf(d.vals["id"]), valueOf(d.vals["queue"]))
				c.Expect(d.known && ok && strings.HasPrefix(b, "$2[*]"), "insert-of-the-exact-message", "mongo.Insert", where, "Insert of the Mongo storage writes the documents matching %s (%s)", d, e.trailStr(st))
				base = fieldBase(d.vals["id"])
			} else {
				c.Bad("insert-of-the-exact-message:mongo.Insert", where, "Insert of the Mongo storage writes the documents matching %s (%s)", d, e.trailStr(st))
			}
		case "update":
			for _, s := range subOps(e, st, d) {
				for _, k := range s.keys {
					if b := fieldBase(s.vals[k]); b != "" {
						base = b
					}
				}
			}
		}
		if base == "" {
			return
		}
		other := map[string]string{"filter": "update", "update": "filter"}[kind]
		if o := st.ghost["c33:"+other]; o != "" {
			c.Expect(o == base, "one-message-per-write", "mongo.Insert", where, "Insert of the Mongo storage writes the contents of one message to another (%s)", e.trailStr(st))
			delete(st.ghost, "c33:"+other)
		} else {
			st.ghost["c33:"+kind] = base
		}
	})
	if n == 0 {
		c.Bad("anchor:mongo.Insert", storePkg, "Insert of the Mongo storage writes no document")
	}
	n = 0
	c.mongoDocs("Remove", func(e *Engine, st *State, op, kind string, d *bdoc, where string) {
		if kind != "filter" || !strings.Contains(op, "Delete") {
			return
		}
		n++
		ok := d.known && d.vals["id"] != nil && d.vals["queue"] != nil && valueOf(d.vals["queue"]) == "$2"
		if ok {
			v := d.vals["id"]
			if in := e.bson(st, v); in.vals["$in"] != nil && len(in.keys) == 1 {
				v = in.vals["$in"]
			}
			ok = partOf(e, st, v, "$3")
		}
		c.Expect(ok, "remove-of-the-exact-messages", "mongo.Remove", where, "Remove of the Mongo storage deletes the documents matching %s, not exactly the given ids of the given queue (%s)", d, e.trailStr(st))
	})
	if n == 0 {
		c.Bad("anchor:mongo.Remove", storePkg, "Remove of the Mongo storage deletes no document")
	}
	for _, m := range c.ifaceMethods(storePkg, "Storage") {
		if m == "Remove" || m == "Flush" || m == "Close" || m == "GetStringInternalId" {
			continue
		}
		c.mongoDocs(m, func(e *Engine, st *State, op, kind string, d *bdoc, where string) {
			c.Expect(!strings.Contains(op, "Delete") && op != "Drop" && !strings.Contains(op, "Replace"), "deletions-only-in-remove-and-flush", "mongo."+m, where, "%s of the Mongo storage calls %s", m, op)
		})
		c.OK("deletions-only-in-remove-and-flush", "mongo."+m)
	}
	c.memKeys()
}

func (c *Ctx) ifaceMethods(pkg, name string) []string {
	nm := c.P.Named(pkg, name)
	var out []string
	if nm == nil {
		return out
	}
	it, ok := nm.Underlying().(*types.Interface)
	for i := 0; ok && i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	return out
}

// fieldBase names the object a value was read from.
func fieldBase(v *Term) string {
	v = stripConv(unbox(v))
	if v.Op == "load" && v.Args[0].Op == "fa" {
		return itoa(v.Args[0].Args[0].ID)
	}
	return ""
}

// partOf: v is the list, a slice of it, one of its elements, or a list of its elements.
func partOf(e *Engine, st *State, v *Term, list string) bool {
	v = unbox(v)
	if b := baseSlice(v); Canon(b) == list || Canon(v) == list+"[*]" {
		return true
	}
	es := e.Elems(st, v)
	for _, x := range es {
		if Canon(strip(x)) != list+"[*]" {
			return false
		}
	}
	return len(es) > 0
}

// ---- C34 -------------------------------------------------------------------

func runC34(c *Ctx) {
	type want struct{ set, inc map[string]string }
	wants := map[string]want{
		"Ack": {map[string]string{"last_usage": "$2.LastUsage", "last_score_subtract": "$2.LastScoreSubtract", "breakpoint": "$2.Breakpoint", "score": "$2.Score", "lock_ms": "$2.LockMs", "diagnostics.consecutive_nacks": "0"},
			map[string]string{"usage_count": "1", "total_score_subtract": "$2.LastScoreSubtract", "diagnostics.acks": "1", "diagnostics.consecutive_acks": "1"}},
		"Nack": {map[string]string{"score": "$2.Score", "lock_ms": "$2.LockMs", "diagnostics.consecutive_acks": "0"},
			map[string]string{"diagnostics.nacks": "1", "diagnostics.consecutive_nacks": "1"}},
	}
	for _, m := range []string{"Ack", "Nack"} {
		w := wants[m]
		n := 0
		c.mongoDocs(m, func(e *Engine, st *State, op, kind string, d *bdoc, where string) {
			if kind != "update" {
				return
			}
			n++
			ops := subOps(e, st, d)
			for _, k := range d.keys {
				c.Expect(k == "$set" || k == "$inc", "only-documented-effects", m+":"+k, where, "%s of the Mongo storage also applies %s (%s)", m, k, ops[k])
			}
			for _, x := range []struct {
				op   string
				want map[string]string
			}{{"$set", w.set}, {"$inc", w.inc}} {
				got := ops[x.op]
				if got == nil {
					got = &bdoc{known: d.known, vals: map[string]*Term{}}
				}
				c.Expect(got.known && len(got.dyn) == 0, "document-known", m+":"+x.op, where, "%s of the Mongo storage applies an %s document that is not known: %s", m, x.op, got)
				for k, v := range x.want {
					g := "nothing"
					if got.vals[k] != nil {
						g = valueOf(got.vals[k])
						if nn, ok := got.vals[k].Num(); ok && v == "0" && nn == 0 {
							g = "0"
						}
					}
					c.Expect(g == v, "records:"+x.op, m+":"+k, where, "%s of the Mongo storage applies %s %s = %s, expected %s", m, x.op, k, g, v)
				}
				for _, k := range got.keys {
					_, ok := x.want[k]
					c.Expect(ok, "only-documented-effects", m+":"+k, where, "%s of the Mongo storage also changes %s (%s %s)", m, k, x.op, valueOf(got.vals[k]))
				}
			}
		})
		if n == 0 {
			c.Bad("anchor:mongo."+m, storePkg, "%s of the Mongo storage updates no document", m)
		}
	}
	c.memAck()
}

// ---- C35 -------------------------------------------------------------------

func runC35(c *Ctx) {
	msg := c.P.Named("internal/queue/message", "Message")
	cfg := c.P.Named("internal/queue/configuration", "QueueConfiguration")
	if msg == nil || cfg == nil {
		c.Bad("anchor:message", "internal/queue/message", "message or configuration type not found")
		return
	}
	names, cfgNames := bsonNames(msg), bsonNames(cfg)
	inserts := 0
	for _, m := range c.ifaceMethods(storePkg, "Storage") {
		if m == "Close" || m == "GetStringInternalId" {
			continue
		}
		legal := names
		if strings.Contains(m, "QueueConfiguration") {
			legal = cfgNames
		}
		c.mongoDocs(m, func(e *Engine, st *State, op, kind string, d *bdoc, where string) {
			if strings.HasPrefix(kind, "field:") {
				k := kind[6:]
				_, ok := legal[k]
				if !strings.HasPrefix(k, "?") {
					c.Expect(ok, "stored-names", m+":"+k, where, "%s lists the field %q, which no message has", m, k)
				}
			}
			if d == nil {
				return
			}
			switch kind {
			case "filter":
				for _, k := range d.keys {
					if strings.HasPrefix(k, "$") {
						continue
					}
					_, ok := legal[k]
					c.Expect(ok, "stored-names", m+":filter:"+k, where, "%s filters by the field %q, which is not stored", m, k)
				}
			case "update":
				seen := map[string]string{}
				ops := subOps(e, st, d)
				for _, k := range d.keys {
					c.Expect(strings.HasPrefix(k, "$"), "update-operators", m+":"+k, where, "%s updates with the document %s, which replaces instead of updating", m, d)
				}
				for _, o := range d.keys {
					s := ops[o]
					if s == nil {
						continue
					}
					c.Expect(s.known && len(s.dyn) == 0, "document-known", m+":"+o, where, "%s applies an %s document that is not known: %s (%s)", m, o, s, e.trailStr(st))
					for _, k := range s.keys {
						path, ok := legal[k]
						c.Expect(ok, "stored-names", m+":"+o+":"+k, where, "%s writes the field %q, which no reader knows", m, k)
						clash := ""
						for k2, o2 := range seen {
							if k2 == k || strings.HasPrefix(k2, k+".") || strings.HasPrefix(k, k2+".") {
								clash = k2 + " in " + o2
							}
						}
						c.Expect(clash == "", "one-operator-per-field", m+":"+k, where, "%s updates %s in %s although it also updates %s: the server rejects the update (%s)", m, k, o, clash, e.trailStr(st))
						seen[k] = o
						if ok && legal["_id"] == names["_id"] && o != "$inc" {
							v := valueOf(s.vals[k])
							if i := strings.LastIndex(v, "."); i >= 0 && strings.HasPrefix(v, "$2") {
								f := v[i+1:]
								c.Expect(f == path, "value-of-the-same-field", m+":"+k, where, "%s writes the field %s of the message to %q", m, f, k)
							}
						}
					}
				}
				if m == "Insert" {
					inserts++
					for _, o := range d.keys {
						if o == "$setOnInsert" || ops[o] == nil {
							continue
						}
						for _, k := range ops[o].keys {
							f, _, _ := strings.Cut(names[k], ".")
							c.Expect(!stateFields[f], "re-adding-keeps-state", "mongo:"+k, where, "Insert of the Mongo storage changes %q of a message that already exists (%s)", k, e.trailStr(st))
						}
					}
					for k, p := range names {
						must := p == "Score"
						for _, f := range contentFields {
							must = must || f == p
						}
						if !must {
							continue
						}
						var v *Term
						for _, o := range []string{"$set", "$setOnInsert"} {
							if ops[o] != nil && ops[o].vals[k] != nil {
								v = ops[o].vals[k]
							}
						}
						if v != nil {
							c.Expect(strings.HasSuffix(valueOf(v), "."+p) && strings.HasPrefix(valueOf(v), "$2[*]"), "value-of-the-same-field", m+":"+k, where, "Insert of the Mongo storage stores %s as %q", valueOf(v), k)
							continue
						}
						ok := false
						if b := c.insertBase(e, st, ops); b != nil {
							src := e.Load(st, e.fa(b, p, fieldTyp(msg, p)), fieldTyp(msg, p))
							ok = e.nilness(st, src) == 1 || emptyText(e, st, src) == 1
						}
						c.Expect(ok, "contents-are-stored", "mongo:"+k, where, "Insert of the Mongo storage may not store %q of a message that has one (%s)", k, e.trailStr(st))
					}
				}
			}
		})
	}
	if inserts == 0 {
		c.Bad("anchor:mongo.Insert", storePkg, "Insert of the Mongo storage writes no document")
	}
	c.memReinsert()
}

// insertBase is the message whose contents an update stores.
func (c *Ctx) insertBase(e *Engine, st *State, ops map[string]*bdoc) *Term {
	for _, o := range []string{"$set", "$setOnInsert"} {
		if ops[o] == nil {
			continue
		}
		for _, k := range ops[o].keys {
			v := stripConv(unbox(ops[o].vals[k]))
			if v.Op == "load" && v.Args[0].Op == "fa" {
				return v.Args[0].Args[0]
			}
		}
	}
	return nil
}

// ---- C36 -------------------------------------------------------------------

func oidModel(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	if strings.HasSuffix(ci.Name, "bson.ObjectIDFromHex") {
		res := e.fresh(st, "opq", "oid", ci.Site, "r", ci.Sig.Results())
		er := e.ext(res, 1, types.Universe.Lookup("error").Type())
		id := e.T.mk("oidhex", "", ci.Sig.Results().At(0).Type(), ci.Args[0])
		tu := e.T.mk("tuple", "", ci.Sig.Results(), id, er)
		return []*Outcome{
			{Res: tu, Apply: func(n *State) { e.setNil(n, er, true) }},
			{Res: tu, Apply: func(n *State) { e.setNil(n, er, false) }}}, true
	}
	return nil, false
}

func runC36(c *Ctx) {
	for _, m := range []string{"Find", "Count"} {
		fn := c.mongoMethod(m)
		if fn == nil {
			continue
		}
		n := 0
		sortW := &loopWatch{key: "w36", doers: map[*ssa.Function]bool{}, is: func(e *Engine, st *State, x *Term) bool { return strings.Contains(Canon(x), "Keys") }}
		c.Explore(fn, &Opts{Event: mopEvents, KeepEvent: func(*Event) bool { return false }, Model: oidModel,
			OnLoad: func(e *Engine, st *State, addr *Term, site ssa.Instruction) { sortW.load(e, st, addr, site) },
			OnHeader: func(e *Engine, st *State, b *ssa.BasicBlock, back bool) {
				sortW.header(e, st, b, back, c, "sort-complete", "a requested sort key may be left out")
			},
			OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
				for _, x := range elems {
					if k := e.field(x, "Key", str); k != nil && strings.Contains(Canon(k), "Keys") {
						sortW.done(st)
						v := unbox(e.field(x, "Value", str))
						ok := strings.Contains(Canon(v), "Get") || strings.Contains(Canon(v), "GetOrDefault")
						c.Expect(ok, "sort-direction", m, c.at(site), "%s of the Mongo storage sorts by %s in direction %s", m, Canon(k), Canon(v))
						c.OK("sort", m)
					}
				}
			},
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				if i := strings.LastIndex(ci.Name, "OptionsBuilder).Set"); i >= 0 && len(ci.Args) == 2 {
					st.mem[e.T.mk("opt", ci.Name[i+len("OptionsBuilder).Set"):], nil)] = ci.Args[1]
				}
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				op := mop(ev.Name)
				if op != "Find" && op != "CountDocuments" {
					c.Bad("reads-with-find:"+m+":"+op, c.at(ev.Site), "%s of the Mongo storage calls %s", m, op)
					return
				}
				n++
				c.mongoFilter(e, st, m, ev)
				if m != "Find" {
					return
				}
				where := c.at(ev.Site)
				opt := e.Param("$2", nil)
				lim := st.mem[e.T.mk("opt", "Limit", nil)]
				if e.nilness(st, opt) == 1 {
					ok := lim == nil
					if lim != nil {
						k, isN := stripConv(lim).Num()
						ok = isN && k == 0 || lim.Op == "zero"
					}
					c.Expect(ok, "limit", "nil-options", where, "Find of the Mongo storage without options has the limit %s", Canon(lim))
					return
				}
				want := e.Load(st, e.fa(opt, "Limit", types.Typ[types.Int64]), types.Typ[types.Int64])
				iv := e.IvOf(st, want)
				c.Expect(lim != nil && stripConv(lim) == want || lim == nil && iv.Lo == 0 && iv.Hi == 0, "limit", "Find", where, "Find of the Mongo storage limits the result to %s, not to the requested number (%s)", Canon(lim), e.trailStr(st))
				so := st.mem[e.T.mk("opt", "Sort", nil)]
				wantS := e.Load(st, e.fa(opt, "Sort", nil), types.NewPointer(types.NewStruct(nil, nil)))
				c.Expect(so != nil || e.nilness(st, wantS) == 1, "sort", "Find", where, "Find of the Mongo storage ignores the requested order (%s)", e.trailStr(st))
				if so != nil {
					d := e.bson(st, so)
					for _, k := range d.keys {
						c.Bad("sort:extra", where, "Find of the Mongo storage also sorts by %s", k)
					}
				}
			}}, nil)
		sortW.flush(c, "sort-complete")
		if n == 0 {
			c.Bad("anchor:mongo."+m, c.P.Pos(fn.Pos()), "%s of the Mongo storage reads nothing", m)
		}
		if m == "Find" && len(sortW.doers) == 0 {
			c.Bad("sort:Find", c.P.Pos(fn.Pos()), "Find of the Mongo storage never hands the requested sort keys to the driver")
		}
	}
	c.memFilters()
}

// mongoFilter compares the filter of a read with the requested one.
func (c *Ctx) mongoFilter(e *Engine, st *State, m string, ev *Event) {
	d := e.bson(st, ev.Args[2])
	where := c.at(ev.Site)
	tr := e.trailStr(st)
	opt := e.Param("$2", nil)
	c.Expect(d.known && len(d.dyn) == 0, "filter-known", m, where, "%s of the Mongo storage applies a filter that is not known: %s (%s)", m, d, tr)
	var flt *Term
	if e.nilness(st, opt) != 1 {
		flt = e.Load(st, e.fa(opt, "InternalFilter", nil), types.NewPointer(types.NewStruct(nil, nil)))
		if e.nilness(st, flt) == 1 {
			flt = nil
		}
	}
	if flt == nil {
		c.Expect(len(d.keys) == 0, "nothing-more-than-requested", m+":none", where, "%s of the Mongo storage applies the filter %s although none was requested (%s)", m, d, tr)
		return
	}
	fld := func(f string, t types.Type) *Term { return e.Load(st, e.fa(flt, f, t), t) }
	text := func(key, f string, v *Term, oid bool) {
		src := fld(f, str)
		if v == nil {
			c.Expect(emptyText(e, st, src) == 1, "every-filter-applied", m+":"+f, where, "%s of the Mongo storage ignores the requested %s (%s)", m, f, tr)
			return
		}
		v = stripConv(unbox(v))
		if oid {
			if v.Op != "oidhex" {
				c.Bad("filter-value:"+m+":"+f, where, "%s of the Mongo storage compares %s with %s, not with the requested %s (%s)", m, key, Canon(v), f, tr)
				return
			}
			v = stripConv(v.Args[0])
		}
		c.Expect(v == src, "filter-value", m+":"+f, where, "%s of the Mongo storage compares %s with %s, not with the requested %s (%s)", m, key, Canon(v), f, tr)
		c.Expect(emptyText(e, st, src) == 2, "nothing-more-than-requested", m+":"+f, where, "%s of the Mongo storage compares %s with %s although none may have been requested (%s)", m, key, Canon(v), tr)
	}
	text("queue", "Queue", d.vals["queue"], false)
	text("queue_prefix", "QueuePrefix", d.vals["queue_prefix"], false)
	var idd *bdoc
	if v := d.vals["_id"]; v != nil {
		idd = e.bson(st, v)
		c.Expect(idd.known && len(idd.keys) > 0, "filter-known", m+":_id", where, "%s of the Mongo storage compares _id with %s (%s)", m, Canon(v), tr)
		for _, k := range idd.keys {
			c.Expect(k == "$gt" || k == "$lte", "filter-operator", m+":_id:"+k, where, "%s of the Mongo storage applies %s to _id", m, k)
		}
	} else {
		idd = &bdoc{vals: map[string]*Term{}}
	}
	text("_id", "InternalIdBreakpointGt", idd.vals["$gt"], true)
	text("_id", "InternalIdBreakpointLte", idd.vals["$lte"], true)
	// ids
	ip := fld("Ids", types.NewPointer(types.NewSlice(str)))
	nilIds := e.nilness(st, ip) == 1
	var l *Term
	iv := Iv{}
	if !nilIds {
		l = e.Load(st, ip, types.NewSlice(str))
		iv = e.IvOf(st, e.Len(l))
	}
	if v := d.vals["id"]; v == nil {
		c.Expect(nilIds || iv.Hi <= 0, "every-filter-applied", m+":Ids", where, "%s of the Mongo storage ignores the requested ids (%s)", m, tr)
	} else {
		ok := !nilIds && iv.Lo >= 1
		in := e.bson(st, v)
		if in.vals["$in"] != nil && len(in.keys) == 1 {
			ok = ok && unbox(in.vals["$in"]) == l
		} else {
			x := stripConv(unbox(v))
			ok = ok && iv.Hi == 1 && Canon(x) == Canon(l)+"[*]"
		}
		c.Expect(ok, "filter-value", m+":Ids", where, "%s of the Mongo storage compares id with %s (%s), not with the requested ids (%s)", m, Canon(v), in, tr)
	}
	// expiry date
	ep := fld("ExpiryDate", types.NewPointer(types.NewStruct(nil, nil)))
	if v := d.vals["expiry_date"]; v == nil {
		c.Expect(e.nilness(st, ep) == 1, "every-filter-applied", m+":ExpiryDate", where, "%s of the Mongo storage ignores the requested expiry date (%s)", m, tr)
	} else {
		in := e.bson(st, v)
		ok := in.vals["$lte"] != nil && len(in.keys) == 1 && e.nilness(st, ep) == 2
		if ok {
			x := Canon(unbox(in.vals["$lte"]))
			ok = x == "*"+Canon(ep) || x == Canon(ep)
		}
		c.Expect(ok, "filter-value", m+":ExpiryDate", where, "%s of the Mongo storage compares expiry_date with %s %s, expected not after the requested date (%s)", m, Canon(v), in, tr)
	}
	for _, k := range d.keys {
		switch k {
		case "queue", "queue_prefix", "_id", "id", "expiry_date":
		default:
			c.Bad("nothing-more-than-requested:"+m+":"+k, where, "%s of the Mongo storage also filters by %s", m, k)
		}
	}
}

// ---- C37 -------------------------------------------------------------------

func runC37(c *Ctx) {
	t := c.mongoImpl()
	if t == nil {
		return
	}
	keys := c.settingKeys()
	sName := t.(*types.Pointer).Elem().(*types.Named)
	var fn *ssa.Function
	if pk := c.P.Pkg(storePkg); pk != nil && pk.SSA != nil {
		for _, mem := range pk.SSA.Members {
			if f, ok := mem.(*ssa.Function); ok && f.Signature.Results().Len() == 2 && types.Identical(f.Signature.Results().At(0).Type(), t) {
				fn = f
			}
		}
	}
	if fn == nil {
		c.Bad("anchor:constructor", storePkg, "no constructor of the Mongo storage found")
		return
	}
	type coll struct{ pref, db, name string }
	fields := map[string]coll{}
	builds := 0
	errT := types.Universe.Lookup("error").Type()
	model := func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
		if g := configGetter(c.P, ci); g != "" {
			a := strip(ci.Args[0])
			if a.Op == "load" {
				a = a.Args[0]
			}
			key := keys[a.Str]
			switch {
			case strings.HasSuffix(key, ".attempts"):
				return []*Outcome{{Res: e.T.Int(1)}}, true
			case strings.HasSuffix(key, ".enabled"):
				return []*Outcome{{Res: e.T.Bool(false)}}, true
			}
			r := e.T.mk("cfg", key, ci.Sig.Results().At(0).Type())
			return []*Outcome{{Res: r}}, true
		}
		n := ci.Name
		switch {
		case strings.HasSuffix(n, "readpref.PrimaryPreferred"), strings.HasSuffix(n, "readpref.SecondaryPreferred"), strings.HasSuffix(n, "readpref.Primary"), strings.HasSuffix(n, "readpref.Secondary"), strings.HasSuffix(n, "readpref.Nearest"):
			r := e.T.mk("rp", n[strings.LastIndex(n, ".")+1:], ci.Sig.Results().At(0).Type())
			return []*Outcome{{Res: r, Apply: func(s *State) { e.setNil(s, r, false) }}}, true
		case strings.HasSuffix(n, "options.Client"):
			r := e.fresh(st, "opq", "clientopts", ci.Site, "r", ci.Sig.Results().At(0).Type())
			return []*Outcome{{Res: r, Apply: func(s *State) { e.setNil(s, r, false) }}}, true
		case strings.HasSuffix(n, "mongo.Connect"):
			var o *Term
			for _, x := range e.Elems(st, ci.Args[0]) {
				o = strip(x)
			}
			if o == nil {
				return nil, false
			}
			rp := st.mem[e.T.mk("rpof", "", nil, o)]
			if rp == nil {
				rp = e.T.mk("rp", "none", nil)
			}
			cl := e.T.mk("mclient", rp.Str, ci.Sig.Results().At(0).Type(), o)
			er := e.fresh(st, "opq", "connecterr", ci.Site, "e", errT)
			er.Typ = errT
			tu := e.T.mk("tuple", "", ci.Sig.Results(), cl, er)
			return []*Outcome{{Res: tu, Apply: func(s *State) { e.setNil(s, er, true); e.setNil(s, cl, false) }}, {Res: tu, Apply: func(s *State) { e.setNil(s, er, false) }}}, true
		case strings.HasSuffix(n, "mongo.Client).Database"):
			return []*Outcome{{Res: e.T.mk("mdb", "", ci.Sig.Results().At(0).Type(), strip(ci.Args[0]), strip(ci.Args[1]))}}, true
		case strings.HasSuffix(n, "mongo.Database).Collection"):
			return []*Outcome{{Res: e.T.mk("mcoll", "", ci.Sig.Results().At(0).Type(), strip(ci.Args[0]), strip(ci.Args[1]))}}, true
		}
		return nil, false
	}
	c.Explore(fn, &Opts{Unroll: true, NoEscape: true, Model: model, KeepEvent: func(*Event) bool { return false },
		OnCall: func(e *Engine, st *State, ci *CallInfo) {
			if strings.HasSuffix(ci.Name, "ClientOptions).SetReadPreference") && len(ci.Args) == 2 {
				st.mem[e.T.mk("rpof", "", nil, strip(ci.Args[0]))] = strip(ci.Args[1])
			}
			if strings.HasSuffix(ci.Name, "ClientOptions).ApplyURI") {
				if rp := st.mem[e.T.mk("rpof", "", nil, strip(ci.Args[0]))]; rp != nil {
					// the URI may name another preference
					st.mem[e.T.mk("rpof", "", nil, strip(ci.Args[0]))] = e.T.mk("rp", rp.Str+"-or-uri", nil)
				}
			}
		},
		OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.Op == "fa" && addr.Str == "ReadPreference" {
				st.mem[e.T.mk("rpof", "", nil, strip(addr.Args[0]))] = strip(val)
			}
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) == 2 || e.nilness(st, res[0]) == 1 {
				return
			}
			builds++
			s := sName.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				v := strip(e.Load(st, e.fa(res[0], f.Name(), f.Type()), f.Type()))
				if v.Op != "mcoll" || v.Args[0].Op != "mdb" {
					continue
				}
				db := v.Args[0]
				x := coll{"?", Canon2(db.Args[1]), Canon2(v.Args[1])}
				if db.Args[0].Op == "mclient" {
					x.pref = db.Args[0].Str
				}
				if o, ok := fields[f.Name()]; ok && o != x {
					c.Bad("constructor:"+f.Name(), c.P.Pos(fn.Pos()), "the collection %s depends on the path: %v or %v", f.Name(), o, x)
				}
				fields[f.Name()] = x
			}
		}}, nil)
	if builds == 0 {
		c.Bad("anchor:constructor", c.P.Pos(fn.Pos()), "the constructor of the Mongo storage never succeeds")
		return
	}
	find := c.P.methodOf(t, "Find")
	if find == nil {
		c.Bad("anchor:Find", storePkg, "Find not found")
		return
	}
	used := map[string]bool{}
	c.Explore(find, &Opts{Event: mopEvents, KeepEvent: func(*Event) bool { return false }, Model: oidModel, OnEvent: func(e *Engine, st *State, ev *Event) {
		if mop(ev.Name) != "Find" {
			return
		}
		r := strip(ev.Args[0])
		f := ""
		if r.Op == "load" && r.Args[0].Op == "fa" && Canon(r.Args[0].Args[0]) == "$0" {
			f = r.Args[0].Str
		}
		x, ok := fields[f]
		where := c.at(ev.Site)
		if !c.Expect(ok, "known-collection", f, where, "Find reads from %s, which the constructor does not set", Canon(r)) {
			return
		}
		retry := 2
		if opt := e.Param("$2", nil); e.nilness(st, opt) != 1 {
			retry = e.Truth(st, e.Load(st, e.fa(opt, "Retry", types.Typ[types.Bool]), types.Typ[types.Bool]))
		}
		switch retry {
		case 1:
			used["retry"] = true
			c.Expect(x.pref == "PrimaryPreferred" || x.pref == "Primary", "retry-reads-the-primary", "retry", where, "a retry read uses the client with read preference %s (%s)", x.pref, e.trailStr(st))
		case 2:
			used["ordinary"] = true
			c.Expect(x.pref == "SecondaryPreferred" || x.pref == "Secondary", "ordinary-reads-prefer-secondaries", "ordinary", where, "an ordinary read uses the client with read preference %s (%s)", x.pref, e.trailStr(st))
		default:
			c.Bad("retry-decides:"+f, where, "Find reads from %s whether it is a retry or not (%s)", f, e.trailStr(st))
		}
		c.Expect(x.db == "mongo.database" && x.name == "mongo.collection", "same-collection", f, where, "Find reads from collection %s of database %s", x.name, x.db)
	}}, nil)
	for _, k := range []string{"retry", "ordinary"} {
		c.Expect(used[k], "anchor", k, c.P.Pos(find.Pos()), "no %s read found", k)
	}
	cfgs := 0
	for n, x := range fields {
		c.Expect(x.db == "mongo.database", "one-database", n, c.P.Pos(fn.Pos()), "the collection %s is in database %s", n, x.db)
		switch x.name {
		case "mongo.collection":
		case "mongo.queue_configuration_collection":
			cfgs++
		default:
			c.Bad("collection-name:"+n, c.P.Pos(fn.Pos()), "the field %s is the collection %s", n, x.name)
		}
	}
	c.Expect(cfgs >= 1, "configuration-collection", "", c.P.Pos(fn.Pos()), "no collection for queue configurations")
}

func Canon2(t *Term) string {
	if t.Op == "cfg" {
		return t.Str
	}
	return Canon(t)
}
