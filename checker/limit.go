package main

import (
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C65", Min: 18, Pkgs: []string{queuePkg, storePkg},
		Technique: "Path-sensitive typestate of one local cache entry over every edit and read, with value flow from the request to the stored limit in both storages",
		Note:      "All paths of the edit and the read of the queue configuration service (the local cache may hold any value or none, every storage call may fail) and of the same operations of both storages. go-cache and the Mongo driver are trusted. Edits that race with a read of the same queue are outside: a read that started before the edit may cache what it read.",
		Run:       runC65})
}

const (
	queuePkg = "internal/queue"
	confType = "QueueConfiguration"
)

// localOp names an operation of the local cache.
func localOp(n string) string {
	if i := strings.Index(n, "patrickmn/go-cache."); i >= 0 && strings.Contains(n, ").") {
		return n[strings.LastIndexByte(n, '.')+1:]
	}
	return ""
}

func runC65(c *Ctx) {
	c.limitService()
	c.limitMongo()
	c.limitMemory()
}

func (c *Ctx) limitService() {
	var svc types.Type
	for _, t := range c.P.Impls(queuePkg, "QueueConfigurationService") {
		p, ok := t.(*types.Pointer)
		if !ok {
			continue
		}
		if n, ok := p.Elem().(*types.Named); ok && strings.HasSuffix(n.Obj().Pkg().Path(), queuePkg) {
			svc = t
		}
	}
	if svc == nil {
		c.Bad("anchor:queue-configuration-service", queuePkg, "no implementation of the queue configuration service found")
		return
	}
	conf := c.P.Named("internal/queue/configuration", confType)
	if conf == nil {
		c.Bad("anchor:queue-configuration", queuePkg, "the queue configuration type was not found")
		return
	}
	cp := types.NewPointer(conf)
	i64, str := types.Typ[types.Int64], types.Typ[types.String]

	cached := func(e *Engine) *Term { return e.T.mk("call", "cached", cp) }
	limit := func(e *Engine, st *State, p *Term) *Term { return e.Load(st, e.fa(p, "MaxElements", i64), i64) }
	name := func(e *Engine, st *State, p *Term) *Term { return e.Load(st, e.fa(p, "Queue", str), str) }

	for _, op := range []string{"EditQueueConfiguration", "GetQueueConfiguration"} {
		op := op
		edit := op == "EditQueueConfiguration"
		fn := c.P.methodOf(svc, op)
		if fn == nil || len(fn.Blocks) == 0 {
			c.Bad("anchor:"+op, queuePkg, "%s not found", op)
			continue
		}
		pos := c.P.Pos(fn.Pos())
		key := "$2"
		if edit {
			key = "$2.Queue"
		}
		calls := 0
		model := func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			o := localOp(ci.Name)
			if o == "" || len(ci.Args) == 0 {
				return nil, false
			}
			where := c.at(ci.Site)
			own := func() bool {
				ok := len(ci.Args) > 1 && Canon(stripConv(ci.Args[1])) == key
				return c.Expect(ok, "local-cache-key", op+"."+o, where, "%s uses the local cache entry of another queue than the one of the request", op)
			}
			switch o {
			case "Get", "GetWithExpiration":
				own()
				vals := []*Term{e.T.mk("iface", "", cp, cached(e)), e.T.Bool(true)}
				none := []*Term{e.T.Nil(), e.T.Bool(false)}
				if o != "Get" {
					exp := e.fresh(st, "opq", "exp", ci.Site, "x", ci.Sig.Results().At(1).Type())
					vals = []*Term{vals[0], exp, vals[1]}
					none = []*Term{none[0], exp, none[1]}
				}
				hit := &Outcome{Res: e.T.mk("tuple", "", ci.Sig.Results(), vals...), Apply: func(n *State) {
					n.ghost["local"] = "hit"
					e.setNil(n, cached(e), false)
				}}
				miss := &Outcome{Res: e.T.mk("tuple", "", ci.Sig.Results(), none...), Apply: func(n *State) { n.ghost["local"] = "miss" }}
				switch st.ghost["local"] {
				case "hit":
					return []*Outcome{hit}, true
				case "miss":
					return []*Outcome{miss}, true
				}
				return []*Outcome{hit, miss}, true
			case "Delete", "Flush":
				if o == "Delete" {
					own()
				}
				return []*Outcome{{Res: e.T.mk("tuple", "", ci.Sig.Results()), Apply: func(n *State) {
					n.ghost["dropped"] = n.ghost["storage"] + "+"
					delete(n.ghost, "stored")
				}}}, true
			case "Set", "SetDefault", "Add", "Replace":
				own()
				v := ci.Args[2]
				p := unbox(v)
				if v.Op != "iface" || v.Typ == nil || !types.Identical(v.Typ, cp) {
					c.Bad("local-cache-type:"+op, where, "%s caches a %s, reads expect a *%s", op, Canon(v), confType)
				}
				if o != "SetDefault" {
					iv := e.IvOf(st, ci.Args[3])
					c.Expect(!iv.NaN && iv.Lo >= 0, "local-cache-entries-expire", op, where, "%s caches a configuration that never expires: an edit made through another instance is never seen", op)
				}
				st.ghost["put"] = Canon(p)
				if edit {
					good := Canon(stripConv(name(e, st, p))) == key && (stripConv(limit(e, st, p)) == reqField(e, "MaxElements") && e.IvOf(st, reqField(e, "MaxElements")).Lo > 0)
					c.Expect(good && st.ghost["storage"] == "ok", "cached-after-edit", op, where, "an edit caches a value that need not be the stored one (%s)", e.trailStr(st))
					st.ghost["dropped"] = st.ghost["storage"] + "+"
				} else {
					c.Expect(st.ghost["storage"] == "ok", "failed-read-not-remembered", op, where, "a read that did not reach the storage, or failed, is remembered (%s)", e.trailStr(st))
					st.ghost["value"] = p.String()
				}
				res := e.T.mk("tuple", "", ci.Sig.Results())
				if ci.Sig.Results().Len() == 1 {
					res = e.fresh(st, "opq", o, ci.Site, "x", ci.Sig.Results().At(0).Type())
				}
				return []*Outcome{{Res: res}}, true
			}
			return nil, false
		}
		c.Explore(fn, &Opts{Event: roleEvents, NilParams: true, Model: model,
			OnEvent: func(e *Engine, st *State, ev *Event) {
				r := role(ev.Name)
				if !strings.HasPrefix(r, "storage.") {
					return
				}
				where := c.at(ev.Site)
				calls++
				if edit {
					c.Expect(r == "storage."+op, "edit-reaches-storage", "call", where, "the edit calls %s", r)
					if r != "storage."+op {
						return
					}
					a := ev.Args[2]
					ok := Canon(stripConv(name(e, st, a))) == key && stripConv(limit(e, st, a)) == reqField(e, "MaxElements")
					c.Expect(ok, "edit-value", "", where, "the edit sends queue %s with limit %s to the storage, not the requested ones (%s)", Canon(name(e, st, a)), Canon(limit(e, st, a)), e.trailStr(st))
					if st.ghost["storage"] == "ok" || st.ghost["storage"] == "failed" {
						return
					}
				} else {
					c.Expect(r == "storage."+op && Canon(stripConv(ev.Args[2])) == key, "read-key", "", where, "the read calls %s with %s, not with the requested queue", r, Canon(ev.Args[2]))
				}
				st.ghost["storage"] = "ok"
				st.ghost["result"] = ev.Res.String()
			},
			OnFail: func(e *Engine, st *State, ev *Event) {
				if strings.HasPrefix(role(ev.Name), "storage.") {
					st.ghost["storage"] = "failed"
				}
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				tr := e.trailStr(st)
				er := e.nilness(st, res[len(res)-1])
				if edit {
					src := reqField(e, "MaxElements")
					switch st.ghost["storage"] {
					case "failed":
						c.Expect(er == 2, "failed-edit-reported", "", pos, "an edit that the storage refused is reported as done (%s)", tr)
					case "ok":
						c.Expect(er == 1, "stored-edit-reported", "", pos, "an edit that was stored is reported as failed (%s)", tr)
						if st.ghost["local"] != "miss" {
							c.Expect(st.ghost["dropped"] == "ok+", "cached-limit-dropped-after-edit", "", pos, "after an edit was stored the limit cached before it is still served: the local entry of the queue is not removed once the storage has the new value (%s)", tr)
						}
					default:
						if e.nilness(st, e.Param("$2", cp)) == 1 {
							c.OK("nothing-to-edit", "nil")
							return
						}
						s2 := st.clone()
						if e.setIv(s2, src, Iv{Lo: 1, Hi: two63}) || e.setIv(st.clone(), src, Iv{Lo: -two63, Hi: -1}) {
							eq := e.Truth(st, e.Eq(limit(e, st, cached(e)), src))
							same := st.ghost["local"] == "hit" && eq == 1
							c.Expect(same || er == 2, "edit-stored", "", pos, "a change of the limit to %s is not stored although the limit known for the queue may be another one (%s)", e.IvOf(st, src), tr)
						} else {
							c.OK("nothing-to-edit", "zero")
						}
					}
					return
				}
				v := res[0]
				if st.ghost["local"] == "hit" && st.ghost["storage"] == "" {
					c.Expect(unbox(v) == cached(e) && er == 1, "cached-read", "", pos, "a read answers %s although the limit of the queue is cached (%s)", Canon(v), tr)
					return
				}
				switch st.ghost["storage"] {
				case "failed":
					c.Expect(er == 2, "failed-read-reported", "", pos, "a failed read of the configuration is reported as an answer (%s)", tr)
				case "ok":
					if !c.Expect(er == 1 && e.nilness(st, v) == 2, "read-answers", "", pos, "a read that reached the storage gives no configuration (%s)", tr) {
						return
					}
					if unbox(v).Op == "alloc" {
						// the storage has none
						none := false
						for t, f := range st.facts {
							if f.Nil == 1 && strings.Contains(Canon(t), "GetQueueConfiguration") && !isErrT(t.Typ) {
								none = true
							}
						}
						c.Expect(none, "default-only-when-none-stored", "", pos, "a read answers a new configuration although one may be stored (%s)", tr)
						q, l := name(e, st, v), e.IvOf(st, limit(e, st, v))
						c.Expect(Canon(stripConv(q)) == key && l.Lo == 0 && l.Hi == 0, "default-has-no-limit", "", pos, "the configuration of a queue without stored limit is queue %s with limit %s (%s)", Canon(q), l, tr)
					} else {
						c.Expect(strings.Contains(Canon(v), "GetQueueConfiguration"), "read-answers-the-stored-limit", "", pos, "a read answers %s, not what is stored (%s)", Canon(v), tr)
					}
					c.Expect(st.ghost["value"] == unbox(v).String(), "read-remembered", "", pos, "a read does not remember the configuration it answers (%s)", tr)
				default:
					c.Bad("read-reaches-storage", pos, "a read of a queue that is not cached does not reach the storage (%s)", tr)
				}
			}}, nil)
		if calls == 0 {
			c.Bad("anchor:"+op+"-storage", pos, "%s never reaches the storage", op)
		}
	}

	// the local cache forgets: an edit made through another instance is seen after a while
	made := 0
	for _, f := range c.P.ssaPkg(queuePkg).Members {
		fn, ok := f.(*ssa.Function)
		if !ok || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), svc) {
			continue
		}
		c.Explore(fn, &Opts{
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				if strings.HasSuffix(ci.Name, "patrickmn/go-cache.New") || strings.HasSuffix(ci.Name, "patrickmn/go-cache.NewFrom") {
					made++
					iv := e.IvOf(st, ci.Args[0])
					c.Expect(!iv.NaN && iv.Lo > 0 && iv.Hi < math.Inf(1), "local-cache-expires", fn.Name(), c.at(ci.Site), "the local configuration cache keeps its entries for %s: an edit made through another instance may never be seen", iv)
				}
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				s := structOf(svc.(*types.Pointer).Elem())
				for i := 0; i < s.NumFields(); i++ {
					if strings.HasSuffix(s.Field(i).Type().String(), "/storage.Storage") {
						v := e.Load(st, e.fa(res[0], s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type())
						c.Expect(strings.HasPrefix(Canon(v), "$"), "service-uses-the-storage", fn.Name(), c.P.Pos(fn.Pos()), "the configuration service is built with the storage %s, not the one given", Canon(v))
					}
				}
			}}, nil)
	}
	if made == 0 {
		c.Bad("anchor:local-cache", queuePkg, "the construction of the local configuration cache was not found")
	}
}

// limitSplit checks the value stored for negative and for positive requests, and that zero stores nothing.
func (c *Ctx) limitSplit(e *Engine, st *State, what, where string, v *Term) {
	src := reqField(e, "MaxElements")
	tr := e.trailStr(st)
	if s := st.clone(); e.setIv(s, src, Iv{}) {
		c.Bad("zero-changes-nothing:"+what, where, "%s changes the stored limit of a queue when the request names none (%s)", what, tr)
	} else {
		c.OK("zero-changes-nothing", what)
	}
	if s := st.clone(); e.setIv(s, src, Iv{Lo: -two63, Hi: -1}) {
		iv := e.IvOf(s, v)
		c.Expect(!iv.NaN && iv.Lo == 0 && iv.Hi == 0, "negative-removes-the-limit", what, where, "%s stores %s for a negative limit instead of removing it (%s)", what, Canon(v), tr)
	}
	if s := st.clone(); e.setIv(s, src, Iv{Lo: 1, Hi: two63}) {
		ok, got := clampOf(e, s, v, src, 1, two63)
		if b := stripConv(v); !ok && b.Op == "call" && strings.HasPrefix(b.Str, "max") {
			for i, a := range b.Args {
				if stripConv(a) == src && e.IvOf(s, b.Args[1-i%2]).Hi <= 1 {
					ok = true
				}
			}
		}
		c.Expect(ok, "limit-stored-as-requested", what, where, "%s stores the limit %s instead of the requested one (%s)", what, got, tr)
	}
}

// unstored: a path that stores nothing must be one where the request names no limit.
func (c *Ctx) unstored(e *Engine, st *State, what, where string, res []*Term) {
	src := reqField(e, "MaxElements")
	any := e.setIv(st.clone(), src, Iv{Lo: 1, Hi: two63}) || e.setIv(st.clone(), src, Iv{Lo: -two63, Hi: -1})
	c.Expect(!any || e.nilness(st, res[len(res)-1]) == 2, "limit-stored", what, where, "%s stores nothing for a limit in %s (%s)", what, e.IvOf(st, src), e.trailStr(st))
}

func (c *Ctx) limitMongo() {
	colls := map[string]string{}
	coll := func(op string, t *Term, where string) {
		k := Canon(strip(t))
		colls[op] = k
		for o, x := range colls {
			if x != k {
				c.Bad("one-configuration-collection", where, "%s uses the collection %s, %s uses %s", op, k, o, x)
			}
		}
		c.OK("one-configuration-collection", op)
	}
	if fn := c.mongoMethod("EditQueueConfiguration"); fn != nil {
		pos := c.P.Pos(fn.Pos())
		n := 0
		c.Explore(fn, &Opts{Event: mopEvents,
			OnCall: func(e *Engine, st *State, ci *CallInfo) {
				if strings.HasSuffix(ci.Name, ".SetUpsert") && len(ci.Args) == 2 {
					b, known := ci.Args[1].Bool()
					if known && b {
						st.ghost["upsert"] = "yes"
					} else {
						st.ghost["upsert"] = "no"
					}
				}
			},
			OnStore: func(e *Engine, st *State, addr, val *Term, site ssa.Instruction) {
				if addr.Op == "fa" && addr.Str == "Upsert" {
					st.ghost["upsert"] = "yes"
				}
			},
			OnFail: func(e *Engine, st *State, ev *Event) { st.ghost["mongo"] = "failed" },
			OnEvent: func(e *Engine, st *State, ev *Event) {
				n++
				where := c.at(ev.Site)
				op := mop(ev.Name)
				st.ghost["mongo"] = "ok"
				coll("EditQueueConfiguration", ev.Args[0], where)
				var doc *bdoc
				switch op {
				case "UpdateOne", "UpdateMany", "FindOneAndUpdate":
					doc = subOps(e, st, e.bson(st, ev.Args[3]))["$set"]
				case "ReplaceOne", "FindOneAndReplace":
					doc = e.bson(st, ev.Args[3])
				default:
					c.Bad("edit-mongo:"+op, where, "the edit of the Mongo storage calls %s", op)
					return
				}
				f := e.bson(st, ev.Args[2])
				ok := f.known && len(f.keys) == 1 && len(f.dyn) == 0 && f.vals["_id"] != nil && valueOf(f.vals["_id"]) == "$2.Queue"
				c.Expect(ok, "edit-of-the-exact-queue", "mongo", where, "the edit changes the configurations matching %s, not the one of the requested queue", f)
				if doc == nil || doc.vals["max_elements"] == nil {
					c.Bad("limit-stored:mongo.field", where, "the edit does not set max_elements (%s)", e.trailStr(st))
					return
				}
				c.Expect(st.ghost["upsert"] == "yes", "edit-creates-the-configuration", "mongo", where, "the edit of a queue without stored configuration stores nothing: the update does not upsert (%s)", e.trailStr(st))
				c.limitSplit(e, st, "mongo", where, unbox(doc.vals["max_elements"]))
			},
			OnExit: func(e *Engine, st *State, res []*Term) {
				er := e.nilness(st, res[len(res)-1])
				switch st.ghost["mongo"] {
				case "failed":
					c.Expect(er == 2, "failed-edit-reported", "mongo", pos, "a failed update of the configuration is reported as done (%s)", e.trailStr(st))
				case "ok":
					c.Expect(er == 1, "stored-edit-reported", "mongo", pos, "a stored update of the configuration is reported as failed (%s)", e.trailStr(st))
				default:
					c.unstored(e, st, "mongo", pos, res)
				}
			}}, nil)
		if n == 0 {
			c.Bad("anchor:mongo.edit", pos, "the edit of the Mongo storage updates nothing")
		}
	}
	if conf := c.P.Named("internal/queue/configuration", confType); conf != nil {
		if sn, ok := conf.Underlying().(*types.Struct); ok {
			for i := 0; i < sn.NumFields(); i++ {
				want := map[string]string{"MaxElements": "max_elements", "Queue": "_id"}[sn.Field(i).Name()]
				if want == "" {
					continue
				}
				tag := strings.Split(reflect.StructTag(sn.Tag(i)).Get("bson"), ",")[0]
				c.Expect(tag == want, "read-as-it-was-stored", sn.Field(i).Name(), c.P.Pos(sn.Field(i).Pos()), "the field %s is read from %q, it is stored as %q", sn.Field(i).Name(), tag, want)
			}
		}
	}
	fn := c.mongoMethod("GetQueueConfiguration")
	if fn == nil {
		return
	}
	pos := c.P.Pos(fn.Pos())
	errT := types.Universe.Lookup("error").Type()
	n := 0
	decoded := func(e *Engine) *Term { return e.T.mk("call", "decode.err", errT) }
	missing := func(t *Term) bool { return strings.Contains(Canon(t), "ErrNoDocuments") }
	c.Explore(fn, &Opts{Event: mopEvents, NoErrFork: func(string) bool { return true },
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			switch {
			case strings.HasSuffix(ci.Name, "mongo.SingleResult).Decode"):
				d := decoded(e)
				d.Typ = errT
				st.ghost["into"] = unbox(ci.Args[1]).String()
				return []*Outcome{
					{Res: d, Apply: func(n *State) { e.setNil(n, d, true); n.ghost["read"] = "ok" }},
					{Res: d, Apply: func(n *State) { e.setNil(n, d, false); n.ghost["read"] = "failed" }},
				}, true
			case ci.Name == "errors.Is" && len(ci.Args) == 2 && missing(ci.Args[1]):
				if st.ghost["read"] != "failed" {
					return []*Outcome{{Res: e.T.Bool(false)}}, true
				}
				return []*Outcome{
					{Res: e.T.Bool(true), Apply: func(n *State) { n.ghost["read"] = "none" }},
					{Res: e.T.Bool(false)},
				}, true
			}
			return nil, false
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			n++
			where := c.at(ev.Site)
			coll("GetQueueConfiguration", ev.Args[0], where)
			if op := mop(ev.Name); op != "FindOne" {
				c.Bad("read-mongo:"+op, where, "the read of the Mongo storage calls %s", op)
				return
			}
			f := e.bson(st, ev.Args[2])
			ok := f.known && len(f.keys) == 1 && len(f.dyn) == 0 && f.vals["_id"] != nil && valueOf(f.vals["_id"]) == "$2"
			c.Expect(ok, "read-of-the-exact-queue", "mongo", where, "the read answers the configuration matching %s, not the one of the requested queue", f)
		},
		OnExit: func(e *Engine, st *State, res []*Term) {
			tr := e.trailStr(st)
			er := e.nilness(st, res[1])
			v := e.nilness(st, res[0])
			how := st.ghost["read"]
			if how == "failed" {
				for t, f := range st.facts {
					if t.Op == "eq" && f.B == 1 && missing(t) {
						how = "none"
					}
				}
			}
			switch how {
			case "ok":
				c.Expect(er == 1 && v == 2 && unbox(res[0]).String() == st.ghost["into"], "read-answers-the-stored-limit", "mongo", pos, "the read answers %s, not the configuration it found (%s)", Canon(res[0]), tr)
			case "none":
				c.Expect(er == 1 && v == 1, "none-stored", "mongo", pos, "the read of a queue without stored configuration answers %s and error %s (%s)", Canon(res[0]), Canon(res[1]), tr)
			case "failed":
				c.Expect(er == 2, "failed-read-reported", "mongo", pos, "a failed read is reported as an answer (%s)", tr)
			default:
				c.Bad("read-mongo:nothing", pos, "the read of the Mongo storage reads nothing (%s)", tr)
			}
		}}, nil)
	if n == 0 {
		c.Bad("anchor:mongo.read", pos, "the read of the Mongo storage reads nothing")
	}
}

func (c *Ctx) limitMemory() {
	for _, d := range c.memDocsOf() {
		field := ""
		s := structOf(d.t.(*types.Pointer).Elem())
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && strings.HasSuffix(m.Elem().String(), "."+confType) {
				field = s.Field(i).Name()
			}
		}
		if field == "" {
			c.Bad("anchor:memory.configurations", storePkg, "the in-memory storage has no map of configurations")
			return
		}
		is := func(m *Term) bool { return m != nil && Canon(strip(m)) == "$0."+field }
		i64, str := types.Typ[types.Int64], types.Typ[types.String]
		fa := func(e *Engine, st *State, p *Term, n string, t types.Type) *Term {
			p = unbox(p)
			if p.Typ != nil {
				if _, ok := p.Typ.Underlying().(*types.Pointer); !ok {
					return e.field(p, n, t)
				}
			}
			return e.Load(st, e.fa(p, n, t), t)
		}
		if fn := c.P.methodOf(d.t, "EditQueueConfiguration"); fn != nil {
			pos := c.P.Pos(fn.Pos())
			c.Explore(fn, &Opts{
				OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
					if !is(m) {
						return
					}
					where := c.at(site)
					switch kind {
					case "update":
						st.ghost["put"] = "yes"
						q := Canon(stripConv(fa(e, st, v, "Queue", str)))
						c.Expect(Canon(stripConv(k)) == "$2.Queue" && q == "$2.Queue", "edit-of-the-exact-queue", "memory", where, "the edit stores a configuration of queue %s under %s, not under the requested queue", q, Canon(k))
						c.limitSplit(e, st, "memory", where, fa(e, st, v, "MaxElements", i64))
					case "delete":
						// no configuration is no limit
						c.Expect(Canon(stripConv(k)) == "$2.Queue" && e.IvOf(st, reqField(e, "MaxElements")).Hi < 0, "edit-of-the-exact-queue", "memory.delete", where, "the edit deletes a configuration (%s)", e.trailStr(st))
						st.ghost["put"] = "yes"
					case "clear":
						c.Bad("edit-of-the-exact-queue:memory.clear", where, "the edit deletes every configuration")
					}
				},
				OnExit: func(e *Engine, st *State, res []*Term) {
					if st.ghost["put"] == "" {
						c.unstored(e, st, "memory", pos, res)
					} else {
						c.Expect(e.nilness(st, res[0]) == 1, "stored-edit-reported", "memory", pos, "a stored edit is reported as failed (%s)", e.trailStr(st))
					}
				}}, nil)
		}
		if fn := c.P.methodOf(d.t, "GetQueueConfiguration"); fn != nil {
			pos := c.P.Pos(fn.Pos())
			c.Explore(fn, &Opts{
				OnMap: func(e *Engine, st *State, kind string, m, k, v *Term, site ssa.Instruction) {
					if !is(m) {
						return
					}
					c.Expect(kind == "lookup" && Canon(stripConv(k)) == "$2", "read-of-the-exact-queue", "memory", c.at(site), "the read of the in-memory storage does not look up the requested queue (%s of %s)", kind, Canon(k))
				},
				OnExit: func(e *Engine, st *State, res []*Term) {
					if e.nilness(st, res[1]) != 1 {
						c.Bad("read-answers-the-stored-limit:memory", pos, "the read of the in-memory storage fails (%s)", e.trailStr(st))
						return
					}
					if e.nilness(st, res[0]) == 1 {
						c.OK("read-answers-the-stored-limit", "memory none")
						return
					}
					s := Canon(res[0])
					ok := strings.Contains(s, "$0."+field)
					if !ok && unbox(res[0]).Op == "alloc" {
						ok = strings.Contains(Canon(fa(e, st, res[0], "MaxElements", i64)), "$0."+field)
					}
					c.Expect(ok, "read-answers-the-stored-limit", "memory", pos, "the read of the in-memory storage answers %s, not what is stored (%s)", s, e.trailStr(st))
				}}, nil)
		}
	}
}
