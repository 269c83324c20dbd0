package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08", Min: 20, Pkgs: []string{"internal/service", "internal/config"},
		Technique: "Path-sensitive dataflow from the TLS settings to the server options, with lists of configured files unrolled symbolically",
		Note:      "Every path of the gRPC start-up for every combination of empty and non-empty settings and lists of 1..3 symbolic file names on each side: a server may be created without credentials only where both server settings are known to be empty; every credential set must hold each configured pair and client CA and the client-auth mode of the configured name.",
		Run:       runC08})
	register(&Check{ID: "C10", Min: 7, Pkgs: []string{"internal/service", "internal/config"},
		Technique: "Value-flow analysis from configuration keys to gRPC server options on every start-up path",
		Note:      "Each server option reaching grpc.NewServer on any path is traced to the configuration key it is read from; keepalive fields must be unset or come from their own key.",
		Run:       runC10})
	register(&Check{ID: "C66", Min: 3, Pkgs: svcPkgs,
		Technique: "Path-sensitive value flow with interval arithmetic on the expiry date of every message Add creates",
		Note:      "All paths of Add up to the point a message joins the batch: the expiry date is now, plus the requested minutes, plus one hundred years when timeless, and no duration product can overflow for any requested number of minutes.",
		Run:       runC66})
}

// cfgArg: the setting key a configuration getter term reads, and the getter.
func (c *Ctx) cfgArg(t *Term, ss map[string]*setting) (key, getter string) {
	t = stripConv(t)
	if t.Op != "call" || !strings.HasPrefix(t.Str, "config.Get") || len(t.Args) != 1 {
		return "", ""
	}
	a := strip(t.Args[0])
	if a.Op == "load" {
		a = a.Args[0]
	}
	if a.Op != "global" || ss[a.Str] == nil {
		return "?", strings.TrimPrefix(t.Str, "config.")
	}
	return ss[a.Str].key, strings.TrimPrefix(t.Str, "config.")
}

func (c *Ctx) settingMap() map[string]*setting {
	m := map[string]*setting{}
	for _, s := range c.settings() {
		m[s.global] = s
	}
	return m
}

// emptyText: 1 known empty, 2 known not empty, 0 unknown.
func emptyText(e *Engine, st *State, t *Term) int {
	if x := e.Truth(st, e.Eq(t, e.T.S(""))); x != 0 {
		return x
	}
	iv := e.IvOf(st, e.Len(t))
	if iv.Hi <= 0 {
		return 1
	}
	if iv.Lo >= 1 {
		return 2
	}
	if f, ok := st.facts[t]; ok && f.SEq != nil {
		if *f.SEq == "" {
			return 1
		}
		return 2
	}
	return 0
}

const (
	keyCert  = "tls.server.cert_file_paths"
	keyKey   = "tls.server.key_file_paths"
	keyCA    = "tls.client.cert_file_paths"
	keyAuth  = "tls.client.auth_type"
	fnNewTLS = "google.golang.org/grpc/credentials.NewTLS"
	fnCreds  = "google.golang.org/grpc.Creds"
	fnServer = "google.golang.org/grpc.NewServer"
	fnPair   = "crypto/tls.LoadX509KeyPair"
)

// serve finds the start-up function of the gRPC server.
func (c *Ctx) serve() *ssa.Function {
	t := c.server()
	if t == nil {
		return nil
	}
	fn := c.P.methodOf(t, "ServeGRPCServer")
	if fn == nil || len(fn.Blocks) == 0 {
		c.Bad("anchor:serve", "?", "ServeGRPCServer not found")
		return nil
	}
	return fn
}

func optionModel(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
	n := strings.TrimPrefix(ci.Name, "google.golang.org/grpc.")
	if n == ci.Name || ci.Sig.Results().Len() != 1 || ci.Sig.Recv() != nil {
		return nil, false
	}
	if nt, ok := types.Unalias(ci.Sig.Results().At(0).Type()).(*types.Named); ok && nt.Obj().Name() == "ServerOption" {
		return []*Outcome{{Res: e.T.mk("call", ci.Name, nt, ci.Args...)}}, true
	}
	return nil, false
}

func trimmed(t *Term) *Term {
	t = stripConv(t)
	for t.Op == "call" && t.Str == "strings.TrimSpace" {
		t = stripConv(t.Args[0])
	}
	return t
}

func runC08(c *Ctx) {
	fn := c.serve()
	ss := c.settingMap()
	if fn == nil || len(ss) == 0 {
		return
	}
	auth := map[string]int64{}
	if p := c.P.Pkgs["crypto/tls"]; p != nil && p.Types != nil {
		for _, n := range []string{"NoClientCert", "RequestClientCert", "RequireAnyClientCert", "VerifyClientCertIfGiven", "RequireAndVerifyClientCert"} {
			if k, ok := p.Types.Scope().Lookup(n).(*types.Const); ok {
				auth[n], _ = constant.Int64Val(k.Val())
			}
		}
	}
	if len(auth) != 5 {
		c.Bad("anchor:auth-modes", "?", "client authentication modes of crypto/tls not found")
		return
	}
	served := map[string]bool{}
	modes := map[string]bool{}
	for _, n := range [][3]int{{1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {1, 2, 1}, {2, 1, 1}, {3, 2, 1}, {2, 3, 1}} {
		lists := map[string][]*Term{}
		elems := func(e *Engine, key string, k int) []*Term {
			var out []*Term
			for i := 0; i < k; i++ {
				out = append(out, e.Param(fmt.Sprintf("%s[%d]", key, i), types.Typ[types.String]))
			}
			return out
		}
		cnt := map[string]int{keyCert: n[0], keyKey: n[1], keyCA: n[2]}
		label := fmt.Sprintf("%d certificates, %d keys, %d client CAs", n[0], n[1], n[2])
		get := func(e *Engine, key string) *Term {
			for g, s := range ss {
				if s.key == key {
					return e.T.mk("call", "config.Get", nil, e.T.mk("load", "", nil, e.T.mk("global", g, nil)))
				}
			}
			return e.T.Nil()
		}
		c.Explore(fn, &Opts{Unroll: true, NoEscape: true,
			Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
				if o, ok := optionModel(e, st, ci); ok {
					return o, ok
				}
				switch ci.Name {
				case "strings.Split":
					key, g := c.cfgArg(ci.Args[0], ss)
					sep, _ := ci.Args[1].StrVal()
					if k := cnt[key]; k > 0 && g == "Get" {
						c.Expect(sep == ",", "list-separator", key, c.at(ci.Site), "the list of %s is split at %q, the documentation says comma", key, sep)
						return []*Outcome{{Res: e.mkSlice(st, ci.Site, types.Typ[types.String], elems(e, key, k)...)}}, true
					}
				case fnPair, "io/ioutil.ReadFile", "os.ReadFile":
					t := e.T.mk("call", ci.Name, ci.Sig.Results(), ci.Args...)
					r0, r1 := e.ext(t, 0, ci.Sig.Results().At(0).Type()), e.ext(t, 1, ci.Sig.Results().At(1).Type())
					isNil := e.Eq(r1, e.T.Nil())
					tu := e.T.mk("tuple", "", ci.Sig.Results(), r0, r1)
					return []*Outcome{{Res: tu, Assume: []Assumption{{isNil, true}}}, {Res: tu, Assume: []Assumption{{isNil, false}}}}, true
				}
				return nil, false
			},
			Event: func(ci *CallInfo) bool {
				return ci.Name == fnServer || ci.Name == fnNewTLS || ci.Name == "(*crypto/x509.CertPool).AppendCertsFromPEM" || ci.Name == "(*crypto/x509.CertPool).AddCert"
			},
			OnEvent: func(e *Engine, st *State, ev *Event) {
				switch ev.Name {
				case fnNewTLS:
					st.facts[ev.Res] = Fact{Nil: 2}
					cfg := strip(ev.Args[0])
					sl := func(f string) *Term {
						return e.Load(st, e.fa(cfg, f, fieldTyp(c.P.NamedAny("crypto/tls", "Config"), f)), fieldTyp(c.P.NamedAny("crypto/tls", "Config"), f))
					}
					got, ok := e.exactList(st, sl("Certificates"))
					okPairs := ok && n[0] == n[1] && len(got) >= n[0]
					var miss string
					for i := 0; okPairs && i < n[0]; i++ {
						have := false
						for _, x := range got {
							x = stripConv(x)
							if x.Op == "ext" && x.Str == "0" && x.Args[0].Op == "call" && x.Args[0].Str == fnPair &&
								trimmed(x.Args[0].Args[0]) == elems(e, keyCert, n[0])[i] && trimmed(x.Args[0].Args[1]) == elems(e, keyKey, n[1])[i] &&
								e.nilness(st, e.ext(x.Args[0], 1, types.Universe.Lookup("error").Type())) == 1 {
								have = true
							}
						}
						if !have {
							okPairs = false
							miss = fmt.Sprintf("pair %d of %d", i+1, n[0])
						}
					}
					if !okPairs && miss == "" {
						miss = "the configured pairs"
					}
					var gs []string
					for _, x := range got {
						gs = append(gs, Canon(x))
					}
					c.Expect(okPairs, "all-pairs-served", label, c.at(ev.Site), "with %s, TLS credentials are created without %s: %v (%s)", label, miss, gs, e.trailStr(st))
					// client authentication mode
					at := get(e, keyAuth)
					mode := ""
					if f, ok := st.facts[at]; ok && f.SEq != nil {
						mode = *f.SEq
					}
					want, known := auth[mode]
					v, isN := stripConv(sl("ClientAuth")).Num()
					if z := sl("ClientAuth"); z.Op == "zero" {
						v, isN = 0, true
					}
					if !isN && mode == "" {
						// looked up in a table
						v, isN = -1, true
					}
					modes[mode] = true
					c.Expect(known && isN && int64(v) == want, "client-auth-mode", mode, c.at(ev.Site), "client authentication type %q yields mode %s (%s)", mode, Canon(sl("ClientAuth")), e.trailStr(st))
					// client CAs
					ca := get(e, keyCA)
					pool := strip(sl("ClientCAs"))
					switch emptyText(e, st, ca) {
					case 1:
						c.OK("no-client-ca-configured", label)
					default:
						for i := 0; i < n[2]; i++ {
							have := false
							for _, x := range st.events {
								if x.Name != "(*crypto/x509.CertPool).AppendCertsFromPEM" || strip(x.Args[0]) != pool || e.Truth(st, x.Res) != 1 {
									continue
								}
								p := stripConv(x.Args[1])
								if p.Op == "ext" && p.Args[0].Op == "call" && strings.HasSuffix(p.Args[0].Str, ".ReadFile") && trimmed(p.Args[0].Args[0]) == elems(e, keyCA, n[2])[i] {
									have = e.nilness(st, e.ext(p.Args[0], 1, types.Universe.Lookup("error").Type())) == 1
								}
							}
							c.Expect(have, "all-client-cas-verify", fmt.Sprintf("%d of %d", i+1, n[2]), c.at(ev.Site), "client CA file %d of %d is not known to be in the pool used to verify clients (%s)", i+1, n[2], e.trailStr(st))
						}
					}
				case fnServer:
					var creds []*Term
					opts, exact := e.exactList(st, ev.Args[0])
					if !exact {
						opts = e.Elems(st, ev.Args[0])
					}
					for _, o := range opts {
						o = strip(o)
						if o.Op == "call" && o.Str == fnCreds {
							creds = append(creds, strip(o.Args[0]))
						}
					}
					ec, ek := emptyText(e, st, get(e, keyCert)), emptyText(e, st, get(e, keyKey))
					tls := false
					for _, k := range creds {
						for _, x := range st.events {
							if x.Name == fnNewTLS && strip(x.Res) == k {
								tls = true
							}
						}
					}
					st8 := func(x int) string { return []string{"possibly set", "empty", "set"}[x] }
					sit := "certificate " + st8(ec) + ", key " + st8(ek)
					served[sit] = true
					if ec == 1 && ek == 1 {
						c.OK("plain-only-when-not-configured", sit)
						return
					}
					c.Expect(tls, "tls-when-configured", sit, c.at(ev.Site), "a server is created without TLS credentials although the settings are: %s (%s)", sit, e.trailStr(st))
				}
			}}, nil)
		_ = lists
	}
	both := false
	for k := range served {
		both = both || !strings.Contains(k, "empty")
	}
	c.Expect(both, "tls-can-be-served", "", c.P.Pos(fn.Pos()), "no path serves with both a certificate and a key configured")
	for m := range auth {
		c.Expect(modes[m], "client-auth-mode-accepted", m, c.P.Pos(fn.Pos()), "client authentication type %s is never accepted", m)
	}
}

// NamedAny finds a named type of any loaded package.
func (p *Program) NamedAny(path, name string) types.Type {
	if pk := p.Pkgs[path]; pk != nil && pk.Types != nil {
		if o := pk.Types.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

var grpcOptions = map[string][2]string{
	"MaxRecvMsgSize": {"grpc.server.max_recv_msg_size", "GetInt"},
	"MaxSendMsgSize": {"grpc.server.max_send_msg_size", "GetInt"},
}

var keepaliveKeys = map[string]string{
	"Time": "grpc.server.keepalive_time", "Timeout": "grpc.server.keepalive_timeout", "MaxConnectionIdle": "grpc.server.max_connection_idle",
	"MaxConnectionAge": "grpc.server.max_connection_age", "MaxConnectionAgeGrace": "grpc.server.max_connection_age_grace",
}

func runC10(c *Ctx) {
	fn := c.serve()
	ss := c.settingMap()
	if fn == nil || len(ss) == 0 {
		return
	}
	kp := c.P.NamedAny("google.golang.org/grpc/keepalive", "ServerParameters")
	if kp == nil {
		c.Bad("anchor:keepalive", "?", "keepalive.ServerParameters not found")
		return
	}
	set := map[string]bool{}
	c.Explore(fn, &Opts{NoEscape: true,
		Model: optionModel,
		Event: func(ci *CallInfo) bool {
			return ci.Name == fnServer || ci.Name == "net.Listen" || strings.HasSuffix(ci.Name, ".RegisterDeckardServer")
		},
		KeepEvent: func(ev *Event) bool { return strings.HasSuffix(ev.Name, "Server") },
		OnExit: func(e *Engine, st *State, res []*Term) {
			if e.nilness(st, res[1]) != 1 {
				return
			}
			var srv *Term
			reg := false
			for _, ev := range st.events {
				if ev.Name == fnServer {
					srv = strip(ev.Res)
				} else if srv != nil && len(ev.Args) == 2 && strip(ev.Args[0]) == srv && strip(ev.Args[1]) == e.Param("$0", nil) {
					reg = true
				}
			}
			c.Expect(reg, "service-registered", "", c.P.Pos(fn.Pos()), "the server is started without registering the Deckard service (%s)", e.trailStr(st))
		},
		OnEvent: func(e *Engine, st *State, ev *Event) {
			if ev.Name == "net.Listen" {
				a := ev.Args[1]
				key := ""
				var walk func(t *Term, d int)
				walk = func(t *Term, d int) {
					if k, _ := c.cfgArg(t, ss); k != "" && d < 9 {
						key += k + " "
						return
					}
					for _, x := range t.Args {
						walk(x, d+1)
					}
				}
				walk(a, 0)
				c.Expect(strings.TrimSpace(key) == "grpc.port", "port-from-its-key", "", c.at(ev.Site), "the server listens on a port from %q, not from grpc.port (%s)", strings.TrimSpace(key), Canon(a))
				return
			}
			if ev.Name != fnServer {
				return
			}
			have := map[string]bool{}
			for _, o := range e.Elems(st, ev.Args[0]) {
				o = strip(o)
				if o.Op != "call" {
					continue
				}
				name := strings.TrimPrefix(o.Str, "google.golang.org/grpc.")
				if w, ok := grpcOptions[name]; ok {
					k, g := c.cfgArg(o.Args[0], ss)
					c.Expect(k == w[0] && g == w[1], "option-from-its-key", name, c.at(ev.Site), "server option %s is set from %s, not from %s", name, Canon(o.Args[0]), w[0])
					have[name] = true
					set[name] = true
				}
				if name == "KeepaliveParams" {
					have[name] = true
					for f, key := range keepaliveKeys {
						v := stripConv(e.field(o.Args[0], f, fieldTyp(kp, f)))
						k, g := c.cfgArg(v, ss)
						if k != "" {
							set[f] = true
							c.Expect(k == key && g == "GetDuration", "keepalive-from-its-key", f, c.at(ev.Site), "keepalive parameter %s is set from %s, not from %s (%s)", f, Canon(v), key, e.trailStr(st))
							continue
						}
						n, isN := v.Num()
						zero := v.Op == "zero" || isN && n == 0
						unset := false
						for t := range st.facts {
							if k, g := c.cfgArg(t, ss); k == key {
								if g == "Get" && emptyText(e, st, t) == 1 {
									unset = true
								}
								if iv := e.IvOf(st, t); g == "GetDuration" && iv.Hi <= 0 {
									unset = true
								}
							}
						}
						c.Expect(zero && unset, "keepalive-default-only-when-unset", f, c.at(ev.Site), "keepalive parameter %s is %s on a path where %s may be set (%s)", f, Canon(v), key, e.trailStr(st))
					}
				}
			}
			for n := range grpcOptions {
				c.Expect(have[n], "option-present", n, c.at(ev.Site), "the server is created without option %s (%s)", n, e.trailStr(st))
			}
			c.Expect(have["KeepaliveParams"], "option-present", "KeepaliveParams", c.at(ev.Site), "the server is created without keepalive parameters (%s)", e.trailStr(st))
		}}, nil)
	for f := range keepaliveKeys {
		c.Expect(set[f], "keepalive-honoured", f, c.P.Pos(fn.Pos()), "keepalive parameter %s is never set from its key", f)
	}
}

// ---- C66 -------------------------------------------------------------------

func runC66(c *Ctx) {
	add := c.rpc("Add")
	msg := c.P.Named("internal/queue/message", "Message")
	if add == nil || msg == nil {
		return
	}
	pm := types.NewPointer(msg)
	tt := fieldTyp(msg, "ExpiryDate")
	seen := 0
	minute := float64(60 * 1e9)
	now := func(e *Engine, st *State, t *Term) bool {
		t = baseTime(strip(t))
		return t.Op == "call" && t.Str == "dtime.Now"
	}
	check := func(e *Engine, st *State, m *Term, site ssa.Instruction) {
		v := c.msgField(e, st, m, "ExpiryDate", tt)
		where := c.at(site)
		seen++
		var ttl, timeless *Term
		for t := range st.facts {
			switch cn := Canon(t); {
			case cn == "$2.Messages[*].TtlMinutes":
				ttl = t
			case cn == "$2.Messages[*].Timeless":
				timeless = t
			}
		}
		years := 0.0
		var durs []*Term
		x := baseTime(strip(v))
		ok := true
		for ok && !now(e, st, x) {
			if x.Op != "call" {
				ok = false
				break
			}
			switch x.Str {
			case "(time.Time).Add":
				durs = append(durs, x.Args[1])
			case "(time.Time).AddDate":
				y, k1 := x.Args[1].Num()
				mo, k2 := x.Args[2].Num()
				d, k3 := x.Args[3].Num()
				ok = k1 && k2 && k3 && mo == 0 && d == 0
				years += y
			default:
				ok = false
			}
			x = baseTime(strip(x.Args[0]))
		}
		if !c.Expect(ok, "expiry-from-now", "", where, "the expiry date of an added message is %s, not derived from the current time (%s)", Canon(v), e.trailStr(st)) {
			return
		}
		tl := 0
		if timeless != nil {
			tl = e.Truth(st, timeless)
		}
		nilMsg := false
		for t, f := range st.facts {
			if f.Nil == 1 && Canon(t) == "$2.Messages[*]" {
				// a nil message in the request reads as an empty one
				nilMsg = true
			}
		}
		if nilMsg && timeless == nil {
			tl = 2
		}
		switch {
		case years == 100:
			c.Expect(tl == 1, "hundred-years-only-when-timeless", "", where, "a message that may not be timeless expires in a hundred years (%s)", e.trailStr(st))
		case years == 0:
			c.Expect(tl == 2, "timeless-gets-hundred-years", "", where, "a timeless message gets the expiry date %s (%s)", Canon(v), e.trailStr(st))
		default:
			c.Bad("timeless-years", where, "the expiry date is %v years away", years)
		}
		if len(durs) > 1 {
			c.Bad("one-ttl", where, "more than one duration is added to the expiry date: %s", Canon(v))
			return
		}
		if len(durs) == 0 || isZeroTerm(durs[0]) {
			z := nilMsg
			if ttl != nil {
				iv := e.IvOf(st, ttl)
				z = iv.Lo == 0 && iv.Hi == 0
			}
			c.Expect(z, "ttl-not-dropped", "", where, "the requested time to live is not part of the expiry date %s (%s)", Canon(v), e.trailStr(st))
			return
		}
		d := durs[0]
		var mins *Term
		if d.Op == "binop" && d.Str == "*" {
			for i := 0; i < 2; i++ {
				if k, isN := d.Args[i].Num(); isN && k == minute {
					mins = stripConv(d.Args[1-i])
				}
			}
		}
		if k, isN := d.Num(); isN && math.Mod(k, minute) == 0 {
			mins = e.T.Const(constant.MakeInt64(int64(k/minute)), types.Typ[types.Int64])
		}
		if !c.Expect(mins != nil, "ttl-in-minutes", "", where, "the duration added to the expiry date is %s, not a number of minutes (%s)", Canon(d), e.trailStr(st)) {
			return
		}
		iv := e.IvOf(st, mins)
		const lim = 153722867
		c.Expect(iv.Lo >= -lim && iv.Hi <= lim, "ttl-product-cannot-overflow", "", where, "the duration of a time to live of %s minutes can overflow: the message may expire at once (%s)", iv, e.trailStr(st))
		if Canon(mins) == "$2.Messages[*].TtlMinutes" {
			c.OK("ttl-is-the-requested-one", where)
			return
		}
		k, isN := mins.Num()
		if !isN || ttl == nil {
			c.Bad("ttl-is-the-requested-one", where, "the time to live is %s, not the requested one (%s)", Canon(mins), e.trailStr(st))
			return
		}
		r := e.IvOf(st, ttl)
		c.Expect(math.Abs(k) >= 50*365*24*60 && (k > 0 && r.Lo >= k-1 || k < 0 && r.Hi <= k+1) || r.Lo == k && r.Hi == k, "ttl-capped-only-when-too-long", "", where, "a time to live between %v and %v minutes becomes %v (%s)", r.Lo, r.Hi, k, e.trailStr(st))
	}
	isMsg := func(t *Term) bool { return t.Typ != nil && types.Identical(t.Typ, pm) && !t.IsNil() && t.Op != "elems" }
	c.Explore(add, &Opts{Event: func(ci *CallInfo) bool { return queueCall(ci) != "" }, DropOld: true, KeepEvent: func(*Event) bool { return false },
		Model: func(e *Engine, st *State, ci *CallInfo) ([]*Outcome, bool) {
			if ci.Fn != nil && ci.Fn.Name() == "Now" && strings.HasSuffix(fnPkgPath(ci.Fn), "/internal/dtime") {
				return []*Outcome{{Res: e.T.mk("call", "dtime.Now", ci.Sig.Results().At(0).Type())}}, true
			}
			return queueParts(e, st, ci)
		},
		OnAppend: func(e *Engine, st *State, dst *Term, elems []*Term, site ssa.Instruction) {
			for _, m := range elems {
				if isMsg(m) {
					check(e, st, m, site)
				}
			}
		},
		OnStore: func(e *Engine, st *State, addr, m *Term, site ssa.Instruction) {
			if !isMsg(m) || addr.Op != "ia" {
				return
			}
			if b, ok := site.(*ssa.Store); ok {
				if ia, ok := b.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
						return
					}
				}
			}
			check(e, st, m, site)
		}}, nil)
	if seen == 0 {
		c.Bad("anchor:messages", c.P.Pos(add.Pos()), "no message joining the batch was found in Add")
	}
}
