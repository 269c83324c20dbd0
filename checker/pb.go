package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Min: 150, Pkgs: []string{""},
		Technique: "Cross-checking of the protocol definition against the type-checked generated code (descriptor bytes, dependency tables, struct tags, service table) plus path-sensitive dataflow through every handler, client stub and accessor",
		Note:      "Every message, field, RPC, accessor, handler and client stub of the protocol definition; the descriptor embedded in the code is decoded from its constant and compared with the definition.",
		Run:       runC09})
}

// ---- protocol definition ---------------------------------------------------

type protoField struct {
	name, typ string // typ: scalar name or message name (unqualified)
	num       int
	repeated  bool
	mapK      string // key type when the field is a map, typ is then the value type
}
type protoMsg struct {
	name   string
	fields []*protoField
}
type protoRPC struct{ name, in, out string }
type protoFile struct {
	pkg     string
	msgs    []*protoMsg
	service string
	rpcs    []protoRPC
}

var protoComment = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*`)
var protoTok = regexp.MustCompile(`"[^"]*"|[A-Za-z_][A-Za-z0-9_.]*|-?[0-9]+|[{}()<>\[\]=;,]`)

func parseProto(src string) (*protoFile, error) {
	toks := protoTok.FindAllString(protoComment.ReplaceAllString(src, " "), -1)
	f := &protoFile{}
	i := 0
	next := func() string {
		if i < len(toks) {
			i++
			return toks[i-1]
		}
		return ""
	}
	skip := func() { // to the end of a statement
		for i < len(toks) && next() != ";" {
		}
	}
	base := func(s string) string { return s[strings.LastIndexByte(s, '.')+1:] }
	for i < len(toks) {
		switch t := next(); t {
		case "package":
			f.pkg = next()
			skip()
		case "service":
			f.service = next()
			next()
			for i < len(toks) && toks[i] != "}" {
				if next() != "rpc" {
					continue
				}
				r := protoRPC{name: next()}
				next()
				r.in = base(next())
				next()
				next()
				next()
				r.out = base(next())
				next()
				f.rpcs = append(f.rpcs, r)
				if i < len(toks) && toks[i] == "{" {
					for i < len(toks) && next() != "}" {
					}
				}
			}
			next()
		case "message":
			m := &protoMsg{name: next()}
			next()
			for i < len(toks) && toks[i] != "}" {
				w := next()
				switch w {
				case "reserved", "option":
					skip()
					continue
				case "message", "enum", "oneof", "extensions":
					return nil, fmt.Errorf("unsupported construct %q in message %s", w, m.name)
				}
				fd := &protoField{}
				if w == "repeated" || w == "optional" {
					fd.repeated = w == "repeated"
					w = next()
				}
				if w == "map" {
					next()
					fd.mapK = next()
					next()
					w = next()
					next()
				}
				fd.typ = base(w)
				fd.name = next()
				next()
				n, err := strconv.Atoi(next())
				if err != nil {
					return nil, fmt.Errorf("field %s.%s has no number", m.name, fd.name)
				}
				fd.num = n
				skip()
				m.fields = append(m.fields, fd)
			}
			next()
			f.msgs = append(f.msgs, m)
		default:
			if t == "import" || t == "option" || t == "syntax" {
				skip()
			}
		}
	}
	return f, nil
}

func goCamel(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		low := func(x byte) bool { return 'a' <= x && x <= 'z' }
		switch {
		case c == '_' && i+1 < len(s) && low(s[i+1]):
		case low(c) && (i == 0 || s[i-1] == '_'):
			b = append(b, c-'a'+'A')
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

func jsonCamel(s string) string {
	var b []byte
	up := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c = c - 'a' + 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

var protoScalar = map[string]struct {
	num  int
	wire string
	gt   string
}{
	"double": {1, "fixed64", "float64"}, "float": {2, "fixed32", "float32"}, "int64": {3, "varint", "int64"}, "uint64": {4, "varint", "uint64"},
	"int32": {5, "varint", "int32"}, "bool": {8, "varint", "bool"}, "string": {9, "bytes", "string"}, "bytes": {12, "bytes", "[]byte"}, "uint32": {13, "varint", "uint32"},
}

// ---- descriptor bytes ------------------------------------------------------

type wireField struct {
	num int
	v   uint64
	b   []byte
}

func wireParse(b []byte) ([]wireField, bool) {
	var out []wireField
	vi := func() (uint64, bool) {
		var x uint64
		for s := 0; s < 64; s += 7 {
			if len(b) == 0 {
				return 0, false
			}
			c := b[0]
			b = b[1:]
			x |= uint64(c&0x7f) << s
			if c < 0x80 {
				return x, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		t, ok := vi()
		if !ok {
			return nil, false
		}
		f := wireField{num: int(t >> 3)}
		switch t & 7 {
		case 0:
			if f.v, ok = vi(); !ok {
				return nil, false
			}
		case 2:
			n, ok := vi()
			if !ok || n > uint64(len(b)) {
				return nil, false
			}
			f.b, b = b[:n], b[n:]
		case 1:
			if len(b) < 8 {
				return nil, false
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, false
			}
			b = b[4:]
		default:
			return nil, false
		}
		out = append(out, f)
	}
	return out, true
}

type descField struct {
	name, typeName string
	num, label     int
	typ            int
}
type descMsg struct {
	name   string // relative name, nested ones qualified
	fields []descField
	isMap  bool
}
type descFile struct {
	pkg     string
	msgs    []*descMsg // flattened: top-level in order, then nested in order
	service string
	rpcs    []protoRPC
}

func parseDesc(b []byte) (*descFile, bool) {
	fs, ok := wireParse(b)
	if !ok {
		return nil, false
	}
	d := &descFile{}
	var nested []*descMsg
	var msg func(b []byte, pre string) *descMsg
	msg = func(b []byte, pre string) *descMsg {
		m := &descMsg{}
		fs, k := wireParse(b)
		ok = ok && k
		for _, f := range fs {
			if f.num == 1 {
				m.name = pre + string(f.b)
			}
		}
		for _, f := range fs {
			switch f.num {
			case 2:
				var df descField
				ff, k := wireParse(f.b)
				ok = ok && k
				for _, x := range ff {
					switch x.num {
					case 1:
						df.name = string(x.b)
					case 3:
						df.num = int(x.v)
					case 4:
						df.label = int(x.v)
					case 5:
						df.typ = int(x.v)
					case 6:
						df.typeName = string(x.b)
					}
				}
				m.fields = append(m.fields, df)
			case 3:
				nested = append(nested, msg(f.b, m.name+"."))
			case 7:
				ff, _ := wireParse(f.b)
				for _, x := range ff {
					if x.num == 7 && x.v == 1 {
						m.isMap = true
					}
				}
			}
		}
		return m
	}
	for _, f := range fs {
		switch f.num {
		case 2:
			d.pkg = string(f.b)
		case 4:
			d.msgs = append(d.msgs, msg(f.b, ""))
		case 6:
			ff, k := wireParse(f.b)
			ok = ok && k
			for _, x := range ff {
				switch x.num {
				case 1:
					d.service = string(x.b)
				case 2:
					r := protoRPC{}
					mm, k := wireParse(x.b)
					ok = ok && k
					for _, y := range mm {
						switch y.num {
						case 1:
							r.name = string(y.b)
						case 2:
							r.in = string(y.b)
						case 3:
							r.out = string(y.b)
						}
					}
					d.rpcs = append(d.rpcs, r)
				}
			}
		}
	}
	d.msgs = append(d.msgs, nested...)
	return d, ok && d.pkg != "" && len(d.msgs) > 0
}

// ---- C09 -------------------------------------------------------------------

func runC09(c *Ctx) {
	const pf = "proto/deckard_service.proto"
	src, err := os.ReadFile(filepath.Join(c.P.Repo, pf))
	if err != nil {
		c.Bad("anchor:proto", pf, "protocol definition not found")
		return
	}
	f, err := parseProto(string(src))
	if err != nil || f.service == "" || len(f.msgs) == 0 {
		c.Bad("anchor:proto-parse", pf, "cannot parse the protocol definition: %v", err)
		return
	}
	pk := c.P.Pkg("")
	if pk == nil || pk.Types == nil || pk.SSA == nil {
		c.Bad("anchor:pb", "?", "generated package not found")
		return
	}
	c.pbDescriptor(f, pk)
	for _, m := range f.msgs {
		c.pbMessage(f, m)
	}
	c.pbService(f, pk)
}

func msgQual(f *protoFile, fd *protoField, m string) string {
	if fd.mapK != "" {
		return "." + f.pkg + "." + m + "." + goCamel(fd.name) + "Entry"
	}
	for _, x := range f.msgs {
		if x.name == fd.typ {
			return "." + f.pkg + "." + fd.typ
		}
	}
	return "." + fd.typ
}

func (c *Ctx) pbDescriptor(f *protoFile, pk *Package) {
	var d *descFile
	for _, n := range pk.Types.Scope().Names() {
		k, ok := pk.Types.Scope().Lookup(n).(*types.Const)
		if !ok || k.Val().Kind() != constant.String {
			continue
		}
		if x, ok := parseDesc([]byte(constant.StringVal(k.Val()))); ok {
			d = x
		}
	}
	if d == nil {
		c.Bad("anchor:descriptor", "?", "no embedded descriptor found")
		return
	}
	c.Expect(d.pkg == f.pkg, "descriptor-package", d.pkg, "", "the embedded descriptor is of package %s, the definition of %s", d.pkg, f.pkg)
	c.Expect(d.service == f.service, "descriptor-service", d.service, "", "the embedded descriptor has service %s, the definition %s", d.service, f.service)
	dm := map[string]*descMsg{}
	for _, m := range d.msgs {
		dm[m.name] = m
	}
	field := func(where string, x descField, name string, num, label, typ int, tn string) {
		c.Expect(x.name == name && x.num == num && x.label == label && x.typ == typ && (tn == "" && x.typeName == "" || strings.HasSuffix(x.typeName, tn)), "descriptor-field", where, "", "the embedded descriptor declares field %s as %+v, the definition as number %d label %d type %d %s", where, x, num, label, typ, tn)
	}
	cnt := 0
	for _, m := range f.msgs {
		x := dm[m.name]
		if !c.Expect(x != nil, "descriptor-message", m.name, "", "message %s is missing from the embedded descriptor", m.name) {
			continue
		}
		cnt++
		c.Expect(len(x.fields) == len(m.fields), "descriptor-field-count", m.name, "", "message %s has %d fields in the embedded descriptor, %d in the definition", m.name, len(x.fields), len(m.fields))
		byNum := map[int]descField{}
		for _, y := range x.fields {
			byNum[y.num] = y
		}
		for _, fd := range m.fields {
			label, typ, tn := 1, 11, msgQual(f, fd, m.name)
			if fd.repeated || fd.mapK != "" {
				label = 3
			}
			if s, ok := protoScalar[fd.typ]; ok && fd.mapK == "" {
				typ, tn = s.num, ""
			}
			field(m.name+"."+fd.name, byNum[fd.num], fd.name, fd.num, label, typ, tn)
			if fd.mapK != "" {
				e := dm[m.name+"."+goCamel(fd.name)+"Entry"]
				if c.Expect(e != nil && e.isMap && len(e.fields) == 2, "descriptor-map", m.name+"."+fd.name, "", "map field %s.%s has no entry type in the embedded descriptor", m.name, fd.name) {
					cnt++
					field(m.name+"."+fd.name+":key", e.fields[0], "key", 1, 1, protoScalar[fd.mapK].num, "")
					if s, ok := protoScalar[fd.typ]; ok {
						field(m.name+"."+fd.name+":value", e.fields[1], "value", 2, 1, s.num, "")
					} else {
						field(m.name+"."+fd.name+":value", e.fields[1], "value", 2, 1, 11, "."+fd.typ)
					}
				}
			}
		}
	}
	c.Expect(cnt == len(d.msgs), "descriptor-no-extra-message", "", "", "the embedded descriptor has %d messages, the definition %d", len(d.msgs), cnt)
	dr := map[string]protoRPC{}
	for _, r := range d.rpcs {
		dr[r.name] = r
	}
	c.Expect(len(d.rpcs) == len(f.rpcs), "descriptor-rpc-count", "", "", "the embedded descriptor has %d RPCs, the definition %d", len(d.rpcs), len(f.rpcs))
	for _, r := range f.rpcs {
		x := dr[r.name]
		c.Expect(x.in == "."+f.pkg+"."+r.in && x.out == "."+f.pkg+"."+r.out, "descriptor-rpc", r.name, "", "RPC %s is %s -> %s in the embedded descriptor, %s -> %s in the definition", r.name, x.in, x.out, r.in, r.out)
	}

	// tables the descriptor is linked with
	var goTypes []string
	var deps []int64
	var gtAt, depAt string
	for _, file := range pk.Files {
		for _, dcl := range file.Decls {
			g, ok := dcl.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range g.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok || len(vs.Values) != 1 {
					continue
				}
				cl, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok {
					continue
				}
				switch {
				case strings.HasSuffix(vs.Names[0].Name, "_goTypes"):
					gtAt = c.P.Pos(vs.Pos())
					for _, x := range cl.Elts {
						n := ""
						if t := pk.Info.Types[x].Type; t != nil {
							if p, ok := t.(*types.Pointer); ok {
								if nm, ok := types.Unalias(p.Elem()).(*types.Named); ok {
									n = nm.Obj().Name()
								}
							}
						}
						goTypes = append(goTypes, n)
					}
				case strings.HasSuffix(vs.Names[0].Name, "_depIdxs"):
					depAt = c.P.Pos(vs.Pos())
					for _, x := range cl.Elts {
						v := int64(-1)
						if tv := pk.Info.Types[x]; tv.Value != nil {
							v, _ = constant.Int64Val(constant.ToInt(tv.Value))
						}
						deps = append(deps, v)
					}
				}
			}
		}
	}
	if goTypes == nil || deps == nil {
		c.Bad("anchor:tables", "?", "type tables of the generated code not found")
		return
	}
	idx := map[string]int{}
	msgIdx := map[string]int{}
	for i, m := range d.msgs {
		want := m.name
		if m.isMap {
			want = ""
		}
		c.Expect(i < len(goTypes) && goTypes[i] == want, "type-table", m.name, gtAt, "entry %d of the type table is not %s", i, m.name)
		idx["."+d.pkg+"."+m.name] = i
		msgIdx[m.name] = i
	}
	dep := func(i int, what, tn string) {
		ok := false
		if i < len(deps) && deps[i] >= 0 && int(deps[i]) < len(goTypes) {
			if j, known := idx[tn]; known {
				ok = int(deps[i]) == j
			} else {
				ok = int(deps[i]) >= len(d.msgs) && strings.HasSuffix(tn, "."+goTypes[deps[i]])
			}
		}
		c.Expect(ok, "dependency-table", what, depAt, "entry %d of the dependency table does not link %s to %s", i, what, tn)
	}
	i := 0
	for _, m := range d.msgs {
		for _, x := range m.fields {
			if x.typeName != "" {
				dep(i, m.name+"."+x.name, x.typeName)
				i++
			}
		}
	}
	nf := i
	for _, r := range d.rpcs {
		dep(i, r.name+":input", r.in)
		i++
	}
	for _, r := range d.rpcs {
		dep(i, r.name+":output", r.out)
		i++
	}
	tail := []int64{int64(nf + len(d.rpcs)), int64(nf), int64(nf), int64(nf), 0}
	okT := len(deps) == i+5
	for j, v := range tail {
		okT = okT && deps[i+j] == v
	}
	c.Expect(okT, "dependency-offsets", "", depAt, "the sub-list offsets of the dependency table do not match the descriptor")

	// every method of a message uses the type information of that message
	for _, m := range d.msgs {
		nm := c.P.Named("", m.name)
		if nm == nil || m.isMap {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(nm))
		for k := 0; k < ms.Len(); k++ {
			fn := c.P.SSA.MethodValue(ms.At(k))
			if fn == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ia, ok := in.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					u, ok := ia.X.(*ssa.UnOp)
					if !ok {
						continue
					}
					g, ok := u.X.(*ssa.Global)
					if !ok || !strings.HasSuffix(g.Name(), "_msgTypes") {
						continue
					}
					v := int64(-1)
					if k, ok := ia.Index.(*ssa.Const); ok {
						v = k.Int64()
					}
					c.Expect(v == int64(msgIdx[m.name]), "message-info", m.name+"."+fn.Name(), c.at(in), "%s.%s uses the type information of message %d, its own is %d", m.name, fn.Name(), v, msgIdx[m.name])
				}
			}
		}
	}
}

func goTypeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

func (c *Ctx) pbMessage(f *protoFile, m *protoMsg) {
	nm := c.P.Named("", m.name)
	if nm == nil {
		c.Bad("message:"+m.name, "?", "message %s has no Go type", m.name)
		return
	}
	st, ok := nm.Underlying().(*types.Struct)
	if !ok {
		c.Bad("message:"+m.name, "?", "message %s is not a struct", m.name)
		return
	}
	fields := map[string]int{}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		fields[st.Field(i).Name()] = i
		if strings.Contains(st.Tag(i), `protobuf:"`) {
			n++
		}
	}
	c.Expect(n == len(m.fields), "message-fields", m.name, c.P.Pos(nm.Obj().Pos()), "message %s has %d fields in Go, %d in the definition", m.name, n, len(m.fields))
	for _, fd := range m.fields {
		gn := goCamel(fd.name)
		i, ok := fields[gn]
		what := m.name + "." + gn
		if !c.Expect(ok, "field-exists", what, c.P.Pos(nm.Obj().Pos()), "field %s of message %s is missing in Go", fd.name, m.name) {
			continue
		}
		at := c.P.Pos(st.Field(i).Pos())
		elem := func(t string) (string, string) {
			if s, ok := protoScalar[t]; ok {
				return s.wire, s.gt
			}
			return "bytes", "*" + t
		}
		wire, gt := elem(fd.typ)
		if fd.mapK != "" {
			kw, kt := elem(fd.mapK)
			_, _ = kw, wire
			gt = "map[" + kt + "]" + gt
			wire = "bytes"
		} else if fd.repeated {
			gt = "[]" + gt
		}
		c.Expect(goTypeName(st.Field(i).Type()) == gt, "field-type", what, at, "%s has type %s, the definition needs %s", what, goTypeName(st.Field(i).Type()), gt)
		tag := reflectTag(st.Tag(i), "protobuf")
		parts := strings.Split(tag, ",")
		opt := "opt"
		if fd.repeated || fd.mapK != "" {
			opt = "rep"
		}
		okTag := len(parts) >= 4 && parts[0] == wire && parts[1] == strconv.Itoa(fd.num)
		hasName, hasOpt := false, false
		for _, p := range parts {
			hasName = hasName || p == "name="+fd.name
			hasOpt = hasOpt || p == opt
			if strings.HasPrefix(p, "json=") {
				okTag = okTag && p == "json="+jsonCamel(fd.name)
			}
		}
		c.Expect(okTag && hasName && hasOpt, "field-tag", what, at, "%s has tag %q, the definition needs wire type %s, number %d, %s and name %s", what, tag, wire, fd.num, opt, fd.name)
		if fd.mapK != "" {
			kw, _ := elem(fd.mapK)
			vw, _ := elem(fd.typ)
			k := strings.HasPrefix(reflectTag(st.Tag(i), "protobuf_key"), kw+",1,")
			v := strings.HasPrefix(reflectTag(st.Tag(i), "protobuf_val"), vw+",2,")
			c.Expect(k && v, "map-tag", what, at, "the map entry tags of %s do not match the definition", what)
		}
		c.pbGetter(nm, m.name, gn, st.Field(i).Type())
	}
}

func reflectTag(tag, key string) string {
	for _, x := range regexp.MustCompile(`([a-z_]+):"((?:[^"\\]|\\.)*)"`).FindAllStringSubmatch(tag, -1) {
		if x[1] == key {
			return x[2]
		}
	}
	return ""
}

func (c *Ctx) pbGetter(nm *types.Named, msg, field string, ft types.Type) {
	fn := c.P.methodOf(types.NewPointer(nm), "Get"+field)
	what := msg + ".Get" + field
	if fn == nil || len(fn.Blocks) == 0 {
		c.Bad("accessor:"+what, c.P.Pos(nm.Obj().Pos()), "accessor %s is missing", what)
		return
	}
	c.Explore(fn, &Opts{NilParams: true, OnExit: func(e *Engine, st *State, res []*Term) {
		p := e.Param("$0", nil)
		r := strip(res[0])
		isZero := r.Op == "zero" || r.IsNil() || r == strip(e.zero(ft))
		isField := Canon(r) == "$0."+field
		switch e.nilness(st, p) {
		case 1:
			c.Expect(isZero, "accessor-on-nil", what, c.P.Pos(fn.Pos()), "%s returns %s for a nil message", what, Canon(r))
		case 2:
			ok := isField
			if !ok && isZero {
				// the zero value of a field known to be zero
				l := e.T.mk("load", "", ft, e.fa(p, field, ft))
				ok = e.Truth(st, e.Eq(l, e.zero(ft))) == 1
			}
			c.Expect(ok, "accessor-returns-its-field", what, c.P.Pos(fn.Pos()), "%s returns %s, not the field it is named after (%s)", what, Canon(r), e.trailStr(st))
		default:
			c.Bad("accessor-nil-check:"+what, c.P.Pos(fn.Pos()), "%s reads a possibly nil message", what)
		}
	}}, nil)
}

const grpcPath = "google.golang.org/grpc"

func (c *Ctx) pbService(f *protoFile, pk *Package) {
	srvName := f.service + "Server"
	cliName := f.service + "Client"
	srv := c.P.Named("", srvName)
	if srv == nil {
		c.Bad("anchor:server", "?", "server interface %s not found", srvName)
		return
	}
	full := func(m string) string { return "/" + f.pkg + "." + f.service + "/" + m }

	// the service table
	handlers := map[string]*Term{}
	descName := pk.Path + "." + f.service + "_ServiceDesc"
	initFn := pk.SSA.Func("init")
	found := false
	c.Explore(initFn, &Opts{Unroll: true, NoEscape: true, OnExit: func(e *Engine, st *State, res []*Term) {
		g := e.T.mk("global", descName, nil)
		str := types.Typ[types.String]
		sn, _ := e.Load(st, e.fa(g, "ServiceName", str), str).StrVal()
		if sn == "" {
			return // the initialiser had already run
		}
		found = true
		c.Expect(sn == f.pkg+"."+f.service, "service-name", "", "", "the service is registered as %q, the definition says %s.%s", sn, f.pkg, f.service)
		ml := e.Load(st, e.fa(g, "Methods", nil), nil)
		arr := strip(ml)
		if arr.Op == "slice" {
			arr = arr.Args[0]
		}
		at, ok := deref(arr.Typ).Underlying().(*types.Array)
		if !ok {
			c.Bad("anchor:methods", "?", "the method table of the service is not a literal list")
			return
		}
		for i := int64(0); i < at.Len(); i++ {
			ia := e.T.mk("ia", "", at.Elem(), arr, e.T.Int(i))
			n, _ := e.Load(st, e.fa(ia, "MethodName", str), str).StrVal()
			h := strip(e.Load(st, e.fa(ia, "Handler", nil), nil))
			c.Expect(handlers[n] == nil, "method-listed-once", n, "", "method %s is listed twice in the service table", n)
			handlers[n] = h
		}
	}}, nil)
	if !found {
		c.Bad("anchor:servicedesc", "?", "the service table %s was not found", descName)
		return
	}
	c.Expect(len(handlers) == len(f.rpcs), "method-count", "", "", "the service table lists %d methods, the definition %d", len(handlers), len(f.rpcs))
	for _, r := range f.rpcs {
		h := handlers[r.name]
		if !c.Expect(h != nil && h.Op == "func" && h.Fn != nil, "method-listed", r.name, "", "RPC %s is missing from the service table", r.name) {
			continue
		}
		c.pbHandler(h.Fn, r, srv, full(r.name))
	}
	// registration
	reg := c.P.Func("", "Register"+srvName)
	if reg == nil {
		c.Bad("anchor:register", "?", "Register%s not found", srvName)
	} else {
		c.Explore(reg, &Opts{Event: func(ci *CallInfo) bool { return strings.HasSuffix(ci.Name, ".RegisterService") }, OnExit: func(e *Engine, st *State, res []*Term) {
			ok := len(st.events) == 1
			if ok {
				ev := st.events[0]
				n := len(ev.Args)
				ok = n >= 2 && strip(ev.Args[n-2]) == e.T.mk("global", descName, nil) && strip(ev.Args[n-1]) == e.Param("$1", nil)
			}
			c.Expect(ok, "registers-service", "", c.P.Pos(reg.Pos()), "Register%s does not register the service table with the given server exactly once (%s)", srvName, e.trailStr(st))
		}}, nil)
	}
	// client stubs
	var impls []types.Type
	for _, t := range c.P.Impls("", cliName) {
		if n, ok := derefT(t).(*types.Named); ok && n.Obj().Pkg() == pk.Types {
			impls = append(impls, t)
		}
	}
	if len(impls) == 0 {
		c.Bad("anchor:client", "?", "no implementation of %s found", cliName)
	}
	for _, t := range impls {
		for _, r := range f.rpcs {
			fn := c.P.methodOf(t, r.name)
			if fn == nil || len(fn.Blocks) == 0 {
				c.Bad("client:"+r.name, "?", "client stub %s not found", r.name)
				continue
			}
			c.pbClient(fn, r, full(r.name))
		}
	}
	// application server
	n := 0
	for _, t := range c.P.Impls("", srvName) {
		nm, ok := derefT(t).(*types.Named)
		if !ok || nm.Obj().Pkg() == pk.Types || nm.Obj().Pkg() == nil || !strings.HasPrefix(nm.Obj().Pkg().Path(), c.P.ModPath+"/internal/service") {
			continue
		}
		n++
		for _, r := range f.rpcs {
			obj, _, _ := types.LookupFieldOrMethod(t, true, nm.Obj().Pkg(), r.name)
			m, ok := obj.(*types.Func)
			own := ok && m.Pkg() != pk.Types
			c.Expect(own, "application-implements", nm.Obj().Name()+"."+r.name, c.P.Pos(nm.Obj().Pos()), "%s does not implement RPC %s itself: calls answer Unimplemented", nm.Obj().Name(), r.name)
		}
	}
	c.Expect(n > 0, "application-server", "", "", "no application server implements %s", srvName)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return types.Unalias(t)
}

func ptrTo(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == name
}

func (c *Ctx) pbHandler(fn *ssa.Function, r protoRPC, srv *types.Named, full string) {
	where := c.P.Pos(fn.Pos())
	isRPC := func(n string) string {
		if i := strings.Index(n, "."+srv.Obj().Name()+")."); i >= 0 {
			return n[i+len(srv.Obj().Name())+3:]
		}
		return ""
	}
	nOK := 0
	var hs []*ssa.Function
	c.Explore(fn, &Opts{NilParams: true, NoEscape: true,
		Event: func(ci *CallInfo) bool {
			return isRPC(ci.Name) != "" || ci.FnTerm != nil && ci.FnTerm.Op == "param"
		},
		NoErrFork: func(n string) bool { return isRPC(n) != "" },
		OnExit: func(e *Engine, st *State, res []*Term) {
			dec, fin := 0, 0
			var in *Term
			for _, ev := range st.events {
				m := isRPC(ev.Name)
				switch {
				case m != "":
					fin++
					c.Expect(m == r.name, "handler-calls-its-method", r.name, c.at(ev.Site), "the handler of %s calls the server method %s", r.name, m)
					n := len(ev.Args)
					c.Expect(in != nil && strip(ev.Args[n-1]) == in, "handler-passes-decoded-request", r.name, c.at(ev.Site), "the handler of %s passes %s, not the request it decoded", r.name, Canon(ev.Args[n-1]))
					c.Expect(strip(res[0]) == strip(e.resPart(ev.Res, 0)) || Canon(strip(res[0])) == Canon(e.resPart(ev.Res, 0)), "handler-returns-the-response", r.name, c.at(ev.Site), "the handler of %s returns %s, not the response of its method", r.name, Canon(res[0]))
				case len(ev.Args) == 1: // decode
					dec++
					in = strip(ev.Args[0])
					c.Expect(in.Op == "alloc" && ptrTo(in.Typ, r.in), "handler-decodes-request-type", r.name, c.at(ev.Site), "the handler of %s decodes its request into %s, not into %s", r.name, goTypeName(in.Typ), r.in)
				case len(ev.Args) == 4: // interceptor
					fin++
					info := strip(ev.Args[2])
					str := types.Typ[types.String]
					fm, _ := e.Load(st, e.fa(info, "FullMethod", str), str).StrVal()
					c.Expect(fm == full, "interceptor-full-method", r.name, c.at(ev.Site), "the handler of %s reports method %q to the interceptor, not %q", r.name, fm, full)
					c.Expect(in != nil && strip(ev.Args[1]) == in, "interceptor-request", r.name, c.at(ev.Site), "the handler of %s passes %s to the interceptor, not the request it decoded", r.name, Canon(ev.Args[1]))
					sv := strip(e.Load(st, e.fa(info, "Server", nil), nil))
					c.Expect(sv == e.Param("$0", nil), "interceptor-server", r.name, c.at(ev.Site), "the handler of %s gives the interceptor the server %s", r.name, Canon(sv))
					h := strip(ev.Args[3])
					if c.Expect(h.Op == "func" && h.Fn != nil && len(h.Fn.Blocks) > 0, "interceptor-handler", r.name, c.at(ev.Site), "the handler of %s gives the interceptor an unknown function", r.name) {
						hs = append(hs, h.Fn)
						okb := false
						for _, b := range h.Args {
							if strip(b) == e.Param("$0", nil) || strip(e.Load(st, b, nil)) == e.Param("$0", nil) {
								okb = true
							}
						}
						c.Expect(okb, "interceptor-handler-server", r.name, c.at(ev.Site), "the function the handler of %s gives the interceptor is not bound to the server", r.name)
					}
				}
			}
			errp := e.nilness(st, strip(res[1]))
			if fin == 0 {
				c.Expect(errp == 2, "handler-answers", r.name, where, "the handler of %s can return without calling the method and without an error (%s)", r.name, e.trailStr(st))
				return
			}
			c.Expect(fin == 1 && dec == 1, "handler-calls-once", r.name, where, "the handler of %s decodes %d and dispatches %d times (%s)", r.name, dec, fin, e.trailStr(st))
			nOK++
		}}, nil)
	c.Expect(nOK > 0, "handler-dispatches", r.name, where, "the handler of %s never dispatches", r.name)
	for _, h := range hs {
		c.Explore(h, &Opts{NilParams: true, NoEscape: true, Event: func(ci *CallInfo) bool { return isRPC(ci.Name) != "" }, NoErrFork: func(string) bool { return true },
			OnExit: func(e *Engine, st *State, res []*Term) {
				if !c.Expect(len(st.events) == 1, "intercepted-calls-once", r.name, c.P.Pos(h.Pos()), "the intercepted handler of %s calls the server %d times", r.name, len(st.events)) {
					return
				}
				ev := st.events[0]
				n := len(ev.Args)
				m := isRPC(ev.Name)
				a := strip(ev.Args[n-1])
				c.Expect(m == r.name, "handler-calls-its-method", r.name+":intercepted", c.at(ev.Site), "the intercepted handler of %s calls the server method %s", r.name, m)
				c.Expect(Canon(a) == "$1" && strip(ev.Args[n-2]) == e.Param("$0", nil), "intercepted-request", r.name, c.at(ev.Site), "the intercepted handler of %s passes %s, not the request it is given", r.name, Canon(a))
				c.Expect(Canon(strip(res[0])) == Canon(e.resPart(ev.Res, 0)), "intercepted-response", r.name, c.at(ev.Site), "the intercepted handler of %s returns %s", r.name, Canon(res[0]))
			}}, nil)
	}
}

// resPart is component i of the result of an event.
func (e *Engine) resPart(res *Term, i int) *Term {
	if res == nil {
		return e.T.Nil()
	}
	if tu, ok := res.Typ.(*types.Tuple); ok && i < tu.Len() {
		return e.ext(res, i, tu.At(i).Type())
	}
	return res
}

func (c *Ctx) pbClient(fn *ssa.Function, r protoRPC, full string) {
	where := c.P.Pos(fn.Pos())
	got := 0
	c.Explore(fn, &Opts{NoEscape: true, Event: func(ci *CallInfo) bool { return strings.HasSuffix(ci.Name, ".Invoke") && len(ci.Args) >= 5 },
		OnExit: func(e *Engine, st *State, res []*Term) {
			if !c.Expect(len(st.events) == 1, "stub-invokes-once", r.name, where, "client stub %s invokes the connection %d times (%s)", r.name, len(st.events), e.trailStr(st)) {
				return
			}
			ev := st.events[0]
			a := ev.Args
			n := len(a)
			m, _ := a[n-4].StrVal()
			c.Expect(m == full, "stub-method-name", r.name, c.at(ev.Site), "client stub %s invokes %q, not %q", r.name, m, full)
			c.Expect(strip(a[n-5]) == e.Param("$1", nil), "stub-context", r.name, c.at(ev.Site), "client stub %s does not pass on its context", r.name)
			c.Expect(strip(a[n-3]) == e.Param("$2", nil), "stub-request", r.name, c.at(ev.Site), "client stub %s sends %s, not its request", r.name, Canon(a[n-3]))
			out := strip(a[n-2])
			c.Expect(out.Op == "alloc" && ptrTo(out.Typ, r.out), "stub-response-type", r.name, c.at(ev.Site), "client stub %s decodes its response into %s, not into a new %s", r.name, goTypeName(out.Typ), r.out)
			opts := false
			for _, x := range e.Elems(st, a[n-1]) {
				if x.Op == "elems" && x.Args[0] == e.Param("$3", nil) {
					opts = true
				}
			}
			c.Expect(opts || strip(a[n-1]) == e.Param("$3", nil), "stub-options", r.name, c.at(ev.Site), "client stub %s drops the call options: %s", r.name, Canon(a[n-1]))
			if e.nilness(st, ev.Errs) == 2 {
				c.Expect(e.nilness(st, strip(res[1])) == 2, "stub-reports-error", r.name, where, "client stub %s hides the error of a failed call", r.name)
				return
			}
			got++
			c.Expect(strip(res[0]) == out && e.nilness(st, strip(res[1])) == 1, "stub-returns-response", r.name, where, "client stub %s returns %s, %s after a successful call", r.name, Canon(res[0]), Canon(res[1]))
		}}, nil)
	c.Expect(got > 0, "stub-succeeds", r.name, where, "client stub %s never returns a response", r.name)
}

var _ = sort.Strings
