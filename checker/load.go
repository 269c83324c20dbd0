package main

// Loader: parses and type-checks every non-test package of the module from its
// working tree, resolving imports from GOROOT, the module cache and /verif/stubs
// (two modules of the build list are not available offline), and builds SSA.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/mod/modfile"
	"golang.org/x/mod/module"
	"golang.org/x/tools/go/ssa"
)

type Package struct {
	Path   string
	Dir    string
	Files  []*ast.File
	Types  *types.Package
	Info   *types.Info
	Errs   []types.Error // hard errors in this package
	Soft   int
	SSA    *ssa.Package
	Module bool // belongs to the module under analysis
}

type Program struct {
	Repo    string
	ModPath string
	Fset    *token.FileSet
	Pkgs    map[string]*Package // by import path
	Mod     []*Package          // module packages sorted
	SSA     *ssa.Program
	GoRoot  string
	modDirs map[string]string // module path -> dir
	modList []string
	stubs   string
	ctx     build.Context
	fnIDs   map[*ssa.Function]int
	insIDs  map[ssa.Instruction]int
	live    map[*ssa.Function]*liveness
	ownF    map[*ssa.BasicBlock]map[string]bool
	fromF   map[*ssa.BasicBlock]map[string]bool
	fnF     map[*ssa.Function]map[string]bool
}

func goroot() string {
	for _, d := range []string{"/opt/veriftools/go1.26.10", runtime.GOROOT()} {
		if _, err := os.Stat(filepath.Join(d, "src", "fmt")); err == nil {
			return d
		}
	}
	return runtime.GOROOT()
}

func Load(repo, stubs string) (*Program, error) {
	p := &Program{Repo: repo, Fset: token.NewFileSet(), Pkgs: map[string]*Package{}, GoRoot: goroot(), stubs: stubs, modDirs: map[string]string{},
		fnIDs: map[*ssa.Function]int{}, insIDs: map[ssa.Instruction]int{}, live: map[*ssa.Function]*liveness{}}
	data, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mf, err := modfile.Parse("go.mod", data, nil)
	if err != nil {
		return nil, err
	}
	p.ModPath = mf.Module.Mod.Path
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		cache = "/root/go/pkg/mod"
	}
	for _, r := range mf.Require {
		ep, e1 := module.EscapePath(r.Mod.Path)
		ev, e2 := module.EscapeVersion(r.Mod.Version)
		if e1 != nil || e2 != nil {
			continue
		}
		dir := filepath.Join(cache, ep+"@"+ev)
		if st, err := os.Stat(dir); err == nil && st.IsDir() {
			p.modDirs[r.Mod.Path] = dir
		}
	}
	for m := range p.modDirs {
		p.modList = append(p.modList, m)
	}
	sort.Slice(p.modList, func(i, j int) bool { return len(p.modList[i]) > len(p.modList[j]) })
	p.ctx = build.Default
	p.ctx.GOROOT = p.GoRoot
	p.ctx.CgoEnabled = false
	p.ctx.GOOS, p.ctx.GOARCH = "linux", "amd64"

	// module package directories
	var dirs []string
	err = filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			n := info.Name()
			if path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "node_modules" || n == "mocks") {
				return filepath.SkipDir
			}
			if path != repo {
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			dirs = append(dirs, path)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !hasGo(d) {
			continue
		}
		rel, _ := filepath.Rel(repo, d)
		ip := p.ModPath
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		p.load(ip, d)
	}
	for _, pk := range p.Pkgs {
		if pk.Module && len(pk.Files) > 0 {
			p.Mod = append(p.Mod, pk)
		}
	}
	sort.Slice(p.Mod, func(i, j int) bool { return p.Mod[i].Path < p.Mod[j].Path })
	return p, nil
}

func hasGo(dir string) bool {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			return true
		}
	}
	return false
}

func (p *Program) dirFor(path string) string {
	if path == p.ModPath {
		return p.Repo
	}
	if strings.HasPrefix(path, p.ModPath+"/") {
		return filepath.Join(p.Repo, strings.TrimPrefix(path, p.ModPath+"/"))
	}
	first := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		first = path[:i]
	}
	if !strings.Contains(first, ".") {
		d := filepath.Join(p.GoRoot, "src", path)
		if _, err := os.Stat(d); err == nil {
			return d
		}
	}
	for _, m := range p.modList {
		if path == m || strings.HasPrefix(path, m+"/") {
			d := filepath.Join(p.modDirs[m], strings.TrimPrefix(path, m))
			if hasGo(d) {
				return d
			}
		}
	}
	d := filepath.Join(p.stubs, path)
	if hasGo(d) {
		return d
	}
	d = filepath.Join(p.GoRoot, "src", "vendor", path)
	if hasGo(d) {
		return d
	}
	return ""
}

type importerFn func(path string) (*types.Package, error)

func (f importerFn) Import(path string) (*types.Package, error) { return f(path) }

func (p *Program) load(path, dir string) *Package {
	if pk, ok := p.Pkgs[path]; ok {
		return pk
	}
	pk := &Package{Path: path, Dir: dir, Module: path == p.ModPath || strings.HasPrefix(path, p.ModPath+"/")}
	p.Pkgs[path] = pk
	if path == "unsafe" {
		pk.Types = types.Unsafe
		return pk
	}
	if dir == "" {
		tp := types.NewPackage(path, guessName(path))
		tp.MarkComplete()
		pk.Types = tp
		pk.Errs = append(pk.Errs, types.Error{Msg: "package source not available offline: " + path})
		return pk
	}
	es, _ := os.ReadDir(dir)
	var names []string
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := p.ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		names = append(names, n)
	}
	files := make([]*ast.File, len(names))
	perrs := make([]error, len(names))
	var wg sync.WaitGroup
	mode := parser.SkipObjectResolution
	if pk.Module {
		mode |= parser.ParseComments
	}
	for i := range names {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			files[i], perrs[i] = parser.ParseFile(p.Fset, filepath.Join(dir, names[i]), nil, mode)
		}(i)
	}
	wg.Wait()
	for i, f := range files {
		if f == nil {
			continue
		}
		if perrs[i] != nil && pk.Module {
			pk.Errs = append(pk.Errs, types.Error{Msg: perrs[i].Error()})
		}
		pk.Files = append(pk.Files, f)
	}
	// drop files of other packages in the same dir (e.g. ignore-tagged mains)
	if len(pk.Files) > 1 {
		count := map[string]int{}
		for _, f := range pk.Files {
			count[f.Name.Name]++
		}
		if len(count) > 1 {
			best := ""
			for n, c := range count {
				if best == "" || c > count[best] {
					best = n
				}
			}
			var keep []*ast.File
			for _, f := range pk.Files {
				if f.Name.Name == best {
					keep = append(keep, f)
				}
			}
			pk.Files = keep
		}
	}
	conf := types.Config{
		IgnoreFuncBodies: !pk.Module && !withBodies[path],
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
		Importer: importerFn(func(ip string) (*types.Package, error) {
			q := p.load(ip, p.dirFor(ip))
			if q.Types == nil {
				return nil, fmt.Errorf("import cycle or failed import %s", ip)
			}
			return q.Types, nil
		}),
		Error: func(err error) {
			te, ok := err.(types.Error)
			if !ok {
				te = types.Error{Msg: err.Error(), Fset: p.Fset}
			}
			if te.Soft {
				pk.Soft++
				return
			}
			if pk.Module {
				pk.Errs = append(pk.Errs, te)
			}
		},
	}
	pk.Info = &types.Info{}
	if pk.Module || withBodies[path] {
		pk.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
	}
	tp, _ := conf.Check(path, p.Fset, pk.Files, pk.Info)
	pk.Types = tp
	return pk
}

// withBodies lists the library packages whose (generic) functions can be explored like the module's.
var withBodies = map[string]bool{"slices": true}

func guessName(path string) string {
	n := path[strings.LastIndexByte(path, '/')+1:]
	return strings.ReplaceAll(n, "-", "_")
}

// BuildSSA builds SSA for all module packages without hard errors.
func (p *Program) BuildSSA() {
	prog := ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	p.SSA = prog
	created := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if created[tp] {
			return
		}
		created[tp] = true
		for _, imp := range tp.Imports() {
			create(imp)
		}
		pk := p.Pkgs[tp.Path()]
		if pk != nil && withBodies[tp.Path()] {
			// its generic functions are instantiated by the module's packages
			prog.CreatePackage(tp, pk.Files, pk.Info, true)
		} else if pk != nil && pk.Module && len(pk.Errs) == 0 {
			pk.SSA = prog.CreatePackage(tp, pk.Files, pk.Info, true)
		} else {
			prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, pk := range p.Mod {
		create(pk.Types)
	}
	for _, pk := range p.Mod {
		if pk.SSA != nil {
			pk.SSA.Build()
		}
	}
}

func (p *Program) Pkg(suffix string) *Package {
	path := p.ModPath
	if suffix != "" {
		path += "/" + suffix
	}
	pk := p.Pkgs[path]
	if pk != nil && !pk.Module {
		return nil
	}
	return pk
}

// Pos renders a repo-relative position.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Repo, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		return fmt.Sprintf("%s:%d", rel, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (p *Program) insID(in ssa.Instruction) int {
	if id, ok := p.insIDs[in]; ok {
		return id
	}
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			p.insIDs[i] = n
			n++
		}
	}
	if fn.Recover != nil {
		for _, i := range fn.Recover.Instrs {
			if _, ok := p.insIDs[i]; !ok {
				p.insIDs[i] = n
				n++
			}
		}
	}
	return p.insIDs[in]
}
func (p *Program) fnID(fn *ssa.Function) int {
	if id, ok := p.fnIDs[fn]; ok {
		return id
	}
	id := len(p.fnIDs)
	p.fnIDs[fn] = id
	return id
}

// liveness of SSA values per block.
type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
	// cyc marks blocks that lie on a cycle.
	cyc map[*ssa.BasicBlock]bool
}

func (p *Program) liveFor(fn *ssa.Function) *liveness {
	if l, ok := p.live[fn]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, cyc: map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				idx := -1
				for k, pr := range s.Preds {
					if pr == b {
						idx = k
					}
				}
				for v := range l.in[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if idx >= 0 && isLocal(phi.Edges[idx]) {
						live[phi.Edges[idx]] = true
					}
					// several edges from the same pred
					for k, pr := range s.Preds {
						if pr == b && isLocal(phi.Edges[k]) {
							live[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isLocal(*op) {
						live[*op] = true
					}
				}
			}
			// phis are live-in definitions (set on edge); keep them in `in` set
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				live[phi] = true
			}
			if len(live) != len(l.in[b]) {
				l.in[b] = live
				changed = true
			} else {
				for v := range live {
					if !l.in[b][v] {
						l.in[b] = live
						changed = true
						break
					}
				}
			}
		}
	}
	// cycles
	for _, b := range fn.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		stack := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			if x == b {
				l.cyc[b] = true
				break
			}
			stack = append(stack, x.Succs...)
		}
	}
	p.live[fn] = l
	return l
}

// fieldsFrom: names of struct fields that code reachable from block b (callees included) may read.
func (p *Program) fieldsFrom(fn *ssa.Function, b *ssa.BasicBlock) map[string]bool {
	if p.fromF == nil {
		p.fromF, p.ownF, p.fnF = map[*ssa.BasicBlock]map[string]bool{}, map[*ssa.BasicBlock]map[string]bool{}, map[*ssa.Function]map[string]bool{}
	}
	if r, ok := p.fromF[b]; ok {
		return r
	}
	out := map[string]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for k := range p.blockFields(x) {
			out[k] = true
		}
		for _, s := range x.Succs {
			walk(s)
		}
	}
	walk(b)
	p.fromF[b] = out
	return out
}

func (p *Program) blockFields(b *ssa.BasicBlock) map[string]bool {
	if r, ok := p.ownF[b]; ok {
		return r
	}
	out := map[string]bool{}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			out[structOf(x.X.Type()).Field(x.Field).Name()] = true
		case *ssa.Field:
			out[structOf0(x.X.Type()).Field(x.Field).Name()] = true
		}
		for _, f := range p.calleesOf(in) {
			for k := range p.funcFields(f) {
				out[k] = true
			}
		}
	}
	p.ownF[b] = out
	return out
}

// calleesOf: module functions an instruction may call or create as a closure.
func (p *Program) calleesOf(in ssa.Instruction) []*ssa.Function {
	var out []*ssa.Function
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			it, _ := cc.Value.Type().Underlying().(*types.Interface)
			if it != nil && cc.Method.Pkg() != nil && strings.HasPrefix(cc.Method.Pkg().Path(), p.ModPath) {
				for _, t := range p.implsOf(it) {
					if f := p.methodOf(t, cc.Method.Name()); f != nil {
						out = append(out, f)
					}
				}
			}
		} else if f := cc.StaticCallee(); f != nil {
			out = append(out, f)
		}
	}
	for _, op := range in.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok {
			out = append(out, f)
		}
		if mc, ok := (*op).(*ssa.MakeClosure); ok {
			out = append(out, mc.Fn.(*ssa.Function))
		}
	}
	return out
}

func (p *Program) implsOf(it *types.Interface) []types.Type {
	var out []types.Type
	for _, pk := range p.Mod {
		if pk.Types == nil {
			continue
		}
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// reachable returns fn and every module function reachable from it.
func (p *Program) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range p.calleesOf(in) {
					walk(g)
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

func (p *Program) funcFields(fn *ssa.Function) map[string]bool {
	if r, ok := p.fnF[fn]; ok {
		return r
	}
	out := map[string]bool{}
	for f := range p.reachable(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					out[structOf(x.X.Type()).Field(x.Field).Name()] = true
				case *ssa.Field:
					out[structOf0(x.X.Type()).Field(x.Field).Name()] = true
				}
			}
		}
	}
	p.fnF[fn] = out
	return out
}

var callersCache = map[*Program]map[*ssa.Function][]*ssa.Function{}

// callers is the reverse call graph of the module (closures count as called by their parent).
func (p *Program) callers() map[*ssa.Function][]*ssa.Function {
	if r, ok := callersCache[p]; ok {
		return r
	}
	r := map[*ssa.Function][]*ssa.Function{}
	for _, pk := range p.Mod {
		if pk.SSA == nil {
			continue
		}
		for _, f := range allFuncs(pk.SSA) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, g := range p.calleesOf(in) {
						r[g] = append(r[g], f)
					}
				}
			}
		}
	}
	callersCache[p] = r
	return r
}
