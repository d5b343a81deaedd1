package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	goprinter "go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkg       *ssa.Package
	tpkg      *types.Package
	omNamed   map[string]*types.Named
	omGeneric types.Type
	contracts map[*ssa.Function]*ssa.Function // target -> contract
	ifaceC    map[string]*ssa.Function        // "Shape.validate" -> contract
	fnTypeC   map[string]*ssa.Function        // named func type -> contract
	list      []*Contract
	dropped   map[string]string // contract declarations that do not compile
	impl      map[string][]types.Type
	globals   map[string]*globInfo
	overlay   map[string][]byte
	ctrFiles  []string
}

type Contract struct {
	Name   string // contract function name
	Target *ssa.Function
	TName  string
	Fn     *ssa.Function
	Props  []string
	Iface  bool
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// overlayFiles maps contract sources into the package directory of the code.
func overlayFiles() (map[string][]byte, []string, error) {
	out := map[string][]byte{}
	var names []string
	fs, err := filepath.Glob(filepath.Join(verifDir(), "contracts", "*.go"))
	if err != nil {
		return nil, nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		n := filepath.Join(repoDir(), "zz_verif_"+filepath.Base(f))
		out[n] = b
		names = append(names, n)
	}
	return out, names, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
}

func loadPkgs(overlay map[string][]byte) ([]*packages.Package, *token.FileSet, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir:     repoDir(),
		Env:     goEnv(),
		Fset:    fset,
		Overlay: overlay,
	}
	// types of dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, ".")
	return pkgs, fset, err
}

// dropBroken removes contract declarations with compile errors from the overlay.
func dropBroken(overlay map[string][]byte, errs []packages.Error, dropped map[string]string) bool {
	changed := false
	for _, e := range errs {
		parts := strings.Split(e.Pos, ":")
		if len(parts) < 2 {
			continue
		}
		src, ok := overlay[parts[0]]
		if !ok {
			continue
		}
		line := 0
		fmt.Sscanf(parts[1], "%d", &line)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, parts[0], src, parser.ParseComments)
		if err != nil {
			continue
		}
		for i, d := range f.Decls {
			lo, hi := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
			if line < lo || line > hi {
				continue
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				// unused import: drop the spec on that line
				for j, s := range g.Specs {
					if fs.Position(s.Pos()).Line == line {
						g.Specs = append(g.Specs[:j], g.Specs[j+1:]...)
						changed = true
						break
					}
				}
				if len(g.Specs) == 0 {
					f.Decls = append(f.Decls[:i], f.Decls[i+1:]...)
				}
			} else {
				if fd, ok := d.(*ast.FuncDecl); ok {
					dropped[fd.Name.Name] = e.Msg
				}
				f.Decls = append(f.Decls[:i], f.Decls[i+1:]...)
				changed = true
			}
			f.Comments = nil
			var sb strings.Builder
			if err := goprinter.Fprint(&sb, fs, f); err == nil {
				overlay[parts[0]] = []byte(sb.String())
			}
			return changed // positions are stale now
		}
	}
	return changed
}

func Load() (*Prog, error) {
	overlay, names, err := overlayFiles()
	if err != nil {
		return nil, err
	}
	dropped := map[string]string{}
	var pkgs []*packages.Package
	var fset *token.FileSet
	for round := 0; round < 60; round++ {
		pkgs, fset, err = loadPkgs(overlay)
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
		}
		if len(pkgs[0].Errors) == 0 {
			break
		}
		if !dropBroken(overlay, pkgs[0].Errors, dropped) {
			return nil, fmt.Errorf("package does not type-check: %v", pkgs[0].Errors[0])
		}
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not type-check: %v", pkgs[0].Errors[0])
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug&0|ssa.InstantiateGenerics)
	p := &Prog{fset: fset, prog: prog, pkg: spkgs[0], tpkg: pkgs[0].Types, omNamed: map[string]*types.Named{},
		contracts: map[*ssa.Function]*ssa.Function{}, ifaceC: map[string]*ssa.Function{}, fnTypeC: map[string]*ssa.Function{},
		dropped: dropped, impl: map[string][]types.Type{}, overlay: overlay, ctrFiles: names}
	if p.pkg == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	ramlPath = p.tpkg.Path()
	prog.Build()
	for _, imp := range allImports(p.tpkg, map[*types.Package]bool{}) {
		if strings.Contains(imp.Path(), "go-ordered-map") {
			if o := imp.Scope().Lookup("OrderedMap"); o != nil {
				p.omGeneric = o.Type()
			}
		}
	}
	// all named types of the package get a tag first (stable numbering)
	sc := p.tpkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := nt.Underlying().(*types.Interface); ok {
			continue
		}
		tagID(nt)
		tagID(types.NewPointer(nt))
	}
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		tagID(types.Typ[b])
	}
	anyT := types.NewInterfaceType(nil, nil)
	_ = anyT
	anyA := types.Universe.Lookup("any").Type()
	tagID(types.NewSlice(anyA))
	tagID(types.NewMap(types.Typ[types.String], anyA))
	tagID(types.NewMap(anyA, anyA))
	p.collectContracts()
	return p, nil
}

func allImports(t *types.Package, seen map[*types.Package]bool) []*types.Package {
	var out []*types.Package
	for _, i := range t.Imports() {
		if seen[i] {
			continue
		}
		seen[i] = true
		out = append(out, i)
		out = append(out, allImports(i, seen)...)
	}
	return out
}

// contractProps reads the vProp declarations of the contract functions.
func (p *Prog) contractProps() map[string][]string {
	out := map[string][]string{}
	for _, fn := range p.ctrFiles {
		f, err := parser.ParseFile(token.NewFileSet(), fn, p.overlay[fn], 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "vProp" {
					for _, a := range c.Args {
						if l, ok := a.(*ast.BasicLit); ok {
							out[fd.Name.Name] = append(out[fd.Name.Name], strings.Trim(l.Value, "\""))
						}
					}
				}
				return true
			})
		}
	}
	return out
}

func (p *Prog) collectContracts() {
	props := p.contractProps()
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := p.pkg.Members[n].(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "contract_") {
			continue
		}
		rest := strings.TrimPrefix(n, "contract_")
		c := &Contract{Name: n, Fn: f, Props: props[n]}
		oneCase := false
		if strings.HasPrefix(rest, "_") {
			// plain function or function type
			fnName := rest[1:]
			if i := strings.Index(fnName, "__"); i >= 0 { // variant suffix: instantiation
				fnName = fnName[:i]
			}
			if t, ok := p.pkg.Members[fnName].(*ssa.Function); ok {
				c.Target = t
				c.TName = fnName
			} else if _, ok := p.pkg.Members[fnName].(*ssa.Type); ok {
				p.fnTypeC[fnName] = f
				continue
			}
		} else {
			base := rest
			if i := strings.Index(base, "__"); i >= 0 { // one case of the method: checked, not given to callers
				base, oneCase = base[:i], true
			}
			i := strings.LastIndex(base, "_")
			if i <= 0 {
				p.dropped[n] = "contract names no method"
				continue
			}
			m := base[i+1:]
			if len(f.Params) == 0 {
				p.dropped[n] = "contract without receiver parameter"
				continue
			}
			rt := f.Params[0].Type()
			if _, ok := types.Unalias(rt).Underlying().(*types.Interface); ok {
				nm := types.Unalias(rt).(*types.Named).Obj().Name()
				p.ifaceC[nm+"."+m] = f
				continue
			}
			mset := p.prog.MethodSets.MethodSet(rt)
			s := mset.Lookup(p.tpkg, m)
			if s != nil {
				c.Target = p.prog.MethodValue(s)
				c.TName = rest[:i] + "." + m
			}
		}
		if c.Target == nil {
			p.dropped[n] = "no such function in the code"
			continue
		}
		if !oneCase {
			p.contracts[c.Target] = f
		}
		p.list = append(p.list, c)
	}
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (p *Prog) short(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(p.tpkg)
	return strings.NewReplacer("(*", "", "(", "", ")", "").Replace(s)
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg == p.pkg {
		return true
	}
	if o := f.Origin(); o != nil && o.Pkg == p.pkg {
		return true
	}
	if f.Parent() != nil {
		return p.inRepo(f.Parent())
	}
	// wrappers (promoted methods, bound methods)
	if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() == p.tpkg {
		return true
	}
	if f.Pkg == nil && f.Synthetic != "" && len(f.Blocks) > 0 {
		return true
	}
	return false
}

func (p *Prog) isContractFile(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return strings.HasPrefix(filepath.Base(p.fset.Position(f.Pos()).Filename), "zz_verif_")
}

// uncompTags: known dynamic types whose values are not comparable
func (p *Prog) uncompTags() []types.Type {
	var out []types.Type
	for _, t := range tagTypes {
		if _, ok := types.Unalias(t).Underlying().(*types.Slice); ok {
			continue
		}
		if !types.Comparable(t) {
			out = append(out, t)
		}
	}
	return out
}

// implTypes: known concrete types implementing it
func (p *Prog) implTypes(it *types.Interface) []types.Type {
	key := it.String()
	if r, ok := p.impl[key]; ok {
		return r
	}
	var out []types.Type
	seen := map[string]bool{}
	add := func(t types.Type) {
		k := types.TypeString(t, nil)
		if seen[k] {
			return
		}
		seen[k] = true
		if types.Implements(t, it) {
			tagID(t)
			out = append(out, t)
		}
	}
	sc := p.tpkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := nt.Underlying().(*types.Interface); ok {
			continue
		}
		add(nt)
		add(types.NewPointer(nt))
	}
	for _, t := range append([]types.Type{}, tagTypes...) {
		if _, ok := types.Unalias(t).Underlying().(*types.Interface); !ok {
			add(t)
		}
	}
	p.impl[key] = out
	return out
}

// ---- immutable globals

type globInfo struct {
	g       *ssa.Global
	mutable bool
	stores  []*ssa.Store
	updates []*ssa.MapUpdate
	elems   int
}

// globalInits classifies package-level variables: those written only by the
// package initialiser, with constant (or constant-keyed map) contents.
func (p *Prog) globalInits() map[string]*globInfo {
	if p.globals != nil {
		return p.globals
	}
	p.globals = map[string]*globInfo{}
	for _, m := range p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			p.globals["raml."+g.Name()] = &globInfo{g: g}
		}
	}
	initFn := p.pkg.Func("init")
	var visit func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if gi := p.globals[g.Pkg.Pkg.Name()+"."+g.Name()]; gi != nil {
							gi.stores = append(gi.stores, s)
							if f != initFn {
								gi.mutable = true
							}
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						gi := p.globals[g.Pkg.Pkg.Name()+"."+g.Name()]
						if gi == nil {
							continue
						}
						switch u := ins.(type) {
						case *ssa.UnOp: // load; if the loaded map is written outside init
							if f != initFn && u.Referrers() != nil {
								for _, r := range *u.Referrers() {
									if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == u {
										gi.mutable = true
									}
								}
							}
						case *ssa.Store:
						default:
							if f != initFn {
								gi.mutable = true
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for f := range ssautil.AllFunctions(p.prog) {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			visit(f)
		}
	}
	return p.globals
}

// globalValue returns the value of an immutable package-level variable.
func (p *Prog) globalValue(x *Exec, root string, t types.Type, st *State) Value {
	gi := p.globalInits()[root]
	if gi == nil || gi.mutable || len(gi.stores) != 1 {
		return nil
	}
	v := gi.stores[0].Val
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &Clo{Fn: c}
	case *ssa.MakeMap:
		return x.globalMap(root, t, c, st)
	case *ssa.Slice:
		return x.globalSlice(root, t, c, st)
	case *ssa.Call:
		// errors.New and friends: an opaque non-nil constant
		if isIface(t) {
			return UF("glob:"+root, SVal)
		}
	}
	return nil
}
