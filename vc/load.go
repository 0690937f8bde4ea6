package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPrefix = "github.com/ngicks/go-fsys-helper/"

// Prog is the loaded program.
type Prog struct {
	fset      *token.FileSet
	ssa       *ssa.Program
	pkgs      []*packages.Package
	loops     map[*ssa.Function]*loopInfo
	funcByKey map[string]*ssa.Function
	byName    map[string][]*types.Package
	types     map[string]types.Type
	funcs     []*ssa.Function
}

type fatal struct{ msg string }

func fatalf(format string, a ...any) { panic(fatal{fmt.Sprintf(format, a...)}) }

var goBin = "/opt/veriftools/go1.26.10/bin/go"

func goEnv(work string) []string {
	var out []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "GOFLAGS", "GOWORK", "GOENV", "GOPROXY", "GOTOOLCHAIN", "HOME", "GOPATH", "GOCACHE", "PATH":
			continue
		}
		out = append(out, e)
	}
	return append(out, "HOME=/root", "GOPATH=/root/go", "GOCACHE="+goCache(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=",
		"GOENV=off", "CGO_ENABLED=1", "GOWORK="+work, "PATH="+filepath.Dir(goBin)+":"+os.Getenv("PATH"))
}

func goCache() string { return "/root/.cache/go-build" }

func loadProg(pkgPaths []string, work string) (*Prog, error) {
	os.Setenv("PATH", filepath.Dir(goBin)+":"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir:  "/repo/vroot",
		Env:  goEnv(work),
		Fset: token.NewFileSet(),
	}
	// dependencies from export data; every repo package that a contract needs
	// is listed as a root
	cfg.Mode &^= packages.NeedDeps
	var pats []string
	for _, p := range pkgPaths {
		pats = append(pats, repoPrefix+p)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	sp, roots := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	for i, r := range roots {
		if r == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
	}
	sp.Build()
	pr := &Prog{fset: cfg.Fset, ssa: sp, pkgs: pkgs, loops: map[*ssa.Function]*loopInfo{}, funcByKey: map[string]*ssa.Function{}, byName: map[string][]*types.Package{}, types: map[string]types.Type{}}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		pr.byName[shortPkg(p)] = append(pr.byName[shortPkg(p)], p)
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range pkgs {
		visit(p.Types)
	}
	for k := range pr.byName {
		l := pr.byName[k]
		sort.Slice(l, func(i, j int) bool {
			ri, rj := strings.HasPrefix(l[i].Path(), repoPrefix), strings.HasPrefix(l[j].Path(), repoPrefix)
			if ri != rj {
				return ri
			}
			return l[i].Path() < l[j].Path()
		})
	}
	all := ssautil.AllFunctions(sp)
	// generic methods that are never instantiated here
	var addFn func(fn *ssa.Function)
	addFn = func(fn *ssa.Function) {
		all[fn] = true
		for _, a := range fn.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range pkgs {
		for _, n := range p.Types.Scope().Names() {
			switch o := p.Types.Scope().Lookup(n).(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						if fn := sp.FuncValue(nt.Method(i)); fn != nil {
							addFn(fn)
						}
					}
				}
			case *types.Func:
				if fn := sp.FuncValue(o); fn != nil {
					addFn(fn)
				}
			}
		}
	}
	for fn := range all {
		if !pr.inRepo(fn) || fn.Blocks == nil {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		k := funcKey(fn)
		if o, ok := pr.funcByKey[k]; ok {
			// prefer the generic function, then a stable order
			if (o.Origin() == nil) != (fn.Origin() == nil) {
				if o.Origin() == nil {
					continue
				}
			} else if o.String() <= fn.String() {
				continue
			}
		}
		pr.funcByKey[k] = fn
	}
	for _, fn := range pr.funcByKey {
		pr.funcs = append(pr.funcs, fn)
	}
	sort.Slice(pr.funcs, func(i, j int) bool { return funcKey(pr.funcs[i]) < funcKey(pr.funcs[j]) })
	return pr, nil
}

func (p *Prog) pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (p *Prog) repoPkg(pk *types.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Path(), repoPrefix)
}

func (p *Prog) inRepo(fn *ssa.Function) bool { return p.repoPkg(p.pkgOf(fn)) }

var (
	pathRe  = regexp.MustCompile(`(?:[A-Za-z0-9_.\-]+/)+`)
	boundRe = regexp.MustCompile(`\$bound$|\$thunk$`)
)

// funcKey names a function: (*pkg.T).M, pkg.F, pkg.F$1.
func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		fn = o
	}
	if fn.Parent() != nil {
		s := fn.Name()
		if i := strings.LastIndexByte(s, '$'); i >= 0 {
			return funcKey(fn.Parent()) + s[i:]
		}
	}
	s := fn.RelString(nil)
	s = pathRe.ReplaceAllString(s, "")
	// strip type arguments
	var b strings.Builder
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[':
			d++
		case ']':
			d--
		default:
			if d == 0 {
				b.WriteByte(s[i])
			}
		}
	}
	return b.String()
}

func (p *Prog) pkgsByName(n string) []*types.Package { return p.byName[n] }

func (p *Prog) typeByName(s string) types.Type {
	loopMu.Lock()
	defer loopMu.Unlock()
	return p.typeByName1(s)
}

func (p *Prog) typeByName1(s string) types.Type {
	if t, ok := p.types[s]; ok {
		return t
	}
	var t types.Type
	switch {
	case strings.HasPrefix(s, "*"):
		if e := p.typeByName1(s[1:]); e != nil {
			t = types.NewPointer(e)
		}
	case strings.HasPrefix(s, "[]"):
		if e := p.typeByName1(s[2:]); e != nil {
			t = types.NewSlice(e)
		}
	default:
		if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
			t = o.Type()
			break
		}
		i := strings.IndexByte(s, '.')
		if i < 0 {
			return nil
		}
		for _, pk := range p.byName[s[:i]] {
			if o, ok := pk.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
				t = o.Type()
				break
			}
		}
	}
	if t != nil {
		p.types[s] = t
	}
	return t
}

func (p *Prog) anyPkgOf(t types.Type) *types.Package {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		return s.Field(0).Pkg()
	}
	return nil
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	loopMu.Lock()
	defer loopMu.Unlock()
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.ssa.MethodValue(sel)
	if f == nil || f.Blocks == nil {
		return nil
	}
	// library methods have no source here
	return f
}

func matchPat(pat, s string) bool {
	parts := strings.Split(pat, "%")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}
