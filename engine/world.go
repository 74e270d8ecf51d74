package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is everything that is known about the program. It is shared by all workers, and read only.
type World struct {
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   map[string]*packages.Package
	db     *SpecDB
	globs  map[string]int
	mut    map[string]bool // globals that are assigned to outside of init
	alias  map[string]string
	shared *sync.Mutex
	insts  map[*ssa.Function][]*ssa.Function // instances of generic functions

	qcount int // only used by copies
}

// LoadWorld loads the given packages of the repository
func LoadWorld(repo string, patterns []string, models string, db *SpecDB) (*World, error) {
	overlay := map[string][]byte{}
	ms, _ := filepath.Glob(filepath.Join(models, "*.go.txt"))
	for _, m := range ms {
		data, err := os.ReadFile(m)
		if err != nil {
			return nil, err
		}
		// the first line names the directory
		line, rest, _ := strings.Cut(string(data), "\n")
		dir := strings.TrimSpace(strings.TrimPrefix(line, "// dir:"))
		if st, err := os.Stat(filepath.Join(repo, dir)); err != nil || !st.IsDir() {
			continue
		}
		overlay[filepath.Join(repo, dir, "zz_gocv_"+strings.TrimSuffix(filepath.Base(m), ".txt"))] = []byte("\n" + rest)
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	w := &World{fset: cfg.Fset, db: db, pkgs: map[string]*packages.Package{}, globs: map[string]int{}, mut: map[string]bool{}, alias: map[string]string{}, shared: &sync.Mutex{}}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		w.pkgs[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not compile: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
		}
	}
	w.findAliases()
	w.findMutable()
	return w, nil
}

// findAliases finds package level variables that are copies of other variables
func (w *World) findAliases() {
	for path, p := range w.pkgs {
		if !strings.HasPrefix(path, modPath) && !strings.Contains(path, "leveldb") && path != "io" && path != "os" && path != "io/fs" {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, v := range vs.Values {
						var id *ast.Ident
						switch e := v.(type) {
						case *ast.Ident:
							id = e
						case *ast.SelectorExpr:
							id = e.Sel
						}
						if id == nil {
							continue
						}
						if o, ok := p.TypesInfo.Uses[id].(*types.Var); ok && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
							w.alias[path+"."+vs.Names[i].Name] = o.Pkg().Path() + "." + o.Name()
						}
					}
				}
			}
		}
	}
}

// findMutable finds the package level variables of the repository that may change after initialisation
func (w *World) findMutable() {
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			continue
		}
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, isU := ins.(*ssa.UnOp); isU && u.Op == token.MUL {
						continue
					}
					if _, isD := ins.(*ssa.DebugRef); isD {
						continue
					}
					if fa, isF := ins.(*ssa.FieldAddr); isF {
						ok := true
						for _, r := range *fa.Referrers() {
							if u, isU := r.(*ssa.UnOp); !isU || u.Op != token.MUL {
								ok = false
							}
						}
						if ok {
							continue
						}
					}
					w.mut[globName(g)] = true
				}
			}
		}
	}
}

func (w *World) constGlobal(name string) bool { return !w.mut[name] }

func (w *World) globID(name string) int {
	for i := 0; i < 10; i++ {
		a, ok := w.alias[name]
		if !ok {
			break
		}
		name = a
	}
	w.shared.Lock()
	defer w.shared.Unlock()
	id, ok := w.globs[name]
	if !ok {
		id = len(w.globs) + 1
		w.globs[name] = id
	}
	return id
}

func (w *World) pkgOf(path string) *types.Package {
	if p, ok := w.pkgs[path]; ok {
		return p.Types
	}
	return nil
}

// importNamed finds an import of pkg by its name
func (w *World) importNamed(pkg *types.Package, name string) *types.Package {
	if pkg == nil {
		return nil
	}
	for _, i := range pkg.Imports() {
		if i.Name() == name {
			return i
		}
	}
	// any package of the repository
	for path, p := range w.pkgs {
		if strings.HasPrefix(path, modPath) && p.Name == name {
			return p.Types
		}
	}
	for _, p := range w.pkgs {
		if p.Types != nil && p.Name == name && p.PkgPath == name {
			return p.Types
		}
	}
	// any other package, the first one by path
	var best string
	for path, p := range w.pkgs {
		if p.Types != nil && p.Types.Name() == name && (best == "" || path < best) {
			best = path
		}
	}
	if best != "" {
		return w.pkgs[best].Types
	}
	return nil
}

func (w *World) lookupName(pkg *types.Package, name string) types.Object {
	if j := strings.LastIndex(name, "."); j > 0 {
		p := w.importNamed(pkg, name[:j])
		if p == nil {
			return nil
		}
		return p.Scope().Lookup(name[j+1:])
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(name); o != nil {
			return o
		}
	}
	return types.Universe.Lookup(name)
}

// findFunc finds a function or method by its contract key
func (w *World) findFunc(pkg, key string) *ssa.Function {
	p := w.pkgOf(pkg)
	if p == nil {
		return nil
	}
	sp := w.prog.Package(p)
	if sp == nil {
		return nil
	}
	typ, m, isMethod := strings.Cut(key, ".")
	if !isMethod {
		return sp.Func(key)
	}
	o := p.Scope().Lookup(typ)
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(tn.Type()).(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == m {
			return w.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

// instantiate finds the instance of a generic function
func (w *World) instantiate(fn *ssa.Function, ts []types.Type) *ssa.Function {
	self := true
	for i, t := range ts {
		if tp, ok := t.(*types.TypeParam); !ok || tp.Obj().Name() != fn.TypeParams().At(i).Obj().Name() {
			self = false
		}
	}
	if self {
		return fn
	}
	w.shared.Lock()
	defer w.shared.Unlock()
	w.findInstances()
	for _, f := range w.insts[fn] {
		same := true
		for i, t := range f.TypeArgs() {
			if !types.Identical(t, ts[i]) {
				same = false
			}
		}
		if same && len(f.Blocks) > 0 {
			return f
		}
	}
	return nil
}

func (w *World) findInstances() {
	if w.insts == nil {
		w.insts = map[*ssa.Function][]*ssa.Function{}
		for f := range ssautil.AllFunctions(w.prog) {
			if o := f.Origin(); o != nil && o != f {
				w.insts[o] = append(w.insts[o], f)
			}
		}
	}
}

// instances returns the instances of a generic function without type parameters
func (w *World) instances(fn *ssa.Function) (out []*ssa.Function) {
	w.shared.Lock()
	defer w.shared.Unlock()
	w.findInstances()
	for _, f := range w.insts[fn] {
		ok := len(f.Blocks) > 0
		for _, t := range f.TypeArgs() {
			if mentionsTypeParam(t, 0) {
				ok = false
			}
		}
		if ok {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i].TypeArgs()) < fmt.Sprint(out[j].TypeArgs()) })
	return
}

func mentionsTypeParam(t types.Type, d int) bool {
	if d > 8 {
		return false
	}
	switch t := types.Unalias(t).(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return mentionsTypeParam(t.Elem(), d+1)
	case *types.Slice:
		return mentionsTypeParam(t.Elem(), d+1)
	case *types.Map:
		return mentionsTypeParam(t.Key(), d+1) || mentionsTypeParam(t.Elem(), d+1)
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if mentionsTypeParam(t.TypeArgs().At(i), d+1) {
				return true
			}
		}
	}
	return false
}

// hasCoreType reports whether a type parameter stands for maps or slices
func hasCoreType(fn *ssa.Function) bool {
	tps := fn.TypeParams()
	for i := 0; i < tps.Len(); i++ {
		it, ok := tps.At(i).Constraint().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for j := 0; j < it.NumEmbeddeds(); j++ {
			if u, ok := it.EmbeddedType(j).(*types.Union); ok && u.Len() == 1 {
				switch u.Term(0).Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					return true
				}
			}
		}
	}
	return false
}
