package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked and SSA-built program under analysis.
type Prog struct {
	Root  string
	Mod   string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  []*packages.Package // repo packages
	All   map[string]*packages.Package
	Funcs []*ssa.Function // every function with a body declared in the repo (including closures)
	// named concrete types declared in the repo
	Concrete   []*types.Named
	unstable   map[*types.Var]bool
	stable     bool
	implMemo   map[string][]*ssa.Function
	constFuncs map[*ssa.Global]*ssa.Function
}

// errElsewhere says that another operating system's build needs a dependency that is not in the module cache.
var errElsewhere = errors.New("the dependencies of this operating system are not installed")

// LoadProg loads the repository rooted at dir from its current source.
func LoadProg(dir, goos string) (*Prog, error) {
	env := append(os.Environ(),
		"GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "HOME=/root", "CGO_ENABLED=0")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Tests: false}
	if goos == "windows" {
		// logrus asks for a module here that is not in the module cache, except under this tag
		cfg.BuildFlags = []string{"-tags=appengine"}
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Root: dir, All: map[string]*packages.Package{}, implMemo: map[string][]*ssa.Function{}}
	var errs []string
	elsewhere := true
	packages.Visit(ps, nil, func(pk *packages.Package) {
		p.All[pk.PkgPath] = pk
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
			if len(pk.GoFiles) == 0 || strings.HasPrefix(pk.GoFiles[0], strings.TrimSuffix(dir, "/")+"/") {
				elsewhere = false
			}
		}
	})
	if len(errs) > 0 && elsewhere && goos != "" {
		return nil, errElsewhere
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	for _, pk := range ps {
		if pk.Module != nil && p.Mod == "" {
			p.Mod = pk.Module.Path
		}
	}
	p.Pkgs = ps
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for fn := range ssautil.AllFunctions(prog) {
		if p.InRepo(fn) && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Fset.Position(p.Funcs[i].Pos()), p.Fset.Position(p.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					if _, isIf := nt.Underlying().(*types.Interface); !isIf && nt.TypeParams().Len() == 0 {
						p.Concrete = append(p.Concrete, nt)
					}
				}
			}
		}
	}
	return p, nil
}

// pkgOf returns the package of a function, following closures and wrappers to their origin.
func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

// InRepo is true for source functions of the repository (not for test files, which are not loaded).
func (p *Prog) InRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	pk := pkgOf(fn)
	if pk == nil {
		return false
	}
	return p.RepoPkg(pk)
}

// RepoPkg is true for packages of the repository.
func (p *Prog) RepoPkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.Mod || strings.HasPrefix(pk.Path(), p.Mod+"/"))
}

// Pkg returns the types package with the given path relative to the module.
func (p *Prog) Pkg(rel string) *types.Package {
	path := p.Mod + "/" + rel
	if rel == "" {
		path = p.Mod
	}
	if pk := p.All[path]; pk != nil {
		return pk.Types
	}
	return nil
}

// Position formats a position relative to the root of the repository.
func (p *Prog) Position(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	fn := ps.Filename
	if r, err := filepath.Rel(p.Root, fn); err == nil && !strings.HasPrefix(r, "..") {
		fn = r
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// FuncName is a stable readable name of a function.
func (p *Prog) FuncName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(fn.String(), p.Mod+"/", "")
}

// Func returns a package level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	sp := p.SSA.Package(pk)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Iface returns a named interface type.
func (p *Prog) Iface(rel, name string) *types.Interface {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

// Named returns a named type.
func (p *Prog) Named(rel, name string) types.Type {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Implementers returns the receiver types (T or *T) declared in the repository that implement the interface.
func (p *Prog) Implementers(it *types.Interface) []types.Type {
	var ts []types.Type
	for _, nt := range p.Concrete {
		if types.Implements(nt, it) {
			ts = append(ts, nt)
		} else if types.Implements(types.NewPointer(nt), it) {
			ts = append(ts, types.NewPointer(nt))
		}
	}
	return ts
}

// MethodOf resolves the SSA function of a method of a concrete type.
func (p *Prog) MethodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// MethodNamed resolves a method by name on a concrete type (exported or declared in the type's package).
func (p *Prog) MethodNamed(t types.Type, name string) *ssa.Function {
	var pk *types.Package
	if n := namedOf(t); n != nil {
		pk = n.Obj().Pkg()
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(pk, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// ImplFuncs returns the distinct declared (non promoted) repo functions that implement method m of interface type t.
func (p *Prog) ImplFuncs(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := types.TypeString(t, nil) + "." + m.Name()
	if fs, ok := p.implMemo[key]; ok {
		return fs
	}
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, ct := range p.Implementers(it) {
		ms := p.SSA.MethodSets.MethodSet(ct)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		f := p.SSA.MethodValue(sel)
		if f == nil {
			continue
		}
		// promoted through an embedded interface: not a declaration of its own
		if f.Synthetic != "" {
			if o, ok := f.Object().(*types.Func); ok {
				if df := p.SSA.FuncValue(o); df != nil && df.Synthetic == "" {
					f = df
				} else {
					continue
				}
			} else {
				continue
			}
		}
		if !seen[f] {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	p.implMemo[key] = fs
	return fs
}

// fieldVar returns the field variable for a FieldAddr/Field instruction.
func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i)
	}
	return nil
}

// freshBase is true if v is an allocation of the function itself (a variable or composite literal under construction).
func freshBase(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(v.X)
	case *ssa.IndexAddr:
		return freshBase(v.X)
	}
	return false
}

// UnstableFields are struct fields of repo types that are assigned somewhere other than on an object under construction in
// the same function. All other fields keep the value they were constructed with.
func (p *Prog) UnstableFields() map[*types.Var]bool {
	if p.stable {
		return p.unstable
	}
	p.unstable = map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if !freshBase(fa.X) {
						p.unstable[fieldVar(fa.X.Type(), fa.Field)] = true
					}
					continue
				}
				if freshBase(st.Addr) {
					continue
				}
				if _, isG := st.Addr.(*ssa.Global); isG {
					continue
				}
				if s, ok := st.Val.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						p.unstable[s.Field(i)] = true
					}
				}
			}
		}
	}
	p.stable = true
	return p.unstable
}

// File returns the syntax of the file containing pos.
func (p *Prog) File(pos token.Pos) *ast.File {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

// constFunc is the function of a package variable that is only assigned once, when the package is initialized
func (p *Prog) constFunc(g *ssa.Global) *ssa.Function {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), p.Mod) {
		return nil
	}
	if p.constFuncs == nil {
		p.constFuncs = map[*ssa.Global]*ssa.Function{}
		times := map[*ssa.Global]int{}
		fs := append([]*ssa.Function{}, p.Funcs...)
		for _, pk := range p.SSA.AllPackages() {
			if f := pk.Func("init"); f != nil && p.InRepo(f) {
				fs = append(fs, f)
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range fs {
			if seen[f] {
				continue
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						v, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch in := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							times[v]++
							if in.Addr != ssa.Value(v) || f.Name() != "init" {
								times[v] += 2
							}
							switch x := in.Val.(type) {
							case *ssa.Function:
								p.constFuncs[v] = x
							case *ssa.MakeClosure:
								if len(x.Bindings) == 0 {
									p.constFuncs[v] = x.Fn.(*ssa.Function)
								}
							}
						default:
							times[v] += 2
						}
					}
				}
			}
		}
		for v, n := range times {
			if n > 1 {
				delete(p.constFuncs, v)
			}
		}
	}
	return p.constFuncs[g]
}
