package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Finding is one construct that breaks a rule.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	Msg       string   `json:"msg"`
	Path      []string `json:"path,omitempty"`
}

// ID identifies a finding independent of line numbers.
func (f *Finding) ID() string { return f.Rule + "|" + f.Construct }

// Ctx is handed to each rule.
type Ctx struct {
	P            *Prog
	E            *Engine
	ID           string
	Thorough     bool
	Findings     []*Finding
	Counts       map[string]int
	Samples      []string
	Obls         int
	OK           int
	funcs        map[string]bool
	paths        int
	handlerFuncs []*ssa.Function
	seen         map[string]bool
	noSkip       bool
	impls        map[string][]string
	pieces       map[*ssa.Function]bool
	users        map[*ssa.Function]*ssa.Function
}

// Bad reports a violated obligation.
func (c *Ctx) Bad(rule, construct string, pos token.Pos, path *Path, format string, args ...interface{}) {
	c.Obls++
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	f := &Finding{Rule: rule, Construct: construct, Where: c.P.Position(pos), Msg: fmt.Sprintf(format, args...)}
	if path != nil {
		for i, l := range strings.Split(strings.TrimSpace(path.Dump(c.P)), "\n") {
			if i > 200 {
				break
			}
			f.Path = append(f.Path, l)
		}
	}
	c.Findings = append(c.Findings, f)
}

// Good counts a discharged obligation.
func (c *Ctx) Good(format string, args ...interface{}) {
	c.Obls++
	c.OK++
	if len(c.Samples) < 40 {
		s := fmt.Sprintf(format, args...)
		for _, o := range c.Samples {
			if o == s {
				return
			}
		}
		c.Samples = append(c.Samples, s)
	}
}

// Must records an obligation.
func (c *Ctx) Must(ok bool, rule, construct string, pos token.Pos, path *Path, format string, args ...interface{}) bool {
	if ok {
		c.Good("%s: %s", rule, construct)
	} else {
		c.Bad(rule, construct, pos, path, format, args...)
	}
	return ok
}

// Count adds to a named instance counter.
func (c *Ctx) Count(name string, n int) { c.Counts[name] += n }

// Min requires that at least n instances of something were found; a rule that matches nothing decides nothing.
func (c *Ctx) Min(name string, n int) {
	if c.Counts[name] < n {
		c.Bad("coverage", name, token.NoPos, nil, "found %d instances of %q, expected at least %d: the rule has lost its anchors", c.Counts[name], name, n)
	} else {
		c.Good("coverage: %d %s", c.Counts[name], name)
	}
}

// Anchor reports a missing anchor.
func (c *Ctx) Anchor(what string) {
	c.Bad("anchor", what, token.NoPos, nil, "cannot find %s in the source", what)
}

// Run analyses a function with the engine and counts what was covered.
func (c *Ctx) Run(fn *ssa.Function, pol *Policy) []*Path {
	ps, err := c.E.Run(fn, pol)
	if err != nil {
		pos := token.NoPos
		if fn != nil {
			pos = fn.Pos()
		}
		c.Bad("undecided", c.P.FuncName(fn), pos, nil, "analysis of %s failed: %v", c.P.FuncName(fn), err)
		return nil
	}
	c.funcs[c.P.FuncName(fn)] = true
	for _, p := range ps {
		for _, ev := range p.Events {
			if ev.In != nil {
				c.funcs[c.P.FuncName(ev.In)] = true
			}
		}
	}
	c.paths += len(ps)
	return ps
}

// Name of function for use in constructs
func (c *Ctx) N(fn *ssa.Function) string { return c.P.FuncName(fn) }

// samePkg is an inlining policy: everything declared in the package of fn (closures included)
func samePkg(root *ssa.Function) func(*ssa.Function) bool {
	pk := pkgOf(root)
	return func(f *ssa.Function) bool { return pkgOf(f) == pk }
}

// inlineAll inlines every repo function.
func inlineAll(*ssa.Function) bool { return true }

func inlineNone(*ssa.Function) bool { return false }

// topFuncs are the declared functions and methods (not closures, not wrappers) of the repo.
func (p *Prog) topFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	return fs
}

// outermost function of a closure
func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// relPkg is the path of the package of a function relative to the module.
func (p *Prog) relPkg(f *ssa.Function) string {
	pk := pkgOf(f)
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), p.Mod), "/")
}

// role returns the types that implement an interface of the api package, excluding types that merely embed the interface
// or embed another implementer.
func (c *Ctx) role(rel, name string, min int) []types.Type {
	it := c.P.Iface(rel, name)
	if it == nil {
		c.Anchor("interface " + rel + "." + name)
		return nil
	}
	ts := c.P.Implementers(it)
	if len(ts) < min {
		c.Anchor(fmt.Sprintf("%d implementations of %s.%s (found %d)", min, rel, name, len(ts)))
	}
	return ts
}

// declaredMethods returns the methods declared directly on a type.
func (p *Prog) declaredMethods(t types.Type) []*ssa.Function {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	var fs []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

// structOf returns the struct type underlying a (pointer to a) named type.
func structOf(t types.Type) *types.Struct {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

// isNamed tells if t is the named type pkgpath.name (or a pointer to it)
func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// calls returns the call instructions of a function (closures are separate functions).
func calls(f *ssa.Function) []ssa.CallInstruction {
	var cs []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cs = append(cs, ci)
			}
		}
	}
	return cs
}

// calleeKey is the canonical name of the static or interface callee, or "".
func calleeKey(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return FuncKey(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return FuncKey(o)
		}
		return f.String()
	}
	return ""
}

// closuresOf returns the anonymous functions of fn, transitively.
func closuresOf(fn *ssa.Function) []*ssa.Function {
	var fs []*ssa.Function
	for _, a := range fn.AnonFuncs {
		fs = append(fs, a)
		fs = append(fs, closuresOf(a)...)
	}
	return fs
}

const (
	dgoPkg  = "github.com/lyraproj/dgo/dgo"
	vfPkg   = "github.com/lyraproj/dgo/vf"
	utilPkg = "github.com/lyraproj/dgo/util"
	sdkPkg  = "github.com/lyraproj/hierasdk/hiera"
)

// apiKey is the canonical name of a method of an interface in the api package
func (c *Ctx) apiKey(iface, method string) string {
	return "(" + c.P.Mod + "/api." + iface + ")." + method
}

// isAPI tells if an event calls the given method, declared by an api interface (or an implementation of it).
func (c *Ctx) isAPI(ev *Event, iface string, methods ...string) bool {
	if ev.Kind != "call" && ev.Kind != "enter" || ev.Method == nil {
		return false
	}
	return c.isAPIMethod(ev.Method, iface, methods...)
}

func (c *Ctx) isAPIMethod(m *types.Func, iface string, methods ...string) bool {
	ok := len(methods) == 0
	for _, n := range methods {
		if n == m.Name() {
			ok = true
		}
	}
	if !ok {
		return false
	}
	it := c.P.Iface("api", iface)
	if it == nil {
		return false
	}
	// the interface must have a method of this name
	has := false
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == m.Name() {
			has = true
		}
	}
	if !has {
		return false
	}
	rv := m.Type().(*types.Signature).Recv()
	if rv == nil {
		return false
	}
	rt := rv.Type()
	nt := c.P.Named("api", iface)
	if types.Identical(rt, nt) {
		return true
	}
	// an interface embedded in, or embedding, the api interface; or an implementation
	if types.Implements(rt, it) {
		return true
	}
	if ri, ok := rt.Underlying().(*types.Interface); ok {
		return types.Implements(nt, ri)
	}
	return types.Implements(types.NewPointer(rt), it)
}

// stripTerm renders a term without site numbers.
func strip(t *Term) string { return t.String() }

// helpersOf are the functions, their closures, and those of the same package that they call and that aren't methods of the API
func (c *Ctx) helpersOf(fs ...*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if m[f] {
			return
		}
		m[f] = true
		for _, g := range f.AnonFuncs {
			add(g)
		}
		for _, ci := range calls(f) {
			if g := ci.Common().StaticCallee(); g != nil && pkgOf(g) == pkgOf(f) && len(g.Blocks) > 0 {
				if fn := asFunc(g); fn != nil && g.Signature.Recv() != nil && (c.isAPIMethod(fn, "Invocation", fn.Name()) || c.isAPIMethod(fn, "Session", fn.Name())) {
					continue
				}
				add(g)
			}
		}
	}
	for _, f := range fs {
		add(f)
	}
	return m
}

// inPlace is true for a function literal that is called where it stands, and nowhere else
func inPlace(g *ssa.Function) bool {
	p := g.Parent()
	if p == nil {
		return false
	}
	n := 0
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeClosure:
				if x.Fn != g {
					continue
				}
				for _, r := range *x.Referrers() {
					if ci, ok := r.(*ssa.Call); !ok || ci.Call.Value != x {
						return false
					}
					n++
				}
				continue
			case *ssa.Call:
				if x.Call.Value == g {
					n++
					continue
				}
			}
			for _, o := range in.Operands(nil) {
				if *o == g {
					return false
				}
			}
		}
	}
	return n == 1
}

// piece is true for a function that is a piece of another one: it isn't exported, is used only to call it, and
// there's only one such call, in its own package
func (c *Ctx) piece(g *ssa.Function) bool {
	if c.pieces == nil {
		c.pieces, c.users = map[*ssa.Function]bool{}, map[*ssa.Function]*ssa.Function{}
		sites := map[*ssa.Function]int{}
		by := map[*ssa.Function]*ssa.Function{}
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee *ssa.Function
					if ci, ok := in.(ssa.CallInstruction); ok {
						callee = ci.Common().StaticCallee()
						if callee != nil {
							sites[callee]++
							by[callee] = f
							if _, isGo := in.(*ssa.Go); isGo {
								sites[callee]++
							}
						}
					}
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && (h != callee || in.(ssa.CallInstruction).Common().Value != h) {
							sites[h] += 2
						}
					}
				}
			}
		}
		for h, n := range sites {
			f := by[h]
			if n != 1 || f == nil || pkgOf(f) != pkgOf(h) || outer(f) == h || len(h.Blocks) == 0 || h.Parent() != nil || h.Signature.Recv() != nil {
				continue
			}
			if ob := h.Object(); ob == nil || ob.Exported() {
				continue
			}
			c.pieces[h], c.users[h] = true, f
		}
	}
	return c.pieces[g]
}

// withPieces adds the functions that use pieces in a set to the set
func (c *Ctx) withPieces(m map[*ssa.Function]bool) {
	for more := true; more; {
		more = false
		for _, f := range c.P.Funcs {
			for _, ci := range calls(f) {
				if g := ci.Common().StaticCallee(); g != nil && c.piece(g) && !m[outer(f)] {
					for _, h := range append(closuresOf(g), g) {
						if m[h] {
							m[outer(f)], more = true, true
							break
						}
					}
				}
			}
		}
	}
}

// userOf is the function that a closure or a piece belongs to
func (c *Ctx) userOf(f *ssa.Function) *ssa.Function {
	f = outer(f)
	for i := 0; i < 20 && c.piece(f); i++ {
		f = outer(c.users[f])
	}
	return f
}
