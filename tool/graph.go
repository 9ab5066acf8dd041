package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A CallEdge is a resolved call, or a reference that makes the target callable.
type CallEdge struct {
	From, To *ssa.Function
	Site     ssa.Instruction
}

// foreignTarget tells which functions code outside the repo may call back
type CallGraph struct {
	P   *Prog
	Out map[*ssa.Function][]CallEdge
	In  map[*ssa.Function][]CallEdge
}

// Graph builds a call graph over the functions of the repository. A closure or function value is considered called by the
// function that references it. skipRef suppresses such an edge. foreign lists what unknown code, called at the given site, may call.
func (p *Prog) Graph(skipRef func(site ssa.Instruction, ref *ssa.Function) bool, foreign func(site ssa.CallInstruction) []*ssa.Function) *CallGraph {
	g := &CallGraph{P: p, Out: map[*ssa.Function][]CallEdge{}, In: map[*ssa.Function][]CallEdge{}}
	all := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		all[f] = true
	}
	add := func(f, t *ssa.Function, in ssa.Instruction) {
		if t == nil || !all[t] {
			return
		}
		e := CallEdge{f, t, in}
		g.Out[f] = append(g.Out[f], e)
		g.In[t] = append(g.In[t], e)
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if c.IsInvoke() {
						for _, t := range p.ImplFuncs(c.Value.Type(), c.Method) {
							add(f, t, in)
						}
					} else if t := c.StaticCallee(); t != nil {
						if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
							add(f, unwrapFn(p, t), in)
						}
					}
					if foreign != nil {
						for _, t := range foreign(ci) {
							add(f, t, in)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					t := mc.Fn.(*ssa.Function)
					if skipRef == nil || !skipRef(in, t) {
						add(f, unwrapFn(p, t), in)
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					t, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && *op == ci.Common().Value {
						continue
					}
					if skipRef == nil || !skipRef(in, t) {
						add(f, unwrapFn(p, t), in)
					}
				}
			}
		}
	}
	return g
}

// unwrapFn resolves bound method wrappers and thunks to the declared method.
func unwrapFn(p *Prog, f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if d := p.SSA.FuncValue(o); d != nil && len(d.Blocks) > 0 {
				return d
			}
		}
	}
	return f
}

// Reach returns everything reachable from the roots.
func (g *CallGraph) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, e := range g.Out[f] {
			visit(e.To)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// SCCs returns the cyclic strongly connected components.
func (g *CallGraph) SCCs() [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, e := range g.Out[f] {
			if e.To == f {
				self = true
			}
			if idx[e.To] == 0 {
				visit(e.To)
				if low[e.To] < low[f] {
					low[f] = low[e.To]
				}
			} else if on[e.To] && idx[e.To] < low[f] {
				low[f] = idx[e.To]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				t := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[t] = false
				c = append(c, t)
				if t == f {
					break
				}
			}
			if len(c) > 1 || self {
				sort.Slice(c, func(i, j int) bool { return g.P.FuncName(c[i]) < g.P.FuncName(c[j]) })
				out = append(out, c)
			}
		}
	}
	for _, f := range g.P.Funcs {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

// PathTo finds a call chain.
func (g *CallGraph) PathTo(from *ssa.Function, goal func(*ssa.Function) bool) []CallEdge {
	type item struct {
		f  *ssa.Function
		pa []CallEdge
	}
	seen := map[*ssa.Function]bool{from: true}
	q := []item{{from, nil}}
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		for _, e := range g.Out[it.f] {
			pa := append(append([]CallEdge{}, it.pa...), e)
			if goal(e.To) {
				return pa
			}
			if !seen[e.To] {
				seen[e.To] = true
				q = append(q, item{e.To, pa})
			}
		}
	}
	return nil
}

// methods returns the functions that implement the named methods of an api interface.
func (c *Ctx) methods(rel, iface string, names ...string) []*ssa.Function {
	it := c.P.Iface(rel, iface)
	if it == nil {
		c.Anchor("interface " + rel + "." + iface)
		return nil
	}
	var fs []*ssa.Function
	for _, n := range names {
		found := false
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() != n {
				continue
			}
			for _, f := range c.P.ImplFuncs(c.P.Named(rel, iface), m) {
				fs = append(fs, f)
				found = true
			}
		}
		if !found {
			c.Anchor("implementation of " + rel + "." + iface + "." + n)
		}
	}
	return fs
}

// fnParam returns the index of the (last) parameter of function type, or -1
func fnParam(f *ssa.Function) int {
	k := -1
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			k = i
		}
	}
	return k
}
