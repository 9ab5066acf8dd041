package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C02", Technique: "call graph cycle analysis with verified recursion guards (dataflow on SSA)",
		Explain: "A call graph over the repository, where foreign functions may call back any lookup or interpolation method, is cut at the producers that run under a verified recursion guard; no cycle through a lookup or an interpolation may remain, except recursion into the elements of a collection. " +
			"A guard must check that the name isn't active, panic if it is, record the same name before it runs its producer, and drop it again on all exits. Every copy of an invocation carries the active names over, and no code reachable from a lookup creates an unrelated invocation.",
		Check: checkRecursion})
}

type guardInfo struct {
	fp    int        // index of the guarded function
	stack *types.Var // field that holds the active names
}

// findGuards finds the functions that run their function parameter under a recursion guard.
func (c *Ctx) findGuards() map[*ssa.Function]*guardInfo {
	guards := map[*ssa.Function]*guardInfo{}
	for _, f := range c.P.topFuncs() {
		k := fnParam(f)
		if k < 0 || f.Signature.Recv() == nil || pkgOf(f) == nil {
			continue
		}
		if len(stringSlices(f.Signature.Recv().Type())) == 0 {
			continue
		}
		// The stack is left as it was by nested calls (established for each guard separately)
		stable := stringSlices(f.Signature.Recv().Type())
		paths := c.Run(f, &Policy{Inline: samePkg(f), MayPanic: func(ev *Event) bool { return ev.IsFn }, StableField: func(v *types.Var) bool { return stable[v] }})
		calls, stores := 0, 0
		var stack *types.Var
		ok := true
		why := ""
		var bad *Path
		panics := false
		for _, p := range paths {
			if p.Exit == "cut" {
				continue
			}
			var pushed, stackInit *Term
			called := false
			for i, ev := range p.Events {
				if ev.Kind == "store" && ev.Val != nil && (ev.Val.Op == "append1" || ev.Val.Op == "append") && FieldOf(ev.Addr) != nil && root(ev.Addr).Op == "param" {
					if ev.Val.Op == "append1" && len(ev.Val.Args) == 2 && ev.Val.Args[0].Op == "init" && ev.Val.Args[0].Args[0] == ev.Addr {
						pushed, stackInit = ev.Val.Args[1], ev.Val.Args[0]
						stack = FieldOf(ev.Addr)
						stores++
					}
				}
				if ev.Kind == "call" && ev.IsFn && ev.Callee.Op == "param" && ev.Callee.Val == f.Params[k] && !called {
					called = true
					calls++
					if pushed == nil {
						ok, why, bad = false, "calls its function without recording an active name", p
						continue
					}
					if !pushed.Any(func(t *Term) bool { return t.Op == "param" }) {
						ok, why, bad = false, "records a name that doesn't depend on what is looked up", p
					}
					checked := false
					loop := false
					for _, e2 := range p.Events[:i] {
						if e2.Kind == "loop" {
							loop = true
						}
						if e2.Kind != "fact" || !e2.Val.Any(func(t *Term) bool { return t == stackInit }) {
							continue
						}
						if e2.Val.Op == "call" && !e2.Bool && len(e2.Val.Args) == 2 && e2.Val.Args[0] == stackInit && e2.Val.Args[1] == pushed {
							checked = true
						}
						if loop {
							checked = true
						}
					}
					if !checked {
						ok, why, bad = false, "calls its function without checking that the recorded name isn't active", p
					}
				}
			}
			if !called && p.Exit == "panic" {
				for _, ev := range p.Events {
					if ev.Kind == "fact" && ev.Bool && (ev.Val.Op == "call" || ev.Val.Op == "eq") {
						panics = true
					}
				}
			}
			if called && pushed != nil && stack != nil {
				v := p.St.heap[stackInit.Args[0]]
				if !restored(v, stackInit) {
					c.Bad("guard-pop", c.N(f)+" on "+p.Exit, f.Pos(), p, "%s leaves the name recorded when it ends with a %s", c.N(f), p.Exit)
				}
			}
		}
		if calls == 0 || stores == 0 {
			continue
		}
		if ok && !panics {
			ok, why = false, "never panics when the name is active"
		}
		if !c.Must(ok, "guard", c.N(f), f.Pos(), bad, "%s records active names but %s", c.N(f), why) {
			continue
		}
		guards[f] = &guardInfo{k, stack}
		c.Count("recursion guards", 1)
	}
	// forwarders
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.topFuncs() {
			if guards[f] != nil {
				continue
			}
			k := fnParam(f)
			if k < 0 {
				continue
			}
			n, other := 0, 0
			var gi *guardInfo
			for _, r := range *f.Params[k].Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				ci, ok := r.(ssa.CallInstruction)
				if !ok {
					other++
					continue
				}
				g := c.guardOfCall(ci, guards)
				if g != nil && argIndex(ci, g, f.Params[k]) {
					gi = g
					n++
				} else {
					other++
				}
			}
			if n > 0 && other == 0 {
				guards[f] = &guardInfo{k, gi.stack}
				c.Count("recursion guards", 1)
				ch = true
			}
		}
	}
	return guards
}

// restored is true if v is the value that a stack had before it was pushed
func restored(v, orig *Term) bool {
	if v == nil || v == orig {
		return true
	}
	if v.Op == "slice" {
		b := v.Args[0]
		lo, hi := v.Args[1], v.Args[2]
		if lo.Op != "none" {
			if i, ok := lo.IntConst(); !ok || i != 0 {
				return false
			}
		}
		// append1(orig, e)[:len(..)-1], or [:len(orig)]
		if (b.Op == "append1" && len(b.Args) == 2 && b.Args[0] == orig) || b == orig {
			if hi.Op == "len" && hi.Args[0] == orig {
				return true
			}
			if b != orig && hi.Op == "bin" && hi.Aux == "-" && hi.Args[0].Op == "len" && hi.Args[0].Args[0] == b {
				i, ok := hi.Args[1].IntConst()
				return ok && i == 1
			}
		}
	}
	return false
}

// stringSlices returns the fields of a struct that are slices of strings
func stringSlices(t types.Type) map[*types.Var]bool {
	m := map[*types.Var]bool{}
	s := structOf(t)
	if s == nil {
		return m
	}
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				m[s.Field(i)] = true
			}
		}
	}
	return m
}

func (c *Ctx) guardOfCall(ci ssa.CallInstruction, guards map[*ssa.Function]*guardInfo) *guardInfo {
	cc := ci.Common()
	if cc.IsInvoke() {
		fs := c.P.ImplFuncs(cc.Value.Type(), cc.Method)
		if len(fs) == 0 {
			return nil
		}
		var g *guardInfo
		for _, f := range fs {
			if guards[f] == nil {
				return nil
			}
			g = guards[f]
		}
		return g
	}
	if f := cc.StaticCallee(); f != nil {
		return guards[f]
	}
	return nil
}

// argIndex is true if v is passed as the guarded function
func argIndex(ci ssa.CallInstruction, g *guardInfo, v ssa.Value) bool {
	cc := ci.Common()
	i := g.fp
	if cc.IsInvoke() {
		i--
	}
	for j, a := range cc.Args {
		if stripConv(a) == v && j != i {
			return false
		}
	}
	return i >= 0 && i < len(cc.Args) && stripConv(cc.Args[i]) == v
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func checkRecursion(c *Ctx) {
	guards := c.findGuards()
	c.Min("recursion guards", 1)
	if len(guards) == 0 {
		return
	}
	cuts := 0
	skip := func(site ssa.Instruction, ref *ssa.Function) bool {
		var v ssa.Value
		if mc, ok := site.(*ssa.MakeClosure); ok {
			v = mc
		} else if ci, ok := site.(ssa.CallInstruction); ok {
			// a plain function as argument
			g := c.guardOfCall(ci, guards)
			if g != nil && argIndex(ci, g, ref) {
				cuts++
				return true
			}
			return false
		} else {
			return false
		}
		n := 0
		var visit func(v ssa.Value) bool
		visit = func(v ssa.Value) bool {
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.ChangeType:
					if !visit(r) {
						return false
					}
				case ssa.CallInstruction:
					g := c.guardOfCall(r, guards)
					if g == nil || !argIndex(r, g, stripConv(v)) && !argIndex(r, g, v) {
						return false
					}
					n++
				default:
					return false
				}
			}
			return true
		}
		if visit(v) && n > 0 {
			cuts++
			return true
		}
		return false
	}
	lookups := c.methods("api", "Invocation", "Lookup", "Interpolate", "InterpolateString", "InterpolateInScope")
	roles := map[*ssa.Function]bool{}
	for _, f := range lookups {
		roles[f] = true
	}
	var scInterp []*ssa.Function
	scInterp = append(scInterp, c.methods("api", "ServerContext", "Interpolate")...)
	callbacks := append(append([]*ssa.Function{}, lookups...), scInterp...)
	// the function types of providers
	isForeign := func(ci ssa.CallInstruction) bool {
		cc := ci.Common()
		if cc.IsInvoke() {
			return FuncKey(cc.Method) == "("+dgoPkg+".Function).Call"
		}
		if cc.StaticCallee() != nil {
			return false
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		n := namedOf(cc.Value.Type())
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == sdkPkg
	}
	foreigns := 0
	g := c.P.Graph(skip, func(ci ssa.CallInstruction) []*ssa.Function {
		if isForeign(ci) {
			foreigns++
			return callbacks
		}
		return nil
	})
	c.Count("calls of provider functions", foreigns)
	c.Min("calls of provider functions", 3)
	c.Count("guarded producers", cuts)
	c.Min("guarded producers", 2)
	for _, scc := range g.SCCs() {
		in := map[*ssa.Function]bool{}
		hit := false
		var names []string
		for _, f := range scc {
			in[f] = true
			names = append(names, c.N(f))
			if roles[f] {
				hit = true
			}
			for _, ci := range calls(f) {
				if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "Lookup", "InterpolateString") {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		c.Count("cycles examined", 1)
		// each round must descend into the elements of a collection: without the calls that do, there is no cycle left
		sub := &CallGraph{P: g.P, Out: map[*ssa.Function][]CallEdge{}}
		where := map[*ssa.Function]ssa.Instruction{}
		for _, f := range scc {
			for _, e := range g.Out[f] {
				if !in[e.To] {
					continue
				}
				ci, isCall := e.Site.(ssa.CallInstruction)
				if isCall && descends(ci) {
					continue
				}
				if _, isRef := e.Site.(*ssa.MakeClosure); !isRef && e.To.Parent() == nil && (!isCall || !passesOn(ci)) {
					sub.Out[f] = append(sub.Out[f], CallEdge{To: f, Site: e.Site}) // starts with something new
					where[f] = e.Site
				}
				if where[f] == nil {
					where[f] = e.Site
				}
				sub.Out[f] = append(sub.Out[f], e)
			}
		}
		bad := sub.SCCs()
		ok := len(bad) == 0
		pos := scc[0].Pos()
		if !ok && where[bad[0][0]] != nil {
			pos = where[bad[0][0]].Pos()
		}
		c.Must(ok, "unguarded-cycle", strings.Join(names, " -> "), pos, nil, "a lookup or interpolation can recurse without bound through %s", strings.Join(names, " -> "))
	}
	// copies carry the active names
	var stack *types.Var
	for _, gi := range guards {
		if gi.stack != nil {
			stack = gi.stack
		}
	}
	c.copiesCarry(stack, "active-names", "the names of active lookups")
	// no unrelated invocation in a lookup
	g2 := c.P.Graph(nil, nil)
	for f := range g2.Reach(lookups...) {
		for _, ci := range calls(f) {
			if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Session", "Invocation") && !c.isAPIMethod(m, "ServerContext", "Invocation") {
				c.Bad("new-invocation", c.N(f), ci.Pos(), nil, "%s, which is a part of a lookup, starts with a new invocation that knows nothing about active lookups", c.N(f))
			}
		}
	}
}

// descends is true if a call has an argument that is an element of a collection.
func descends(ci ssa.CallInstruction) bool {
	for _, a := range ci.Common().Args {
		if isElement(a, 0) {
			return true
		}
	}
	return false
}

// passesOn is true if all values that a call is given are those that the caller was given, or parts of them
func passesOn(ci ssa.CallInstruction) bool {
	n := 0
	for _, a := range ci.Common().Args {
		t := namedOf(a.Type())
		if t == nil || t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != dgoPkg {
			continue
		}
		n++
		if !isGiven(a, 0) {
			return false
		}
	}
	return n > 0
}

func isGiven(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	if isElement(v, d) {
		return true
	}
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.MakeInterface:
		return isGiven(v.X, d+1)
	case *ssa.ChangeInterface:
		return isGiven(v.X, d+1)
	case *ssa.TypeAssert:
		return isGiven(v.X, d+1)
	case *ssa.Extract:
		t, ok := v.Tuple.(*ssa.TypeAssert)
		return ok && v.Index == 0 && isGiven(t.X, d+1)
	case *ssa.UnOp:
		if fv, ok := v.X.(*ssa.FreeVar); ok && v.Op == token.MUL {
			// a variable of the function around it that is never changed
			return onlyGiven(fv, d+1)
		}
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			return storesGiven(al, d+1)
		}
	}
	return false
}

// onlyGiven is true if nothing but what a function was given is stored in a captured variable
func onlyGiven(fv *ssa.FreeVar, d int) bool {
	for _, r := range *fv.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == fv {
			return false
		}
	}
	i := -1
	for k, x := range fv.Parent().FreeVars {
		if x == fv {
			i = k
		}
	}
	p := fv.Parent().Parent()
	if p == nil || i < 0 {
		return false
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fv.Parent() {
				if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
					return storesGiven(al, d)
				}
			}
		}
	}
	return false
}

func storesGiven(al *ssa.Alloc, d int) bool {
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			n++
			if !isGiven(st.Val, d+1) {
				return false
			}
		}
	}
	return n > 0
}

func isElement(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return isElement(v.X, d+1)
	case *ssa.ChangeInterface:
		return isElement(v.X, d+1)
	case *ssa.TypeAssert:
		return isElement(v.X, d+1)
	case *ssa.Extract:
		if _, ok := v.Tuple.(*ssa.Next); ok {
			return true
		}
		return isElement(v.Tuple, d+1)
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			_ = ia
			return true
		}
	case *ssa.Index, *ssa.Lookup:
		return true
	case *ssa.Call:
		k := calleeKey(v)
		switch k {
		case "(" + dgoPkg + ".MapEntry).Key", "(" + dgoPkg + ".MapEntry).Value", "(" + dgoPkg + ".Array).Get", "(" + dgoPkg + ".Keyed).Get":
			return true
		}
	case *ssa.Parameter:
		// parameter of a closure given to an iterator
		f := v.Parent()
		if f.Parent() == nil {
			return false
		}
		n := namedOf(v.Type())
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == dgoPkg
	}
	return false
}

// copiesCarry verifies that all copies of an invocation have the same value in a field as the original.
func (c *Ctx) copiesCarry(v *types.Var, rule, what string) {
	if v == nil {
		c.Anchor("field that holds " + what)
		return
	}
	for _, t := range c.P.Implementers(c.P.Iface("api", "Invocation")) {
		s := structOf(t)
		own := false
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i) == v {
				own = true
			}
		}
		if !own {
			continue
		}
		n := namedOf(t)
		for _, f := range c.P.declaredMethods(t) {
			makes := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && namedOf(a.Type()) == n && !isPtrTo(a.Type(), t) {
						makes = true
					}
				}
			}
			if !makes {
				continue
			}
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
				if p.Exit != "return" {
					continue
				}
				p.Res.Any(func(x *Term) bool {
					if x.Op == "alloc" && namedOf(x.Type) == n {
						c.Count("copies of an invocation", 1)
						val := p.St.heap[p.St.faddr(x, v)]
						ok := val != nil && val.Op == "init" && FieldOf(val.Args[0]) == v && val.Args[0].Args[0].Op == "param"
						c.Must(ok, rule, c.N(f), f.Pos(), p, "the copy of the invocation made by %s doesn't carry over %s", c.N(f), what)
						return true
					}
					return false
				})
			}
		}
	}
	c.Min("copies of an invocation", 2)
}

// isPtrTo is true if the type of an alloc is the address of a variable of (pointer) type t
func isPtrTo(a, t types.Type) bool {
	pt, ok := a.(*types.Pointer)
	if !ok {
		return false
	}
	_, isP := t.(*types.Pointer)
	return isP && types.Identical(pt.Elem(), t)
}
