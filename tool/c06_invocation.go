package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C06", Technique: "save/restore typestate of invocation fields over all paths including panics (dataflow on SSA)",
		Explain: "Every method of an invocation that stores to a field of the invocation is explored path by path, with every call of a given function also ending in a panic. On each exit every field has the value it had on entry; only the method that sets merge strategy and lookup options may change the two fields behind MergeStrategy and LookupOptions. While the function given to DoWithScope runs, Scope returns the given scope.",
		Check:   checkScoped})
	register(&Rule{ID: "C07", Technique: "provenance of the invocation handed to a nested lookup (dataflow on SSA)",
		Explain: "At each call of the top-level lookup function the invocation inside the given context must be a fresh copy whose lookup options and merge strategy are unset and that is neither in data mode nor in lookup options mode. The options must be passed on unchanged.",
		Check:   checkNested})
	register(&Rule{ID: "C21", Technique: "taint analysis of values that reach the explainer under redaction (dataflow on SSA)",
		Explain: "The flag that is set while the function given to DoRedacted runs is assumed to be set; then no found value, merge result or interpolated string given to a method of an invocation may reach a call of the explainer. A conversion to Sensitive must run its lookup under that flag, and all copies of an invocation keep it.",
		Check:   checkRedaction})
}

// ivTypes are the invocation types that have state of their own
func (c *Ctx) ivTypes() []types.Type {
	var ts []types.Type
	for _, t := range c.role("api", "Invocation", 1) {
		if s := structOf(t); s != nil && len(c.P.declaredMethods(t)) > 0 {
			ts = append(ts, t)
		}
	}
	return ts
}

func fieldsOf(t types.Type) []*types.Var {
	s := structOf(t)
	if s == nil {
		return nil
	}
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	return fs
}

func inFields(fs []*types.Var) func(*types.Var) bool {
	return func(v *types.Var) bool {
		for _, f := range fs {
			if f == v {
				return true
			}
		}
		return false
	}
}

// methodOn resolves a method of a receiver type, following promotion
func (c *Ctx) methodOn(t types.Type, name string) *ssa.Function {
	f := c.P.MethodNamed(t, name)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return unwrapFn(c.P, f)
}

// getterField returns the field that a getter returns, or nil.
func (c *Ctx) getterField(t types.Type, name string) *types.Var {
	f := c.methodOn(t, name)
	if f == nil {
		c.Anchor("method " + name)
		return nil
	}
	var v *types.Var
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit != "return" {
			continue
		}
		if p.Res != nil && p.Res.Op == "init" && FieldOf(p.Res.Args[0]) != nil && root(p.Res.Args[0]).Op == "param" {
			v = FieldOf(p.Res.Args[0])
		} else {
			return nil
		}
	}
	return v
}

func checkScoped(c *Ctx) {
	for _, t := range c.ivTypes() {
		fields := fieldsOf(t)
		isField := inFields(fields)
		optF, strF := c.getterField(t, "LookupOptions"), c.getterField(t, "MergeStrategy")
		scopeF := c.getterField(t, "Scope")
		covered := map[ssa.Instruction]bool{}
		storing := map[*ssa.Function]bool{}
		stores := func(f *ssa.Function) (ss []*ssa.Store) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if isField(fieldVar(fa.X.Type(), fa.Field)) && !freshBase(fa.X) {
							ss = append(ss, st)
						}
					} else if namedOf(st.Val.Type()) != nil && types.Identical(st.Val.Type(), namedOf(t)) && !freshBase(st.Addr) {
						ss = append(ss, st)
					}
				}
			}
			return
		}
		for _, f := range c.P.Funcs {
			if len(stores(f)) > 0 {
				storing[f] = true
			}
		}
		touch := c.P.touches(func(f *ssa.Function) bool { return storing[f] })
		analyse := func(f *ssa.Function) {
			isSetter := f.Name() == "SetMergeStrategy"
			pol := &Policy{Inline: func(g *ssa.Function) bool {
				return pkgOf(g) == pkgOf(f) && (touch[g] || g.Parent() != nil)
			}, MayPanic: func(ev *Event) bool { return !neverPanics(ev) },
				StableField: isField, Sync: func(ev *Event, a *Term) string { return "" }}
			for _, p := range c.Run(f, pol) {
				for i, ev := range p.Events {
					if ev.Kind == "store" {
						covered[ev.Instr] = true
					}
					// scope in effect
					if scopeF != nil && f.Name() == "DoWithScope" && ev.Kind == "call" && ev.IsFn && ev.Callee.Op == "param" {
						c.Count("work run with another scope", 1)
						ok := false
						for j := i - 1; j >= 0; j-- {
							if e2 := p.Events[j]; e2.Kind == "store" && FieldOf(e2.Addr) == scopeF {
								ok = e2.Val.Op == "param"
								break
							}
						}
						c.Must(ok, "scope-in-effect", c.N(f), ev.Pos, p, "%s runs its function without the given scope in effect", c.N(f))
					}
				}
				if p.Exit != "return" && p.Exit != "panic" {
					continue
				}
				for a, v := range p.St.heap {
					fv := FieldOf(a)
					if fv == nil || !isField(fv) || a.Op != "faddr" || v == nil {
						continue
					}
					// only objects that exist outside of the function
					if a.Args[0].Op == "alloc" {
						continue
					}
					ok := false
					v.Any(func(o *Term) bool {
						if o.Op == "init" && o.Args[0] == a && restored(v, o) {
							ok = true
						}
						return ok
					})
					if b, isB := v.BoolConst(); !ok && isB {
						// a constant is what the field had if the path says so
						for o, k := range p.St.facts {
							if o.Op == "init" && o.Args[0] == a && b == k {
								ok = true
							}
						}
					}
					if isSetter && (fv == optF || fv == strF) {
						ok = true
					}
					c.Must(ok, "restored", c.N(f)+" "+fv.Name()+" on "+p.Exit, f.Pos(), p,
						"%s ends with a %s and leaves a changed value in the field %s of the invocation", c.N(f), p.Exit, fv.Name())
				}
			}
		}
		escapes := c.P.Origins()
		n := 0
		for pass := 0; pass < 2; pass++ {
			for _, f := range c.P.Funcs {
				if f.Synthetic != "" || f.Parent() != nil || !touch[f] {
					continue
				}
				direct := storing[f]
				for _, g := range closuresOf(f) {
					direct = direct || storing[g]
				}
				iface := escapes.open[f]
				if o, ok := f.Object().(*types.Func); ok && o.Exported() {
					iface = true
				}
				if pass == 0 && !iface {
					continue // judged as part of its callers
				}
				if pass == 1 {
					// helpers whose stores nobody covered
					un := false
					for _, g := range append([]*ssa.Function{f}, closuresOf(f)...) {
						for _, s := range stores(g) {
							if !covered[s] {
								un = true
							}
						}
					}
					if iface || !un || !direct {
						continue
					}
				}
				n++
				analyse(f)
			}
		}
		c.Count("stores to fields of an invocation", len(covered))
		c.Count("functions that store to an invocation", n)
	}
	c.Min("functions that store to an invocation", 3)
	c.Min("work run with another scope", 1)
}

// isTopLookup is true for a dynamic call of a lookup function
func isLookupKeyType(t types.Type) bool {
	return t != nil && isNamed(t, sdkPkg, "LookupKey")
}

func checkNested(c *Ctx) {
	for _, t := range c.ivTypes() {
		optF, strF := c.getterField(t, "LookupOptions"), c.getterField(t, "MergeStrategy")
		if optF == nil || strF == nil {
			c.Anchor("fields behind LookupOptions and MergeStrategy")
			continue
		}
		f := c.methodOn(t, "Lookup")
		if f == nil {
			c.Anchor("Invocation.Lookup")
			continue
		}
		isField := inFields(fieldsOf(t))
		it := c.P.Iface("api", "Invocation")
		// finds the invocation in a context
		invOf := func(st *State, a *Term) *Term {
			if a == nil || a.Op != "alloc" {
				return nil
			}
			s := structOf(a.Type)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if types.Implements(s.Field(i).Type(), it) {
					return st.heap[st.faddr(a, s.Field(i))]
				}
			}
			return nil
		}
		modes := map[string]*Term{}
		for _, m := range []string{"LookupOptionsMode", "DataMode"} {
			g := c.methodOn(t, m)
			if g == nil {
				c.Anchor("Invocation." + m)
				continue
			}
			for _, p := range c.Run(g, &Policy{Inline: samePkg(g)}) {
				if p.Exit == "return" {
					modes[m] = p.Res
				}
			}
		}
		// Only what decides which invocation the lookup function gets, and whether it gets called
		callers := map[*ssa.Function]bool{}
		var visit func(h *ssa.Function)
		visit = func(h *ssa.Function) {
			if callers[h] || pkgOf(h) != pkgOf(f) || c.isInterpolation(h) {
				return
			}
			callers[h] = true
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							visit(unwrapFn(c.P, g))
						}
					}
				}
			}
		}
		visit(f)
		pol := &Policy{Inline: func(h *ssa.Function) bool {
			if pkgOf(h) != pkgOf(f) || h.Name() == "TopProvider" || c.isInterpolation(h) {
				return false
			}
			if callers[h] || fnParam(h) >= 0 || h.Parent() != nil {
				return true
			}
			rs := h.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				n := namedOf(rs.At(i).Type())
				if n != nil && (n.Obj().Name() == "Invocation" || n.Obj().Name() == "ServerContext" || types.Implements(rs.At(i).Type(), it)) {
					return true
				}
			}
			return false
		}, StableField: isField,
			Sync: func(ev *Event, a *Term) string {
				if strings.Contains(ev.Name, ").With") {
					return "once"
				}
				return ""
			},
			Snap: func(st *State, ev *Event) map[string]*Term {
				if !ev.IsFn || ev.Callee == nil || !isLookupKeyType(ev.Callee.Type) || len(ev.Args) == 0 {
					return nil
				}
				m := map[string]*Term{}
				a := ev.Args[0]
				if a.Op == "alloc" {
					s := structOf(a.Type)
					for i := 0; s != nil && i < s.NumFields(); i++ {
						if isNamed(s.Field(i).Type(), sdkPkg, "ProviderContext") {
							m["pc"] = st.heap[st.faddr(a, s.Field(i))]
						}
					}
				}
				iv := invOf(st, a)
				m["iv"] = iv
				if iv != nil && iv.Op == "alloc" {
					for _, v := range fieldsOf(t) {
						m[v.Name()] = st.load(st.faddr(iv, v), v.Type())
					}
				}
				return m
			}}
		n := 0
		for _, p := range c.Run(f, pol) {
			for i, ev := range p.Events {
				if ev.Kind != "call" || !ev.IsFn || ev.Callee == nil || !isLookupKeyType(ev.Callee.Type) {
					continue
				}
				_ = i
				n++
				iv := ev.Snap["iv"]
				if !c.Must(iv != nil && iv.Op == "alloc", "own-invocation", c.N(f), ev.Pos, p, "a lookup hands the invocation of its caller, and not a copy of it, to the lookup function") {
					continue
				}
				c.Must(ev.Snap[optF.Name()].IsNil(), "no-lookup-options", c.N(f), ev.Pos, p, "a nested lookup starts with the lookup options of the lookup it is nested in")
				c.Must(ev.Snap[strF.Name()].IsNil(), "no-strategy", c.N(f), ev.Pos, p, "a nested lookup starts with the merge strategy of the lookup it is nested in")
				for m, cond := range modes {
					b, ok := evalWith(cond, ev.Snap)
					c.Must(ok && !b, "mode", c.N(f)+" "+m, ev.Pos, p, "a nested lookup starts with %s true", m)
				}
				// options unchanged: the context must be made from the parameter itself
				pc := ev.Snap["pc"]
				opt := false
				if pc != nil && pc.Op == "call" {
					for _, a := range pc.Args {
						if a.Op == "param" && len(f.Params) > 2 && a.Val == f.Params[2] {
							opt = true
						}
					}
				}
				c.Must(opt, "options", c.N(f), ev.Pos, p, "the options given to a lookup aren't the ones handed to the lookup function")
			}
		}
		c.Count("calls of the top-level lookup function", n)
	}
	c.Min("calls of the top-level lookup function", 1)
	c.nestedOptions()
	// nobody else calls the top-level function
	for _, g := range c.P.Funcs {
		if g.Synthetic != "" || g.Name() == "TopProvider" {
			continue
		}
		for _, ci := range calls(g) {
			if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Session", "TopProvider") {
				ok := false
				for _, t := range c.ivTypes() {
					if f := c.methodOn(t, "Lookup"); f != nil && c.P.Graph(nil, nil).Reach(f)[g] {
						ok = true
					}
				}
				c.Must(ok, "top-provider", c.N(g), ci.Pos(), nil, "%s uses the top-level lookup function and isn't a part of a lookup", c.N(g))
			}
		}
	}
}

// nestedOptions judges the options given to lookups by the code that implements lookups
func (c *Ctx) nestedOptions() {
	it := c.P.Iface("api", "Invocation")
	inherited := map[*types.Var]bool{}
	for _, t := range c.ivTypes() {
		for _, m := range []string{"LookupOptions", "MergeStrategy"} {
			if v := c.getterField(t, m); v != nil {
				inherited[v] = true
			}
		}
	}
	o := c.P.Origins()
	var from func(v ssa.Value, seen map[ssa.Value]bool) bool
	from = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if fa, ok := v.(*ssa.FieldAddr); ok {
			return inherited[fieldVar(fa.X.Type(), fa.Field)]
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, s := range o.cellStores(al) {
				if from(s, seen) {
					return true
				}
			}
		}
		if ci, ok := v.(*ssa.Call); ok {
			if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "LookupOptions", "MergeStrategy") {
				return true
			}
			if g := ci.Call.StaticCallee(); g != nil && c.P.InRepo(g) {
				g = unwrapFn(c.P, g)
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range r.Results {
							if from(x, seen) {
								return true
							}
						}
					}
				}
			}
		}
		if p, ok := v.(*ssa.Parameter); ok && !o.open[p.Parent()] {
			for k, q := range p.Parent().Params {
				if q == p {
					for _, ci := range o.callers[p.Parent()] {
						cc := ci.Common()
						if cc.IsInvoke() {
							k--
						}
						if k >= 0 && k < len(cc.Args) && from(cc.Args[k], seen) {
							return true
						}
					}
				}
			}
			return false
		}
		if in, ok := v.(ssa.Instruction); ok {
			if _, isAlloc := v.(*ssa.Alloc); isAlloc {
				return false
			}
			for _, op := range in.Operands(nil) {
				if *op == nil || types.Implements((*op).Type(), it) {
					continue
				}
				if from(*op, seen) {
					return true
				}
			}
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			for _, mc := range o.makes[fv.Parent()] {
				for i, x := range fv.Parent().FreeVars {
					if x == fv && from(mc.Bindings[i], seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, ci := range calls(f) {
			m := methodOfCall(ci)
			if m == nil || !c.isAPIMethod(m, "Invocation", "Lookup") {
				continue
			}
			c.Count("lookups made by the code", 1)
			as := ci.Common().Args
			c.Must(!from(as[len(as)-1], map[ssa.Value]bool{}), "inherits-options", c.N(f), ci.Pos(), nil, "%s gives the lookup options or the merge strategy of the current lookup to a nested lookup", c.N(f))
		}
	}
	c.Min("lookups made by the code", 2)
}

// isInterpolation is true for the methods that interpolate values
func (c *Ctx) isInterpolation(f *ssa.Function) bool {
	o, ok := f.Object().(*types.Func)
	return ok && c.isAPIMethod(o, "Invocation", "Interpolate", "InterpolateString", "InterpolateInScope")
}

// evalWith evaluates a boolean term over the fields of an object
func evalWith(t *Term, fields map[string]*Term) (val, ok bool) {
	sub := func(x *Term) *Term {
		if x.Op == "init" && FieldOf(x.Args[0]) != nil {
			return fields[FieldOf(x.Args[0]).Name()]
		}
		return x
	}
	if t == nil {
		return false, false
	}
	switch t.Op {
	case "not":
		v, ok := evalWith(t.Args[0], fields)
		return !v, ok
	case "eq":
		a, b := sub(t.Args[0]), sub(t.Args[1])
		if a == nil || b == nil {
			return false, false
		}
		if a.IsConst() && b.IsConst() || a == b {
			return a == b || a.Cst != nil && b.Cst != nil && a.Cst.ExactString() == b.Cst.ExactString(), true
		}
	case "const":
		return t.BoolConst()
	case "init":
		if s := sub(t); s != nil && s != t {
			return s.BoolConst()
		}
	}
	return false, false
}

func checkRedaction(c *Ctx) {
	for _, t := range c.ivTypes() {
		f := c.methodOn(t, "DoRedacted")
		if f == nil {
			c.Anchor("Invocation.DoRedacted")
			continue
		}
		isField := inFields(fieldsOf(t))
		// the flag
		var flag *types.Var
		isBool := func(v *types.Var) bool {
			b, ok := v.Type().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Bool
		}
		snapBools := func(st *State, ev *Event) map[string]*Term {
			m := map[string]*Term{}
			if ev.IsFn && ev.Callee != nil && ev.Callee.Op == "param" {
				for a, v := range st.heap {
					if fv := FieldOf(a); fv != nil && isField(fv) && isBool(fv) && root(a).Op == "param" {
						if k, known := st.decide(v); known {
							m[fv.Name()] = c.E.T.boolean(k)
						}
					}
				}
			}
			return m
		}
		for _, v := range fieldsOf(t) {
			if !isBool(v) {
				continue
			}
			ok, n := true, 0
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f), StableField: isField, Snap: snapBools}) {
				for _, ev := range p.Events {
					if ev.Kind == "call" && ev.IsFn && ev.Callee.Op == "param" {
						n++
						b, isB := false, false
						if s := ev.Snap[v.Name()]; s != nil {
							b, isB = s.BoolConst()
						}
						if !isB || !b {
							ok = false
						}
					}
				}
			}
			if ok && n > 0 {
				flag = v
			}
		}
		if !c.Must(flag != nil, "redacted-flag", c.N(f), f.Pos(), nil, "%s doesn't set a flag of the invocation on all paths while its function runs", c.N(f)) {
			continue
		}
		c.copiesCarry(flag, "redaction-carried", "redaction")
		var recv *Term
		seed := func(e *Engine, st *State, params []*Term) {
			if len(params) > 0 {
				recv = params[0]
				st.heap[st.faddr(params[0], flag)] = e.T.boolean(true)
			}
		}
		// the end of a nested redacted operation doesn't end the redaction
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f), StableField: isField, Seed: seed, MayPanic: func(ev *Event) bool { return ev.IsFn }}) {
			if p.Exit == "cut" {
				continue
			}
			c.Count("ends of nested redacted operations", 1)
			v := p.St.heap[p.St.faddr(recv, flag)]
			on := v != nil
			if on {
				b, known := p.St.decide(v)
				on = b && known
			}
			c.Must(on, "redaction-ends", c.N(f), f.Pos(), p, "the redaction ends with a nested redacted operation, before the outer one has ended")
		}
		for _, m := range c.P.declaredMethods(t) {
			if !m.Object().Exported() || c.isInterpolation(m) {
				continue // interpolated strings arrive at WithInterpolation
			}
			secret := map[ssa.Value]bool{}
			for i, p := range m.Params {
				if i == 0 {
					continue
				}
				if isNamed(p.Type(), dgoPkg, "Value") || m.Name() == "WithInterpolation" && types.Identical(p.Type().Underlying(), types.Typ[types.String]) {
					secret[p] = true
				}
			}
			if len(secret) == 0 {
				continue
			}
			for _, p := range c.Run(m, &Policy{Inline: func(h *ssa.Function) bool { return pkgOf(h) == pkgOf(m) && !c.isInterpolation(h) }, StableField: isField, Seed: seed}) {
				for _, ev := range p.Events {
					if ev.Kind != "call" || ev.Method == nil || !c.isAPIMethod(ev.Method, "Explainer") {
						continue
					}
					c.Count("explainer calls with values", 1)
					leak := false
					for _, a := range ev.Args {
						if a.Any(func(x *Term) bool { return x.Op == "param" && secret[x.Val] }) {
							leak = true
						}
					}
					c.Must(!leak, "reveals", c.N(m), ev.Pos, p, "%s reveals a value in the explanation although the invocation is redacted", c.N(m))
				}
			}
		}
		// the conversion
		lc := c.methodOn(t, "LookupAndConvertData")
		if lc == nil {
			c.Anchor("Invocation.LookupAndConvertData")
			continue
		}
		for _, p := range c.Run(lc, &Policy{Inline: samePkg(lc), StableField: isField, Snap: snapBools}) {
			for i, ev := range p.Events {
				if ev.Kind != "call" || !ev.IsFn || ev.Callee.Op != "param" {
					continue
				}
				c.Count("lookups run with a conversion", 1)
				red := false
				if s := ev.Snap[flag.Name()]; s != nil {
					red, _ = s.BoolConst()
				}
				ok := red
				for t, v := range p.FactsBefore(i) {
					if !v && t.Op == "call" && strings.HasSuffix(t.CallName(), ".Assignable") && t.Any(func(x *Term) bool { return x.Op == "global" && strings.Contains(x.Aux, "typ.Sensitive") }) {
						ok = true
					}
					// no conversion at all
					if v && t.Op == "eq" && (t.Args[0].IsNil() || t.Args[1].IsNil()) {
						ok = true
					}
				}
				if !ok {
					// the type is nil on this path
					ok = !hasConvertTo(p, i)
				}
				// what is tested is the type that the value is converted to
				for _, e2 := range p.Events[i:] {
					if e2.Kind != "call" || e2.Name != vfPkg+".New" || red {
						continue
					}
					to := stripTyped(e2.Args[0])
					tested := false
					for t, v := range p.FactsBefore(i) {
						if !v && t.Op == "call" && strings.HasSuffix(t.CallName(), ".Assignable") && len(t.Args) == 2 && t.Args[0].Any(func(x *Term) bool { return x.Op == "global" && strings.Contains(x.Aux, "typ.Sensitive") }) && stripTyped(t.Args[1]) == to {
							tested = true
						}
					}
					ok = ok && tested
				}
				c.Must(ok, "sensitive-conversion", c.N(lc), ev.Pos, p, "%s runs a lookup whose value is converted to Sensitive without redaction", c.N(lc))
			}
		}
	}
	c.Min("explainer calls with values", 3)
	c.Min("lookups run with a conversion", 2)
}

// hasConvertTo is true if the path parsed a type to convert to
func hasConvertTo(p *Path, i int) bool {
	for _, ev := range p.Events[:i] {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".ParseType") {
			return true
		}
	}
	return false
}
