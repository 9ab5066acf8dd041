package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C37", Technique: "provenance of merge strategies over all paths (path-sensitive dataflow on SSA)",
		Explain: "All paths of SetMergeStrategy must end with a strategy whose name and options stem from the explicit option when there is one, else from the merge entry of the lookup options, else first. Each top provider that selects a strategy must do so with the merge option of its context and the lookup options of the key before it looks the key up, must convert the result, and all calls that merge levels or locations must use the strategy of the invocation or the one they were given. Lookup options of a module must only be used for names that start with the name of the module.",
		Check:   checkStrategyChoice})
}

// chase follows the result of an opaque call to the value returned by the function it was given
func chase(p *Path, t *Term) []*Term {
	ts := []*Term{t}
	for d := 0; d < 8 && t != nil && t.Op == "call"; d++ {
		var next *Term
		for _, ev := range p.Events {
			if ev.Kind == "callbackret" && ev.Res == t {
				next = ev.Val
			}
		}
		if next == nil {
			break
		}
		t = next
		ts = append(ts, t)
	}
	return ts
}

func (c *Ctx) apiCall(t *Term, iface string, methods ...string) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	for _, m := range methods {
		if t.CallName() == c.apiKey(iface, m) {
			return true
		}
		for _, k := range c.implKeys(iface, m) {
			if t.CallName() == k {
				return true
			}
		}
	}
	return false
}

// implKeys are the names of the implementations of a method of an api interface
func (c *Ctx) implKeys(iface, method string) []string {
	k := iface + "." + method
	if c.impls == nil {
		c.impls = map[string][]string{}
	}
	ks, ok := c.impls[k]
	if !ok {
		it := c.P.Iface("api", iface)
		if it != nil {
			for _, t := range c.P.Implementers(it) {
				if f := c.P.MethodNamed(t, method); f != nil && asFunc(f) != nil {
					ks = append(ks, FuncKey(asFunc(f)))
				}
			}
		}
		c.impls[k] = ks
	}
	return ks
}

func checkStrategyChoice(c *Ctx) {
	getStrategy := c.P.Mod + "/merge.GetStrategy"
	for _, t := range c.ivTypes() {
		f := c.methodOn(t, "SetMergeStrategy")
		if f == nil {
			c.Anchor("Invocation.SetMergeStrategy")
			continue
		}
		n := c.N(f)
		strF, optF := c.getterField(t, "MergeStrategy"), c.getterField(t, "LookupOptions")
		if strF == nil || optF == nil {
			c.Anchor("the merge strategy and lookup options of an invocation")
			continue
		}
		recv, cli, lo := c.paramTermOf(f, 0), c.paramTermOf(f, 1), c.paramTermOf(f, 2)
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f), StableField: inFields(fieldsOf(t)), MaxPaths: 200000}) {
			if p.Exit != "return" {
				continue
			}
			c.Count("ways to select a strategy", 1)
			facts := p.FactsBefore(len(p.Events))
			s := p.St.heap[p.St.faddr(recv, strF)]
			if !c.Must(s != nil && s.Op == "call" && s.CallName() == getStrategy && len(s.Args) == 2, "strategy-set", n, f.Pos(), p, "%s doesn't set the strategy", n) {
				continue
			}
			kept := p.St.heap[p.St.faddr(recv, optF)]
			okL := kept == lo
			if !okL && kept != nil && kept.IsNil() {
				okL, _ = nilFact(facts, lo)
			}
			c.Must(okL, "options-set", n, f.Pos(), p, "%s doesn't keep the lookup options", n)
			// the source
			var src *Term
			cliNil, k := nilFact(facts, cli)
			if !c.Must(k, "explicit-first", n, f.Pos(), p, "%s selects a strategy without testing if there's an explicit one", n) {
				continue
			}
			if !cliNil {
				src = cli
			} else if x, k := nilFact(facts, lo); !k || !x {
				if !c.Must(k, "options-second", n, f.Pos(), p, "%s selects a strategy without testing if there are lookup options", n) {
					continue
				}
				for _, ev := range p.Events {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Get") && ev.Recv == lo && len(ev.Args) == 1 {
						if m, ok := ev.Args[0].StrConst(); ok && m == "merge" {
							src = ev.Res
						}
					}
				}
				if !c.Must(src != nil, "options-second", n, f.Pos(), p, "%s doesn't use the merge strategy of the lookup options", n) {
					continue
				}
			}
			name, opts := s.Args[0], s.Args[1]
			isStr := func(t, of *Term) bool {
				return t.Op == "call" && len(t.Args) == 1 && t.Args[0] == of && (strings.HasSuffix(t.CallName(), ".String") || strings.HasSuffix(t.CallName(), ".GoString"))
			}
			first := func() bool {
				x, ok := name.StrConst()
				return ok && x == "first" && opts.IsNil()
			}
			if src == nil {
				c.Must(first(), "default", n, f.Pos(), p, "%s doesn't use the strategy first although no strategy is given", n)
				continue
			}
			isS, k1 := isaFact(facts, src, "String")
			isM, k2 := isaFact(facts, src, "Map")
			gone, k3 := nilFact(facts, src)
			switch {
			case isS && k1:
				c.Must(isStr(name, src) && opts.IsNil(), "name", n, f.Pos(), p, "%s doesn't use the strategy that is named", n)
			case isM && k2:
				var st *Term
				name.Any(func(x *Term) bool {
					if isDgo(x, "Get") && x.Args[0] == src {
						if k, ok := x.Args[1].StrConst(); ok && k == "strategy" {
							st = x
						}
					}
					return false
				})
				if st == nil {
					// no name
					for t, v := range facts {
						if v && t.Op == "isa" && strings.HasSuffix(t.Aux, ".String") && isDgo(t.Args[0], "Get") && t.Args[0].Args[0] == src {
							if k, ok := t.Args[0].Args[1].StrConst(); ok && k == "strategy" {
								c.Bad("map", n, f.Pos(), p, "%s doesn't use the strategy that is named in a hash", n)
							}
						}
					}
					x, ok := name.StrConst()
					c.Must(ok && (x == "" || x == "first"), "map", n, f.Pos(), p, "%s doesn't use the strategy that is named in a hash", n)
					continue
				}
				if isS, k := isaFact(facts, st, "String"); k && !isS {
					c.Bad("map", n, f.Pos(), p, "%s uses something that isn't the name of a strategy", n)
				}
				okO := isDgo(opts, "Without") && opts.Args[0] == src || opts == src
				c.Must(isStr(name, st) && okO, "map", n, f.Pos(), p, "%s doesn't use the strategy and the options that are given in a hash", n)
			case gone && k3 || k1 && k2:
				c.Must(first(), "default", n, f.Pos(), p, "%s doesn't use the strategy first although no strategy is given", n)
			default:
				c.Bad("decided", n, f.Pos(), p, "%s selects a strategy without testing what it was given", n)
			}
		}
		c.strategyParams(t)
		c.lookupPassesOptions(t)
	}
	c.Min("ways to select a strategy", 6)
	c.topProviders()
	c.strategyUses()
	c.contextOptions()
	c.moduleOptions()
}

// besideInvocation inlines the functions of a package that are not exported methods of invocations
func (c *Ctx) besideInvocation(f *ssa.Function) func(*ssa.Function) bool {
	return func(g *ssa.Function) bool {
		if pkgOf(g) != pkgOf(f) {
			return false
		}
		if g.Signature.Recv() != nil && asFunc(g) != nil && (c.isAPIMethod(asFunc(g), "Invocation", asFunc(g).Name()) || c.isAPIMethod(asFunc(g), "Session", asFunc(g).Name())) {
			return false
		}
		return true
	}
}

func (c *Ctx) paramTermOf(f *ssa.Function, i int) *Term {
	if i >= len(f.Params) {
		return c.E.T.nilT()
	}
	return c.paramTerm(nil, f.Params[i])
}

// strategyParams checks that the methods that merge levels and locations use the strategy they are given
func (c *Ctx) strategyParams(t types.Type) {
	for _, m := range []string{"MergeHierarchy", "MergeLocations"} {
		f := c.methodOn(t, m)
		if f == nil {
			c.Anchor("Invocation." + m)
			continue
		}
		var strat *ssa.Parameter
		for _, p := range f.Params {
			if isNamed(p.Type(), c.P.Mod+"/api", "MergeStrategy") {
				strat = p
			}
		}
		if strat == nil {
			c.Anchor("strategy given to " + c.N(f))
			continue
		}
		key := f.Params[1]
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkgOf(f) && (g.Object() == nil || !c.isAPIMethod(asFunc(g), "Invocation", "MergeLocations") || g == f)
		}, Sync: func(ev *Event, a *Term) string {
			if c.isAPI(ev, "MergeStrategy", "MergeLookup") {
				return "once"
			}
			return ""
		}}) {
			for _, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				switch {
				case c.isAPI(ev, "MergeStrategy", "MergeLookup"):
					c.Count("merges of levels and locations", 1)
					c.Must(isParam(ev.Recv, strat), "strategy-used", c.N(f), ev.Pos, p, "%s doesn't use the strategy that it was given", c.N(f))
				case c.isAPI(ev, "Invocation", "MergeLocations") || ev.Fn != nil && c.isAPIMethod(asFunc(ev.Fn), "Invocation", "MergeLocations"):
					c.Count("merges of levels and locations", 1)
					as := ev.Args
					ok := false
					for _, a := range as {
						ok = ok || isParam(a, strat)
					}
					okK := false
					for _, a := range as {
						okK = okK || isParam(a, key)
					}
					c.Must(ok && okK, "strategy-used", c.N(f), ev.Pos, p, "%s doesn't pass on the key and the strategy that it was given", c.N(f))
				}
			}
		}
	}
	c.Min("merges of levels and locations", 3)
}

func asFunc(f *ssa.Function) *types.Func {
	o, _ := f.Object().(*types.Func)
	return o
}

// lookupPassesOptions checks that a lookup makes its options available to the top provider
func (c *Ctx) lookupPassesOptions(t types.Type) {
	f := c.methodOn(t, "Lookup")
	if f == nil {
		c.Anchor("Invocation.Lookup")
		return
	}
	opt := f.Params[len(f.Params)-1]
	ctxs := map[*Term]bool{}
	for _, p := range c.Run(f, &Policy{Inline: c.besideInvocation(f), Sync: func(ev *Event, a *Term) string { return "once" }}) {
		for _, ev := range p.Events {
			made := ev.Kind == "enter" && ev.Fn != nil && asFunc(ev.Fn) != nil && c.isAPIMethod(asFunc(ev.Fn), "Invocation", "ServerContext") || ev.Kind == "call" && c.isAPI(ev, "Invocation", "ServerContext")
			if made {
				c.Count("contexts made for a lookup", 1)
				c.Must(isParam(ev.Args[len(ev.Args)-1], opt), "options-used", c.N(f), ev.Pos, p, "%s doesn't use the options that it was given", c.N(f))
				ctxs[ev.Res] = true
			}
		}
	}
	c.Min("contexts made for a lookup", 1)
	sc := c.methodOn(t, "ServerContext")
	if sc == nil {
		c.Anchor("Invocation.ServerContext")
		return
	}
	so := sc.Params[len(sc.Params)-1]
	for _, p := range c.Run(sc, &Policy{Inline: c.besideInvocation(sc)}) {
		if p.Exit != "return" {
			continue
		}
		used := false
		for _, ev := range p.Events {
			for _, a := range ev.Args {
				if ev.Kind == "call" && isParam(a, so) {
					used = true
				}
			}
		}
		x, k := nilFact(p.FactsBefore(len(p.Events)), c.paramTerm(p, so))
		c.Must(used || x && k, "options-used", c.N(sc), sc.Pos(), p, "%s doesn't use the options that it was given", c.N(sc))
	}
}

// topProviders checks the functions that select a strategy
func (c *Ctx) topProviders() {
	set := c.P.touches(func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "SetMergeStrategy") {
				return true
			}
		}
		return false
	})
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || !set[f] || f.Signature.Recv() != nil {
			continue
		}
		direct := false
		for _, g := range closuresOf(f) {
			for _, ci := range calls(g) {
				if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "SetMergeStrategy") {
					direct = true
				}
			}
		}
		for _, ci := range calls(f) {
			if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "SetMergeStrategy") {
				direct = true
			}
		}
		if !direct {
			continue
		}
		n := c.N(f)
		paths := c.Run(f, &Policy{Inline: samePkg(f), Sync: func(ev *Event, a *Term) string {
			if c.isAPI(ev, "Invocation", "WithLookup", "LookupAndConvertData", "WithModule") {
				return "once"
			}
			if c.isAPI(ev, "MergeStrategy", "MergeLookup") {
				return "no"
			}
			return ""
		}})
		for _, p := range paths {
			if p.Exit != "return" {
				continue
			}
			at := -1
			for i, ev := range p.Events {
				if ev.Kind == "call" && c.isAPI(ev, "Invocation", "SetMergeStrategy") {
					at = i
				}
			}
			if at < 0 {
				continue
			}
			c.Count("top providers that select a strategy", 1)
			ev := p.Events[at]
			iv := ev.Recv
			opt := ev.Args[0]
			okO := opt.Op == "call" && strings.HasSuffix(opt.CallName(), ".Option") && len(opt.Args) == 2
			if okO {
				k, isC := opt.Args[1].StrConst()
				okO = isC && k == "merge" && opt.Args[0].Any(func(x *Term) bool { return x.Op == "param" })
			}
			c.Must(okO, "explicit-option", n, ev.Pos, p, "%s doesn't use the merge option of the lookup", n)
			// the lookup options
			lo := ev.Args[1]
			var cfg *Term
			okL := false
			if c.apiCall(lo, "ResolvedConfig", "LookupOptions") {
				cfg = lo.Args[0]
				k := lo.Args[1]
				okL = k.Op == "call" && (k.CallName() == c.P.Mod+"/api.NewKey" || k.CallName() == c.P.Mod+"/api.NewRootKey") && k.Args[0].Op == "param"
			} else {
				okL = lo.IsNil() || lo.Any(func(x *Term) bool { return c.apiCall(x, "ServerContext", "ForLookupOptions") })
				if lo.IsNil() {
					// nothing that is a map was found
					okL = false
					for t, v := range p.FactsBefore(at) {
						if t.Op == "isa" && !v && t.Any(func(x *Term) bool { return c.apiCall(x, "ServerContext", "ForLookupOptions") }) {
							okL = true
						}
					}
				}
			}
			c.Must(okL, "lookup-options", n, ev.Pos, p, "%s doesn't use the lookup options of the key", n)
			// the lookup
			ts := chase(p, p.Res)
			conv := false
			for _, t := range ts {
				if c.apiCall(t, "Invocation", "LookupAndConvertData") && t.Args[0] == iv {
					conv = true
				}
			}
			c.Must(conv, "converts", n, ev.Pos, p, "%s doesn't convert the value in accordance with the lookup options", n)
			last := ts[len(ts)-1]
			okM := false
			isStrat := func(x *Term) bool { return c.apiCall(x, "Invocation", "MergeStrategy") && x.Args[0] == iv }
			var st *Term
			switch {
			case c.apiCall(last, "Invocation", "MergeHierarchy") && last.Args[0] == iv:
				st = last.Args[len(last.Args)-1]
				h := last.Args[2]
				okM = c.apiCall(h, "ResolvedConfig", "Hierarchy") && (cfg == nil || h.Args[0] == cfg)
			case c.apiCall(last, "MergeStrategy", "MergeLookup"):
				st = last.Args[0]
				okM = true
			}
			c.Must(okM && st != nil && isStrat(st), "merges", n, ev.Pos, p, "%s doesn't merge the levels using the strategy that was selected", n)
			if st != nil {
				for i, e := range p.Events {
					if e.Kind == "call" && e.Res == st {
						c.Must(i > at, "select-first", n, ev.Pos, p, "%s uses the strategy before it is selected", n)
					}
				}
			}
		}
	}
	c.Min("top providers that select a strategy", 2)
}

// strategyUses checks what strategy is used when levels and locations are merged
func (c *Ctx) strategyUses() {
	inOpts := map[*ssa.Function]bool{}
	for _, t := range c.role("api", "ResolvedConfig", 1) {
		for _, f := range c.P.declaredMethods(t) {
			inOpts[f] = true
			for _, g := range closuresOf(f) {
				inOpts[g] = true
			}
		}
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, ci := range calls(f) {
			m := methodOfCall(ci)
			if m == nil || !c.isAPIMethod(m, "Invocation", "MergeHierarchy") {
				continue
			}
			c.Count("merges of a hierarchy", 1)
			as := ci.Common().Args
			v := stripConv(as[len(as)-1])
			iv := ci.Common().Value
			if !ci.Common().IsInvoke() {
				iv = as[0]
			}
			call, ok := v.(*ssa.Call)
			ok = ok && methodOfCall(call) != nil && c.isAPIMethod(methodOfCall(call), "Invocation", "MergeStrategy")
			if ok {
				r := call.Call.Value
				if !call.Call.IsInvoke() {
					r = call.Call.Args[0]
				}
				ok = sameValue(r, iv)
			} else if p, isP := v.(*ssa.Parameter); isP {
				ok = p.Parent() == f
			} else if inOpts[f] {
				continue // see moduleOptions
			}
			c.Must(ok, "strategy-used", c.N(f), ci.Pos(), nil, "%s merges a hierarchy using something else than the strategy of the invocation", c.N(f))
		}
	}
	c.Min("merges of a hierarchy", 1)
}

// sameValue is true for the same value, or loads of the same variable
func sameValue(a, b ssa.Value) bool {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == y.Op && x.X == y.X
}

// contextOptions checks that contexts made from other contexts have the same options
func (c *Ctx) contextOptions() {
	for _, t := range c.role("api", "ServerContext", 1) {
		n := namedOf(t)
		s := structOf(t)
		if s == nil {
			continue
		}
		for _, name := range []string{"ForData", "ForLookupOptions"} {
			f := c.methodOn(t, name)
			if f == nil {
				c.Anchor("ServerContext." + name)
				continue
			}
			for _, p := range c.Run(f, &Policy{Inline: c.besideInvocation(f)}) {
				if p.Exit != "return" {
					continue
				}
				r := p.Res
				if r.Op == "param" {
					continue
				}
				if !c.Must(r.Op == "alloc" && namedOf(r.Type) == n, "context-copy", c.N(f), f.Pos(), p, "the context made by %s isn't known", c.N(f)) {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					v := s.Field(i)
					val := p.St.heap[p.St.faddr(r, v)]
					if isNamed(v.Type(), c.P.Mod+"/api", "Invocation") {
						want := name
						ok := c.apiCall(val, "Invocation", want)
						c.Must(ok, "context-copy", c.N(f), f.Pos(), p, "%s makes a context with an invocation that isn't made by %s", c.N(f), want)
						continue
					}
					c.Count("values carried over to a new context", 1)
					ok := val != nil && val.Op == "init" && FieldOf(val.Args[0]) == v && val.Args[0].Args[0].Op == "param"
					c.Must(ok, "context-copy", c.N(f)+"/"+v.Name(), f.Pos(), p, "the context made by %s doesn't have the options of the original", c.N(f))
				}
			}
		}
	}
	c.Min("values carried over to a new context", 2)
}

// moduleOptions checks how the lookup options of a configuration are found
func (c *Ctx) moduleOptions() {
	for _, t := range c.role("api", "ResolvedConfig", 1) {
		f := c.methodOn(t, "LookupOptions")
		if f == nil {
			c.Anchor("ResolvedConfig.LookupOptions")
			continue
		}
		n := c.N(f)
		var optF *types.Var
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f), StableField: inFields(fieldsOf(t))}) {
			if p.Exit != "return" {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			isRoot := func(x *Term) bool { return c.apiCall(x, "Key", "Root") && x.Args[0].Op == "param" }
			inModule, known := false, false
			global := false
			for x, v := range facts {
				if x.Op == "call" && x.CallName() == "strings.HasPrefix" && isRoot(x.Args[0]) {
					cat := x.Args[1]
					if cat.Op == "concat" && len(cat.Args) == 2 && cat.Args[0].Op == "init" {
						if s, ok := cat.Args[1].StrConst(); ok && s == "::" {
							inModule, known = v, true
						}
					}
				}
				if x.Op == "eq" {
					for i := range x.Args {
						if s, ok := x.Args[1-i].StrConst(); ok && s == "" && x.Args[i].Op == "init" && v {
							global = true
						}
					}
				}
			}
			if p.Res.IsNil() {
				// nothing, not a hash, or not for this module
				ok := known && !inModule
				for x, v := range facts {
					switch x.Op {
					case "isa":
						ok = ok || !v
					case "eq":
						for i := range x.Args {
							if x.Args[1-i].IsNil() && v && (x.Args[i].Op == "init" || isDgo(x.Args[i], "Get")) {
								ok = true
							}
						}
					}
				}
				c.Must(ok, "options-of-key", n, f.Pos(), p, "%s finds no options although there may be some", n)
				continue
			}
			c.Count("lookup options found", 1)
			r := p.Res
			ok := isDgo(r, "Get") && r.Args[0].Op == "init" && FieldOf(r.Args[0].Args[0]) != nil && isRoot(r.Args[1])
			c.Must(ok, "options-of-key", n, f.Pos(), p, "%s returns something else than the options for the first segment of the key", n)
			if ok {
				optF = FieldOf(r.Args[0].Args[0])
			}
			c.Must(global || known && inModule, "module-options", n, f.Pos(), p, "%s uses the lookup options of a module for a name that doesn't belong to the module", n)
		}
		if optF == nil {
			c.Anchor("the lookup options of a configuration")
			continue
		}
		// how they are set
		for _, g := range c.P.declaredMethods(t) {
			stores := false
			parts := append(closuresOf(g), g)
			for h := range c.helpersOf(g) {
				if c.piece(h) && c.userOf(h) == g {
					parts = append(parts, h)
				}
			}
			for _, h := range parts {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == optF {
								stores = true
							}
						}
					}
				}
			}
			if !stores {
				continue
			}
			for _, p := range c.Run(g, &Policy{Inline: c.besideInvocation(g), Sync: func(ev *Event, a *Term) string {
				if c.isAPI(ev, "Invocation", "WithLookup") || c.isAPI(ev, "MergeStrategy", "MergeLookup") {
					return "once"
				}
				return ""
			}}) {
				for _, ev := range p.Events {
					if ev.Kind != "store" || FieldOf(ev.Addr) != optF {
						continue
					}
					c.Count("lookup options set", 1)
					ts := chase(p, ev.Val)
					deep, opts, key := false, false, false
					for _, x := range ts {
						whole := c.apiCall(x, "Invocation", "MergeHierarchy")
						if whole {
							k := x.Args[1]
							if k.Op == "call" && strings.HasSuffix(k.CallName(), "/api.NewKey") {
								s, ok := k.Args[0].StrConst()
								key = ok && s == "lookup_options"
							}
						}
						if whole || c.apiCall(x, "MergeStrategy", "MergeLookup") {
							st := x.Args[0]
							if whole {
								st = x.Args[len(x.Args)-1]
							}
							if st.Op == "call" && st.CallName() == c.P.Mod+"/merge.GetStrategy" {
								s, ok := st.Args[0].StrConst()
								deep = ok && s == "deep"
							}
							opts = x.Any(func(y *Term) bool { return c.apiCall(y, "Invocation", "ForLookupOptions") })
						}
						if c.apiCall(x, "Invocation", "MergeLocations") {
							st := stripTyped(x.Args[len(x.Args)-1])
							name, ok := "", false
							if st.Op == "call" && st.CallName() == c.P.Mod+"/merge.GetStrategy" {
								name, ok = st.Args[0].StrConst()
							}
							c.Must(ok && name == "deep", "options-set", c.N(g)+" locations", ev.Pos, p, "%s doesn't merge the lookup_options of all locations of a level", c.N(g))
							k := x.Args[1]
							if k.Op == "call" && strings.HasSuffix(k.CallName(), "/api.NewKey") {
								s, ok := k.Args[0].StrConst()
								key = ok && s == "lookup_options"
							}
						}
					}
					c.Must(deep && opts && key, "options-set", c.N(g), ev.Pos, p, "%s doesn't merge the lookup_options of all levels", c.N(g))
				}
			}
		}
	}
	c.Min("lookup options found", 1)
	c.Min("lookup options set", 1)
}
