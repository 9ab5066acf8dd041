package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C08", Technique: "ownership of stores to configuration objects and their lists (origin analysis and path-sensitive dataflow on SSA)",
		Explain: "Every store to a field of, or to all of, an object that implements Config, Entry, Location or Function must be to an object the function has allocated itself or got from its callers who did. Every store to an element of, and every append to, a list of entries, locations or providers must be to a list that was allocated by the code: never to one that was read from a configuration object or returned by one of its getters.",
		Check:   checkConfigImmutable})
	register(&Rule{ID: "C10", Technique: "lockset and ownership analysis of state shared between lookups (path-sensitive dataflow and origin analysis on SSA)",
		Explain: "No function other than a package initializer stores to a package variable or calls a modifying method on one. Every field of an object that isn't private to one lookup is stored to only while the object is being created or with the lock in the same object held, and each field that is guarded that way is never accessed without the lock. What is put into a concurrent map or the session cache holds no invocation, context, explainer or scope of the lookup that put it there.",
		Check:   checkSharedState})
}

// addrBase follows an address to the object it is a part of
func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// owned is true when all that a pointer can be has been allocated by the code that uses it (and not read from somewhere)
func (o *originFinder) owned(v ssa.Value) (bool, string) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) (bool, string)
	visit = func(v ssa.Value) (bool, string) {
		if v == nil || seen[v] {
			return true, ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true, ""
		case *ssa.Const:
			return true, ""
		case *ssa.Phi:
			for _, e := range x.Edges {
				if ok, w := visit(e); !ok {
					return ok, w
				}
			}
			return true, ""
		case *ssa.MakeInterface:
			return visit(x.X)
		case *ssa.ChangeInterface:
			return visit(x.X)
		case *ssa.ChangeType:
			return visit(x.X)
		case *ssa.TypeAssert:
			return visit(x.X)
		case *ssa.Slice:
			return visit(x.X)
		case *ssa.FreeVar:
			for _, mc := range o.makes[x.Parent()] {
				for i, fv := range x.Parent().FreeVars {
					if fv == x {
						if ok, w := visit(mc.Bindings[i]); !ok {
							return ok, w
						}
					}
				}
			}
			return true, ""
		case *ssa.Extract:
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
				return visit(t.X)
			}
			if t, ok := x.Tuple.(*ssa.Call); ok {
				return o.ownedResult(t, x.Index, visit)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return visit(x.Call.Args[0])
			}
			return o.ownedResult(x, 0, visit)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// a local variable
				cs := o.cells(x.X)
				for _, al := range cs {
					for _, s := range o.cellStores(al) {
						if ok, w := visit(s); !ok {
							return ok, w
						}
					}
				}
				if len(cs) > 0 {
					return true, ""
				}
				if g, ok := x.X.(*ssa.Global); ok {
					return false, "the package variable " + g.Name()
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					return false, "the field " + fieldVar(fa.X.Type(), fa.Field).Name()
				}
				return false, "an element"
			}
		case *ssa.Global:
			return false, "the package variable " + x.Name()
		case *ssa.Parameter:
			f := x.Parent()
			if o.open[f] {
				return false, "the parameter " + x.Name() + " of " + o.p.FuncName(f)
			}
			k := -1
			for i, p := range f.Params {
				if p == x {
					k = i
				}
			}
			n := 0
			for _, ci := range o.callers[f] {
				c := ci.Common()
				var a ssa.Value
				if c.IsInvoke() {
					if k == 0 {
						a = c.Value
					} else if k-1 < len(c.Args) {
						a = c.Args[k-1]
					}
				} else if k < len(c.Args) {
					a = c.Args[k]
				}
				n++
				if ok, w := visit(a); !ok {
					return ok, w
				}
			}
			if n == 0 {
				return false, "the parameter " + x.Name() + " of " + o.p.FuncName(f)
			}
			return true, ""
		}
		return false, v.String()
	}
	return visit(v)
}

func (o *originFinder) ownedResult(t *ssa.Call, idx int, visit func(ssa.Value) (bool, string)) (bool, string) {
	f := t.Call.StaticCallee()
	if f == nil || !o.p.InRepo(f) {
		return false, "the result of " + calleeKey(t)
	}
	f = unwrapFn(o.p, f)
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			n++
			if ok, w := visit(r.Results[idx]); !ok {
				return ok, w
			}
		}
	}
	return n > 0, "the result of " + calleeKey(t)
}

// implementers of the named api interfaces that have state
func (c *Ctx) apiTypes(names ...string) []types.Type {
	var out []types.Type
	for _, n := range names {
		for _, t := range c.role("api", n, 1) {
			out = append(out, t)
		}
	}
	return out
}

func hasType(ts []types.Type, t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	for _, o := range ts {
		if m := namedOf(o); m == n {
			return true
		}
	}
	return false
}

func checkConfigImmutable(c *Ctx) {
	ts := c.apiTypes("Config", "Entry", "Location", "Function")
	o := c.P.Origins()
	list := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n := namedOf(s.Elem())
		if n == nil || n.Obj().Pkg() == nil {
			return false
		}
		for _, k := range []string{"Entry", "Location", "DataProvider", "Function"} {
			if n == namedOf(c.P.Named("api", k)) {
				return true
			}
		}
		return hasType(ts, s.Elem())
	}
	touched := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && list(ia.X.Type()) {
						touched[f] = true
						continue
					}
					// a field, or all, of a configuration object
					obj := ssa.Value(nil)
					a := x.Addr
					for a != nil && obj == nil {
						if pt, ok := a.Type().Underlying().(*types.Pointer); ok && hasType(ts, pt.Elem()) && structOf(pt.Elem()) != nil {
							if _, isNamedPtr := pt.Elem().(*types.Pointer); !isNamedPtr {
								obj = a
								break
							}
						}
						switch y := a.(type) {
						case *ssa.FieldAddr:
							a = y.X
						case *ssa.IndexAddr:
							a = y.X
						default:
							a = nil
						}
					}
					if obj == nil {
						continue
					}
					c.funcs[c.N(f)] = true
					c.Count("stores to configuration objects", 1)
					ok, w := o.owned(obj)
					c.Must(ok, "stores-to-config", c.N(f), x.Pos(), nil, "%s changes a configuration object that it didn't create (%s)", c.N(f), w)
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							if list(x.Common().Args[0].Type()) {
								touched[f] = true
							}
						}
					}
					// sorting in place
					if g := x.Common().StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
						for _, a := range x.Common().Args {
							if list(stripConv(a).Type()) {
								ok, w := o.owned(stripConv(a))
								c.Must(ok, "sorts-config", c.N(f), x.Pos(), nil, "%s reorders a list of a configuration object (%s)", c.N(f), w)
							}
						}
					}
				}
			}
		}
	}
	// lists, judged path by path
	c.withPieces(touched)
	inl := c.P.touches(func(f *ssa.Function) bool { return touched[f] })
	getter := func(t *Term) bool {
		return t != nil && t.Op == "call" && t.Ev != nil && t.Ev.Method != nil
	}
	shared := func(t *Term) *Term {
		for t != nil {
			switch t.Op {
			case "append", "append1", "changed":
				if len(t.Args) == 0 {
					return t
				}
				t = t.Args[0]
			case "slice":
				if n := len(t.Args); n >= 4 && t.Args[n-1].Op != "none" && t.Args[n-1] == t.Args[n-2] {
					return nil
				}
				t = t.Args[0]
			case "loopvar":
				return nil // its entry value was judged in the first iteration
			case "init", "param", "free", "global", "ext":
				return t
			case "call":
				if getter(t) {
					return t
				}
				return nil
			default:
				return nil
			}
		}
		return nil
	}
	for _, f := range c.P.Funcs {
		if !inl[f] || f.Synthetic != "" || f.Parent() != nil || c.piece(f) {
			continue
		}
		has := touched[f]
		for _, g := range closuresOf(f) {
			has = has || touched[g]
		}
		if !has {
			continue
		}
		pol := &Policy{Inline: func(g *ssa.Function) bool {
			if pkgOf(g) != pkgOf(f) || !inl[g] {
				return false
			}
			// others are judged by themselves
			takes := g.Parent() != nil || c.piece(g)
			for _, a := range g.Params {
				takes = takes || list(a.Type())
			}
			return takes
		}}
		for _, p := range c.Run(f, pol) {
			for _, ev := range p.Events {
				switch ev.Kind {
				case "store":
					if ev.Addr.Op != "iaddr" || ev.Addr.Args[0].Type == nil || !list(ev.Addr.Args[0].Type) {
						continue
					}
					c.Count("stores to elements of lists", 1)
					s := sharedElem(shared, ev.Addr.Args[0])
					c.Must(s == nil, "stores-element", c.N(f), ev.Pos, p, "%s assigns an element of a list that belongs to a configuration (%v)", c.N(f), s)
				case "append", "copy":
					dst := ev.Recv
					if ev.Kind == "copy" {
						dst = ev.Addr
					}
					if dst == nil || dst.Type == nil || !list(dst.Type) {
						continue
					}
					c.Count("appends to lists", 1)
					s := shared(dst)
					if ev.Kind == "copy" {
						s = sharedElem(shared, dst)
					}
					c.Must(s == nil, "appends", c.N(f), ev.Pos, p, "%s appends to a list that belongs to a configuration (%v)", c.N(f), s)
				}
			}
		}
	}
	c.Min("stores to configuration objects", 10)
	c.Min("appends to lists", 2)
	c.Min("stores to elements of lists", 2)
}

// sharedElem is like shared, but having no spare capacity doesn't help
func sharedElem(shared func(*Term) *Term, t *Term) *Term {
	for t != nil && t.Op == "slice" {
		t = t.Args[0]
	}
	if t != nil && (t.Op == "append" || t.Op == "append1") {
		// an append to something fresh, or a new array
		return shared(t)
	}
	return shared(t)
}

// perLookup tells if a type belongs to a single lookup
func (c *Ctx) perLookup(t types.Type) bool {
	for _, n := range []string{"Invocation", "Explainer", "ServerContext", "DataProvider", "ResolvedConfig"} {
		it := c.P.Iface("api", n)
		if it != nil && (types.Implements(t, it) || types.Implements(types.NewPointer(t), it)) {
			return true
		}
		if it != nil && types.Identical(t.Underlying(), it) {
			return true
		}
	}
	return isNamed(t, sdkPkg, "ProviderContext")
}

func (c *Ctx) isMainPkg(f *ssa.Function) bool {
	pk := pkgOf(f)
	return pk != nil && pk.Name() == "main"
}

func checkSharedState(c *Ctx) {
	o := c.P.Origins()
	explain := c.explainPkg()
	globalRoot := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil
				}
				v = x.X
			case *ssa.Phi, *ssa.Slice:
				if s, ok := x.(*ssa.Slice); ok {
					v = s.X
					continue
				}
				return nil
			case *ssa.TypeAssert:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			default:
				return nil
			}
		}
	}
	// a command runs once in a process, but what it serves doesn't
	command := map[*types.Package]bool{}
	for _, pk := range c.P.Pkgs {
		cmd := pk.Name == "main"
		for _, im := range pk.Types.Imports() {
			cmd = cmd || im.Path() == "github.com/spf13/cobra"
		}
		if cmd {
			command[pk.Types] = true
		}
	}
	serves := c.P.Graph(nil, nil).Reach(c.handlers()...)
	// functions that only run while packages are initialized
	initOnly := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if n := outer(f).Name(); n == "init" || strings.HasPrefix(n, "init#") {
			if f == outer(f) {
				initOnly[f] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.Funcs {
			if initOnly[f] || o.open[f] || len(o.callers[f]) == 0 {
				continue
			}
			all := true
			for _, ci := range o.callers[f] {
				all = all && initOnly[ci.Parent()]
			}
			if all {
				initOnly[f] = true
				ch = true
			}
		}
	}
	written := map[*types.Var][]*ssa.Store{} // fields stored to after construction
	mapWrites := map[*types.Var]bool{}
	lockOf := func(t types.Type) *types.Var {
		for _, v := range fieldsOf(t) {
			if isNamed(v.Type(), "sync", "Mutex") || isNamed(v.Type(), "sync", "RWMutex") {
				return v
			}
		}
		return nil
	}
	fieldOwner := map[*types.Var]types.Type{}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && !initOnly[f] || command[pkgOf(f)] && !serves[f] {
			continue
		}
		c.funcs[c.N(f)] = true
		if initOnly[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				global := func(v ssa.Value, what string) {
					g := globalRoot(v)
					if g != nil && !c.P.RepoPkg(g.Pkg.Pkg) && what != "stores to" {
						return
					}
					nm := ""
					if g != nil {
						nm = g.Name()
					}
					c.Count("stores and changes examined", 1)
					c.Must(g == nil, "package-state", c.N(f)+" "+nm, in.Pos(), nil, "%s %s the package variable %s: it is shared by all sessions", c.N(f), what, nm)
				}
				switch x := in.(type) {
				case *ssa.Store:
					global(x.Addr, "stores to")
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					v := fieldVar(fa.X.Type(), fa.Field)
					if !c.P.RepoPkg(v.Pkg()) {
						continue
					}
					if own, _ := o.owned(addrBase(fa)); !own {
						written[v] = append(written[v], x)
						fieldOwner[v] = fa.X.Type()
					}
				case *ssa.MapUpdate:
					global(x.Map, "updates")
					if ld, ok := x.Map.(*ssa.UnOp); ok {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok {
							v := fieldVar(fa.X.Type(), fa.Field)
							mapWrites[v] = true
							fieldOwner[v] = fa.X.Type()
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					m := methodOfCall(x)
					recv := cc.Value
					if !cc.IsInvoke() && len(cc.Args) > 0 {
						recv = cc.Args[0]
					}
					if isMutator(m) {
						global(recv, "changes with "+m.Name())
						if ld, ok := recv.(*ssa.UnOp); ok {
							if fa, ok := ld.X.(*ssa.FieldAddr); ok {
								v := fieldVar(fa.X.Type(), fa.Field)
								if c.P.RepoPkg(v.Pkg()) {
									mapWrites[v] = true
									fieldOwner[v] = fa.X.Type()
								}
							}
						}
						continue
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "copy", "append":
							if bi.Name() != "append" {
								global(cc.Args[0], "changes with "+bi.Name())
							}
							if bi.Name() == "delete" {
								if ld, ok := cc.Args[0].(*ssa.UnOp); ok {
									if fa, ok := ld.X.(*ssa.FieldAddr); ok {
										v := fieldVar(fa.X.Type(), fa.Field)
										mapWrites[v] = true
										fieldOwner[v] = fa.X.Type()
									}
								}
							}
						}
						continue
					}
					k := calleeKey(x)
					switch k {
					case "(sync.Map).Store", "(sync.Map).LoadOrStore", "(sync.Map).Swap", "(sync.Map).CompareAndSwap", "(sync.Map).Delete", "(sync.Map).LoadAndDelete":
						global(recv, "changes with "+m.Name())
					}
					var vals []ssa.Value
					switch k {
					case "(sync.Map).Store", "(sync.Map).LoadOrStore", "(sync.Map).Swap":
						vals = cc.Args[len(cc.Args)-1:]
					default:
						if m != nil && c.isAPIMethod(m, "ServerContext", "Cache", "CacheAll") && (cc.IsInvoke() || cc.StaticCallee() != nil) {
							vals = cc.Args[len(cc.Args)-1:]
						}
					}
					for _, v := range vals {
						c.Count("values put into shared maps", 1)
						w := c.lookupState(o, v, map[ssa.Value]bool{})
						c.Must(w == "", "keeps-lookup-state", c.N(f), x.Pos(), nil, "%s keeps %s in a map that other lookups share", c.N(f), w)
					}
				}
			}
		}
	}
	// unguarded stores to fields of shared objects
	guarded := map[*types.Var]*types.Var{}
	priv := func(t types.Type) bool {
		n := namedOf(t)
		if n == nil {
			return true
		}
		if c.perLookup(types.NewPointer(n)) || n.Obj().Pkg() == explain {
			return true
		}
		return false
	}
	for _, v := range allVars(written, mapWrites) {
		t := fieldOwner[v]
		if l := lockOf(t); l != nil && l != v {
			guarded[v] = l
			continue
		}
		if priv(t) {
			continue
		}
		if hasType(c.apiTypes("Config", "Entry", "Location", "Function"), t) {
			continue // judged by the rule for configuration objects
		}
		for _, st := range written[v] {
			ok, w := o.owned(addrBase(st.Addr))
			c.Must(ok, "shared-field", c.N(st.Parent())+" "+v.Name(), st.Pos(), nil, "%s stores to the field %s of an object that lookups share, without a lock (%s)", c.N(st.Parent()), v.Name(), w)
		}
		if mapWrites[v] {
			c.Bad("shared-field", v.Name(), v.Pos(), nil, "the map in the field %s of an object that lookups share is changed and there's no lock for it", v.Name())
		}
	}
	c.Count("guarded fields", len(guarded))
	// guarded fields are accessed with the lock held
	accesses := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if guarded[fieldVar(fa.X.Type(), fa.Field)] != nil && !freshBase(fa.X) {
						return true
					}
				}
			}
		}
		return false
	}
	// constructors own what they build
	touch := c.P.touches(accesses)
	locks := c.P.touches(func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if a, r, _ := lockOp(calleeKey(ci)); a || r {
				return true
			}
		}
		return false
	})
	analyse := func(f *ssa.Function) {
		pol := &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkgOf(f) && (touch[g] || locks[g] || g.Parent() != nil)
		}, MaxPaths: 200000, Watch: func(v *types.Var) bool { return guarded[v] != nil }}
		for _, p := range c.Run(f, pol) {
			type hl struct {
				l *Term
				m string
			}
			var held []hl
			for _, ev := range p.Events {
				if ev.Kind == "call" {
					a, r, mode := lockOp(ev.Name)
					if a {
						held = append(held, hl{ev.Recv, mode})
					}
					if r {
						for i := len(held) - 1; i >= 0; i-- {
							if held[i].l == ev.Recv && held[i].m == mode {
								held = append(append([]hl{}, held[:i]...), held[i+1:]...)
								break
							}
						}
					}
				}
				// terms that read a guarded field show up in events; stores are events
				var addr *Term
				write := false
				switch ev.Kind {
				case "store":
					addr, write = ev.Addr, true
				case "mapupdate", "mapdelete":
					addr, write = ev.Addr, true
				case "load", "mapread":
					addr = ev.Addr
				case "call":
					if ev.Method != nil && ev.Recv != nil && ev.Recv.Op == "init" {
						addr, write = ev.Recv, isMutator(ev.Method)
						if v := FieldOf(addr.Args[0]); v == nil || !isCollection(v.Type()) {
							addr = nil
						}
					}
				}
				if addr != nil && addr.Op == "init" {
					addr = addr.Args[0]
				}
				if addr != nil && addr.Op == "loopvar" {
					addr = nil
				}
				check := func(addr *Term, write bool) {
					v := FieldOf(addr)
					l := guarded[v]
					if v == nil || l == nil || root(addr).Op == "alloc" {
						return
					}
					base := addr.Args[0]
					ok := false
					for _, h := range held {
						if FieldOf(h.l) == l && h.l.Args[0] == base && (h.m == "w" || !write) {
							ok = true
						}
					}
					c.Count("accesses to guarded fields", 1)
					what := "reads"
					if write {
						what = "changes"
					}
					c.Must(ok, "unlocked", c.N(f)+" "+v.Name()+" "+what, ev.Pos, p, "%s %s the field %s without the lock that guards it", c.N(f), what, v.Name())
				}
				if addr != nil {
					check(addr, write)
				}
			}
		}
	}
	roots, _ := c.staticRoots(accesses)
	for _, f := range roots {
		if f.Synthetic != "" || initOnly[f] {
			continue
		}
		// climb no further than the package that declares the fields
		analyse(f)
	}
	c.Min("guarded fields", 2)
	c.Min("accesses to guarded fields", 4)
	c.Min("values put into shared maps", 3)
	c.Min("stores and changes examined", 30)
}

// isCollection is true for maps and for the mutable collections of dgo
func isCollection(t types.Type) bool {
	if isMapType(t) {
		return true
	}
	return isNamed(t, dgoPkg, "Map") || isNamed(t, dgoPkg, "Array")
}

func allVars(written map[*types.Var][]*ssa.Store, mapWrites map[*types.Var]bool) []*types.Var {
	var out []*types.Var
	for v := range written {
		out = append(out, v)
	}
	for v := range mapWrites {
		if written[v] == nil {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// lookupState describes what a value holds on to that belongs to a single lookup, "" if there's no such thing
func (c *Ctx) lookupState(o *originFinder, v ssa.Value, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	if _, isConst := v.(*ssa.Const); isConst {
		return ""
	}
	t := v.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, isCell := v.(*ssa.Alloc); isCell && c.perLookup(pt.Elem()) {
			return "a " + types.TypeString(pt.Elem(), shortPkg)
		}
	}
	if c.perLookup(t) {
		return "a " + types.TypeString(t, shortPkg)
	}
	all := func(vs ...ssa.Value) string {
		for _, x := range vs {
			if w := c.lookupState(o, x, seen); w != "" {
				return w
			}
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return all(x.Bindings...)
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.MakeInterface:
		return all(x.X)
	case *ssa.ChangeInterface:
		return all(x.X)
	case *ssa.ChangeType:
		return all(x.X)
	case *ssa.Convert:
		return all(x.X)
	case *ssa.TypeAssert:
		return all(x.X)
	case *ssa.Slice:
		return all(x.X)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return all(ta.X)
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.resultState(o, call, x.Index, seen)
		}
	case *ssa.FreeVar:
		for _, mc := range o.makes[x.Parent()] {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					if w := all(mc.Bindings[i]); w != "" {
						return w
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return all(x.X)
		}
	case *ssa.Alloc:
		// what is stored in it
		for _, r := range *x.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr == x {
					if w := all(s.Val); w != "" {
						return w
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				for _, rr := range *s.(ssa.Value).Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == s.(ssa.Value) {
						if w := all(st.Val); w != "" {
							return w
						}
					}
				}
			}
		}
	case *ssa.Call:
		return c.resultState(o, x, 0, seen)
	case *ssa.Parameter:
		k := -1
		for i, p := range x.Parent().Params {
			if p == x {
				k = i
			}
		}
		for _, ci := range o.callers[x.Parent()] {
			cc := ci.Common()
			if !cc.IsInvoke() && k < len(cc.Args) {
				if w := all(cc.Args[k]); w != "" {
					return w
				}
			}
			if cc.IsInvoke() && k > 0 && k-1 < len(cc.Args) {
				if w := all(cc.Args[k-1]); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

// resultState looks into functions of the repository, and into the arguments of those that convert values
func (c *Ctx) resultState(o *originFinder, call *ssa.Call, idx int, seen map[ssa.Value]bool) string {
	f := call.Call.StaticCallee()
	if f != nil && c.P.InRepo(f) {
		f = unwrapFn(c.P, f)
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if w := c.lookupState(o, r.Results[idx], seen); w != "" {
					return w
				}
			}
		}
		return ""
	}
	if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == vfPkg {
		for _, a := range call.Call.Args {
			if w := c.lookupState(o, a, seen); w != "" {
				return w
			}
			// variadic
			if s, ok := a.(*ssa.Slice); ok {
				if w := c.lookupState(o, s.X, seen); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func shortPkg(p *types.Package) string { return p.Name() }
