package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C22", Technique: "provenance of what a context stores, returns and forwards, over all paths (path-sensitive dataflow on SSA)",
		Explain: "A context that an invocation creates holds that invocation and the options given. Interpolate and Explain hand over their argument to that invocation. On each path of the caching methods exactly the given value is stored with the given name in the cache of the session's lookup functions, and the value returned is the one that this cache held for the name, or else none. The caches of a session are its own and differ from each other.",
		Check:   checkContext})
}

func checkContext(c *Ctx) {
	for _, t := range c.role("api", "ServerContext", 1) {
		iv := c.getterField(t, "Invocation")
		if iv == nil {
			c.Bad("invocation", t.String()+".Invocation", 0, nil, "Invocation doesn't return the invocation that the context was created for")
			continue
		}
		c.contextForwards(t, iv)
		c.contextCache(t, iv)
	}
	c.contextMade()
	c.sessionCaches()
	c.Min("values stored in the cache", 4)
	c.Min("values from the cache", 4)
	c.Min("contexts made", 1)
	c.Min("caches of a session", 2)
}

// isInvocationOf tests if the term is the invocation of the context that is the receiver
func isInvocationOf(t *Term, iv *types.Var) bool {
	t = stripTyped(t)
	return t != nil && t.Op == "init" && FieldOf(t.Args[0]) == iv && t.Args[0].Args[0].Op == "param"
}

func (c *Ctx) contextForwards(t types.Type, iv *types.Var) {
	for name, to := range map[string]string{"Interpolate": "Interpolate", "Explain": "ReportText"} {
		f := c.methodOn(t, name)
		if f == nil {
			c.Anchor("ServerContext." + name)
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: c.besideInvocation(f)}) {
			if p.Exit != "return" {
				continue
			}
			c.Count("values handed over", 1)
			var evs []*Event
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Recv != nil && isInvocationOf(ev.Recv, iv) && ev.Method != nil && ev.Method.Name() == to {
					evs = append(evs, ev)
				}
			}
			arg := c.paramTermOf(f, 1)
			ok := len(evs) == 1 && len(evs[0].Args) > 0 && stripTyped(evs[0].Args[0]) == arg
			if ok && name == "Interpolate" {
				ok = stripTyped(p.Res) == evs[0].Res
				if b, isB := evs[0].Args[1].BoolConst(); !isB || !b {
					ok = false
				}
			}
			c.Must(ok, "forward", c.N(f), f.Pos(), p, "%s doesn't hand over its argument, once, to %s of its invocation and return the result", c.N(f), to)
		}
	}
}

// isCacheOf tests if the term is the cache for the lookup functions of the session of the context
func (c *Ctx) isCacheOf(t *Term, iv *types.Var) bool {
	t = stripTyped(t)
	return t != nil && t.Op == "call" && len(t.Args) == 1 && strings.HasSuffix(t.CallName(), ").TopProviderCache") && isInvocationOf(t.Args[0], iv)
}

func (c *Ctx) contextCache(t types.Type, iv *types.Var) {
	type use struct {
		store, load    bool
		key, val, prev *Term // prev: what the cache held
		held           *Term // fact that tells whether it held a value
	}
	uses := func(p *Path, evs []*Event) (us []*use, bad *Event) {
		for _, ev := range evs {
			if ev.Kind != "call" || ev.Recv == nil || !c.isCacheOf(ev.Recv, iv) {
				continue
			}
			u := &use{}
			switch ev.Name {
			case "(sync.Map).Store":
				u.store, u.key, u.val = true, ev.Args[0], ev.Args[1]
			case "(sync.Map).Swap", "(sync.Map).LoadOrStore":
				u.key, u.val = ev.Args[0], ev.Args[1]
				u.prev, u.held = c.extOf(p, ev.Res, 0), c.extOf(p, ev.Res, 1)
				u.store, u.load = true, true
			case "(sync.Map).Load":
				u.key, u.load = ev.Args[0], true
				u.prev, u.held = c.extOf(p, ev.Res, 0), c.extOf(p, ev.Res, 1)
			case "(sync.Map).Range":
				continue
			default:
				return nil, ev
			}
			us = append(us, u)
		}
		return us, nil
	}
	many := func(ev *Event, a *Term) string {
		if ev.Name == "(sync.Map).Range" || ev.Method != nil && strings.HasPrefix(ev.Method.Name(), "Each") {
			return "many"
		}
		return ""
	}
	method := func(name string) (*ssa.Function, []*Path) {
		f := c.methodOn(t, name)
		if f == nil {
			c.Anchor("ServerContext." + name)
			return nil, nil
		}
		ps := c.Run(f, &Policy{Inline: c.besideInvocation(f), Sync: many})
		var r []*Path
		for _, p := range ps {
			if p.Exit == "return" {
				r = append(r, p)
			}
		}
		return f, r
	}
	known := func(p *Path, u *use) (held, ok bool) {
		if u.held == nil {
			return false, false
		}
		return p.St.decide(u.held)
	}

	// Cache: the value is in the cache afterwards; the result is what was there before
	if f, ps := method("Cache"); f != nil {
		for _, p := range ps {
			key, val := c.paramTermOf(f, 1), c.paramTermOf(f, 2)
			us, bad := uses(p, p.Events)
			stored, loads := false, 0
			var prev *use
			ok := bad == nil
			for _, u := range us {
				if stripTyped(u.key) != key {
					ok = false
				}
				if u.load {
					loads++
					if loads == 1 && !stored {
						prev = u
					}
				}
				if u.store {
					if stripTyped(u.val) != val {
						ok = false
					}
					if u.load && u.held != nil {
						// LoadOrStore stores only when nothing was held
						held, isKnown := known(p, u)
						if !isKnown || !held {
							stored = true
						}
						for _, ev := range p.Events {
							if ev.Kind == "call" && ev.Name == "(sync.Map).Swap" && ev.Args[0] == u.key {
								stored = true
							}
						}
						if !isKnown {
							stored = false
						}
					} else {
						stored = true
					}
				}
			}
			c.Count("values stored in the cache", 1)
			c.Must(ok && stored, "cache-store", c.N(f), f.Pos(), p, "%s returns without having stored the given value with the given name", c.N(f))
			if prev == nil {
				c.Bad("cache-result", c.N(f), f.Pos(), p, "%s doesn't ask what the cache held before it stores a value", c.N(f))
				continue
			}
			held, isKnown := known(p, prev)
			r := stripTyped(p.Res)
			switch {
			case isKnown && held:
				ok = r == stripTyped(prev.prev)
			case isKnown:
				ok = p.Res.IsNil()
			default:
				ok = r == stripTyped(prev.prev)
			}
			c.Count("values from the cache", 1)
			c.Must(ok, "cache-result", c.N(f), f.Pos(), p, "%s doesn't return the value that the cache held before", c.N(f))
		}
	}

	// CacheAll: each entry is stored under its key
	if f, ps := method("CacheAll"); f != nil {
		n := 0
		for _, p := range ps {
			us, bad := uses(p, p.Events)
			runs := 0
			var entries []*Term
			for _, ev := range p.Events {
				if ev.Kind == "callback" {
					runs++
					entries = append(entries, ev.Args...)
				}
			}
			ok := bad == nil
			for _, u := range us {
				n++
				k, v := entryOf(u.key, "Key"), entryOf(u.val, "Value")
				if !u.store || u.load || k == nil || k != v {
					ok = false
				}
			}
			c.Count("values stored in the cache", len(us))
			c.Must(ok && len(us) >= runs, "cache-all", c.N(f), f.Pos(), p, "%s doesn't store the value of each entry with the text of its key", c.N(f))
		}
		c.Must(n > 0, "cache-all", c.N(f), f.Pos(), nil, "%s stores no values", c.N(f))
	}

	// CachedValue: the value held and whether there is one
	if f, ps := method("CachedValue"); f != nil {
		for _, p := range ps {
			us, bad := uses(p, p.Events)
			ok := bad == nil && len(us) == 1 && us[0].load && !us[0].store && stripTyped(us[0].key) == c.paramTermOf(f, 1) && p.Res.Op == "tuple"
			if ok {
				held, isKnown := known(p, us[0])
				v, is := p.Res.Args[0], p.Res.Args[1]
				b, isB := p.St.decide(is)
				switch {
				case is == us[0].held:
					ok = isKnown && !held && v.IsNil() || stripTyped(v) == stripTyped(us[0].prev) || isNilable(v, us[0].prev)
				case isKnown && held:
					ok = isB && b && stripTyped(v) == stripTyped(us[0].prev)
				case isKnown:
					ok = isB && !b
				default:
					ok = false
				}
			}
			c.Count("values from the cache", 1)
			c.Must(ok, "cached-value", c.N(f), f.Pos(), p, "%s doesn't return the value that the cache holds for the given name and whether there is one", c.N(f))
		}
	}

	// CachedEntries: all that is held
	if f, ps := method("CachedEntries"); f != nil {
		n := 0
		for _, p := range ps {
			over := false
			var cur []*Term
			told := 0
			ok := true
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "call" && ev.Name == "(sync.Map).Range" && c.isCacheOf(ev.Recv, iv):
					over = true
				case ev.Kind == "callback":
					cur, told = nil, 0
					for _, a := range ev.Args {
						if a.Op == "cbarg" {
							cur = append(cur, a)
						}
					}
				case ev.Kind == "call" && ev.IsFn && cur != nil:
					told++
					n++
					if len(cur) != 2 || len(ev.Args) != 2 || ev.Callee != c.paramTermOf(f, 1) || stripTyped(ev.Args[0]) != cur[0] || stripTyped(ev.Args[1]) != cur[1] {
						ok = false
					}
				case ev.Kind == "callbackret":
					if told != 1 {
						ok = false
					}
					cur = nil
					if ev.Val != nil {
						if b, isB := ev.Val.BoolConst(); !isB || !b {
							ok = false
						}
					}
				}
			}
			c.Count("values from the cache", 1)
			c.Must(over && ok, "cached-entries", c.N(f), f.Pos(), p, "%s doesn't hand over each name and value in the cache once", c.N(f))
		}
		c.Must(n > 0, "cached-entries", c.N(f), f.Pos(), nil, "%s hands over nothing", c.N(f))
	}
}

// isNilable tests if v is the checked conversion of prev (nil when there was nothing)
func isNilable(v, prev *Term) bool {
	v = stripTyped(v)
	return v != nil && v.Op == "ext" && v.Aux == "0" && stripTyped(v.Args[0]) == stripTyped(prev)
}

// entryOf returns the entry whose key or value (or the text thereof) the term is
func entryOf(t *Term, method string) *Term {
	for d := 0; d < 4 && t != nil; d++ {
		t = stripTyped(t)
		if t == nil || t.Op != "call" || len(t.Args) != 1 {
			return nil
		}
		switch nm := t.CallName(); {
		case strings.HasSuffix(nm, ".MapEntry)."+method):
			return t.Args[0]
		case method == "Key" && (strings.HasSuffix(nm, ").String") || strings.HasSuffix(nm, ").GoString")):
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// contextMade checks the contexts that invocations create
func (c *Ctx) contextMade() {
	for _, t := range c.ivTypes() {
		f := c.methodOn(t, "ServerContext")
		if f == nil {
			c.Anchor("Invocation.ServerContext")
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if p.Exit != "return" {
				continue
			}
			c.Count("contexts made", 1)
			r := stripTyped(p.Res)
			s := structOf(r.Type)
			ok := r.Op == "alloc" && s != nil
			niv, nopt := 0, 0
			for i := 0; ok && i < s.NumFields(); i++ {
				v := s.Field(i)
				val := stripTyped(p.St.heap[p.St.faddr(r, v)])
				switch {
				case isNamed(v.Type(), c.P.Mod+"/api", "Invocation"):
					niv++
					ok = val != nil && val == c.paramTermOf(f, 0)
				case isNamed(v.Type(), sdkPkg, "ProviderContext"):
					nopt++
					ok = val != nil && val.Op == "call" && val.CallName() == sdkPkg+".ProviderContextFromMap" && stripTyped(val.Args[0]) == c.paramTermOf(f, 1)
				}
			}
			c.Must(ok && niv == 1 && nopt == 1, "context", c.N(f), f.Pos(), p, "the context made by %s isn't one for this invocation and the given options", c.N(f))
		}
	}
}

// sessionCaches checks that each cache is created with its session and for one purpose
func (c *Ctx) sessionCaches() {
	for _, t := range c.role("api", "Session", 1) {
		if namedOf(t) == nil || c.methodOn(t, "SharedCache") == nil {
			continue
		}
		slots := map[string]string{}
		for _, name := range []string{"SharedCache", "TopProviderCache"} {
			f := c.methodOn(t, name)
			if f == nil || f.Synthetic != "" || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != namedOf(t) {
				continue // inherited
			}
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
				if p.Exit != "return" {
					continue
				}
				k := slotOf(p.Res)
				if !c.Must(k != "" && (slots[name] == "" || slots[name] == k), "cache-own", c.N(f), f.Pos(), p, "%s doesn't return what is stored for this purpose in the session", c.N(f)) {
					return
				}
				slots[name] = k
			}
		}
		if len(slots) == 0 {
			continue
		}
		c.Must(slots["SharedCache"] != slots["TopProviderCache"], "cache-own", t.String(), namedOf(t).Obj().Pos(), nil, "the cache of lookup functions is also the cache of configurations and data")
		// where sessions are made
		for _, f := range c.P.topFuncs() {
			if f.Synthetic != "" || !makes(f, namedOf(t)) {
				continue
			}
			inline := func(g *ssa.Function) bool {
				if g.Parent() != nil && outer(g) == f {
					return true
				}
				rs := g.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					_, isMap := rs.At(i).Type().Underlying().(*types.Map)
					if pkgOf(g) == pkgOf(f) && (isMap || isNamedPtr(rs.At(i).Type(), "sync", "Map") || namedOf(rs.At(i).Type()) == namedOf(t)) {
						return true
					}
				}
				return false
			}
			for _, p := range c.Run(f, &Policy{Inline: inline}) {
				if p.Exit != "return" || p.Res == nil {
					continue
				}
				s := stripTyped(p.Res)
				if s.Op != "alloc" || namedOf(s.Type) != namedOf(t) {
					continue
				}
				seen := map[*Term]bool{}
				for _, name := range []string{"SharedCache", "TopProviderCache"} {
					v := slotValue(p, s, slots[name])
					c.Count("caches of a session", 1)
					c.Must(v != nil && v.Op == "alloc" && !seen[v], "cache-own", c.N(f)+" "+name, f.Pos(), p, "the value of %s isn't a cache created for this session and this purpose alone", name)
					if v != nil {
						seen[v] = true
					}
				}
			}
		}
	}
}

// makes tests if the function allocates a struct of the given type
func makes(f *ssa.Function, n *types.Named) bool {
	for _, g := range f.AnonFuncs {
		if makes(g, n) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Heap && namedOf(a.Type()) == n {
				return true
			}
		}
	}
	return false
}

// slotOf identifies where in its receiver a getter finds its result: a field, or a key of a map in a field
func slotOf(t *Term) string {
	for d := 0; d < 6 && t != nil; d++ {
		switch {
		case t.Op == "typed" || t.Op == "conv":
			t = t.Args[0]
		case t.Op == "ext" && t.Aux == "0":
			t = t.Args[0]
		case t.Op == "init" && FieldOf(t.Args[0]) != nil && t.Args[0].Args[0].Op == "param":
			return "field " + FieldOf(t.Args[0]).Name()
		case t.Op == "mapget":
			k, ok := stripTyped(t.Args[1]).StrConst()
			m := slotOf(t.Args[0])
			if !ok || m == "" {
				return ""
			}
			return m + " key " + k
		default:
			return ""
		}
	}
	return ""
}

// slotValue returns what is stored there at the end of a path
func slotValue(p *Path, s *Term, slot string) *Term {
	st := structOf(s.Type)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		val := stripTyped(p.St.heap[p.St.faddr(s, v)])
		if slot == "field "+v.Name() {
			return val
		}
		if strings.HasPrefix(slot, "field "+v.Name()+" key ") {
			k := strings.TrimPrefix(slot, "field "+v.Name()+" key ")
			var r *Term
			for _, ev := range p.Events {
				if ev.Kind == "mapupdate" && stripTyped(ev.Recv) == val || ev.Kind == "mapupdate" && ev.Addr == val {
					if kk, ok := stripTyped(ev.Args[0]).StrConst(); ok && kk == k {
						r = stripTyped(ev.Val)
					}
				}
			}
			return r
		}
	}
	return nil
}
