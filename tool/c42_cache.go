package main

import (
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C42", Technique: "disjointness of the key spaces of each cache, and agreement of the types kept and taken (path-sensitive dataflow on SSA)",
		Explain: "The key of each operation on a shared cache, on all paths, is a constant or a constant prefix and the rest. All such texts used with the same cache must differ in a way that no two of them can be equal, and what is kept under one must have the type that those who look it up take it for.",
		Check:   checkCacheKeys})
}

type cacheUse struct {
	tmpl         string
	keeps, finds bool
	f            *ssa.Function
	ev           *Event
	p            *Path
}

func isCacheOp(name string) bool {
	switch name {
	case "(sync.Map).Load", "(sync.Map).Store", "(sync.Map).LoadOrStore", "(sync.Map).LoadAndDelete", "(sync.Map).Delete", "(sync.Map).Swap":
		return true
	}
	return false
}

func checkCacheKeys(c *Ctx) {
	uses := map[string][]cacheUse{}
	direct := func(f *ssa.Function) bool {
		for _, g := range append(closuresOf(f), f) {
			for _, ci := range calls(g) {
				if isCacheOp(calleeKey(ci)) {
					return true
				}
				if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "ServerContext", "Cache", "CachedValue") {
					return true
				}
			}
		}
		return false
	}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || !direct(f) {
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: c.besideInvocation(f), Sync: func(ev *Event, a *Term) string { return "once" }}) {
			if p.Exit == "cut" {
				continue
			}
			parts := map[string]*Term{}
			for _, ev := range p.Events {
				if ev.Kind != "call" || len(ev.Args) == 0 {
					continue
				}
				store := ""
				switch {
				case isCacheOp(ev.Name):
					r := stripTyped(ev.Recv)
					switch {
					case r == nil:
					case r.Op == "call" && r.Ev != nil && r.Ev.Method != nil:
						store = r.Ev.Method.Name()
					case FieldOf(r) != nil:
						store = FieldOf(r).Name()
					case r.Op == "init" && FieldOf(r.Args[0]) != nil:
						store = FieldOf(r.Args[0]).Name()
					case r.Op == "global":
						store = r.Aux
					}
				case c.isAPI(ev, "ServerContext", "Cache") || c.isAPI(ev, "ServerContext", "CachedValue"):
					store = "context"
				}
				if store == "" {
					continue
				}
				key := stripTyped(ev.Args[0])
				tm, vs := template(key)
				if tm == "{}" && c.forwards(f, vs[0]) {
					continue // the key is chosen by the caller
				}
				if tm == "{}" {
					if s, ok := c.globalText(vs[0]); ok {
						tm, vs = s, nil
					}
				}
				u := cacheUse{tmpl: tm, f: f, ev: ev, p: p}
				u.keeps = len(ev.Args) > 1
				u.finds = !u.keeps && !strings.HasSuffix(ev.Name, ".Delete") || strings.HasSuffix(ev.Name, ".LoadOrStore")
				if len(vs) == 1 {
					if v := parts[store+tm]; v != nil {
						c.Must(v == vs[0], "same", c.N(f)+" "+tm, ev.Pos, p, "%s keeps something as %q and looks something else up", c.N(f), tm)
					}
					parts[store+tm] = vs[0]
					if x := (*Term)(nil); u.keeps {
						x = stripTyped(ev.Args[1])
						if x.Op == "call" && store != "context" {
							c.Must(x.Any(func(y *Term) bool { return y == vs[0] }), "made of", c.N(f)+" "+tm, ev.Pos, p, "%s keeps something under a key that it doesn't depend on", c.N(f))
						}
					}
				}
				c.Count("uses of caches", 1)
				uses[store] = append(uses[store], u)
			}
		}
	}
	for store, us := range uses {
		ts := map[string]cacheUse{}
		for _, u := range us {
			o := ts[u.tmpl]
			u.keeps, u.finds = u.keeps || o.keeps, u.finds || o.finds
			ts[u.tmpl] = u
		}
		var names []string
		for t := range ts {
			names = append(names, t)
		}
		sort.Strings(names)
		for i, a := range names {
			for _, b := range names[i+1:] {
				u := ts[b]
				c.Must(apart(a, b), "keys", store+" "+a+" "+b, u.ev.Pos, u.p, "what is cached as %q can be taken for what is cached as %q", a, b)
			}
			u := ts[a]
			c.Count("kinds of cached things", 1)
			c.Must(u.keeps, "kept", store+" "+a, u.ev.Pos, u.p, "something is looked up as %q, but nothing is kept as such", a)
			c.Must(u.finds, "found", store+" "+a, u.ev.Pos, u.p, "something is kept as %q, but never looked up", a)
		}
	}
	c.Min("uses of caches", 6)
	c.Min("kinds of cached things", 4)
}

// apart tests if two texts with unknown parts always differ
func apart(a, b string) bool {
	pre := func(s string) (string, bool) {
		if i := strings.Index(s, "{}"); i >= 0 {
			return s[:i], true
		}
		return s, false
	}
	pa, va := pre(a)
	pb, vb := pre(b)
	switch {
	case !va && !vb:
		return a != b
	case !va:
		return !strings.HasPrefix(pa, pb)
	case !vb:
		return !strings.HasPrefix(pb, pa)
	}
	return !strings.HasPrefix(pa, pb) && !strings.HasPrefix(pb, pa)
}

// forwards tests if a key is a parameter of a method that serves callers with keys of their own, or of a helper that is judged as part of its callers
func (c *Ctx) forwards(f *ssa.Function, key *Term) bool {
	if f.Object() != nil && f.Signature.Recv() != nil && c.isAPIMethod(asFunc(f), "ServerContext", f.Name()) {
		return true
	}
	return f.Object() != nil && !f.Object().Exported() && key.Any(func(x *Term) bool { return x.Op == "param" })
}

// globalText returns the text that a variable is initialized with and keeps
func (c *Ctx) globalText(t *Term) (string, bool) {
	if t == nil || t.Op != "init" || len(t.Args) == 0 {
		return "", false
	}
	g, ok := t.Args[0].Val.(*ssa.Global)
	if !ok {
		return "", false
	}
	sts := c.globalStores(g)
	if len(sts) != 1 {
		return "", false
	}
	k, ok := sts[0].Val.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}
