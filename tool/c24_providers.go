package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C24", Technique: "provenance and report typestate over all paths of data providers (path-sensitive dataflow on SSA), taint of segment names",
		Explain: "On all paths of each data provider, the provider function must be called with a context made of the options of the level, merged with the path of the location unless there is none, and with the first segment (or all segments) of the key; the maps that are kept must be stored and found by the path they were obtained for, and exactly one report must agree with the value returned. Where levels are consulted, a location must be known to exist before it's used, and the ones that don't must be reported. The table of built in functions is extracted from the facts about the name on each path. A segment of a key must not be parsed as a key again.",
		Check:   checkProviders})
}

// providerFn classifies the functions that provide data by their signature
func providerFn(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() == 0 || !isNamed(s.Params().At(0).Type(), sdkPkg, "ProviderContext") || s.Results().Len() != 1 {
		return ""
	}
	switch s.Params().Len() {
	case 1:
		if isNamed(s.Results().At(0).Type(), dgoPkg, "Map") {
			return "data_hash"
		}
	case 2:
		if isNamed(s.Params().At(1).Type(), dgoPkg, "Array") {
			return "data_dig"
		}
		if b, ok := s.Params().At(1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return "lookup_key"
		}
	}
	return ""
}

func returnsProviderFn(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() > 0 && providerFn(r.At(0).Type()) != ""
}

func checkProviders(c *Ctx) {
	for _, f := range c.methods("api", "DataProvider", "LookupKey") {
		c.providerPaths(f)
	}
	c.Min("consultations of a provider", 6)
	c.builtins()
	c.Min("functions selected by name", 4)
	c.Min("functions that are loaded", 3)
	for _, t := range c.ivTypes() {
		if f := c.methodOn(t, "MergeLocations"); f != nil {
			c.locations(f)
		} else {
			c.Anchor("Invocation.MergeLocations")
		}
	}
	c.Min("consultations of a location", 3)
	c.Min("missing locations", 2)
	// no other way to a provider
	for _, f := range c.P.Funcs {
		for _, ci := range calls(f) {
			m := methodOfCall(ci)
			if m == nil || !c.isAPIMethod(m, "DataProvider", "LookupKey") {
				continue
			}
			ok := false
			for _, t := range c.ivTypes() {
				if g := c.methodOn(t, "MergeLocations"); g != nil && (c.funcs[c.N(f)] || outer(f) == g) {
					ok = true
				}
			}
			c.Must(ok, "other-way", c.N(outer(f)), ci.Pos(), nil, "%s consults a provider without looking at its locations", c.N(f))
		}
	}
	c.rootNames()
}

func (c *Ctx) providerPaths(f *ssa.Function) {
	n := c.N(f)
	recv, key, ic, loc := c.paramTermOf(f, 0), c.paramTermOf(f, 1), c.paramTermOf(f, 2), c.paramTermOf(f, 3)
	isRoot := func(t *Term) bool { return c.apiCall(t, "Key", "Root") && t.Args[0] == key }
	paths := c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
		return pkgOf(g) == pkgOf(f) && !returnsProviderFn(g)
	}, NoHavoc: func(ev *Event) bool { return true }})
	for _, p := range paths {
		if p.Exit == "cut" {
			continue
		}
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		if p.Exit == "panic" {
			// no reason to
			bad("fails", "%s fails")
			continue
		}
		c.Count("consultations of a provider", 1)
		facts := p.FactsBefore(len(p.Events))
		noLoc, known := nilFact(facts, loc)
		if !known {
			bad("location", "%s doesn't test if it has a location")
			continue
		}
		isLoc := func(t *Term) bool { return c.apiCall(t, "Location", "Resolved") && t.Args[0] == loc }
		isOpts := func(t *Term) bool {
			own := func(x *Term) bool { return c.apiCall(x, "Entry", "Options") }
			if noLoc {
				return own(t)
			}
			if !isDgo(t, "Merge") || !own(t.Args[0]) {
				return false
			}
			m := t.Args[1]
			if m.Op != "call" || m.CallName() != vfPkg+".Map" {
				return false
			}
			as := m.Args
			if len(as) == 1 && as[0].Op == "slicelit" {
				as = as[0].Args
			}
			if len(as) != 2 {
				return false
			}
			s, ok := as[0].StrConst()
			return ok && s == "path" && isLoc(as[1])
		}
		isCacheKey := func(t *Term) bool {
			if noLoc {
				_, ok := t.StrConst()
				return ok
			}
			return isLoc(t)
		}
		kept := func(t *Term) bool {
			return t != nil && t.Op == "init" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == recv
		}
		// the values that may be found
		found := map[*Term]bool{}
		hashes := map[*Term]bool{}
		asked := 0
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			var kind string
			if ev.IsFn && ev.Callee != nil && ev.Callee.Type != nil {
				kind = providerFn(ev.Callee.Type)
			} else if ev.Fn != nil {
				kind = providerFn(ev.Fn.Signature)
			}
			if kind != "" {
				asked++
				sc := ev.Args[0]
				if !(c.apiCall(sc, "Invocation", "ServerContext") && sc.Args[0] == ic && isOpts(sc.Args[1])) {
					bad("options", "%s doesn't call its function with the options of the level and the path of the location")
				}
				switch kind {
				case "lookup_key":
					if !isRoot(ev.Args[1]) {
						bad("key", "%s doesn't call its function with the first segment of the key")
					}
					found[ev.Res] = true
				case "data_dig":
					a := ev.Args[1]
					ok := a.Op == "call" && a.CallName() == vfPkg+".Values" && len(a.Args) == 1 && c.apiCall(a.Args[0], "Key", "Parts") && a.Args[0].Args[0] == key
					if !ok {
						bad("key", "%s doesn't call its function with the segments of the key")
					}
					found[ev.Res] = true
				default:
					hashes[ev.Res] = true
				}
				continue
			}
			switch {
			case isDgo(ev.Res, "Get") && kept(ev.Recv):
				if !isCacheKey(ev.Args[0]) {
					bad("kept", "%s uses data that was kept for another location")
				}
				if x, k := isaFact(facts, ev.Res, "Map"); k && x {
					hashes[ev.Res] = true
				}
			case isDgo(ev.Res, "Put") && kept(ev.Recv):
				if !isCacheKey(ev.Args[0]) || !hashes[ev.Args[1]] {
					bad("kept", "%s keeps something else than the data of the location")
				}
			case isDgo(ev.Res, "Get") && hashes[ev.Recv]:
				if !isRoot(ev.Args[0]) {
					bad("key", "%s doesn't get the value of the first segment of the key")
				}
				found[ev.Res] = true
			}
		}
		if asked > 1 {
			bad("once", "%s calls its function more than once")
		}
		if asked == 0 && len(hashes) == 0 || len(found) == 0 {
			bad("asked", "%s doesn't call its function")
			continue
		}
		// the value
		v := p.Res
		var src *Term
		for _, t := range []*Term{v, ifCall(c, v, "Invocation", "Interpolate", ic, 1), ifCall(c, v, "Key", "Bury", key, 1)} {
			if t != nil && found[t] {
				src = t
			}
		}
		gone, k := nilFact(facts, v)
		if !k && src != nil && src != v && c.apiCall(v, "Key", "Bury") {
			gone, k = nilFact(facts, src)
		}
		nf, fo := 0, 0
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if c.isAPI(ev, "Invocation", "ReportNotFound") && ev.Recv == ic {
				nf++
				if !(isRoot(ev.Args[0]) || ev.Args[0].Any(func(x *Term) bool { return x == key })) {
					bad("report", "%s reports that something else than what was asked for was not found")
				}
			}
			if c.isAPI(ev, "Invocation", "ReportFound") && ev.Recv == ic {
				fo++
				if ev.Args[1] != v && ev.Args[1] != src || !(isRoot(ev.Args[0]) || ev.Args[0].Any(func(x *Term) bool { return x == key })) {
					bad("report", "%s reports something else than what was found")
				}
			}
		}
		switch {
		case !k:
			bad("report", "%s doesn't test if something was found")
		case gone:
			if fo != 0 || nf != 1 {
				bad("report", "%s doesn't report that nothing was found")
			}
			// really nothing?
			nothing := v != nil && src != nil
			for t := range found {
				if x, k := nilFact(facts, t); k && x {
					nothing = true
				}
			}
			for t, x := range facts {
				if t.Op == "eq" && x && (t.Args[0].IsNil() || t.Args[1].IsNil()) {
					for i := range t.Args {
						if y := ifCall(c, t.Args[i], "Invocation", "Interpolate", ic, 1); y != nil && found[y] {
							nothing = true
						}
					}
				}
			}
			if !nothing {
				bad("value", "%s returns nothing although something was found")
			}
		default:
			if src == nil {
				bad("value", "%s returns something else than what its function found")
			}
			if fo != 1 || nf != 0 {
				bad("report", "%s doesn't report what was found")
			}
		}
	}
}

// ifCall returns the argument with the given index of a call of an api method on a receiver
func ifCall(c *Ctx, t *Term, iface, method string, recv *Term, arg int) *Term {
	if c.apiCall(t, iface, method) && t.Args[0] == recv && len(t.Args) > arg {
		return t.Args[arg]
	}
	return nil
}

var builtinFunctions = map[string]string{"yaml_data": "YamlData", "json_data": "JSONData", "environment": "Environment", "scope": "ScopeLookupKey"}

// builtins checks the functions that find the function of a level
func (c *Ctx) builtins() {
	pkgs := map[*types.Package]bool{}
	for _, f := range c.methods("api", "DataProvider", "LookupKey") {
		pkgs[pkgOf(f)] = true
	}
	for _, f := range c.P.Funcs {
		if !pkgs[pkgOf(f)] || f.Synthetic != "" {
			continue
		}
		if f.Parent() != nil && providerFn(f.Signature) != "" {
			c.wrapper(f)
			continue
		}
		if f.Parent() != nil || !returnsProviderFn(f) {
			continue
		}
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f), NoHavoc: func(ev *Event) bool { return true }}) {
			if p.Exit != "return" {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			r := p.Res
			if r.Op == "tuple" {
				r = r.Args[0]
			}
			// found before
			if r.Op == "init" && r.Args[0].Op == "faddr" {
				gone, k := nilFact(facts, r)
				c.Must(k && !gone, "function", n, f.Pos(), p, "%s returns a function that may not be there", n)
				continue
			}
			name := ""
			if r.Op == "mapget" && c.apiCall(r.Args[1], "Function", "Name") {
				if m, ok := c.globalMap(r.Args[0]); ok {
					for k, v := range m {
						c.Count("functions selected by name", 1)
						g, _ := stripConv(v).(*ssa.Function)
						c.Must(g != nil && builtinFunctions[k] == g.Name() && c.P.relPkg(g) == "provider", "builtin", n+"/"+k, f.Pos(), p, "%s selects the wrong function for the name %s", n, k)
					}
					there := false
					for t, v := range facts {
						there = there || v && t.Op == "mapok" && t.Args[0] == r.Args[0] && t.Args[1] == r.Args[1]
					}
					gone, k := nilFact(facts, r)
					c.Must(there || k && !gone, "function", n, f.Pos(), p, "%s returns a function that may not be there", n)
					continue
				}
			}
			for t, v := range facts {
				if t.Op == "eq" && v {
					for i := range t.Args {
						if s, ok := t.Args[1-i].StrConst(); ok && c.apiCall(t.Args[i], "Function", "Name") {
							name = s
						}
					}
				}
			}
			var load *Event
			for _, ev := range p.Events {
				if ev.Kind == "call" && c.isAPI(ev, "Invocation", "LoadFunction") {
					load = ev
				}
			}
			if name != "" {
				c.Count("functions selected by name", 1)
				want := builtinFunctions[name]
				g := fnOf(r)
				ok := g != nil && want != "" && g.Name() == want && c.P.relPkg(g) == "provider"
				c.Must(ok, "builtin", n+"/"+name, f.Pos(), p, "%s selects the wrong function for the name %s", n, name)
				continue
			}
			if !c.Must(load != nil, "function", n, f.Pos(), p, "%s returns a function that is neither built in nor loaded", n) {
				continue
			}
			c.Count("functions that are loaded", 1)
			okLoad, known := false, false
			for t, v := range facts {
				if t.Op == "ext" && t.Aux == "1" && t.Args[0] == load.Res {
					okLoad, known = v, true
				}
			}
			uses := r.Any(func(x *Term) bool { return x.Op == "ext" && x.Aux == "0" && x.Args[0] == load.Res }) || p.boundTo(r, load.Res)
			if !known {
				c.Bad("function", n, f.Pos(), p, "%s doesn't test if a function was loaded", n)
				continue
			}
			c.Must(okLoad == uses, "loaded", n, f.Pos(), p, "%s doesn't return the function that was loaded for the level", n)
			if !okLoad {
				said := false
				for _, ev := range p.Events {
					said = said || ev.Kind == "call" && c.isAPI(ev, "Invocation", "ReportText")
				}
				c.Must(said, "unresolved", n, f.Pos(), p, "%s doesn't report that a function is unresolved", n)
			}
		}
	}
}

// boundTo is true for a closure with a variable that holds a result of the call
func (p *Path) boundTo(cl, call *Term) bool {
	if cl.Op != "closure" {
		return false
	}
	for _, a := range cl.Args {
		if v := p.St.heap[a]; v != nil && v.Op == "ext" && v.Aux == "0" && v.Args[0] == call {
			return true
		}
	}
	return false
}

// fnOf returns the function that a term refers to
func fnOf(t *Term) *ssa.Function {
	for t != nil && (t.Op == "conv" || t.Op == "closure") && t.Fn == nil && len(t.Args) > 0 {
		t = t.Args[0]
	}
	if t == nil {
		return nil
	}
	return t.Fn
}

// wrapper checks the closures that call a loaded function
func (c *Ctx) wrapper(f *ssa.Function) {
	n := c.N(f)
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit != "return" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		var call *Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && isDgo(ev.Res, "Call") {
				c.Must(call == nil, "called-once", n, ev.Pos, p, "%s calls the loaded function more than once", n)
				call = ev
			}
		}
		if call == nil {
			ok := p.Res.IsNil() || p.Res.Op == "call" && p.Res.CallName() == vfPkg+".Map" && len(p.Res.Args) == 0 || p.Res.Op == "call" && p.Res.CallName() == vfPkg+".Map" && p.Res.Args[0].IsNil()
			bound := false
			for _, fv := range f.FreeVars {
				bound = bound || isNamed(fv.Type(), dgoPkg, "Function")
			}
			c.Must(ok && !bound, "wrapper", n, f.Pos(), p, "%s doesn't call the function that was loaded", n)
			continue
		}
		as := call.Args[0]
		ok := as.Op == "call" && strings.HasPrefix(as.CallName(), vfPkg+".")
		if ok {
			xs := as.Args
			if len(xs) == 1 && xs[0].Op == "slicelit" {
				xs = xs[0].Args
			}
			ok = len(xs) == len(f.Params)
			for i := range xs {
				ok = ok && i < len(f.Params) && isParam(xs[i], f.Params[i])
			}
		}
		c.Must(ok, "wrapper", n, call.Pos, p, "%s doesn't pass on its arguments to the function that was loaded", n)
		isRes := func(t *Term) bool {
			if t.Op != "init" || t.Args[0].Op != "iaddr" || t.Args[0].Args[0] != call.Res {
				return false
			}
			k, ok := t.Args[0].Args[1].IntConst()
			return ok && k == 0
		}
		if isRes(p.Res) {
			continue
		}
		// not a hash
		isM, k := false, false
		for t, v := range facts {
			if t.Op == "isa" && isRes(t.Args[0]) && strings.HasSuffix(t.Aux, "dgo.Map") {
				isM, k = v, true
			}
		}
		c.Must(k && !isM, "wrapper", n, f.Pos(), p, "%s doesn't return what the loaded function returned", n)
	}
}

// locations checks how the locations of a level are consulted
func (c *Ctx) locations(f *ssa.Function) {
	n := c.N(f)
	recv, key, dh := c.paramTermOf(f, 0), c.paramTermOf(f, 1), c.paramTermOf(f, 2)
	isLocs := func(t *Term) bool {
		return c.apiCall(t, "Entry", "Locations") && c.apiCall(t.Args[0], "DataProvider", "Hierarchy") && t.Args[0].Args[0] == dh
	}
	for _, p := range c.Run(f, &Policy{Inline: c.besideInvocation(f), NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string { return "once" }}) {
		if p.Exit != "return" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		var merge, look *Event
		for i, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case c.isAPI(ev, "MergeStrategy", "MergeLookup"):
				merge = ev
				if !isLocs(ev.Args[0]) {
					bad("all-locations", "%s doesn't merge all locations of the level")
				}
			case c.isAPI(ev, "DataProvider", "LookupKey"):
				c.Count("consultations of a location", 1)
				if look != nil {
					bad("once", "%s consults a location more than once")
				}
				look = ev
				if ev.Recv != dh || ev.Args[0] != key || ev.Args[1] != recv {
					bad("arguments", "%s doesn't look up the key that it was given in the level that it was given")
				}
				l := ev.Args[2]
				if l.IsNil() {
					// no locations
					ok := false
					for t, v := range p.FactsBefore(i) {
						if t.Op == "eq" && v {
							for j := range t.Args {
								x := t.Args[j]
								if t.Args[1-j].IsNil() && (isLocs(x) || x.Op == "init" && x.Args[0].Op == "iaddr" && isLocs(x.Args[0].Args[0]) || x.Op == "cbarg") {
									ok = true
								}
							}
						}
					}
					if !ok {
						bad("location", "%s consults a level without using its locations")
					}
					continue
				}
				mine := l.Any(func(x *Term) bool { return x.Op == "cbarg" && merge != nil && x.Args[0] == merge.Res }) || l.Op == "init" && l.Args[0].Op == "iaddr" && isLocs(l.Args[0].Args[0])
				ok := false
				for t, v := range p.FactsBefore(i) {
					if v && c.apiCall(t, "Location", "Exists") && t.Args[0] == l {
						ok = true
					}
				}
				if !mine || !ok {
					bad("exists", "%s consults a location that may not exist")
				}
				if l.Op == "init" {
					// the only one
					k, isC := l.Args[0].Args[1].IntConst()
					lo, hi := lenBounds(facts, isLocs)
					one := lo == 1 && hi == 1
					if !(isC && k == 0 && one) && merge == nil {
						bad("all-locations", "%s doesn't use all locations of the level")
					}
				}
			}
		}
		ts := chase(p, p.Res)
		last := ts[len(ts)-1]
		if look != nil {
			if last != look.Res {
				bad("value", "%s returns something else than what was found")
			}
			continue
		}
		if merge != nil && last == merge.Res {
			continue // nothing to merge
		}
		if !last.IsNil() {
			bad("value", "%s returns a value without consulting the level")
			continue
		}
		missing, empty := false, false
		for t, v := range facts {
			if c.apiCall(t, "Location", "Exists") && !v {
				missing = true
			}
			if t.Op == "eq" && !v {
				for j := range t.Args {
					if t.Args[1-j].IsNil() && isLocs(t.Args[j]) {
						lo, hi := lenBounds(facts, isLocs)
						empty = lo == 0 && hi == 0
					}
				}
			}
		}
		if missing {
			c.Count("missing locations", 1)
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && c.isAPI(ev, "Invocation", "ReportLocationNotFound") {
					n++
				}
			}
			if n != 1 {
				bad("missing", "%s doesn't report that a location doesn't exist")
			}
			continue
		}
		if !empty {
			bad("consulted", "%s doesn't consult the level")
		}
	}
}

// lenBounds returns the least and the greatest length that the facts permit (-1 is unbounded)
func lenBounds(facts map[*Term]bool, is func(*Term) bool) (int64, int64) {
	lo, hi := intBounds(facts, func(t *Term) bool { return t.Op == "len" && is(t.Args[0]) }, 0, math.MaxInt64)
	if hi == math.MaxInt64 {
		hi = -1
	}
	return lo, hi
}

// intBounds returns the least and the greatest value that the facts permit for a number that is known to be within lo and hi
func intBounds(facts map[*Term]bool, is func(*Term) bool, lo, hi int64) (int64, int64) {
	for round := 0; round < 3; round++ {
		for t, v := range facts {
			switch t.Op {
			case "eq":
				for i := range t.Args {
					k, ok := t.Args[1-i].IntConst()
					if !ok || !is(t.Args[i]) {
						continue
					}
					if v {
						lo, hi = k, k
					} else if k == lo {
						lo++
					} else if k == hi {
						hi--
					}
				}
			case "lt":
				if k, ok := t.Args[0].IntConst(); ok && is(t.Args[1]) {
					if v && k+1 > lo {
						lo = k + 1
					} else if !v && k < hi {
						hi = k
					}
				}
				if k, ok := t.Args[1].IntConst(); ok && is(t.Args[0]) {
					if v && k-1 < hi {
						hi = k - 1
					} else if !v && k > lo {
						lo = k
					}
				}
			}
		}
	}
	return lo, hi
}

// rootNames finds segments of keys that are parsed as keys
func (c *Ctx) rootNames() {
	var segment func(v ssa.Value, seen map[ssa.Value]bool) bool
	segment = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		v = stripConv(v)
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			m := methodOfCall(v)
			return m != nil && c.isAPIMethod(m, "Key", "Root")
		case *ssa.Phi:
			for _, e := range v.Edges {
				if segment(e, seen) {
					return true
				}
			}
		case *ssa.TypeAssert:
			return segment(v.X, seen)
		case *ssa.UnOp:
			return segment(v.X, seen)
		case *ssa.IndexAddr:
			if call, ok := stripConv(v.X).(*ssa.Call); ok {
				m := methodOfCall(call)
				return m != nil && c.isAPIMethod(m, "Key", "Parts")
			}
		case *ssa.Alloc:
			if v.Referrers() != nil {
				for _, r := range *v.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) && segment(st.Val, seen) {
						return true
					}
				}
			}
		case *ssa.FreeVar:
			for _, b := range bindings(v) {
				if segment(b, seen) {
					return true
				}
			}
		case *ssa.Parameter:
			f := v.Parent()
			idx := -1
			for i, p := range f.Params {
				if p == v {
					idx = i
				}
			}
			if providerFn(f.Signature) == "lookup_key" && idx == 1 {
				return true
			}
			for _, g := range c.P.Funcs {
				for _, ci := range calls(g) {
					if ci.Common().StaticCallee() == f && segment(ci.Common().Args[idx], seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range c.P.Funcs {
		for _, ci := range calls(f) {
			if calleeKey(ci) != c.P.Mod+"/api.NewKey" {
				continue
			}
			c.Count("keys that are parsed", 1)
			c.Must(!segment(ci.Common().Args[0], map[ssa.Value]bool{}), "parsed-again", c.N(outer(f)), ci.Pos(), nil, "%s parses a segment of a key as if it was a key", c.N(f))
		}
	}
	c.Min("keys that are parsed", 3)
}
