package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C13", Technique: "constant and flag propagation to all interpolations (interprocedural) and guard analysis of lookups (path-sensitive dataflow on SSA)",
		Explain: "Every call that interpolates, made by a function of the package that implements hierarchy entries and locations, must pass the constant false as the permission to use methods (parameters are followed to all callers). In each implementation of the interpolating methods, each nested interpolation must pass on the permission or false, and a lookup must only happen on paths where the permission is known to be given.",
		Check:   checkMethodsAllowed})
	register(&Rule{ID: "C14", Technique: "decision table extraction over all paths of the interpolation (path-sensitive dataflow on SSA) and language equivalence of its patterns",
		Explain: "On all paths through the interpolation of an expression, the facts about the name of the method decide what the text must be replaced with, and which paths must panic. The patterns that split expressions must accept the same language as the documented ones. Each element of an array, and each key and value of a hash, must be interpolated and the result stored in its place; a value without expressions is returned unchanged.",
		Check:   checkInterpolation})
}

var interpolating = []string{"Interpolate", "InterpolateString", "InterpolateInScope"}

func checkMethodsAllowed(c *Ctx) {
	// configuration
	pkgs := map[*types.Package]bool{}
	for _, i := range []string{"Entry", "Location", "Function", "Config"} {
		for _, t := range c.role("api", i, 1) {
			if n := namedOf(t); n != nil {
				pkgs[n.Obj().Pkg()] = true
			}
		}
	}
	var isFalse func(v ssa.Value, d int) bool
	isFalse = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && v.Value.Kind() == constant.Bool && !constant.BoolVal(v.Value)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if e != ssa.Value(v) && !isFalse(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.FreeVar:
			ok, n := true, 0
			for _, b := range bindings(v) {
				n++
				ok = ok && isFalse(b, d+1)
			}
			return ok && n > 0
		case *ssa.Parameter:
			f := v.Parent()
			idx := -1
			for i, p := range f.Params {
				if p == v {
					idx = i
				}
			}
			n := 0
			for _, g := range c.P.Funcs {
				for _, ci := range calls(g) {
					if ci.Common().StaticCallee() == f {
						n++
						if !isFalse(ci.Common().Args[idx], d+1) {
							return false
						}
					}
				}
			}
			return n > 0 && (f.Object() == nil || !f.Object().Exported())
		}
		return false
	}
	for _, f := range c.P.Funcs {
		if !pkgs[pkgOf(f)] || f.Synthetic != "" {
			continue
		}
		c.funcs[c.N(f)] = true
		for _, ci := range calls(f) {
			m := methodOfCall(ci)
			if m == nil {
				if k := calleeKey(ci); strings.HasPrefix(k, c.P.Mod+"/hiera.Lookup") {
					c.Bad("lookup", c.N(f), ci.Pos(), nil, "%s looks up a value while configuration is resolved", c.N(f))
				}
				continue
			}
			switch {
			case c.isAPIMethod(m, "Invocation", interpolating...):
				c.Count("interpolations in configuration", 1)
				as := ci.Common().Args
				c.Must(isFalse(as[len(as)-1], 0), "config-methods", c.N(f), ci.Pos(), nil, "%s permits methods in an interpolation in the configuration", c.N(f))
			case c.isAPIMethod(m, "Invocation", "Lookup"):
				c.Bad("lookup", c.N(f), ci.Pos(), nil, "%s looks up a value while configuration is resolved", c.N(f))
			case c.isAPIMethod(m, "ServerContext", "Interpolate"):
				c.Bad("config-methods", c.N(f), ci.Pos(), nil, "%s permits methods in an interpolation in the configuration", c.N(f))
			}
		}
	}
	c.Min("interpolations in configuration", 5)
	// the implementation
	for _, t := range c.ivTypes() {
		c.permission(t)
	}
	c.Min("nested interpolations", 3)
	c.Min("lookups in interpolations", 1)
}

// bindings returns the values that a free variable is bound to
func bindings(v *ssa.FreeVar) (vs []ssa.Value) {
	f := v.Parent()
	idx := -1
	for i, fv := range f.FreeVars {
		if fv == v {
			idx = i
		}
	}
	if f.Parent() == nil || idx < 0 {
		return
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				vs = append(vs, mc.Bindings[idx])
			}
		}
	}
	return
}

// interpolators returns the functions that interpolate for an invocation, with their permission parameter
func (c *Ctx) interpolators(t types.Type) map[*ssa.Function]*ssa.Parameter {
	fs := map[*ssa.Function]*ssa.Parameter{}
	var work []*ssa.Function
	for _, m := range interpolating {
		if f := c.methodOn(t, m); f != nil {
			work = append(work, f)
		} else {
			c.Anchor("Invocation." + m)
		}
	}
	for _, f := range work {
		fs[f] = f.Params[len(f.Params)-1]
	}
	seen := map[*ssa.Function]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, g := range append(closuresOf(f), f) {
			for _, ci := range calls(g) {
				h := ci.Common().StaticCallee()
				if h == nil || pkgOf(h) != pkgOf(f) || h.Parent() != nil || len(h.Blocks) == 0 || len(h.Params) == 0 || fs[h] != nil || !c.besideInvocation(f)(h) {
					continue
				}
				// recursive functions are analysed on their own
				last := h.Params[len(h.Params)-1]
				if b, ok := last.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && c.recursive(h, fs) {
					fs[h] = last
				}
				work = append(work, h)
			}
		}
	}
	return fs
}

// recursive is true for functions that call themselves, also from closures, but not by way of the given functions
func (c *Ctx) recursive(f *ssa.Function, not map[*ssa.Function]*ssa.Parameter) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, h := range append(closuresOf(g), g) {
			for _, ci := range calls(h) {
				s := ci.Common().StaticCallee()
				if s == nil || pkgOf(s) != pkgOf(f) || s.Parent() != nil {
					continue
				}
				if s == f || not[s] == nil && visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}

func (c *Ctx) permission(t types.Type) {
	fs := c.interpolators(t)
	var sorted []*ssa.Function
	for f := range fs {
		sorted = append(sorted, f)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].Pos() < sorted[j].Pos() })
	for _, f := range sorted {
		allow := c.paramTerm(nil, fs[f])
		for _, p := range c.interpolationPaths(f, fs) {
			if p.Exit == "cut" {
				continue
			}
			for i, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				nested := c.isAPI(ev, "Invocation", interpolating...)
				if _, ok := fs[ev.Fn]; ok && ev.Fn != nil {
					nested = true
				}
				switch {
				case nested:
					c.Count("nested interpolations", 1)
					a := ev.Args[len(ev.Args)-1]
					b, isC := a.BoolConst()
					if !isC && a != allow {
						b, isC = p.FactsBefore(i)[allow], true
						isC = isC && a == allow
					}
					c.Must(a == allow || isC && !b || isC && b && p.FactsBefore(i)[allow], "passed-on", c.N(f), ev.Pos, p, "%s doesn't pass on that methods are not permitted", c.N(f))
				case c.isAPI(ev, "Invocation", "Lookup") || ev.IsFn && isLookupKeyType(ev.Callee.Type):
					c.Count("lookups in interpolations", 1)
					c.Must(p.FactsBefore(i)[allow], "lookup-permitted", c.N(f), ev.Pos, p, "%s looks up a value although methods may not be permitted", c.N(f))
				}
			}
		}
	}
}

func (c *Ctx) interpolationPaths(f *ssa.Function, fs map[*ssa.Function]*ssa.Parameter) []*Path {
	return c.Run(f, &Policy{
		Inline: func(g *ssa.Function) bool {
			if _, ok := fs[g]; ok && g != f {
				return false
			}
			return c.besideInvocation(f)(g)
		},
		// closures are run by what they are given to, and by nothing else
		NoHavoc: func(ev *Event) bool { return true },
		Sync: func(ev *Event, a *Term) string {
			if isDgo(ev.Res, "EachEntry") {
				return ""
			}
			return "once"
		},
	})
}

// the documented syntax
const (
	expressionPattern = `%{[^}]*}`
	methodPattern     = `^(\w+)\((?:["]([^"]+)["]|[']([^']+)['])\)$`
)

var emptyExpressions = []string{"", "::", `""`, "''", `"::"`, "'::'"}

func checkInterpolation(c *Ctx) {
	for _, t := range c.ivTypes() {
		fs := c.interpolators(t)
		if f := c.methodOn(t, "InterpolateString"); f != nil {
			c.expressionTable(f, fs)
		}
		if f := c.methodOn(t, "InterpolateInScope"); f != nil {
			c.scopeTable(f, fs)
		}
		if f := c.methodOn(t, "Interpolate"); f != nil {
			c.containers(f, fs)
		}
	}
	c.Min("expressions that are replaced", 10)
	c.Min("variables", 2)
	c.Min("elements that are interpolated", 2)
	c.interpolatedOnce()
}

// expressionTable checks how the expressions in a string are replaced
func (c *Ctx) expressionTable(f *ssa.Function, fs map[*ssa.Function]*ssa.Parameter) {
	n := c.N(f)
	recv, allow := c.paramTermOf(f, 0), c.paramTerm(nil, fs[f])
	str := c.paramTermOf(f, 1)
	for _, p := range c.interpolationPaths(f, fs) {
		if p.Exit == "cut" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		// the call that finds expressions
		var repl *Event
		var text *Term
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(regexp.Regexp).ReplaceAll") {
				repl = ev
			}
			if ev.Kind == "callbackret" && repl != nil && ev.Res == repl.Res {
				text = ev.Val
			}
		}
		var flag *Term
		if p.Exit == "return" && p.Res != nil && len(p.Res.Args) == 2 {
			flag = p.Res.Args[1]
		}
		if repl == nil {
			// nothing to interpolate
			none := false
			for t, v := range facts {
				if t.Op == "call" && t.CallName() == "strings.Contains" && t.Args[0] == str && !v {
					s, ok := t.Args[1].StrConst()
					none = ok && (s == "%{" || s == "%")
				}
			}
			c.Count("strings without expressions", 1)
			if !none || p.Exit != "return" {
				bad("expressions", "%s doesn't interpolate a string although it may have expressions")
				continue
			}
			b, ok := flag.BoolConst()
			if !(ok && !b && isStringOf(p.Res.Args[0], str)) {
				bad("unchanged", "%s changes a string without expressions")
			}
			continue
		}
		if pat, ok := c.patternOf(repl.Recv); ok {
			same, err := sameLanguage(pat, expressionPattern)
			c.Must(same && err == nil, "expressions", n+"/pattern", repl.Pos, nil, "the pattern %s doesn't find expressions", pat)
		} else {
			bad("expressions", "%s uses a pattern that isn't known")
			continue
		}
		if repl.Args[0] != str {
			bad("expressions", "%s doesn't interpolate the string it was given")
			continue
		}
		// the text within the delimiters
		var match, expr *Term
		for _, ev := range p.Events {
			if ev.Kind == "callback" && ev.Res == repl.Res && len(ev.Args) > 0 {
				match = ev.Args[0]
			}
		}
		if match == nil {
			continue // the function was not run
		}
		c.Count("expressions that are replaced", 1)
		isExpr := func(t *Term) bool {
			if t.Op != "call" || t.CallName() != "strings.TrimSpace" || t.Args[0].Op != "slice" || t.Args[0].Args[0] != match {
				return false
			}
			lo, ok := t.Args[0].Args[1].IntConst()
			hi := t.Args[0].Args[2]
			if !ok || lo != 2 || hi.Op != "bin" || hi.Aux != "-" || hi.Args[0].Op != "len" || hi.Args[0].Args[0] != match {
				return false
			}
			k, ok := hi.Args[1].IntConst()
			return ok && k == 1
		}
		var groups *Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(regexp.Regexp).FindStringSubmatch") && len(ev.Args) > 0 && isExpr(ev.Args[0]) {
				groups = ev
				expr = ev.Args[0]
			}
		}
		if groups == nil {
			empty := false
			for t, v := range facts {
				if v && (t.Op == "mapget" || t.Op == "mapok") && isExpr(t.Args[1]) {
					if keys, ok := c.globalKeys(t.Args[0]); ok {
						c.Must(strings.Join(keys, " ") == strings.Join(sortedCopy(emptyExpressions), " "), "empty", n+"/set", f.Pos(), nil, "the set of empty expressions isn't %v", emptyExpressions)
						empty = true
					}
				}
				if v && t.Op == "eq" {
					for i := range t.Args {
						if s, ok := t.Args[1-i].StrConst(); ok && isExpr(t.Args[i]) {
							for _, e := range emptyExpressions {
								empty = empty || e == s
							}
						}
					}
				}
			}
			s, ok := text.StrConst()
			if !empty {
				bad("methods", "%s doesn't look for a method in the expression")
			} else if !ok || s != "" {
				bad("empty", "%s doesn't remove an empty expression")
			}
			continue
		}
		if pat, ok := c.patternOf(groups.Recv); ok {
			same, err := sameLanguage(pat, methodPattern)
			c.Must(same && err == nil, "methods", n+"/pattern", groups.Pos, nil, "the pattern %s doesn't recognize methods", pat)
		} else {
			bad("methods", "%s uses a pattern that isn't known")
			continue
		}
		none, known := nilFact(facts, groups.Res)
		if !known {
			bad("methods", "%s doesn't test if the expression has a method")
			continue
		}
		group := func(t *Term, i int64) bool {
			if t.Op != "init" || t.Args[0].Op != "iaddr" || t.Args[0].Args[0] != groups.Res {
				return false
			}
			k, ok := t.Args[0].Args[1].IntConst()
			return ok && k == i
		}
		isData := func(t *Term) bool {
			if none {
				return t == expr
			}
			if !group(t, 2) && !group(t, 3) {
				return false
			}
			// the third group when the second is empty
			for x, v := range facts {
				if x.Op == "eq" {
					for i := range x.Args {
						if s, ok := x.Args[1-i].StrConst(); ok && s == "" {
							if group(x.Args[i], 2) {
								return v == group(t, 3)
							}
							if group(x.Args[i], 3) {
								return v == group(t, 2)
							}
						}
					}
				}
			}
			return false
		}
		method := "scope"
		if !none {
			if allowed, ok := facts[allow]; !ok || !allowed {
				if !ok || p.Exit != "panic" {
					bad("permission", "%s accepts a method although methods aren't permitted")
				}
				continue
			}
			method = ""
			not := map[string]bool{}
			for x, v := range facts {
				if x.Op != "eq" {
					continue
				}
				for i := range x.Args {
					if s, ok := x.Args[1-i].StrConst(); ok && group(x.Args[i], 1) {
						if v {
							method = s
						} else {
							not[s] = true
						}
					}
				}
			}
			switch method {
			case "alias", "strict_alias", "hiera", "lookup", "literal", "scope":
			case "":
				if p.Exit != "panic" {
					bad("unknown", "%s accepts a method with an unknown name")
				}
				for _, m := range []string{"alias", "strict_alias", "hiera", "lookup", "literal", "scope"} {
					if !not[m] {
						bad("unknown", "%s doesn't accept the method %s", m)
					}
				}
				continue
			default:
				bad("unknown", "%s accepts a method with an unknown name")
				continue
			}
		}
		alias := method == "alias" || method == "strict_alias"
		if alias {
			whole, ok := false, false
			for x, v := range facts {
				if x.Op == "eq" && (x.Args[0] == match && x.Args[1] == str || x.Args[1] == match && x.Args[0] == str) {
					whole, ok = v, true
				}
			}
			if !ok {
				bad("alias", "%s doesn't test if an alias is the entire string")
				continue
			}
			if !whole {
				if p.Exit != "panic" {
					bad("alias", "%s accepts an alias that isn't the entire string")
				}
				continue
			}
		}
		if p.Exit != "return" {
			bad("fails", "%s fails when method %s is used", method)
			continue
		}
		if b, ok := flag.BoolConst(); !ok || !b {
			bad("changed", "%s doesn't tell that it has replaced an expression")
		}
		// the final value
		ts := chase(p, p.Res.Args[0])
		final := ts[len(ts)-1]
		var found *Term
		switch method {
		case "scope":
			for _, ev := range p.Events {
				if ev.Kind == "call" && c.isAPI(ev, "Invocation", "InterpolateInScope") && ev.Recv == recv && isData(ev.Args[0]) {
					found = ev.Res
				}
			}
		case "hiera", "lookup", "alias", "strict_alias":
			for _, ev := range p.Events {
				if ev.Kind == "call" && c.isAPI(ev, "Invocation", "Lookup") && ev.Recv == recv && len(ev.Args) == 2 {
					k := ev.Args[0]
					if k.Op == "call" && k.CallName() == c.P.Mod+"/api.NewKey" && isData(k.Args[0]) {
						found = ev.Res
					}
				}
			}
		}
		if method != "literal" && found == nil {
			bad("method", "%s doesn't find the value that method %s refers to", method)
			continue
		}
		if alias {
			gone, ok := nilFact(facts, final)
			switch {
			case final == found && (method == "strict_alias" || ok && !gone):
			case final == found && !ok || final.IsNil() && method == "alias":
				bad("method", "%s yields nothing for an alias that isn't found")
			case method == "strict_alias":
				if x, k := nilFact(facts, found); !(final.IsNil() && k && x) {
					bad("method", "%s doesn't yield the value of a strict_alias")
				}
			default:
				if x, k := nilFact(facts, found); !(k && x && isEmptyText(final, repl.Res, text)) {
					bad("method", "%s doesn't yield the value of an alias")
				}
			}
			continue
		}
		if !isStringOf(final, repl.Res) {
			bad("result", "%s doesn't yield the string with replaced expressions")
			continue
		}
		if method == "literal" {
			if !isData(text) {
				bad("method", "%s doesn't yield the text of a literal")
			}
			continue
		}
		gone, ok := nilFact(facts, found)
		if !ok {
			bad("method", "%s doesn't test if a value was found")
			continue
		}
		s, isC := text.StrConst()
		if gone && !(isC && s == "") || !gone && !isTextOf(text, found) {
			bad("method", "%s doesn't replace an expression with method %s by the value that it refers to", method)
		}
	}
}

func sortedCopy(s []string) []string {
	c := append([]string{}, s...)
	sort.Strings(c)
	return c
}

// isStringOf is true for the value made of a string
func isStringOf(t, s *Term) bool {
	return t != nil && t.Op == "call" && t.CallName() == vfPkg+".String" && t.Args[0] == s
}

func isEmptyText(t, repl, text *Term) bool {
	if t == nil || t.Op != "call" || t.CallName() != vfPkg+".String" {
		return false
	}
	if s, ok := t.Args[0].StrConst(); ok {
		return s == ""
	}
	s, ok := text.StrConst()
	return t.Args[0] == repl && ok && s == ""
}

// isTextOf is true for the text of a value
func isTextOf(t, v *Term) bool {
	return t.Op == "call" && len(t.Args) >= 1 && t.Args[0] == v && strings.HasSuffix(t.CallName(), ".String")
}

// globalMap returns the entries of a map that is a package variable
func (c *Ctx) globalMap(t *Term) (map[string]ssa.Value, bool) {
	if len(t.Args) == 0 {
		return nil, false
	}
	g, ok := t.Args[0].Val.(*ssa.Global)
	if !ok {
		return nil, false
	}
	sts := c.globalStores(g)
	if len(sts) != 1 {
		return nil, false
	}
	mm, ok := sts[0].Val.(*ssa.MakeMap)
	if !ok || mm.Referrers() == nil {
		return nil, false
	}
	m := map[string]ssa.Value{}
	for _, r := range *mm.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok {
			k, ok := mu.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				return nil, false
			}
			m[constant.StringVal(k.Value)] = mu.Value
		}
	}
	return m, true
}

// globalKeys returns the sorted keys of a map that is a package variable
func (c *Ctx) globalKeys(t *Term) ([]string, bool) {
	m, ok := c.globalMap(t)
	keys := []string{}
	for k, v := range m {
		if b, ok := v.(*ssa.Const); ok && b.Value != nil && b.Value.Kind() == constant.Bool && !constant.BoolVal(b.Value) {
			continue
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys, ok
}

// scopeTable checks how a variable is found
func (c *Ctx) scopeTable(f *ssa.Function, fs map[*ssa.Function]*ssa.Parameter) {
	n := c.N(f)
	recv, expr := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
	for _, p := range c.interpolationPaths(f, fs) {
		if p.Exit != "return" {
			continue
		}
		c.Count("variables", 1)
		facts := p.FactsBefore(len(p.Events))
		isKey := func(t *Term) bool {
			return t.Op == "call" && t.CallName() == c.P.Mod+"/api.NewKey" && t.Args[0] == expr
		}
		var val *Term
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Get") && len(ev.Args) == 1 {
				a := ev.Args[0]
				if c.apiCall(a, "Key", "Root") && isKey(a.Args[0]) {
					ok := c.apiCall(ev.Recv, "Invocation", "Scope") || ev.Recv.Op == "init" && ev.Recv.Args[0].Op == "faddr" && ev.Recv.Args[0].Args[0] == recv
					if ok {
						val = ev.Res
					}
				}
			}
		}
		if val == nil {
			c.Bad("variable", n, f.Pos(), p, "%s doesn't get the variable that the first segment names from the scope", n)
			continue
		}
		gone, k := nilFact(facts, val)
		ts := chase(p, p.Res)
		r := ts[len(ts)-1]
		switch {
		case r.IsNil():
			c.Must(k && gone, "variable", n, f.Pos(), p, "%s yields nothing although the variable has a value", n)
		case c.apiCall(r, "Key", "Dig"):
			x := r.Args[2]
			if x.Op == "ext" && x.Aux == "0" {
				x = x.Args[0]
			}
			ok := false
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Res == x && len(ev.Args) == 2 && ev.Args[0] == val {
					_, mine := fs[ev.Fn]
					ok = mine || c.isAPI(ev, "Invocation", "Interpolate")
				}
			}
			c.Must(ok && isKey(r.Args[0]), "variable", n, f.Pos(), p, "%s doesn't dig into the interpolated value of the variable", n)
		default:
			c.Bad("variable", n, f.Pos(), p, "%s yields something else than what the key finds in the value of the variable", n)
		}
	}
}

// containers checks how elements of arrays and hashes are interpolated
func (c *Ctx) containers(f *ssa.Function, fs map[*ssa.Function]*ssa.Parameter) {
	// the result of Interpolate
	for _, p := range c.interpolationPaths(f, fs) {
		if p.Exit != "return" {
			continue
		}
		val := c.paramTermOf(f, 1)
		facts := p.FactsBefore(len(p.Events))
		r := p.Res
		if r == val {
			// only when nothing changed
			ok := true
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Fn != nil {
					if _, mine := fs[ev.Fn]; mine {
						ok = false
						for t, v := range facts {
							if t.Op == "ext" && t.Aux == "1" && t.Args[0] == ev.Res && !v {
								ok = true
							}
						}
					}
				}
			}
			c.Must(ok, "result", c.N(f), f.Pos(), p, "%s doesn't return the interpolated value", c.N(f))
		} else if x := ext0(r); x != nil {
			ok := false
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Res == x && ev.Fn != nil && len(ev.Args) > 0 && ev.Args[0] == val {
					_, ok = fs[ev.Fn]
				}
			}
			c.Must(ok, "result", c.N(f), f.Pos(), p, "%s returns something else than the interpolated value", c.N(f))
		}
	}
	for g, allow := range fs {
		res := g.Signature.Results()
		if !c.recursive(g, nil) || res.Len() != 2 || !isNamed(g.Params[len(g.Params)-2].Type(), dgoPkg, "Value") {
			continue
		}
		c.elements(g, g.Params[len(g.Params)-2], allow, fs)
	}
}

// isFlag is true for a flag that was set in the first iteration of a loop
func isFlag(t *Term) bool {
	as := t.Args
	if t.Op == "loopcell" {
		as = as[1:]
	} else if t.Op != "loopvar" {
		return false
	}
	if as[0] == nil || as[1] == nil {
		return false
	}
	a, ok1 := as[0].BoolConst()
	b, ok2 := as[1].BoolConst()
	return ok1 && ok2 && !a && b
}

// second returns the term of the second result of a call that there is a fact about
func (c *Ctx) second(call *Term, facts map[*Term]bool) *Term {
	for t := range facts {
		if t.Op == "ext" && t.Aux == "1" && t.Args[0] == call {
			return t
		}
	}
	return nil
}

// elements checks the function that interpolates values of all kinds
func (c *Ctx) elements(f *ssa.Function, vp, allow *ssa.Parameter, fs map[*ssa.Function]*ssa.Parameter) {
	n := c.N(f)
	val := c.paramTerm(nil, vp)
	paths := c.interpolationPaths(f, fs)
	flags := map[string]bool{}
	for _, p := range paths {
		if p.Exit == "return" && len(p.Res.Args) == 2 && p.Res.Args[1].Op == "loopvar" {
			flags[p.Res.Args[1].Aux] = true
		}
		for t := range p.FactsBefore(len(p.Events)) {
			if isFlag(t) {
				flags[t.Aux] = true
			}
		}
	}
	for _, p := range paths {
		if p.Exit == "cut" {
			// a flag that is carried round a loop must stay set
			last := p.Events[len(p.Events)-1]
			for name, now := range last.Snap {
				if !flags[name] {
					continue
				}
				set, before := false, false
				for _, ev := range p.Events {
					if ev.Kind == "fact" && ev.Bool && ev.Val.Op == "ext" && ev.Val.Aux == "1" && ev.Val.Args[0].Op == "call" {
						before = true
					}
				}
				for i := len(p.Events) - 1; i >= 0 && !(p.Events[i].Kind == "loop" && p.Events[i].Name == "again"); i-- {
					if ev := p.Events[i]; ev.Kind == "fact" && ev.Bool && ev.Val.Op == "ext" && ev.Val.Aux == "1" && ev.Val.Args[0].Op == "call" {
						set = true
					}
				}
				b, ok := now.BoolConst()
				c.Must(ok && (b || !before) || !set && now.Op == "loopvar" && now.Aux == name, "changed", n, f.Pos(), p, "%s forgets that it has replaced an element", n)
			}
			continue
		}
		if p.Exit != "return" || len(p.Res.Args) != 2 {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		r, flag := p.Res.Args[0], p.Res.Args[1]
		lost := false
		for t, v := range facts {
			lost = lost || isFlag(t) && !v
		}
		if lost {
			continue // impossible, flags that are set stay set (see above)
		}
		isStr, ks := isaFact(facts, val, "String")
		isArr, ka := isaFact(facts, val, "Array")
		isMap, km := isaFact(facts, val, "Map")
		if ks && isStr {
			x := ext0(r)
			ok := x != nil && c.apiCall(x, "Invocation", "InterpolateString") && isTextOf(x.Args[1], val)
			ok = ok && flag.Op == "ext" && flag.Aux == "1" && flag.Args[0] == x
			c.Must(ok, "string", n, f.Pos(), p, "%s doesn't interpolate a string", n)
			continue
		}
		_ = allow
		if !(ka && isArr || km && isMap) {
			b, ok := flag.BoolConst()
			c.Must(ks && ka && km && ok && !b && r == val, "other", n, f.Pos(), p, "%s doesn't leave a value that isn't a string or a collection unchanged", n)
			continue
		}
		// nested calls
		changed, all := false, true
		var results []*Event
		for i, ev := range p.Events {
			if ev.Kind != "call" || ev.Fn == nil {
				continue
			}
			if _, ok := fs[ev.Fn]; !ok {
				continue
			}
			results = append(results, ev)
			c.Count("elements that are interpolated", 1)
			known := false
			for t, v := range p.FactsBefore(len(p.Events)) {
				if t.Op == "ext" && t.Aux == "1" && t.Args[0] == ev.Res {
					known = true
					changed = changed || v
				}
			}
			stored := false
			for _, e := range p.Events[i:] {
				is := func(t *Term) bool { return t != nil && ext0(t) == ev.Res }
				switch {
				case e.Kind == "store" && is(e.Val):
					// in the same place
					el := ev.Args[0]
					stored = el.Op == "init" && el.Args[0] == e.Addr || el.Op == "elem" || e.Addr.Op == "iaddr" && el.Op == "call" && isDgo(el, "Get") && el.Args[1] == e.Addr.Args[1] || e.Addr.Op == "iaddr"
					if el.Op == "init" && el.Args[0].Op == "iaddr" && e.Addr.Op == "iaddr" && el.Args[0].Args[1] != e.Addr.Args[1] {
						stored = false
					}
				case e.Kind == "append":
					for _, a := range e.Args {
						stored = stored || a.Any(is)
					}
				case e.Kind == "call" && isDgo(e.Res, "Put"):
					// key and value in their places
					k := isDgo(ev.Args[0], "Key")
					as := e.Args
					if is(as[0]) && k {
						stored = true
					}
					if is(as[1]) && !k {
						kx := ext0(as[0])
						stored = kx != nil && len(kx.Args) > 1 && kx.Any(func(y *Term) bool {
							return isDgo(y, "Key") && len(ev.Args[0].Args) > 0 && y.Args[0] == ev.Args[0].Args[0]
						})
					}
				}
			}
			mine := false
			for t, v := range facts {
				if t.Op == "ext" && t.Aux == "1" && t.Args[0] == ev.Res {
					mine = v
				}
			}
			if !stored && (mine || !known) {
				all = false
			}
		}
		for _, e := range p.Events {
			if e.Kind == "call" && isDgo(e.Res, "Put") && isMap && km {
				for i, part := range []string{"Key", "Value"} {
					x := e.Args[i]
					if y := ext0(x); y != nil {
						for _, ev := range results {
							if ev.Res == y {
								x = ev.Args[0]
							}
						}
					}
					c.Must(isDgo(x, part), "element-stored", n, e.Pos, p, "%s stores something else than the interpolated entries of a hash", n)
				}
			}
		}
		c.Must(all, "element-stored", n, f.Pos(), p, "%s doesn't store an interpolated element in its place", n)
		if isMap && km {
			// keys as well as values
			ks, vs := 0, 0
			for _, ev := range results {
				if isDgo(ev.Args[0], "Key") {
					ks++
				} else if isDgo(ev.Args[0], "Value") {
					vs++
				}
			}
			c.Must(ks == vs, "keys", n, f.Pos(), p, "%s doesn't interpolate both keys and values of a hash", n)
		}
		b, ok := flag.BoolConst()
		if !ok {
			// a flag that was carried round a loop (see above)
			if v, known := facts[flag]; known && v {
				b, ok = true, true
			} else if isFlag(flag) {
				b, ok = true, true
			}
		}
		if !ok && flag.Op == "ext" && flag.Aux == "1" {
			// what the last one tells, provided that the others did not change
			b, ok = changed, true
			mine := false
			for _, ev := range results {
				if ev.Res == flag.Args[0] {
					mine = true
				} else if v, known := facts[c.second(ev.Res, facts)]; !known || v {
					// may be what was seen so far
					seen := false
					for t, v := range facts {
						if t.Op == "loopcell" && !v && t.Args[2] != nil && t.Args[2].Op == "ext" && t.Args[2].Aux == "1" && t.Args[2].Args[0] == ev.Res {
							seen = true
						}
					}
					ok = ok && seen
				}
			}
			ok = ok && mine
			c.Must(ok, "changed", n, f.Pos(), p, "%s doesn't tell if it has replaced something", n)
			continue
		}
		if !ok {
			if flag.Op != "loopvar" {
				c.Bad("changed", n, f.Pos(), p, "%s doesn't tell if it has replaced something", n)
			}
			continue
		}
		c.Must(b == changed || b && len(results) > 0, "changed", n, f.Pos(), p, "%s doesn't tell if it has replaced something", n)
		if !b {
			continue
		}
		c.Must(r != val && r.Op != "typed", "changed", n, f.Pos(), p, "%s doesn't return the collection with interpolated elements", n)
	}
}

// interpolatedOnce finds values that are interpolated by a data provider and then again by the lookup
func (c *Ctx) interpolatedOnce() {
	again := false
	for _, t := range c.ivTypes() {
		if f := c.methodOn(t, "Lookup"); f != nil {
			for _, g := range append(closuresOf(f), f) {
				for _, ci := range calls(g) {
					if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "Interpolate") {
						again = true
					}
				}
			}
		}
	}
	for _, f := range c.methods("api", "DataProvider", "LookupKey") {
		set := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			if set[g] {
				return
			}
			set[g] = true
			for _, h := range append(closuresOf(g), g) {
				for _, ci := range calls(h) {
					if s := ci.Common().StaticCallee(); s != nil && pkgOf(s) == pkgOf(f) {
						visit(s)
					}
					if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Invocation", "Interpolate") && again {
						c.Bad("once", c.madeBy(f.Params[0].Type(), f), ci.Pos(), nil, "a value that was interpolated by %s is interpolated again by the lookup", c.N(f))
					}
				}
			}
		}
		visit(f)
		c.Count("data providers", 1)
	}
	c.Min("data providers", 3)
}

// madeBy names a type by the exported function that creates it
func (c *Ctx) madeBy(t types.Type, f *ssa.Function) string {
	for _, g := range c.P.topFuncs() {
		if pkgOf(g) != pkgOf(f) || g.Object() == nil || !g.Object().Exported() || g.Signature.Recv() != nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && namedOf(a.Type()) != nil && namedOf(a.Type()) == namedOf(t) {
					return c.N(g)
				}
			}
		}
	}
	return c.N(f)
}
