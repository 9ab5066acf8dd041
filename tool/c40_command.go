package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C40", Technique: "flag table extraction and provenance of the arguments of a lookup over all paths (path-sensitive dataflow on SSA)",
		Explain: "Each flag of the command must be bound to the option that its name says, and the command must use the variables that the flags are bound to. On all paths from the options of a command to a lookup, the facts about the options tell what type, default, merge strategy, scope and explainer the lookup must be given, and what must be rendered in what format afterwards. All variables and all entries of the files that are named must be put in the scope.",
		Check:   checkCommand})
}

// the option that each flag sets: a field of CommandOptions, or a name used below
var commandFlags = map[string]string{"merge": "Merge", "type": "Type", "render-as": "RenderAs", "explain": "ExplainData", "explain-options": "ExplainOptions", "vars": "VarPaths", "var": "Variables",
	"facts": "FactPaths", "all": "LookupAll", "loglevel": "=loglevel", "config": "=config", "dialect": "=dialect", "default": "=default"}

func (c *Ctx) pkgFunc(rel, name string) *ssa.Function {
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && c.P.relPkg(f) == rel && f.Name() == name && f.Signature.Recv() == nil {
			return f
		}
	}
	c.Anchor(rel + "." + name)
	return nil
}

func checkCommand(c *Ctx) {
	lookup, render, all, two := c.pkgFunc("hiera", "LookupAndRender"), c.pkgFunc("hiera", "Render"), c.pkgFunc("hiera", "LookupAll"), c.pkgFunc("hiera", "Lookup2")
	if lookup == nil || render == nil || all == nil || two == nil {
		return
	}
	vars := c.commandFlags()
	c.commandRun(vars, lookup)
	c.commandLookup(lookup, render, all, two)
	c.renderings(render)
	c.commandExit()
	c.Min("outcomes of a program", 4)
	c.Min("flags", 13)
	c.Min("lookups started by the command", 2)
	c.Min("lookups made for a command", 20)
	c.Min("renderings", 4)
	c.Min("scopes", 20)
}

// commandFlags returns the variable that each flag is bound to
func (c *Ctx) commandFlags() map[string]ssa.Value {
	vars := map[string]ssa.Value{}
	for _, f := range c.P.Funcs {
		if c.P.relPkg(f) != "cli" {
			continue
		}
		for _, ci := range calls(f) {
			k := calleeKey(ci)
			if !strings.HasPrefix(k, "(github.com/spf13/pflag.FlagSet).") || !strings.Contains(k[strings.LastIndex(k, "."):], "Var") {
				continue
			}
			args := ci.Common().Args[1:]
			if len(args) < 2 {
				continue
			}
			nk, ok := args[1].(*ssa.Const)
			if !ok || nk.Value == nil || nk.Value.Kind() != constant.String {
				continue
			}
			name := constant.StringVal(nk.Value)
			want, known := commandFlags[name]
			if !known {
				continue
			}
			c.Count("flags", 1)
			addr := args[0]
			if mi, ok := addr.(*ssa.MakeInterface); ok {
				addr = mi.X
			}
			if vars[name] != nil {
				c.Bad("flag", "twice/"+name, ci.Pos(), nil, "the flag --%s is bound twice", name)
			}
			fa, isField := addr.(*ssa.FieldAddr)
			field := ""
			if isField {
				if v := fieldOfAddr(fa); v != nil && isNamedPtr(fa.X.Type(), c.P.Mod+"/hiera", "CommandOptions") {
					field = v.Name()
					vars[name] = fa.X
				}
			}
			if field == "" {
				vars[name] = addr
				field = "=" + name
			}
			c.Must(field == want, "flag", name, ci.Pos(), nil, "the flag --%s doesn't set %s", name, strings.TrimPrefix(want, "="))
			if name == "merge" || name == "type" || name == "render-as" || name == "config" {
				d := ""
				if dk, ok := args[len(args)-2].(*ssa.Const); ok && dk.Value != nil && dk.Value.Kind() == constant.String {
					d = constant.StringVal(dk.Value)
				}
				c.Must(d == "" || name == "merge" && d == "first", "flag default", name, ci.Pos(), nil, "the flag --%s has an unexpected default", name)
			}
			if dk, ok := args[len(args)-2].(*ssa.Const); ok && dk.Value != nil && dk.Value.Kind() == constant.Bool {
				c.Must(!constant.BoolVal(dk.Value), "flag default", name, ci.Pos(), nil, "the flag --%s is on by default", name)
			}
		}
	}
	var names []string
	for n := range commandFlags {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.Must(vars[n] != nil, "flag", n+"/missing", 0, nil, "there is no flag --%s", n)
	}
	return vars
}

func isNamedPtr(t types.Type, pkg, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return isNamed(p.Elem(), pkg, name)
	}
	return false
}

// commandRun checks that the command uses its flags
func (c *Ctx) commandRun(vars map[string]ssa.Value, lookup *ssa.Function) {
	uses := func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if ci.Common().StaticCallee() == lookup {
				return true
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if c.P.relPkg(f) != "cli" || !uses(f) {
			continue
		}
		top := f
		for top.Parent() != nil && !isRunE(top) {
			top = top.Parent()
		}
		if !isRunE(top) {
			// called by one that is
			for _, g := range c.P.Funcs {
				if c.P.relPkg(g) == "cli" && isRunE(g) {
					for _, ci := range calls(g) {
						if ci.Common().StaticCallee() == top {
							top = g
						}
					}
				}
			}
		}
		if done[top] || !isRunE(top) {
			continue
		}
		done[top] = true
		n := c.N(top)
		args := c.paramTermOf(top, len(top.Params)-1)
		isVar := func(t *Term, name string) bool {
			v := vars[name]
			if t == nil || v == nil {
				return false
			}
			if t.Val == v {
				return true
			}
			if fv, ok := t.Val.(*ssa.FreeVar); ok {
				bs := bindings(fv)
				return len(bs) == 1 && bs[0] == v
			}
			// the variable may hold the address
			if t.Op == "init" {
				if fv, ok := t.Args[0].Val.(*ssa.FreeVar); ok {
					if bs := bindings(fv); len(bs) == 1 {
						if al, ok := bs[0].(*ssa.Alloc); ok {
							if ld, ok := v.(*ssa.UnOp); ok {
								return ld.X == al
							}
						}
					}
				}
			}
			return false
		}
		isLoad := func(t *Term, name string) bool {
			t = stripTyped(t)
			return t != nil && t.Op == "init" && isVar(t.Args[0], name)
		}
		for _, p := range c.Run(top, &Policy{Inline: samePkg(top), NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string {
			fn := fnOf(a)
			if fn == nil || c.P.relPkg(fn) != "cli" {
				return "no"
			}
			return "once"
		}}) {
			facts := p.FactsBefore(len(p.Events))
			bad := func(rule, what string) { c.Bad(rule, n+"/"+what, top.Pos(), p, "%s: %s", n, what) }
			level, puts := false, map[string]*Term{}
			var optsMap *Term
			var dv *Term
			started := false
			for i, ev := range p.Events {
				switch {
				case ev.Kind == "call" && strings.HasSuffix(ev.Name, "logrus.SetLevel"):
					l := ext0(ev.Args[0])
					if l == nil || !strings.HasSuffix(l.CallName(), "logrus.ParseLevel") || !isLoad(l.Args[0], "loglevel") {
						bad("level", "uses another log level than asked for")
					}
					level = true
				case ev.Kind == "call" && isDgo(ev.Res, "Put") && len(ev.Args) == 2:
					if s, ok := stripTyped(ev.Args[0]).StrConst(); ok {
						puts[s] = ev.Args[1]
						optsMap = ev.Recv
					}
				case ev.Kind == "store" && FieldOf(ev.Addr) != nil && FieldOf(ev.Addr).Name() == "Default":
					dv = ev.Val
				case ev.Kind == "call" && (strings.HasSuffix(ev.Name, "/hiera.TryWithParent") || strings.HasSuffix(ev.Name, "/hiera.DoWithParent")):
					if optsMap == nil || stripTyped(ev.Args[2]) != stripTyped(optsMap) {
						bad("session", "makes a session without the options")
					}
					if g := fnOf(ev.Args[1]); g == nil || g.Name() != "MuxLookupKey" {
						bad("session", "makes a session without all of the providers")
					}
				case ev.Kind == "call" && ev.Fn == lookup:
					started = true
					c.Count("lookups started by the command", 1)
					if !level {
						bad("level", "doesn't set the log level")
					}
					if !isLoad(puts["Hiera::Dialect"], "dialect") {
						bad("dialect", "uses another dialect than asked for")
					}
					cfg, given := puts["Hiera::Config"]
					none, known := false, false
					for t, v := range facts {
						if t.Op == "eq" {
							for j := range t.Args {
								if s, ok := t.Args[j].StrConst(); ok && s == "" && isLoad(t.Args[1-j], "config") {
									none, known = v, true
								}
							}
						}
						if t.Op == "lt" && t.Args[1].Op == "len" && isLoad(t.Args[1].Args[0], "config") {
							none, known = !v, true
						}
					}
					if !known || given == none || given && !isLoad(cfg, "config") {
						bad("config", "uses another configuration than asked for")
					}
					// StringPointer of the flag
					d := stripTyped(dv)
					ok := d != nil && (d.Op == "init" && d.Args[0].Op == "faddr" && isVar(d.Args[0].Args[0], "default") || d.Op == "call" && len(d.Args) == 1 && isVar(d.Args[0], "default"))
					if !ok {
						bad("default", "uses another default than asked for")
					}
					if o := stripTyped(ev.Args[1]); !isVar(o, "merge") {
						bad("options", "uses other options than those set by the flags")
					}
					if stripTyped(ev.Args[2]) != args {
						bad("keys", "doesn't look up the keys that are asked for")
					}
					_ = i
				}
			}
			if p.Exit != "return" {
				continue
			}
			// the outcome
			r := stripTyped(p.Res)
			if started {
				ok := r != nil && r.Op == "call" && strings.HasSuffix(r.CallName(), "/hiera.TryWithParent")
				for t, v := range facts {
					if t.Op == "eq" && (t.Args[0].IsNil() || t.Args[1].IsNil()) && v && r.IsNil() && t.Any(func(x *Term) bool { return x.Op == "call" && strings.HasSuffix(x.CallName(), "/hiera.TryWithParent") }) {
						ok = true
					}
				}
				if !ok {
					bad("failure", "doesn't report that the lookup failed")
				}
			} else if r == nil || r.IsNil() {
				bad("failure", "reports success without a lookup")
			}
		}
	}
	c.Must(len(done) > 0, "command", "cli", 0, nil, "no command does lookups")
}

// commandExit checks the exit code of the programs that run commands, and that nothing else is written with the output
func (c *Ctx) commandExit() {
	execute := func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if calleeKey(ci) == "(github.com/spf13/cobra.Command).Execute" {
				return true
			}
		}
		return false
	}
	for _, f := range c.P.Funcs {
		rel := c.P.relPkg(f)
		if f.Name() == "main" && f.Parent() == nil && f.Signature.Recv() == nil && f.Pkg.Pkg.Name() == "main" {
			n := c.N(f)
			runs := false
			for _, g := range c.P.Funcs {
				runs = runs || g.Pkg == f.Pkg && execute(g)
			}
			if !runs {
				continue
			}
			for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
				return g.Pkg == f.Pkg && execute(g) || g.Pkg == f.Pkg && (g.Parent() == nil && exits(g) || inPlace(g))
			}, NoHavoc: func(ev *Event) bool { return true }}) {
				if p.Exit == "cut" {
					continue
				}
				var res *Term
				code := -1
				told := false
				for i, ev := range p.Events {
					if ev.Kind != "call" {
						continue
					}
					if ev.Name == "(github.com/spf13/cobra.Command).Execute" {
						res = ev.Res
					}
					for _, a := range ev.Args {
						if res != nil && code < 0 && ev.Res != res && a.Any(func(x *Term) bool { return x == res }) {
							told = true
						}
					}
					if ev.Name == "os.Exit" && code < 0 {
						if k, ok := ev.Args[0].IntConst(); ok {
							code = int(k)
						} else {
							code = 256
						}
						_ = i
					}
				}
				if res == nil {
					c.Bad("exit", n+"/command", f.Pos(), p, "%s doesn't run the command", n)
					continue
				}
				if code < 0 {
					code = 0
				}
				none, known := nilFact(p.FactsBefore(len(p.Events)), res)
				c.Count("outcomes of a program", 1)
				c.Must(known && code < 256 && none == (code == 0), "exit", n+"/code", f.Pos(), p, "the exit code of %s doesn't tell if the command failed", n)
				c.Must(none || told, "exit", n+"/message", f.Pos(), p, "%s doesn't tell why the command failed", n)
			}
		}
		if rel == "yaml2json" {
			continue
		}
		for _, ci := range calls(f) {
			k := calleeKey(ci)
			if k == "fmt.Print" || k == "fmt.Println" || k == "fmt.Printf" {
				c.Bad("output", c.N(f)+"/stdout", ci.Pos(), nil, "%s writes on the standard output, where the result belongs", c.N(f))
			}
		}
	}
}

// exits tells if a function may exit the program
func exits(f *ssa.Function) bool {
	for _, ci := range calls(f) {
		if calleeKey(ci) == "os.Exit" {
			return true
		}
	}
	return false
}

func isRunE(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 2 && isNamedPtr(s.Params().At(0).Type(), "github.com/spf13/cobra", "Command") && s.Results().Len() == 1
}

// underFacts evaluates a condition
func underFacts(t *Term, facts map[*Term]bool) (val, known bool) {
	if b, ok := t.BoolConst(); ok {
		return b, true
	}
	if v, ok := facts[t]; ok {
		return v, true
	}
	if t.Op == "not" {
		v, k := underFacts(t.Args[0], facts)
		return !v, k
	}
	return false, false
}

func (c *Ctx) commandLookup(lookup, render, all, two *ssa.Function) {
	n := c.N(lookup)
	sess, opts, keys, out := c.paramTermOf(lookup, 0), c.paramTermOf(lookup, 1), c.paramTermOf(lookup, 2), c.paramTermOf(lookup, 3)
	scopes := map[*ssa.Function]bool{} // what is called for the scope of an invocation
	for h := range c.helpersOf(lookup) {
		for _, ci := range calls(h) {
			if m := methodOfCall(ci); m == nil || !c.isAPIMethod(m, "Session", "Invocation") || len(ci.Common().Args) == 0 {
				continue
			}
			for _, cj := range calls(h) {
				if v := cj.Value(); v != nil && cj.Common().StaticCallee() != nil && derivedFrom(ci.Common().Args[0], func(x ssa.Value) bool { return x == ssa.Value(v) }) {
					scopes[cj.Common().StaticCallee()] = true
				}
			}
		}
	}
	isScopeFn := func(g *ssa.Function) bool {
		s := g.Signature
		if len(scopes) > 0 && !scopes[g] {
			return false
		}
		if g.Pkg != lookup.Pkg || s.Results().Len() != 1 || !isNamed(s.Results().At(0).Type(), dgoPkg, "Map") {
			return false
		}
		for i := 0; i < s.Params().Len(); i++ {
			if isNamedPtr(s.Params().At(i).Type(), c.P.Mod+"/hiera", "CommandOptions") {
				return true
			}
		}
		return false
	}
	scopeFns := map[*ssa.Function]bool{}
	opt := func(t *Term, name string) bool {
		t = stripTyped(t)
		return t != nil && t.Op == "init" && FieldOf(t.Args[0]) != nil && FieldOf(t.Args[0]).Name() == name && stripTyped(t.Args[0].Args[0]) == opts
	}
	for _, p := range c.Run(lookup, &Policy{Inline: func(g *ssa.Function) bool {
		return g.Pkg == lookup.Pkg && g != all && g != two && g != render && !isScopeFn(g) || g.Parent() != nil && g.Pkg == lookup.Pkg
	}, NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string { return "once" }}) {
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, what string) { c.Bad(rule, n+"/"+what, lookup.Pos(), p, "%s %s", n, what) }
		eqStr := func(name, s string) (bool, bool) {
			for t, v := range facts {
				if t.Op == "eq" {
					for i := range t.Args {
						if k, ok := t.Args[i].StrConst(); ok && k == s && opt(t.Args[1-i], name) {
							return v, true
						}
					}
				}
				if s == "" && t.Op == "lt" && t.Args[1].Op == "len" && opt(t.Args[1].Args[0], name) {
					if k, ok := t.Args[0].IntConst(); ok && k == 0 {
						return !v, true
					}
				}
			}
			return false, false
		}
		boolOpt := func(name string) (val, known bool) {
			for t, v := range facts {
				if opt(t, name) {
					return v, true
				}
			}
			return false, false
		}
		// an explainer is never nil
		infeasible := false
		for t, v := range facts {
			if t.Op == "eq" && v {
				for i := range t.Args {
					if t.Args[i].IsNil() && stripTyped(t.Args[1-i]).Op == "call" && strings.HasSuffix(stripTyped(t.Args[1-i]).CallName(), "/explain.NewExplainer") {
						infeasible = true
					}
				}
			}
		}
		if infeasible || p.Exit == "cut" {
			continue
		}
		var found, explainer, inv *Term
		var rendered *Event
		kinds := 0
		for i, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Fn {
			case all, two:
				kinds++
				c.Count("lookups made for a command", 1)
				found = ev.Res
				inv = stripTyped(ev.Args[0])
				la, known := boolOpt("LookupAll")
				if !known || la != (ev.Fn == all) {
					bad("all", "makes one lookup for all keys, or the other way round")
				}
				if stripTyped(ev.Args[1]) != keys {
					bad("keys", "doesn't look up the keys that are asked for")
				}
				now := p.FactsBefore(i)
				c.commandArgs(ev, ev.Fn == all, opt, eqStr, now, bad)
				if !c.apiCall(inv, "Session", "Invocation") || stripTyped(inv.Args[0]) != sess {
					bad("invocation", "doesn't make an invocation of the session")
					continue
				}
				sc := stripTyped(inv.Args[1])
				ok := false
				if sc != nil && sc.Op == "call" {
					for _, e := range p.Events[:i] {
						if e.Kind == "call" && e.Res == sc && e.Fn != nil && isScopeFn(e.Fn) {
							ok = true
							for _, a := range e.Args {
								ok = ok && (stripTyped(a) == sess || stripTyped(a) == opts)
							}
							scopeFns[e.Fn] = true
						}
					}
				}
				if !ok {
					bad("scope", "doesn't use the scope that is asked for")
				}
				// explainer
				ed, k1 := boolOpt("ExplainData")
				eo, k2 := boolOpt("ExplainOptions")
				explainer = stripTyped(inv.Args[2])
				switch {
				case explainer.IsNil():
					explainer = nil
					if !k1 || !k2 || ed || eo {
						bad("explainer", "doesn't explain although it is asked for")
					}
				case explainer.Op != "call" || !strings.HasSuffix(explainer.CallName(), "/explain.NewExplainer"):
					bad("explainer", "doesn't explain although it is asked for")
				default:
					f2 := map[*Term]bool{}
					for t, v := range facts {
						f2[t] = v
					}
					o, ko := underFacts(explainer.Args[0], f2)
					if !ko && opt(explainer.Args[0], "ExplainOptions") {
						o, ko = eo, k2
					}
					only, kOnly := underFacts(explainer.Args[1], f2)
					if !(k1 && ed || k2 && eo) {
						bad("explainer", "explains although it isn't asked for")
					}
					if k2 {
						if !ko || o != eo {
							bad("explainer", "doesn't explain the options although it is asked for, or the other way round")
						}
					} else if !opt(explainer.Args[0], "ExplainOptions") {
						bad("explainer", "doesn't explain the options although it is asked for, or the other way round")
					}
					switch {
					case k2 && !eo:
						if !kOnly || only {
							bad("explainer", "explains the options only")
						}
					case k2 && k1:
						if !kOnly || only != (eo && !ed) {
							bad("explainer", "explains the options only, or doesn't although it is asked for")
						}
					case k2:
						x := explainer.Args[1]
						if !(x.Op == "not" && opt(x.Args[0], "ExplainData")) {
							bad("explainer", "explains the options only, or doesn't although it is asked for")
						}
					case ed && k1:
						if !kOnly || only {
							bad("explainer", "explains the options only")
						}
					}
				}
			case render:
				if rendered != nil {
					bad("rendered", "renders twice")
				}
				rendered = ev
			}
		}
		if p.Exit != "return" {
			continue
		}
		if kinds != 1 {
			bad("lookup", "doesn't make exactly one kind of lookup")
			continue
		}
		none, kNone := nilFact(facts, found)
		isFound := func() (bool, bool) {
			if b, ok := p.Res.BoolConst(); ok {
				return b, true
			}
			return false, false
		}
		res, kRes := isFound()
		x := p.Res
		tells := x.Op == "not" && x.Args[0].Op == "eq" && (x.Args[0].Args[0] == found && x.Args[0].Args[1].IsNil() || x.Args[0].Args[1] == found && x.Args[0].Args[0].IsNil())
		format := func(dflt string) bool {
			e, k := eqStr("RenderAs", "")
			if !k {
				return false
			}
			if e {
				s, ok := stripTyped(rendered.Args[1]).StrConst()
				return ok && s == dflt
			}
			return opt(rendered.Args[1], "RenderAs")
		}
		isOut := func() bool {
			return stripTyped(rendered.Args[0]) == sess && stripTyped(rendered.Args[3]) == out
		}
		if explainer != nil {
			if rendered == nil || stripTyped(rendered.Args[2]) != explainer || !format("s") || !isOut() {
				bad("rendered", "doesn't render the explanation as asked for")
			}
			ok := kRes && kNone && res == !none || tells
			if !ok {
				bad("found", "doesn't tell if something was found")
			}
			continue
		}
		if !kNone {
			bad("found", "doesn't tell if something was found")
			continue
		}
		if none != (rendered == nil) {
			bad("rendered", "renders nothing, or something that was not found")
			continue
		}
		if !tells && (!kRes || res == none) {
			bad("found", "doesn't tell if something was found")
		}
		if rendered != nil && (stripTyped(rendered.Args[2]) != stripTyped(found) || !format("yaml") || !isOut()) {
			bad("rendered", "doesn't render the value as asked for")
		}
	}
	for g := range scopeFns {
		c.commandScope(g)
	}
	c.Must(len(scopeFns) > 0, "scope", n, lookup.Pos(), nil, "nothing makes a scope")
}

// commandArgs checks the type, default and options of a lookup
func (c *Ctx) commandArgs(ev *Event, all bool, opt func(*Term, string) bool, eqStr func(string, string) (bool, bool), facts map[*Term]bool, bad func(string, string)) {
	at := map[string]int{"type": 2, "default": 3, "options": 6}
	if all {
		at = map[string]int{"type": 2, "options": 5}
	}
	for _, i := range []int{3, 4, 5, 7} {
		if i < len(ev.Args) && i != at["options"] && i != at["default"] && !ev.Args[i].IsNil() {
			bad("arguments", "looks for values elsewhere")
		}
	}
	// type
	tp := stripTyped(ev.Args[at["type"]])
	noType, k := eqStr("Type", "")
	ofType := func(x *Term) bool {
		return x.Any(func(y *Term) bool { return y.Op == "call" && strings.HasSuffix(y.CallName(), ".ParseType") }) && x.Any(func(y *Term) bool { return opt(y, "Type") })
	}
	switch {
	case !k:
		bad("type", "doesn't check if a type is asked for")
	case noType:
		if !tp.IsNil() && !ofType(tp) && !(tp.Op == "init" && tp.Args[0].Val != nil && tp.Args[0].Val.Name() == "Any") && !(tp.Op == "ext" && tp.Args[0].Op != "call") {
			bad("type", "asserts a type that isn't asked for")
		}
		if ofType(tp) {
			bad("type", "asserts a type that isn't asked for")
		}
	default:
		if !ofType(tp) {
			bad("type", "doesn't assert the type that is asked for")
		}
	}
	// default
	if i, ok := at["default"]; ok {
		dv := stripTyped(ev.Args[i])
		none, known := false, false
		for t, v := range facts {
			if t.Op == "eq" && (t.Args[0].IsNil() && opt(t.Args[1], "Default") || t.Args[1].IsNil() && opt(t.Args[0], "Default")) {
				none, known = v, true
			}
		}
		text := func(x *Term) bool { return x.Op == "init" && opt(x.Args[0], "Default") }
		empty := false
		for t, v := range facts {
			if t.Op == "eq" && v {
				for j := range t.Args {
					if s, isC := t.Args[j].StrConst(); isC && s == "" && text(t.Args[1-j]) {
						empty = true
					}
				}
			}
		}
		isEmpty := dv != nil && dv.Op == "call" && dv.CallName() == vfPkg+".String"
		if isEmpty {
			s, isC := dv.Args[0].StrConst()
			isEmpty = isC && s == ""
		}
		switch {
		case !known:
			bad("default", "doesn't check if there is a default")
		case none != dv.IsNil():
			bad("default", "ignores the default, or uses one that isn't given")
		case !none && !dv.Any(text) && !(empty && isEmpty):
			bad("default", "uses another default than the one given")
		}
	}
	// options
	ov := stripTyped(ev.Args[at["options"]])
	e1, k1 := eqStr("Merge", "")
	e2, k2 := eqStr("Merge", "first")
	if ov.IsNil() {
		if !(k1 && e1 || k2 && e2) {
			bad("merge", "ignores the merge strategy that is asked for")
		}
		return
	}
	ok := ov.Op == "call" && ov.CallName() == vfPkg+".Map"
	if ok {
		as := ov.Args
		if len(as) == 1 && as[0].Op == "slicelit" {
			as = as[0].Args
		}
		ok = len(as) == 2 && opt(as[1], "Merge")
		if ok {
			s, isC := stripTyped(as[0]).StrConst()
			ok = isC && s == "merge"
		}
	}
	if !ok {
		bad("merge", "uses another merge strategy than the one that is asked for")
	}
	if !k1 || e1 {
		bad("merge", "uses an empty merge strategy")
	}
}

// commandScope checks that all variables are in the scope
func (c *Ctx) commandScope(f *ssa.Function) {
	n := c.N(f)
	var opts *Term
	for i, p := range f.Params {
		if isNamedPtr(p.Type(), c.P.Mod+"/hiera", "CommandOptions") {
			opts = c.paramTermOf(f, i)
		}
	}
	opt := func(t *Term, name string) bool {
		t = stripTyped(t)
		return t != nil && t.Op == "init" && FieldOf(t.Args[0]) != nil && FieldOf(t.Args[0]).Name() == name && stripTyped(t.Args[0].Args[0]) == opts
	}
	elem := func(t *Term, name string) bool {
		t = stripTyped(t)
		return t != nil && t.Op == "init" && t.Args[0].Op == "iaddr" && opt(t.Args[0].Args[0], name)
	}
	isParse := func(g *ssa.Function) bool {
		s := g.Signature
		return s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 && isNamed(s.Results().At(0).Type(), dgoPkg, "Value") && isNamed(s.Params().At(0).Type(), c.P.Mod+"/api", "Session")
	}
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && !isParse(g) }, NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string { return "once" }}) {
		bad := func(rule, what string) { c.Bad(rule, n+"/"+what, f.Pos(), p, "%s %s", n, what) }
		if p.Exit == "cut" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		r := stripTyped(p.Res)
		// elements of the lists that are known to be there
		var factsMap *Term
		holds := map[*Term][]*Term{} // what was put in each map
		puts := map[*Term]map[*Term]bool{}
		var split []*Term
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			switch {
			case isDgo(ev.Res, "PutAll"):
				m := stripTyped(ev.Recv)
				holds[m] = append(holds[m], stripTyped(ev.Args[0]))
			case isDgo(ev.Res, "Put"):
				m := stripTyped(ev.Recv)
				if s, ok := stripTyped(ev.Args[0]).StrConst(); ok && s == "facts" {
					factsMap = stripTyped(ev.Args[1])
					if m != r && r != nil && p.Exit == "return" {
						bad("facts", "doesn't put the facts in the scope")
					}
					continue
				}
				if puts[m] == nil {
					puts[m] = map[*Term]bool{}
				}
				// the variable that was split
				for _, s := range split {
					part := func(x *Term, i int64) bool {
						return x.Any(func(y *Term) bool {
							if y.Op != "init" || y.Args[0].Op != "iaddr" || y.Args[0].Args[0] != s {
								return false
							}
							k, ok := y.Args[0].Args[1].IntConst()
							return ok && k == i
						})
					}
					if part(ev.Args[0], 1) && part(ev.Args[1], 2) {
						puts[m][s] = true
					}
				}
			case strings.HasSuffix(ev.Name, ".FindStringSubmatch") && len(ev.Args) == 1 && elem(ev.Args[0], "Variables"):
				split = append(split, ev.Res)
			}
		}
		if p.Exit != "return" {
			continue
		}
		c.Count("scopes", 1)
		for _, s := range split {
			if !puts[r][s] {
				bad("variables", "doesn't put all variables in the scope")
			}
		}
		// files
		var data []*Term
		in := map[*Term]string{}
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "/yaml.Unmarshal") {
				continue
			}
			src := ext0(ev.Args[0])
			kind := ""
			for _, k := range []string{"VarPaths", "FactPaths"} {
				if src != nil && src.Op == "call" && len(src.Args) == 1 && elem(src.Args[0], k) {
					kind = k
				}
			}
			if kind == "" && src != nil && strings.HasSuffix(src.CallName(), ".ReadAll") {
				// the path is a dash
				kind = "stdin"
			}
			if kind == "" {
				bad("files", "reads something else than the files")
				continue
			}
			d := ext0(ev.Res)
			_ = d
			data = append(data, ev.Res)
			in[ev.Res] = kind
		}
		has := func(m, d *Term) bool {
			for _, x := range holds[m] {
				if ext0(x) == d {
					return true
				}
			}
			return false
		}
		through := func(d *Term) bool {
			if has(r, d) {
				return true
			}
			if factsMap != nil && has(factsMap, d) {
				for _, x := range holds[r] {
					if x == factsMap {
						return true
					}
				}
			}
			return false
		}
		for _, d := range data {
			if !through(d) {
				bad("files", "doesn't put all of the variables of the files in the scope")
			}
			if in[d] == "FactPaths" && (factsMap == nil || !has(factsMap, d)) {
				bad("facts", "doesn't put all of the facts in the scope")
			}
			if in[d] == "VarPaths" && factsMap != nil && has(factsMap, d) {
				bad("facts", "makes facts of variables")
			}
			ok := false
			for t, v := range facts {
				if t.Op == "eq" && v && (t.Args[0].IsNil() && t.Args[1].Op == "ext" && t.Args[1].Args[0] == d || t.Args[1].IsNil() && t.Args[0].Op == "ext" && t.Args[0].Args[0] == d) {
					ok = true
				}
			}
			if !ok {
				bad("files", "ignores an error in a file")
			}
		}
		// all of the lists are done
		for _, l := range []string{"Variables", "VarPaths", "FactPaths"} {
			_, hi := lenBounds(facts, func(x *Term) bool { return opt(x, l) })
			done := hi == 0
			for t, v := range facts {
				if t.Op == "lt" && !v && t.Args[1].Op == "len" && opt(t.Args[1].Args[0], l) {
					done = true
				}
			}
			if !done {
				bad("all", "doesn't use all of the "+l)
			}
		}
		// errors of reading
		for _, ev := range p.Events {
			if ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".ReadFile") || strings.HasSuffix(ev.Name, ".ReadAll")) {
				ok := false
				for t, v := range facts {
					if t.Op == "eq" && v {
						for i := range t.Args {
							if t.Args[i].IsNil() && t.Args[1-i].Op == "ext" && t.Args[1-i].Aux == "1" && t.Args[1-i].Args[0] == ev.Res {
								ok = true
							}
						}
					}
				}
				if !ok {
					bad("files", "ignores that a file cannot be read")
				}
			}
		}
	}
}

// renderings checks the formats
func (c *Ctx) renderings(f *ssa.Function) {
	n := c.N(f)
	as, val, out := c.paramTermOf(f, 1), c.paramTermOf(f, 2), c.paramTermOf(f, 3)
	universe := []string{"json", "yaml", "binary", "s"}
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f), NoHavoc: func(ev *Event) bool { return true }}) {
		if p.Exit == "cut" {
			continue
		}
		poss := c.possible(p.FactsBefore(len(p.Events)), universe, func(x *Term) bool { return stripTyped(x) == as })
		if p.Exit != "return" {
			continue
		}
		bad := func(rule, what string) { c.Bad(rule, n+"/"+what, f.Pos(), p, "%s %s", n, what) }
		if len(poss) != 1 || poss["*"] {
			bad("format", "renders a format that doesn't exist, or the same for several")
			continue
		}
		is := func(pred func(ev *Event) bool) bool {
			for _, ev := range p.Events {
				if ev.Kind == "call" && pred(ev) {
					return true
				}
			}
			return false
		}
		arg := func(ev *Event, t *Term) bool {
			for _, a := range ev.Args {
				if a.Any(func(x *Term) bool { return x == t }) {
					return true
				}
			}
			return ev.Recv != nil && stripTyped(ev.Recv) == t
		}
		isNil := false
		for t, v := range p.FactsBefore(len(p.Events)) {
			if t.Op == "call" && strings.HasSuffix(t.CallName(), ".Equals") && t.Any(func(x *Term) bool { return x == val }) && v {
				isNil = true
			}
			if t.Op == "eq" && v && t.Any(func(x *Term) bool { return x == val }) {
				isNil = true
			}
		}
		c.Count("renderings", 1)
		ok := false
		streamed := is(func(ev *Event) bool { return strings.HasSuffix(ev.Name, ".Stream") && arg(ev, val) })
		switch {
		case poss["json"] && isNil:
			ok = is(func(ev *Event) bool {
				if !arg(ev, out) {
					return false
				}
				for _, a := range ev.Args {
					if s, isC := stripTyped(a).StrConst(); isC && strings.TrimSpace(s) == "null" {
						return true
					}
				}
				return false
			})
		case poss["json"]:
			ok = streamed && is(func(ev *Event) bool { return strings.HasSuffix(ev.Name, "streamer.JSON") && arg(ev, out) })
		case poss["yaml"] && isNil:
			ok = is(func(ev *Event) bool { return arg(ev, out) })
		case poss["yaml"]:
			ok = streamed && is(func(ev *Event) bool { return strings.HasSuffix(ev.Name, "yaml.Marshal") }) && is(func(ev *Event) bool {
				return arg(ev, out) && ev.Args[len(ev.Args)-1].Any(func(x *Term) bool { return strings.HasSuffix(x.CallName(), "yaml.Marshal") })
			})
		case poss["binary"]:
			ok = is(func(ev *Event) bool { return strings.HasSuffix(ev.Name, ".Write") && arg(ev, out) && arg(ev, val) })
		case poss["s"]:
			ok = is(func(ev *Event) bool {
				return strings.HasPrefix(ev.Name[strings.LastIndex(ev.Name, ".")+1:], "Fprintln") && arg(ev, out) && arg(ev, val)
			})
		}
		if !ok {
			bad("format", "doesn't render the value in the format that is asked for")
		}
	}
}
