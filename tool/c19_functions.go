package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C19", Technique: "provenance of loaded functions, namespaces and plugin paths over all paths (path-sensitive dataflow on SSA)",
		Explain: "On each path the function loaded for an entry is the one registered with the name of the entry's function, or else, only when none is, the one with that name of the plugin at the entry's place: the plugin file, or else the name, below the plugin directory unless it is absolute. Each part of that path becomes one namespace, in order, and the finder of plugins starts the plugin at exactly the path that the names of its namespaces form.",
		Check:   checkFunctions})
}

func checkFunctions(c *Ctx) {
	for _, t := range c.sessionTypes() {
		fnNS, plNS := c.loadFunction(t)
		if fnNS == "" || plNS == "" {
			c.Anchor("namespaces of functions and plugins")
			continue
		}
		c.Must(fnNS != plNS, "namespace", t.String(), namedOf(t).Obj().Pos(), nil, "registered functions and plugins have the same namespace %q", fnNS)
		c.namespaces(t, fnNS, plNS)
		c.pluginFinder(t, plNS)
	}
	c.Min("functions loaded", 2)
	c.Min("functions not found", 2)
	c.Min("plugin locations", 3)
	c.Min("namespaces made", 4)
	c.Min("plugins found", 1)
}

// inlineBeside inlines what is in the same package and doesn't implement a method of api.Invocation or api.Entry
func (c *Ctx) loadFunction(t types.Type) (fnNS, plNS string) {
	f := c.methodOn(t, "LoadFunction")
	if f == nil {
		c.Anchor("Session.LoadFunction")
		return
	}
	he := c.paramTermOf(f, 1)
	entry := func(x *Term, name string) bool {
		x = stripTyped(x)
		return x != nil && x.Op == "call" && len(x.Args) == 1 && stripTyped(x.Args[0]) == he && c.apiCall(x, "Entry", name)
	}
	isName := func(x *Term) bool {
		x = stripTyped(x)
		return x != nil && x.Op == "call" && len(x.Args) == 1 && strings.HasSuffix(x.CallName(), ").Name") && entry(x.Args[0], "Function")
	}
	isLoader := func(x *Term) bool {
		x = stripTyped(x)
		return x != nil && x.Type != nil && loaderType(x.Type) && (x.Op == "init" || x.Op == "call" && strings.HasSuffix(x.CallName(), ").Loader"))
	}
	const nsCall = "(" + dgoPkg + ".Loader).Namespace"
	namespace := func(x *Term) (base, name *Term) {
		x = stripTyped(x)
		if x == nil || x.Op != "call" || x.CallName() != nsCall {
			return nil, nil
		}
		return stripTyped(x.Args[0]), stripTyped(x.Args[1])
	}
	// registered reports what is known about a function registered with the name
	sep := "/"
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) }}) {
		if p.Exit != "return" && p.Exit != "cut" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, format string, args ...interface{}) { c.Bad(rule, c.N(f), f.Pos(), p, format, args...) }
		var reg *Term
		var isReg, regKnown bool
		var parts, path *Term
		var chain []*Event
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Name == nsCall:
				if base := stripTyped(ev.Recv); isLoader(base) && base.Op != "loopvar" {
					k, ok := stripTyped(ev.Args[0]).StrConst()
					if !ok {
						bad("namespace", "the namespace of functions isn't a constant")
					}
					_ = k
				} else {
					chain = append(chain, ev)
				}
			case strings.HasSuffix(ev.Name, optGet) && len(ev.Args) == 1 && ev.Recv != nil:
				base, name := namespace(ev.Recv)
				if base == nil || !isLoader(base) || base.Op == "loopvar" || chain != nil || !isName(ev.Args[0]) {
					continue
				}
				if k, ok := name.StrConst(); ok && reg == nil {
					reg = ev.Res
					if fnNS == "" {
						fnNS = k
					}
					c.Must(k == fnNS, "registered", c.N(f), ev.Pos, p, "registered functions are in different namespaces")
				}
			case ev.Name == "strings.Split":
				parts, path = ev.Res, stripTyped(ev.Args[0])
				if s, ok := ev.Args[1].StrConst(); ok {
					sep = s
				}
			}
		}
		if reg == nil {
			bad("registered", "a path doesn't look for a function that is registered with the name of the entry's function")
			continue
		}
		isReg, regKnown = isaFact(facts, reg, "Function")
		if !regKnown {
			bad("registered", "whether there is a registered function isn't known")
			continue
		}
		if isReg {
			if p.Exit != "return" || p.Res == nil || p.Res.Op != "tuple" {
				bad("registered", "a registered function isn't returned")
				continue
			}
			c.Count("functions loaded", 1)
			b, known := p.St.decide(p.Res.Args[1])
			c.Must(stripTyped(p.Res.Args[0]) == reg && known && b, "registered", c.N(f), f.Pos(), p, "the function registered with the name of the entry's function isn't the one that is returned")
			continue
		}
		// the place of the plugin
		if parts == nil {
			bad("plugin", "a path neither finds a registered function nor looks for a plugin")
			continue
		}
		c.Count("plugin locations", 1)
		c.Must(c.pluginPlace(p, facts, path, he, entry, isName), "plugin-path", c.N(f), f.Pos(), p, "the path of the plugin isn't the plugin file, or else the name of the function, below the plugin directory unless it is absolute")
		c.Must(sep == "/" || c.windows() && sep == "\\", "plugin-path", c.N(f)+" parts", f.Pos(), p, "the path of a plugin is split by %q", sep)
		var last *Term
		ok := true
		for i, ev := range chain {
			arg := stripTyped(ev.Args[0])
			idx := (*Term)(nil)
			if arg.Op == "init" && arg.Args[0].Op == "iaddr" && stripTyped(arg.Args[0].Args[0]) == parts {
				idx = arg.Args[0].Args[1]
			}
			if idx == nil {
				ok = false
				break
			}
			recv := stripTyped(ev.Recv)
			if i == 0 {
				base, name := namespace(recv)
				k, isK := "", false
				if name != nil {
					k, isK = name.StrConst()
				}
				if base == nil || !isLoader(base) || !isK || !isZeroInt(idx) {
					ok = false
					break
				}
				if plNS == "" {
					plNS = k
				}
				if k != plNS {
					ok = false
				}
			} else if recv.Op == "loopvar" {
				if len(recv.Args) != 2 || stripTyped(recv.Args[1]) != chain[0].Res || !succIndex(idx) {
					ok = false
				}
			} else {
				ok = false
			}
			last = ev.Res
		}
		c.Must(ok, "plugin-namespaces", c.N(f), f.Pos(), p, "the parts of the path of the plugin don't become one namespace each, in order")
		if p.Exit != "return" || !ok {
			continue
		}
		if p.Res.Op != "tuple" {
			continue
		}
		fn, is := stripTyped(p.Res.Args[0]), p.Res.Args[1]
		v, known := p.St.decide(is)
		if last != nil {
			if isNil, k := nilFact(facts, last); k && isNil {
				c.Count("functions not found", 1)
				c.Must(known && !v, "plugin-missing", c.N(f), f.Pos(), p, "a function is said to be found although there is no plugin")
				continue
			}
		}
		var src *Term
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, optGet) && len(ev.Args) == 1 && ev.Res != reg && isName(ev.Args[0]) {
				base := stripTyped(ev.Recv)
				if base == last || base.Op == "loopvar" && len(chain) > 0 && len(base.Args) == 2 && stripTyped(base.Args[1]) == chain[0].Res || chain == nil && nsIs(base, namespace, plNS) {
					src = ev.Res
				}
			}
		}
		if src == nil {
			bad("plugin-function", "the function that is returned isn't asked for, with its name, in the last namespace of the plugin")
			continue
		}
		isFn, fk := isaFact(facts, src, "Function")
		switch {
		case fk && isFn:
			c.Count("functions loaded", 1)
			c.Must(fn == src && known && v, "plugin-function", c.N(f), f.Pos(), p, "the function of the plugin isn't the one that is returned")
		case fk:
			c.Count("functions not found", 1)
			c.Must(known && !v, "plugin-function", c.N(f), f.Pos(), p, "a function is said to be found although the plugin has none with its name")
		default:
			c.Must(is.Op == "isa" && is.Args[0] == src || is.Op == "ext", "plugin-function", c.N(f), f.Pos(), p, "whether the plugin has the function isn't known")
		}
	}
	return
}

func nsIs(x *Term, namespace func(*Term) (*Term, *Term), name string) bool {
	_, n := namespace(x)
	if n == nil {
		return false
	}
	k, ok := n.StrConst()
	return ok && (name == "" || k == name)
}

// pluginPlace checks the path of a plugin against the settings of the entry
func (c *Ctx) pluginPlace(p *Path, facts map[*Term]bool, path, he *Term, entry func(*Term, string) bool, isName func(*Term) bool) bool {
	isFile := func(x *Term) bool {
		x = stripTyped(x)
		empty := 0 // of the plugin file
		for t, v := range facts {
			for i := range t.Args {
				if t.Op == "eq" && isEmptyStr(t.Args[i]) && entry(t.Args[1-i], "PluginFile") {
					empty = -1
					if v {
						empty = 1
					}
				}
			}
			if t.Op == "lt" && isZeroInt(t.Args[0]) && t.Args[1].Op == "len" && entry(t.Args[1].Args[0], "PluginFile") || t.Op == "eq" && len(t.Args) == 2 && (t.Args[0].Op == "len" && entry(t.Args[0].Args[0], "PluginFile") && isZeroInt(t.Args[1]) || t.Args[1].Op == "len" && entry(t.Args[1].Args[0], "PluginFile") && isZeroInt(t.Args[0])) {
				if empty = -1; v == (t.Op == "eq") {
					empty = 1
				}
			}
		}
		switch empty {
		case -1:
			return entry(x, "PluginFile")
		case 1:
			if x.Op == "concat" && len(x.Args) == 2 {
				// executables on Windows
				if k, ok := x.Args[1].StrConst(); ok && k == ".exe" && c.windows() {
					x = stripTyped(x.Args[0])
				}
			}
			return isName(x)
		}
		return false
	}
	abs := 0
	for t, v := range facts {
		if t.Op == "call" && t.CallName() == "path/filepath.IsAbs" && isFile(t.Args[0]) {
			abs = -1
			if v {
				abs = 1
			}
		}
	}
	x := stripTyped(path)
	unclean := func(x *Term) *Term {
		x = stripTyped(x)
		for x != nil && x.Op == "call" && x.CallName() == "path/filepath.Clean" {
			x = stripTyped(x.Args[0])
		}
		return x
	}
	switch abs {
	case 1:
		// Clean is what makes one path of different spellings
		if x.Op != "call" || x.CallName() != "path/filepath.Clean" {
			return false
		}
		return isFile(unclean(x))
	case -1:
		src := ext0(unclean(x))
		if src == nil || src.CallName() != "path/filepath.Abs" {
			return false
		}
		if _, failed, known := c.errorOf(p, facts, src); !known || failed {
			return false
		}
		j := unclean(src.Args[0])
		if j == nil || j.Op != "call" || j.CallName() != "path/filepath.Join" {
			return false
		}
		as := argsOf(j)
		return len(as) == 2 && entry(as[0], "PluginDir") && isFile(as[1])
	}
	return false
}

// windows tests if the program is analysed for Windows
func (c *Ctx) windows() bool {
	for _, pk := range c.P.All {
		if pk.PkgPath == "runtime" {
			if k, ok := pk.Types.Scope().Lookup("GOOS").(*types.Const); ok {
				return k.Val().ExactString() == `"windows"`
			}
		}
	}
	return false
}

// namespaces checks the functions that create namespaces of loaders
func (c *Ctx) namespaces(t types.Type, fnNS, plNS string) {
	pkg := namedOf(t).Obj().Pkg()
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		ps := f.Signature.Params()
		if pkgOf(f) != pkg || f.Synthetic != "" || ps.Len() != 2 || f.Signature.Results().Len() != 1 || !loaderType(f.Signature.Results().At(0).Type()) || !loaderType(ps.At(0).Type()) || !types.Identical(ps.At(1).Type(), types.Typ[types.String]) {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	made := map[string]bool{}
	for _, f := range fs {
		n := len(f.Params)
		l, name := c.paramTermOf(f, n-2), c.paramTermOf(f, n-1)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkg && g.Signature.Results().Len() == 1 && loaderType(g.Signature.Results().At(0).Type())
		}}) {
			if p.Exit != "return" || p.Res == nil {
				continue
			}
			c.Count("namespaces made", 1)
			facts := p.FactsBefore(len(p.Events))
			poss := c.possible(facts, []string{fnNS, plNS}, func(x *Term) bool { return stripTyped(x) == name })
			r := stripTyped(p.Res)
			if r.IsNil() {
				c.Must(!poss[fnNS] && !poss[plNS], "namespace", c.N(f)+" none", f.Pos(), p, "there is no namespace for functions or for plugins")
				continue
			}
			if r.Op != "call" || !strings.HasSuffix(r.CallName(), "/loader.New") || len(r.Args) < 5 {
				c.Bad("namespace", c.N(f), f.Pos(), p, "the namespace isn't a new loader")
				continue
			}
			as := r.Args
			k, isK := stripTyped(as[1]).StrConst()
			ok := stripTyped(as[0]) == l && (stripTyped(as[1]) == name || isK && len(poss) == 1 && poss[k])
			c.Must(ok, "namespace", c.N(f)+" name", f.Pos(), p, "the loader made for a namespace doesn't have its name and its parent")
			if len(poss) == 1 && poss[fnNS] {
				made[fnNS] = true
				continue
			}
			if len(poss) == 1 && poss[plNS] {
				made[plNS] = true
			}
			// below plugins everything may be a plugin or a directory
			c.Must(!as[3].IsNil() && !as[4].IsNil(), "namespace", c.N(f)+" plugins", f.Pos(), p, "no plugins are found below a namespace")
		}
	}
	c.Must(made[fnNS] && made[plNS], "namespace", t.String(), namedOf(t).Obj().Pos(), nil, "there is no namespace for functions or for plugins")
	// the loader of the session has these namespaces
	for _, f := range c.P.Funcs {
		ps := f.Signature.Params()
		if pkgOf(f) != pkg || f.Synthetic != "" || f.Parent() != nil || c.piece(f) || ps.Len() != 1 || f.Signature.Results().Len() != 1 || !loaderType(f.Signature.Results().At(0).Type()) || !loaderType(ps.At(0).Type()) {
			continue
		}
		l := c.paramTermOf(f, len(f.Params)-1)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return c.piece(g) || g.Parent() != nil && outer(g) == f }}) {
			if p.Exit != "return" || p.Res == nil {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			isNil, known := nilFact(facts, l)
			if !known {
				continue
			}
			c.Count("session loaders", 1)
			r := stripTyped(p.Res)
			ok := r.Op == "call" && len(r.Args) > 2 && !r.Args[len(r.Args)-1].IsNil()
			if isNil {
				ok = ok && strings.HasSuffix(r.CallName(), "/loader.New")
			} else {
				ok = ok && r.CallName() == "("+dgoPkg+".Loader).NewChild" && stripTyped(r.Args[0]) == l
			}
			c.Must(ok, "session-loader", c.N(f), f.Pos(), p, "the loader of a session isn't a child of the one given, or else a new one, with namespaces of its own")
		}
	}
	c.Min("session loaders", 2)
}

// pluginFinder checks what path the plugin is started with
func (c *Ctx) pluginFinder(t types.Type, plNS string) {
	pkg := namedOf(t).Obj().Pkg()
	for _, f := range c.P.Funcs {
		ps := f.Signature.Params()
		if pkgOf(f) != pkg || f.Synthetic != "" || ps.Len() != 2 || f.Signature.Results().Len() != 1 || !loaderType(ps.At(0).Type()) {
			continue
		}
		if it, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok || it.NumMethods() != 0 {
			continue
		}
		l := c.paramTermOf(f, len(f.Params)-2)
		isAN := func(x *Term) bool {
			x = stripTyped(x)
			return x != nil && x.Op == "call" && x.CallName() == "("+dgoPkg+".Loader).AbsoluteName" && stripTyped(x.Args[0]) == l
		}
		marker := "/" + plNS + "/"
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkg && c.small(g) }}) {
			if p.Exit != "return" || p.Res == nil {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			isIdx := func(x *Term) bool {
				x = stripTyped(x)
				if x == nil || x.Op != "call" || x.CallName() != "strings.Index" || !isAN(x.Args[0]) {
					return false
				}
				k, ok := x.Args[1].StrConst()
				return ok && k == marker
			}
			lo, hi := intBounds(facts, isIdx, -1, 1<<30)
			r := stripTyped(p.Res)
			if r.IsNil() {
				// no name, or no plugins at all
				ok := hi < 0
				for x, v := range facts {
					if x.Op == "eq" && v && (x.Args[0].IsNil() && x.Args[1].Op == "mapget" || x.Args[1].IsNil() && x.Args[0].Op == "mapget") {
						ok = true
					}
				}
				c.Must(ok, "plugin-start", c.N(f)+" none", f.Pos(), p, "a plugin isn't started")
				continue
			}
			c.Count("plugins found", 1)
			ok := false
			if r.Op == "call" {
				for _, a := range r.Args {
					a = stripTyped(a)
					if a.Op == "slice" && c.windows() && stripTyped(a.Args[0]).Op == "slice" {
						// the slash before a drive letter
						if k, isK := a.Args[1].IntConst(); isK && k == 1 {
							a = stripTyped(a.Args[0])
						}
					}
					if a.Op != "slice" || !isAN(a.Args[0]) {
						continue
					}
					b := stripTyped(a.Args[1])
					if b.Op == "bin" && b.Aux == "+" {
						for i := range b.Args {
							if k, isK := b.Args[i].IntConst(); isK && k == int64(len(marker)-1) && isIdx(b.Args[1-i]) {
								ok = true
							}
						}
					}
				}
			}
			c.Must(ok && lo >= 0, "plugin-start", c.N(f), f.Pos(), p, "the plugin that is started isn't the one at the path that the namespaces below %q form", plNS)
		}
	}
}
