package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C23", Technique: "provenance of the parts of a session from its options, over all paths (path-sensitive dataflow on SSA)",
		Explain: "On each path of a function that creates a session, the options that it returns are all of those given, frozen, with the location of the configuration added exactly when there was none: from the root and file name options, or else the working directory and the environment, or else the default name. Dialect, scope and top function are those given, or the defaults exactly when there were none. The scope of an invocation is that of the session, below the variables of the invocation. Functions given as options and the given loader are those that the session's loader is made of.",
		Check:   checkSession})
}

const optGet = ").Get"

// sessionTypes returns the types that implement api.Session themselves, with the functions that create them
func (c *Ctx) sessionTypes() (ts []types.Type) {
	for _, t := range c.role("api", "Session", 1) {
		f := c.methodOn(t, "SharedCache")
		if f == nil || f.Synthetic != "" || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != namedOf(t) {
			continue
		}
		ts = append(ts, t)
	}
	return
}

func (c *Ctx) sessionMakers(t types.Type) (fs []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.topFuncs() {
		if f.Synthetic == "" && makes(f, namedOf(t)) {
			if f = c.userOf(f); seen[f] {
				continue
			}
			seen[f] = true
			fs = append(fs, f)
		}
	}
	return
}

// sessionSlots tells where the results of getters are found
func (c *Ctx) sessionSlots(t types.Type, names ...string) map[string]string {
	slots := map[string]string{}
	for _, name := range names {
		f := c.methodOn(t, name)
		if f == nil {
			c.Anchor("Session." + name)
			return nil
		}
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if p.Exit != "return" {
				continue
			}
			k := slotOf(p.Res)
			if !c.Must(k != "" && (slots[name] == "" || slots[name] == k), "getter", c.N(f), f.Pos(), p, "%s doesn't return what the session holds for this purpose", c.N(f)) {
				return nil
			}
			slots[name] = k
		}
	}
	return slots
}

func loaderType(t types.Type) bool { return isNamed(t, dgoPkg, "Loader") }

func checkSession(c *Ctx) {
	for _, t := range c.sessionTypes() {
		slots := c.sessionSlots(t, "SessionOptions", "TopProvider", "Scope", "Dialect", "Loader")
		if slots == nil {
			continue
		}
		seen := map[string]string{}
		for _, n := range []string{"SessionOptions", "TopProvider", "Scope", "Dialect", "Loader"} {
			if o := seen[slots[n]]; o != "" {
				c.Bad("getter", n, namedOf(t).Obj().Pos(), nil, "%s and %s return the same part of a session", o, n)
			}
			seen[slots[n]] = n
		}
		for _, f := range c.sessionMakers(t) {
			c.sessionMade(t, f, slots)
		}
		c.sessionScopes(t, slots)
		c.sessionLoader(t)
	}
	for _, t := range c.ivTypes() {
		c.configChosen(t)
	}
	c.coerced()
	c.Min("uses of a configuration's path", 6)
	c.Min("coercions", 3)
	c.Min("sessions made", 20)
	c.Min("invocations made", 2)
	c.Min("function loaders", 2)
}

func (c *Ctx) apiConst(name string) string {
	if pk := c.P.Pkg("api"); pk != nil {
		if k, ok := pk.Scope().Lookup(name).(*types.Const); ok {
			return strings.Trim(k.Val().ExactString(), "\"`")
		}
	}
	c.Anchor("api." + name)
	return "?"
}

func (c *Ctx) sessionMade(t types.Type, f *ssa.Function, slots map[string]string) {
	var top, opts, ldr *Term
	for i, pr := range f.Params {
		pt := c.paramTermOf(f, i)
		switch u := pr.Type().Underlying().(type) {
		case *types.Signature:
			top = pt
		case *types.Interface:
			switch {
			case loaderType(pr.Type()):
				ldr = pt
			case u.NumMethods() == 0:
				opts = pt
			}
		}
	}
	if top == nil || opts == nil || ldr == nil {
		c.Anchor("parameters of " + c.N(f))
		return
	}
	cfg, root, file, dialect, scope := c.apiConst("HieraConfig"), c.apiConst("HieraRoot"), c.apiConst("HieraConfigFileName"), c.apiConst("HieraDialect"), c.apiConst("HieraScope")
	dflt := ""
	if pk := c.P.Pkg("config"); pk != nil {
		if k, ok := pk.Scope().Lookup("FileName").(*types.Const); ok {
			dflt = strings.Trim(k.Val().ExactString(), "\"`")
		}
	}
	inline := func(g *ssa.Function) bool {
		rs := g.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if loaderType(rs.At(i).Type()) {
				return false
			}
		}
		return pkgOf(g) == pkgOf(f)
	}
	for _, p := range c.Run(f, &Policy{Inline: inline}) {
		if p.Exit != "return" && p.Exit != "panic" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, c.N(f), f.Pos(), p, format, args...)
		}
		// the map of options
		var o *Term
		var s *Term
		if p.Exit == "return" {
			s = stripTyped(p.Res)
			if s == nil || s.Op != "alloc" || namedOf(s.Type) != namedOf(t) {
				continue
			}
			c.Count("sessions made", 1)
			if o = slotValue(p, s, slots["SessionOptions"]); o == nil {
				bad("options", "the session has no options")
				continue
			}
		}
		isOpts := func(x *Term) bool { return x != nil && (o == nil || x == o) }
		get := func(x *Term, name string) bool {
			x = stripTyped(x)
			if x == nil || x.Op != "call" || len(x.Args) != 2 || !strings.HasSuffix(x.CallName(), optGet) || !isOpts(stripTyped(x.Args[0])) {
				return false
			}
			k, ok := stripTyped(x.Args[1]).StrConst()
			return ok && k == name
		}
		text := func(x *Term, name string) bool {
			x = stripTyped(x)
			return x != nil && x.Op == "call" && len(x.Args) == 1 && (strings.HasSuffix(x.CallName(), ").String") || strings.HasSuffix(x.CallName(), ").GoString")) && get(x.Args[0], name)
		}
		// 1: present, -1: absent, 0: not known
		present := func(name string) int {
			for x, v := range facts {
				switch {
				case x.Op == "eq" && (x.Args[0].IsNil() && get(x.Args[1], name) || x.Args[1].IsNil() && get(x.Args[0], name)):
					if v {
						return -1
					}
					return 1
				case x.Op == "isa" && v && get(x.Args[0], name):
					return 1
				}
			}
			return 0
		}
		isa := func(name, typ string) int {
			for x, v := range facts {
				if x.Op == "isa" && x.Aux == dgoPkg+"."+typ && get(x.Args[0], name) {
					if v {
						return 1
					}
					return -1
				}
			}
			return 0
		}
		if p.Exit == "panic" {
			// only for reasons that callers can't do anything about
			last := p.Events[len(p.Events)-1]
			if last.Kind != "panic" || last.In == nil || pkgOf(last.In) != pkgOf(f) {
				continue
			}
			poss := c.possible(facts, []string{"dgo", "pcore"}, func(x *Term) bool { return text(x, dialect) })
			ok := len(poss) == 1 && poss["*"]
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Name == "os.Getwd" {
					if _, failed, known := c.errorOf(p, facts, ev.Res); known && failed {
						ok = true
					}
				}
			}
			c.Must(ok, "refused", c.N(f), last.Pos, p, "a session isn't created although its options can be used")
			continue
		}

		// all options given are there, and no other
		given, frozen := false, false
		var added *Term
		nAdded := 0
		late := false
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Recv == nil || stripTyped(ev.Recv) != o || ev.Method == nil {
				continue
			}
			switch ev.Method.Name() {
			case "PutAll":
				a := stripTyped(ev.Args[0])
				if a == nil || !a.Any(func(x *Term) bool { return x == opts }) {
					bad("options", "something else than the options given is added to the options of the session")
				}
				given = true
				if nAdded > 0 {
					late = true // the location that was added could be overwritten
				}
			case "Put":
				k, _ := stripTyped(ev.Args[0]).StrConst()
				if k != cfg {
					bad("options", "%q is added to the options of the session", k)
				}
				added = stripTyped(ev.Args[1])
				nAdded++
			case "Remove", "RemoveAll", "Set":
				bad("options", "options are removed from those of the session")
			case "Freeze":
				frozen = true
				continue
			default:
				continue
			}
			if frozen {
				bad("options-frozen", "options of the session are changed after they were frozen")
			}
		}
		if isNil, known := nilFact(facts, opts); !(known && isNil) && !o.Any(func(x *Term) bool { return x == opts }) {
			c.Must(given, "options", c.N(f)+" given", f.Pos(), p, "the options given are not those of the session")
		}
		if o.Op == "call" && strings.HasSuffix(o.CallName(), ").FrozenCopy") {
			frozen = true
		}
		c.Must(frozen && !late, "options-frozen", c.N(f), f.Pos(), p, "the options of the session are not frozen")

		// the location of the configuration
		switch present(cfg) {
		case 0:
			bad("location", "whether the location of the configuration is given isn't known")
		case 1:
			c.Must(nAdded == 0, "location", c.N(f)+" given", f.Pos(), p, "the location of the configuration is changed although it was given")
		case -1:
			ok := nAdded == 1 && added != nil && added.Op == "call" && added.CallName() == "path/filepath.Join" && len(argsOf(added)) == 2
			if ok {
				dir, name := argsOf(added)[0], argsOf(added)[1]
				switch present(root) {
				case 1:
					ok = text(dir, root)
				case -1:
					src := ext0(stripTyped(dir))
					ok = src != nil && src.Op == "call" && src.CallName() == "os.Getwd"
					if ok {
						_, failed, known := c.errorOf(p, facts, src)
						ok = known && !failed
					}
				default:
					ok = false
				}
				c.Must(ok, "location", c.N(f)+" directory", f.Pos(), p, "the directory of the configuration isn't the root that was given, or else the working directory")
				ok = false
				switch present(file) {
				case 1:
					ok = text(name, file)
				case -1:
					env, set := (*Term)(nil), 0
					for _, ev := range p.Events {
						if ev.Kind == "call" && ev.Name == "os.LookupEnv" {
							if k, isK := ev.Args[0].StrConst(); isK && k == "HIERA_CONFIGFILE" {
								env = ev.Res
								if is := c.extOf(p, ev.Res, 1); is != nil {
									if v, known := p.St.decide(is); known && v {
										set = 1
									} else if known {
										set = -1
									}
								}
							}
						}
					}
					switch set {
					case 1:
						ok = ext0(stripTyped(name)) == env
					case -1:
						k, isK := stripTyped(name).StrConst()
						ok = isK && k == dflt
					}
				}
				c.Must(ok, "location", c.N(f)+" file", f.Pos(), p, "the file name of the configuration isn't the one given, or else that of HIERA_CONFIGFILE, or else %s", dflt)
			} else {
				bad("location", "the location of the configuration isn't made of a directory and a file name")
			}
		}

		// dialect
		d := slotValue(p, s, slots["Dialect"])
		want := ""
		switch isa(dialect, "String") {
		case 1:
			poss := c.possible(facts, []string{"dgo", "pcore"}, func(x *Term) bool { return text(x, dialect) })
			if len(poss) == 1 && poss["dgo"] {
				want = ".DgoDialect"
			} else if len(poss) == 1 && poss["pcore"] {
				want = "pcore.Dialect"
			}
		case -1:
			want = ".DgoDialect"
		default:
			if present(dialect) == -1 {
				want = ".DgoDialect"
			}
		}
		isNil := false
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Res != nil && strings.HasSuffix(ev.Name, "Dialect") {
				if v, known := nilFact(facts, ev.Res); known && v {
					isNil = true
				}
			}
		}
		if !isNil { // dialects are never nil
			c.Must(want != "" && d != nil && d.Op == "call" && strings.HasSuffix(d.CallName(), want), "dialect", c.N(f), f.Pos(), p, "the dialect of the session isn't the one that was asked for, or else that of dgo")
		}

		// scope
		sc := slotValue(p, s, slots["Scope"])
		ok := false
		switch isa(scope, "Keyed") {
		case 1:
			frozenCopy := sc != nil && sc.Op == "call" && strings.HasSuffix(sc.CallName(), ").FrozenCopy") && get(sc.Args[0], scope)
			switch isa(scope, "Freezable") {
			case 1:
				ok = frozenCopy
			default:
				ok = get(sc, scope) && isa(scope, "Freezable") == -1 || frozenCopy
			}
		case -1:
			ok = sc != nil && emptyMap(p, sc)
		default:
			ok = present(scope) == -1 && sc != nil && emptyMap(p, sc)
		}
		c.Must(ok, "scope", c.N(f), f.Pos(), p, "the scope of the session isn't the frozen scope that was given, or else empty")

		// top function
		tp := slotValue(p, s, slots["TopProvider"])
		ok = false
		if isNil, known := nilFact(facts, top); known && isNil {
			ok = tp != nil && tp.Op == "func" && tp.Fn != nil && returnsProviderFn2(tp.Fn) && tp.Fn.Name() == "ConfigLookupKey"
		} else if known {
			ok = tp == top
		}
		c.Must(ok, "top-function", c.N(f), f.Pos(), p, "the top function of the session isn't the one given, or else that of the configuration")

		// loader
		l := slotValue(p, s, slots["Loader"])
		c.Must(l != nil && l.Op == "call" && (l.Any(func(x *Term) bool { return x == ldr })), "loader", c.N(f), f.Pos(), p, "the loader of the session isn't made from the loader given")
	}
}

func returnsProviderFn2(f *ssa.Function) bool { return f.Signature.Params().Len() == 2 }

// argsOf returns the arguments of a call, also those of a variadic one
func argsOf(t *Term) []*Term {
	as := t.Args
	if len(as) == 1 && as[0].Op == "slicelit" {
		as = as[0].Args
	}
	return as
}

// sessionScopes checks the scope and explainer of the invocations that a session creates
func (c *Ctx) sessionScopes(t types.Type, slots map[string]string) {
	f := c.methodOn(t, "Invocation")
	if f == nil {
		c.Anchor("Session.Invocation")
		return
	}
	vars, expl := c.paramTermOf(f, 1), c.paramTermOf(f, 2)
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) }}) {
		if p.Exit != "return" {
			continue
		}
		c.Count("invocations made", 1)
		facts := p.FactsBefore(len(p.Events))
		r := stripTyped(p.Res)
		st := structOf(r.Type)
		if r.Op != "alloc" || st == nil {
			c.Bad("invocation", c.N(f), f.Pos(), p, "the invocation that %s returns isn't a new one", c.N(f))
			continue
		}
		var scope *Term
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			val := stripTyped(p.St.heap[p.St.faddr(r, v)])
			switch {
			case isNamed(v.Type(), dgoPkg, "Keyed"):
				scope = val
			case isNamed(v.Type(), c.P.Mod+"/api", "Explainer"):
				c.Must(val == expl, "invocation", c.N(f)+" explainer", f.Pos(), p, "the explainer of the invocation isn't the one given")
			case isNamed(v.Type(), c.P.Mod+"/api", "Session"):
				c.Must(val == c.paramTermOf(f, 0), "invocation", c.N(f)+" session", f.Pos(), p, "the session of the invocation isn't the one that creates it")
			}
		}
		own := func(x *Term) bool { return x != nil && slotOf(x) == slots["Scope"] }
		isNil, known := nilFact(facts, vars)
		switch {
		case known && isNil:
			c.Must(own(scope), "invocation", c.N(f)+" scope", f.Pos(), p, "an invocation without variables doesn't have the scope of the session")
		case known:
			ok := scope != nil && scope.Op == "alloc"
			var over, under *types.Var
			if ok {
				s2 := structOf(scope.Type)
				for i := 0; s2 != nil && i < s2.NumFields(); i++ {
					v := s2.Field(i)
					val := stripTyped(p.St.heap[p.St.faddr(scope, v)])
					if own(val) {
						under = v
					} else if val != nil && val.Any(func(x *Term) bool { return x == vars }) {
						over = v
					}
				}
			}
			if c.Must(ok && over != nil && under != nil, "invocation", c.N(f)+" scope", f.Pos(), p, "the scope of an invocation with variables isn't made of these and the scope of the session") {
				c.scopeOver(scope.Type, over, under)
			}
		default:
			c.Bad("invocation", c.N(f)+" scope", f.Pos(), p, "whether the invocation has variables of its own isn't known")
		}
	}
}

// scopeOver checks that one scope is asked first, and the other only for what it doesn't have
func (c *Ctx) scopeOver(t types.Type, over, under *types.Var) {
	f := c.P.MethodNamed(t, "Get")
	if f == nil {
		if n := namedOf(t); n != nil {
			f = c.P.MethodNamed(types.NewPointer(n), "Get")
		}
	}
	if f == nil {
		c.Anchor("Get of the scope of an invocation")
		return
	}
	key := c.paramTermOf(f, 1)
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit != "return" {
			continue
		}
		c.Count("variables of invocations", 1)
		facts := p.FactsBefore(len(p.Events))
		from := func(x *Term, v *types.Var) bool {
			x = stripTyped(x)
			return x != nil && x.Op == "call" && len(x.Args) == 2 && strings.HasSuffix(x.CallName(), optGet) && stripTyped(x.Args[1]) == key && x.Args[0].Op == "init" && FieldOf(x.Args[0].Args[0]) == v
		}
		missing, found := false, false
		for x, v := range facts {
			if x.Op == "eq" && (x.Args[0].IsNil() && from(x.Args[1], over) || x.Args[1].IsNil() && from(x.Args[0], over)) {
				missing, found = v, !v
			}
		}
		c.Must(found && from(p.Res, over) || missing && from(p.Res, under), "invocation", c.N(f), f.Pos(), p, "a variable isn't that of the invocation, or else that of the session")
	}
}

// sessionLoader checks the loaders of functions and plugins
func (c *Ctx) sessionLoader(t types.Type) {
	fns := c.apiConst("HieraFunctions")
	pkg := namedOf(t).Obj().Pkg()
	// the functions that create loaders, with the closures that create namespaces
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if pkgOf(f) != pkg || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !loaderType(f.Signature.Results().At(0).Type()) {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	isOptions := func(x *Term) bool {
		x = stripTyped(x)
		return x != nil && (x.Op == "call" && strings.HasSuffix(x.CallName(), ").SessionOptions") || x.Op == "mapget" || x.Op == "ext")
	}
	for _, f := range fs {
		ps := c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkg && !strings.HasSuffix(g.Name(), "SessionOptions")
		}})
		for _, p := range ps {
			if p.Exit != "return" || p.Res == nil {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			r := stripTyped(p.Res)
			if r.Op != "call" || !strings.HasSuffix(r.CallName(), "/loader.New") || len(r.Args) < 5 {
				continue
			}
			m := stripTyped(r.Args[2])
			// a loader with content must be that of the functions given
			getsFns := func(x *Term) bool {
				x = stripTyped(x)
				if x == nil || x.Op != "call" || len(x.Args) != 2 || !strings.HasSuffix(x.CallName(), optGet) || !isOptions(x.Args[0]) {
					return false
				}
				k, ok := stripTyped(x.Args[1]).StrConst()
				return ok && k == fns
			}
			isMap := 0
			for x, v := range facts {
				if x.Op == "isa" && getsFns(x.Args[0]) {
					isMap = -1
					if v {
						isMap = 1
					}
				} else if x.Op == "eq" && v && (x.Args[0].IsNil() && getsFns(x.Args[1]) || x.Args[1].IsNil() && getsFns(x.Args[0])) {
					isMap = -1
				}
			}
			if isMap == 0 {
				continue
			}
			c.Count("function loaders", 1)
			ok := false
			if isMap == 1 {
				ok = getsFns(m)
			} else {
				ok = m.IsNil() || emptyMap(p, m)
			}
			c.Must(ok, "functions", c.N(f), f.Pos(), p, "the loader of functions doesn't hold exactly the functions given")
			name, isK := stripTyped(r.Args[1]).StrConst()
			c.Must(isK && name != "" && stripTyped(r.Args[0]) == c.parentLoader(f), "functions", c.N(f)+" parent", f.Pos(), p, "the loader of functions isn't a namespace of the loader of the session")
		}
	}
}

func (c *Ctx) parentLoader(f *ssa.Function) *Term {
	for i, pr := range f.Params {
		if loaderType(pr.Type()) {
			return c.paramTermOf(f, i)
		}
	}
	return nil
}

// configChosen checks that an invocation uses the configuration that is asked for, or else that of the session
func (c *Ctx) configChosen(t types.Type) {
	f := c.methodOn(t, "Config")
	if f == nil {
		c.Anchor("Invocation.Config")
		return
	}
	path := c.paramTermOf(f, 1)
	key := c.apiConst("HieraConfig")
	isOption := func(x *Term) bool {
		if x.Op != "call" || !isDgo(x, "Get") || len(x.Args) < 2 {
			return false
		}
		s, ok := stripTyped(x.Args[len(x.Args)-1]).StrConst()
		return ok && s == key
	}
	for _, p := range c.Run(f, &Policy{Inline: c.besideInvocation(f)}) {
		if p.Exit == "cut" {
			continue
		}
		for i, ev := range p.Events {
			if ev.Kind != "call" && ev.Kind != "mapupdate" || isDgoEv(ev, "Get") || isDgoEv(ev, "String") {
				continue
			}
			asked, session := false, false
			for _, a := range ev.Args {
				a.Any(func(x *Term) bool {
					asked = asked || x == path
					session = session || isOption(x)
					return false
				})
			}
			if !asked && !session {
				continue
			}
			empty, known := emptyText(p.FactsBefore(i), path)
			c.Count("uses of a configuration's path", 1)
			c.Must(known && asked == !empty && session == empty, "config-chosen", c.N(f), ev.Pos, p, "%s uses another configuration than the one asked for, or else that of the session", c.N(f))
		}
	}
}

// emptyText tells if the facts say that a text is empty, or that it isn't
func emptyText(facts map[*Term]bool, text *Term) (empty, known bool) {
	for t, v := range facts {
		if t.Op == "eq" {
			for j := range t.Args {
				o := stripTyped(t.Args[1-j])
				if isEmptyStr(t.Args[j]) && o == text || isZeroInt(t.Args[j]) && o.Op == "len" && stripTyped(o.Args[0]) == text {
					return v, true
				}
			}
		}
		if t.Op == "lt" && isZeroInt(t.Args[0]) && t.Args[1].Op == "len" && stripTyped(t.Args[1].Args[0]) == text {
			return !v, true
		}
	}
	return false, false
}

// coerced checks that what is given as a map is that map, or refused
func (c *Ctx) coerced() {
	f := c.pkgFunc("api", "ToMap")
	if f == nil {
		return
	}
	x := c.paramTermOf(f, 1)
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit == "cut" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		isMap, isNil, known := false, false, false
		for t, v := range facts {
			if t.Op == "isa" && strings.HasSuffix(t.Aux, "/dgo.Map") && t.Args[0].Any(func(y *Term) bool { return y == x }) {
				isMap, known = v, true
			}
			if t.Op == "eq" && v && t.Any(func(y *Term) bool { return y == x }) {
				isNil = true
			}
		}
		c.Count("coercions", 1)
		r := stripTyped(p.Res)
		switch {
		case known && isMap:
			c.Must(p.Exit == "return" && r != nil && r.Any(func(y *Term) bool { return y == x }), "coerced", c.N(f), f.Pos(), p, "%s yields something else than the map it was given", c.N(f))
		case isNil:
			c.Must(p.Exit == "return" && r != nil && !r.IsNil(), "coerced", c.N(f), f.Pos(), p, "%s doesn't accept nil", c.N(f))
		default:
			c.Must(p.Exit == "panic", "coerced", c.N(f), f.Pos(), p, "%s doesn't refuse what isn't a map", c.N(f))
		}
	}
}
