package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C33", Technique: "settings table extraction and provenance of resolved settings over all paths (path-sensitive dataflow on SSA)",
		Explain: "In the code that reads the entries of a configuration, the facts about the key on each path tell which setting is read; it must be stored in the field that the getter of that setting returns, with the value of that key, and each documented key must be stored on some path. On all paths that resolve an entry, each field of the result must stem from the interpolated setting of the entry when it has one, otherwise from the defaults entry, otherwise from the environment variable or the built in default; directories and locations must be made relative to the right parent. The kind of provider must agree with the kind of the function.",
		Check:   checkSettings})
}

var functionKeys = []string{"data_dig", "data_hash", "lookup_key"}
var locationCtors = map[string]string{"path": "NewPath", "paths": "NewPath", "glob": "NewGlob", "globs": "NewGlob", "uri": "NewURI", "uris": "NewURI", "mapped_paths": "NewMappedPaths"}
var settingGetters = map[string]string{"datadir": "DataDir", "plugindir": "PluginDir", "pluginfile": "PluginFile", "options": "Options",
	"data_dig": "Function", "data_hash": "Function", "lookup_key": "Function",
	"path": "Locations", "paths": "Locations", "glob": "Locations", "globs": "Locations", "uri": "Locations", "uris": "Locations", "mapped_paths": "Locations"}

// globalStrings returns the elements of a slice of strings that is a package variable
func (c *Ctx) globalStrings(t *Term) ([]string, bool) {
	if t == nil || t.Op != "init" || len(t.Args) == 0 {
		return nil, false
	}
	g, ok := t.Args[0].Val.(*ssa.Global)
	if !ok {
		return nil, false
	}
	sts := c.globalStores(g)
	if len(sts) != 1 {
		return nil, false
	}
	sl, ok := sts[0].Val.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil, false
	}
	var ss []string
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				k, ok := stripConv(st.Val).(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					return nil, false
				}
				ss = append(ss, constant.StringVal(k.Value))
			}
		}
	}
	sort.Strings(ss)
	return ss, len(ss) > 0
}

// possible returns which of the given texts a term can be according to the facts
func (c *Ctx) possible(facts map[*Term]bool, universe []string, is func(*Term) bool) map[string]bool {
	ok := map[string]bool{}
	for _, s := range universe {
		ok[s] = true
	}
	ok["*"] = true // anything else
	limit := func(in []string, v bool) {
		m := map[string]bool{}
		for _, s := range in {
			m[s] = true
		}
		for s := range ok {
			if m[s] != v {
				delete(ok, s)
			}
		}
	}
	for t, v := range facts {
		switch {
		case t.Op == "eq":
			for i := range t.Args {
				if s, k := t.Args[i].StrConst(); k && is(t.Args[1-i]) {
					limit([]string{s}, v)
				}
			}
		case t.Op == "call" && strings.HasSuffix(t.CallName(), ".ContainsString") && is(t.Args[1]):
			if ss, k := c.globalStrings(t.Args[0]); k {
				limit(ss, v)
			}
		case t.Op == "call" && t.CallName() == "slices.Contains" && is(t.Args[1]):
			if ss, k := c.globalStrings(t.Args[0]); k {
				limit(ss, v)
			}
		case (t.Op == "mapok" || t.Op == "mapget") && is(t.Args[1]):
			if ss, k := c.globalKeys(t.Args[0]); k {
				limit(ss, v)
			}
		}
	}
	return ok
}

func (c *Ctx) entryTypes() []types.Type {
	var ts []types.Type
	for _, t := range c.role("api", "Entry", 1) {
		if structOf(t) != nil && len(c.P.declaredMethods(t)) > 0 {
			ts = append(ts, t)
		}
	}
	return ts
}

// locationCtor is true for the functions that make a location
func (c *Ctx) locationCtor(f *ssa.Function) bool {
	r := f.Signature.Results()
	return f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && r.Len() == 1 && isNamed(r.At(0).Type(), c.P.Mod+"/api", "Location")
}

func checkSettings(c *Ctx) {
	for _, t := range c.entryTypes() {
		c.settingsRead(t)
		if f := c.methodOn(t, "Resolve"); f != nil {
			c.settingsResolved(t, f)
		} else {
			c.Anchor("Entry.Resolve")
		}
	}
	c.Min("settings read", 14)
	c.Min("locations that are resolved", 2)
	c.Min("settings resolved", 20)
	c.providerKinds()
	c.Min("providers that are selected", 3)
}

func (c *Ctx) settingsRead(t types.Type) {
	fields := map[*types.Var]string{}
	for _, g := range []string{"DataDir", "PluginDir", "PluginFile", "Options", "Function", "Locations"} {
		if v := c.getterField(t, g); v != nil {
			fields[v] = g
		} else {
			c.Anchor("Entry." + g)
		}
	}
	var kindF, nameF *types.Var
	for _, ft := range c.role("api", "Function", 1) {
		if structOf(ft) != nil && len(c.P.declaredMethods(ft)) > 0 {
			kindF, nameF = c.getterField(ft, "Kind"), c.getterField(ft, "Name")
		}
	}
	pkg := pkgOf(c.methodOn(t, "Options"))
	done := map[string]bool{}
	var universe []string
	for k := range settingGetters {
		universe = append(universe, k)
	}
	for _, f := range c.P.Funcs {
		if pkgOf(f) != pkg || f.Synthetic != "" {
			continue
		}
		var me *ssa.Parameter
		for _, p := range f.Params {
			if isNamed(p.Type(), dgoPkg, "MapEntry") {
				me = p
			}
		}
		sets := me != nil && f.Parent() != nil
		if !sets {
			// reads the settings by their names
			hash := false
			for _, p := range f.Params {
				hash = hash || isNamed(p.Type(), dgoPkg, "Map")
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && hash {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fields[fieldOfAddr(fa)] != "" {
							sets = true
						}
					}
				}
			}
		}
		if !sets {
			continue
		}
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkg && !c.locationCtor(g) && !(me == nil && !c.small(g))
		}, NoHavoc: func(ev *Event) bool { return true }}) {
			if p.Exit != "return" {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			isKey := func(x *Term) bool {
				if x.Op == "conv" {
					x = x.Args[0]
				}
				return isTextOfKey(x)
			}
			isVal := func(x *Term) bool { return isDgo(x, "Value") }
			last := map[string]*Event{}
			for _, ev := range p.Events {
				if ev.Kind == "store" && fields[FieldOf(ev.Addr)] != "" {
					last[fields[FieldOf(ev.Addr)]] = ev
				}
			}
			poss := c.possible(facts, universe, isKey)
			for field, ev := range last {
				v := ev.Val
				keys := poss
				isV := isVal
				var name string
				var elem *Term // or one of these
				named := func(x *Term) bool {
					if isDgo(x, "Get") && len(x.Args) > 1 {
						if s, ok := x.Args[1].StrConst(); ok {
							name = s
						} else if strings.Contains(c.elementOf(x.Args[1]), " ") {
							elem = x.Args[1]
						}
					}
					return false
				}
				v.Any(named)
				if nm := p.St.heap[p.St.faddr(v, nameF)]; v.Op == "alloc" && field == "Function" && nm != nil && name == "" {
					nm.Any(named)
				}
				if len(keys) == len(universe)+1 || name != "" && !v.Any(isVal) {
					// which key it came from?
					if elem != nil && name == "" {
						isV = func(x *Term) bool { return isDgo(x, "Get") && len(x.Args) > 1 && x.Args[1] == elem }
						isKey = func(x *Term) bool {
							for x != nil && (x.Op == "conv" || x.Op == "typed") {
								x = x.Args[0]
							}
							e := elem
							for e.Op == "call" && len(e.Args) == 1 {
								e = e.Args[0]
							}
							return x == elem || x == e
						}
						keys = map[string]bool{}
						for _, s := range strings.Fields(c.elementOf(elem)) {
							keys[s] = true
						}
					} else if name == "" {
						continue // doesn't depend on a key
					}
					if name != "" {
						keys = map[string]bool{name: true}
					}
					of := isV
					isV = func(x *Term) bool {
						if name == "" {
							return of(x)
						}
						if !isDgo(x, "Get") {
							return false
						}
						s, ok := x.Args[1].StrConst()
						return ok && s == name
					}
				}
				isText := func(x *Term) bool {
					return x.Op == "call" && len(x.Args) >= 1 && isV(x.Args[0]) && (strings.HasSuffix(x.CallName(), ".String") || strings.HasSuffix(x.CallName(), ".GoString"))
				}
				for key := range keys {
					if settingGetters[key] != field {
						c.Bad("key", n+"/"+key, ev.Pos, p, "%s stores the setting %s as the %s of an entry", n, key, field)
						continue
					}
					ok := false
					switch field {
					case "DataDir", "PluginDir", "PluginFile":
						ok = isText(v)
					case "Options":
						ok = isV(v)
					case "Function":
						ok = v.Op == "alloc"
						if ok {
							k, nm := p.St.heap[p.St.faddr(v, kindF)], p.St.heap[p.St.faddr(v, nameF)]
							ok = nm != nil && isText(nm) && k != nil
							if ok && !isKey(k) {
								s, isC := k.StrConst()
								ok = isC && s == key
							}
						}
					case "Locations":
						ok = c.locationsRead(p, key, v, isV)
					}
					if !ok {
						c.Bad("value", n+"/"+key, ev.Pos, p, "%s doesn't store the value of the setting %s", n, key)
						continue
					}
					c.Count("settings read", 1)
					done[key] = true
				}
			}
			// a key that is known and not stored
			if len(poss) == 1 && !poss["*"] {
				for key := range poss {
					if last[settingGetters[key]] == nil && me != nil && c.storesSetting(f, fields, settingGetters[key]) {
						c.Bad("ignored", n+"/"+key, f.Pos(), p, "%s ignores the setting %s", n, key)
					}
				}
			}
		}
	}
	sort.Strings(universe)
	for _, k := range universe {
		c.Must(done[k], "unused", k, 0, nil, "the setting %s isn't stored in an entry", k)
	}
}

// storesSetting is true when a function or something in it stores the setting
func (c *Ctx) storesSetting(f *ssa.Function, fields map[*types.Var]string, getter string) bool {
	for _, g := range append([]*ssa.Function{f}, closuresOf(f)...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fields[fieldOfAddr(fa)] == getter {
						return true
					}
				}
			}
		}
	}
	return false
}

// small is true for functions without loops and function arguments
func (c *Ctx) small(f *ssa.Function) bool {
	return len(f.AnonFuncs) == 0 && len(f.Blocks) < 12
}

func fieldOfAddr(fa *ssa.FieldAddr) *types.Var {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return st.Field(fa.Field)
}

// isTextOfKey is true for the text of the key of a map entry
func isTextOfKey(x *Term) bool {
	return x.Op == "call" && len(x.Args) >= 1 && (strings.HasSuffix(x.CallName(), ".String") || strings.HasSuffix(x.CallName(), ".GoString")) && isDgo(x.Args[0], "Key")
}

// locationsRead checks the locations made for a key
func (c *Ctx) locationsRead(p *Path, key string, v *Term, isV func(*Term) bool) bool {
	var ctors []*Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Fn != nil && c.locationCtor(ev.Fn) {
			ctors = append(ctors, ev)
		}
	}
	ofValue := func(x *Term) bool { return x.Any(isV) }
	text := func(x *Term) *Term {
		if x.Op == "call" && len(x.Args) == 1 && (strings.HasSuffix(x.CallName(), ".String") || strings.HasSuffix(x.CallName(), ".GoString")) {
			return x.Args[0]
		}
		return nil
	}
	for _, ev := range ctors {
		if ev.Fn.Name() != locationCtors[key] {
			return false
		}
		for i, a := range ev.Args {
			x := text(a)
			if x == nil || !ofValue(x) {
				return false
			}
			switch key {
			case "path", "glob", "uri":
				if !isV(x) {
					return false
				}
			case "mapped_paths":
				if !isDgo(x, "Get") || !isV(x.Args[0]) {
					return false
				}
				if k, ok := x.Args[1].IntConst(); !ok || k != int64(i) {
					return false
				}
			}
		}
		// all of them are kept
		if !v.Contains(ev.Res) && !(v.Op == "loopcell" || v.Op == "loopvar") {
			stored := false
			for _, e := range p.Events {
				if e.Kind == "store" && e.Val == ev.Res && e.Addr.Op == "iaddr" && (v.Any(func(x *Term) bool { return x == e.Addr.Args[0] })) {
					stored = true
				}
			}
			if !stored {
				return false
			}
		}
	}
	switch key {
	case "path", "glob", "uri", "mapped_paths":
		return len(ctors) == 1 && (v.Op == "slicelit" && len(v.Args) == 1 || v.Op == "append1")
	}
	// one for each element
	n := 0
	for _, ev := range p.Events {
		if ev.Kind == "callback" && ev.Recv != nil && isV(ev.Recv) {
			n++
		}
	}
	return !v.IsNil() && (n == 0 || len(ctors) == n)
}

func (c *Ctx) settingsResolved(t types.Type, f *ssa.Function) {
	n := c.N(f)
	recv, ic, defaults := c.paramTermOf(f, 0), c.paramTermOf(f, 1), c.paramTermOf(f, 2)
	fields := map[string]*types.Var{}
	for _, g := range []string{"DataDir", "PluginDir", "PluginFile", "Options", "Function", "Locations", "Name"} {
		fields[g] = c.getterField(t, g)
		if fields[g] == nil {
			return
		}
	}
	var kindF, nameF, rootF *types.Var
	for _, ft := range c.role("api", "Function", 1) {
		if structOf(ft) != nil && len(c.P.declaredMethods(ft)) > 0 {
			kindF, nameF = c.getterField(ft, "Kind"), c.getterField(ft, "Name")
		}
	}
	for _, ft := range c.role("api", "Config", 1) {
		if structOf(ft) != nil && len(c.P.declaredMethods(ft)) > 0 {
			rootF = c.getterField(ft, "Root")
		}
	}
	pkg := pkgOf(f)
	isOwn := func(x *Term, g string) bool {
		return x != nil && x.Op == "init" && FieldOf(x.Args[0]) == fields[g] && x.Args[0].Args[0] == recv
	}
	isDef := func(x *Term, g string) bool {
		x = stripTyped(x)
		return c.apiCall(x, "Entry", g) && stripTyped(x.Args[0]) == defaults || x != nil && x.Op == "init" && FieldOf(x.Args[0]) == fields[g] && stripTyped(x.Args[0].Args[0]) == defaults
	}
	isRoot := func(x *Term) bool {
		return c.apiCall(x, "Config", "Root") || x.Op == "init" && FieldOf(x.Args[0]) == rootF && x.Args[0].Args[0].Any(func(y *Term) bool { return y == recv })
	}
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkg }, NoHavoc: func(ev *Event) bool { return true }, StableField: func(v *types.Var) bool { return true }}) {
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, what string) {
			c.Bad(rule, n+"/"+what, f.Pos(), p, "%s doesn't resolve the %s of an entry as it should (%s)", n, what, rule)
		}
		// interpolation of a text
		var resolved func(v *Term, isBase func(*Term) bool, d int) bool
		ipl := func(x *Term) bool { return c.apiCall(x, "Invocation", "InterpolateString") && x.Args[0] == ic }
		resolved = func(v *Term, isBase func(*Term) bool, d int) bool {
			if d > 4 || v == nil {
				return false
			}
			for _, ev := range p.Events {
				if ev.Kind != "call" || !ipl(ev.Res) {
					continue
				}
				arg := ev.Res.Args[1]
				if !isBase(arg) && !resolved(arg, isBase, d+1) {
					continue
				}
				if arg == v {
					// not changed?
					for x, b := range facts {
						if x.Op == "ext" && x.Aux == "1" && x.Args[0] == ev.Res && !b {
							return true
						}
					}
				}
				if v.Op == "call" && strings.HasSuffix(v.CallName(), "tring") && ext0(v.Args[0]) == ev.Res {
					return true
				}
			}
			return false
		}
		empty := func(g string) (bool, bool) {
			for x, b := range facts {
				if x.Op == "eq" {
					for i := range x.Args {
						if s, ok := x.Args[1-i].StrConst(); ok && s == "" && isOwn(x.Args[i], g) {
							return b, true
						}
						if k, ok := x.Args[1-i].IntConst(); ok && k == 0 && x.Args[i].Op == "len" && isOwn(x.Args[i].Args[0], g) {
							return b, true
						}
						if x.Args[1-i].IsNil() && isOwn(x.Args[i], g) {
							return b, true
						}
					}
				}
			}
			return false, false
		}
		// the root of the data is needed before the end
		var res *Term
		if p.Exit == "return" {
			res = p.Res
		}
		noDef, kDef := nilFact(facts, defaults)
		final := func(g string) *Term { return p.St.heap[p.St.faddr(res, fields[g])] }
		env := func(v *Term, name, dflt string) bool {
			for x, b := range facts {
				if x.Op == "ext" && x.Aux == "1" && x.Args[0].Op == "call" && x.Args[0].CallName() == "os.LookupEnv" {
					if s, ok := x.Args[0].Args[0].StrConst(); ok && s == name {
						if b {
							return v == nil || ext0(v) == x.Args[0]
						}
						s, ok := v.StrConst()
						return ok && s == dflt
					}
				}
			}
			return false
		}
		dir := func(v *Term, g, envName, dflt string) bool {
			e, k := empty(g)
			switch {
			case v == nil || !k:
				return false
			case !e:
				return resolved(v, func(x *Term) bool { return isOwn(x, g) }, 0)
			case !kDef:
				return false
			case noDef:
				return env(v, envName, dflt)
			}
			return isDef(v, g)
		}
		joined := func(v *Term, base func(*Term) bool) (*Term, bool) {
			// filepath.Join(root, x) for a relative x
			if v != nil && v.Op == "call" && v.CallName() == "path/filepath.Join" {
				as := v.Args
				if len(as) == 1 && as[0].Op == "slicelit" {
					as = as[0].Args
				}
				if len(as) == 2 && base(as[0]) {
					return as[1], true
				}
			}
			return v, false
		}
		isAbs := func(x *Term) (bool, bool) {
			for t, v := range facts {
				if t.Op == "call" && t.CallName() == "path/filepath.IsAbs" && t.Args[0] == x {
					return v, true
				}
			}
			return false, false
		}
		below := func(v *Term) (*Term, bool) {
			x, rel := joined(v, isRoot)
			abs, k := isAbs(x)
			return x, k && abs == !rel
		}
		// locations
		var ls []*Event
		for i, ev := range p.Events {
			if ev.Kind != "call" || !c.isAPI(ev, "Location", "Resolve") {
				continue
			}
			_ = i
			c.Count("locations that are resolved", 1)
			l := ev.Recv
			ok := l != nil && l.Op == "init" && l.Args[0].Op == "iaddr" && isOwn(l.Args[0].Args[0], "Locations")
			if ok {
				idx := l.Args[0].Args[1]
				if len(ls) == 0 {
					k, isC := idx.IntConst()
					ok = isC && k == 0
				} else {
					ok = succIndex(idx)
				}
			}
			if !ok {
				bad("one after the other", "locations")
			}
			x, ok := below(ev.Args[1])
			if !ok || ev.Args[0] != ic || !dir(x, "DataDir", "HIERA_DATADIR", "data") {
				bad("below the data directory", "locations")
			}
			ls = append(ls, ev)
		}
		if p.Exit != "return" {
			continue
		}
		c.Count("settings resolved", 1)
		if res == nil || res.Op != "alloc" {
			bad("a copy", "entry")
			continue
		}
		if !isOwn(final("Name"), "Name") {
			bad("kept", "name")
		}
		if !isOwn(final("PluginFile"), "PluginFile") {
			bad("kept", "plugin file")
		}
		if !dir(final("DataDir"), "DataDir", "HIERA_DATADIR", "data") {
			bad("own, default or built in", "data directory")
		}
		if x, ok := below(final("PluginDir")); !ok || !dir(x, "PluginDir", "HIERA_PLUGINDIR", "plugin") {
			bad("own, default or built in", "plugin directory")
		}
		// options
		ov := final("Options")
		noOpts, kOpts := false, false
		for x, b := range facts {
			if x.Op == "eq" && (isOwn(x.Args[0], "Options") && x.Args[1].IsNil() || isOwn(x.Args[1], "Options") && x.Args[0].IsNil()) {
				noOpts, kOpts = b, true
			}
		}
		emptyMap := func(v *Term) bool {
			return v.Op == "call" && v.CallName() == vfPkg+".Map" && (len(v.Args) == 0 || v.Args[0].IsNil())
		}
		ok := ov != nil
		switch {
		case !ok:
		case !kOpts:
			ok = false
		case !noOpts:
			x := ov
			for x.Op == "typed" || x.Op == "conv" {
				x = x.Args[0]
			}
			ok = c.apiCall(x, "Invocation", "Interpolate") && x.Args[0] == ic && isOwn(x.Args[1], "Options")
			if isOwn(ov, "Options") {
				// has none
				for t, v := range facts {
					if t.Op == "lt" || t.Op == "eq" {
						for i := range t.Args {
							if isDgo(t.Args[i], "Len") && isOwn(t.Args[i].Args[0], "Options") {
								k, isC := t.Args[1-i].IntConst()
								ok = ok || isC && (t.Op == "eq" && k == 0 && v || t.Op == "lt" && i == 1 && k == 0 && !v || t.Op == "lt" && i == 0 && k == 1 && v)
							}
						}
					}
				}
			}
		case kDef && !noDef:
			isD := func(x *Term) bool { return isDef(x, "Options") }
			ok = isD(ov)
			if emptyMap(ov) {
				for x, b := range facts {
					if x.Op == "eq" && b && (isD(x.Args[0]) && x.Args[1].IsNil() || isD(x.Args[1]) && x.Args[0].IsNil()) {
						ok = true
					}
				}
			}
		default:
			ok = kDef && emptyMap(ov)
		}
		if !ok {
			bad("own, default or none", "options")
		}
		// function
		fv := final("Function")
		noFn, kFn := false, false
		for x, b := range facts {
			if x.Op == "eq" && (isOwn(x.Args[0], "Function") && x.Args[1].IsNil() || isOwn(x.Args[1], "Function") && x.Args[0].IsNil()) {
				noFn, kFn = b, true
			}
		}
		part := func(v *Term, fld *types.Var) *Term {
			if v.Op == "alloc" {
				return p.St.heap[p.St.faddr(v, fld)]
			}
			return nil
		}
		fnIs := func(kind func(*Term) bool, name func(*Term) bool) bool {
			if fv.Op != "alloc" {
				return false
			}
			k, nm := part(fv, kindF), part(fv, nameF)
			return k != nil && nm != nil && kind(k) && (name(nm) || resolved(nm, name, 0))
		}
		isConst := func(s string) func(*Term) bool {
			return func(x *Term) bool { v, ok := x.StrConst(); return ok && v == s }
		}
		ofFn := func(fld *types.Var) func(*Term) bool {
			return func(x *Term) bool {
				return x.Op == "init" && FieldOf(x.Args[0]) == fld && isOwn(stripTyped(x.Args[0].Args[0]), "Function")
			}
		}
		ok = fv != nil && kFn
		switch {
		case !ok:
		case !noFn:
			if isOwn(fv, "Function") || isOwn(stripTyped(fv), "Function") {
				// the name did not change
				ok = false
				for _, ev := range p.Events {
					if ev.Kind == "call" && ipl(ev.Res) && ofFn(nameF)(ev.Res.Args[1]) {
						for x, b := range facts {
							ok = ok || x.Op == "ext" && x.Aux == "1" && x.Args[0] == ev.Res && !b
						}
					}
				}
			} else {
				ok = fnIs(ofFn(kindF), func(x *Term) bool { return resolved(x, ofFn(nameF), 0) })
			}
		case kDef && noDef:
			ok = fnIs(isConst("data_hash"), isConst("yaml_data"))
		case kDef:
			isD := func(x *Term) bool { return isDef(x, "Function") }
			ok = isD(fv) || fv.Op == "alloc" && fnIs(func(x *Term) bool { return x.Any(isD) }, func(x *Term) bool { return x.Any(isD) })
		default:
			ok = false
		}
		if !ok {
			bad("own, default or built in", "function")
		}
		// locations
		lv := final("Locations")
		noLocs, kLocs := empty("Locations")
		switch {
		case lv == nil:
			bad("kept", "locations")
		case len(ls) == 0:
			if isOwn(lv, "Locations") {
				if !kLocs || !noLocs {
					bad("all", "locations")
				}
			} else if lv.IsNil() != noLocs && !(lv.IsNil() && !kLocs) {
				bad("none or an empty list", "locations")
			} else if !noLocs {
				n, hi := lenBounds(facts, func(x *Term) bool { return isOwn(x, "Locations") })
				if n != 0 || hi != 0 {
					bad("all", "locations")
				}
			}
		default:
			for _, ev := range p.Events {
				if ev.Kind == "append" && ev.Recv != nil && ev.Recv.Op == "slice" && len(ev.Args) > 0 && ev.Args[0].Any(func(x *Term) bool { return c.apiCall(x, "Location", "Resolve") }) {
					bad("all", "locations") // onto some of those resolved so far
				}
			}
			last := ls[len(ls)-1].Res
			has := lv.Contains(last) || lv.Op == "loopvar" && lv.Args[1].Contains(last) || lv.Op == "loopcell" && lv.Args[2].Contains(last)
			single := has && lv.Any(func(x *Term) bool { return x.Op == "iaddr" && x.Args[0] == last })
			done := false // there is nothing left of it
			for x, b := range facts {
				if x.Op == "lt" && !b && x.Args[1].Op == "len" && x.Args[1].Args[0] == last {
					i, isK := x.Args[0].IntConst()
					done = done || isK && i == 0 && !has || has && succIndex(x.Args[0])
				}
			}
			if (single || !has) && !done {
				bad("all", "locations")
			}
			end := false
			for x, b := range facts {
				if x.Op == "lt" && !b && x.Args[1].Op == "len" && isOwn(x.Args[1].Args[0], "Locations") {
					end = true
				}
			}
			if !end {
				bad("all", "locations")
			}
		}
	}
}

func stripTyped(t *Term) *Term {
	for t != nil && (t.Op == "typed" || t.Op == "conv") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

var providerCtors = map[string]string{"data_hash": "NewDataHashProvider", "data_dig": "NewDataDigProvider", "lookup_key": "NewLookupKeyProvider"}

// providerKinds checks that the provider of an entry is of the kind that its function has
func (c *Ctx) providerKinds() {
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || c.P.relPkg(f) == "internal" || f.Signature.Results().Len() != 1 || !isNamed(f.Signature.Results().At(0).Type(), c.P.Mod+"/api", "DataProvider") {
			continue
		}
		var e *ssa.Parameter
		for _, p := range f.Params {
			if isNamed(p.Type(), c.P.Mod+"/api", "Entry") {
				e = p
			}
		}
		if e == nil {
			continue
		}
		n := c.N(f)
		et := c.paramTerm(nil, e)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) && g != f }}) {
			if p.Exit != "return" {
				continue
			}
			poss := c.possible(p.FactsBefore(len(p.Events)), functionKeys, func(x *Term) bool {
				return c.apiCall(x, "Function", "Kind") && c.apiCall(x.Args[0], "Entry", "Function") && x.Args[0].Args[0] == et
			})
			delete(poss, "*")
			r := stripTyped(p.Res)
			for k := range poss {
				c.Count("providers that are selected", 1)
				ok := r.Op == "call" && r.CallName() == c.P.Mod+"/internal."+providerCtors[k] && r.Args[0] == et
				c.Must(ok, "provider", n+"/"+k, f.Pos(), p, "%s doesn't make a %s provider for an entry of that kind", n, k)
			}
		}
	}
}
