package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C29", Technique: "symmetry of constructors and extractors (path-sensitive dataflow on SSA), provenance of the parts of an explanation",
		Explain: "For each named type, the relation between the keys that its extractor writes and the fields they come from must be the relation between the keys that its constructor reads and the fields it sets; all fields must occur in it. A key may only be left out on paths where the field is known to be empty and a field may only be left unset on paths where the key is known to be missing. Each call that reports to an explainer must put all of its arguments in the current node, or in a new one that becomes a branch of the current one, with an event of its own.",
		Check:   checkData})
}

const namedMaker = "github.com/lyraproj/dgo/tf.NewNamed"

func checkData(c *Ctx) {
	names := map[string]bool{}
	for _, f := range c.packageInits() {
		for _, ci := range calls(f) {
			if calleeKey(ci) == namedMaker {
				c.namedType(f, ci, names)
			}
		}
	}
	c.Min("named types", 5)
	c.Min("extracted keys", 15)
	c.Min("constructed fields", 15)
	c.explainers()
}

// packageInits are the functions that initialize packages
func (c *Ctx) packageInits() (fs []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, pk := range c.P.SSA.AllPackages() {
		if f := pk.Func("init"); f != nil && strings.HasPrefix(pk.Pkg.Path(), c.P.Mod) && !seen[f] {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	for _, f := range c.P.Funcs {
		if !seen[f] && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return
}

// funcArg is the function that is passed as an argument
func (c *Ctx) funcArg(v ssa.Value) *ssa.Function {
	switch x := stripConv(v).(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return x.Fn.(*ssa.Function)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return c.P.constFunc(g)
		}
	}
	return nil
}

// reflected is the type whose reflection is a value; elem is true for the type that a nil pointer of that type points to
func (c *Ctx) reflected(v ssa.Value) types.Type {
	switch x := stripConv(v).(type) {
	case *ssa.Call:
		if k := calleeKey(x); k == "reflect.TypeOf" {
			if m, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
				return m.X.Type()
			}
		} else if x.Call.IsInvoke() && x.Call.Method.Name() == "Elem" {
			if p, ok := c.reflected(x.Call.Value).(*types.Pointer); ok {
				return p.Elem()
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if sts := c.globalStores(g); len(sts) == 1 {
				return c.reflected(sts[0].Val)
			}
		}
	}
	return nil
}

type dataRel map[string]map[string]bool // key, fields

func (r dataRel) put(k, f string) {
	if r[k] == nil {
		r[k] = map[string]bool{}
	}
	r[k][f] = true
}

func (r dataRel) fields() map[string]bool {
	fs := map[string]bool{}
	for _, m := range r {
		for f := range m {
			fs[f] = true
		}
	}
	return fs
}

// fieldPath names the field that an address below some root denotes
func fieldPath(a *Term, isRoot func(*Term) bool) (string, *types.Var) {
	var leaf *types.Var
	s := ""
	for a != nil && a.Op == "faddr" {
		v := FieldOf(a)
		if v == nil {
			return "", nil
		}
		if leaf == nil {
			leaf = v
		}
		if !v.Embedded() || s == "" {
			s = "." + v.Name() + s
		}
		a = a.Args[0]
	}
	if a == nil || s == "" || !isRoot(a) {
		return "", nil
	}
	return s, leaf
}

// fieldsIn are the fields, below a root, that are read in a term
func fieldsIn(t *Term, isRoot func(*Term) bool) map[string]*types.Var {
	m := map[string]*types.Var{}
	if t != nil {
		t.Any(func(x *Term) bool {
			if x.Op == "init" || x.Op == "changed" {
				if s, v := fieldPath(x.Args[0], isRoot); s != "" {
					m[s] = v
				}
			}
			return false
		})
	}
	return m
}

// allFields are the fields of a struct, including those of embedded ones
func allFields(t types.Type, r map[string]*types.Var) map[string]*types.Var {
	if r == nil {
		r = map[string]*types.Var{}
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			v := s.Field(i)
			if v.Embedded() && structOf(v.Type()) != nil {
				allFields(v.Type(), r)
			} else {
				r["."+v.Name()] = v
			}
		}
	}
	return r
}

func (c *Ctx) namedType(in *ssa.Function, ci ssa.CallInstruction, names map[string]bool) {
	args := ci.Common().Args
	k, ok := args[0].(*ssa.Const)
	if !ok || len(args) < 5 {
		return
	}
	name := strings.Trim(k.Value.ExactString(), `"`)
	ctor, ext := c.funcArg(args[1]), c.funcArg(args[2])
	t := c.reflected(args[3])
	c.Count("named types", 1)
	c.Must(!names[name], "distinct", name, ci.Pos(), nil, "there are two types named %s", name)
	names[name] = true
	if t == nil {
		c.Bad("implementation", name, ci.Pos(), nil, "the implementation of %s isn't known", name)
		return
	}
	_, isIf := t.Underlying().(*types.Interface)
	c.Must(!isIf, "implementation", name, ci.Pos(), nil, "%s is implemented by an interface", name)
	if it := c.reflected(args[4]); it != nil {
		i, ok := it.Underlying().(*types.Interface)
		c.Must(ok && types.Implements(t, i), "interface", name, ci.Pos(), nil, "%s doesn't implement the interface of its type", name)
	}
	// the type of its instances
	if m := c.methodOn(t, "Type"); m != nil {
		call, _ := ci.(*ssa.Call)
		for _, p := range c.Run(m, &Policy{Inline: samePkg(m)}) {
			if p.Exit != "return" {
				continue
			}
			ok := p.Res.Any(func(x *Term) bool {
				if x.Op != "init" {
					return false
				}
				g, ok := x.Args[0].Val.(*ssa.Global)
				if !ok {
					return false
				}
				sts := c.globalStores(g)
				return len(sts) == 1 && stripConv(sts[0].Val) == ssa.Value(call)
			})
			c.Must(ok, "type", name, m.Pos(), p, "the type of a %s isn't the one of that name", name)
		}
	}
	if ctor == nil && ext == nil {
		if _, isNil := args[1].(*ssa.Const); isNil {
			return
		}
	}
	if ctor == nil || ext == nil {
		c.Bad("functions", name, ci.Pos(), nil, "%s doesn't have both a constructor and an extractor", name)
		return
	}
	out, whole, ok := c.extracted(name, ext, t)
	if !ok {
		return
	}
	c.constructed(name, ctor, t, out, whole)
}

// keysOf maps the keys of a map that is created on a path to their values
func keysOf(p *Path, m *Term) (map[string]*Term, bool) {
	ks := map[string]*Term{}
	good := true
	add := func(k, v *Term) {
		s, ok := stripTyped(argText(k)).StrConst()
		if !ok {
			good = false
			return
		}
		ks[s] = v
	}
	m = stripTyped(m)
	if m.Op == "call" && m.CallName() == vfPkg+".Map" {
		as := m.Args
		if len(as) == 1 && as[0].Op == "slicelit" {
			as = as[0].Args
		}
		if len(as)%2 != 0 {
			return nil, false
		}
		for i := 0; i+1 < len(as); i += 2 {
			add(as[i], as[i+1])
		}
	} else if m.Op != "call" || !strings.HasPrefix(m.CallName(), vfPkg+".M") {
		return nil, false
	}
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Recv != nil && stripTyped(ev.Recv) == m && strings.HasSuffix(ev.Name, ").Put") && len(ev.Args) == 2 {
			add(ev.Args[0], ev.Args[1])
		}
	}
	return ks, good
}

func (c *Ctx) extracted(name string, f *ssa.Function, t types.Type) (out dataRel, whole bool, ok bool) {
	out = dataRel{}
	type extraction struct {
		p  *Path
		ks map[string]*Term
	}
	var xs []extraction
	self := c.paramTermOf(f, 0)
	isSelf := func(x *Term) bool { return stripTyped(x) == self }
	type flag struct {
		p   *Path
		val bool
	}
	flags := map[string][]flag{}
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) }, Seed: func(e *Engine, st *State, ps []*Term) { st.dyn[ps[0]] = t }}) {
		if p.Exit != "return" {
			continue
		}
		ks, isMap := keysOf(p, p.Res)
		if ks == nil {
			fs := fieldsIn(p.Res, isSelf)
			if structOf(t) == nil && p.Res.Any(isSelf) {
				fs["."] = nil
			}
			if !c.Must(len(fs) == 1, "extracted", name, f.Pos(), p, "the data of a %s isn't made from its content", name) {
				return nil, false, false
			}
			whole = true
			for n := range fs {
				out.put("", n)
			}
			continue
		}
		if !c.Must(isMap, "extracted", name, f.Pos(), p, "the data of a %s has keys that aren't constant", name) {
			return nil, false, false
		}
		xs = append(xs, extraction{p, ks})
		for k, v := range ks {
			fs := fieldsIn(v, isSelf)
			if b, ok := stripTyped(v).BoolConst(); ok {
				flags[k] = append(flags[k], flag{p, b})
				continue
			}
			if !c.Must(len(fs) == 1, "extracted", name+" "+k, f.Pos(), p, "%s in the data of a %s isn't made from one of its fields", k, name) {
				continue
			}
			for n := range fs {
				out.put(k, n)
			}
		}
	}
	// flags that are only written when they are set
	for k, fl := range flags {
		var common map[string]bool
		for _, f := range fl {
			here := map[string]bool{}
			for ft, v := range f.p.FactsBefore(len(f.p.Events)) {
				if (ft.Op == "init" || ft.Op == "changed") && v == f.val {
					if s, _ := fieldPath(ft.Args[0], isSelf); s != "" && (common == nil || common[s]) {
						here[s] = true
					}
				}
			}
			common = here
		}
		for s := range common {
			for _, x := range xs {
				if x.ks[k] != nil {
					continue
				}
				for ft, v := range x.p.FactsBefore(len(x.p.Events)) {
					if (ft.Op == "init" || ft.Op == "changed") && v == fl[0].val {
						if n, _ := fieldPath(ft.Args[0], isSelf); n == s {
							delete(common, s)
						}
					}
				}
			}
		}
		if c.Must(len(common) == 1, "extracted", name+" "+k, f.Pos(), nil, "%s in the data of a %s isn't made from one of its fields", k, name) {
			for s := range common {
				out.put(k, s)
			}
		}
	}
	for k, fs := range out {
		c.Count("extracted keys", 1)
		c.Must(len(fs) == 1, "extracted", name+" "+k, f.Pos(), nil, "%s in the data of a %s isn't always the same field", k, name)
	}
	// what is left out must be empty
	for _, x := range xs {
		facts := x.p.FactsBefore(len(x.p.Events))
		for k, fs := range out {
			if x.ks[k] != nil {
				continue
			}
			empty := false
			for ft, v := range facts {
				if has := fieldsIn(ft, isSelf); len(has) != 1 || !fs[only(has)] {
					continue
				}
				switch ft.Op {
				case "eq":
					empty = empty || v
				case "lt":
					z, isC := ft.Args[0].IntConst()
					empty = empty || !v && isC && z == 0
				case "init", "changed":
					empty = empty || !v
				}
			}
			c.Must(empty, "left-out", name+" "+k, f.Pos(), x.p, "%s is left out of the data of a %s although it may not be empty", k, name)
		}
	}
	return out, whole, true
}

func only(m map[string]*types.Var) string {
	for k := range m {
		return k
	}
	return ""
}

func (c *Ctx) constructed(name string, f *ssa.Function, t types.Type, out dataRel, whole bool) {
	param := c.paramTermOf(f, 0)
	in := dataRel{}
	fields := allFields(t, nil)
	children := map[string]bool{}
	set := 0
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) }, Sync: func(*Event, *Term) string { return "once" }, NoHavoc: func(*Event) bool { return true }}) {
		if p.Exit != "return" {
			continue
		}
		res := stripTyped(p.Res)
		isRes := func(x *Term) bool { return stripTyped(x) == res }
		if structOf(t) == nil {
			in.put("", ".")
			c.Must(res.Any(func(x *Term) bool { return x == param }), "constructed", name, f.Pos(), p, "a %s isn't made from its data", name)
			continue
		}
		// which keys are read
		gets := map[*Term]string{}
		for _, ev := range p.Events {
			if ev.Kind == "call" && isDgoEv(ev, "Get") && len(ev.Args) == 1 && stripTyped(ev.Recv) == param {
				if s, ok := stripTyped(argText(ev.Args[0])).StrConst(); ok {
					gets[ev.Res] = s
				}
			}
		}
		keysIn := func(v *Term) map[string]bool {
			ks := map[string]bool{}
			v.Any(func(x *Term) bool {
				if k, ok := gets[x]; ok {
					ks[k] = true
				}
				if whole && x == param {
					ks[""] = true
				}
				return false
			})
			return ks
		}
		now := map[string]*Term{}
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr == nil {
				continue
			}
			if s, _ := fieldPath(ev.Addr, isRes); s != "" {
				now[s] = ev.Val
			}
			if v := FieldOf(ev.Addr); v != nil && stripTyped(ev.Val) == res && root(ev.Addr).Op == "cbarg" {
				children["."+v.Name()] = true
			}
		}
		facts := p.FactsBefore(len(p.Events))
		for s, v := range now {
			for k := range keysIn(v) {
				in.put(k, s)
				set++
				// the elements
				if sl := stripTyped(v); sl.Op == "makeslice" {
					filled := false
					for _, ev := range p.Events {
						if ev.Kind == "store" && ev.Addr.Op == "iaddr" && ev.Addr.Args[0] == sl && ev.Val.Any(func(x *Term) bool { return x.Op == "cbarg" || x.Op == "call" }) && len(keysIn(ev.Val)) > 0 {
							filled = true
						}
					}
					c.Must(filled, "elements", name+" "+s, f.Pos(), p, "the elements of %s of a constructed %s are missing", s, name)
				}
			}
		}
		// what isn't set must be missing
		for k, fs := range out {
			for s := range fs {
				if v := now[s]; v != nil && keysIn(v)[k] {
					// of the right kind
					for g, gk := range gets {
						if gk != k || fields[s] == nil {
							continue
						}
						want := ""
						switch u := fields[s].Type().Underlying().(type) {
						case *types.Basic:
							if u.Info()&types.IsString != 0 {
								want = "String"
							} else if u.Info()&types.IsBoolean != 0 {
								want = "Boolean"
							}
						case *types.Slice:
							want = "Array"
						}
						for ft, v := range facts {
							if want != "" && ft.Op == "isa" && ft.Args[0] == g && v && strings.HasPrefix(ft.Aux, dgoPkg+".") {
								c.Must(ft.Aux == dgoPkg+"."+want, "kind", name+" "+k, f.Pos(), p, "%s of a %s is only read when it is a %s", k, name, ft.Aux)
							}
						}
					}
					continue
				}
				if whole {
					continue
				}
				missing, read := false, false
				for ft, v := range facts {
					// it already has a certain value
					if v && ft.Op == "eq" {
						if has := fieldsIn(ft, isRes); len(has) == 1 && only(has) == s {
							missing = true
						}
					}
				}
				for g, gk := range gets {
					if gk != k {
						continue
					}
					read = true
					for ft, v := range facts {
						if ft.Op == "isa" && ft.Args[0] == g && !v || ft.Op == "eq" && v && (ft.Args[0] == g && ft.Args[1].IsNil() || ft.Args[1] == g && ft.Args[0].IsNil()) {
							missing = true
						}
					}
				}
				c.Must(read && missing, "not-set", name+" "+k, f.Pos(), p, "%s of a %s isn't set although its data may have it", k, name)
			}
		}
	}
	c.Count("constructed fields", set)
	for k, fs := range out {
		for s := range fs {
			c.Must(in[k][s], "symmetric", name+" "+k, f.Pos(), nil, "%q in the data of a %s is made from %s but %s isn't constructed from it", k, name, s, s)
		}
	}
	for k, fs := range in {
		for s := range fs {
			c.Must(out[k][s] || whole, "symmetric", name+" "+k, f.Pos(), nil, "%s of a %s is constructed from %q, which isn't made from it", s, name, k)
		}
	}
	if !whole {
		for s := range fields {
			c.Must(out.fields()[s] || children[s], "all-fields", name+" "+s, f.Pos(), nil, "%s isn't part of the data of a %s", s, name)
		}
	}
}

// explainers checks that what an explainer is told ends up in its tree and that the tree is presented
func (c *Ctx) explainers() {
	it := c.P.Iface("api", "Explainer")
	if it == nil {
		c.Anchor("interface api.Explainer")
		return
	}
	for _, t := range c.role("api", "Explainer", 1) {
		c.explainer(t, it)
	}
	for _, t := range c.ivTypes() {
		c.reporters(t, it)
	}
	c.Min("forwarded reports", 16)
	c.Min("reports", 7)
	c.Min("pushes", 7)
	c.Min("events", 6)
	c.Min("presented nodes", 6)
	c.Min("presented values", 6)
	c.Min("presented branches", 5)
	c.Min("presented fields", 5)
}

// reporters checks that an invocation passes what it is told on to its explainer
func (c *Ctx) reporters(t types.Type, it *types.Interface) {
	for i := 0; i < it.NumMethods(); i++ {
		name := it.Method(i).Name()
		by := ""
		switch {
		case name == "AcceptFoundInDefaults" || name == "AcceptFoundInOverrides":
			continue // never reported
		case strings.HasPrefix(name, "Accept"):
			by = "Report" + strings.TrimPrefix(name, "Accept")
		case strings.HasPrefix(name, "Push"):
			by = "With" + strings.TrimPrefix(name, "Push")
		default:
			continue
		}
		f := c.methodOn(t, by)
		if f == nil {
			c.Anchor("Invocation." + by)
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f), Sync: func(ev *Event, a *Term) string { return "once" }}) {
			if p.Exit != "return" {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			none := false
			for x, v := range facts {
				none = none || v && x.Op == "eq" && (x.Args[0].IsNil() && isExplainerField(x.Args[1], c) || x.Args[1].IsNil() && isExplainerField(x.Args[0], c))
			}
			n := 0
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.Method == nil && ev.Callee == nil || !c.isAPI(ev, "Explainer", name) {
					continue
				}
				n++
				c.Count("forwarded reports", 1)
				for j, a := range ev.Args {
					a = stripTyped(a)
					ok := j+1 < len(f.Params) && (isParam(a, f.Params[j+1]) || a.Op == "call" && a.Any(func(x *Term) bool { return isParam(x, f.Params[j+1]) }))
					if a.Any(func(x *Term) bool { _, s := x.StrConst(); return s }) && !ok {
						// only on behalf of an invocation that hides its values
						for x, v := range facts {
							ok = ok || v && x.Op == "init" && FieldOf(x.Args[0]) != nil && root(x.Args[0]) == c.paramTermOf(f, 0)
						}
					}
					c.Must(ok, "forwarded", c.N(f)+" "+name, ev.Pos, p, "%s does not pass what it is told on to %s of the explainer", c.N(f), name)
				}
			}
			c.Must(none || n == 1, "forwarded", c.N(f)+" "+name, f.Pos(), p, "%s calls %s of the explainer %d times", c.N(f), name, n)
		}
	}
}

// isExplainerField is true for the explainer of an invocation
func isExplainerField(t *Term, c *Ctx) bool {
	return t != nil && t.Op == "init" && FieldOf(t.Args[0]) != nil && isNamed(FieldOf(t.Args[0]).Type(), c.P.Mod+"/api", "Explainer")
}

// grow is the element that is appended to a list by a store
func grow(ev *Event) *Term {
	v := stripTyped(ev.Val)
	if ev.Kind == "store" && v != nil && v.Op == "append1" && stripTyped(v.Args[0]) != nil && stripTyped(v.Args[0]).Op == "init" && stripTyped(v.Args[0]).Args[0] == ev.Addr {
		return stripTyped(v.Args[1])
	}
	return nil
}

func isParamIn(f *ssa.Function, i int, t *Term) bool {
	return t.Any(func(x *Term) bool { return isParam(x, f.Params[i]) })
}

func (c *Ctx) explainer(t types.Type, it *types.Interface) {
	var cur, parent, branches, texts, kind, value, key *types.Var
	same := func(have **types.Var, v *types.Var, what string, f *ssa.Function, p *Path) {
		if *have == nil {
			*have = v
		}
		c.Must(v != nil && *have == v, "same-field", what+" "+c.N(f), f.Pos(), p, "%s does not use the %s that the others use", c.N(f), what)
	}
	events := map[string]string{}
	nodes := map[types.Type]string{}
	var pop *ssa.Function
	run := func(name string, do func(f *ssa.Function, p *Path)) {
		f := c.methodOn(t, name)
		if f == nil {
			c.Anchor("Explainer." + name)
			return
		}
		n := 0
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if p.Exit == "return" {
				n++
				do(f, p)
			}
		}
		c.Must(n > 0, "returns", c.N(f), f.Pos(), nil, "%s never returns", c.N(f))
	}
	stored := func(f *ssa.Function, p *Path, base *Term, i int) bool {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr.Op == "faddr" && root(ev.Addr) == base && isParamIn(f, i, p.St.load(ev.Addr, ev.Val.Type)) {
				return true
			}
		}
		return false
	}
	isCurrent := func(f *ssa.Function) func(t *Term) bool {
		ex := c.paramTermOf(f, 0)
		return func(t *Term) bool {
			return t != nil && t.Op == "init" && cur != nil && FieldOf(t.Args[0]) == cur && root(t.Args[0]) == ex
		}
	}
	// linked checks that a new node is a branch of the current one
	linked := func(name string, f *ssa.Function, p *Path, n *Term, isNow func(*Term) bool) {
		var bs, ps *types.Var
		for _, ev := range p.Events {
			if g := grow(ev); g == n && isNow(root(ev.Addr)) {
				bs = FieldOf(ev.Addr)
			}
			if ev.Kind == "store" && root(ev.Addr) == n && isNow(stripTyped(p.St.heap[ev.Addr])) {
				ps = FieldOf(ev.Addr)
			}
		}
		c.Must(bs != nil, "branch", c.N(f), f.Pos(), p, "the node that %s makes does not become a branch of the current node", c.N(f))
		c.Must(ps != nil, "parent", c.N(f), f.Pos(), p, "the node that %s makes does not have the current node as its parent", c.N(f))
		same(&branches, bs, "list of branches", f, p)
		same(&parent, ps, "parent", f, p)
		for i := 1; i < len(f.Params); i++ {
			c.Must(stored(f, p, n, i), "told", c.N(f)+" "+f.Params[i].Name(), f.Pos(), p, "%s is not kept in the node that %s makes", f.Params[i].Name(), c.N(f))
		}
		if had, ok := nodes[n.Type]; !ok || c.Must(had == name, "own-node", c.N(f), f.Pos(), p, "%s makes the same kind of node as %s", name, had) {
			nodes[n.Type] = name
		}
	}
	var accepts []string
	for i := 0; i < it.NumMethods(); i++ {
		name := it.Method(i).Name()
		switch {
		case name == "Pop":
			pop = c.methodOn(t, name)
		case strings.HasPrefix(name, "Accept"):
			accepts = append(accepts, name)
		case strings.HasPrefix(name, "Push"):
			run(name, func(f *ssa.Function, p *Path) {
				c.Count("pushes", 1)
				ex := c.paramTermOf(f, 0)
				var n, at *Term
				for _, ev := range p.Events {
					if ev.Kind == "store" && root(ev.Addr) == ex && stripTyped(ev.Val) != nil && stripTyped(ev.Val).Op == "alloc" {
						at, n = ev.Addr, stripTyped(p.St.heap[ev.Addr])
					}
				}
				if !c.Must(n != nil && n.Op == "alloc", "current", c.N(f), f.Pos(), p, "%s does not make a new node the current one", c.N(f)) {
					return
				}
				same(&cur, FieldOf(at), "current node", f, p)
				linked(name, f, p, n, isCurrent(f))
			})
		}
	}
	if cur == nil || pop == nil {
		c.Anchor("pushes of nodes and Explainer.Pop")
		return
	}
	// last is what the explainer's current node becomes
	last := func(f *ssa.Function, p *Path) (v *Term) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && FieldOf(ev.Addr) == cur && root(ev.Addr) == c.paramTermOf(f, 0) {
				v = stripTyped(ev.Val)
			}
		}
		return
	}
	run("Pop", func(f *ssa.Function, p *Path) {
		now := isCurrent(f)
		for t, v := range p.FactsBefore(len(p.Events)) {
			if v && t.Op == "eq" && (t.Args[0].IsNil() && now(t.Args[1]) || t.Args[1].IsNil() && now(t.Args[0])) {
				return
			}
		}
		v := last(f, p)
		c.Must(v != nil && v.Op == "init" && now(root(v.Args[0])) && FieldOf(v.Args[0]) == parent, "pop", c.N(f), f.Pos(), p, "%s does not make the parent of the current node the current one", c.N(f))
	})
	for _, name := range accepts {
		name := name
		run(name, func(f *ssa.Function, p *Path) {
			c.Count("reports", 1)
			now := isCurrent(f)
			if v := last(f, p); v != nil {
				c.Must(now(v), "current-stays", c.N(f), f.Pos(), p, "%s changes the current node", c.N(f))
			}
			var node, text *Term
			var tf, ek *types.Var
			what := ""
			kept := map[int]*Event{}
			for _, ev := range p.Events {
				if ev.Kind != "store" || !now(root(ev.Addr)) || ev.Addr.Op != "faddr" {
					continue
				}
				v := stripTyped(ev.Val)
				if g := grow(ev); g != nil && g.Op == "alloc" {
					node = g
				} else if g != nil {
					text, tf = g, FieldOf(ev.Addr)
				} else if s, ok := v.StrConst(); ok {
					what, ek = s, FieldOf(ev.Addr)
				} else {
					for i := 1; i < len(f.Params); i++ {
						if isParamIn(f, i, v) {
							kept[i] = ev
						}
					}
				}
			}
			if node != nil {
				linked(name, f, p, node, now)
				return
			}
			for i := 1; i < len(f.Params); i++ {
				c.Must(kept[i] != nil || isParamIn(f, i, text), "told", c.N(f)+" "+f.Params[i].Name(), f.Pos(), p, "%s is not kept in the current node by %s", f.Params[i].Name(), c.N(f))
			}
			if text != nil && len(f.Params) == 2 && ek == nil {
				same(&texts, tf, "list of texts", f, p)
				return
			}
			c.Must(what != "", "event", c.N(f), f.Pos(), p, "%s does not record what has happened", c.N(f))
			same(&kind, ek, "event", f, p)
			c.Must(events[what] == "" || events[what] == name, "event", c.N(f), f.Pos(), p, "%s and %s record the same event", name, events[what])
			events[what] = name
			for i, ev := range kept {
				if isNamed(f.Params[i].Type(), dgoPkg, "Value") {
					same(&value, FieldOf(ev.Addr), "value", f, p)
					c.Must(isParam(stripTyped(ev.Val), f.Params[i]), "value", c.N(f), f.Pos(), p, "the value that is kept by %s isn't the one it was given", c.N(f))
				} else {
					same(&key, FieldOf(ev.Addr), "key", f, p)
				}
			}
		})
	}
	c.Count("events", len(events))
	if kind == nil || value == nil || key == nil || texts == nil || branches == nil {
		c.Anchor("events, keys, values, texts and branches of explained nodes")
		return
	}
	nodes[t] = ""
	for nt, by := range nodes {
		c.presented(nt, by, kind, key, value, branches, texts, events)
	}
}

// presented checks that what a node holds is part of the explanation that is presented
func (c *Ctx) presented(nt types.Type, by string, kind, key, value, branches, texts *types.Var, events map[string]string) {
	f := c.methodOn(nt, "AppendTo")
	if f == nil {
		c.Anchor("AppendTo of " + types.TypeString(nt, nil))
		return
	}
	c.Count("presented nodes", 1)
	self := c.paramTermOf(f, 0)
	isField := func(t *Term, fd *types.Var) bool {
		return t != nil && t.Op == "init" && FieldOf(t.Args[0]) == fd && root(t.Args[0]) == self
	}
	element := func(t *Term, fd *types.Var) *Term {
		if t = stripTyped(t); t != nil && t.Op == "init" && t.Args[0].Op == "iaddr" && isField(t.Args[0].Args[0], fd) {
			return t.Args[0].Args[1]
		}
		return nil
	}
	shown := map[*types.Var]bool{}
	seen := map[string]bool{}
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit != "return" && p.Exit != "cut" {
			continue
		}
		var out []*Term
		elements := map[*types.Var]map[*Term]bool{branches: {}, texts: {}}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if ev.Method != nil && strings.HasPrefix(ev.Method.Name(), "Append") {
				if i := element(ev.Recv, branches); i != nil && ev.Method.Name() == "AppendTo" {
					elements[branches][i] = true
				}
				for _, a := range ev.Args {
					out = append(out, a)
					if i := element(a, texts); i != nil {
						elements[texts][i] = true
					}
				}
			}
		}
		has := func(fd *types.Var) bool {
			for _, a := range out {
				if a.Any(func(x *Term) bool { return isField(x, fd) }) {
					return true
				}
			}
			return false
		}
		for _, fd := range fieldsOf(deref(nt)) {
			if has(fd) {
				shown[fd] = true
			}
		}
		for t, v := range p.FactsBefore(len(p.Events)) {
			for _, x := range []*types.Var{branches, texts} {
				// the loop that visits all of them
				if v && t.Op == "lt" && t.Args[1].Op == "len" && isField(stripTyped(t.Args[1].Args[0]), x) && (isZeroInt(t.Args[0]) || succIndex(t.Args[0])) {
					c.Must(elements[x][t.Args[0]], "presented", c.N(f)+" "+x.Name(), f.Pos(), p, "an element of %s is left out when %s presents a node", x.Name(), c.N(f))
					seen[x.Name()] = true
				}
			}
			if !v || t.Op != "eq" || p.Exit == "cut" {
				continue
			}
			for i := range t.Args {
				s, ok := t.Args[i].StrConst()
				if !ok || !isField(stripTyped(t.Args[1-i]), kind) {
					continue
				}
				c.Must(events[s] != "", "known-event", c.N(f)+" "+s, f.Pos(), p, "%s presents the event %q, which is never recorded", c.N(f), s)
				switch name := events[s]; name {
				case "AcceptFound", "AcceptFoundInDefaults", "AcceptFoundInOverrides", "AcceptNotFound", "AcceptMergeResult":
					if name != "AcceptMergeResult" {
						c.Must(has(key), "presented", c.N(f)+" "+name, f.Pos(), p, "%s doesn't present the key that %s recorded", c.N(f), name)
					}
					if name != "AcceptNotFound" {
						c.Must(has(value), "presented", c.N(f)+" "+name, f.Pos(), p, "%s doesn't present the value that %s recorded", c.N(f), name)
						c.Count("presented values", 1)
					}
				}
			}
		}
	}
	if seen[branches.Name()] {
		c.Count("presented branches", 1)
	}
	switch by {
	case "PushInvalidKey", "PushSegment", "AcceptMergeSource":
		// these have no branches
	default:
		c.Must(seen[branches.Name()], "presented", c.N(f), f.Pos(), nil, "%s does not present the branches of a node", c.N(f))
	}
	switch by {
	case "", "PushDataProvider", "PushLocation", "PushModule", "PushSubLookup":
		c.Must(seen[texts.Name()], "presented", c.N(f), f.Pos(), nil, "%s does not present the texts of a node", c.N(f))
	}
	if by == "" || by == "PushSegment" {
		return // the segment is the key that the node finds or doesn't find
	}
	for _, fd := range fieldsOf(deref(nt)) {
		if !fd.Embedded() {
			c.Count("presented fields", 1)
			c.Must(shown[fd], "presented", c.N(f)+" "+fd.Name(), f.Pos(), nil, "%s does not present the %s of a node", c.N(f), fd.Name())
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
