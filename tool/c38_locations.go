package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C38", Technique: "provenance of resolved locations over all paths (path-sensitive dataflow on SSA)",
		Explain: "The constructors of locations tell which field holds which setting. On every path of a method that resolves a location, each location it makes must be of the right kind with the interpolated setting joined to the data directory as the resolved path, and exist when the check of that very path finds it; a glob makes one location for each match, in sorted order, and a mapped path makes one for each element of the value of the variable, interpolated in a scope in which the name finds that element and everything else is found as before.",
		Check:   checkLocations})
}

type locationKind struct {
	ctor   *ssa.Function
	typ    types.Type
	params []*types.Var // field of each parameter (nil for a type that is the text itself)
	text   bool
}

var locationKinds = map[string]string{"NewPath": "path", "NewGlob": "glob", "NewURI": "uri", "NewMappedPaths": "mapped_paths"}

func checkLocations(c *Ctx) {
	kinds := map[string]*locationKind{}
	for _, f := range c.P.Funcs {
		if !c.locationCtor(f) || f.Synthetic != "" || locationKinds[f.Name()] == "" {
			continue
		}
		k := &locationKind{ctor: f, params: make([]*types.Var, len(f.Params))}
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if p.Exit != "return" || p.Res == nil {
				continue
			}
			r := p.Res
			r = stripTyped(r)
			k.typ = concreteOf(f)
			if r.Op == "alloc" {
				for i, a := range f.Params {
					for _, ev := range p.Events {
						if ev.Kind == "store" && ev.Val == c.paramTerm(nil, a) && FieldOf(ev.Addr) != nil && ev.Addr.Args[0] == r {
							k.params[i] = FieldOf(ev.Addr)
						}
					}
				}
			} else {
				k.text = stripTyped(r) == c.paramTermOf(f, 0)
			}
		}
		n := c.N(f)
		ok := k.typ != nil && (k.text || len(k.params) > 0)
		for i, v := range k.params {
			if !k.text && v == nil {
				ok = false
				c.Bad("constructor", n+"/"+f.Params[i].Name(), f.Pos(), nil, "%s doesn't keep %s", n, f.Params[i].Name())
			}
		}
		if !c.Must(ok, "constructor", n, f.Pos(), nil, "what %s makes of its arguments cannot be told", n) {
			continue
		}
		kinds[locationKinds[f.Name()]] = k
		kf := c.methodOn(k.typ, "Kind")
		if kf == nil {
			c.Anchor("Location.Kind")
			continue
		}
		for _, p := range c.Run(kf, &Policy{Inline: samePkg(kf)}) {
			s, isC := "", false
			if p.Res != nil {
				s, isC = p.Res.StrConst()
			}
			c.Must(p.Exit == "return" && isC && s == locationKinds[f.Name()], "kind", n, kf.Pos(), p, "the kind of what %s makes isn't %s", n, locationKinds[f.Name()])
		}
	}
	for _, n := range []string{"path", "glob", "uri", "mapped_paths"} {
		if kinds[n] == nil {
			c.Anchor("constructor of " + n)
			return
		}
	}
	path := kinds["path"]
	exists := c.getterField(path.typ, "Exists")
	if exists == nil || c.getterField(path.typ, "Original") == nil || c.getterField(path.typ, "Resolved") == nil || c.getterField(kinds["uri"].typ, "Resolved") == nil || c.getterField(kinds["uri"].typ, "Original") == nil {
		c.Anchor("getters of path and uri")
		return
	}
	if f := c.methodOn(kinds["uri"].typ, "Exists"); f != nil {
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			b, isC := false, false
			if p.Res != nil {
				b, isC = p.Res.BoolConst()
			}
			c.Must(p.Exit == "return" && b && isC, "exists", c.N(f), f.Pos(), p, "%s says that a URI does not exist", c.N(f))
		}
	}
	for name, k := range kinds {
		f := c.methodOn(k.typ, "Resolve")
		if f == nil {
			c.Anchor("Location.Resolve")
			continue
		}
		c.locationResolved(name, k, kinds, f)
	}
	c.Min("locations made", 6)
}

// concreteOf returns the type that a function makes an interface value of
func concreteOf(f *ssa.Function) (t types.Type) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
				v := r.Results[0]
				for {
					if ci, ok := v.(*ssa.ChangeInterface); ok {
						v = ci.X
						continue
					}
					break
				}
				if mi, ok := v.(*ssa.MakeInterface); ok {
					t = mi.X.Type()
				} else if cl, ok := v.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && pkgOf(cl.Call.StaticCallee()) == pkgOf(f) {
					if _, isI := cl.Type().Underlying().(*types.Interface); isI {
						t = concreteOf(cl.Call.StaticCallee())
					} else {
						t = cl.Type()
					}
				}
			}
		}
	}
	return
}

func (c *Ctx) locationResolved(name string, k *locationKind, kinds map[string]*locationKind, f *ssa.Function) {
	n := c.N(f)
	recv, ic, dir := c.paramTermOf(f, 0), c.paramTermOf(f, 1), c.paramTermOf(f, 2)
	own := func(x *Term, i int) bool {
		x = stripTyped(x)
		if k.text {
			return x == recv
		}
		return x != nil && x.Op == "init" && FieldOf(x.Args[0]) == k.params[i] && stripTyped(x.Args[0].Args[0]) == recv
	}
	want := kinds["path"]
	if name == "uri" {
		want = k
	}
	var fields []*types.Var
	for _, g := range []string{"Original", "Resolved", "Exists"} {
		fields = append(fields, c.getterField(want.typ, g))
	}
	tmpl := 0
	if name == "mapped_paths" {
		tmpl = 2
	}
	seen := map[*ssa.Function]bool{}
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f), NoHavoc: func(ev *Event) bool { return true }, StableField: func(v *types.Var) bool { return true },
		Sync: func(ev *Event, a *Term) string {
			if c.isAPI(ev, "Invocation", "DoWithScope") {
				return "once"
			}
			return ""
		}}) {
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, "%s "+format, append([]interface{}{n}, args...)...)
		}
		isText := func(x *Term) *Term {
			if x == nil || x.Op != "call" || len(x.Args) != 1 || !(strings.HasSuffix(x.CallName(), ".String") || strings.HasSuffix(x.CallName(), ".GoString")) {
				return nil
			}
			ip := ext0(stripTyped(x.Args[0]))
			if ip == nil || !c.apiCall(ip, "Invocation", "InterpolateString") || ip.Args[0] != ic || !own(ip.Args[1], tmpl) {
				return nil
			}
			if b, ok := ip.Args[2].BoolConst(); !ok || b {
				return nil
			}
			return ip
		}
		var last *Term
		joined := func(x *Term) bool {
			if x == nil || x.Op != "call" || x.CallName() != "path/filepath.Join" {
				return false
			}
			as := x.Args
			if len(as) == 1 && as[0].Op == "slicelit" {
				as = as[0].Args
			}
			if len(as) != 2 || as[0] != dir {
				return false
			}
			last = isText(as[1])
			return last != nil
		}
		// what there is to make locations of
		var src *Term
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			if name == "glob" && strings.HasPrefix(ev.Name, "github.com/bmatcuk/doublestar.") && len(ev.Args) > 0 {
				if !joined(ev.Args[0]) {
					bad("pattern", "matches something other than the interpolated pattern below the data directory")
				}
				src = ev.Res
			}
			if name == "mapped_paths" && c.isAPI(ev, "Invocation", "InterpolateInScope") {
				b, isC := ev.Args[len(ev.Args)-1].BoolConst()
				if !own(ev.Args[len(ev.Args)-2], 0) || !isC || b {
					bad("variable", "doesn't use the value of the variable")
				}
				src = ev.Res
			}
		}
		isItems := func(x *Term) bool {
			x = stripTyped(x)
			if x == nil || src == nil {
				return false
			}
			if name == "glob" {
				return ext0(x) == src
			}
			if x == stripTyped(src) {
				return true
			}
			if x.Op == "call" && x.CallName() == vfPkg+".Values" {
				as := x.Args
				if len(as) == 1 && as[0].Op == "slicelit" {
					as = as[0].Args
				}
				return len(as) == 1 && stripTyped(as[0]) == stripTyped(src)
			}
			return false
		}
		// the locations that are made
		type made struct {
			at   int
			loc  *Term
			vals []*Term
		}
		var ms []made
		idx := map[*Term]int{}
		for i, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr.Op != "faddr" || ev.Addr.Args[0].Op != "alloc" {
				continue
			}
			for j, fv := range fields {
				if fv == nil || FieldOf(ev.Addr) != fv {
					continue
				}
				l := ev.Addr.Args[0]
				if _, ok := idx[l]; !ok {
					idx[l] = len(ms)
					ms = append(ms, made{loc: l, vals: make([]*Term, 3)})
				}
				ms[idx[l]].vals[j] = ev.Val
				ms[idx[l]].at = i
			}
		}
		var items []*Term // the index of each
		for _, m := range ms {
			c.Count("locations made", 1)
			if !own(m.vals[0], tmpl) {
				bad("original", "makes a location that doesn't know what it was made of")
			}
			switch name {
			case "uri":
				if isText(m.vals[1]) == nil {
					bad("resolved", "makes a location with something else than the interpolated URI")
				}
			case "glob":
				v := m.vals[1]
				if v == nil || v.Op != "init" || v.Args[0].Op != "iaddr" || !isItems(v.Args[0].Args[0]) {
					bad("resolved", "makes a location with something else than a match")
				} else {
					items = append(items, v.Args[0].Args[1])
				}
				if b, ok := m.vals[2].BoolConst(); m.vals[2] == nil || !ok || !b {
					bad("exists", "makes a location of a match that doesn't exist")
				}
				sorted := false
				for _, ev := range p.Events[:m.at] {
					if ev.Kind == "call" && len(ev.Args) > 0 && (ev.Name == "sort.Strings" || ev.Name == "slices.Sort" || ev.Name == "sort.Sort") && ev.Args[0].Any(isItems) {
						sorted = true
					}
				}
				if !sorted {
					bad("sorted", "uses the matches in the arbitrary order of the directory")
				}
			default:
				if !joined(m.vals[1]) {
					bad("resolved", "makes a location with something else than the interpolated path below the data directory")
				}
				if !statOf(m.vals[2], m.vals[1], facts) {
					bad("exists", "makes a location that exists although its path doesn't, or the other way round")
				}
				if name != "mapped_paths" {
					continue
				}
				// the scope in which it was interpolated
				var scope *Term
				depth := 0
				for i := m.at; i >= 0 && scope == nil; i-- {
					ev := p.Events[i]
					if ev.Kind == "call" && ev.Res == last {
						depth = 1
						continue
					}
					if depth == 1 && ev.Kind == "callbackret" {
						break
					}
					if depth == 1 && ev.Kind == "call" && c.isAPI(ev, "Invocation", "DoWithScope") {
						scope = stripTyped(ev.Args[len(ev.Args)-2])
					}
				}
				elem, it := c.mappedScope(p, scope, ic, func(x *Term) bool { return own(x, 1) }, seen)
				if elem == nil {
					bad("scope", "interpolates the path in another scope than the one with the element")
					continue
				}
				items = append(items, it)
				e := stripTyped(elem)
				ok := e == stripTyped(src) && isaFactOf(facts, src, "String") == 1
				if e.Op == "cbarg" && strings.HasPrefix(e.Aux, "0.") {
					ok = len(e.Args[0].Args) > 0 && isItems(e.Args[0].Args[0])
				}
				if isDgo(e, "Get") && isItems(e.Args[0]) {
					ok = true
				}
				if !ok {
					bad("scope", "interpolates the path with something else than an element of the value")
				}
			}
		}
		// kept, in order
		if p.Exit != "return" {
			continue
		}
		r := stripTyped(p.Res)
		switch name {
		case "path", "uri":
			if len(ms) != 1 || !(r.Op == "slicelit" && len(r.Args) == 1 && stripTyped(r.Args[0]) == ms[0].loc || r.Op == "append1" && stripTyped(r.Args[len(r.Args)-1]) == ms[0].loc) {
				bad("one", "doesn't yield one location")
			}
		default:
			c.locationsKept(p, name, f, facts, r, len(ms), func(i int) *Term { return ms[i].loc }, items, src, isItems, bad)
		}
	}
	if name == "mapped_paths" {
		c.Must(len(seen) > 0, "scope", n+"/get", f.Pos(), nil, "%s uses no scope of its own", n)
	}
}

// statOf is true when x tells if path was found
func statOf(x, path *Term, facts map[*Term]bool) bool {
	found := func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		for i := range t.Args {
			e := t.Args[i]
			if t.Args[1-i].IsNil() && e.Op == "ext" && e.Aux == "1" && e.Args[0].Op == "call" && e.Args[0].CallName() == "os.Stat" && e.Args[0].Args[0] == path {
				return true
			}
		}
		return false
	}
	if x == nil {
		return false
	}
	if found(x) {
		return true
	}
	if b, ok := x.BoolConst(); ok {
		for t, v := range facts {
			if found(t) {
				return v == b
			}
		}
	}
	return false
}

// isaFactOf returns 1 if x is known to be of a type, -1 if known not to be, else 0
func isaFactOf(facts map[*Term]bool, x *Term, name string) int {
	for t, v := range facts {
		if t.Op == "isa" && t.Aux == dgoPkg+"."+name && stripTyped(t.Args[0]) == stripTyped(x) {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// mappedScope returns the element that the variable has in a scope, and its index
func (c *Ctx) mappedScope(p *Path, scope, ic *Term, isKey func(*Term) bool, seen map[*ssa.Function]bool) (elem, index *Term) {
	if scope == nil || scope.Op != "alloc" {
		return nil, nil
	}
	al, ok := scope.Val.(*ssa.Alloc)
	if !ok {
		return nil, nil
	}
	get := c.methodOn(al.Type(), "Get")
	if get == nil || len(get.Params) != 2 {
		return nil, nil
	}
	// the roles of the fields are told by the method that finds a value
	var keyF, valF, underF *types.Var
	recv, key := c.paramTermOf(get, 0), c.paramTermOf(get, 1)
	own := func(x *Term) *types.Var {
		x = stripTyped(x)
		if x != nil && x.Op == "init" && FieldOf(x.Args[0]) != nil && x.Args[0].Args[0] == recv {
			return FieldOf(x.Args[0])
		}
		return nil
	}
	n := c.N(get)
	for _, q := range c.Run(get, &Policy{Inline: samePkg(get), NoHavoc: func(ev *Event) bool { return true }}) {
		if q.Exit != "return" {
			continue
		}
		same, known := false, false
		for t, v := range q.FactsBefore(len(q.Events)) {
			if !strings.HasSuffix(t.CallName(), ".Equals") || len(t.Args) != 2 {
				if t.Op == "eq" && (own(t.Args[0]) != nil && stripTyped(t.Args[1]) == key || own(t.Args[1]) != nil && stripTyped(t.Args[0]) == key) {
					same, known = v, true
					if keyF = own(t.Args[0]); keyF == nil {
						keyF = own(t.Args[1])
					}
				}
				continue
			}
			a, b := stripTyped(t.Args[0]), stripTyped(t.Args[1])
			if b.Any(func(x *Term) bool { return x == key }) && own(a) != nil {
				keyF, same, known = own(a), v, true
			} else if a.Any(func(x *Term) bool { return x == key }) && own(b) != nil {
				keyF, same, known = own(b), v, true
			}
		}
		r := q.Res
		switch {
		case !known:
			c.Bad("scope", n, get.Pos(), q, "%s doesn't tell the variable from others", n)
			return nil, nil
		case same:
			if valF = own(r); valF == nil {
				c.Bad("scope", n, get.Pos(), q, "%s doesn't find the element for the variable", n)
				return nil, nil
			}
		default:
			ok := r != nil && r.Op == "call" && strings.HasSuffix(r.CallName(), ".Get") && len(r.Args) == 2 && own(r.Args[0]) != nil && stripTyped(r.Args[1]) == key
			if !ok {
				c.Bad("scope", n, get.Pos(), q, "%s hides the other variables", n)
				return nil, nil
			}
			underF = own(r.Args[0])
		}
	}
	if keyF == nil || valF == nil || underF == nil {
		return nil, nil
	}
	seen[get] = true
	at := func(v *types.Var) *Term { return stripTyped(p.St.heap[p.St.faddr(scope, v)]) }
	k, under := at(keyF), at(underF)
	for k != nil && k.Op == "call" && len(k.Args) == 1 && !isKey(k) {
		k = stripTyped(k.Args[0])
	}
	if k == nil || !isKey(k) {
		return nil, nil
	}
	if under == nil || under.Op != "call" || !strings.HasSuffix(under.CallName(), ".Scope") || under.Args[0] != ic {
		return nil, nil
	}
	elem = at(valF)
	if elem == nil {
		return nil, nil
	}
	switch {
	case elem.Op == "cbarg":
		index = elem
	case isDgo(elem, "Get") && len(elem.Args) == 2:
		index = elem.Args[1]
	}
	return elem, index
}

// locationsKept checks that all of the locations that are made are in the result, in order
func (c *Ctx) locationsKept(p *Path, name string, f *ssa.Function, facts map[*Term]bool, r *Term, n int, loc func(int) *Term, items []*Term, src *Term, isItems func(*Term) bool, bad func(string, string, ...interface{})) {
	isLen := func(x *Term) bool {
		return x.Op == "len" && isItems(x.Args[0]) || isDgo(x, "Len") && isItems(x.Args[0])
	}
	if src == nil {
		if name == "mapped_paths" || n > 0 {
			bad("source", "doesn't look for what to make locations of")
		}
		return
	}
	single := false
	if name == "mapped_paths" {
		str, arr := isaFactOf(facts, src, "String"), isaFactOf(facts, src, "Array")
		if str < 0 && arr < 0 {
			if n > 0 {
				bad("all", "makes a location of a value that is neither a string nor an array")
			}
			return
		}
		if str == 0 && arr == 0 {
			bad("all", "doesn't check if the value is a string or an array")
			return
		}
		single = str > 0
	}
	// all items
	runs, direct := 0, 0
	for _, ev := range p.Events {
		if ev.Kind == "callback" && ev.Recv != nil && isItems(ev.Recv) {
			runs++
		}
	}
	for i := 0; i < n; i++ {
		if i < len(items) && items[i] != nil && items[i].Op == "cbarg" {
			continue
		}
		direct++
	}
	each := false // a callback is called for each of them
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Recv != nil && isItems(ev.Recv) && len(ev.Args) > 0 && (isDgo(ev.Res, "Each") || isDgo(ev.Res, "EachWithIndex")) {
			each = true
		}
	}
	if !each {
		_, hi := lenBounds(facts, isItems)
		done := hi == 0
		for t, v := range facts {
			if t.Op == "lt" && !v && (isLen(t.Args[1]) || t.Args[1] == lenOf(r)) || t.Op == "eq" && v && (isLen(t.Args[0]) || isLen(t.Args[1])) {
				done = true
			}
		}
		if !done && !(single && n == 1) {
			bad("all", "doesn't make a location of each of them")
			return
		}
		for i, it := range items {
			k, isC := it.IntConst()
			if !(i == 0 && isC && k == 0 || i > 0 && (succIndex(it) || isC && k == int64(i))) && !(single && n == 1) {
				bad("all", "doesn't make a location of each of them, one after the other")
				return
			}
		}
	} else if runs != n {
		bad("all", "doesn't make a location of each of them")
		return
	}
	// all kept
	base := r
	for i := 0; i < n; i++ {
		l := loc(i)
		kept := false
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "store" && ev.Addr.Op == "iaddr" && ev.Addr.Args[0] == base && stripTyped(ev.Val) == l:
				ix := ev.Addr.Args[1]
				it := items[i]
				switch {
				case it == nil:
					k, isC := ix.IntConst()
					kept = single && isC && k == 0
				case it.Op == "cbarg":
					kept = ix.Op == "cbarg" && ix.Args[0] == it.Args[0] && strings.HasPrefix(ix.Aux, "1.") && strings.HasPrefix(it.Aux, "0.") && ix.Aux[2:] == it.Aux[2:]
				default:
					kept = ix == it
				}
				if !kept {
					bad("order", "doesn't keep the locations in order")
					return
				}
				if base.Op == "makeslice" && !isLen(base.Args[0]) {
					bad("order", "makes room for more or fewer locations than there are")
					return
				}
			case ev.Kind == "append" && ev.Res != nil && len(ev.Args) > 0 && anyArg(ev, l):
				kept = ev.Recv == nil || ev.Recv.Op != "slice"
				if i == 0 && ev.Recv != nil && ev.Recv.Op == "makeslice" {
					k, isC := ev.Recv.Args[0].IntConst()
					kept = kept && isC && k == 0
				}
				if i == n-1 && !each && !r.Contains(l) && r.Op != "loopvar" && r.Op != "loopcell" {
					kept = false
				}
			}
		}
		if !kept && (r.Op == "slicelit" || r.Op == "append1") && n == 1 && stripTyped(r.Args[len(r.Args)-1]) == l {
			kept = true
		}
		if !kept {
			bad("all", "doesn't keep all of the locations")
			return
		}
	}
}

func lenOf(r *Term) *Term {
	if r != nil && r.Op == "makeslice" {
		return r.Args[0]
	}
	return nil
}

func anyArg(ev *Event, l *Term) bool {
	for _, a := range ev.Args {
		if a.Any(func(x *Term) bool { return x == l }) {
			return true
		}
	}
	return false
}
