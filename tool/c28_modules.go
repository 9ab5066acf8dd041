package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C28", Technique: "provenance of module names, directories and cached providers over all paths (path-sensitive dataflow on SSA)",
		Explain: "On all paths of the module lookup function, with the search for the module inlined: the module is named by the lowercase text before the first :: of the key, the function that was cached for that module is called with the key, or else the one made for the first directory of the module path, in order, with an equally named directory that has a configuration file; that function looks in the file that was found, for that module. If there is none it's reported, and nothing else fails or ends the search.",
		Check:   checkModules})
}

func checkModules(c *Ctx) {
	f := c.pkgFunc("provider", "ModuleLookupKey")
	if f == nil {
		return
	}
	n := c.N(f)
	pc, key := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
	at := c.pkgFunc("provider", "ConfigLookupKeyAt")
	if at == nil {
		return
	}
	isFile := func(t *Term) bool {
		s, ok := t.StrConst()
		return ok && s == "hiera.yaml"
	}
	paths := c.Run(f, &Policy{
		Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkgOf(f) && g != at && (providerFn(g.Signature) == "" || g.Parent() == nil && g.Object() != nil && !g.Object().Exported()) && c.P.InRepo(g)
		},
		NoHavoc: func(*Event) bool { return true },
		Sync: func(ev *Event, a *Term) string {
			if c.isAPI(ev, "Invocation", "WithModule") {
				return "once"
			}
			return "no"
		},
	})
	kinds := map[string]int{}
	for _, p := range paths {
		if p.Exit == "cut" {
			continue
		}
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		facts := p.FactsBefore(len(p.Events))
		infeasible := false
		for t, v := range facts {
			if t.Op == "eq" && v {
				for i := range t.Args {
					// a function that was just made isn't one that existed before
					if wrappedClosure(t.Args[i]) != nil && t.Args[1-i].Op == "init" {
						infeasible = true
					}
				}
			}
		}
		if infeasible {
			continue
		}
		if is, known := c.sessionFact(facts, pc); !known || !is {
			if !known || p.Exit != "return" || !p.Res.IsNil() {
				bad("no-session", "%s finds something without a session")
			}
			kinds["no session"]++
			continue
		}
		// what the key is divided at
		var with, cached, store *Event
		report := 0
		var dirs []*Event
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case c.isAPI(ev, "Invocation", "WithModule"):
				if with != nil {
					bad("twice", "%s looks in more than one module")
				}
				with = ev
			case c.isAPI(ev, "ServerContext", "CachedValue"):
				cached = ev
			case c.isAPI(ev, "ServerContext", "Cache"):
				store = ev
			case c.isAPI(ev, "Invocation", "ReportModuleNotFound"):
				report++
			case ev.Name == "io/ioutil.ReadDir" || ev.Name == "os.ReadDir" || ev.Name == "os.Open":
				dirs = append(dirs, ev)
			}
		}
		c.Count("outcomes of a module lookup", 1)
		if p.Exit == "panic" {
			// only if something can't be read
			ok := false
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.Res == nil {
					continue
				}
				switch ev.Name {
				case "io/ioutil.ReadDir", "os.ReadDir", "os.Lstat", "os.Stat", "os.Open", "(os.File).Readdir", "(os.File).ReadDir":
					if err, failed, known := c.errorOf(p, facts, ev.Res); known && failed {
						if gone, k := notExist(facts, err); k && !gone {
							ok = true
						}
					}
				}
			}
			if !ok {
				bad("fails", "%s fails although nothing is unreadable")
			}
			kinds["unreadable"]++
			continue
		}
		if with == nil {
			// there must be no module in the key
			ok := false
			for t := range facts {
				t.Any(func(x *Term) bool {
					if x.Op == "call" && len(x.Args) > 0 && x.Args[0] == key {
						s := splitAt{key, x}
						ok = ok || foundAt(facts, s, 1) == -1
						if x.CallName() == "strings.Contains" || x.CallName() == "strings.HasPrefix" {
							if sep, k := x.Args[1].StrConst(); k && sep == "::" && facts[x] == (x.CallName() == "strings.HasPrefix") {
								ok = true
							}
						}
					}
					return false
				})
				// an empty name
				if t.Op == "eq" && facts[t] {
					for i := range t.Args {
						if b, is := partBefore(lowered(t.Args[i]), "::"); is && b.text == key && constEmpty(t.Args[1-i]) {
							ok = true
						}
					}
				}
				if t.Op == "len" {
					continue
				}
			}
			for t, v := range facts {
				if t.Op == "eq" && v {
					for i := range t.Args {
						if k, is := t.Args[1-i].IntConst(); is && k == 0 && t.Args[i].Op == "len" {
							if b, is := partBefore(lowered(t.Args[i].Args[0]), "::"); is && b.text == key {
								ok = true
							}
						}
					}
				}
			}
			if !ok || !p.Res.IsNil() {
				bad("no-module", "%s returns %v although the key names a module", p.Res)
			}
			kinds["no module"]++
			continue
		}
		if r := stripTyped(p.Res); r != with.Res {
			bad("result", "%s returns %v instead of what the module yields", r)
		}
		if iv := with.Recv; iv == nil || !c.apiCall(iv, "ServerContext", "Invocation") || iv.Args[0] != pc {
			bad("context", "%s looks in a module for %v", iv)
		}
		name := with.Args[0]
		isName := func(t *Term) bool {
			b, ok := partBefore(lowered(t), "::")
			return ok && b.text == key && foundAt(facts, b, 1) == 1
		}
		if !isName(name) {
			bad("name", "%s takes %v for the name of the module", name)
			continue
		}
		if lowered(name) == name {
			bad("case", "%s distinguishes module names by case")
		}
		keyed := func(t *Term) bool {
			return t.Any(func(x *Term) bool { return x == name }) && !t.Any(func(x *Term) bool { return x.Op == "sym" })
		}
		var cb *Term
		for _, ev := range p.Events {
			if ev.Kind == "callbackret" && ev.Res == with.Res {
				cb = ev.Val
			}
		}
		if cb == nil {
			bad("callback", "%s doesn't look in the module")
			continue
		}
		hit := false
		if cached != nil {
			if !keyed(cached.Args[0]) || cached.Recv != pc {
				bad("cache", "%s finds what's cached by %v, which isn't the module's own", cached.Args[0])
			}
			for t, v := range facts {
				if t.Op == "ext" && t.Aux == "1" && t.Args[0] == cached.Res {
					hit = v
				}
			}
		}
		if store != nil && (cached == nil || store.Args[0] != cached.Args[0] || store.Recv != pc) {
			bad("cache", "%s caches by %v what isn't found that way", store.Args[0])
		}
		// the outcome of the lookup
		cb = stripTyped(cb)
		var fn *Term
		if cb.Op == "init" && cb.Args[0].Op == "iaddr" {
			if k, ok := cb.Args[0].Args[1].IntConst(); ok && k == 0 {
				if call := stripTyped(cb.Args[0].Args[0]); isDgo(call, "Call") && len(call.Args) == 2 {
					fn = stripTyped(call.Args[0])
					if a := call.Args[1]; !(a.Op == "call" && strings.HasPrefix(a.CallName(), vfPkg+".") && argumentsAre(a, pc, key)) {
						bad("arguments", "%s asks a module with %v", a)
					}
				}
			}
		}
		if fn == nil && !cb.IsNil() {
			bad("value", "%s returns %v for a module", cb)
			continue
		}
		if fn == nil && report == 0 {
			bad("report", "%s doesn't report that the module isn't found")
		}
		if fn != nil && report > 0 {
			bad("report", "%s reports that a module that it looks in isn't found")
		}
		if hit {
			own := c.extOf(p, cached.Res, 0)
			known := false
			for t := range facts {
				known = known || (t.Op == "eq" || t.Op == "isa") && t.Any(func(x *Term) bool { return x == own })
			}
			switch {
			case len(dirs) > 0:
				bad("search", "%s searches for a module that was found before")
			case fn != nil && fn != own:
				bad("cached", "%s asks %v instead of the function that was cached", fn)
			case !known:
				bad("cached", "%s doesn't test what was cached")
			default:
				for t, v := range facts {
					if t.Op == "eq" && (t.Args[0] == own || t.Args[1] == own) && v == (fn != nil) {
						bad("cached", "%s doesn't distinguish the modules that were found from others")
					}
				}
				kinds["cached"]++
			}
			continue
		}
		if cached != nil && (store == nil || (fn != nil && stripTyped(store.Args[1]) != fn)) {
			bad("cache", "%s doesn't cache the outcome of a search")
		}
		if cached != nil && fn == nil && store != nil && wrappedClosure(store.Args[1]) != nil && len(wrappedClosure(store.Args[1]).Args) > 0 {
			bad("cache", "%s caches a module that it doesn't use")
		}
		c.search(p, facts, dirs, name, fn, isFile, bad)
		if fn == nil {
			kinds["not found"]++
		} else {
			kinds["found"]++
		}
	}
	for _, k := range []string{"no session", "no module", "unreadable", "cached", "not found", "found"} {
		c.Must(kinds[k] > 0, "case", n+": "+k, f.Pos(), nil, "%s has no path for: %s", n, k)
	}
	c.Count("directories searched", 0)
	c.Min("directories searched", 4)
	c.moduleFunctions(at)
}

// lowered returns what a text is before it's converted to lowercase
func lowered(t *Term) *Term {
	t = stripTyped(t)
	if t.Op == "call" && t.CallName() == "strings.ToLower" {
		return t.Args[0]
	}
	return t
}

func constEmpty(t *Term) bool {
	s, ok := t.StrConst()
	return ok && s == ""
}

func argumentsAre(a *Term, want ...*Term) bool {
	as := a.Args
	if len(as) == 1 && as[0].Op == "slicelit" {
		as = as[0].Args
	}
	if len(as) != len(want) {
		return false
	}
	for i := range as {
		if argText(as[i]) != want[i] {
			return false
		}
	}
	return true
}

// wrappedClosure returns the closure that is wrapped in a function value
func wrappedClosure(t *Term) *Term {
	t = stripTyped(t)
	if t.Op == "call" && strings.HasPrefix(t.CallName(), vfPkg+".") && len(t.Args) == 1 {
		t = stripTyped(t.Args[0])
	}
	if t.Op == "closure" {
		return t
	}
	return nil
}

// content returns what a variable that is captured by a closure holds
func content(p *Path, t *Term) *Term {
	if t.Op == "alloc" {
		if v := p.St.heap[t]; v != nil {
			return v
		}
	}
	return t
}

// search checks that the directories are searched in order, and that a module is found as soon as there is one
func (c *Ctx) search(p *Path, facts map[*Term]bool, dirs []*Event, name, fn *Term, isFile func(*Term) bool, bad func(rule, format string, args ...interface{})) {
	isList := func(t *Term) bool {
		t = stripTyped(t)
		if t.Op != "call" || t.CallName() != "path/filepath.SplitList" {
			return false
		}
		return t.Args[0].Any(func(x *Term) bool {
			if x.Op != "call" || !strings.HasSuffix(x.CallName(), ").Get") || len(x.Args) != 2 {
				return false
			}
			s, ok := argText(x.Args[1]).StrConst()
			return ok && s == "hiera::lookup::modulepath" && strings.HasSuffix(x.Args[0].CallName(), ").SessionOptions")
		})
	}
	elem := func(t *Term, isOf func(*Term) bool) (*Term, bool) {
		t = stripTyped(t)
		if t.Op == "init" && t.Args[0].Op == "iaddr" && isOf(t.Args[0].Args[0]) {
			return t.Args[0].Args[1], true
		}
		return nil, false
	}
	exhausted := func(isOf func(*Term) bool) bool {
		for t, v := range facts {
			if t.Op == "lt" && !v && t.Args[1].Op == "len" && isOf(t.Args[1].Args[0]) {
				if k, ok := t.Args[0].IntConst(); ok && k == 0 || succIndex(t.Args[0]) {
					return true
				}
			}
		}
		return false
	}
	for i, d := range dirs {
		c.Count("directories searched", 1)
		idx, ok := elem(d.Args[0], isList)
		if !ok {
			bad("directory", "%s searches %v, which isn't an element of the module path", d.Args[0])
			return
		}
		if k, isK := idx.IntConst(); i == 0 && !(isK && k == 0) || i > 0 && !succIndex(idx) {
			bad("order", "%s doesn't search the module path in order")
		}
		last := i == len(dirs)-1
		listed := d.Res
		err, failed, known := c.errorOf(p, facts, d.Res)
		if d.Name == "os.Open" && known && !failed {
			known = false
			for _, ev := range p.Events {
				if ev.Kind == "call" && (ev.Name == "(os.File).Readdir" || ev.Name == "(os.File).ReadDir") && ext0(ev.Recv) == d.Res {
					listed = ev.Res
					err, failed, known = c.errorOf(p, facts, ev.Res)
				}
			}
		}
		if !known {
			bad("unchecked", "%s doesn't test if a directory could be read")
			continue
		}
		if failed {
			if gone, k := notExist(facts, err); !k || !gone {
				bad("unreadable", "%s ignores a directory that can't be read")
			}
			if fn != nil && last {
				bad("found", "%s finds a module in a directory that doesn't exist")
			}
			continue
		}
		isEntries := func(t *Term) bool { return ext0(stripTyped(t)) == listed }
		// what's known about the entries of the directory
		match := map[*Term]bool{} // index -> has the name
		for t, v := range facts {
			if t.Op == "call" && t.CallName() == "strings.EqualFold" {
				for j := range t.Args {
					if entry := nameOf(t.Args[j]); entry != nil {
						if ix, ok := elem(entry, isEntries); ok {
							match[ix] = v
							if lowered(t.Args[1-j]) != lowered(name) {
								bad("compare", "%s compares the name of a directory with %v", t.Args[1-j])
							}
						}
					}
				}
			}
			if t.Op == "eq" {
				for j := range t.Args {
					l := stripTyped(t.Args[j])
					if entry := nameOf(lowered(l)); entry != nil {
						if ix, ok := elem(entry, isEntries); ok {
							if lowered(l) == l || stripTyped(t.Args[1-j]) != name {
								bad("compare", "%s compares the name of a directory with %v as is", t.Args[1-j])
							}
							match[ix] = v
						}
					}
				}
			}
		}
		var got, missed *Term
		for ix, v := range match {
			if !v {
				continue
			}
			// is it a directory with a configuration
			isDir, isIt := 0, false
			var conf *Term
			for t, v := range facts {
				if t.Op == "call" && strings.HasSuffix(t.CallName(), ").IsDir") {
					if jx, ok := elem(t.Args[0], isEntries); ok && jx == ix {
						isDir = -1
						if v {
							isDir = 1
						}
					}
				}
			}
			missing := isDir == -1
			for t, v := range facts {
				if t.Op == "eq" && v && (t.Args[0].IsNil() || t.Args[1].IsNil()) {
					for _, a := range t.Args {
						if jx, ok := elem(a, isEntries); ok && jx == ix {
							missing = true // there is no such entry
						}
					}
				}
			}
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.Name != "os.Lstat" && ev.Name != "os.Stat" {
					continue
				}
				a := stripTyped(ev.Args[0])
				if a.Op != "call" || a.CallName() != "path/filepath.Join" {
					continue
				}
				as := a.Args
				if len(as) == 1 && as[0].Op == "slicelit" {
					as = as[0].Args
				}
				if len(as) != 3 || nameOf(as[1]) == nil {
					continue
				}
				jx, ok := elem(nameOf(as[1]), isEntries)
				if !ok || jx != ix || as[0] != d.Args[0] {
					continue
				}
				if !isFile(as[2]) {
					bad("file", "%s looks for %v in a module", as[2])
				}
				err, failed, known := c.errorOf(p, facts, ev.Res)
				switch {
				case !known:
					bad("unchecked", "%s doesn't test if there is a configuration")
				case failed:
					if gone, k := notExist(facts, err); k && gone {
						missing = true
					} else {
						bad("unreadable", "%s ignores a configuration that can't be read")
						missing = true
					}
				default:
					fi := c.extOf(p, ev.Res, 0)
					for t, v := range facts {
						if t.Op == "call" && strings.HasSuffix(t.CallName(), ").IsDir") && stripTyped(t.Args[0]) == fi {
							if v {
								missing = true
							} else {
								isIt, conf = true, a
							}
						}
					}
				}
			}
			switch {
			case missing:
				missed = ix
			case isDir == 1 && isIt:
				got = conf
			default:
				bad("unchecked", "%s doesn't test if the directory with the name of the module has a configuration")
			}
		}
		if got == nil && missed == nil && !exhausted(isEntries) {
			bad("entries", "%s doesn't look at all entries of a directory")
		}
		switch {
		case got != nil && (fn == nil || !last):
			bad("first", "%s doesn't use the first module that it finds")
		case got == nil && fn != nil && last:
			bad("found", "%s uses a module without knowing that it has a configuration")
		case got != nil && fn != nil && last:
			cl := wrappedClosure(fn)
			if cl == nil {
				bad("function", "%s uses %v for a module", fn)
				break
			}
			var hasPath, hasName bool
			for _, a := range cl.Args {
				v := stripTyped(content(p, a))
				hasPath = hasPath || v == got
				hasName = hasName || v == name
			}
			if !hasPath || !hasName {
				bad("function", "%s looks in another file, or for another module, than the one found")
			}
			c.Count("modules found", 1)
		}
	}
	if fn == nil {
		// the module path must be exhausted, or there is none
		none := false
		for t, v := range facts {
			if t.Op == "isa" && !v && strings.HasSuffix(t.Aux, "dgo.String") {
				none = true
			}
			if isNil, k := nilFact(facts, t.Args0()); k && isNil && t.Args0() != nil && strings.HasSuffix(t.Args0().CallName(), ").Get") {
				none = true
			}
		}
		if !none && !exhausted(isList) {
			bad("all", "%s gives up before it has searched the whole module path")
		}
	} else if len(dirs) == 0 {
		bad("found", "%s finds a module without searching for it")
	}
}

// Args0 returns the first argument
func (t *Term) Args0() *Term {
	if len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

// nameOf returns the directory entry that the term is the name of
func nameOf(t *Term) *Term {
	t = stripTyped(t)
	if t != nil && t.Op == "call" && strings.HasSuffix(t.CallName(), ").Name") && len(t.Args) == 1 {
		return stripTyped(t.Args[0])
	}
	return nil
}

// moduleFunctions checks the functions that look in the configuration of a module
func (c *Ctx) moduleFunctions(at *ssa.Function) {
	for _, f := range c.P.Funcs {
		if f.Parent() == nil || c.P.relPkg(f) != "provider" || providerFn(f.Signature) != "lookup_key" || len(f.FreeVars) == 0 {
			continue
		}
		n := c.N(f)
		pc, key := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
		asked := 0
		for _, p := range c.Run(f, &Policy{Inline: inlineNone, NoHavoc: func(*Event) bool { return true }}) {
			if p.Exit == "cut" {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			if is, known := c.sessionFact(facts, pc); !known || !is {
				c.Must(known && p.Exit == "return" && p.Res.IsNil(), "no-session", n, f.Pos(), p, "%s finds something without a session", n)
				continue
			}
			r := stripTyped(p.Res)
			ok := p.Exit == "return" && r.Op == "call" && r.Ev != nil && r.Ev.Fn == at && len(r.Args) == 4 &&
				r.Args[0] == pc && stripTyped(r.Args[2]) == key && r.Args[1] != r.Args[3] && r.Args[1].Op == "init" && r.Args[3].Op == "init"
			c.Must(ok, "module", n, f.Pos(), p, "%s returns %v instead of what the configuration of the module yields for the key", n, r)
			asked++
		}
		c.Must(asked > 0, "module", n, f.Pos(), nil, "%s never looks in a configuration", n)
		c.Count("functions of modules", 1)
	}
	c.Min("functions of modules", 1)
}
