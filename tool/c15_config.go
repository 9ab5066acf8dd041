package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C15", Technique: "path-sensitive dataflow on SSA, and comparison of the parsed text of the configuration type with the documented one",
		Explain: "On all paths of the function that loads a configuration, the file must have been read, parsed and found to be an instance of the configuration type before anything of it is used; the default configuration may only be used when the file doesn't exist, any other error must end the load. The text of that type is parsed, and each key of it, whether it is required and the type of its value are compared with the documented ones. On all paths that read a hierarchy or an entry, a name that was used, a second location, a second function and an option that is reserved must end the load.",
		Check:   checkConfig})
}

// dgoType is a type in the syntax of the dgo module
type dgoType struct {
	op   string // name, map, array, struct, regexp, literal, or, and, call
	text string
	args []*dgoType
	keys []string
	opt  []bool
	lim  []string
}

type dgoParser struct {
	toks []string
	i    int
	err  bool
	defs map[string]*dgoType
}

func (p *dgoParser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *dgoParser) next() string {
	t := p.peek()
	p.i++
	return t
}

func (p *dgoParser) accept(t string) bool {
	if p.peek() == t {
		p.i++
		return true
	}
	return false
}

func (p *dgoParser) expect(t string) {
	if !p.accept(t) {
		p.err = true
		p.i = len(p.toks)
	}
}

func dgoTokens(s string) []string {
	var ts []string
	rs := []rune(s)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(r) || r == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			ts = append(ts, string(rs[i:j]))
			i = j
		case unicode.IsDigit(r) || r == '-' && i+1 < len(rs) && unicode.IsDigit(rs[i+1]):
			j := i + 1
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1])) {
				j++
			}
			ts = append(ts, string(rs[i:j]))
			i = j
		case r == '/' || r == '"' || r == '`' || r == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != r {
				if rs[j] == '\\' && r != '`' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return append(ts, "?unterminated")
			}
			ts = append(ts, string(rs[i:j+1]))
			i = j + 1
		default:
			ts = append(ts, string(r))
			i++
		}
	}
	return ts
}

func (p *dgoParser) typ() *dgoType {
	l := p.unary()
	for p.peek() == "|" || p.peek() == "&" || p.peek() == "^" {
		o := p.next()
		l = &dgoType{op: o, args: []*dgoType{l, p.unary()}}
	}
	return l
}

func (p *dgoParser) limits() []string {
	var ls []string
	for !p.accept("]") {
		if p.i >= len(p.toks) {
			p.err = true
			return nil
		}
		if t := p.next(); t != "," {
			ls = append(ls, t)
		}
	}
	return ls
}

func (p *dgoParser) unary() *dgoType {
	t := p.next()
	switch {
	case t == "":
		p.err = true
		return &dgoType{op: "none"}
	case t == "(":
		x := p.typ()
		p.expect(")")
		return x
	case t == "{":
		st := &dgoType{op: "struct"}
		for !p.accept("}") {
			if p.i >= len(p.toks) {
				p.err = true
				return st
			}
			k := p.next()
			if k == "," {
				continue
			}
			if len(k) > 1 && (k[0] == '"' || k[0] == '\'' || k[0] == '`') {
				k = k[1 : len(k)-1]
			}
			if k == "." {
				st.op = "open struct"
				continue
			}
			if p.accept("=") {
				// a definition
				p.defs[k] = p.typ()
				continue
			}
			opt := p.accept("?")
			p.expect(":")
			st.keys = append(st.keys, k)
			st.opt = append(st.opt, opt)
			st.args = append(st.args, p.typ())
		}
		return st
	case t == "[":
		ls := p.limits()
		return &dgoType{op: "array", lim: ls, args: []*dgoType{p.unary()}}
	case t == "map" && p.peek() == "[":
		p.next()
		k := p.typ()
		m := &dgoType{op: "map", args: []*dgoType{k}}
		for p.accept(",") {
			m.lim = append(m.lim, p.next())
		}
		p.expect("]")
		m.args = append(m.args, p.unary())
		return m
	case t[0] == '/':
		return &dgoType{op: "regexp", text: t[1 : len(t)-1]}
	case unicode.IsDigit(rune(t[0])) || t[0] == '-' || t[0] == '"' || t[0] == '\'':
		return &dgoType{op: "literal", text: t}
	case unicode.IsLetter(rune(t[0])):
		if p.accept("=") {
			p.defs[t] = p.typ()
			return p.defs[t]
		}
		x := &dgoType{op: "name", text: t}
		if t == "string" && p.accept("[") {
			x.lim = p.limits()
		}
		return x
	}
	p.err = true
	return &dgoType{op: "none"}
}

// canon gives the text of a type where all names are replaced by what they stand for
func (p *dgoParser) canon(t *dgoType, depth int) string {
	if depth > 20 {
		return "..."
	}
	switch t.op {
	case "name":
		if d := p.defs[t.text]; d != nil {
			return p.canon(d, depth+1)
		}
		if t.lim != nil {
			return t.text + "[" + strings.Join(t.lim, ",") + "]"
		}
		return t.text
	case "array":
		return "[" + strings.Join(t.lim, ",") + "]" + p.canon(t.args[0], depth+1)
	case "map":
		return "map[" + p.canon(t.args[0], depth+1) + "]" + p.canon(t.args[1], depth+1)
	case "regexp":
		return "/" + t.text + "/"
	case "literal":
		return t.text
	}
	return t.op
}

func (p *dgoParser) resolve(t *dgoType) *dgoType {
	for n := 0; n < 20 && t.op == "name" && p.defs[t.text] != nil; n++ {
		t = p.defs[t.text]
	}
	return t
}

const nonEmpty = "string[1]"

// the documented keys of an entry
var entryKeys = map[string][]string{
	"options": {"options"}, "data_dig": {nonEmpty}, "data_hash": {nonEmpty}, "lookup_key": {nonEmpty}, "datadir": {nonEmpty}, "plugindir": {nonEmpty}, "pluginfile": {nonEmpty}, "name": {nonEmpty},
	"path": {nonEmpty}, "paths": {"[1]" + nonEmpty}, "glob": {nonEmpty}, "globs": {"[1]" + nonEmpty}, "uri": {nonEmpty}, "uris": {"[1]" + nonEmpty}, "mapped_paths": {"[3,3]" + nonEmpty, "[3]" + nonEmpty}}
var defaultsKeys = []string{"options", "data_dig", "data_hash", "lookup_key", "datadir", "plugindir"}

func (c *Ctx) parseTypes(texts []string, main string) (*dgoParser, *dgoType) {
	p := &dgoParser{defs: map[string]*dgoType{}}
	for _, t := range append(append([]string{}, texts...), main) {
		p.toks, p.i = dgoTokens(t), 0
		p.typ()
		if p.i != len(p.toks) {
			p.err = true
		}
	}
	p.toks, p.i = dgoTokens(main), 0
	return p, p.typ()
}

// configType compares the text of the type
func (c *Ctx) configType(g *ssa.Global) {
	pos, pkg := g.Pos(), g.Pkg
	text := func(v ssa.Value) (string, bool) {
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				v = x.Tuple
				continue
			case *ssa.TypeAssert:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Pkg == pkg && g.Blocks != nil {
					var rs []*ssa.Return
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
								rs = append(rs, r)
							}
						}
					}
					if len(rs) == 1 {
						v = rs[0].Results[0]
						continue
					}
				}
				if strings.HasSuffix(calleeKey(x), "tf.ParseType") && len(x.Call.Args) > 0 {
					v = x.Call.Args[0]
					continue
				}
			case *ssa.Const:
				if x.Value != nil && x.Value.Kind() == constant.String {
					return constant.StringVal(x.Value), true
				}
			}
			return "", false
		}
	}
	sts := c.globalStores(g)
	if len(sts) != 1 {
		c.Anchor("the type of a configuration")
		return
	}
	main, ok := text(sts[0].Val)
	if !ok {
		c.Anchor("the text of the type of a configuration")
		return
	}
	var all []string
	for _, f := range c.P.Funcs {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, ci := range calls(f) {
			if strings.HasSuffix(calleeKey(ci), "tf.ParseType") {
				if s, ok := text(ci.Common().Args[0]); ok && s != main {
					all = append(all, s)
				}
			}
		}
	}
	if f := g.Pkg.Func("init"); f != nil {
		for _, ci := range calls(f) {
			if strings.HasSuffix(calleeKey(ci), "tf.ParseType") {
				if s, ok := text(ci.Common().Args[0]); ok && s != main {
					all = append(all, s)
				}
			}
		}
	}
	p, t := c.parseTypes(all, main)
	if p.err {
		c.Anchor("the text of the type of a configuration can not be parsed")
		return
	}
	check := func(rule string, t *dgoType, want map[string]func(*dgoType) bool, required string) {
		t = p.resolve(t)
		if t.op != "struct" {
			c.Bad("schema", rule, pos, nil, "%s may have any keys", rule)
			return
		}
		seen := map[string]bool{}
		for i, k := range t.keys {
			c.Count("keys of the configuration type", 1)
			seen[k] = true
			f, ok := want[k]
			if !ok {
				c.Bad("schema", rule+"/"+k, pos, nil, "%s may have the key %s, which isn't documented", rule, k)
				continue
			}
			c.Must(f(t.args[i]), "schema", rule+"/"+k, pos, nil, "the type of the key %s of %s is %s, which isn't what is documented", k, rule, p.canon(t.args[i], 0))
			c.Must(t.opt[i] == (k != required), "schema", rule+"/"+k+"/required", pos, nil, "the key %s of %s is required, or not required, against the documentation", k, rule)
		}
		var ks []string
		for k := range want {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Must(seen[k], "schema", rule+"/"+k+"/missing", pos, nil, "%s can not have the key %s, although it is documented", rule, k)
		}
	}
	value := func(k string) func(*dgoType) bool {
		return func(t *dgoType) bool {
			if k == "options" {
				return c.optionsType(p, t)
			}
			s := p.canon(t, 0)
			for _, w := range entryKeys[k] {
				if s == w {
					return true
				}
			}
			return false
		}
	}
	entry, dflt := map[string]func(*dgoType) bool{}, map[string]func(*dgoType) bool{}
	for k := range entryKeys {
		entry[k] = value(k)
	}
	for _, k := range defaultsKeys {
		dflt[k] = value(k)
	}
	hier := func(rule string) func(*dgoType) bool {
		return func(t *dgoType) bool {
			t = p.resolve(t)
			if t.op != "array" || len(t.lim) > 0 && !(len(t.lim) == 1 && t.lim[0] == "0") {
				return false
			}
			check(rule, t.args[0], entry, "name")
			return true
		}
	}
	check("the configuration", t, map[string]func(*dgoType) bool{
		"version": func(t *dgoType) bool { return p.resolve(t).op == "literal" && p.resolve(t).text == "5" },
		"defaults": func(t *dgoType) bool {
			check("the defaults entry", t, dflt, "")
			return true
		},
		"hierarchy":         hier("an entry"),
		"default_hierarchy": hier("a default entry"),
	}, "version")
}

// optionsType checks the type of options: keys that are identifiers, any data as values
func (c *Ctx) optionsType(p *dgoParser, t *dgoType) bool {
	t = p.resolve(t)
	if t.op != "map" || len(t.lim) > 0 || p.canon(t.args[1], 0) != "data" {
		return false
	}
	k := p.resolve(t.args[0])
	if k.op != "regexp" {
		return false
	}
	re, err := regexp.Compile(k.text)
	if err != nil {
		return false
	}
	for _, s := range []string{"a", "Z", "a1", "my_option", "my-option", "aB-c_9"} {
		if !re.MatchString(s) {
			return false
		}
	}
	for _, s := range []string{"", "1", "1a", "_a", "-a", "a_", "a-", "a b", "a.b", " a", "a ", "a\n", "\na"} {
		if re.MatchString(s) {
			return false
		}
	}
	return true
}

func checkConfig(c *Ctx) {
	f := c.pkgFunc("config", "New")
	if f == nil {
		return
	}
	var cfgT types.Type
	for _, t := range c.role("api", "Config", 1) {
		if structOf(t) != nil && len(c.P.declaredMethods(t)) > 0 && c.methodOn(t, "DefaultHierarchy") != nil && pkgOf(c.methodOn(t, "DefaultHierarchy")) == pkgOf(f) {
			cfgT = t
		}
	}
	if cfgT == nil {
		c.Anchor("api.Config")
		return
	}
	c.configLoaded(f, cfgT)
	c.entriesValid(f)
	c.Min("keys of the configuration type", 38)
	c.Min("configurations", 8)
	c.Min("second locations that are rejected", 1)
	c.Min("second functions that are rejected", 1)
	c.Min("reserved options that are rejected", 1)
	c.Min("entries with a unique name", 1)
}

// makesEntries is true for functions that make entries
func (c *Ctx) makesEntries(g *ssa.Function) bool {
	r := g.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	t := r.At(0).Type()
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	return types.Implements(t, c.P.Iface("api", "Entry"))
}

func (c *Ctx) configLoaded(f *ssa.Function, cfgT types.Type) {
	n := c.N(f)
	field := map[string]*types.Var{}
	for _, g := range []string{"Root", "Path", "Hierarchy", "DefaultHierarchy", "Defaults"} {
		if field[g] = c.getterField(cfgT, g); field[g] == nil {
			c.Anchor("Config." + g)
			return
		}
	}
	path := c.paramTermOf(f, 0)
	var schema *ssa.Global
	var builtin []*ssa.Function
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && !c.makesEntries(g) }, NoHavoc: func(ev *Event) bool { return true }}) {
		if p.Exit != "return" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		bad := func(rule, what string) { c.Bad(rule, n+"/"+what, f.Pos(), p, "%s %s", n, what) }
		c.Count("configurations", 1)
		var read, parsed *Term
		for i, ev := range p.Events {
			switch {
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".ReadFile"):
				read = ev.Res
				if stripTyped(ev.Args[0]) != path {
					bad("file", "reads another file")
				}
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "/yaml.Unmarshal"):
				parsed = ev.Res
				if x := ext0(ev.Args[0]); x == nil || x != read {
					bad("file", "parses something else than the file")
				}
			case ev.Kind == "call" && isDgo(ev.Res, "Instance") && ev.Recv != nil && ev.Recv.Op == "init":
				if g, ok := ev.Recv.Args[0].Val.(*ssa.Global); ok {
					if schema != nil && schema != g {
						bad("schema", "uses several types")
					}
					schema = g
				}
			case ev.Kind == "call" && (isDgo(ev.Res, "Get") || ev.Fn != nil && c.makesEntries(ev.Fn) && len(ev.Args) > 0 && takesData(ev.Fn)):
				// the configuration is used
				valid := false
				for t, v := range p.FactsBefore(i) {
					if v && isDgo(t, "Instance") && len(t.Args) == 2 && t.Args[0].Op == "init" && parsed != nil && ext0(stripTyped(t.Args[1])) == parsed {
						valid = true
					}
				}
				if !valid {
					bad("schema", "uses a configuration before it has been validated")
				}
			}
		}
		if read == nil {
			bad("file", "doesn't read the file")
			continue
		}
		errNil := func(call *Term) (bool, bool) {
			for t, v := range facts {
				if t.Op == "eq" {
					for i := range t.Args {
						if x := t.Args[1-i]; t.Args[i].IsNil() && x.Op == "ext" && x.Aux == "1" && x.Args[0] == call {
							return v, true
						}
					}
				}
			}
			return false, false
		}
		none, known := errNil(read)
		missing := false
		for t, v := range facts {
			if v && t.Op == "call" && (strings.HasSuffix(t.CallName(), "os.IsNotExist") || strings.HasSuffix(t.CallName(), "errors.Is")) && t.Args[0].Op == "ext" && t.Args[0].Args[0] == read {
				if t.CallName() == "os.IsNotExist" {
					missing = true
				} else if x := stripTyped(t.Args[1]); x != nil && x.Op == "init" && x.Args[0].Val != nil && (strings.HasSuffix(x.Args[0].Val.Name(), "ErrNotExist")) {
					missing = true
				}
			}
		}
		val := func(g string) *Term {
			r := p.Res
			for r.Op == "conv" || r.Op == "typed" {
				r = r.Args[0]
			}
			return stripTyped(p.St.heap[p.St.faddr(r, field[g])])
		}
		root := val("Root")
		if root == nil || !strings.HasSuffix(root.CallName(), "filepath.Dir") || stripTyped(root.Args[0]) != path {
			bad("root", "uses another root directory than that of the file")
		}
		data := func(t *Term) *Term { // the key that a list of entries is made of
			if t == nil {
				return nil
			}
			var d *Term
			t.Any(func(x *Term) bool {
				if isDgo(x, "Get") && d == nil {
					d = x
				}
				return false
			})
			return d
		}
		made := func(t *Term) bool {
			for t != nil && (t.Op == "conv" || t.Op == "typed") {
				t = t.Args[0]
			}
			return t != nil && t.Op == "call" && t.Ev != nil && t.Ev.Fn != nil && c.makesEntries(t.Ev.Fn)
		}
		dfl := func(g string) {
			t := val(g)
			if !made(t) || data(t) != nil {
				bad("default", "doesn't use the built in value of "+g)
				return
			}
			if g == "Hierarchy" {
				builtin = append(builtin, stripTyped(t).Ev.Fn)
			}
		}
		if missing {
			if known && none {
				continue
			}
			if s, ok := val("Path").StrConst(); val("Path") != nil && (!ok || s != "") {
				bad("default", "gives a path to a configuration that has none")
			}
			dfl("Defaults")
			dfl("Hierarchy")
			continue
		}
		if !known || !none {
			bad("file", "ignores an error when the file is read")
			continue
		}
		if parsed == nil {
			bad("file", "doesn't parse the file")
			continue
		}
		if none, known := errNil(parsed); !known || !none {
			bad("file", "ignores an error in the file")
			continue
		}
		valid := false
		for t, v := range facts {
			if v && isDgo(t, "Instance") && len(t.Args) == 2 && t.Args[0].Op == "init" && ext0(stripTyped(t.Args[1])) == parsed {
				valid = true
			}
		}
		if !valid {
			bad("schema", "accepts a configuration that isn't valid")
			continue
		}
		if val("Path") != path {
			bad("path", "gives another path to the configuration")
		}
		for g, key := range map[string]string{"Defaults": "defaults", "Hierarchy": "hierarchy", "DefaultHierarchy": "default_hierarchy"} {
			given, known := false, false
			for t, v := range facts {
				if t.Op != "eq" {
					continue
				}
				for i := range t.Args {
					x := t.Args[1-i]
					if t.Args[i].IsNil() && isDgo(x, "Get") && ext0(stripTyped(x.Args[0])) == parsed {
						if s, ok := stripTyped(x.Args[1]).StrConst(); ok && s == key {
							given, known = !v, true
						}
					}
				}
			}
			if !known {
				bad("used", "doesn't check for the key "+key)
				continue
			}
			t := val(g)
			if !given {
				if g != "DefaultHierarchy" {
					dfl(g)
				} else if data(t) != nil {
					bad("used", "uses the wrong data for the key "+key)
				}
				continue
			}
			ok := made(t)
			if ok {
				d := data(t)
				ok = d != nil && ext0(stripTyped(d.Args[0])) == parsed
				if ok {
					s, _ := stripTyped(d.Args[1]).StrConst()
					ok = s == key
				}
			}
			if !ok {
				bad("used", "doesn't use the value of the key "+key)
			}
		}
	}
	if schema == nil {
		c.Bad("schema", n+"/none", f.Pos(), nil, "%s doesn't validate", n)
	} else {
		c.configType(schema)
	}
	c.builtinHierarchy(builtin)
}

// takesData is true when a function has a parameter that is a value
func takesData(g *ssa.Function) bool {
	for _, p := range g.Params {
		if isNamed(p.Type(), dgoPkg, "Map") || isNamed(p.Type(), dgoPkg, "Array") || isNamed(p.Type(), dgoPkg, "Value") {
			return true
		}
	}
	return false
}

// builtinHierarchy checks the hierarchy that is used when there is none: data.yaml in the root directory, then common.yaml in the data directory
func (c *Ctx) builtinHierarchy(fs []*ssa.Function) {
	done := map[*ssa.Function]bool{}
	for _, f := range fs {
		if done[f] {
			continue
		}
		done[f] = true
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && !c.locationCtor(g) }}) {
			if p.Exit != "return" {
				continue
			}
			var got []string
			elems := []*Term{}
			if r := stripTyped(p.Res); r != nil && r.Op == "slicelit" {
				elems = r.Args
			} else if r != nil {
				for x := r; x != nil && (x.Op == "append1" || x.Op == "append"); x = x.Args[0] {
					elems = append(append([]*Term{}, x.Args[1:]...), elems...)
				}
			}
			for _, t := range c.entryTypes() {
				dd, lf := c.getterField(t, "DataDir"), c.getterField(t, "Locations")
				for _, e := range elems {
					e = stripTyped(e)
					for e.Op == "conv" {
						e = e.Args[0]
					}
					s := "?"
					if l := stripTyped(p.St.heap[p.St.faddr(e, lf)]); l != nil && l.Op == "slicelit" && len(l.Args) == 1 {
						if x := stripTyped(l.Args[0]); x.Op == "call" && x.Ev != nil && x.Ev.Fn != nil && c.locationCtor(x.Ev.Fn) && x.Ev.Fn.Name() == "NewPath" {
							s, _ = x.Args[0].StrConst()
						}
					}
					if d := p.St.heap[p.St.faddr(e, dd)]; d != nil {
						if ds, ok := d.StrConst(); ok && ds != "" {
							s = ds + "/" + s
						} else if !ok {
							s = "?/" + s
						}
					}
					got = append(got, s)
				}
			}
			c.Must(strings.Join(got, " ") == "./data.yaml common.yaml", "default", n+"/hierarchy", f.Pos(), p, "the hierarchy that is used when there is none is %s", strconv.Quote(strings.Join(got, " ")))
		}
	}
}

// entriesValid checks what the type can not express
func (c *Ctx) entriesValid(newf *ssa.Function) {
	var universe []string
	for k := range settingGetters {
		universe = append(universe, k)
	}
	reserved := []string{"path", "uri"}
	var locs []string
	for k := range locationCtors {
		locs = append(locs, k)
	}
	pkg := newf.Pkg
	hash := func(g *ssa.Function) bool {
		for _, p := range g.Params {
			if isNamed(p.Type(), dgoPkg, "Map") || isNamed(p.Type(), dgoPkg, "Array") {
				return true
			}
		}
		return false
	}
	fields := map[*types.Var]string{}
	for _, t := range c.entryTypes() {
		for _, g := range []string{"Function", "Locations"} {
			if v := c.getterField(t, g); v != nil {
				fields[v] = g
			}
		}
	}
	within := func(poss map[string]bool, set []string) bool {
		if len(poss) == 0 {
			return false
		}
		for k := range poss {
			ok := false
			for _, s := range set {
				ok = ok || s == k
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, f := range c.P.Funcs {
		if f.Pkg != pkg || f.Parent() != nil || f.Synthetic != "" || !hash(f) {
			continue
		}
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
			return g.Pkg == pkg && !c.locationCtor(g) && (g.Parent() != nil || !hash(g) || len(g.AnonFuncs) == 0 && !c.makesEntries(g) || returnsLocations(g))
		}, NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string { return "twice" }}) {
			facts := p.FactsBefore(len(p.Events))
			bad := func(rule, what string) { c.Bad(rule, n+"/"+what, f.Pos(), p, "%s %s", n, what) }
			// a valid list has an element
			ran, empty := map[*Term]bool{}, false
			for _, ev := range p.Events {
				if ev.Kind == "callback" {
					ran[ev.Res] = true
				}
			}
			for _, ev := range p.Events {
				if ev.Kind == "call" && isDgo(ev.Res, "Each") && isDgo(ev.Recv, "Value") && !ran[ev.Res] {
					empty = true
				}
			}
			if empty {
				continue
			}
			// the keys that are known to be there
			text := func(k *Term) func(*Term) bool {
				return func(x *Term) bool {
					for x != nil && (x.Op == "conv" || x.Op == "typed") {
						x = x.Args[0]
					}
					return x == k || x != nil && x.Op == "call" && len(x.Args) >= 1 && stripTyped(x.Args[0]) == k && (strings.HasSuffix(x.CallName(), ".String") || strings.HasSuffix(x.CallName(), ".GoString"))
				}
			}
			count := map[string]int{}
			option, let, named := false, false, map[string]bool{}
			got := func(k *Term, opt bool) {
				poss := c.possible(facts, universe, text(k))
				if opt {
					option = option || within(poss, reserved)
					let = let || poss["path"] || poss["uri"]
					return
				}
				if within(poss, locs) {
					count["location"]++
				}
				if within(poss, functionKeys) {
					count["function"]++
				}
			}
			for _, ev := range p.Events {
				if ev.Kind != "callback" || len(ev.Args) == 0 {
					continue
				}
				a := ev.Args[0]
				opts := ev.Recv != nil && ev.Recv.Any(func(x *Term) bool {
					return isDgo(x, "Value") || isDgo(x, "Get") || x.Op == "init" && FieldOf(x.Args[0]) != nil
				})
				switch {
				case strings.HasSuffix(ev.Name, ".EachEntry"):
					for t := range facts {
						t.Any(func(x *Term) bool {
							if isDgo(x, "Key") && stripTyped(x.Args[0]) == a {
								a = x
							}
							return false
						})
					}
					got(a, opts)
				case strings.HasSuffix(ev.Name, ".EachKey"):
					got(a, opts)
				}
			}
			// by their names
			for t, v := range facts {
				if t.Op == "call" && isDgo(t, "ContainsKey") {
					named[c.elementOf(t.Args[1])] = true
					option = option || v && within(map[string]bool{c.elementOf(t.Args[1]): true}, append(reserved, "path uri", "uri path"))
					continue
				}
				if t.Op != "eq" {
					continue
				}
				for i := range t.Args {
					if x := t.Args[1-i]; t.Args[i].IsNil() && isDgo(x, "Get") && stripTyped(x.Args[0]) != nil {
						named[c.elementOf(x.Args[1])] = true
						option = option || !v && within(map[string]bool{c.elementOf(x.Args[1]): true}, []string{"path uri", "uri path"})
					}
				}
				if v {
					continue
				}
				for i := range t.Args {
					if x := t.Args[1-i]; t.Args[i].IsNil() && isDgo(x, "Get") {
						if s, ok := stripTyped(x.Args[1]).StrConst(); ok {
							param := stripTyped(x.Args[0]).Op == "param"
							if param && within(map[string]bool{s: true}, locs) {
								count["location"]++
							}
							if param && within(map[string]bool{s: true}, functionKeys) {
								count["function"]++
							}
							if !param && within(map[string]bool{s: true}, reserved) {
								option = true
							}
						}
					}
				}
			}
			switch p.Exit {
			case "panic":
				if count["location"] > 1 {
					c.Count("second locations that are rejected", 1)
				}
				if count["function"] > 1 {
					c.Count("second functions that are rejected", 1)
				}
				if option {
					c.Count("reserved options that are rejected", 1)
				}
			case "return":
				if count["location"] > 1 {
					bad("locations", "accepts an entry with locations of several kinds")
				}
				if count["function"] > 1 {
					bad("functions", "accepts an entry with several functions")
				}
				byName := named["path"] && named["uri"] || named["path uri"] || named["uri path"]
				if option || let && !byName {
					bad("options", "accepts options that are reserved")
				}
			}
			// one that is read in a loop
			for i, ev := range p.Events {
				if ev.Kind != "store" || fields[FieldOf(ev.Addr)] == "" || p.Exit == "panic" {
					continue
				}
				if ev.Val.Op == "append1" || ev.Val.Op == "append" {
					continue
				}
				loop := false
				for t, v := range p.FactsBefore(i) {
					if t.Op != "eq" || v {
						continue
					}
					for j := range t.Args {
						if x := t.Args[1-j]; t.Args[j].IsNil() && isDgo(x, "Get") {
							if l := strings.Fields(c.elementOf(x.Args[1])); len(l) > 1 {
								in := map[string]bool{}
								for _, s := range l {
									in[s] = true
								}
								loop = loop || within(in, map[string][]string{"Function": functionKeys, "Locations": locs}[fields[FieldOf(ev.Addr)]])
							}
						}
					}
				}
				if !loop {
					continue
				}
				free := false
				for t, v := range p.FactsBefore(i) {
					if t.Op == "eq" && v {
						for j := range t.Args {
							x := t.Args[1-j]
							if t.Args[j].IsNil() && x.Any(func(y *Term) bool {
								return y.Op == "faddr" && FieldOf(y) == FieldOf(ev.Addr) || y.Op == "loopcell" || y.Op == "loopvar"
							}) {
								free = true
							}
						}
					}
				}
				what := map[string]string{"Function": "functions", "Locations": "locations"}[fields[FieldOf(ev.Addr)]]
				if free {
					c.Count("second "+what+" that are rejected", 1)
				} else {
					bad(what, "accepts an entry with several "+what)
				}
			}
			c.namesUnique(f, p, bad)
		}
	}
}

// elementOf gives the text of a constant key, or all texts of the list that it is an element of
func (c *Ctx) elementOf(t *Term) string {
	t = stripTyped(t)
	for t != nil && t.Op == "call" && len(t.Args) == 1 && strings.HasSuffix(t.CallName(), "vf.String") {
		t = stripTyped(t.Args[0])
	}
	if t == nil {
		return ""
	}
	if s, ok := t.StrConst(); ok {
		return s
	}
	if t.Op == "init" && t.Args[0].Op == "iaddr" {
		if ss, ok := c.globalStrings(t.Args[0].Args[0]); ok {
			return strings.Join(ss, " ")
		}
	}
	return ""
}

// namesUnique checks that each element of a hierarchy has another name
func (c *Ctx) namesUnique(f *ssa.Function, p *Path, bad func(string, string)) {
	if p.Exit == "panic" {
		return
	}
	arr := false
	for _, q := range f.Params {
		arr = arr || isNamed(q.Type(), dgoPkg, "Array")
	}
	var used []*Term // the maps
	for i, ev := range p.Events {
		if !arr || ev.Kind != "call" || ev.Fn == nil || !c.makesEntries(ev.Fn) || ev.Fn.Pkg != f.Pkg || !takesData(ev.Fn) {
			continue
		}
		// the name of the entry
		var elem *Term
		for _, a := range ev.Args {
			if x := stripTyped(a); x.Op == "cbarg" || isDgo(x, "Get") {
				elem = x
			}
		}
		if elem == nil {
			continue
		}
		nameless := false
		for t, v := range p.FactsBefore(i) {
			if t.Op == "eq" && v && (t.Args[0].IsNil() || t.Args[1].IsNil()) {
				for _, x := range t.Args {
					if isDgo(x, "Get") && stripTyped(x.Args[0]) == elem {
						s, ok := stripTyped(x.Args[1]).StrConst()
						nameless = nameless || ok && s == "name"
					}
				}
			}
		}
		if nameless {
			continue // not valid
		}
		isName := func(x *Term) bool {
			for x != nil && (x.Op == "conv" || x.Op == "typed" || x.Op == "call" && len(x.Args) == 1 && (strings.HasSuffix(x.CallName(), ".String") || strings.HasSuffix(x.CallName(), ".GoString"))) {
				x = x.Args[0]
			}
			if !isDgo(x, "Get") || stripTyped(x.Args[0]) != elem {
				return false
			}
			s, ok := stripTyped(x.Args[1]).StrConst()
			return ok && s == "name"
		}
		var m, key *Term
		valued := false
		for t, v := range p.FactsBefore(i) {
			if (t.Op == "mapget" || t.Op == "mapok") && !v && isName(t.Args[1]) {
				m, key, valued = t.Args[0], t.Args[1], t.Op == "mapget"
			}
			if isDgo(t, "ContainsKey") && !v && isName(t.Args[1]) {
				m, key = t.Args[0], t.Args[1]
			}
		}
		if m == nil && len(used) == 0 {
			// the first one cannot be in it
			for _, e := range p.Events {
				if e.Kind == "mapupdate" && isName(e.Args[0]) {
					m = e.Addr
				}
			}
		}
		added := false
		for _, e := range p.Events {
			if e.Kind == "mapupdate" && m != nil && e.Addr == m && isName(e.Args[0]) && (key == nil || key == e.Args[0]) {
				b, isC := e.Args[1].BoolConst()
				added = added || !valued || isC && b
			}
			if e.Kind == "call" && m != nil && isDgo(e.Res, "Put") && e.Recv == m && isName(e.Args[0]) && (key == nil || key == e.Args[0]) {
				added = true
			}
		}
		if m == nil || !added {
			bad("names", "accepts several entries with the same name")
			continue
		}
		used = append(used, m)
		if used[0] != m {
			bad("names", "accepts several entries with the same name")
		}
		c.Count("entries with a unique name", 1)
	}
}

// returnsLocations is true for a function that does nothing but make a list of locations
func returnsLocations(g *ssa.Function) bool {
	r := g.Signature.Results()
	if g.Signature.Recv() != nil || r.Len() != 1 {
		return false
	}
	sl, ok := r.At(0).Type().Underlying().(*types.Slice)
	n := namedOf(slElem(sl, ok))
	return n != nil && n.Obj().Name() == "Location"
}

func slElem(sl *types.Slice, ok bool) types.Type {
	if !ok {
		return types.Typ[types.Invalid]
	}
	return sl.Elem()
}
