package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C17", Technique: "provenance of what is exchanged with a plugin, over all paths (path-sensitive dataflow on SSA), with the constants of the plugin SDK",
		Explain: "The environment of a plugin process holds the cookie of the SDK, the transport and the socket directory asked for. Its description is used only if the version is that of the SDK, and address, network and functions are those that it names. Each function is offered under its own name and calls that function of that plugin, by its kind, with the key and the options of the context; the answer is the parsed body, nothing for not found, and an error for every other status. Connections are made to the plugin's own network and address and aren't kept.",
		Check:   checkProtocol})
}

const httpGet = "(net/http.Client).Get"

// textParts divides a text into constants and other terms
func textParts(t *Term) []*Term {
	t = stripTyped(t)
	switch {
	case t.Op == "concat":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, textParts(a)...)
		}
		return r
	case t.Op == "call" && t.CallName() == "fmt.Sprintf" && len(t.Args) > 0:
		f, ok := t.Args[0].StrConst()
		as := t.Args[1:]
		if len(as) == 1 && as[0].Op == "slicelit" {
			as = as[0].Args
		}
		if !ok {
			return []*Term{t}
		}
		var r []*Term
		lit := ""
		flush := func() {
			if lit != "" {
				r = append(r, litText(lit))
				lit = ""
			}
		}
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				lit += f[i : i+1]
				continue
			}
			i++
			if i == len(f) || !strings.ContainsRune("svd%", rune(f[i])) {
				return []*Term{t}
			}
			if f[i] == '%' {
				lit += "%"
				continue
			}
			if len(as) == 0 {
				return []*Term{t}
			}
			flush()
			r = append(r, textParts(as[0])...)
			as = as[1:]
		}
		flush()
		return r
	}
	return []*Term{t}
}

// template joins the constants of a text. The other parts are returned in order, and shown as {}
func template(t *Term) (string, []*Term) {
	s := ""
	var ts []*Term
	for _, p := range textParts(t) {
		if x, ok := p.StrConst(); ok {
			s += x
		} else {
			s += "{}"
			ts = append(ts, p)
		}
	}
	return s, ts
}

// mentions tests if a function or one that it calls in its package has the constant as an operand
func (c *Ctx) mentions(f *ssa.Function, s string, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s {
					return true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && pkgOf(g) == pkgOf(f) && c.mentions(g, s, seen) {
					return true
				}
			}
		}
	}
	return false
}

// innermost returns the functions that satisfy the predicate and don't call one that does
func (c *Ctx) innermost(fs []*ssa.Function, is func(*ssa.Function) bool) (r []*ssa.Function) {
	set := map[*ssa.Function]bool{}
	for _, f := range fs {
		set[f] = is(f)
	}
	for _, f := range fs {
		if !set[f] {
			continue
		}
		inner := false
		for _, ci := range calls(f) {
			if g := ci.Common().StaticCallee(); g != nil && g != f && set[g] {
				inner = true
			}
		}
		if !inner {
			r = append(r, f)
		}
	}
	return
}

// sdkInt returns an integer constant of the SDK
func (c *Ctx) sdkInt(name string) (int64, bool) {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == sdkPkg {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return constant.Int64Val(k.Val())
			}
		}
	}
	c.Anchor("constant " + name + " of the SDK")
	return 0, false
}

// contentAt returns what a variable holds when the event with the given index happens
func contentAt(p *Path, i int, a *Term) *Term {
	for ; i >= 0; i-- {
		if ev := p.Events[i]; ev.Kind == "store" && ev.Addr == a {
			return stripTyped(ev.Val)
		}
	}
	return stripTyped(content(p, a))
}

type pluginFields struct{ addr, network, functions *types.Var }

func checkProtocol(c *Ctx) {
	// the package that starts plugins
	var pkg *types.Package
	for _, f := range c.P.Funcs {
		if callsAny(f, cmdStart, "os.StartProcess") {
			pkg = pkgOf(f)
		}
	}
	if pkg == nil {
		c.Anchor("a function that starts a process")
		return
	}
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if pkgOf(f) == pkg && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	inPkg := func(g *ssa.Function) bool { return pkgOf(g) == pkg }
	c.pluginEnv(fs, inPkg)
	pf := c.metaData(fs, inPkg)
	if pf == nil {
		return
	}
	kinds := c.pluginCalls(fs, inPkg, pf)
	c.Min("functions that call a plugin", 3)
	c.functionTable(fs, inPkg, pf, kinds)
	c.transports(fs, inPkg, pf)
}

// pluginEnv checks the environment of the process
func (c *Ctx) pluginEnv(fs []*ssa.Function, inline func(*ssa.Function) bool) {
	cookie, ok := c.sdkInt("MagicCookie")
	if !ok {
		return
	}
	setsEnv := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isNamedPtr(fa.X.Type(), "os/exec", "Cmd") && structOf(fa.X.Type().Underlying().(*types.Pointer).Elem()).Field(fa.Field).Name() == "Env" {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		if !setsEnv(f) {
			continue
		}
		f = c.userOf(f)
		if seen[f] {
			continue
		}
		seen[f] = true
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool {
			return inline(g) && g.Signature.Recv() == nil && !callsAny(g, cmdStart)
		}, NoHavoc: func(*Event) bool { return true }}) {
			if p.Exit == "cut" {
				continue
			}
			var env *Term
			for _, ev := range p.Events {
				if ev.Kind == "store" && ev.Addr.Op == "faddr" {
					if v := FieldOf(ev.Addr); v != nil && v.Name() == "Env" && v.Pkg() != nil && v.Pkg().Path() == "os/exec" {
						env = ev.Val
					}
				}
			}
			if env == nil {
				continue
			}
			bad := func(rule, format string, args ...interface{}) {
				c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
			}
			c.Count("environments of a plugin", 1)
			facts := p.FactsBefore(len(p.Events))
			var elems []*Term
			t := stripTyped(env)
			for t.Op == "append1" || t.Op == "append" {
				es := t.Args[1:]
				if len(es) == 1 && es[0].Op == "slicelit" {
					es = es[0].Args
				}
				elems = append(append([]*Term{}, es...), elems...)
				t = stripTyped(t.Args[0])
			}
			if t.Op == "slicelit" {
				elems = append(append([]*Term{}, t.Args...), elems...)
			} else if !(t.Op == "call" && t.CallName() == "os.Environ") {
				bad("environ", "%s starts a plugin with the environment %v", t)
				continue
			}
			if t.Op == "slicelit" {
				bad("environ", "%s starts a plugin without the environment of this process")
			}
			got := map[string]*Term{}
			for _, e := range elems {
				ps := textParts(e)
				if len(ps) == 0 {
					continue
				}
				h, ok := ps[0].StrConst()
				i := strings.IndexByte(h, '=')
				if !ok || i < 0 {
					continue
				}
				switch {
				case len(ps) == 1:
					got[h[:i]] = c.E.T.cval(constant.MakeString(h[i+1:]), types.Typ[types.String])
				case len(ps) == 2 && i == len(h)-1:
					got[h[:i]] = ps[1]
				default:
					got[h[:i]] = e
				}
			}
			opt := func(t *Term, name string) bool {
				t = argText(t)
				if t.Op == "call" && len(t.Args) == 1 && (strings.HasSuffix(t.CallName(), ").GoString") || strings.HasSuffix(t.CallName(), ").String")) {
					t = stripTyped(t.Args[0])
				}
				if t.Op != "call" || !strings.HasSuffix(t.CallName(), ").Get") || len(t.Args) != 2 {
					return false
				}
				s, ok := argText(t.Args[1]).StrConst()
				return ok && s == name
			}
			// is there such an option, and what text may it be
			hasOpt := func(name string) int {
				for t, v := range facts {
					if t.Op == "isa" && t.Aux == dgoPkg+".String" && opt(t.Args[0], name) {
						if v {
							return 1
						}
						return -1
					}
				}
				return 0
			}
			if v := got["HIERA_MAGIC_COOKIE"]; v == nil {
				bad("cookie", "%s doesn't pass the cookie")
			} else {
				ok := false
				if v.Op == "call" && (v.CallName() == "strconv.Itoa" || v.CallName() == "strconv.FormatInt") {
					k, is := v.Args[0].IntConst()
					ok = is && k == cookie
				} else if s, is := v.StrConst(); is {
					ok = s == decimal(cookie)
				} else if k, is := v.IntConst(); is {
					ok = k == cookie
				}
				if !ok {
					bad("cookie", "%s passes %v for the cookie", v)
				}
			}
			if v := got["HIERA_PLUGIN_SOCKET_DIR"]; v == nil {
				bad("socket-dir", "%s doesn't pass the directory of sockets")
			} else {
				switch hasOpt("unixSocketDir") {
				case 1:
					if !opt(v, "unixSocketDir") {
						bad("socket-dir", "%s passes %v for the directory of sockets although there is an option for it", v)
					}
				case -1:
					v := stripTyped(v)
					if !(v.Op == "call" && v.CallName() == "os.TempDir") {
						empty := false
						for t, b := range facts {
							if t.Op == "eq" && b {
								for i := range t.Args {
									empty = empty || t.Args[i].Op == "call" && t.Args[i].CallName() == "os.TempDir" && constEmpty(t.Args[1-i])
								}
							}
						}
						if !empty {
							bad("socket-dir", "%s passes %v for the directory of sockets", v)
						}
					}
				default:
					bad("socket-dir", "%s doesn't look for an option with the directory of sockets")
				}
			}
			if v := got["HIERA_PLUGIN_TRANSPORT"]; v == nil {
				bad("transport", "%s doesn't pass the transport")
			} else {
				may := c.possible(facts, []string{"unix", "tcp"}, func(t *Term) bool { return opt(t, "pluginTransport") })
				_, isConst := v.StrConst()
				isDefault := isConst || v.Op == "call" && !opt(v, "pluginTransport")
				switch hasOpt("pluginTransport") {
				case 1:
					valid := !may["*"]
					s, is := v.StrConst()
					switch {
					case valid && !opt(v, "pluginTransport") && !(is && len(may) == 1 && may[s]):
						bad("transport", "%s passes %v for the transport although there is a valid option for it", v)
					case !valid && opt(v, "pluginTransport"):
						bad("transport", "%s passes on a transport that may be unknown")
					case !valid && (may["unix"] || may["tcp"]):
						bad("transport", "%s doesn't recognize all transports")
					}
				case -1:
					if !isDefault {
						bad("transport", "%s passes %v for the transport", v)
					}
				default:
					bad("transport", "%s doesn't look for an option with the transport")
				}
			}
		}
	}
	c.Min("environments of a plugin", 4)
}

func decimal(k int64) string { return constant.MakeInt64(k).ExactString() }

// metaData checks the use of the description that a plugin gives of itself
func (c *Ctx) metaData(fs []*ssa.Function, inline func(*ssa.Function) bool) *pluginFields {
	proto, ok := c.sdkInt("ProtoVersion")
	if !ok {
		return nil
	}
	keys := []string{"version", "address", "network", "functions"}
	readers := c.innermost(fs, func(f *ssa.Function) bool {
		for _, k := range keys {
			if !c.mentions(f, k, map[*ssa.Function]bool{}) {
				return false
			}
		}
		return true
	})
	pf := &pluginFields{}
	used := 0
	for _, f := range readers {
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(*Event) bool { return true }}) {
			if p.Exit == "cut" {
				continue
			}
			facts := p.FactsBefore(len(p.Events))
			bad := func(rule, format string, args ...interface{}) {
				c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
			}
			entry := func(t *Term, key string) bool {
				t = stripTyped(t)
				if t.Op != "mapget" {
					return false
				}
				s, ok := t.Args[1].StrConst()
				return ok && s == key
			}
			isType := func(key, typ string) int {
				for t, v := range facts {
					if t.Op == "isa" && entry(t.Args[0], key) {
						if t.Aux != typ {
							continue
						}
						if v {
							return 1
						}
						return -1
					}
				}
				return 0
			}
			version := 0
			for t, v := range facts {
				if t.Op == "eq" {
					for i := range t.Args {
						if k, isK := t.Args[1-i].IntConst(); entry(t.Args[i], "version") && isK && k == proto {
							version = -1
							if v {
								version = 1
							}
						}
					}
				}
			}
			if isType("version", "float64") != 1 {
				if isType("version", "float64") == -1 {
					version = -1
				} else {
					version = 0
				}
			}
			if p.Exit == "panic" {
				if version == 1 && isType("address", "string") != -1 && isType("functions", "map[string]interface{}") != -1 {
					bad("rejected", "%s rejects a plugin with a valid description")
				}
				c.Count("rejected descriptions", 1)
				continue
			}
			fin := map[*types.Var]*Term{}
			for _, ev := range p.Events {
				if ev.Kind == "store" && ev.Addr.Op == "faddr" {
					if v := FieldOf(ev.Addr); v != nil {
						fin[v] = stripTyped(ev.Val)
					}
				}
			}
			find := func(key string) *types.Var {
				for v, t := range fin {
					if entry(t, key) {
						return v
					}
				}
				return nil
			}
			if version == 0 && len(fin) == 0 {
				continue
			}
			c.Count("accepted descriptions", 1)
			if version != 1 {
				bad("version", "%s accepts a plugin without knowing that its version is %d", proto)
			}
			set := func(field **types.Var, key, typ string) {
				v := find(key)
				if v == nil {
					bad("field", "%s doesn't keep the %s of a plugin", key)
					return
				}
				if *field != nil && *field != v {
					bad("field", "%s keeps the %s of a plugin in different places", key)
				}
				*field = v
				if isType(key, typ) != 1 {
					bad("type", "%s accepts a plugin without knowing that its %s is valid", key)
				}
			}
			set(&pf.addr, "address", "string")
			set(&pf.functions, "functions", "map[string]interface{}")
			switch isType("network", "string") {
			case 1:
				set(&pf.network, "network", "string")
				used++
			case -1:
				tcp := false
				for v, t := range fin {
					if s, ok := t.StrConst(); ok && s == "tcp" && (pf.network == nil || pf.network == v) {
						tcp = true
					}
				}
				if !tcp {
					bad("network", "%s doesn't assume tcp when a plugin tells no network")
				}
			default:
				bad("network", "%s doesn't use the network that a plugin tells")
			}
		}
	}
	c.Min("accepted descriptions", 2)
	c.Min("rejected descriptions", 3)
	if pf.addr == nil || pf.network == nil || pf.functions == nil {
		if used > 0 {
			c.Anchor("fields for the address, network and functions of a plugin")
		}
		return nil
	}
	return pf
}

// pluginFn describes a function that calls a plugin
type pluginFn struct {
	shape string
	name  int // index of the free variable with the name
	kind  int // index of the free variable with the kind, or -1
}

// pluginCalls checks the functions that call a plugin
func (c *Ctx) pluginCalls(fs []*ssa.Function, inline func(*ssa.Function) bool, pf *pluginFields) map[*ssa.Function]*pluginFn {
	r := map[*ssa.Function]*pluginFn{}
	freeIx := func(f *ssa.Function, t *Term) int {
		t = stripTyped(t)
		if t.Op == "init" {
			t = t.Args[0]
		}
		for i, v := range f.FreeVars {
			if t.Op == "free" && t.Val == ssa.Value(v) {
				return i
			}
		}
		return -1
	}
	for _, f := range fs {
		ps := f.Signature.Params()
		if f.Parent() == nil || len(f.FreeVars) == 0 || ps.Len() == 0 || ps.Len() > 2 || !isNamed(ps.At(0).Type(), sdkPkg, "ProviderContext") {
			continue
		}
		shape := "data_hash"
		if ps.Len() == 2 {
			shape = "lookup_key"
			if isNamed(ps.At(1).Type(), dgoPkg, "Array") {
				shape = "data_dig"
			}
		}
		n := c.N(f)
		pc := c.paramTermOf(f, 0)
		var key *Term
		if ps.Len() == 2 {
			key = c.paramTermOf(f, 1)
		}
		fn := &pluginFn{shape: shape, name: -1, kind: -1}
		kinds := map[string]int{}
		for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(ev *Event) bool { return true }}) {
			if p.Exit == "cut" {
				continue
			}
			bad := func(rule, format string, args ...interface{}) {
				c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
			}
			facts := p.FactsBefore(len(p.Events))
			var params, query *Term
			for _, ev := range p.Events {
				if ev.Kind == "call" && (ev.Name == "(net/url.Values).Add" || ev.Name == "(net/url.Values).Set") {
					params = ev.Recv
				}
				if ev.Kind == "store" && ev.Addr.Op == "faddr" && FieldOf(ev.Addr) != nil && FieldOf(ev.Addr).Name() == "RawQuery" {
					query = stripTyped(ev.Val)
				}
			}
			if params != nil {
				// there are parameters
				no := false
				for t, v := range facts {
					isLen := func(x *Term) bool { return x.Op == "len" && x.Args[0] == params }
					no = no || t.Op == "lt" && !v && isZeroInt(t.Args[0]) && isLen(t.Args[1])
					no = no || t.Op == "eq" && v && (isLen(t.Args[0]) && isZeroInt(t.Args[1]) || isLen(t.Args[1]) && isZeroInt(t.Args[0]))
				}
				if no {
					continue
				}
			}
			var get *Event
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Name == httpGet {
					if get != nil {
						bad("twice", "%s calls the plugin more than once")
					}
					get = ev
				}
			}
			if get == nil {
				if p.Exit == "return" {
					bad("no-call", "%s returns without calling the plugin")
				}
				continue
			}
			c.Count("outcomes of a call", 1)
			// where to
			u := stripTyped(get.Args[0])
			if u.Op == "call" && u.CallName() == "(net/url.URL).String" {
				u = stripTyped(u.Args[0])
				if src := ext0(u); src != nil && src.CallName() == "net/url.Parse" {
					u = src.Args[0]
				}
			}
			tmpl, ts := template(u)
			nKind, kind := -1, shape
			okURL := false
			isField := func(t *Term, fv *types.Var) bool {
				t = stripTyped(t)
				return t.Op == "init" && FieldOf(t.Args[0]) == fv
			}
			host := func(t *Term) bool { return isField(t, pf.addr) || isField(t, pf.network) }
			rest := tmpl
			if strings.HasPrefix(rest, "http://{}/") && len(ts) > 0 && host(ts[0]) {
				rest, ts = rest[len("http://{}/"):], ts[1:]
				okURL = true
			} else if strings.HasPrefix(rest, "http://") {
				if i := strings.IndexByte(rest[7:], '/'); i > 0 && !strings.Contains(rest[7:7+i], "{}") {
					rest = rest[7+i+1:]
					okURL = true
				}
			}
			if okURL {
				switch {
				case rest == kind+"/{}" && len(ts) == 1:
				case rest == "{}/{}" && len(ts) == 2 && freeIx(f, ts[0]) >= 0:
					nKind = freeIx(f, ts[0])
					ts = ts[1:]
				default:
					okURL = false
				}
			}
			if okURL && freeIx(f, unescaped(ts[0])) < 0 {
				okURL = false
			}
			if !okURL {
				bad("url", "%s calls the plugin by %s", tmpl)
				continue
			}
			fn.name, fn.kind = freeIx(f, unescaped(ts[0])), nKind
			// with what
			added := map[string][]*Term{}
			for _, ev := range p.Events {
				if ev.Kind == "call" && (ev.Name == "(net/url.Values).Add" || ev.Name == "(net/url.Values).Set") && ev.Recv == params {
					k, _ := ev.Args[0].StrConst()
					added[k] = append(added[k], ev.Args[1])
				}
				if ev.Kind == "mapupdate" && params != nil && ev.Recv == params {
					bad("parameters", "%s changes the parameters in an unknown way")
				}
			}
			if params != nil && !(query != nil && query.Op == "call" && query.CallName() == "(net/url.Values).Encode" && query.Args[0] == params) {
				bad("query", "%s doesn't pass the parameters in the query")
			}
			isOpts := func(t *Term) bool {
				t = stripTyped(t)
				return t.Op == "call" && t.CallName() == "("+sdkPkg+".ProviderContext).OptionsMap" && t.Args[0] == pc
			}
			lo, hi := intBounds(facts, func(t *Term) bool { return isDgo(t, "Len") && isOpts(t.Args[0]) }, 0, 1<<40)
			switch o := added["options"]; {
			case lo > 0 && len(o) == 0:
				bad("options", "%s doesn't pass the options")
			case len(o) > 1:
				bad("options", "%s passes options more than once")
			case len(o) == 1 && !c.jsonOf(p, o[0], isOpts):
				bad("options", "%s passes %v for the options", o[0])
			case len(o) == 0 && hi > 0:
				bad("options", "%s doesn't pass the options although there may be some")
			}
			switch k := added["key"]; {
			case key == nil && len(k) > 0:
				bad("key", "%s passes a key to a data_hash function")
			case key == nil:
			case len(k) != 1:
				bad("key", "%s passes %d keys", len(k))
			case shape == "lookup_key" && stripTyped(k[0]) != key:
				bad("key", "%s passes %v for the key", k[0])
			case shape == "data_dig" && !c.jsonOf(p, k[0], func(t *Term) bool { return stripTyped(t) == key }):
				bad("key", "%s passes %v for the key", k[0])
			}
			for k := range added {
				if k != "key" && k != "options" {
					bad("parameters", "%s passes an unknown parameter %q", k)
				}
			}
			// the answer
			resp := c.extOf(p, get.Res, 0)
			status := func(t *Term) bool {
				t = stripTyped(t)
				return t.Op == "init" && FieldOf(t.Args[0]) != nil && FieldOf(t.Args[0]).Name() == "StatusCode" && t.Args[0].Args[0] == resp
			}
			lo, hi = intBounds(facts, status, 100, 999)
			if _, failed, known := c.errorOf(p, facts, get.Res); !known || failed {
				if p.Exit == "return" {
					bad("failed", "%s returns without knowing that the call succeeded")
				}
				kinds["failed"]++
				continue
			}
			if p.Exit == "panic" {
				if lo == hi && lo == 404 {
					bad("status", "%s fails when the plugin finds nothing")
				}
				if lo == hi && lo == 200 {
					read := false
					for _, ev := range p.Events {
						if ev.Kind == "call" && (ev.Name == "io/ioutil.ReadAll" || ev.Name == "io.ReadAll") {
							_, failed, known := c.errorOf(p, facts, ev.Res)
							read = known && failed
						}
					}
					if !read {
						bad("status", "%s fails when the plugin succeeds")
					}
				}
				kinds["error"]++
				continue
			}
			v := stripTyped(p.Res)
			switch {
			case lo != hi || lo != 200 && lo != 404:
				bad("status", "%s returns for other statuses than 200 and 404")
			case lo == 404:
				kinds["nothing"]++
				if !v.IsNil() {
					bad("status", "%s returns %v when the plugin finds nothing", v)
				}
			default:
				kinds["value"]++
				ok := v.Op == "call" && strings.HasSuffix(v.CallName(), "dgo/streamer.UnmarshalJSON")
				if ok {
					b := ext0(stripTyped(v.Args[0]))
					ok = b != nil && b.Op == "call" && strings.HasSuffix(b.CallName(), ".ReadAll") && b.Args[0].Op == "init" && FieldOf(b.Args[0].Args[0]) != nil &&
						FieldOf(b.Args[0].Args[0]).Name() == "Body" && b.Args[0].Args[0].Args[0] == resp
				}
				if !ok {
					bad("value", "%s returns %v instead of what the plugin answers", v)
				}
			}
		}
		if len(kinds) == 0 {
			continue // doesn't call a plugin
		}
		r[f] = fn
		c.Count("functions that call a plugin", 1)
		for _, k := range []string{"failed", "error", "nothing", "value"} {
			c.Must(kinds[k] > 0, "outcome", n+": "+k, f.Pos(), nil, "%s has no path for: %s", n, k)
		}
	}
	return r
}

// unescaped returns the text that is escaped for use in a URL
func unescaped(t *Term) *Term {
	t = stripTyped(t)
	if t.Op == "call" && t.CallName() == "net/url.PathEscape" {
		return t.Args[0]
	}
	return t
}

// jsonOf tests if a text is the JSON of a value
func (c *Ctx) jsonOf(p *Path, t *Term, is func(*Term) bool) bool {
	t = stripTyped(t)
	for t.Op == "call" && len(t.Args) > 0 && (t.CallName() == "strings.TrimSpace" || t.CallName() == "bytes.TrimSpace") {
		t = stripTyped(t.Args[0])
	}
	if t.Op != "call" {
		return false
	}
	if strings.HasSuffix(t.CallName(), "dgo/streamer.MarshalJSON") {
		return is(t.Args[0])
	}
	if t.CallName() != "(bytes.Buffer).String" && t.CallName() != "(bytes.Buffer).Bytes" && t.CallName() != "(strings.Builder).String" {
		return false
	}
	n := 0
	ok := false
	for _, ev := range p.Events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "/dgo/streamer.Streamer).Stream") && len(ev.Args) == 2 {
			w := stripTyped(ev.Args[1])
			if w.Op == "call" && strings.HasSuffix(w.CallName(), "dgo/streamer.JSON") && stripTyped(w.Args[0]) == t.Args[0] {
				n++
				ok = is(ev.Args[0])
			}
		}
	}
	return ok && n == 1
}

// functionTable checks that each function is offered under its own name, by its kind
func (c *Ctx) functionTable(fs []*ssa.Function, inline func(*ssa.Function) bool, pf *pluginFields, kinds map[*ssa.Function]*pluginFn) {
	reads := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && structOf(fa.X.Type().Underlying().(*types.Pointer).Elem()).Field(fa.Field) == pf.functions {
						return true
					}
				}
			}
		}
		return false
	}
	offered := map[string]int{}
	for _, f := range fs {
		if f.Parent() != nil || !reads(f) {
			continue
		}
		n := c.N(f)
		isMap := func(t *Term) bool {
			t = stripTyped(t)
			return t.Op == "init" && FieldOf(t.Args[0]) == pf.functions
		}
		for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(ev *Event) bool { return true }}) {
			bad := func(rule, format string, args ...interface{}) {
				c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
			}
			puts := 0
			for i, ev := range p.Events {
				if ev.Kind != "call" || !isDgoEv(ev, "Put") || len(ev.Args) != 2 {
					continue
				}
				cl := wrappedClosure(ev.Args[1])
				if cl == nil || cl.Fn == nil {
					continue
				}
				fn := kinds[cl.Fn]
				if fn == nil {
					bad("function", "%s offers %v", cl)
					continue
				}
				puts++
				c.Count("functions offered", 1)
				facts := p.FactsBefore(i)
				name := argText(ev.Args[0])
				if got := contentAt(p, i, cl.Args[fn.name]); got != name {
					bad("name", "%s offers the function %v under the name %v", got, name)
				}
				// name is an element of the functions of a kind
				var kind *Term
				if name.Op == "init" && name.Args[0].Op == "iaddr" {
					if l := stripTyped(name.Args[0].Args[0]); l.Op == "mapget" && isMap(l.Args[0]) {
						kind = l.Args[1]
					} else if l.Op == "nextval" && l.Args[0].Any(isMap) {
						for t := range facts {
							t.Any(func(x *Term) bool {
								if x.Op == "nextkey" && x.Args[0] == l.Args[0] && x.Aux == l.Aux {
									kind = x
								}
								return false
							})
						}
					}
				}
				if kind == nil {
					bad("name", "%s offers a function under the name %v, which isn't one of the plugin's functions", name)
					continue
				}
				may := c.possible(facts, []string{"data_dig", "data_hash", "lookup_key"}, func(t *Term) bool { return t == kind })
				delete(may, "*")
				var ks []string
				for k := range may {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				if len(ks) != 1 || ks[0] != fn.shape {
					bad("kind", "%s offers a function of the kind %s as a %s function", strings.Join(ks, " or "), fn.shape)
				}
				if fn.kind >= 0 {
					if s, ok := contentAt(p, i, cl.Args[fn.kind]).StrConst(); !ok || s != fn.shape {
						if contentAt(p, i, cl.Args[fn.kind]) != kind || len(ks) != 1 {
							bad("kind", "%s calls a %s function by another kind", fn.shape)
						}
					}
				}
				offered[fn.shape]++
			}
			if p.Exit == "return" && f.Signature.Results().Len() > 0 {
				c.Count("tables of functions", 1)
				m := false
				for _, ev := range p.Events {
					if ev.Kind == "call" && isDgoEv(ev, "Put") && ev.Recv != nil && !p.Res.Contains(ev.Recv) {
						m = true
					}
				}
				if m {
					bad("table", "%s returns %v, which isn't made of the functions of the plugin", p.Res)
				}
			}
		}
	}
	for _, k := range []string{"data_dig", "data_hash", "lookup_key"} {
		c.Must(offered[k] > 0, "offers", k, 0, nil, "no %s function of a plugin is offered", k)
	}
}

// transports checks the connections to plugins
func (c *Ctx) transports(fs []*ssa.Function, inline func(*ssa.Function) bool, pf *pluginFields) {
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !isNamedPtr(al.Type(), "net/http", "Transport") {
					continue
				}
				n := c.N(f)
				closes := callsAny(f, "(net/http.Transport).CloseIdleConnections", "(net/http.Client).CloseIdleConnections")
				var dials []*ssa.Function
				for _, ref := range *al.Referrers() {
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					name := structOf(al.Type().Underlying().(*types.Pointer).Elem()).Field(fa.Field).Name()
					for _, r2 := range *fa.Referrers() {
						st, ok := r2.(*ssa.Store)
						if !ok {
							continue
						}
						switch name {
						case "DisableKeepAlives":
							if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) {
								closes = true
							}
						case "Dial", "DialContext":
							switch x := stripConv(st.Val).(type) {
							case *ssa.MakeClosure:
								dials = append(dials, x.Fn.(*ssa.Function))
							case *ssa.Function:
								dials = append(dials, x)
							default:
								c.Bad("dial", n, st.Pos(), nil, "%s connects to a plugin in an unknown way", n)
							}
						}
					}
				}
				c.Must(closes, "kept", n, al.Pos(), nil, "%s leaves connections open with a transport that isn't used again", n)
				c.Must(len(dials) > 0, "dial", n, al.Pos(), nil, "%s doesn't connect to the address of the plugin", n)
				for _, d := range dials {
					for _, p := range c.Run(d, &Policy{Inline: inline, NoHavoc: func(ev *Event) bool { return true }}) {
						if p.Exit != "return" {
							continue
						}
						var dial *Event
						for _, ev := range p.Events {
							if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "net.Dial") || strings.HasPrefix(ev.Name, "(net.Dialer).Dial")) {
								dial = ev
							}
						}
						ok := false
						if dial != nil {
							as := dial.Args
							if strings.HasSuffix(dial.Name, "Context") && len(as) == 3 {
								as = as[1:]
							}
							is := func(t *Term, v *types.Var) bool { return t.Op == "init" && FieldOf(t.Args[0]) == v }
							ok = len(as) >= 2 && is(stripTyped(as[0]), pf.network) && is(stripTyped(as[1]), pf.addr) && as[0].Args[0].Args[0] == as[1].Args[0].Args[0]
						}
						c.Count("connections", 1)
						c.Must(ok, "dial", c.N(d), d.Pos(), p, "%s doesn't connect to the network and address of the plugin", c.N(d))
					}
				}
			}
		}
	}
	c.Min("connections", 1)
}

func litText(s string) *Term {
	v := constant.MakeString(s)
	return &Term{Op: "const", Aux: v.ExactString(), Type: types.Typ[types.String], Cst: v}
}
