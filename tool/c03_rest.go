package main

import (
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C03", Technique: "ownership of everything a request handler modifies (interprocedural origin analysis on SSA)",
		Explain: "Every function that a HTTP request handler reaches in the packages of the server and of the rendering lookup is searched for stores, map updates, appends, channel sends, and calls that get a pointer to something. What is modified must have been created while the request was handled: never a package variable, a variable captured from the enclosing function, or the backing array of a shared slice. Lookups use an invocation that was created for the request.",
		Check:   checkRequestIsolation})
	register(&Rule{ID: "C25", Technique: "response typestate over all paths of the request handler including panics (path-sensitive dataflow on SSA)",
		Explain: "Each path of a request handler, with every call able to panic, responds exactly once: a found value with the rendered bytes and the JSON content type, a value that is not found with 404, a failure (panic with an error or a string) with 500 and its message, no lookup with a 4xx status. Nothing is written before the lookup has ended.",
		Check:   checkResponses})
	register(&Rule{ID: "C34", Technique: "provenance of lookup arguments from request parts (path-sensitive dataflow on SSA)",
		Explain: "At the call that looks up and renders, the key must come from the path of the request, the merge, type and default options from the query parameters of these names (a default also when it is empty), the variables from the command line followed by those of the query, and the rendering must be JSON.",
		Check:   checkRequestOptions})
	register(&Rule{ID: "C26", Technique: "guard analysis of server starts against TLS flags (path-sensitive dataflow on SSA)",
		Explain: "A server is started without TLS only on paths where the certificate, key, CA and client verification flags were all tested to be unset. On each path that starts it with TLS the certificate is loaded from the flags, the client CA pool and the requirement for client certificates are set when their flags may be, and everything that was loaded has been checked for errors.",
		Check:   checkTLS})
}

func isResponseWriter(t types.Type) bool { return isNamed(t, "net/http", "ResponseWriter") }

// handlers are the functions that serve HTTP requests
func (c *Ctx) handlers() []*ssa.Function {
	if c.handlerFuncs != nil {
		return c.handlerFuncs
	}
	var fs []*ssa.Function
	defer func() { c.handlerFuncs = fs }()
	for _, f := range c.P.Funcs {
		ps := f.Signature.Params()
		if f.Synthetic == "" && ps.Len() == 2 && isResponseWriter(ps.At(0).Type()) && isNamed(ps.At(1).Type(), "net/http", "Request") && f.Signature.Results().Len() == 0 {
			fs = append(fs, f)
		}
	}
	c.Count("request handlers", len(fs))
	c.Min("request handlers", 1)
	return fs
}

// rendersLookup is true for a function that performs a lookup and renders the result
func (c *Ctx) rendersLookup(f *ssa.Function) bool {
	if f == nil || c.P.relPkg(f) != "hiera" || f.Signature.Results().Len() != 1 || f.Parent() != nil {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Bool {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isNamed(f.Signature.Params().At(i).Type(), "io", "Writer") {
			return true
		}
	}
	return false
}

// sharedRoot finds something outside of the handler that an address or value refers to
func (c *Ctx) sharedRoot(o *originFinder, inside map[*ssa.Function]bool, v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
				continue
			}
		case *ssa.IndexAddr:
			v = x.X
			continue
		}
		break
	}
	if p, ok := v.(*ssa.Parameter); ok && inside[p.Parent()] && len(o.callers[p.Parent()]) == 0 {
		return ""
	}
	for _, g := range o.Of(v) {
		switch g.Kind {
		case "global":
			return "the package variable " + g.Key
		case "alloc":
			if g.Site != nil && !inside[g.Site.Parent()] {
				if al, ok := g.Site.(*ssa.Alloc); ok && al.Comment != "" {
					return "the captured variable " + al.Comment
				}
				return "something allocated outside of the request"
			}
		case "elem":
			// an element of a container that is itself shared
			if s := c.elemOf(o, inside, v); s != "" {
				return s
			}
		}
	}
	return ""
}

func (c *Ctx) elemOf(o *originFinder, inside map[*ssa.Function]bool, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return c.sharedRoot(o, inside, ia.X)
		}
	case *ssa.Lookup:
		return c.sharedRoot(o, inside, x.X)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return c.sharedRoot(o, inside, l.X)
		}
	}
	return ""
}

// sharedBase finds something that exists outside of the function whose spare capacity an append to t may use
func sharedBase(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "append", "append1":
			t = t.Args[0]
		case "slice":
			if n := len(t.Args); n >= 4 && t.Args[n-1].Op != "none" && t.Args[n-1] == t.Args[n-2] {
				return nil // no spare capacity
			}
			t = t.Args[0]
		case "loopvar":
			for _, a := range t.Args {
				if s := sharedBase(a); s != nil {
					return s
				}
			}
			return nil
		case "call":
			if strings.HasPrefix(t.CallName(), "slices.Cl") {
				return nil
			}
			return nil
		case "init", "param", "free", "global", "loopcell":
			return t
		default:
			return nil
		}
	}
	return nil
}

// readers may be given something shared
func readsOnly(key string) bool {
	for _, p := range []string{"(regexp.", "(sync.", "sync/atomic.", "(sync/atomic.", "(net/http.", "net/http.", "(github.com/sirupsen/logrus", "github.com/sirupsen/logrus", "(time.", "fmt.", "(net/url.URL)", "len", "strings.", "errors."} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func checkRequestIsolation(c *Ctx) {
	hs := c.handlers()
	o := c.P.Origins()
	pkgs := map[string]bool{"hiera": true}
	for _, h := range hs {
		pkgs[c.P.relPkg(h)] = true
	}
	reach := c.P.Graph(nil, nil).Reach(hs...)
	inside := map[*ssa.Function]bool{}
	for f := range reach {
		if pkgs[c.P.relPkg(f)] && f.Synthetic == "" && f.Name() != "init" {
			inside[f] = true
		}
	}
	c.Count("functions that serve requests", len(inside))
	inv := 0
	for _, f := range c.P.Funcs {
		if !inside[f] {
			continue
		}
		c.funcs[c.N(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				check := func(v ssa.Value, what string) {
					s := c.sharedRoot(o, inside, v)
					c.Count("modifications", 1)
					c.Must(s == "", "modifies-shared", c.N(f)+" "+what, in.Pos(), nil, "%s, which serves a request, %s %s", c.N(f), what, s)
				}
				switch x := in.(type) {
				case *ssa.Store:
					check(x.Addr, "stores to")
					// nothing of the request may be kept
				case *ssa.MapUpdate:
					check(x.Map, "updates")
				case *ssa.Send:
					check(x.Chan, "sends to")
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							check(cc.Args[0], bi.Name()+" on")
						}
						continue
					}
					if m := methodOfCall(x); m != nil && c.isAPIMethod(m, "Session", "Invocation") && x.Value() != nil {
						inv++
					}
					if m := methodOfCall(x); m != nil && cc.IsInvoke() && c.isAPIMethod(m, "Invocation", "Lookup") {
						c.Count("lookups of a request", 1)
						for _, g := range o.Of(cc.Value) {
							ok := false
							if call, isCall := g.Site.(*ssa.Call); isCall && g.Kind == "call" {
								ok = inside[call.Parent()]
							}
							if _, isI := g.Site.(*ssa.Parameter); g.Kind == "param" && isI {
								ok = true // an exported function; the callers that serve requests are followed
							}
							if g.Kind == "alloc" && g.Site != nil {
								ok = true
							}
							c.Must(ok, "own-invocation", c.N(f), x.Pos(), nil, "%s looks up with an invocation that wasn't created for the request (%s %s)", c.N(f), g.Kind, g.Key)
						}
					}
					if m := methodOfCall(x); isMutator(m) {
						recv := cc.Value
						if !cc.IsInvoke() && len(cc.Args) > 0 {
							recv = cc.Args[0]
						}
						check(recv, "changes with "+m.Name())
						continue
					}
					g := cc.StaticCallee()
					if g == nil || c.P.InRepo(g) || readsOnly(calleeKey(x)) {
						continue
					}
					for _, a := range cc.Args {
						if _, ok := a.Type().Underlying().(*types.Pointer); ok {
							check(a, "passes to "+calleeKey(x))
						}
					}
				}
			}
		}
	}
	appends := c.P.touches(func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return true
			}
		}
		return false
	})
	for _, f := range c.P.Funcs {
		if !inside[f] {
			continue
		}
		called := false
		for _, ci := range o.callers[f] {
			called = called || pkgOf(ci.Parent()) == pkgOf(f) && inside[ci.Parent()]
		}
		if !appends[f] || called {
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) && appends[g] }}) {
			for _, ev := range p.Events {
				if ev.Kind != "append" {
					continue
				}
				c.Count("appends", 1)
				s := sharedBase(ev.Recv)
				c.Must(s == nil, "appends-to-shared", c.N(f), ev.Pos, p, "%s, which serves a request, appends to a slice that is shared (%v)", c.N(f), s)
			}
		}
	}
	c.Count("invocations created", inv)
	c.Min("appends", 1)
	c.Min("invocations created", 1)
	c.Min("lookups of a request", 1)
	c.Min("modifications", 5)
	c.Min("functions that serve requests", 5)
}

func hasW(ev *Event, w *ssa.Parameter) bool {
	is := func(t *Term) bool { return t != nil && t.Op == "param" && t.Val == w }
	if is(ev.Recv) {
		return true
	}
	for _, a := range ev.Args {
		if is(a) {
			return true
		}
	}
	return false
}

// cautious is the panic model for code that must survive panics in anything it calls
func cautious(ev *Event) bool {
	if neverPanics(ev) {
		return false
	}
	for _, p := range []string{"net/http.", "(net/http.", "(net/url.", "(regexp.", "strings.", "errors.", "(error)", "(.error)", "(bytes.", "fmt.", "(github.com/sirupsen", "github.com/sirupsen"} {
		if strings.HasPrefix(ev.Name, p) {
			return false
		}
	}
	return true
}

func checkResponses(c *Ctx) {
	for _, h := range c.handlers() {
		w := h.Params[0]
		pol := &Policy{Inline: samePkg(h), MayPanic: cautious}
		for _, p := range c.Run(h, pol) {
			if p.Exit != "return" && p.Exit != "panic" {
				continue
			}
			status, responses := int64(0), 0
			var body *Term
			json, panicked := false, false
			var lookup *Event
			late := false
			for _, ev := range p.Events {
				if ev.Panics {
					panicked = true
				}
				if ev.Kind == "recover" {
					panicked = true
				}
				if ev.Kind != "call" {
					continue
				}
				if c.rendersLookup(ev.Fn) {
					if lookup != nil {
						c.Bad("one-lookup", c.N(h), ev.Pos, p, "%s performs more than one lookup for a request", c.N(h))
					}
					lookup = ev
					if responses > 0 {
						late = true
					}
				}
				if ev.Name == "(net/http.Header).Set" && len(ev.Args) == 2 {
					k, _ := ev.Args[0].StrConst()
					v, _ := ev.Args[1].StrConst()
					if strings.EqualFold(k, "Content-Type") && strings.HasPrefix(v, "application/json") && responses == 0 {
						json = true
					}
				}
				if !hasW(ev, w) {
					continue
				}
				switch ev.Name {
				case "(net/http.ResponseWriter).Header":
				case "net/http.NotFound":
					responses++
					status = 404
				case "net/http.Error":
					responses++
					status, _ = ev.Args[2].IntConst()
					body = ev.Args[1]
				case "(net/http.ResponseWriter).WriteHeader":
					if status != 0 {
						responses++
					}
					status, _ = ev.Args[0].IntConst()
				default:
					responses++
					if status == 0 {
						status = 200
					}
					for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
						if a != nil && !(a.Op == "param" && a.Val == w) {
							body = a
						}
					}
				}
			}
			c.Count("paths of request handlers", 1)
			if p.Exit == "panic" {
				// only for values that are neither an error nor a string
				strange := 0
				for t, v := range p.St.facts {
					if t.Op == "isa" && !v {
						strange++
					}
				}
				c.Must(strange >= 2 && responses == 0, "panic-escapes", c.N(h), h.Pos(), p, "a failure leaves %s without a response", c.N(h))
				continue
			}
			if !c.Must(responses == 1, "one-response", c.N(h), h.Pos(), p, "%s responds %d times on a path", c.N(h), responses) {
				continue
			}
			c.Must(!late, "lookup-first", c.N(h), h.Pos(), p, "%s responds before the lookup has ended", c.N(h))
			switch {
			case panicked:
				ok := status == 500 && body != nil && body.Any(func(t *Term) bool { return t.Op == "recover" || t.Op == "call" || t.Op == "sym" })
				c.Must(ok, "failure-is-500", c.N(h), h.Pos(), p, "%s responds with status %d when the lookup fails", c.N(h), status)
			case lookup == nil:
				c.Must(status >= 400 && status < 500, "bad-path-is-4xx", c.N(h), h.Pos(), p, "%s responds with status %d to a request it doesn't understand", c.N(h), status)
			default:
				found, known := p.St.decide(lookup.Res)
				if !c.Must(known, "found-decides", c.N(h), h.Pos(), p, "%s responds the same whether a value was found or not", c.N(h)) {
					continue
				}
				if !found {
					c.Must(status == 404, "not-found-is-404", c.N(h), h.Pos(), p, "%s responds with status %d when no value was found", c.N(h), status)
					continue
				}
				c.Must(status == 200, "found-is-200", c.N(h), h.Pos(), p, "%s responds with status %d when a value was found", c.N(h), status)
				c.Must(json, "content-type", c.N(h), h.Pos(), p, "%s doesn't set the content type application/json before it responds with a value", c.N(h))
				var out *Term
				for _, a := range lookup.Args {
					if a.Op == "alloc" && namedOf(a.Type) != nil && !isNamed(a.Type, c.P.Mod+"/hiera", "CommandOptions") {
						out = a
					}
				}
				ok := out != nil && body != nil && body.Contains(out)
				c.Must(ok, "body-is-value", c.N(h), h.Pos(), p, "%s responds with something else than what the lookup rendered", c.N(h))
				c.Count("responses with a value", 1)
			}
		}
	}
	c.Min("responses with a value", 1)
	c.Min("paths of request handlers", 4)
}

func hasConst(t *Term, s string) bool {
	return t != nil && t.Any(func(x *Term) bool { k, ok := x.StrConst(); return ok && k == s })
}

func checkRequestOptions(c *Ctx) {
	for _, h := range c.handlers() {
		req := h.Params[1]
		fromReq := func(t *Term) bool {
			return t != nil && t.Any(func(x *Term) bool { return x.Op == "param" && x.Val == req })
		}
		pol := &Policy{Inline: samePkg(h), Snap: func(st *State, ev *Event) map[string]*Term {
			if !c.rendersLookup(ev.Fn) {
				return nil
			}
			m := map[string]*Term{}
			for _, a := range ev.Args {
				s := structOf(a.Type)
				if pt, ok := a.Type.(*types.Pointer); ok && a.Op != "alloc" {
					s = structOf(pt.Elem())
				}
				if s == nil || !isNamed(a.Type, c.P.Mod+"/hiera", "CommandOptions") {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					m[s.Field(i).Name()] = st.load(st.faddr(a, s.Field(i)), s.Field(i).Type())
				}
			}
			return m
		}}
		for _, p := range c.Run(h, pol) {
			for i, ev := range p.Events {
				if ev.Kind != "call" || !c.rendersLookup(ev.Fn) {
					continue
				}
				facts := p.FactsBefore(i)
				c.Count("lookups for a request", 1)
				// parameter taken from the query, or known to be absent or empty
				for _, o := range []struct{ field, param string }{{"Merge", "merge"}, {"Type", "type"}} {
					v := ev.Snap[o.field]
					ok := hasConst(v, o.param) && fromReq(v)
					if !ok {
						for t, val := range facts {
							if fromReq(t) && hasConst(t, o.param) && (t.Op == "eq" && val && hasConst(t, "") || t.Op == "mapok" && !val || t.Op == "lt" && isZeroInt(t.Args[0]) && !val) {
								ok = true
							}
						}
					}
					c.Must(ok, "option", c.N(h)+" "+o.field, ev.Pos, p, "the %s of the lookup isn't the %s of the request", o.field, o.param)
				}
				// default, which may be empty
				d := ev.Snap["Default"]
				ok := hasConst(d, "default") && fromReq(d)
				if d != nil && d.Op == "alloc" {
					// a copy of the parameter
					ok = false
					for _, e2 := range p.Events[:i] {
						if e2.Kind == "store" && e2.Addr == d && hasConst(e2.Val, "default") && fromReq(e2.Val) {
							ok = true
						}
					}
				}
				if !ok {
					for t, val := range facts {
						if !fromReq(t) || !hasConst(t, "default") || hasConst(t, "") {
							continue
						}
						// being empty isn't being absent
						if t.Any(func(x *Term) bool {
							if x.Op != "len" || x.Args[0].Type == nil {
								return false
							}
							b, isStr := x.Args[0].Type.Underlying().(*types.Basic)
							return isStr && b.Info()&types.IsString != 0
						}) {
							continue
						}
						switch {
						case (t.Op == "mapok" || t.Op == "call" && strings.HasSuffix(t.CallName(), ".Has")) && !val,
							t.Op == "eq" && val && (t.Args[0].IsNil() || t.Args[1].IsNil()):
							ok = true
						}
					}
					_, hi := lenBounds(facts, func(x *Term) bool {
						b, isStr := x.Type.Underlying().(*types.Basic)
						return fromReq(x) && hasConst(x, "default") && !(isStr && b.Info()&types.IsString != 0)
					})
					ok = ok || hi == 0
				}
				c.Must(ok, "default", c.N(h), ev.Pos, p, "the default given in a request doesn't become the default of the lookup")
				v := ev.Snap["Variables"]
				own := hasConst(v, "var") && fromReq(v)
				base := v != nil && v.Any(func(x *Term) bool {
					return x.Op == "faddr" && x.Aux == "Variables" || FieldOf(x) != nil && FieldOf(x).Name() == "Variables"
				})
				if !own || !base {
					for t := range facts {
						own = own || fromReq(t) && hasConst(t, "var")
					}
					for _, e2 := range p.Events[:i] {
						if e2.Kind == "append" || e2.Kind == "copy" {
							for _, a := range append([]*Term{e2.Recv}, e2.Args...) {
								own = own || hasConst(a, "var") && fromReq(a)
								base = base || a != nil && a.Any(func(x *Term) bool { return FieldOf(x) != nil && FieldOf(x).Name() == "Variables" })
							}
						}
					}
				}
				c.Must(own, "variables", c.N(h)+" request", ev.Pos, p, "the variables given in a request aren't in the scope of the lookup")
				c.Must(base, "variables", c.N(h)+" command line", ev.Pos, p, "the variables given on the command line aren't in the scope of the lookup")
				if v != nil && v.Op == "append" && len(v.Args) > 1 {
					last := v.Args[len(v.Args)-1]
					c.Must(hasConst(last, "var"), "variables", c.N(h)+" order", ev.Pos, p, "variables of the command line override those of the request")
				}
				r := ev.Snap["RenderAs"]
				rs, _ := r.StrConst()
				c.Must(rs == "json", "json", c.N(h), ev.Pos, p, "the value isn't rendered as JSON")
				key := false
				for _, a := range ev.Args {
					if strings.HasPrefix(a.Op, "slice") && a.Any(func(x *Term) bool { return FieldOf(x) != nil && FieldOf(x).Name() == "Path" && fromReq(x) }) {
						key = true
					}
				}
				c.Must(key, "key", c.N(h), ev.Pos, p, "the key that is looked up isn't taken from the path of the request")
				for _, a := range ev.Args {
					if strings.HasPrefix(a.Op, "slice") {
						c.wholeKey(h, p, ev, a)
					}
				}
			}
		}
	}
	c.unanswered()
	c.routes()
	c.Min("lookups for a request", 2)
	c.Min("routes", 1)
}

// routes checks that the handler of the server leads requests to the functions that handle them
func (c *Ctx) routes() {
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || !c.makesHandler(f) {
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if p.Exit != "return" {
				continue
			}
			r := stripTyped(p.Res)
			c.Count("routes", 1)
			if r == nil || r.IsNil() {
				c.Bad("route", c.N(f), f.Pos(), p, "%s returns no handler", c.N(f))
				continue
			}
			if !isNamedPtr(r.Type, "net/http", "ServeMux") {
				continue
			}
			routed := false
			for _, ev := range p.Events {
				if ev.Kind == "call" && (ev.Name == "(net/http.ServeMux).HandleFunc" || ev.Name == "(net/http.ServeMux).Handle") && stripTyped(ev.Recv) == r {
					s, ok := stripTyped(ev.Args[0]).StrConst()
					routed = routed || ok && (strings.HasSuffix(s, "/lookup/") || s == "/")
				}
			}
			c.Must(routed, "route", c.N(f), f.Pos(), p, "%s doesn't route requests for /lookup/", c.N(f))
		}
	}
}

// flagVars returns the addresses of the variables of command line flags.
func (c *Ctx) flagVars(rel string) map[string]string {
	m := map[string]string{}
	for _, f := range c.P.Funcs {
		if c.P.relPkg(f) != rel {
			continue
		}
		for _, ci := range calls(f) {
			k := calleeKey(ci)
			if !strings.HasPrefix(k, "(github.com/spf13/pflag.FlagSet).") || !strings.Contains(k, "Var") {
				continue
			}
			as := ci.Common().Args
			if len(as) < 3 {
				continue
			}
			n, ok := as[2].(*ssa.Const)
			if !ok || n.Value == nil {
				continue
			}
			m[strings.Trim(n.Value.ExactString(), "`\"")] = addrKey(as[1])
		}
	}
	return m
}

// addrKey names a (field of a) package variable
func addrKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return x.RelString(nil)
	case *ssa.FieldAddr:
		return addrKey(x.X) + "." + fieldVar(x.X.Type(), x.Field).Name()
	case *ssa.UnOp:
		return "*" + addrKey(x.X)
	}
	return "?"
}

func termKey(t *Term) string {
	switch {
	case t == nil:
		return "?"
	case t.Op == "global":
		return t.Aux
	case FieldOf(t) != nil:
		return termKey(t.Args[0]) + "." + FieldOf(t).Name()
	case t.Op == "init":
		return "*" + termKey(t.Args[0])
	}
	return "?"
}

// flagTerm is true for the value of a flag
func flagTerm(t *Term, key string) bool {
	return t != nil && t.Op == "init" && termKey(t.Args[0]) == key
}

func isServe(n string) (plain, secure bool) {
	switch n {
	case "(net/http.Server).ListenAndServe", "(net/http.Server).Serve", "net/http.ListenAndServe", "net/http.Serve":
		return true, false
	case "(net/http.Server).ListenAndServeTLS", "(net/http.Server).ServeTLS", "net/http.ListenAndServeTLS", "net/http.ServeTLS":
		return false, true
	}
	return false, false
}

func checkTLS(c *Ctx) {
	roots, all := c.staticRoots(func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if p, s := isServe(calleeKey(ci)); p || s {
				return true
			}
		}
		return false
	})
	for _, f := range roots {
		_ = f
	}
	// analyse from the function that is nearest to the start and has no callers that pass it what was decided
	analysed := map[*ssa.Function]bool{}
	for f := range all {
		rel := c.P.relPkg(f)
		direct := false
		for g := range all {
			if g == f || c.P.relPkg(g) != rel || f.Synthetic != "" {
				continue
			}
			for _, ci := range calls(g) {
				if ci.Common().StaticCallee() == f {
					direct = true // judged as part of its caller
				}
			}
		}
		if !direct && f.Synthetic == "" {
			analysed[f] = true
		}
	}
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if analysed[f] {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		flags := c.flagVars(c.P.relPkg(f))
		ok := true
		for _, n := range []string{"ssl-cert", "ssl-key", "ca", "clientCertVerify"} {
			if k := flags[n]; k == "" || strings.Contains(k, "?") {
				ok = false
				c.Anchor("variable of the flag " + n)
			}
		}
		if !ok {
			return
		}
		isFlag := map[string]bool{}
		for _, k := range flags {
			isFlag[k] = true
		}
		var cfgOf func(st *State, ev *Event) map[string]*Term
		cfgOf = func(st *State, ev *Event) map[string]*Term {
			if _, s := isServe(ev.Name); !s || ev.Recv == nil {
				return nil
			}
			m := map[string]*Term{}
			get := func(base *Term, name string) *Term {
				t := base.Type
				s := structOf(t)
				if s == nil {
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						s = structOf(pt.Elem())
					}
				}
				for i := 0; s != nil && i < s.NumFields(); i++ {
					if s.Field(i).Name() == name {
						return st.load(st.faddr(base, s.Field(i)), s.Field(i).Type())
					}
				}
				return nil
			}
			cfg := get(ev.Recv, "TLSConfig")
			m["cfg"] = cfg
			if cfg != nil && !cfg.IsNil() && cfg.Type != nil {
				for _, n := range []string{"ClientAuth", "ClientCAs", "Certificates", "InsecureSkipVerify"} {
					m[n] = get(cfg, n)
				}
			}
			return m
		}
		stable := func(a *Term) bool { return isFlag[termKey(a)] }
		_ = stable
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f), Snap: cfgOf, NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string {
			if strings.Contains(ev.Name, "/hiera.DoWith") || strings.Contains(ev.Name, "/hiera.TryWith") {
				return "once"
			}
			return ""
		}}) {
			for i, ev := range p.Events {
				if ev.Kind != "call" {
					continue
				}
				plain, secure := isServe(ev.Name)
				if !plain && !secure {
					continue
				}
				facts := p.FactsBefore(i)
				unset := func(name string) bool {
					for t, v := range facts {
						if t.Op == "eq" && v && (flagTerm(t.Args[0], flags[name]) && isEmptyStr(t.Args[1]) || flagTerm(t.Args[1], flags[name]) && isEmptyStr(t.Args[0])) {
							return true
						}
						if flagTerm(t, flags[name]) && !v {
							return true
						}
						// len(flag) == 0 in its forms
						if t.Op == "lt" && !v && t.Args[1].Op == "len" && flagTerm(t.Args[1].Args[0], flags[name]) {
							return true
						}
						if t.Op == "eq" && v && (t.Args[0].Op == "len" && flagTerm(t.Args[0].Args[0], flags[name]) || t.Args[1].Op == "len" && flagTerm(t.Args[1].Args[0], flags[name])) {
							return true
						}
					}
					return false
				}
				noErr := func(call string) bool {
					n := 0
					for _, e2 := range p.Events[:i] {
						if e2.Kind == "call" && e2.Name == call {
							n++
							good := false
							for t, v := range facts {
								if t.Op == "eq" && v && (t.Args[0].IsNil() || t.Args[1].IsNil()) && e2.Res != nil && t.Any(func(x *Term) bool { return x.Op == "ext" && x.Args[0] == e2.Res }) {
									good = true
								}
							}
							if !good {
								return false
							}
						}
					}
					return n > 0
				}
				if plain {
					c.Count("starts without TLS", 1)
					for _, n := range []string{"ssl-cert", "ssl-key", "ca", "clientCertVerify"} {
						c.Must(unset(n), "plain", c.N(f)+" "+n, ev.Pos, p, "the server is started without TLS on a path where --%s may have been given", n)
					}
					continue
				}
				c.Count("starts with TLS", 1)
				certs := ev.Snap["Certificates"]
				fromFlags := func(as []*Term) bool {
					return len(as) >= 2 && flagTerm(as[0], flags["ssl-cert"]) && flagTerm(as[1], flags["ssl-key"])
				}
				ok := fromFlags(ev.Args)
				for _, e2 := range p.Events[:i] {
					if e2.Kind == "call" && e2.Name == "crypto/tls.LoadX509KeyPair" && fromFlags(e2.Args) && certs != nil {
						ok = noErr(e2.Name)
					}
				}
				c.Must(ok, "certificate", c.N(f), ev.Pos, p, "the server certificate isn't the one loaded, without an error, from --ssl-cert and --ssl-key")
				if !unset("clientCertVerify") {
					ca := ev.Snap["ClientAuth"]
					k := int64(-1)
					if ca != nil {
						k, _ = ca.IntConst()
					}
					c.Must(k == 4, "verify-clients", c.N(f), ev.Pos, p, "--clientCertVerify doesn't make the server require and verify client certificates")
				}
				if !unset("ca") {
					ok := false
					pool := ev.Snap["ClientCAs"]
					for _, e2 := range p.Events[:i] {
						if e2.Kind == "call" && e2.Name == "(crypto/x509.CertPool).AppendCertsFromPEM" && pool != nil && e2.Recv == pool {
							added, known := p.St.decide(e2.Res)
							src := len(e2.Args) == 1 && e2.Args[0].Any(func(x *Term) bool { return flagTerm(x, flags["ca"]) })
							if src && known && added && (noErr("io/ioutil.ReadFile") || noErr("os.ReadFile")) {
								ok = true
							}
						}
					}
					c.Must(ok, "client-ca", c.N(f), ev.Pos, p, "clients are not verified against the certificates in --ca")
				}
			}
		}
	}
	c.Min("starts without TLS", 1)
	c.Min("starts with TLS", 2)
}

func isEmptyStr(t *Term) bool {
	s, ok := t.StrConst()
	return ok && s == ""
}

// wholeKey tests that a key found by a pattern is all that follows the prefix of the path
func (c *Ctx) wholeKey(h *ssa.Function, p *Path, ev *Event, keys *Term) {
	keys.Any(func(x *Term) bool {
		if x.Op != "init" || x.Args[0].Op != "iaddr" {
			return false
		}
		m, k := x.Args[0].Args[0], x.Args[0].Args[1]
		n, ok := k.IntConst()
		if !ok || m.Op != "call" || !strings.HasSuffix(m.CallName(), ".FindStringSubmatch") {
			return false
		}
		pat, ok := c.patternOf(m.Args[0])
		if !ok {
			return false
		}
		re, err := syntax.Parse(pat, syntax.Perl)
		if err != nil {
			return false
		}
		prefix, group, rest := "", 0, false
		var walk func(r *syntax.Regexp)
		walk = func(r *syntax.Regexp) {
			switch r.Op {
			case syntax.OpConcat:
				for _, s := range r.Sub {
					walk(s)
				}
			case syntax.OpLiteral:
				if group == 0 {
					prefix += string(r.Rune)
				} else {
					rest = true
				}
			case syntax.OpCapture:
				if group == 0 {
					group = r.Cap
				} else {
					rest = true
				}
			case syntax.OpBeginText, syntax.OpEndText, syntax.OpBeginLine, syntax.OpEndLine:
			default:
				rest = true
			}
		}
		walk(re)
		if rest || group == 0 {
			return false
		}
		c.Must(int(n) == group, "key", c.N(h)+" whole", ev.Pos, p, "the key that is looked up isn't what follows %q in the path of the request", prefix)
		return false
	})
}

// unanswered checks that requests for a key aren't answered without a lookup
func (c *Ctx) unanswered() {
	for _, h := range c.handlers() {
		for _, p := range c.Run(h, &Policy{Inline: samePkg(h)}) {
			if p.Exit == "cut" {
				continue
			}
			looked := false
			for _, ev := range p.Events {
				looked = looked || ev.Kind == "call" && c.rendersLookup(ev.Fn)
			}
			matched, known := false, false
			for t, v := range p.FactsBefore(len(p.Events)) {
				if t.Op == "eq" && (t.Args[0].IsNil() || t.Args[1].IsNil()) && t.Any(func(x *Term) bool {
					return x.Op == "call" && strings.HasPrefix(x.CallName(), "(regexp.Regexp).Find") && (FieldOf(x) != nil || len(x.Args) == 2)
				}) && !t.Any(func(x *Term) bool { return x.Op == "recover" }) {
					matched, known = !v, true
				}
			}
			if !known {
				continue
			}
			c.Must(matched == looked, "answered", c.N(h), h.Pos(), p, "%s answers a request for a key without looking it up, or another one with a lookup", c.N(h))
		}
	}
}
