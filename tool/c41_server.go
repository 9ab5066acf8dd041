package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C41", Technique: "flag table extraction and provenance of the server's address, handler and session over all paths (path-sensitive dataflow on SSA)",
		Explain: "Each flag of the server must be bound to a variable of its own. On all paths from the start of the server to where it begins to listen, the address must be made of --addr and --port, the handler of the session, and the session of --config and the providers; the log level must be the one asked for. A path that doesn't listen must fail.",
		Check:   checkServer})
}

// serverDefaults are the values that flags have when they aren't given
var serverDefaults = map[string]string{"addr": "", "config": "/hiera/hiera.yaml", "port": "8080", "loglevel": "error"}

func checkServer(c *Ctx) {
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || c.P.relPkg(f) != "hieraserver/rest" {
			continue
		}
		if s := f.Signature; f.Parent() == nil && s.Params().Len() == 2 && s.Results().Len() == 0 && isNamedPtr(s.Params().At(0).Type(), "github.com/spf13/cobra", "Command") ||
			f.Parent() != nil && s.Params().Len() == 2 && isNamedPtr(s.Params().At(0).Type(), "github.com/spf13/cobra", "Command") || isRunE(f) {
			c.serverStart(f)
		}
	}
	c.serverFlags()
	c.Min("servers started", 2)
	c.Min("flags of the server", 10)
	c.Min("ways not to start", 1)
}

// serverFlags checks which variable each flag sets
func (c *Ctx) serverFlags() {
	seen := map[string]string{}
	for _, f := range c.P.Funcs {
		if c.P.relPkg(f) != "hieraserver/rest" {
			continue
		}
		for _, ci := range calls(f) {
			k := calleeKey(ci)
			if !strings.HasPrefix(k, "(github.com/spf13/pflag.FlagSet).") || !strings.Contains(k, "Var") {
				continue
			}
			as := ci.Common().Args
			if len(as) < 4 {
				continue
			}
			nk, ok := as[2].(*ssa.Const)
			if !ok || nk.Value == nil || nk.Value.Kind() != constant.String {
				continue
			}
			name := constant.StringVal(nk.Value)
			c.Count("flags of the server", 1)
			key := addrKey(as[1])
			for other, ok := range seen {
				c.Must(ok != key || strings.Contains(key, "?"), "flag", other+"/"+name, ci.Pos(), nil, "the flags --%s and --%s set the same variable", other, name)
			}
			seen[name] = key
			if want := map[string]string{"vars": "VarPaths", "var": "Variables"}[name]; want != "" {
				fa, isField := as[1].(*ssa.FieldAddr)
				c.Must(isField && fieldOfAddr(fa) != nil && fieldOfAddr(fa).Name() == want, "flag", name, ci.Pos(), nil, "the flag --%s doesn't set %s", name, want)
			}
			if want, ok := serverDefaults[name]; ok {
				d := as[len(as)-2]
				if dk, isConst := d.(*ssa.Const); isConst && dk.Value != nil {
					got := dk.Value.ExactString()
					if dk.Value.Kind() == constant.String {
						got = constant.StringVal(dk.Value)
					}
					c.Must(got == want, "flag default", name, ci.Pos(), nil, "--%s is %q, not %q, when it isn't given", name, got, want)
				}
			}
		}
	}
	for _, n := range []string{"loglevel", "config", "vars", "var", "addr", "port", "ssl-key", "ssl-cert", "ca", "clientCertVerify"} {
		c.Must(seen[n] != "", "flag", n+"/missing", 0, nil, "there is no flag --%s", n)
	}
}

// serverStart follows all paths from the command to the server
func (c *Ctx) serverStart(f *ssa.Function) {
	flags := c.flagVars(c.P.relPkg(f))
	for _, n := range []string{"config", "addr", "port", "loglevel"} {
		if k := flags[n]; k == "" || strings.Contains(k, "?") {
			c.Anchor("variable of the flag " + n)
			return
		}
	}
	n := c.N(f)
	isSession := func(name string) bool {
		return strings.Contains(name, "/hiera.DoWith") || strings.Contains(name, "/hiera.TryWith")
	}
	snap := func(st *State, ev *Event) map[string]*Term {
		p, s := isServe(ev.Name)
		if !p && !s {
			return nil
		}
		m := map[string]*Term{}
		listener := (*Term)(nil)
		if strings.HasSuffix(ev.Name, ".Serve") || strings.HasSuffix(ev.Name, ".ServeTLS") {
			listener = ev.Args[0]
			defer func() { m["Addr"] = listener }()
		}
		if ev.Recv == nil {
			if len(ev.Args) > 1 {
				m["Addr"], m["Handler"] = ev.Args[0], ev.Args[len(ev.Args)-1]
			}
			return m
		}
		if pt, ok := ev.Recv.Type.Underlying().(*types.Pointer); ok {
			if s := structOf(pt.Elem()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if v := s.Field(i); v.Name() == "Addr" || v.Name() == "Handler" {
						m[v.Name()] = st.load(st.faddr(ev.Recv, v), v.Type())
					}
				}
			}
		}
		return m
	}
	inline := samePkg(f)
	pol := &Policy{Inline: func(g *ssa.Function) bool { return inline(g) && !c.makesHandler(g) }, Snap: snap, NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string {
		if fn := fnOf(a); isSession(ev.Name) && fn != nil && c.P.relPkg(fn) == c.P.relPkg(f) {
			return "once"
		}
		return "no"
	}}
	for _, p := range c.Run(f, pol) {
		var level, session, given *Term
		options := map[string]*Term{}
		var optionsMap *Term
		served, called := false, false
		for i, ev := range p.Events {
			switch {
			case ev.Kind == "mapupdate" && len(ev.Args) == 2:
				if s, ok := stripTyped(ev.Args[0]).StrConst(); ok {
					options[s] = stripTyped(ev.Args[1])
					optionsMap = stripTyped(ev.Addr)
				}
			case ev.Kind == "call" && isDgo(ev.Res, "Put") && len(ev.Args) == 2:
				if s, ok := stripTyped(ev.Args[0]).StrConst(); ok {
					options[s] = stripTyped(ev.Args[1])
					optionsMap = stripTyped(ev.Recv)
				}
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "logrus.SetLevel"):
				level = ev.Args[0]
			case ev.Kind == "call" && isSession(ev.Name) && len(ev.Args) == 4:
				called = true
				session = ev.Res
				prov := fnOf(stripTyped(ev.Args[1]))
				opts := stripTyped(ev.Args[2])
				c.Must(opts == optionsMap && flagTerm(options["Hiera::Config"], flags["config"]), "config", n, ev.Pos, p, "the session of the server isn't made with the configuration that --config names")
				okP := prov != nil && (prov.Name() == "ConfigLookupKey")
				if prov != nil && prov.Name() == "MuxLookupKey" {
					list := options["hiera::lookup::providers"]
					okP = list != nil && list.Op == "slicelit" && len(list.Args) > 0
					if okP {
						g := fnOf(stripTyped(list.Args[0]))
						okP = g != nil && g.Name() == "ConfigLookupKey"
						env := false
						for _, a := range list.Args {
							g := fnOf(stripTyped(a))
							env = env || g != nil && g.Name() == "Environment"
						}
						c.Must(env, "environment", n, ev.Pos, p, "the session of the server doesn't look keys up in the environment")
					}
				}
				c.Must(okP, "provider", n, ev.Pos, p, "the session of the server doesn't look keys up in the configuration first")
			case ev.Kind == "callback" && isSession(ev.Name):
				if len(ev.Args) > 0 {
					given = ev.Args[0]
				}
			case ev.Kind == "call":
				plain, secure := isServe(ev.Name)
				if !plain && !secure {
					continue
				}
				served = true
				c.Count("servers started", 1)
				facts := p.FactsBefore(i)
				l := ext0(level)
				ok := l != nil && strings.HasSuffix(l.CallName(), "logrus.ParseLevel") && flagTerm(l.Args[0], flags["loglevel"])
				c.Must(ok && callFailed(facts, l) == -1, "level", n, ev.Pos, p, "the server is started with another log level than --loglevel")
				c.Must(listens(ev.Snap["Addr"], flags), "address", n, ev.Pos, p, "the server doesn't listen at --addr and --port")
				h := stripTyped(ev.Snap["Handler"])
				okH := h != nil && h.Op == "call" && session != nil
				if okH {
					g := h.Ev.Fn
					okH = g != nil && c.makesHandler(g) && len(h.Args) > 0 && given != nil && stripTyped(h.Args[0]) == stripTyped(given)
				}
				c.Must(okH, "handler", n, ev.Pos, p, "the server doesn't answer requests with the session that was made for it")
			}
		}
		switch p.Exit {
		case "return":
			c.Must(served && called || !p.Res.IsNil() && p.Res != nil && p.Res.Op != "none" && isErrorType(p.Res.Type), "not started", n, f.Pos(), p, "the program ends normally without having started the server")
		case "panic", "exit":
			if !served {
				c.Count("ways not to start", 1)
			}
		}
	}
}

func isErrorType(t types.Type) bool { return t != nil && t.String() == "error" }

// listens tests if an address is that of the flags
func listens(t *Term, flags map[string]string) bool {
	t = stripTyped(t)
	if t == nil {
		return false
	}
	if l := ext0(t); l != nil && l.CallName() == "net.Listen" && len(l.Args) == 2 {
		if n, ok := l.Args[0].StrConst(); !ok || n != "tcp" {
			return false
		}
		t = stripTyped(l.Args[1])
	}
	port := func(x *Term) bool {
		x = stripTyped(x)
		if flagTerm(x, flags["port"]) {
			return true
		}
		if x == nil || x.Op != "call" || len(x.Args) == 0 {
			return false
		}
		a := stripTyped(x.Args[0])
		for a != nil && a.Op == "conv" {
			a = stripTyped(a.Args[0])
		}
		switch x.CallName() {
		case "strconv.Itoa", "fmt.Sprint":
			if a != nil && a.Op == "slicelit" && len(a.Args) == 1 {
				a = stripTyped(a.Args[0])
			}
			return flagTerm(a, flags["port"])
		case "strconv.FormatInt", "strconv.FormatUint":
			b, ok := x.Args[1].IntConst()
			return ok && b == 10 && flagTerm(a, flags["port"])
		}
		return false
	}
	if t.CallName() == "net.JoinHostPort" && len(t.Args) == 2 {
		s, ps := template(t.Args[1])
		return flagTerm(stripTyped(t.Args[0]), flags["addr"]) && s == "{}" && port(ps[0])
	}
	s, ps := template(t)
	return s == "{}:{}" && flagTerm(ps[0], flags["addr"]) && port(ps[1])
}

// makesHandler tests if a function makes a handler of requests from a session
func (c *Ctx) makesHandler(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 || f.Signature.Params().Len() == 0 {
		return false
	}
	for _, h := range c.handlers() {
		for p := h; p != nil; p = p.Parent() {
			if p == f {
				return true
			}
		}
	}
	return false
}
