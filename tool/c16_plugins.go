package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C16", Technique: "process life cycle typestate over all paths including panic exits (path-sensitive dataflow on SSA)",
		Explain: "After a successful start of a process every return has registered an object that holds the process in a map, and every panic has killed and waited for it and not registered it. KillPlugins reaches a terminating function for each element of that map; each path of that function with a live process asks it to stop before it kills it, and either receives the end of a wait or kills, and waits. Each function that creates a session kills the plugins on all exits or returns the session.",
		Check:   checkPluginLife})
	register(&Rule{ID: "C18", Technique: "boundedness of blocking operations (dataflow on SSA)",
		Explain: "In the packages that run plugin processes each blocking select has a timer case, there is no bare receive, each send is to a channel that is buffered for it, HTTP clients have a timeout, waiting for a process is preceded by killing it or done in a goroutine, each goroutine that is waited for is counted before it starts and signs off on all exits, and reading stops at the first error.",
		Check:   checkBounded})
}

const (
	cmdStart = "(os/exec.Cmd).Start"
	procKill = "(os.Process).Kill"
	procSig  = "(os.Process).Signal"
)

func isProcWait(n string) bool { return n == "(os.Process).Wait" || n == "(os/exec.Cmd).Wait" }

func callsAny(f *ssa.Function, names ...string) bool {
	for _, ci := range calls(f) {
		k := calleeKey(ci)
		for _, n := range names {
			if k == n {
				return true
			}
		}
	}
	return false
}

// staticRoots returns the functions from which a function that satisfies base is reached by synchronous static calls,
// and that aren't themselves called that way from such a function.
func (c *Ctx) staticRoots(base func(*ssa.Function) bool) (roots []*ssa.Function, all map[*ssa.Function]bool) {
	all = map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(to, from *ssa.Function) {
		if to == from {
			return
		}
		if callers[to] == nil {
			callers[to] = map[*ssa.Function]bool{}
		}
		callers[to][from] = true
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil {
					add(unwrapFn(c.P, g), f)
					if !c.P.InRepo(g) {
						continue
					}
				}
				for _, a := range ci.Common().Args {
					switch x := stripConv(a).(type) {
					case *ssa.MakeClosure:
						add(x.Fn.(*ssa.Function), f)
					case *ssa.Function:
						if x.Parent() != nil {
							add(x, f)
						}
					}
				}
			}
		}
	}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if all[f] {
			return
		}
		all[f] = true
		for g := range callers[f] {
			mark(g)
		}
	}
	for _, f := range c.P.Funcs {
		if base(f) {
			mark(f)
		}
	}
	for _, f := range c.P.Funcs {
		if all[f] && len(callers[f]) == 0 && f.Synthetic == "" {
			roots = append(roots, f)
		}
	}
	return
}

func checkPluginLife(c *Ctx) {
	isStart := func(f *ssa.Function) bool { return callsAny(f, cmdStart, "os.StartProcess") }
	roots, starters := c.staticRoots(isStart)
	var reg *types.Var // the field that holds the running plugins
	for _, f := range roots {
		pol := &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkgOf(f) && (starters[g] || c.piece(g) || g.Parent() != nil || g.Signature.Results().Len() == 0 || callsAny(g, procKill))
		}, MayPanic: func(ev *Event) bool { return !neverPanics(ev) && !strings.HasPrefix(ev.Name, "(os/exec.Cmd).") }}
		for _, p := range c.Run(f, pol) {
			if p.Exit != "return" && p.Exit != "panic" {
				continue
			}
			at := -1
			var cmd, res *Term
			for i, ev := range p.Events {
				if ev.Kind == "call" && (ev.Name == cmdStart || ev.Name == "os.StartProcess") {
					at, res = i, ev.Res
					cmd = ev.Recv
					if cmd == nil {
						cmd = ev.Res
					}
				}
			}
			if at < 0 {
				continue
			}
			started := true
			for t, v := range p.FactsBefore(len(p.Events)) {
				if t.Op == "eq" && t.Any(func(x *Term) bool { return x == res }) && (t.Args[0].IsNil() || t.Args[1].IsNil()) && !v {
					started = false // error isn't nil
				}
			}
			if !started {
				c.Count("failed starts", 1)
				continue
			}
			c.Count("exits after a start", 1)
			kill, wait, registered := -1, -1, false
			for i, ev := range p.Events[at:] {
				switch {
				case ev.Kind == "call" && ev.Name == procKill && ev.Recv.Contains(cmd):
					kill = i
				case ev.Kind == "call" && isProcWait(ev.Name) && ev.Recv.Contains(cmd) && kill >= 0:
					wait = i
				case ev.Kind == "mapupdate":
					if holds(p.Events, ev.Val, cmd) {
						registered = true
						if ev.Addr.Op == "init" && FieldOf(ev.Addr.Args[0]) != nil {
							reg = FieldOf(ev.Addr.Args[0])
						}
						for _, e2 := range p.Events {
							if e2.Kind == "store" && e2.Val == ev.Addr && FieldOf(e2.Addr) != nil {
								reg = FieldOf(e2.Addr)
							}
						}
					}
				case ev.Kind == "mapdelete":
					registered = false
				}
			}
			if registered {
				var key *Term
				up, chk, lock := -1, -1, -1
				for i, ev := range p.Events {
					if ev.Kind == "mapupdate" && holds(p.Events, ev.Val, cmd) {
						up, key = i, ev.Args[0]
					}
				}
				for i, ev := range p.Events[:up] {
					if ev.Kind == "fact" && i < at && (ev.Val.Op == "mapok" && !ev.Bool || ev.Val.Op == "eq" && ev.Bool && (ev.Val.Args[0].Op == "mapget" || ev.Val.Args[1].Op == "mapget")) && ev.Val.Contains(key) {
						chk = i
					}
					// there are no plugins yet
					if ev.Kind == "fact" && i < at && ev.Val.Op == "eq" && ev.Bool {
						for k := 0; k < 2; k++ {
							if x := ev.Val.Args[k]; ev.Val.Args[1-k].IsNil() && x.Op == "init" && FieldOf(x.Args[0]) != nil && isMapType(FieldOf(x.Args[0]).Type()) {
								chk = i
							}
						}
					}
					if ev.Kind == "call" && (ev.Name == "(sync.Mutex).Lock" || ev.Name == "(sync.RWMutex).Lock") && lock < 0 {
						lock = i
					}
					if ev.Kind == "call" && (ev.Name == "(sync.Mutex).Unlock" || ev.Name == "(sync.RWMutex).Unlock") {
						lock = -1
					}
				}
				c.Must(chk >= 0, "started-once", c.N(f), f.Pos(), p, "%s starts a plugin without checking that it isn't running already", c.N(f))
				c.Must(lock >= 0 && lock < chk, "start-locked", c.N(f), f.Pos(), p, "%s doesn't hold a lock from the check for a running plugin until the new one is registered", c.N(f))
			}
			if p.Exit == "return" {
				c.Must(registered && kill < 0 || !registered && wait > 0, "registered", c.N(f), f.Pos(), p, "%s returns with a plugin process that is neither registered nor killed and waited for, or with a killed process that is registered", c.N(f))
			} else {
				c.Must(!registered && wait > 0, "killed-on-failure", c.N(f), f.Pos(), p, "%s fails with a plugin process that isn't killed and waited for, or is registered anyway", c.N(f))
			}
		}
	}
	c.Min("exits after a start", 2)
	if reg == nil {
		c.Anchor("map of running plugins")
		return
	}
	// what the session does
	killers := map[*ssa.Function]bool{}
	kt := c.P.touches(func(f *ssa.Function) bool { return callsAny(f, procKill) })
	for _, f := range c.P.topFuncs() {
		if kt[f] && !starters[f] && f.Signature.Recv() != nil && ownsProcess(f.Signature.Recv().Type()) {
			killers[f] = true
		}
		if kt[f] && !starters[f] && f.Signature.Recv() == nil && len(f.Params) > 0 && ownsProcess(f.Params[0].Type()) {
			killers[f] = true
		}
	}
	for _, f := range c.methods("api", "Session", "KillPlugins") {
		if f.Synthetic != "" {
			continue
		}
		if w := c.P.Named("api", "Session"); w == nil {
			continue
		}
		n := 0
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) && !killers[g] }}) {
			if p.Exit != "return" {
				continue
			}
			live, killed, found := 0, 0, false
			noReg := false
			for _, ev := range p.Events {
				if ev.Kind == "fact" && ev.Val.Op == "nextok" && ev.Val.Any(func(t *Term) bool { return t.Op == "init" && FieldOf(t.Args[0]) == reg }) {
					found = true
					if ev.Bool {
						live++
					}
				}
				if ev.Kind == "fact" && ev.Val.Op == "eq" && ev.Bool && (ev.Val.Args[0].IsNil() || ev.Val.Args[1].IsNil()) {
					noReg = true
				}
				if ev.Kind == "fact" && ev.Val.Op == "isa" && !ev.Bool {
					noReg = true
				}
				if ev.Kind == "call" && ev.Fn != nil && killers[unwrapFn(c.P, ev.Fn)] {
					as := ev.Args
					if ev.Recv != nil {
						as = append([]*Term{ev.Recv}, as...)
					}
					if len(as) > 0 && as[0].Op == "nextval" {
						killed++
					}
				}
			}
			if !found && noReg {
				continue // there is no registry
			}
			n++
			c.Must(found && live == killed, "all-killed", c.N(f), f.Pos(), p, "%s doesn't terminate all registered plugins", c.N(f))
		}
		c.Count("paths of KillPlugins", n)
	}
	c.Min("paths of KillPlugins", 1)
	for f := range killers {
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if p.Exit != "return" {
				continue
			}
			sig, kill, wait, done, touched := -1, -1, -1, -1, false
			dead := false
			for i, ev := range p.Events {
				if ev.Kind != "call" || len(ev.Name) < 4 || !strings.HasPrefix(ev.Name, "(os.Process).") || ev.Recv == nil || FieldOf(ev.Recv) == nil && (ev.Recv.Op != "init" || FieldOf(ev.Recv.Args[0]) == nil) {
					continue
				}
				// the process of a plugin that isn't running is nil
				live := false
				for t, v := range p.FactsBefore(i) {
					if t.Op == "eq" && !v && (t.Args[0].IsNil() && stripTyped(t.Args[1]) == stripTyped(ev.Recv) || t.Args[1].IsNil() && stripTyped(t.Args[0]) == stripTyped(ev.Recv)) {
						live = true
					}
				}
				c.Must(live, "live", c.N(f), ev.Pos, p, "%s signals a plugin that may not be running, and fails instead of terminating the others", c.N(f))
			}
			for i, ev := range p.Events {
				switch {
				case ev.Kind == "call" && (ev.Name == procSig || strings.HasPrefix(ev.Name, "golang.org/x/sys/windows.LoadDLL")):
					// Windows has no signals: the plugin is asked through the console
					touched = true
					if sig < 0 {
						sig = i
					}
				case ev.Kind == "call" && ev.Name == procKill:
					touched = true
					kill = i
				case ev.Kind == "call" && isProcWait(ev.Name):
					touched = true
					wait = i
				case ev.Kind == "go":
					if g := goTarget(ev); g != nil && waitsFor(g) {
						wait = i
					}
				case ev.Kind == "recv" && ev.Recv != nil && !isTimer(ev.Recv):
					done = i
				case ev.Kind == "fact" && ev.Val.Op == "eq" && ev.Bool:
					for k := 0; k < 2; k++ {
						if ev.Val.Args[k].IsNil() && isNamed(ev.Val.Args[1-k].Type, "os", "Process") {
							dead = true
						}
					}
				}
			}
			if !touched {
				c.Must(dead, "terminates", c.N(f), f.Pos(), p, "%s leaves a live plugin process alone", c.N(f))
				continue
			}
			c.Count("ways to terminate a plugin", 1)
			c.Must(wait >= 0 && (kill >= 0 || done > wait), "terminates", c.N(f), f.Pos(), p, "%s returns without knowing that the plugin process has ended, without having killed it, or without waiting for it", c.N(f))
			c.Must(sig >= 0 && (kill < 0 || sig < kill), "asked-first", c.N(f), f.Pos(), p, "%s kills a plugin process without asking it to stop first", c.N(f))
		}
	}
	c.Min("ways to terminate a plugin", 2)
	// sessions
	creators := map[*ssa.Function]bool{}
	if f := c.P.Func("session", "New"); f != nil {
		creators[f] = true
	} else {
		c.Anchor("session.New")
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.P.topFuncs() {
			if creators[f] || !returnsCallOf(f, creators) {
				continue
			}
			creators[f] = true
			ch = true
		}
	}
	for _, f := range c.P.Funcs {
		if creators[f] || f.Synthetic != "" {
			continue
		}
		direct := false
		for _, ci := range calls(f) {
			if g := ci.Common().StaticCallee(); g != nil && creators[unwrapFn(c.P, g)] {
				direct = true
			}
		}
		if !direct {
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return pkgOf(g) == pkgOf(f) && !creators[g] && g.Parent() != nil },
			MayPanic: func(ev *Event) bool { return !isSessionKill(c, ev) }}) {
			if p.Exit != "return" && p.Exit != "panic" {
				continue
			}
			var s *Term
			killed := false
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Fn != nil && creators[unwrapFn(c.P, ev.Fn)] && !ev.Panics {
					s = ev.Res
				}
				if s != nil && isSessionKill(c, ev) && (ev.Recv == s || ev.Recv.Contains(s)) {
					killed = true
				}
			}
			if s == nil {
				continue
			}
			c.Count("exits of functions that create a session", 1)
			c.Must(killed, "session-kills", c.N(f), f.Pos(), p, "%s ends with a %s and leaves the plugins of the session it created running", c.N(f), p.Exit)
		}
	}
	c.Min("exits of functions that create a session", 2)
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isSessionKill(c *Ctx, ev *Event) bool {
	return ev.Kind == "call" && ev.Method != nil && c.isAPIMethod(ev.Method, "Session", "KillPlugins")
}

func returnsCallOf(f *ssa.Function, set map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				for _, v := range r.Results {
					if call, ok := stripConv(v).(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && set[g] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// ownsProcess is true for structs with a process
func ownsProcess(t types.Type) bool {
	for _, v := range fieldsOf(t) {
		if isNamed(v.Type(), "os", "Process") || isNamed(v.Type(), "os/exec", "Cmd") {
			return true
		}
	}
	return false
}

// holds is true if v is an object in which the process of cmd was stored
func holds(evs []*Event, v, cmd *Term) bool {
	for _, ev := range evs {
		if ev.Kind == "store" && ev.Addr.Op == "faddr" && ev.Addr.Args[0] == v && ev.Val != nil && ev.Val.Contains(cmd) {
			if fv := FieldOf(ev.Addr); fv != nil && (isNamed(fv.Type(), "os", "Process") || isNamed(fv.Type(), "os/exec", "Cmd")) {
				return true
			}
		}
	}
	return false
}

// goTarget is the function that a go statement runs
func goTarget(ev *Event) *ssa.Function {
	if g, ok := ev.Instr.(*ssa.Go); ok {
		return g.Call.StaticCallee()
	}
	return nil
}

func waitsFor(g *ssa.Function) bool {
	w, s := false, false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if isProcWait(calleeKey(ci)) {
					w = true
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					s = true
				}
			}
			if _, ok := in.(*ssa.Send); ok && w {
				s = true
			}
		}
	}
	return w && s
}

// isTimer is true for channels that deliver by themselves after some time
func isTimer(t *Term) bool {
	return t.Any(func(x *Term) bool {
		return x.Op == "call" && (strings.HasPrefix(x.CallName(), "time.") || strings.HasPrefix(x.CallName(), "(time.") || x.CallName() == "(context.Context).Done" || strings.HasPrefix(x.CallName(), "context.With"))
	})
}

func checkBounded(c *Ctx) {
	pkgs := map[*types.Package]bool{}
	for _, f := range c.P.Funcs {
		if callsAny(f, cmdStart, "os.StartProcess") {
			pkgs[pkgOf(f)] = true
		}
	}
	if len(pkgs) == 0 {
		c.Anchor("a function that starts a process")
		return
	}
	o := c.P.Origins()
	gone := map[*ssa.Function]bool{} // run in a goroutine of their own
	for _, f := range c.P.Funcs {
		for _, ci := range calls(f) {
			if g, ok := ci.(*ssa.Go); ok {
				if t := g.Call.StaticCallee(); t != nil {
					gone[t] = true
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if !pkgs[pkgOf(f)] || f.Synthetic != "" {
			continue
		}
		c.funcs[c.N(f)] = true
		cyc := cyclicBlocks(f)
		var timeouts map[ssa.Instruction]bool
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					if !in.Blocking {
						continue
					}
					c.Count("blocking selects", 1)
					c.Count("waits", 1)
					timed := false
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && timerChan(s.Chan) {
							timed = true
						}
					}
					c.Must(timed, "select-timeout", c.N(f), in.Pos(), nil, "%s waits for a plugin without a time limit", c.N(f))
				case *ssa.UnOp:
					if in.Op.String() == "<-" {
						c.Count("waits", 1)
						c.Must(timerChan(in.X), "bare-receive", c.N(f), in.Pos(), nil, "%s receives from a channel without a time limit", c.N(f))
					}
				case *ssa.Send:
					c.Count("sends", 1)
					ok := !cyc[b]
					for _, og := range o.Of(in.Chan) {
						mc, isMC := og.Site.(*ssa.MakeChan)
						if !isMC {
							ok = false
							continue
						}
						k, isK := mc.Size.(*ssa.Const)
						if !isK || k.Int64() < 1 {
							ok = false
						}
					}
					c.Must(ok, "buffered-send", c.N(f), in.Pos(), nil, "%s can block forever when it sends to a channel that nobody receives from", c.N(f))
				case ssa.CallInstruction:
					k := calleeKey(in)
					switch {
					case k == "net/http.Get" || k == "net/http.Post" || k == "net/http.Head" || k == "net/http.PostForm":
						c.Bad("http-timeout", c.N(f), in.Pos(), nil, "%s makes an HTTP request without a time limit", c.N(f))
					case strings.HasPrefix(k, "(net/http.Client).") && k != "(net/http.Client).CloseIdleConnections":
						c.Count("HTTP requests", 1)
						c.Count("waits", 1)
						if timeouts == nil {
							timeouts = c.clientTimeouts(f)
						}
						c.Must(timeouts[in] || c.givenTimeout(f, in, in, 0), "http-timeout", c.N(f), in.Pos(), nil, "%s makes an HTTP request without a time limit", c.N(f))
					}
				}
			}
		}
		hasGo := false
		for _, ci := range calls(f) {
			if g, ok := ci.(*ssa.Go); ok && g.Call.StaticCallee() != nil {
				hasGo = true
			}
		}
		if hasGo {
			for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return false }}) {
				adds := map[*Term]int64{}
				for _, ev := range p.Events {
					if ev.Kind == "call" && ev.Name == "(sync.WaitGroup).Add" {
						n, _ := ev.Args[len(ev.Args)-1].IntConst()
						adds[ev.Recv] += n
					}
					if ev.Kind != "go" {
						continue
					}
					t := goTarget(ev)
					if t == nil || !c.P.InRepo(t) {
						continue
					}
					wg, once := c.signsOff(t)
					if !wg {
						continue
					}
					c.Count("counted goroutines", 1)
					c.Must(once, "wait-group-done", c.N(t), t.Pos(), nil, "%s doesn't sign off exactly once on all exits", c.N(t))
					ok := false
					for w := range adds {
						if adds[w] > 0 {
							adds[w]--
							ok = true
							break
						}
					}
					c.Must(ok, "wait-group-add", c.N(f), ev.Pos, p, "%s starts %s without counting it first", c.N(f), c.N(t))
				}
			}
		}
		if gone[f] {
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
				last := -1
				for i, ev := range p.Events {
					if ev.Kind != "call" || !isRead(ev) {
						continue
					}
					c.Count("reads from a plugin", 1)
					if last >= 0 {
						// the previous read had no error
						fine := false
						for _, e2 := range p.Events[last:i] {
							if e2.Kind == "fact" && e2.Bool && e2.Val.Op == "eq" && (e2.Val.Args[0].IsNil() || e2.Val.Args[1].IsNil()) && e2.Val.Any(func(t *Term) bool { return t == p.Events[last].Res }) {
								fine = true
							}
						}
						c.Must(fine, "read-after-error", c.N(f), ev.Pos, p, "%s continues to read after an error", c.N(f))
					}
					last = i
				}
			}
		}
	}
	// waiting for processes
	roots, touch := c.staticRoots(func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if isProcWait(calleeKey(ci)) {
				return true
			}
		}
		return false
	})
	for _, f := range roots {
		if gone[f] {
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return touch[g] || pkgOf(g) == pkgOf(f) && callsAny(g, procKill) },
			MayPanic: func(ev *Event) bool { return !neverPanics(ev) }}) {
			kill := false
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Name == procKill {
					kill = true
				}
				if ev.Kind == "call" && isProcWait(ev.Name) {
					c.Count("waits for a process", 1)
					c.Must(kill, "wait-for-live", c.N(f), ev.Pos, p, "%s waits for a process that it hasn't killed", c.N(f))
				}
			}
		}
	}
	c.Min("waits", 2)
	c.Min("HTTP requests", 1)
	c.Min("reads from a plugin", 1)
}

func isRead(ev *Event) bool {
	switch ev.Name {
	case "(io.Reader).Read", "(bufio.Reader).ReadLine", "(bufio.Reader).Read", "(bufio.Reader).ReadBytes", "(bufio.Reader).ReadString", "(io.ReadCloser).Read":
		return true
	}
	return false
}

func cyclicBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		var visit func(x *ssa.BasicBlock) bool
		visit = func(x *ssa.BasicBlock) bool {
			for _, s := range x.Succs {
				if s == b {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if visit(s) {
						return true
					}
				}
			}
			return false
		}
		if visit(b) {
			m[b] = true
		}
	}
	return m
}

// timerChan is true for channels that deliver by themselves after a constant positive time, or when a context ends
func timerChan(v ssa.Value) bool {
	switch x := stripConv(v).(type) {
	case *ssa.Call:
		k := calleeKey(x)
		if k == "time.After" || k == "time.Tick" {
			return positive(x.Call.Args[0])
		}
		return k == "(context.Context).Done"
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if call, ok := a.X.(*ssa.Call); ok && strings.HasPrefix(calleeKey(call), "time.New") {
				return positive(call.Call.Args[0])
			}
		case *ssa.Alloc:
			n, ok := 0, true
			for _, r := range *a.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == a {
					n++
					ok = ok && timerChan(st.Val)
				}
			}
			return ok && n > 0
		}
	case *ssa.Parameter:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !timerChan(e) {
				return false
			}
		}
		return true
	}
	return false
}

// positive is false for a duration that is known not to be positive
func positive(v ssa.Value) bool {
	if k, ok := stripConv(v).(*ssa.Const); ok {
		return k.Value != nil && k.Int64() > 0
	}
	return true
}

// clientTimeouts finds, for each HTTP call of a function, if its client has a timeout on all paths
func (c *Ctx) clientTimeouts(f *ssa.Function) map[ssa.Instruction]bool {
	m := map[ssa.Instruction]bool{}
	isCall := func(ev *Event) bool {
		return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(net/http.Client).") && ev.Recv != nil
	}
	timeout := func(st *State, t *Term) *Term {
		for _, v := range fieldsOf(t.Type) {
			if v.Name() == "Timeout" {
				return st.load(st.faddr(t, v), v.Type())
			}
		}
		return nil
	}
	pol := &Policy{Inline: samePkg(f), Snap: func(st *State, ev *Event) map[string]*Term {
		if strings.HasPrefix(ev.Name, "(net/http.Client).") && ev.Recv != nil {
			return map[string]*Term{"timeout": timeout(st, ev.Recv)}
		}
		return nil
	}}
	for _, p := range c.Run(f, pol) {
		for _, ev := range p.Events {
			if !isCall(ev) {
				continue
			}
			v := ev.Snap["timeout"]
			ok := false
			if i, isC := v.IntConst(); isC {
				ok = i > 0
			} else if v != nil && v.Op != "init" {
				ok = true
			} else if g := root(ev.Recv); g != nil && g.Op == "global" || ev.Recv.Any(func(t *Term) bool { return t.Op == "global" }) {
				ok = c.globalTimeout()
			}
			if was, seen := m[ev.Instr]; seen {
				ok = ok && was
			}
			m[ev.Instr] = ok
		}
	}
	return m
}

// givenTimeout is true if all that call a function give it a client that has a time limit when it makes the request
func (c *Ctx) givenTimeout(f *ssa.Function, in, req ssa.CallInstruction, d int) bool {
	args := req.Common().Args
	if d > 3 || f.Parent() != nil || len(args) == 0 && d == 0 {
		return false
	}
	if d == 0 {
		given := false
		for _, a := range f.Params {
			given = given || derivedFrom(args[0], func(v ssa.Value) bool { return v == a })
		}
		if !given {
			return false
		}
	}
	n := 0
	for _, g := range c.P.Funcs {
		if g.Synthetic != "" {
			continue
		}
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				ci, isCall := x.(ssa.CallInstruction)
				if isCall && ci.Common().StaticCallee() == f {
					n++
					top := outer(g)
					if !c.clientTimeouts(top)[in] && !c.givenTimeout(top, in, req, d+1) {
						return false
					}
					continue
				}
				for _, op := range x.Operands(nil) {
					if *op == f {
						return false // can be called from anywhere
					}
				}
			}
		}
	}
	return n > 0
}

// globalTimeout is true if clients held by package variables get a timeout
func (c *Ctx) globalTimeout() bool {
	ok := false
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, is := in.(*ssa.FieldAddr); is && isNamed(fa.X.Type(), "net/http", "Client") && fieldVar(fa.X.Type(), fa.Field).Name() == "Timeout" {
					for _, r := range *fa.Referrers() {
						if st, is := r.(*ssa.Store); is && st.Addr == fa {
							if !positive(st.Val) {
								return false
							}
							ok = true
						}
					}
				}
			}
		}
	}
	return ok
}

// signsOff tells if a function signs off from a wait group, and if it does so exactly once on all exits.
func (c *Ctx) signsOff(f *ssa.Function) (any, once bool) {
	touch := c.P.touches(func(g *ssa.Function) bool { return callsAny(g, "(sync.WaitGroup).Done") })
	if !touch[f] {
		return false, false
	}
	once = true
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f), MayPanic: func(ev *Event) bool { return !neverPanics(ev) }}) {
		if p.Exit == "cut" {
			continue
		}
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "(sync.WaitGroup).Done" {
				n++
			}
		}
		if n != 1 {
			once = false
		}
	}
	return true, once
}
