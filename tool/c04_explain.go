package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C04", Technique: "push/pop typestate over all paths including panics (path-sensitive dataflow on SSA)",
		Explain: "Every function outside the explainer that pushes a node is explored path by path with panicking producers: pushes and pops must balance on every exit, a pop may never precede its push, and the producer must run between them. Every push method of the explainer must make a fresh node whose parent is the previous current node, attach it exactly once to that node and make it current; pop must restore the parent.",
		Check:   checkExplainBalance})
	register(&Rule{ID: "C05", Technique: "path-set comparison of explain and non-explain executions (non-interference on SSA paths)",
		Explain: "For every function whose control flow depends on the presence or mode of an explainer, the sets of observable event sequences (calls, stores, results; explainer calls and explainer fields removed) of the paths with and without an explainer must be equal. The explainer is only used where it is known to be present. Every method that runs a producer on behalf of the explainer calls it exactly once and returns its result unchanged.",
		Check:   checkTransparency})
}

func (c *Ctx) isExplainerPush(m *types.Func) bool {
	return m != nil && strings.HasPrefix(m.Name(), "Push") && c.isAPIMethod(m, "Explainer", m.Name())
}

func (c *Ctx) explainPkg() *types.Package {
	for _, t := range c.P.Implementers(c.P.Iface("api", "Explainer")) {
		if n := namedOf(t); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func methodOfCall(ci ssa.CallInstruction) *types.Func {
	if ci.Common().IsInvoke() {
		return ci.Common().Method
	}
	if f := ci.Common().StaticCallee(); f != nil {
		o, _ := f.Object().(*types.Func)
		return o
	}
	return nil
}

// boundMethods returns the methods referenced as method values in a function.
func boundMethods(f *ssa.Function) []*types.Func {
	var ms []*types.Func
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g.Synthetic != "" && (strings.HasSuffix(g.Name(), "$bound") || strings.HasSuffix(g.Name(), "$thunk")) {
					if o, ok := g.Object().(*types.Func); ok {
						ms = append(ms, o)
					}
				}
			}
		}
	}
	return ms
}

func checkExplainBalance(c *Ctx) {
	if c.P.Iface("api", "Explainer") == nil {
		c.Anchor("interface api.Explainer")
		return
	}
	expk := c.explainPkg()
	touch := c.P.touches(func(f *ssa.Function) bool {
		if pkgOf(f) == expk {
			return false
		}
		for _, ci := range calls(f) {
			if m := methodOfCall(ci); m != nil && (c.isExplainerPush(m) || c.isAPIMethod(m, "Explainer", "Pop")) {
				return true
			}
		}
		for _, m := range boundMethods(f) {
			if c.isExplainerPush(m) || c.isAPIMethod(m, "Explainer", "Pop") {
				return true
			}
		}
		return false
	})
	isInvM := func(f *ssa.Function) bool {
		o, ok := f.Object().(*types.Func)
		return ok && o.Exported() && c.isAPIMethod(o, "Invocation")
	}
	for _, f := range c.P.topFuncs() {
		if !touch[f] || pkgOf(f) == expk {
			continue
		}
		// helpers are judged as part of the methods that use them
		if !isInvM(f) {
			if !f.Object().Exported() {
				c.Count("helpers judged in their callers", 1)
				continue
			}
		}
		direct := false
		pol := &Policy{Inline: func(g *ssa.Function) bool {
			return pkgOf(g) == pkgOf(f) && (g.Parent() != nil || touch[g] && !isInvM(g) || c.piece(g))
		},
			MayPanic: func(ev *Event) bool {
				if neverPanics(ev) || c.isAPI(ev, "Explainer") {
					return false
				}
				return true
			}}
		bad := false
		for _, p := range c.Run(f, pol) {
			if p.Exit == "cut" || p.Exit == "exit" {
				continue
			}
			depth := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && ev.Method != nil && !strings.HasPrefix(ev.Name, "(sync") {
					if c.isExplainerPush(ev.Method) {
						depth++
						direct = true
					}
					if c.isAPIMethod(ev.Method, "Explainer", "Pop") && c.isAPI(ev, "Explainer", "Pop") {
						depth--
						direct = true
						if depth < 0 {
							c.Bad("pop-without-push", c.N(f)+" pops what it didn't push", ev.Pos, p, "%s pops an explanation node that it hasn't pushed on this path", c.N(f))
							bad = true
						}
					}
				}
				if ev.Kind == "call" && ev.IsFn && ev.Callee.Op == "param" {
					if depth == 0 {
						// must be a path where there's no explainer
						pushesLater := false
						for _, e2 := range p.Events {
							if e2.Kind == "call" && c.isExplainerPush(e2.Method) {
								pushesLater = true
							}
						}
						if pushesLater {
							c.Bad("producer-outside", c.N(f)+" calls producer outside its node", ev.Pos, p, "the producer is called when the pushed explanation node isn't current")
							bad = true
						}
					}
				}
			}
			if depth != 0 {
				c.Bad("push-pop-balance", c.N(f)+" unbalanced on "+p.Exit, f.Pos(), p, "%s leaves the explanation stack with %d extra nodes when it ends with a %s", c.N(f), depth, p.Exit)
				bad = true
			}
		}
		if direct {
			c.Count("functions that push explanation nodes", 1)
		}
		if !bad {
			c.Good("balanced: %s", c.N(f))
		}
	}
	c.Min("functions that push explanation nodes", 9)

	// the explainer's own stack discipline
	for _, t := range c.P.Implementers(c.P.Iface("api", "Explainer")) {
		it := c.P.Iface("api", "Explainer")
		var curr *types.Var
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() != "Pop" {
				continue
			}
			f := c.P.MethodOf(t, m)
			n := 0
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
				var st []*Event
				for _, ev := range p.Events {
					if ev.Kind == "store" && root(ev.Addr).Op == "param" {
						st = append(st, ev)
					}
				}
				if len(st) == 0 {
					// permitted only when there is nothing to pop
					c.Must(p.Exit != "return" || factNilOnRecv(p), "pop", c.N(f)+" doesn't pop", f.Pos(), p, "%s returns without restoring the parent node", c.N(f))
					continue
				}
				n++
				ev := st[len(st)-1]
				v := FieldOf(ev.Addr)
				if curr == nil {
					curr = v
				}
				// value is the content of a field of the node that was current
				ok := len(st) == 1 && ev.Val.Op == "init" && ev.Val.Args[0].Op == "faddr" && baseIs(ev.Val.Args[0].Args[0], func(b *Term) bool {
					return b.Op == "init" && b.Args[0] == ev.Addr
				})
				c.Must(ok, "pop", c.N(f)+" restores wrong node", ev.Pos, p, "%s must make the parent of the current node current, but it stores %v", c.N(f), ev.Val)
			}
			c.Count("pop paths", n)
		}
		c.Min("pop paths", 1)
		if curr == nil {
			c.Anchor("the current node of the explainer")
			return
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if !strings.HasPrefix(m.Name(), "Push") {
				continue
			}
			f := c.P.MethodOf(t, m)
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
				if p.Exit != "return" {
					continue
				}
				c.Count("push methods", 1)
				var node, old *Term
				nst, nparent, nappend := 0, 0, 0
				for _, ev := range p.Events {
					if ev.Kind == "store" && FieldOf(ev.Addr) == curr {
						nst++
						node = ev.Val
						old = c.E.T.mk("init", "0", curr.Type(), ev.Addr)
					}
				}
				for _, ev := range p.Events {
					if ev.Kind == "store" && node != nil && root(ev.Addr) == node && ev.Addr != node && sameCell(ev.Val, old) {
						nparent++
					}
					if ev.Kind == "append" && node != nil && len(ev.Args) == 1 && ev.Args[0] == node {
						if r := ev.Recv; r.Op == "init" && baseIs(r.Args[0], func(b *Term) bool { return sameCell(b, old) }) {
							nappend++
						}
					}
				}
				ok := nst == 1 && node != nil && node.Op == "alloc" && nparent >= 1 && nappend == 1
				c.Must(ok, "push", c.N(f), f.Pos(), p, "%s must create a fresh node whose parent is the current node (found %d), attach it once to the current node (found %d) and make it current (found %d)", c.N(f), nparent, nappend, nst)
			}
		}
		c.Min("push methods", 9)
	}
}

// factNilOnRecv is true if the path established that something is nil
func factNilOnRecv(p *Path) bool {
	for _, ev := range p.Events {
		if ev.Kind == "fact" && ev.Val.Op == "eq" && ev.Bool && (ev.Val.Args[0].IsNil() || ev.Val.Args[1].IsNil()) {
			return true
		}
	}
	return false
}

// sameCell is true if two loads read the same address
func sameCell(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	return a == b || a.Op == "init" && b.Op == "init" && a.Args[0] == b.Args[0]
}

// baseIs strips field selections of an address and applies pred to what it finds
func baseIs(a *Term, pred func(*Term) bool) bool {
	for a != nil {
		if pred(a) {
			return true
		}
		if a.Op == "faddr" {
			a = a.Args[0]
			continue
		}
		return false
	}
	return false
}

// ---- C05

// explainTerm is true for terms that depend on the explainer of an invocation
func (c *Ctx) explainTerm(t *Term) bool {
	et := c.P.Named("api", "Explainer")
	return t.Any(func(x *Term) bool {
		if x.Type != nil && et != nil && types.Identical(x.Type, et) {
			return true
		}
		if x.Op == "call" && x.Ev != nil && x.Ev.Method != nil {
			return c.isAPI(x.Ev, "Explainer") && !isStdMethod(x.Ev.Method) || x.Ev.Method.Name() == "ExplainMode"
		}
		if x.Op == "init" || x.Op == "field" {
			v := FieldOf(x)
			if x.Op == "init" {
				v = FieldOf(x.Args[0])
			}
			if v != nil && et != nil && types.Identical(v.Type(), et) {
				return true
			}
		}
		return false
	})
}

// isStdMethod is true for methods that explainers share with all values
func isStdMethod(m *types.Func) bool {
	switch m.Name() {
	case "Type", "Equals", "HashCode", "String", "AppendTo":
		return true
	}
	return false
}

// describe renders a value for comparison between paths: allocations are described by their content.
func (c *Ctx) describe(p *Path, t *Term, d int) string {
	if t == nil {
		return "-"
	}
	if d > 8 {
		return "…"
	}
	switch t.Op {
	case "alloc":
		pt, ok := t.Type.Underlying().(*types.Pointer)
		if !ok {
			return "alloc"
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			if v, has := p.St.heap[t]; has && v != nil {
				return "&{" + c.describe(p, v, d+1) + "}"
			}
			return "alloc " + types.TypeString(pt.Elem(), nil)
		}
		// a copy of something with some fields changed?
		var src *Term
		var diff []string
		et := c.P.Named("api", "Explainer")
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := p.St.heap[p.St.faddr(t, f)]
			if v != nil && v.Op == "init" && v.Args[0].Op == "faddr" && FieldOf(v.Args[0]) == f {
				if src == nil {
					src = v.Args[0].Args[0]
				}
				if src == v.Args[0].Args[0] {
					continue
				}
			}
			if et != nil && types.Identical(f.Type(), et) {
				continue
			}
			diff = append(diff, f.Name()+":"+c.describe(p, v, d+1))
		}
		if src != nil && len(diff) == 0 {
			return c.describe(p, src, d+1)
		}
		sn := ""
		if src != nil {
			sn = "copy of " + c.describe(p, src, d+1)
		}
		return "&" + types.TypeString(pt.Elem(), nil) + "{" + sn + strings.Join(diff, ",") + "}"
	case "closure":
		var as []string
		for _, a := range t.Args {
			as = append(as, c.describe(p, a, d+1))
		}
		return "closure " + t.Fn.Name() + "(" + strings.Join(as, ",") + ")"
	case "init":
		return "*" + c.describe(p, t.Args[0], d+1)
	case "changed":
		return "changed " + c.describe(p, t.Args[0], d+1)
	case "faddr":
		return c.describe(p, t.Args[0], d+1) + "." + FieldOf(t).Name()
	case "const", "nil", "func", "param", "free", "global":
		return t.String()
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, c.describe(p, a, d+1))
	}
	n := t.Op
	if t.Op == "call" {
		n = "call " + t.CallName()
	} else if i := strings.IndexAny(t.Aux, "#@"); i < 0 {
		n += ":" + t.Aux
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// observable renders the events of a path that can be observed when the explanation is disregarded.
func (c *Ctx) observable(p *Path) string {
	et := c.P.Named("api", "Explainer")
	var out []string
	forExplainer := map[*Term]bool{}
	for _, ev := range p.Events {
		if ev.Kind == "call" && c.isAPI(ev, "Explainer") {
			for _, a := range ev.Args {
				forExplainer[a] = true
			}
		}
	}
	for _, ev := range p.Events {
		switch ev.Kind {
		case "call", "go", "send", "mapupdate", "append", "mapdelete", "panic":
		case "store":
			if p.St.local(ev.Addr) || root(ev.Addr).Op == "alloc" {
				continue
			}
			if v := FieldOf(ev.Addr); v != nil && et != nil && types.Identical(v.Type(), et) {
				continue
			}
		default:
			continue
		}
		if ev.Kind == "call" && (c.isAPI(ev, "Explainer") && !isStdMethod(ev.Method) || isPure(ev.Name) || ev.Method != nil && ev.Method.Name() == "ExplainMode") {
			continue
		}
		if ev.Kind == "call" && ev.Res != nil && forExplainer[ev.Res] {
			continue
		}
		s := ev.Kind + " " + ev.Name
		if ev.IsFn {
			s += c.describe(p, ev.Callee, 0)
		}
		if ev.Recv != nil {
			s += " on " + c.describe(p, ev.Recv, 0)
		}
		if ev.Addr != nil {
			s += " at " + c.describe(p, ev.Addr, 0)
		}
		if ev.Kind != "mapupdate" && ev.Val != nil {
			s += " val " + c.describe(p, ev.Val, 0)
		}
		for _, a := range ev.Args {
			s += ", " + c.describe(p, a, 0)
		}
		if ev.Panics {
			s += " PANICS"
		}
		out = append(out, s)
	}
	out = append(out, p.Exit+" "+c.describe(p, p.Res, 0))
	return strings.Join(out, "\n")
}

func checkTransparency(c *Ctx) {
	expk := c.explainPkg()
	et := c.P.Named("api", "Explainer")
	if et == nil || expk == nil {
		c.Anchor("api.Explainer and its implementation")
		return
	}
	reads := func(f *ssa.Function) bool {
		for _, pr := range f.Params {
			if types.Identical(pr.Type(), et) {
				return true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && v.Type() != nil && types.Identical(v.Type(), et) {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if m := methodOfCall(ci); m != nil && m.Name() == "ExplainMode" && c.isAPIMethod(m, "Invocation", "ExplainMode") {
						return true
					}
				}
			}
		}
		return false
	}
	touch := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if pkgOf(f) != expk && reads(f) {
			touch[outer(f)] = true
		}
	}
	c.withPieces(touch)
	lookupPkg := c.P.Pkg("hiera")
	for _, f := range c.P.topFuncs() {
		if !touch[f] || pkgOf(f) == expk || pkgOf(f) == lookupPkg {
			continue
		}
		// pieces are judged as part of the function that uses them
		if c.piece(f) {
			continue
		}
		paths := c.Run(f, &Policy{
			Inline: func(g *ssa.Function) bool {
				return pkgOf(g) == pkgOf(f) && (g.Parent() != nil || touch[g] || c.piece(g))
			},
			StableField: func(v *types.Var) bool { return types.Identical(v.Type(), et) },
			MayPanic: func(ev *Event) bool {
				if !ev.IsFn {
					return false
				}
				// text producers are part of the explanation
				sg, ok := ev.Callee.Type.Underlying().(*types.Signature)
				return !(ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]))
			},
		})
		with, without := map[string]*Path{}, map[string]*Path{}
		dep := false
		for _, p := range paths {
			if p.Exit == "cut" {
				continue
			}
			w, wo := false, false
			for i, ev := range p.Events {
				if ev.Kind == "call" && ev.Method != nil && ev.Recv != nil && ev.Recv.Type != nil && types.Identical(ev.Recv.Type, et) && !ev.Panics && ev.Recv.Op != "param" {
					c.Count("uses of the explainer", 1)
					isNil, known := nilFact(p.FactsBefore(i), ev.Recv)
					c.Must(known && !isNil, "explainer-present", c.N(ev.In)+" "+ev.Method.Name(), ev.Pos, p, "%s of the explainer is called where there may be no explainer: a lookup without an explanation fails", ev.Method.Name())
				}
				if ev.Kind == "fact" && c.explainTerm(ev.Val) {
					dep = true
					if ev.Val.Op == "eq" && (ev.Val.Args[0].IsNil() || ev.Val.Args[1].IsNil()) && ev.Bool {
						wo = true
					} else if ev.Val.Op == "call" && !ev.Bool && ev.Val.Ev != nil && ev.Val.Ev.Method != nil && ev.Val.Ev.Method.Name() == "ExplainMode" {
						wo = true
					} else {
						w = true
					}
				}
			}
			o := c.observable(p)
			if wo {
				without[o] = p
			} else if w {
				with[o] = p
			} else {
				with[o], without[o] = p, p
			}
		}
		if !dep {
			continue
		}
		c.Count("functions that depend on the explainer", 1)
		cmp := func(a, b map[string]*Path, what string) {
			var ks []string
			for k := range a {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if _, ok := b[k]; !ok {
					var o string
					for x := range b {
						o = x
					}
					c.Bad("explain-transparency", fmt.Sprintf("%s %s", c.N(f), what), f.Pos(), a[k], "%s behaves differently %s an explainer: [%s] has no counterpart (compare [%s])", c.N(f), what, strings.ReplaceAll(k, "\n", "; "), strings.ReplaceAll(o, "\n", "; "))
					return
				}
			}
			c.Good("%s is the same %s an explainer", c.N(f), what)
		}
		cmp(with, without, "with")
		cmp(without, with, "without")
	}
	c.Min("functions that depend on the explainer", 15)
	c.Min("uses of the explainer", 15)

	// the methods that run a producer
	inv := c.P.Iface("api", "Invocation")
	for _, t := range c.P.Implementers(inv) {
		for i := 0; i < inv.NumMethods(); i++ {
			m := inv.Method(i)
			if !strings.HasPrefix(m.Name(), "With") && m.Name() != "DoRedacted" && m.Name() != "DoWithScope" {
				continue
			}
			f := c.P.MethodOf(t, m)
			if f == nil || f.Synthetic != "" {
				continue
			}
			fp := -1
			for k, pr := range f.Params {
				if _, ok := pr.Type().Underlying().(*types.Signature); ok {
					fp = k
				}
			}
			if fp < 0 {
				continue
			}
			c.Count("producer methods", 1)
			for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
				if p.Exit != "return" && p.Exit != "cut" {
					continue
				}
				n := 0
				var res *Term
				for _, ev := range p.Events {
					if ev.Kind == "call" && ev.IsFn && ev.Callee.Op == "param" && ev.Callee.Val == f.Params[fp] {
						n++
						res = ev.Res
					}
				}
				ok := n == 1 && (f.Signature.Results().Len() == 0 || p.Res == res)
				c.Must(ok, "producer-once", c.N(f), f.Pos(), p, "%s must call its function exactly once and return its result, but calls it %d times and returns %v", c.N(f), n, p.Res)
			}
		}
	}
	c.Min("producer methods", 11)
}
