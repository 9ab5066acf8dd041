package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C20", Technique: "error flow over all paths (path-sensitive dataflow on SSA)",
		Explain: "On all paths after a call of a function of another module or of the standard library that returns an error, the error must be returned, sent, handed to a panic or logged, or the path must know that there is none. A path that knows that there is an error must end in a panic, in an exit, or in a result that is an error; the exceptions (a file that doesn't exist, the end of a stream, text that isn't a number, the end of a process) are listed per callee.",
		Check:   checkErrors})
}

// what may be ignored: by callee
var ignorableErrors = map[string]string{
	"(os.Process).Kill":               "the process has ended",
	"(os.Process).Wait":               "the process has ended",
	"(os.Process).Signal":             "the process has ended",
	"(io.Closer).Close":               "all has been read",
	"(io.ReadCloser).Close":           "all has been read",
	"(os.File).Close":                 "all has been read",
	"(io.Writer).Write":               "the reader is gone",
	"(net/http.ResponseWriter).Write": "the client is gone",
	"fmt.Fprintln":                    "the message cannot be shown", "fmt.Fprintf": "the message cannot be shown", "fmt.Fprint": "the message cannot be shown",
	"(bytes.Buffer).Write": "", "(bytes.Buffer).WriteString": "", "(bytes.Buffer).WriteByte": "", "(bytes.Buffer).WriteRune": "",
	"(strings.Builder).Write": "", "(strings.Builder).WriteString": "", "(strings.Builder).WriteByte": "", "(strings.Builder).WriteRune": "",
	"github.com/bmatcuk/doublestar.Glob": "a malformed pattern matches nothing",
}

// what may be handled by another outcome: by callee
var handledErrors = map[string]bool{
	"os.Stat": true, "os.Lstat": false,
	"strconv.ParseInt": true, "strconv.Atoi": true, "strconv.ParseFloat": true, "strconv.ParseBool": true, "strconv.ParseUint": true,
	"(bufio.Reader).ReadLine": true, "(io.Reader).Read": true,
	"(os.Process).Signal": true,
}

func checkErrors(c *Ctx) {
	errT := types.Universe.Lookup("error").Type()
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || len(f.Blocks) == 0 || inPlace(f) {
			continue
		}
		var has bool
		for _, g := range append(closuresOf(f), f) {
			if g != f && !inPlace(g) {
				continue
			}
			for _, ci := range calls(g) {
				s := ci.Common().Signature()
				if r := s.Results(); r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), errT) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		c.errorsOf(f, errT)
	}
	for _, f := range c.P.Funcs {
		if f.Synthetic == "" && c.recovers(f) {
			c.panicsOf(f)
		}
	}
	// a panic with nil is not seen by those that recover
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pn, ok := in.(*ssa.Panic); ok {
					c.Count("reasons of panics", 1)
					c.Must(!mayBeNil(pn.X, 0), "panic-nil", c.N(f), pn.Pos(), nil, "%s panics without a reason, which those that recover take for success", c.N(f))
				}
			}
		}
	}
	c.Min("reasons of panics", 40)
	c.Min("calls that can fail", 25)
	c.Min("failures", 20)
	c.Min("panics that are recovered", 2)
}

func (c *Ctx) errorsOf(f *ssa.Function, errT types.Type) {
	n := c.N(f)
	sites := map[ssa.Instruction]bool{}
	pol := &Policy{Inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && (g.Parent() == nil && c.small(g) || inPlace(g)) }, NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string { return "once" }}
	if _, err := c.E.Run(f, pol); err != nil {
		// too many paths: those through its helpers are seen when these are examined themselves
		pol = &Policy{Inline: inlineNone, NoHavoc: pol.NoHavoc, Sync: pol.Sync}
	}
	for _, p := range c.Run(f, pol) {
		if p.Exit == "cut" {
			continue
		}
		for i, ev := range p.Events {
			if (ev.Kind != "call" && ev.Kind != "defer") || ev.Res == nil {
				continue
			}
			var e *Term
			switch t := ev.Res.Type.(type) {
			case *types.Tuple:
				if t.Len() > 0 && types.Identical(t.At(t.Len()-1).Type(), errT) {
					e = c.extOf(p, ev.Res, t.Len()-1)
				} else {
					continue
				}
			default:
				if ev.Res.Type == nil || !types.Identical(ev.Res.Type, errT) || makesError(ev.Name) {
					continue
				}
				e = ev.Res
			}
			if ev.Instr != nil && !sites[ev.Instr] {
				sites[ev.Instr] = true
				c.Count("calls that can fail", 1)
			}
			_ = i
			if e != nil {
				for k, v := range p.Events[i+1:] {
					if v.Kind == "panic" && v.Name == "" && v.Val != nil && stripTyped(v.Val) == e {
						none, known := nilFact(p.FactsBefore(i+1+k), e)
						c.Must(!known || !none, "no-failure", n+"/"+ev.Name, ev.Pos, p, "%s panics when there is no error of %s", n, ev.Name)
					}
				}
			}
			if _, ok := ignorableErrors[ev.Name]; ok {
				continue
			}
			if strings.Contains(ev.Name, "golang.org/x/sys/windows") {
				// probing of the console and the registry: the default is taken when it fails
				continue
			}
			bad := func(rule, what string) { c.Bad(rule, n+"/"+ev.Name, ev.Pos, p, "%s %s %s", n, what, ev.Name) }
			isE := func(x *Term) bool { return e != nil && x == e }
			var none, known bool
			if e != nil {
				none, known = nilFact(p.FactsBefore(len(p.Events)), e)
			}
			used := false
			for _, v := range p.Events[i+1:] {
				if v == ev {
					continue
				}
				switch v.Kind {
				case "call", "send", "store", "panic", "return", "go", "defer", "append", "mapupdate":
					for _, a := range append(append([]*Term{v.Val}, v.Args...), v.Recv) {
						if a != nil && v.Kind != "fact" && a.Any(isE) {
							used = true
						}
					}
				}
			}
			if p.Res != nil && p.Res.Any(isE) {
				used = true
			}
			if !known {
				none, known = loopError(p, ev)
			}
			if !known {
				if p.Exit == "panic" || used || isResponse(ev) {
					continue
				}
				bad("ignored", "ignores an error of")
				continue
			}
			if none {
				continue
			}
			c.Count("failures", 1)
			if p.Exit == "panic" || handledErrors[ev.Name] {
				continue
			}
			exits := false
			for _, v := range p.Events[i:] {
				if v.Kind == "call" && (v.Name == "os.Exit" || v.Name == "(os.Process).Kill" || strings.Contains(v.Name, ".Fatal")) {
					exits = true
				}
				if v.Kind == "send" && v.Val != nil && v.Val.Any(isE) || v.Kind == "send" && argMatches(v, isE) {
					exits = true
				}
			}
			if exits {
				continue
			}
			// doesn't exist
			missing := false
			for t, v := range p.FactsBefore(len(p.Events)) {
				if v && t.Op == "call" && (t.CallName() == "os.IsNotExist" || t.CallName() == "errors.Is") && t.Args[0] == e {
					missing = true
				}
				if v && t.Op == "eq" && (t.Args[0] == e || t.Args[1] == e) {
					missing = true // a certain error
				}
			}
			if missing {
				continue
			}
			if p.returnsError(f, errT) || c.returnsStatus(p, f) {
				continue
			}
			// replaced by another outcome: the fallback of ending a process
			bad("lost", "goes on after an error of")
		}
	}
}

// returnsStatus is true if a path returns a status other than zero, which all callers end the program with
func (c *Ctx) returnsStatus(p *Path, f *ssa.Function) bool {
	if p.Exit != "return" || p.Res == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	if i, ok := p.Res.IntConst(); !ok || i == 0 {
		return false
	}
	n := 0
	for _, g := range c.P.Funcs {
		for _, ci := range calls(g) {
			if ci.Common().StaticCallee() != f {
				continue
			}
			call, ok := ci.(*ssa.Call)
			if !ok || call.Referrers() == nil {
				return false
			}
			ends := false
			for _, r := range *call.Referrers() {
				if e, ok := r.(ssa.CallInstruction); ok && calleeKey(e) == "os.Exit" {
					ends = true
				}
			}
			if !ends {
				return false
			}
			n++
		}
	}
	return n > 0
}

// loopError tells if an error that is kept in a variable of a loop is nil when the loop is left
func loopError(p *Path, ev *Event) (none, known bool) {
	call, ok := ev.Instr.(*ssa.Call)
	if !ok || call.Referrers() == nil {
		return false, false
	}
	vals := map[ssa.Value]bool{call: true}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && isErrorType(x.Type()) {
			vals[x] = true
		}
	}
	for t, b := range p.FactsBefore(len(p.Events)) {
		if t.Op != "eq" {
			continue
		}
		for i, a := range t.Args {
			if phi, ok := a.Val.(*ssa.Phi); ok && a.Op == "loopvar" && t.Args[1-i].IsNil() {
				for _, e := range phi.Edges {
					if vals[e] {
						return b, true
					}
				}
			}
		}
	}
	return false, false
}

// isResponse is true for a call that does nothing but write a response: when it fails, there is nobody left to tell
func isResponse(ev *Event) bool {
	switch ev.Name {
	case "(bytes.Buffer).WriteTo", "io.Copy", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
	default:
		return false
	}
	for _, a := range ev.Args {
		if a != nil && isNamed(a.Type, "net/http", "ResponseWriter") {
			return true
		}
		if a != nil && a.Any(func(x *Term) bool { return x.Op == "param" && isNamed(x.Type, "net/http", "ResponseWriter") }) && (ev.Name == "(bytes.Buffer).WriteTo" || a == ev.Args[0]) {
			return true
		}
	}
	return false
}

// recovers is true for a function that defers one that recovers
func (c *Ctx) recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				g, _ = mc.Fn.(*ssa.Function)
			}
			if g == nil {
				continue
			}
			for _, ci := range calls(g) {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// panicsOf checks that a panic that is recovered isn't forgotten
func (c *Ctx) panicsOf(f *ssa.Function) {
	n := c.N(f)
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && g.Parent() != nil }, MayPanic: func(ev *Event) bool { return true }, NoHavoc: func(ev *Event) bool { return true }}) {
		for i, ev := range p.Events {
			if ev.Kind != "recover" || p.Exit == "cut" {
				continue
			}
			c.Count("panics that are recovered", 1)
			pv := ev.Val
			used := p.Exit == "panic"
			for _, v := range p.Events[i+1:] {
				switch v.Kind {
				case "call", "store", "send", "mapupdate":
					used = used || argMatches(v, func(x *Term) bool { return x == pv })
				}
			}
			c.Must(used, "panic", n+"/recover", ev.Pos, p, "%s recovers from a panic and forgets it", n)
		}
	}
}

func argMatches(ev *Event, pred func(*Term) bool) bool {
	for _, a := range append(append([]*Term{}, ev.Args...), ev.Recv, ev.Val) {
		if a != nil && a.Any(pred) {
			return true
		}
	}
	return false
}

// makesError is true for functions that make errors
func makesError(name string) bool {
	return strings.HasSuffix(name, "fmt.Errorf") || strings.HasSuffix(name, "errors.New") || strings.HasSuffix(name, "errors.Unwrap")
}

// extOf finds the term of an element of a tuple
func (c *Ctx) extOf(p *Path, tuple *Term, n int) *Term {
	var e *Term
	find := func(t *Term) {
		if t == nil || e != nil {
			return
		}
		t.Any(func(x *Term) bool {
			if x.Op == "ext" && x.Args[0] == tuple && x.Aux == itoa(n) {
				e = x
			}
			return e != nil
		})
	}
	for _, ev := range p.Events {
		find(ev.Val)
		find(ev.Recv)
		find(ev.Addr)
		for _, a := range ev.Args {
			find(a)
		}
	}
	find(p.Res)
	return e
}

func itoa(n int) string { return string(rune('0' + n)) }

// returnsError is true when a path returns an error that isn't nil
func (p *Path) returnsError(f *ssa.Function, errT types.Type) bool {
	r := f.Signature.Results()
	if p.Exit != "return" || p.Res == nil {
		return false
	}
	for i := 0; i < r.Len(); i++ {
		if !types.Identical(r.At(i).Type(), errT) {
			continue
		}
		t := p.Res
		if r.Len() > 1 {
			if t.Op != "tuple" && len(t.Args) <= i {
				return true
			}
			t = t.Args[i]
		}
		if v, k := nilFact(p.FactsBefore(len(p.Events)), t); k {
			return !v
		}
		return !t.IsNil()
	}
	return false
}

// mayBeNil tests if a value is the constant nil
func mayBeNil(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.ChangeInterface:
		return mayBeNil(x.X, d+1)
	case *ssa.Call:
		// a function that makes the reason
		g := x.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !mayBeNil(r.Results[0], d+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}
