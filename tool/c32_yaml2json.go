package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C32", Technique: "provenance of the output and handling of errors on all paths, exhaustiveness of a recursive conversion (path-sensitive dataflow on SSA)",
		Explain: "On each path on which yaml2json ends normally, what is written to standard output is the JSON encoding of the converted document read from standard input and no call on the way is known to have failed; all other paths end with a failure. The conversion has a case for each kind of collection that the YAML decoder yields, and each of them converts every element and keeps it under the text of its key, or at its index.",
		Check:   checkYaml2json})
}

func checkYaml2json(c *Ctx) {
	var main *ssa.Function
	for _, f := range c.P.Funcs {
		if f.Parent() == nil && f.Synthetic == "" && c.P.relPkg(f) == "yaml2json" && f.Name() == "main" {
			main = f
		}
	}
	if main == nil {
		c.Anchor("main of yaml2json")
		return
	}
	convs := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if pkgOf(f) == pkgOf(main) && f.Synthetic == "" && recursive(f) {
			convs[f] = true
		}
	}
	// several functions that call each other: the one that others call
	for _, scc := range c.P.Graph(nil, nil).SCCs() {
		in := map[*ssa.Function]bool{}
		for _, f := range scc {
			in[f] = true
		}
		if len(scc) < 2 || pkgOf(scc[0]) != pkgOf(main) {
			continue
		}
		for _, f := range c.P.Funcs {
			if in[f] || pkgOf(f) != pkgOf(main) {
				continue
			}
			for _, ci := range calls(f) {
				if g := ci.Common().StaticCallee(); g != nil && in[g] {
					convs[g] = true
				}
			}
		}
	}
	isConv := func(t *Term) *ssa.Function {
		if t != nil && t.Op == "call" && t.Ev != nil && convs[t.Ev.Fn] {
			return t.Ev.Fn
		}
		return nil
	}
	used := map[*ssa.Function]bool{}
	in := samePkg(main)
	const stdout, stdin = "os.Stdout", "os.Stdin"
	for _, p := range c.Run(main, &Policy{Inline: func(f *ssa.Function) bool { return in(f) && !convs[f] }}) {
		facts := p.FactsBefore(len(p.Events))
		failed, ok := false, true
		written := 0
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			err := callFailed(facts, ev.Res)
			failed = failed || err > 0
			switch name := ev.Name; {
			case name == "io/ioutil.ReadAll", name == "io.ReadAll", name == "gopkg.in/yaml.v3.Unmarshal", strings.HasPrefix(name, "encoding/json.Marshal"):
				ok = ok && err < 0
			case strings.HasPrefix(name, "(os.File).Write"):
				ok = ok && err < 0
				if isGlobal(ev.Recv, stdout) && len(ev.Args) == 1 {
					written++
					src := fromJSON(ev.Args[0])
					f := isConv(src)
					if c.Must(f != nil, "converted", c.N(main), ev.Pos, p, "%s does not write the JSON of a converted document", c.N(main)) {
						used[f] = true
						c.Must(c.decoded(p, src, stdin), "document", c.N(main), ev.Pos, p, "%s does not convert the document that it decoded from standard input", c.N(main))
					}
				}
			}
		}
		switch p.Exit {
		case "return":
			c.Count("conversions", 1)
			c.Must(written == 1, "written", c.N(main), main.Pos(), p, "%s ends normally having written %d documents", c.N(main), written)
			c.Must(ok && !failed, "failed", c.N(main), main.Pos(), p, "%s can end normally although a call failed", c.N(main))
		case "exit", "panic":
			c.Count("failures", 1)
			c.Must(failed, "refused", c.N(main), main.Pos(), p, "%s fails although no call did", c.N(main))
			for i := len(p.Events) - 1; i >= 0; i-- {
				if ev := p.Events[i]; ev.Kind == "call" && ev.Name == "os.Exit" {
					k, isConst := ev.Args[0].IntConst()
					c.Must(isConst && k != 0, "status", c.N(main), ev.Pos, p, "%s does not end with a failure status", c.N(main))
				}
			}
		}
	}
	for f := range used {
		c.conversionOf(f, convs, isConv)
	}
	c.Min("conversions", 1)
	c.Min("failures", 3)
	c.Min("converted elements", 3)
}

// callFailed is 1 if a call is known to have failed, -1 if it is known to have succeeded
func callFailed(facts map[*Term]bool, call *Term) int {
	for t, v := range facts {
		if t.Op != "eq" {
			continue
		}
		for i, x := range t.Args {
			if t.Args[1-i].IsNil() && (x == call || x.Op == "ext" && x.Aux == "1" && x.Args[0] == call) {
				if v {
					return -1
				}
				return 1
			}
		}
	}
	return 0
}

// recursive is true for functions that call themselves
func recursive(f *ssa.Function) bool {
	for _, ci := range calls(f) {
		if ci.Common().StaticCallee() == f {
			return true
		}
	}
	return false
}

func isGlobal(t *Term, name string) bool {
	if t == nil || t.Op != "init" || t.Args[0].Op != "global" {
		return false
	}
	g, ok := t.Args[0].Val.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path()+"."+g.Name() == name
}

// fromJSON is what a text is the JSON encoding of
func fromJSON(t *Term) *Term {
	t = stripTyped(t)
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t != nil && t.Op == "ext" && t.Aux == "0" && strings.HasPrefix(t.Args[0].CallName(), "encoding/json.Marshal") {
		return stripTyped(t.Args[0].Args[0])
	}
	return nil
}

// decoded is true if a conversion is that of the document read from a file
func (c *Ctx) decoded(p *Path, conv *Term, file string) bool {
	if len(conv.Args) != 1 {
		return false
	}
	doc := stripTyped(conv.Args[0])
	if doc == nil || doc.Op != "init" {
		return false
	}
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Name == "gopkg.in/yaml.v3.Unmarshal" && stripTyped(ev.Args[1]) == doc.Args[0] {
			d := stripTyped(ev.Args[0])
			return d != nil && d.Op == "ext" && d.Aux == "0" && strings.HasSuffix(d.Args[0].CallName(), ".ReadAll") && isGlobal(stripTyped(d.Args[0].Args[0]), file)
		}
	}
	return false
}

// conversionOf checks that the elements of all collections are converted
func (c *Ctx) conversionOf(f *ssa.Function, convs map[*ssa.Function]bool, isConv func(*Term) *ssa.Function) {
	n := c.N(f)
	x := c.paramTermOf(f, 0)
	handled := map[string]bool{}
	in := samePkg(f)
	for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return in(g) && !convs[g] }}) {
		if p.Exit == "panic" || p.Exit == "exit" {
			c.Bad("fails", n, f.Pos(), p, "%s can fail", n)
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		kind := ""
		for _, k := range []string{"map[interface{}]interface{}", "map[string]interface{}", "[]interface{}"} {
			for t, v := range facts {
				if v && t.Op == "isa" && t.Args[0] == x && strings.ReplaceAll(t.Aux, "any", "interface{}") == k {
					kind = k
				}
			}
		}
		if kind == "" {
			if p.Exit == "return" {
				c.Must(stripTyped(p.Res) == x, "scalar", n, f.Pos(), p, "%s changes a value that isn't a collection", n)
			}
			continue
		}
		handled[kind] = true
		var res *Term // where elements are kept
		into := func(t *Term) bool {
			if res == nil {
				res = t
			}
			return res == t
		}
		for t, v := range facts {
			if !v {
				continue
			}
			if t.Op == "nextok" && kind != "[]interface{}" {
				kept := false
				for _, ev := range p.Events {
					if ev.Kind == "mapupdate" {
						g := isConv(stripTyped(ev.Val))
						v := stripTyped(ev.Val)
						if g == nil || !elementOf(stripTyped(v.Args[0]), x, t) {
							continue
						}
						key := ev.Args[0].Any(func(y *Term) bool { return y.Op == "nextkey" && y.Args[0] == t.Args[0] && sameRound(y, t) })
						kept = kept || key && into(ev.Addr)
					}
				}
				c.Count("converted elements", 1)
				c.Must(kept, "element", n+" "+kind, f.Pos(), p, "%s does not keep the conversion of an element of a %s", n, kind)
			}
			if t.Op == "lt" && kind == "[]interface{}" && t.Args[1].Op == "len" && stripTyped(t.Args[1].Args[0]) == x && (isZeroInt(t.Args[0]) || succIndex(t.Args[0])) {
				kept := false
				for _, ev := range p.Events {
					isElem := func(v *Term) bool {
						v = stripTyped(v)
						if isConv(v) == nil || len(v.Args) != 1 {
							return false
						}
						e := stripTyped(v.Args[0])
						return e != nil && e.Op == "init" && e.Args[0].Op == "iaddr" && e.Args[0].Args[0] == x && e.Args[0].Args[1] == t.Args[0]
					}
					switch {
					case ev.Kind == "store" && ev.Addr.Op == "iaddr" && isElem(ev.Val):
						kept = kept || ev.Addr.Args[1] == t.Args[0] && into(ev.Addr.Args[0])
					case ev.Kind == "append" && len(ev.Args) == 1 && isElem(ev.Args[0]):
						kept = true
						res = ev.Res
					}
				}
				c.Count("converted elements", 1)
				c.Must(kept, "element", n+" "+kind, f.Pos(), p, "%s does not keep the conversion of an element of a %s", n, kind)
			}
		}
		if p.Exit == "return" {
			// all elements have been seen
			ended := false
			for t, v := range facts {
				ended = ended || !v && t.Op == "nextok" && t.Args[0].Args[0] == x || !v && t.Op == "lt" && t.Args[1].Op == "len" && stripTyped(t.Args[1].Args[0]) == x
			}
			if _, hi := lenBounds(facts, func(t *Term) bool { return stripTyped(t) == x }); hi == 0 {
				ended = true
			}
			c.Must(ended, "element", n+" "+kind, f.Pos(), p, "%s does not convert all elements of a %s", n, kind)
		}
		if p.Exit == "return" && res != nil && res.Op != "append1" {
			c.Must(stripTyped(p.Res) == res, "result", n+" "+kind, f.Pos(), p, "%s does not return the collection with the converted elements of a %s", n, kind)
		}
		if p.Exit == "return" && kind == "map[interface{}]interface{}" {
			c.Must(stripTyped(p.Res) != x, "result", n+" "+kind, f.Pos(), p, "%s does not convert the keys of a map", n)
		}
	}
	for _, k := range []string{"map[interface{}]interface{}", "map[string]interface{}", "[]interface{}"} {
		c.Must(handled[k], "exhaustive", n+" "+k, f.Pos(), nil, "%s has no case for a %s", n, k)
	}
}

// elementOf is true for the element of a map in the iteration that a fact belongs to
func elementOf(v, x, ok *Term) bool {
	if v == nil || ok.Args[0].Args[0] != x {
		return false
	}
	if v.Op == "mapget" {
		return v.Args[0] == x && v.Args[1].Op == "nextkey" && v.Args[1].Args[0] == ok.Args[0] && sameRound(v.Args[1], ok)
	}
	return v.Op == "nextval" && v.Args[0] == ok.Args[0] && sameRound(v, ok)
}

// sameRound is true if an element and the fact that there is one belong to the same iteration
func sameRound(v, ok *Term) bool { return v.Aux == ok.Aux }
