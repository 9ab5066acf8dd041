package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C09", Technique: "interprocedural origin analysis of every mutated collection (ownership on SSA)",
		Explain: "Every call of a mutating method of a dgo.Map or dgo.Array, and every store to an element of a slice of values, is found by resolved callee. All origins of the mutated collection (followed through variables, closures, fields, parameters and results) must be collections the code has created itself.",
		Check:   checkImmutable})
}

var mutators = map[string]bool{"Put": true, "PutAll": true, "Remove": true, "RemoveAll": true, "RemoveValue": true, "Add": true, "AddAll": true, "AddValues": true,
	"Insert": true, "Set": true, "Pop": true, "Freeze": true, "Sort": false}

// isMutator is true for methods that change a dgo collection in place
func isMutator(m *types.Func) bool {
	if m == nil || !mutators[m.Name()] {
		return false
	}
	rv := m.Type().(*types.Signature).Recv()
	if rv == nil {
		return false
	}
	n := namedOf(rv.Type())
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/lyraproj/dgo/")
}

func checkImmutable(c *Ctx) {
	o := c.P.Origins()
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		c.funcs[c.N(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					m := methodOfCall(in)
					if !isMutator(m) {
						continue
					}
					cc := in.Common()
					recv := cc.Value
					if !cc.IsInvoke() {
						if len(cc.Args) == 0 {
							continue
						}
						recv = cc.Args[0]
					}
					if nt := namedOf(recv.Type()); nt != nil && nt.Obj().Name() == "Loader" {
						continue
					}
					c.Count("mutations of collections", 1)
					og := o.notFresh(recv)
					what := ""
					if og != nil {
						what = og.Kind + " " + og.Key
					}
					c.Must(og == nil, "mutates-shared", c.N(f)+" calls "+m.Name(), in.Pos(), nil,
						"%s changes a collection in place that it did not create (comes from %s)", c.N(f), what)
				case *ssa.Store:
					ia, ok := in.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					sl, ok := ia.X.Type().Underlying().(*types.Slice)
					if !ok {
						continue
					}
					n := namedOf(sl.Elem())
					if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != dgoPkg {
						continue
					}
					c.Count("stores to elements of value slices", 1)
					og := o.notFresh(ia.X)
					c.Must(og == nil, "stores-element", c.N(f), in.Pos(), nil, "%s assigns an element of a slice of values that it did not create", c.N(f))
				}
			}
		}
	}
	c.Min("mutations of collections", 10)
}
