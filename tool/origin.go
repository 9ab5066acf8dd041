package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An Origin is a place where a value can come from.
type Origin struct {
	Kind string // alloc, call, const, nil, param, elem, global, field, extern, range
	Key  string // callee of a call, name of a global or parameter
	Site ssa.Value
}

// origins follows a value backwards through the repository (interprocedural, flow insensitive) to everything it can be.
type originFinder struct {
	p       *Prog
	callers map[*ssa.Function][]ssa.CallInstruction
	open    map[*ssa.Function]bool // may be called by unknown code
	fstores map[*types.Var][]ssa.Value
	gstores map[*ssa.Global][]ssa.Value
	makes   map[*ssa.Function][]*ssa.MakeClosure
	memo    map[ssa.Value][]Origin
}

func (p *Prog) Origins() *originFinder {
	o := &originFinder{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, open: map[*ssa.Function]bool{}, fstores: map[*types.Var][]ssa.Value{},
		gstores: map[*ssa.Global][]ssa.Value{}, makes: map[*ssa.Function][]*ssa.MakeClosure{}, memo: map[ssa.Value][]Origin{}}
	for _, f := range p.Funcs {
		if f.Parent() == nil && token.IsExported(f.Name()) {
			if f.Signature.Recv() == nil {
				o.open[f] = true
			} else if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Exported() {
				o.open[f] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if c.IsInvoke() {
						for _, g := range p.ImplFuncs(c.Value.Type(), c.Method) {
							o.callers[g] = append(o.callers[g], ci)
						}
					} else if g := c.StaticCallee(); g != nil {
						callee = c.Value
						o.callers[g] = append(o.callers[g], ci)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					o.makes[g] = append(o.makes[g], mc)
					// what calls the closure is only known when all uses are calls
					for _, r := range *mc.Referrers() {
						if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == mc {
							continue
						}
						o.open[g] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						o.open[g] = true
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					switch a := st.Addr.(type) {
					case *ssa.FieldAddr:
						v := fieldVar(a.X.Type(), a.Field)
						o.fstores[v] = append(o.fstores[v], st.Val)
					case *ssa.Global:
						o.gstores[a] = append(o.gstores[a], st.Val)
					}
				}
			}
		}
	}
	return o
}

// Of returns the origins of a value.
func (o *originFinder) Of(v ssa.Value) []Origin {
	if r, ok := o.memo[v]; ok {
		return r
	}
	seen := map[ssa.Value]bool{}
	var out []Origin
	has := map[string]bool{}
	add := func(k, key string, s ssa.Value) {
		id := k + "|" + key
		if s != nil && (k == "alloc" || k == "call") {
			id += "|" + s.Name() + s.Parent().String()
		}
		if !has[id] {
			has[id] = true
			out = append(out, Origin{k, key, s})
		}
	}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				add("nil", "", nil)
			} else {
				add("const", v.Value.ExactString(), nil)
			}
		case *ssa.Alloc:
			add("alloc", "", v)
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
			add("alloc", "", v.(ssa.Value))
		case *ssa.MakeClosure:
			add("closure", v.Fn.String(), v)
		case *ssa.Function:
			add("func", v.String(), nil)
		case *ssa.Global:
			add("global", v.RelString(nil), nil)
		case *ssa.Phi:
			for _, e := range v.Edges {
				visit(e)
			}
		case *ssa.MakeInterface:
			visit(v.X)
		case *ssa.ChangeInterface:
			visit(v.X)
		case *ssa.ChangeType:
			visit(v.X)
		case *ssa.Convert:
			visit(v.X)
		case *ssa.TypeAssert:
			visit(v.X)
		case *ssa.Slice:
			visit(v.X)
		case *ssa.Extract:
			switch t := v.Tuple.(type) {
			case *ssa.TypeAssert:
				if v.Index == 0 {
					visit(t.X)
				} else {
					add("extern", "", nil)
				}
			case *ssa.Call:
				o.call(t, v.Index, visit, add)
			case *ssa.Lookup:
				add("elem", "", nil)
			case *ssa.Next:
				add("elem", "", nil)
			default:
				add("extern", "", nil)
			}
		case *ssa.Call:
			o.call(v, 0, visit, add)
		case *ssa.FreeVar:
			for _, mc := range o.makes[v.Parent()] {
				for i, fv := range v.Parent().FreeVars {
					if fv == v {
						visit(mc.Bindings[i])
					}
				}
			}
		case *ssa.Parameter:
			f := v.Parent()
			if o.open[f] {
				add("param", v.Name()+" of "+o.p.FuncName(f), v)
			}
			k := -1
			for i, p := range f.Params {
				if p == v {
					k = i
				}
			}
			for _, ci := range o.callers[f] {
				c := ci.Common()
				if c.IsInvoke() {
					if k == 0 {
						visit(c.Value)
					} else if k-1 < len(c.Args) {
						visit(c.Args[k-1])
					}
				} else if k < len(c.Args) {
					visit(c.Args[k])
				}
			}
			if !o.open[f] && len(o.callers[f]) == 0 && f.Parent() != nil {
				add("param", v.Name()+" of "+o.p.FuncName(f), v)
			}
		case *ssa.UnOp:
			if v.Op != token.MUL {
				add("extern", v.Op.String(), nil)
				return
			}
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				f := fieldVar(a.X.Type(), a.Field)
				if !o.p.RepoPkg(f.Pkg()) {
					add("extern", "field "+f.Name(), nil)
					return
				}
				if len(o.fstores[f]) == 0 {
					add("nil", "", nil)
				}
				for _, s := range o.fstores[f] {
					visit(s)
				}
			case *ssa.Global:
				if !o.p.RepoPkg(a.Pkg.Pkg) {
					add("global", a.RelString(nil), nil)
					return
				}
				for _, s := range o.gstores[a] {
					visit(s)
				}
				add("global", a.RelString(nil), nil)
			case *ssa.IndexAddr:
				add("elem", "", nil)
			case *ssa.Alloc, *ssa.FreeVar:
				ok := false
				for _, al := range o.cells(a) {
					ok = true
					for _, s := range o.cellStores(al) {
						visit(s)
					}
				}
				if !ok {
					add("extern", "", nil)
				}
			default:
				add("extern", "deref", nil)
			}
		case *ssa.Field:
			f := fieldVar(v.X.Type(), v.Field)
			for _, s := range o.fstores[f] {
				visit(s)
			}
			if len(o.fstores[f]) == 0 {
				add("extern", "field "+f.Name(), nil)
			}
		case *ssa.Lookup, *ssa.Index:
			add("elem", "", nil)
		default:
			add("extern", "", nil)
		}
	}
	visit(v)
	o.memo[v] = out
	return out
}

func (o *originFinder) call(v *ssa.Call, idx int, visit func(ssa.Value), add func(string, string, ssa.Value)) {
	c := v.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			visit(c.Args[0])
			add("call", "append", v)
		} else {
			add("extern", b.Name(), nil)
		}
		return
	}
	var fs []*ssa.Function
	if c.IsInvoke() {
		fs = o.p.ImplFuncs(c.Value.Type(), c.Method)
		if n := namedOf(c.Value.Type()); n == nil || !o.p.RepoPkg(n.Obj().Pkg()) {
			fs = nil
		}
	} else if f := c.StaticCallee(); f != nil && o.p.InRepo(f) {
		fs = []*ssa.Function{f}
	}
	any := false
	for _, f := range fs {
		f = unwrapFn(o.p, f)
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				visit(r.Results[idx])
				any = true
			}
		}
	}
	if !any {
		add("call", calleeKey(v), v)
	}
}

// cells resolves the address of a local variable to its allocation.
func (o *originFinder) cells(a ssa.Value) []*ssa.Alloc {
	switch a := a.(type) {
	case *ssa.Alloc:
		return []*ssa.Alloc{a}
	case *ssa.FreeVar:
		var out []*ssa.Alloc
		for _, mc := range o.makes[a.Parent()] {
			for i, fv := range a.Parent().FreeVars {
				if fv == a {
					out = append(out, o.cells(mc.Bindings[i])...)
				}
			}
		}
		return out
	}
	return nil
}

// cellStores returns everything stored in a local variable, by the function or its closures.
func (o *originFinder) cellStores(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	var visit func(addr ssa.Value)
	visit = func(addr ssa.Value) {
		if addr.Referrers() == nil {
			return
		}
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					out = append(out, r.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == addr {
						visit(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	visit(a)
	return out
}

// freshCalls construct a new mutable collection
var freshCalls = map[string]bool{
	vfPkg + ".MutableMap": true, vfPkg + ".MapWithCapacity": true, vfPkg + ".MutableValues": true, vfPkg + ".ArrayWithCapacity": true,
	"(" + dgoPkg + ".Map).Map": true, "(" + dgoPkg + ".Array).Map": true, "append": true,
	"(" + dgoPkg + ".Freezable).ThawedCopy": true, "(" + dgoPkg + ".Array).ThawedCopy": true, "(" + dgoPkg + ".Map).ThawedCopy": true,
}

// notFresh returns an origin that is something other than a collection created by the code itself, or nil
func (o *originFinder) notFresh(v ssa.Value) *Origin {
	for _, g := range o.Of(v) {
		g := g
		switch g.Kind {
		case "alloc", "nil", "const":
			continue
		case "call":
			if freshCalls[g.Key] {
				continue
			}
			if call, ok := g.Site.(*ssa.Call); ok {
				// a mutable copy
				if strings.HasSuffix(g.Key, ").Copy") && len(call.Common().Args) == 1 {
					if k, ok := call.Common().Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" {
						continue
					}
				}
				// x.AppendToSlice(fresh)
				if strings.HasSuffix(g.Key, ").AppendToSlice") && len(call.Common().Args) == 1 && o.notFresh(call.Common().Args[0]) == nil {
					continue
				}
			}
		}
		return &g
	}
	return nil
}
