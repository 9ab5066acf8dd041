package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C31", Technique: "order-independence analysis of iterations over Go maps and directories, and flow of time and random values (dataflow on SSA)",
		Explain: "Each iteration over a Go map must be one whose outcome doesn't depend on the order: what it keeps is stored under the key of the entry, or collected in a list that is sorted before it is used, and it ends early only with constant results. A directory listing in the order of the disk, and what matches a pattern, must be sorted before it is used. No branch, result or stored value in the code of lookups may depend on the time, random numbers or the process.",
		Check:   checkOrder})
}

func checkOrder(c *Ctx) {
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Next:
					if r, ok := in.Iter.(*ssa.Range); ok {
						if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
							c.Count("iterations over maps", 1)
							c.orderedIteration(f, in)
						}
					}
				case *ssa.Call:
					c.orderedListing(f, in)
				}
			}
		}
		c.clockFree(f)
	}
	c.Min("iterations over maps", 2)
	c.Min("listings that are sorted", 1)
	c.Min("functions", 200)
}

// loopOf returns the blocks of the loop of a header
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back(p)
		}
	}
	return in
}

// derivedFrom is true when a value is made of another by conversion, formatting or concatenation
func derivedFrom(v ssa.Value, is func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var rec, step func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		if r, ok := seen[v]; ok {
			return r
		}
		seen[v] = false
		seen[v] = is(v) || step(v)
		return seen[v]
	}
	step = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.ChangeType:
			return rec(v.X)
		case *ssa.ChangeInterface:
			return rec(v.X)
		case *ssa.MakeInterface:
			return rec(v.X)
		case *ssa.Convert:
			return rec(v.X)
		case *ssa.TypeAssert:
			return rec(v.X)
		case *ssa.Slice:
			return rec(v.X)
		case *ssa.Extract:
			return rec(v.Tuple)
		case *ssa.UnOp:
			return rec(v.X)
		case *ssa.BinOp:
			return v.Op == token.ADD && (rec(v.X) || rec(v.Y))
		case *ssa.Alloc:
			if v.Referrers() == nil {
				return false
			}
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v && rec(r.Val) {
						return true
					}
				case *ssa.IndexAddr:
					if r.Referrers() != nil {
						for _, q := range *r.Referrers() {
							if st, ok := q.(*ssa.Store); ok && rec(st.Val) {
								return true
							}
						}
					}
				}
			}
		case *ssa.Call:
			k := calleeKey(v)
			if strings.HasPrefix(k, "fmt.Sprint") || strings.HasPrefix(k, vfPkg+".") || strings.HasPrefix(k, "strings.") || strings.HasPrefix(k, "strconv.") || strings.HasPrefix(k, "path/filepath.") ||
				strings.HasSuffix(k, ".String") || strings.HasSuffix(k, ".GoString") {
				for _, a := range v.Call.Args {
					if rec(a) {
						return true
					}
				}
				return v.Call.IsInvoke() && rec(v.Call.Value)
			}
		}
		return false
	}
	return rec(v)
}

// sorts returns what a call sorts
func sorts(ci ssa.CallInstruction) ssa.Value {
	k := calleeKey(ci)
	if len(ci.Common().Args) > 0 && (strings.HasPrefix(k, "sort.") || strings.HasPrefix(k, "slices.Sort")) {
		return ci.Common().Args[0]
	}
	return nil
}

// isSorted is true when there is a call, accepted by where, that sorts the list
func isSorted(f *ssa.Function, list func(ssa.Value) bool, where func(ssa.CallInstruction) bool) bool {
	for _, ci := range calls(f) {
		if v := sorts(ci); v != nil && where(ci) && derivedFrom(v, list) {
			return true
		}
	}
	return false
}

type orderScan struct {
	c     *Ctx
	outer func(v ssa.Value) bool // existed before the iteration began
	key   func(v ssa.Value) bool // made of the key
	bad   func(pos token.Pos, why string)
	depth int
}

var orderedMutators = map[string]bool{"Add": true, "AddAll": true, "AddValues": true, "Insert": true, "Set": true, "Remove": true, "Pop": true, "PutAll": true}

// ops reports what is done in the order of the iteration
func (s *orderScan) ops(f *ssa.Function, blocks map[*ssa.BasicBlock]bool) {
	for _, b := range f.Blocks {
		if blocks != nil && !blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if s.outer(in.Map) && !derivedFrom(in.Key, s.key) {
					s.bad(in.Pos(), "stores values in a map under something else than the key")
				}
			case *ssa.Send:
				if s.outer(rootOf(in.Chan)) {
					s.bad(in.Pos(), "sends something to a channel for each entry")
				}
			case *ssa.Store:
				if _, isC := in.Val.(*ssa.Const); isC {
					continue
				}
				s.store(f, in)
			case ssa.CallInstruction:
				s.call(in)
			}
		}
	}
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Next); ok {
				return v
			}
			v = x.Tuple
		default:
			return v
		}
	}
}

func (s *orderScan) store(f *ssa.Function, st *ssa.Store) {
	if !s.outer(rootOf(st.Addr)) {
		return
	}
	if ia, ok := st.Addr.(*ssa.IndexAddr); ok && derivedFrom(ia.Index, s.key) {
		return
	}
	if root := rootOf(st.Addr); isSorted(f, func(x ssa.Value) bool { return x == root }, func(ci ssa.CallInstruction) bool { return true }) {
		return
	}
	switch v := st.Val.(type) {
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if isSorted(f, func(x ssa.Value) bool { return x == st.Addr }, func(ssa.CallInstruction) bool { return true }) {
				return
			}
			s.bad(st.Pos(), "appends to a list that is not sorted")
			return
		}
	case *ssa.BinOp:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			return
		}
	}
	s.bad(st.Pos(), "keeps something of one of the entries")
}

func (s *orderScan) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	}
	args := cc.Args
	var recv ssa.Value
	name := ""
	if cc.IsInvoke() {
		recv, name = cc.Value, cc.Method.Name()
	} else if g := cc.StaticCallee(); g != nil {
		name = g.Name()
		if g.Signature.Recv() != nil && len(args) > 0 {
			recv = args[0]
			args = args[1:]
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "fmt" && (strings.HasPrefix(name, "Fprint") && s.outer(rootOf(args[0])) || strings.HasPrefix(name, "Print")) {
			s.bad(ci.Pos(), "writes something for each entry")
			return
		}
	}
	if recv != nil && s.outer(rootOf(recv)) {
		t := recv.Type()
		switch {
		case strings.HasPrefix(name, "Write"):
			s.bad(ci.Pos(), "writes something for each entry")
		case isNamed(t, dgoPkg, "Array") && orderedMutators[name]:
			s.bad(ci.Pos(), "changes an array for each entry")
		case isNamed(t, dgoPkg, "Map") && (name == "Put" || name == "PutAll"):
			if len(args) > 0 && !derivedFrom(args[0], s.key) {
				s.bad(ci.Pos(), "stores values in a map under something else than the key")
			}
		case isNamed(t, s.c.P.Mod+"/api", "Invocation") || isNamed(t, s.c.P.Mod+"/api", "Explainer") || isNamed(t, s.c.P.Mod+"/api", "DataProvider"):
			s.bad(ci.Pos(), "looks up or explains something for each entry")
		}
	}
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || s.depth > 3 || !strings.HasPrefix(pkgPathOf(g), s.c.P.Mod) {
		return
	}
	outer, key := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for i, p := range g.Params {
		if i < len(cc.Args) {
			outer[p] = s.outer(rootOf(cc.Args[i]))
			key[p] = derivedFrom(cc.Args[i], s.key)
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, v := range g.FreeVars {
			outer[v] = s.outer(mc.Bindings[i])
			key[v] = derivedFrom(mc.Bindings[i], s.key)
		}
	}
	(&orderScan{c: s.c, outer: func(v ssa.Value) bool { return outer[v] }, key: func(v ssa.Value) bool { return key[v] }, bad: s.bad, depth: s.depth + 1}).ops(g, nil)
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	return ""
}

func (c *Ctx) orderedIteration(f *ssa.Function, next *ssa.Next) {
	n := c.N(f)
	h := next.Block()
	loop := loopOf(h)
	found := false
	bad := func(pos token.Pos, why string) {
		found = true
		if pos == token.NoPos {
			pos = f.Pos()
		}
		c.Bad("map order", n+"/"+why, pos, nil, "the outcome of %s depends on the order in which a map is iterated: it %s", n, why)
	}
	in := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && loop[i.Block()]
	}
	isKey := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == next && e.Index == 1
	}
	(&orderScan{c: c, key: isKey, bad: bad, outer: func(v ssa.Value) bool {
		if _, isC := v.(*ssa.Const); isC {
			return false
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return true
		}
		return !in(v)
	}}).ops(f, loop)
	// what goes from one entry to the next
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		changes := false
		for j, e := range phi.Edges {
			if loop[h.Preds[j]] && e != phi && in(e) {
				changes = true
			}
		}
		if !changes {
			continue
		}
		switch t := phi.Type().Underlying().(type) {
		case *types.Slice:
			ok = isSorted(f, func(x ssa.Value) bool { return x == phi }, func(ci ssa.CallInstruction) bool { return !loop[ci.Block()] }) || c.sortedByUser(f, phi)
		case *types.Basic:
			ok = t.Info()&types.IsString == 0
		default:
			ok = false
		}
		if !ok {
			bad(phi.Pos(), "keeps something of the entries without sorting")
		}
	}
	// what is used after an early end
	for _, b := range f.Blocks {
		if loop[b] || panics(b) {
			continue
		}
		for _, i := range b.Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				for j, e := range phi.Edges {
					if in(e) && !(e.(ssa.Instruction).Block() == h && isPhi(e)) && loop[b.Preds[j]] {
						bad(i.Pos(), "ends with one of the entries")
					}
				}
				continue
			}
			for _, op := range i.Operands(nil) {
				if *op == nil || !in(*op) || isPhi(*op) && (*op).(ssa.Instruction).Block() == h {
					continue
				}
				bad(i.Pos(), "ends with one of the entries")
			}
		}
	}
	if !found {
		c.Good("the outcome of an iteration in %s doesn't depend on the order", n)
	}
}

// sortedByUser is true when a piece returns a list that is sorted by the function that uses it
func (c *Ctx) sortedByUser(f *ssa.Function, phi *ssa.Phi) bool {
	if !c.piece(f) || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && r.Results[0] != phi {
			return false
		}
	}
	for _, g := range c.P.Funcs {
		for _, ci := range calls(g) {
			if call, ok := ci.(*ssa.Call); ok && call.Call.StaticCallee() == f {
				return c.listSorted(g, call)
			}
		}
	}
	return false
}

func isPhi(v ssa.Value) bool {
	_, ok := v.(*ssa.Phi)
	return ok
}

// panics is true when a block can only end with a panic
func panics(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Return:
			return false
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(b)
}

func (c *Ctx) orderedListing(f *ssa.Function, call *ssa.Call) {
	k := calleeKey(call)
	switch k {
	case "io/ioutil.ReadDir", "os.ReadDir", "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir":
		c.Count("listings that are sorted", 1)
		c.Good("%s uses a sorted listing", c.N(f))
		return
	case "(os.File).Readdir", "(os.File).Readdirnames", "(os.File).ReadDir":
	default:
		if !strings.HasPrefix(k, "github.com/bmatcuk/doublestar") || !strings.HasSuffix(k, "Glob") {
			return
		}
	}
	n := c.N(f)
	if c.Must(c.listSorted(f, call), "disk order", n, call.Pos(), nil, "%s uses what it finds on disk in an arbitrary order", n) {
		c.Count("listings that are sorted", 1)
	}
}

// listSorted is true when a list is sorted before it is used in a function, and in the pieces of the function
func (c *Ctx) listSorted(f *ssa.Function, made ssa.Value) bool {
	// the list, and where it is kept
	list := map[ssa.Value]bool{}
	var grow func(v ssa.Value)
	grow = func(v ssa.Value) {
		if list[v] || v.Referrers() == nil {
			return
		}
		list[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Extract:
				if r.Index == 0 {
					grow(r)
				}
			case *ssa.MakeInterface:
				grow(r)
			case *ssa.ChangeType:
				grow(r)
			case *ssa.Store:
				if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
					grow(a)
				}
			case *ssa.UnOp:
				if r.Op == token.MUL {
					grow(r)
				}
			case *ssa.Phi:
				grow(r)
			}
		}
	}
	grow(made)
	var at []ssa.CallInstruction
	for _, ci := range calls(f) {
		if v := sorts(ci); v != nil && list[v] {
			at = append(at, ci)
		}
		if g := ci.Common().StaticCallee(); g != nil && c.piece(g) {
			for i, a := range ci.Common().Args {
				if list[a] && isSorted(g, func(x ssa.Value) bool { return x == g.Params[i] }, func(ssa.CallInstruction) bool { return true }) {
					at = append(at, ci)
				}
			}
		}
	}
	ok := true
	for v := range list {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr, *ssa.Return, *ssa.Range, *ssa.Slice, *ssa.Index:
				if _, isE := v.(*ssa.Call); isE {
					continue
				}
			case *ssa.Call:
				if sorts(r) != nil {
					continue
				}
				if bi, isB := r.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if g := r.Call.StaticCallee(); g != nil && c.piece(g) {
					sorted := false
					for _, ci := range at {
						sorted = sorted || ci != ssa.CallInstruction(r) && before(ci, r)
					}
					for i, a := range r.Call.Args {
						if a == v && !sorted && !c.listSorted(g, g.Params[i]) {
							return false
						}
					}
					continue
				}
			default:
				continue
			}
			sorted := false
			for _, ci := range at {
				sorted = sorted || before(ci, r)
			}
			ok = ok && sorted
		}
	}
	return ok
}

// before is true when an instruction comes after another on all paths
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

var lookupPkgs = map[string]bool{"api": true, "config": true, "explain": true, "hiera": true, "internal": true, "merge": true, "provider": true, "session": true}

func isClock(k string) bool {
	switch k {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "runtime.NumGoroutine", "runtime.NumCPU":
		return true
	}
	return strings.HasPrefix(k, "math/rand.") || strings.HasPrefix(k, "(math/rand.Rand).") || strings.HasPrefix(k, "math/rand/v2.") || strings.HasPrefix(k, "crypto/rand.")
}

// clockFree checks that nothing depends on the time or random values
func (c *Ctx) clockFree(f *ssa.Function) {
	if !lookupPkgs[c.P.relPkg(f)] {
		return
	}
	c.Count("functions", 1)
	n := c.N(f)
	taint := map[ssa.Value]bool{}
	var spread func(v ssa.Value)
	spread = func(v ssa.Value) {
		if taint[v] || v.Referrers() == nil {
			return
		}
		taint[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.If:
				c.Bad("clock", n, r.Cond.Pos(), nil, "%s decides something by the time, a random number or the process", n)
			case *ssa.Return:
				c.Bad("clock", n, r.Pos(), nil, "%s returns something that depends on the time, a random number or the process", n)
			case *ssa.MapUpdate:
				c.Bad("clock", n, r.Pos(), nil, "%s keeps something that depends on the time, a random number or the process", n)
			case *ssa.Store:
				if a, ok := r.Addr.(*ssa.Alloc); ok && !a.Heap {
					spread(a)
				} else if _, isI := rootOf(r.Addr).(*ssa.Alloc); isI {
					spread(rootOf(r.Addr))
				} else {
					c.Bad("clock", n, r.Pos(), nil, "%s keeps something that depends on the time, a random number or the process", n)
				}
			case ssa.CallInstruction:
				k := calleeKey(r)
				if strings.Contains(k, "sirupsen/logrus") || strings.Contains(k, "hclog") || strings.Contains(k, "SetDeadline") || strings.Contains(k, "SetReadDeadline") {
					continue
				}
				if v, ok := r.(ssa.Value); ok {
					spread(v)
				}
			case ssa.Value:
				spread(r)
			}
		}
	}
	for _, ci := range calls(f) {
		if v, ok := ci.(ssa.Value); ok && isClock(calleeKey(ci)) {
			spread(v)
		}
	}
}
