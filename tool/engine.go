package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is a path-partitioned dataflow analysis over the SSA form. Abstract values are provenance terms, branch conditions
// are kept as syntactic facts, and loops are widened: the first iteration is analysed with the values that enter the loop, the
// second with arbitrary values for everything the loop changes. Nothing is executed and no solver is involved.
type Engine struct {
	P  *Prog
	T  *terms
	uv map[*types.Var]bool
}

func NewEngine(p *Prog) *Engine { return &Engine{P: p, T: newTerms(), uv: p.UnstableFields()} }

// Policy selects what an analysis looks into.
type Policy struct {
	// Inline decides if a resolved function is analysed as part of the caller
	Inline func(fn *ssa.Function) bool
	// MayPanic decides if a call that isn't inlined is also considered to end with a panic
	MayPanic func(ev *Event) bool
	// NoHavoc is true for calls that cannot change memory visible to the analysed code
	NoHavoc func(ev *Event) bool
	// StableField is true for fields that opaque calls are assumed to preserve
	StableField func(v *types.Var) bool
	// AssertPanics also explores the failing outcome of type assertions without comma-ok
	AssertPanics bool
	// Facts seeds the analysis
	Seed func(e *Engine, st *State, params []*Term)
	// Sync overrides the callback model. Returns "no", "once" or "many"
	Sync     func(ev *Event, arg *Term) string
	MaxDepth int
	MaxPaths int
	// MultiImpl analyses interface calls that resolve to several repo functions by exploring each of them
	MultiImpl func(m *types.Func) bool
	// Snap records facts about the state just before an opaque call in the event
	Snap func(st *State, ev *Event) map[string]*Term
	// Watch tells what fields to emit load events for
	Watch func(v *types.Var) bool
	// InlineGo analyses go statements as if the function was called synchronously (in a sequence of its own)
	AllowRecursion int
}

// Event is something observable that happens on a path.
type Event struct {
	Kind   string // call, store, fact, panic, return, go, defer, append, mapupdate, send, recv, select, enter, leave, assert, loop, exit
	Name   string
	Fn     *ssa.Function
	Method *types.Func
	Callee *Term
	Recv   *Term
	Args   []*Term
	Res    *Term
	Addr   *Term
	Val    *Term
	Bool   bool
	Pos    token.Pos
	In     *ssa.Function
	Depth  int
	Instr  ssa.Instruction
	IsFn   bool // dynamic call of a function value
	Defer  bool // executed as a deferred call
	Panics bool // this occurrence of the call ended in panic
	Unwind bool // happened while unwinding a panic
	Block  bool // select without default
	Snap   map[string]*Term
}

func (ev *Event) String() string {
	s := ev.Kind + " " + ev.Name
	if ev.Recv != nil {
		s += " recv=" + ev.Recv.String()
	}
	if ev.Addr != nil {
		s += " addr=" + ev.Addr.String()
	}
	if ev.Val != nil {
		s += " val=" + ev.Val.String()
		if ev.Kind == "fact" {
			s += fmt.Sprintf(" %v", ev.Bool)
		}
	}
	if len(ev.Args) > 0 {
		s += fmt.Sprintf(" args=%v", ev.Args)
	}
	if ev.Panics {
		s += " PANICS"
	}
	return s
}

type traceNode struct {
	prev *traceNode
	ev   *Event
	n    int
}

type deferRec struct {
	common *ssa.CallCommon
	fn     *Term
	recv   *Term
	args   []*Term
	instr  ssa.Instruction
}

type hdrSnap struct {
	n    int
	heap map[*Term]*Term
	phis map[*ssa.Phi]*Term
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	pc      int
	prev    *ssa.BasicBlock
	env     map[ssa.Value]*Term
	free    []*Term
	defers  []*deferRec
	hdr     map[*ssa.BasicBlock]*hdrSnap
	call    ssa.Value // where to bind the result in the calling frame
	onRet   func(st *State, res *Term, panicked bool)
	isDefer bool // this frame is a deferred call of the frame below
	// unwinding or rundefers in progress
	running   bool
	afterRun  string // "normal" or "unwind"
	recovered bool
	enterEv   *Event
}

// State is one partition.
type State struct {
	e      *Engine
	frames []*Frame
	heap   map[*Term]*Term
	facts  map[*Term]bool
	eq     map[*Term]*Term
	dyn    map[*Term]types.Type
	esc    map[*Term]bool
	trace  *traceNode
	epoch  int
	seq    int
	panicV *Term
	done   string
	res    *Term
}

// Path is a completed partition.
type Path struct {
	Events []*Event
	Exit   string // return, panic, exit, cut
	Res    *Term
	St     *State
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferRec(nil), f.defers...)
		g.hdr = make(map[*ssa.BasicBlock]*hdrSnap, len(f.hdr))
		for k, v := range f.hdr {
			c := *v
			g.hdr[k] = &c
		}
		n.frames[i] = &g
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.eq = make(map[*Term]*Term, len(st.eq))
	for k, v := range st.eq {
		n.eq[k] = v
	}
	n.dyn = make(map[*Term]types.Type, len(st.dyn))
	for k, v := range st.dyn {
		n.dyn[k] = v
	}
	n.esc = make(map[*Term]bool, len(st.esc))
	for k, v := range st.esc {
		n.esc[k] = v
	}
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) emit(ev *Event) *Event {
	if len(st.frames) > 0 {
		f := st.top()
		if ev.In == nil {
			ev.In = f.fn
		}
		ev.Depth = len(st.frames)
	}
	ev.Unwind = st.panicV != nil
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &traceNode{st.trace, ev, n}
	return ev
}

func (st *State) events() []*Event {
	if st.trace == nil {
		return nil
	}
	es := make([]*Event, st.trace.n)
	for t := st.trace; t != nil; t = t.prev {
		es[t.n-1] = t.ev
	}
	return es
}

type run struct {
	e     *Engine
	pol   *Policy
	work  []*State
	paths []*Path
	err   error
	steps int
}

// Run analyses fn and returns all its partitions.
func (e *Engine) Run(fn *ssa.Function, pol *Policy) ([]*Path, error) {
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("no function body")
	}
	if pol.MaxDepth == 0 {
		pol.MaxDepth = 24
	}
	if pol.MaxPaths == 0 {
		pol.MaxPaths = 60000
	}
	r := &run{e: e, pol: pol}
	st := &State{e: e, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, eq: map[*Term]*Term{}, dyn: map[*Term]types.Type{},
		esc: map[*Term]bool{}}
	var params []*Term
	fr := e.newFrame(fn)
	for i, p := range fn.Params {
		t := e.T.mk("param", fmt.Sprintf("%s.%s", fn.Name(), p.Name()), p.Type())
		t.Val = p
		_ = i
		fr.env[p] = t
		params = append(params, t)
	}
	for _, f := range fn.FreeVars {
		t := e.T.mk("free", fmt.Sprintf("%s.%s", fn.Name(), f.Name()), f.Type())
		t.Val = f
		fr.free = append(fr.free, t)
	}
	st.frames = []*Frame{fr}
	r.enterBlock(st, fr, fn.Blocks[0], nil)
	if pol.Seed != nil {
		pol.Seed(e, st, params)
	}
	r.work = append(r.work, st)
	for len(r.work) > 0 && r.err == nil {
		s := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		r.exec(s)
		if len(r.paths) > pol.MaxPaths {
			return nil, fmt.Errorf("more than %d paths in %s", pol.MaxPaths, e.P.FuncName(fn))
		}
	}
	if r.err != nil {
		return nil, r.err
	}
	return r.paths, nil
}

func (e *Engine) newFrame(fn *ssa.Function) *Frame {
	return &Frame{fn: fn, env: map[ssa.Value]*Term{}, hdr: map[*ssa.BasicBlock]*hdrSnap{}}
}

func (r *run) finish(st *State, exit string, res *Term) {
	st.done = exit
	st.res = res
	r.paths = append(r.paths, &Path{Events: st.events(), Exit: exit, Res: res, St: st})
}

// exec runs a state until it is finished or forked.
func (r *run) exec(st *State) {
	for {
		r.steps++
		if r.steps > 8000000 {
			r.err = fmt.Errorf("analysis budget exceeded")
			return
		}
		if st.done != "" {
			return
		}
		f := st.top()
		if f.running {
			if !r.runDefers(st, f) {
				return
			}
			continue
		}
		if st.panicV != nil {
			// begin unwinding this frame
			f.running = true
			f.afterRun = "unwind"
			continue
		}
		if f.pc >= len(f.block.Instrs) {
			r.err = fmt.Errorf("fell off block in %s", f.fn)
			return
		}
		in := f.block.Instrs[f.pc]
		f.pc++
		if !r.instr(st, f, in) {
			return
		}
	}
}

// runDefers executes the next deferred call, or completes. Returns false if state is finished.
func (r *run) runDefers(st *State, f *Frame) bool {
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return r.dispatch(st, d.common, d.instr, d.fn, d.recv, d.args, nil, true)
	}
	f.running = false
	if f.afterRun == "normal" {
		return true
	}
	// unwinding
	if f.recovered {
		f.recovered = false
		if f.fn.Recover != nil {
			r.enterBlock(st, f, f.fn.Recover, nil)
			return true
		}
		var zs []*Term
		rs := f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			zs = append(zs, r.e.T.zero(rs.At(i).Type()))
		}
		return r.ret(st, f, r.tuple(zs))
	}
	// propagate to caller
	if len(st.frames) == 1 {
		r.finish(st, "panic", st.panicV)
		return false
	}
	st.emit(&Event{Kind: "leave", Name: r.e.P.FuncName(f.fn), Fn: f.fn, Panics: true})
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, nil, true)
	}
	return true
}

func (r *run) tuple(ts []*Term) *Term {
	switch len(ts) {
	case 0:
		return nil
	case 1:
		return ts[0]
	}
	return r.e.T.mk("tuple", "", nil, ts...)
}

func (r *run) ret(st *State, f *Frame, res *Term) bool {
	if len(st.frames) == 1 {
		st.emit(&Event{Kind: "return", Val: res, Pos: f.fn.Pos()})
		r.finish(st, "return", res)
		return false
	}
	st.emit(&Event{Kind: "leave", Name: r.e.P.FuncName(f.fn), Fn: f.fn, Res: res})
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, res, false)
		return st.done == ""
	}
	if f.call != nil {
		if res == nil {
			res = r.e.T.mk("void", "", nil)
		}
		st.top().env[f.call] = res
	}
	return true
}

func (r *run) fork(st *State) *State {
	n := st.clone()
	r.work = append(r.work, n)
	return n
}

// blockPos finds a source position for a block.
func instrPos(in ssa.Instruction) token.Pos { return in.Pos() }

func isBackEdge(from, to *ssa.BasicBlock) bool { return from != nil && to.Dominates(from) }

func (r *run) enterBlock(st *State, f *Frame, b, prev *ssa.BasicBlock) bool {
	T := r.e.T
	// evaluate phis in parallel
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	vals := make([]*Term, len(phis))
	for i, p := range phis {
		if idx >= 0 {
			vals[i] = r.val(st, f, p.Edges[idx])
		}
	}
	isHdr := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			isHdr = true
		}
	}
	if isHdr {
		snap := f.hdr[b]
		if !isBackEdge(prev, b) || snap == nil {
			h := make(map[*Term]*Term, len(st.heap))
			for k, v := range st.heap {
				h[k] = v
			}
			ph := map[*ssa.Phi]*Term{}
			for i, p := range phis {
				ph[p] = vals[i]
			}
			f.hdr[b] = &hdrSnap{n: 1, heap: h, phis: ph}
			st.emit(&Event{Kind: "loop", Name: "enter", In: f.fn, Pos: b.Instrs[0].Pos()})
		} else {
			snap.n++
			if snap.n > 2 {
				end := map[string]*Term{}
				for i, p := range phis {
					end[loopName(f.fn, p)] = vals[i]
				}
				st.emit(&Event{Kind: "loop", Name: "cut", In: f.fn, Snap: end})
				r.finish(st, "cut", nil)
				return false
			}
			st.emit(&Event{Kind: "loop", Name: "again", In: f.fn, Pos: b.Instrs[0].Pos()})
			// widen
			for i, p := range phis {
				if snap.phis[p] != vals[i] {
					t := T.mk("loopvar", loopName(f.fn, p), p.Type(), snap.phis[p], vals[i])
					t.Val = p
					vals[i] = t
				}
			}
			for k, v := range st.heap {
				if o, ok := snap.heap[k]; ok && o != v {
					var typ types.Type
					if v != nil {
						typ = v.Type
					}
					t := T.mk("loopcell", fmt.Sprintf("%p", b), typ, k, o, v)
					st.heap[k] = t
				}
			}
		}
	}
	f.prev = prev
	f.block = b
	f.pc = len(phis)
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	return true
}

func loopName(fn *ssa.Function, p *ssa.Phi) string {
	return fmt.Sprintf("%s.%s@%p", fn.Name(), p.Name(), p)
}

func (r *run) val(st *State, f *Frame, v ssa.Value) *Term {
	T := r.e.T
	switch v := v.(type) {
	case *ssa.Const:
		return T.konst(v)
	case *ssa.Global:
		t := T.mk("global", v.RelString(nil), v.Type())
		t.Val = v
		return t
	case *ssa.Function:
		t := T.mk("func", v.String(), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return T.mk("builtin", v.Name(), nil)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				if i < len(f.free) {
					return f.free[i]
				}
			}
		}
		return T.mk("free", v.Name(), v.Type())
	}
	if t, ok := f.env[v]; ok && t != nil {
		return t
	}
	t := T.mk("undef", fmt.Sprintf("%s.%s", f.fn.Name(), v.Name()), v.Type())
	return t
}

// root strips field and index selections off an address.
func root(a *Term) *Term {
	for a != nil && (a.Op == "faddr" || a.Op == "iaddr" || a.Op == "maddr") {
		a = a.Args[0]
	}
	return a
}

// known address space local to this analysis that hasn't escaped
func (st *State) local(a *Term) bool {
	rt := root(a)
	if rt == nil {
		return false
	}
	switch rt.Op {
	case "alloc", "makemap", "makeslice", "slicelit":
		return !st.esc[rt]
	}
	return false
}

func (st *State) load(a *Term, typ types.Type) *Term {
	T := st.e.T
	if v, ok := st.heap[a]; ok {
		return v
	}
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok && a.Op != "maddr" {
			// compose
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, st.load(st.faddr(a, s.Field(i)), s.Field(i).Type()))
			}
			if w := whole(s, typ, fs); w != nil {
				return w
			}
			return T.mk("agg", types.TypeString(typ, nil), typ, fs...)
		}
	}
	// slicelit element
	if a.Op == "iaddr" && a.Args[0].Op == "slicelit" {
		if i, ok := a.Args[1].IntConst(); ok && int(i) < len(a.Args[0].Args) {
			return a.Args[0].Args[i]
		}
	}
	rt := root(a)
	if rt.Op == "alloc" && st.local(a) {
		if typ != nil {
			z := T.zero(typ)
			if z.Op != "zeroarr" {
				st.heap[a] = z
				return z
			}
		}
	}
	ep := 0
	if !st.stableAddr(a) {
		ep = st.epoch
	}
	v := T.mk("init", fmt.Sprintf("%d", ep), typ, a)
	st.heap[a] = v
	return v
}

// whole returns the struct that all values are the fields of
func whole(s *types.Struct, typ types.Type, fs []*Term) *Term {
	var w *Term
	for i, f := range fs {
		if f.Op != "field" || w != nil && f.Args[0] != w {
			return nil
		}
		fv, ok := f.Val.(*fieldVal)
		if !ok || fv.v != s.Field(i) {
			return nil
		}
		w = f.Args[0]
	}
	if w == nil || w.Type == nil || !types.Identical(w.Type, typ) {
		return nil
	}
	return w
}

// stableAddr is true if opaque calls don't change the content of the address
func (st *State) stableAddr(a *Term) bool {
	switch a.Op {
	case "faddr":
		if v, ok := a.Val.(*fieldVal); ok && v != nil {
			if st.e.P.RepoPkg(v.v.Pkg()) && !st.e.uv[v.v] {
				return true
			}
		}
		return false
	case "global":
		return st.e.stableGlobal(a)
	}
	return false
}

var globalStores map[*ssa.Global]bool

func (e *Engine) stableGlobal(a *Term) bool {
	g, ok := a.Val.(*ssa.Global)
	if !ok {
		return false
	}
	if globalStores == nil {
		globalStores = map[*ssa.Global]bool{}
		for _, fn := range e.P.Funcs {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
								continue
							}
							globalStores[g] = true
						}
					}
				}
			}
		}
	}
	return !globalStores[g]
}

type fieldVal struct {
	ssa.Value
	v *types.Var
}

func (st *State) faddr(base *Term, v *types.Var) *Term {
	t := st.e.T.mk("faddr", v.Name()+"@"+fmt.Sprintf("%p", v), types.NewPointer(v.Type()), base)
	if t.Val == nil {
		t.Val = &fieldVal{v: v}
	}
	return t
}

// FieldOf returns the field variable of a faddr or field term.
func FieldOf(t *Term) *types.Var {
	if t == nil {
		return nil
	}
	if fv, ok := t.Val.(*fieldVal); ok && fv != nil {
		return fv.v
	}
	return nil
}

func (st *State) store(a, v *Term, typ types.Type) {
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok && a.Op != "maddr" {
			for i := 0; i < s.NumFields(); i++ {
				st.store(st.faddr(a, s.Field(i)), st.fieldOf(v, s, i), s.Field(i).Type())
			}
			return
		}
	}
	// a store to one element of a collection with unknown index invalidates the others
	if a.Op == "iaddr" {
		if _, ok := a.Args[1].IntConst(); !ok {
			for k := range st.heap {
				if k.Op == "iaddr" && k.Args[0] == a.Args[0] && k != a {
					delete(st.heap, k)
				}
			}
		}
	}
	st.heap[a] = v
}

func (st *State) fieldOf(v *Term, s *types.Struct, i int) *Term {
	if v.Op == "agg" && i < len(v.Args) {
		return v.Args[i]
	}
	t := st.e.T.mk("field", s.Field(i).Name()+"@"+fmt.Sprintf("%p", s.Field(i)), s.Field(i).Type(), v)
	if t.Val == nil {
		t.Val = &fieldVal{v: s.Field(i)}
	}
	return t
}

// rep returns the representative of a term under equality facts with constants.
func (st *State) rep(t *Term) *Term {
	if c, ok := st.eq[t]; ok {
		return c
	}
	return t
}

// norm normalizes a boolean term. neg is true if the result is the negation.
func norm(t *Term) (*Term, bool) {
	neg := false
	for t.Op == "not" {
		t = t.Args[0]
		neg = !neg
	}
	return t, neg
}

// decide returns the truth of a boolean term if known.
func (st *State) decide(t *Term) (val, known bool) {
	t, neg := norm(t)
	if b, ok := t.BoolConst(); ok {
		return b != neg, true
	}
	if v, ok := st.facts[t]; ok {
		return v != neg, true
	}
	if t.Op == "eq" {
		x, y := st.rep(t.Args[0]), st.rep(t.Args[1])
		if x == y {
			return !neg, true
		}
		if x.IsConst() && y.IsConst() && x.Cst != nil && y.Cst != nil && x.Cst.Kind() == y.Cst.Kind() {
			return constant.Compare(x.Cst, token.EQL, y.Cst) != neg, true
		}
		if x.IsNil() && nonNil(y) || y.IsNil() && nonNil(x) {
			return neg, true
		}
		if x.IsNil() && st.notNil(t.Args[1]) || y.IsNil() && st.notNil(t.Args[0]) {
			return neg, true
		}
		if x.Op == "alloc" && y.Op == "alloc" || x.Op == "func" && y.Op == "func" {
			return neg, true
		}
	}
	if t.Op == "lt" {
		x, y := st.rep(t.Args[0]), st.rep(t.Args[1])
		if x.IsConst() && y.IsConst() && x.Cst != nil && y.Cst != nil {
			return constant.Compare(x.Cst, token.LSS, y.Cst) != neg, true
		}
		if x == y {
			return neg, true
		}
		// length is never negative
		if c, ok := y.IntConst(); ok && c <= 0 && (x.Op == "len") {
			return neg, true
		}
		// len(x) < 1 false when len != 0 known
		if c, ok := x.IntConst(); ok && c == 0 && y.Op == "len" {
			if v, k := st.facts[st.e.eq(y, x)]; k {
				return !v != neg, true
			}
		}
	}
	return false, false
}

func (st *State) notNil(t *Term) bool {
	if nonNil(t) {
		return true
	}
	if v, ok := st.facts[st.e.eq(t, st.e.T.nilT())]; ok && !v {
		return true
	}
	if _, ok := st.dyn[t]; ok {
		return true
	}
	return false
}

// NotNil is true if the value is known to be non-nil on this path.
func (st *State) NotNil(t *Term) bool { return st.notNil(t) }

func (e *Engine) eq(x, y *Term) *Term {
	if x.id > y.id {
		x, y = y, x
	}
	return e.T.mk("eq", "", types.Typ[types.Bool], x, y)
}

// assume records a fact
func (st *State) assume(t *Term, val bool, pos token.Pos) {
	t, neg := norm(t)
	if neg {
		val = !val
	}
	if _, ok := t.BoolConst(); ok {
		return
	}
	if _, ok := st.facts[t]; ok {
		return
	}
	st.facts[t] = val
	if t.Op == "eq" && val {
		x, y := t.Args[0], t.Args[1]
		if x.IsConst() || x.IsNil() {
			x, y = y, x
		}
		if (y.IsConst() || y.IsNil()) && !x.IsConst() {
			st.eq[x] = y
		}
	}
	if t.Op == "isa" && val {
		if tt, ok := t.Type.(*types.Tuple); ok {
			_ = tt
		}
		if _, isIf := t.Type.Underlying().(*types.Interface); !isIf {
			st.dyn[t.Args[0]] = t.Type
		}
		if _, ok := st.facts[st.e.eq(t.Args[0], st.e.T.nilT())]; !ok {
			st.facts[st.e.eq(t.Args[0], st.e.T.nilT())] = false
		}
	}
	st.emit(&Event{Kind: "fact", Val: t, Bool: val, Pos: pos})
}

func (r *run) binop(op token.Token, x, y *Term, typ types.Type) *Term {
	T := r.e.T
	not := func(t *Term) *Term {
		if b, ok := t.BoolConst(); ok {
			return T.boolean(!b)
		}
		if t.Op == "not" {
			return t.Args[0]
		}
		return T.mk("not", "", types.Typ[types.Bool], t)
	}
	lt := func(a, b *Term) *Term {
		if a.IsConst() && b.IsConst() && a.Cst != nil && b.Cst != nil && a.Cst.Kind() == b.Cst.Kind() {
			return T.boolean(constant.Compare(a.Cst, token.LSS, b.Cst))
		}
		if n, ok := b.IntConst(); ok {
			if low, ok := lowerBound(a); ok && low >= n {
				return T.boolean(false)
			}
		}
		if n, ok := a.IntConst(); ok {
			if low, ok := lowerBound(b); ok && low > n {
				return T.boolean(true)
			}
		}
		return T.mk("lt", "", types.Typ[types.Bool], a, b)
	}
	eq := func(a, b *Term) *Term {
		if a.IsConst() && b.IsConst() && a.Cst != nil && b.Cst != nil && a.Cst.Kind() == b.Cst.Kind() {
			return T.boolean(constant.Compare(a.Cst, token.EQL, b.Cst))
		}
		for _, ab := range [][2]*Term{{a, b}, {b, a}} {
			if n, ok := ab[1].IntConst(); ok {
				if low, ok := lowerBound(ab[0]); ok && low > n {
					return T.boolean(false)
				}
			}
		}
		// comparison with boolean constant
		if v, ok := a.BoolConst(); ok {
			if v {
				return b
			}
			return not(b)
		}
		if v, ok := b.BoolConst(); ok {
			if v {
				return a
			}
			return not(a)
		}
		if a == b && (a.IsNil() || a.Op == "alloc" || a.Op == "param") {
			return T.boolean(true)
		}
		return r.e.eq(a, b)
	}
	switch op {
	case token.EQL:
		return eq(x, y)
	case token.NEQ:
		return not(eq(x, y))
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return not(lt(y, x))
	case token.GEQ:
		return not(lt(x, y))
	}
	if x.IsConst() && y.IsConst() && x.Cst != nil && y.Cst != nil && x.Cst.Kind() == y.Cst.Kind() {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if x.Cst.Kind() == constant.Int || op == token.ADD {
				return T.cval(constant.BinaryOp(x.Cst, op, y.Cst), typ)
			}
		}
	}
	if op == token.ADD {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			// concatenation, flattened so that grouping doesn't matter
			var as []*Term
			for _, t := range []*Term{x, y} {
				if t.Op == "concat" {
					as = append(as, t.Args...)
				} else {
					as = append(as, t)
				}
			}
			return T.mk("concat", "", typ, as...)
		}
	}
	return T.mk("bin", op.String(), typ, x, y)
}

// lowerBound finds the smallest value that a loop counter has after the first iteration.
func lowerBound(t *Term) (int64, bool) {
	switch t.Op {
	case "len":
		n := int64(0)
		x := t.Args[0]
		for ; x != nil && x.Op == "append1"; x = x.Args[0] {
			n += int64(len(x.Args) - 1)
		}
		if x != nil && x.Op == "slicelit" {
			n += int64(len(x.Args))
		}
		return n, true
	case "loopvar":
		phi, ok := t.Val.(*ssa.Phi)
		if !ok || !counts(phi) || len(t.Args) != 2 {
			return 0, false
		}
		return t.Args[1].IntConst()
	case "bin":
		if t.Aux == "+" && len(t.Args) == 2 {
			for i := range t.Args {
				if k, ok := t.Args[i].IntConst(); ok {
					low, ok := lowerBound(t.Args[1-i])
					return low + k, ok
				}
			}
		}
	}
	return 0, false
}

// counts is true for a loop variable that is incremented by a positive constant in each iteration
func counts(phi *ssa.Phi) bool {
	n := 0
	for i, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != phi {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() <= 0 {
			return false
		}
		n++
	}
	return n > 0
}

func (r *run) branch(st *State, f *Frame, cond *Term, in *ssa.If) bool {
	b := f.block
	if v, ok := st.decide(cond); ok {
		i := 1
		if v {
			i = 0
		}
		return r.enterBlock(st, f, b.Succs[i], b)
	}
	n := st.clone()
	n.assume(cond, false, in.Cond.Pos())
	if r.enterBlock(n, n.top(), b.Succs[1], b) {
		r.work = append(r.work, n)
	}
	st.assume(cond, true, in.Cond.Pos())
	return r.enterBlock(st, f, b.Succs[0], b)
}

// instr executes one instruction. Returns false when the state is finished (or handed to the work list).
func (r *run) instr(st *State, f *Frame, in ssa.Instruction) bool {
	T := r.e.T
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		st.seq++
		n := in.Comment
		if n == "" {
			n = in.Name()
		}
		t := T.mk("alloc", fmt.Sprintf("%s#%p.%d", n, in, st.seq), in.Type())
		t.Val = in
		// in a loop, a non-heap alloc denotes a new variable
		f.env[in] = t
	case *ssa.Phi:
		// handled by enterBlock
	case *ssa.UnOp:
		x := r.val(st, f, in.X)
		switch in.Op {
		case token.MUL:
			f.env[in] = st.load(x, in.Type())
			if r.pol.Watch != nil {
				if v := FieldOf(x); v != nil && r.pol.Watch(v) {
					st.emit(&Event{Kind: "load", Addr: x, Val: f.env[in], Pos: in.Pos(), Instr: in})
				}
			}
		case token.NOT:
			f.env[in] = r.binop(token.EQL, x, T.boolean(false), in.Type())
		case token.ARROW:
			ev := st.emit(&Event{Kind: "recv", Recv: x, Pos: in.Pos(), Instr: in})
			st.seq++
			v := T.mk("recv", fmt.Sprintf("#%d.%p", st.seq, in), in.Type(), x)
			if in.CommaOk {
				v = T.mk("tuple", "", nil, v, T.mk("recvok", fmt.Sprintf("#%d.%p", st.seq, in), types.Typ[types.Bool], x))
			}
			ev.Res = v
			f.env[in] = v
		default:
			if x.IsConst() && in.Op == token.SUB && x.Cst != nil && x.Cst.Kind() == constant.Int {
				f.env[in] = T.cval(constant.UnaryOp(token.SUB, x.Cst, 0), in.Type())
			} else {
				f.env[in] = T.mk("un", in.Op.String(), in.Type(), x)
			}
		}
	case *ssa.BinOp:
		f.env[in] = r.binop(in.Op, r.val(st, f, in.X), r.val(st, f, in.Y), in.Type())
	case *ssa.FieldAddr:
		v := fieldVar(in.X.Type(), in.Field)
		f.env[in] = st.faddr(r.val(st, f, in.X), v)
	case *ssa.Field:
		x := r.val(st, f, in.X)
		s := in.X.Type().Underlying().(*types.Struct)
		f.env[in] = st.fieldOf(x, s, in.Field)
	case *ssa.IndexAddr:
		x := r.val(st, f, in.X)
		f.env[in] = T.mk("iaddr", "", in.Type(), x, r.val(st, f, in.Index))
	case *ssa.Index:
		f.env[in] = T.mk("index", "", in.Type(), r.val(st, f, in.X), r.val(st, f, in.Index))
	case *ssa.Lookup:
		r.lookup(st, f, in)
	case *ssa.MapUpdate:
		m, k, v := r.val(st, f, in.Map), r.val(st, f, in.Key), r.val(st, f, in.Value)
		st.emit(&Event{Kind: "mapupdate", Addr: m, Args: []*Term{k, v}, Val: v, Pos: in.Pos(), Instr: in})
		for c := range st.heap {
			if c.Op == "maddr" && c.Args[0] == m {
				delete(st.heap, c)
			}
		}
		st.heap[T.mk("maddr", "", nil, m, k)] = v
		st.heap[T.mk("mver", "", nil, m)] = T.sym("mver", nil)
	case *ssa.MakeMap:
		st.seq++
		f.env[in] = T.mk("makemap", fmt.Sprintf("#%p.%d", in, st.seq), in.Type())
	case *ssa.MakeSlice:
		st.seq++
		f.env[in] = T.mk("makeslice", fmt.Sprintf("#%p.%d", in, st.seq), in.Type(), r.val(st, f, in.Len), r.val(st, f, in.Cap))
	case *ssa.MakeChan:
		st.seq++
		f.env[in] = T.mk("makechan", fmt.Sprintf("#%p.%d", in, st.seq), in.Type(), r.val(st, f, in.Size))
	case *ssa.MakeInterface:
		x := r.val(st, f, in.X)
		if _, isIf := in.X.Type().Underlying().(*types.Interface); !isIf {
			switch x.Op {
			case "nil":
				// typed nil in an interface
				x = T.mk("typednil", types.TypeString(in.X.Type(), nil), in.X.Type())
			}
			if _, ok := st.dyn[x]; !ok && !x.IsConst() {
				st.dyn[x] = in.X.Type()
			}
		}
		f.env[in] = x
	case *ssa.ChangeInterface:
		f.env[in] = r.val(st, f, in.X)
	case *ssa.ChangeType:
		f.env[in] = r.val(st, f, in.X)
	case *ssa.Convert:
		x := r.val(st, f, in.X)
		fu, tu := in.X.Type().Underlying(), in.Type().Underlying()
		_, fb := fu.(*types.Basic)
		_, tb := tu.(*types.Basic)
		if fb && tb {
			fi, ti := fu.(*types.Basic).Info(), tu.(*types.Basic).Info()
			if fi&types.IsString != 0 && ti&types.IsString != 0 || fi&types.IsNumeric != 0 && ti&types.IsNumeric != 0 {
				f.env[in] = x
				break
			}
		}
		f.env[in] = T.mk("conv", types.TypeString(in.Type(), nil), in.Type(), x)
	case *ssa.MultiConvert:
		f.env[in] = T.mk("conv", types.TypeString(in.Type(), nil), in.Type(), r.val(st, f, in.X))
	case *ssa.SliceToArrayPointer:
		f.env[in] = T.mk("conv", "arrptr", in.Type(), r.val(st, f, in.X))
	case *ssa.Slice:
		r.slice(st, f, in)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, r.val(st, f, b))
		}
		t := T.mk("closure", fmt.Sprintf("%p", fn), in.Type(), bs...)
		t.Fn = fn
		f.env[in] = t
	case *ssa.TypeAssert:
		return r.typeAssert(st, f, in)
	case *ssa.Extract:
		t := r.val(st, f, in.Tuple)
		if t.Op == "tuple" && in.Index < len(t.Args) {
			f.env[in] = t.Args[in.Index]
		} else {
			f.env[in] = T.mk("ext", fmt.Sprintf("%d", in.Index), in.Type(), t)
		}
	case *ssa.Range:
		st.seq++
		f.env[in] = T.mk("range", fmt.Sprintf("#%p.%d", in, st.seq), in.Type(), r.val(st, f, in.X))
	case *ssa.Next:
		it := r.val(st, f, in.Iter)
		st.seq++
		id := fmt.Sprintf("#%p.%d", in, st.seq)
		tt := in.Type().(*types.Tuple)
		f.env[in] = T.mk("tuple", "", nil, T.mk("nextok", id, types.Typ[types.Bool], it), T.mk("nextkey", id, tt.At(1).Type(), it),
			T.mk("nextval", id, tt.At(2).Type(), it))
	case *ssa.Store:
		a, v := r.val(st, f, in.Addr), r.val(st, f, in.Val)
		st.emit(&Event{Kind: "store", Addr: a, Val: v, Pos: in.Pos(), Instr: in})
		if !st.local(a) {
			st.escape(v)
		}
		st.store(a, v, in.Val.Type())
	case *ssa.Send:
		c, v := r.val(st, f, in.Chan), r.val(st, f, in.X)
		st.emit(&Event{Kind: "send", Recv: c, Val: v, Pos: in.Pos(), Instr: in})
		st.escape(v)
	case *ssa.Select:
		return r.selct(st, f, in)
	case *ssa.Go:
		fn, recv, args := r.callOperands(st, f, &in.Call)
		ev := &Event{Kind: "go", Callee: fn, Recv: recv, Args: args, Pos: in.Pos(), Instr: in}
		ev.Name, ev.Fn, ev.Method = r.calleeName(&in.Call, fn)
		st.emit(ev)
		st.escape(fn)
		for _, a := range args {
			st.escape(a)
		}
		st.escape(recv)
	case *ssa.Defer:
		fn, recv, args := r.callOperands(st, f, &in.Call)
		f.defers = append(f.defers, &deferRec{&in.Call, fn, recv, args, in})
		ev := &Event{Kind: "defer", Callee: fn, Recv: recv, Args: args, Pos: in.Pos(), Instr: in}
		ev.Name, ev.Fn, ev.Method = r.calleeName(&in.Call, fn)
		st.emit(ev)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.running = true
			f.afterRun = "normal"
		}
	case *ssa.Call:
		fn, recv, args := r.callOperands(st, f, &in.Call)
		return r.dispatch(st, &in.Call, in, fn, recv, args, in, false)
	case *ssa.Panic:
		v := r.val(st, f, in.X)
		st.emit(&Event{Kind: "panic", Val: v, Pos: in.Pos(), Instr: in})
		st.panicV = v
	case *ssa.Return:
		var rs []*Term
		for _, x := range in.Results {
			rs = append(rs, r.val(st, f, x))
		}
		return r.ret(st, f, r.tuple(rs))
	case *ssa.If:
		return r.branch(st, f, r.val(st, f, in.Cond), in)
	case *ssa.Jump:
		return r.enterBlock(st, f, f.block.Succs[0], f.block)
	default:
		r.err = fmt.Errorf("unsupported instruction %T in %s", in, f.fn)
		return false
	}
	return true
}

func (r *run) lookup(st *State, f *Frame, in *ssa.Lookup) {
	T := r.e.T
	m, k := r.val(st, f, in.X), r.val(st, f, in.Index)
	if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
		f.env[in] = T.mk("index", "", in.Type(), m, k)
		return
	}
	if r.pol.Watch != nil {
		st.emit(&Event{Kind: "mapread", Addr: m, Args: []*Term{k}, Pos: in.Pos(), Instr: in})
	}
	var elemT types.Type = in.X.Type().Underlying().(*types.Map).Elem()
	var v, ok *Term
	a := T.mk("maddr", "", nil, m, k)
	if c, has := st.heap[a]; has {
		v, ok = c, T.boolean(true)
	} else {
		ver := st.heap[T.mk("mver", "", nil, m)]
		if ver == nil && m.Op == "makemap" && st.local(m) {
			v, ok = T.zero(elemT), T.boolean(false)
		} else {
			ep := fmt.Sprintf("%d", st.epoch)
			if st.local(m) {
				ep = ""
			}
			if ver == nil {
				ver = T.nilT()
			}
			v = T.mk("mapget", ep, elemT, m, k, ver)
			ok = T.mk("mapok", ep, types.Typ[types.Bool], m, k, ver)
		}
	}
	if in.CommaOk {
		f.env[in] = T.mk("tuple", "", nil, v, ok)
	} else {
		f.env[in] = v
	}
}

func (r *run) slice(st *State, f *Frame, in *ssa.Slice) {
	T := r.e.T
	x := r.val(st, f, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return T.mk("none", "", nil)
		}
		return r.val(st, f, v)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && in.Low == nil && in.High == nil && x.Op == "alloc" && at.Len() < 200 {
			var es []*Term
			for i := int64(0); i < at.Len(); i++ {
				es = append(es, st.load(T.mk("iaddr", "", nil, x, T.cval(constant.MakeInt64(i), types.Typ[types.Int])), at.Elem()))
			}
			t := T.mk("slicelit", x.Aux, in.Type(), es...)
			t.Val = x.Val
			f.env[in] = t
			return
		}
	}
	if in.Low == nil && in.High == nil && in.Max == nil {
		f.env[in] = x
		return
	}
	f.env[in] = T.mk("slice", "", in.Type(), x, opt(in.Low), opt(in.High), opt(in.Max))
}

func (r *run) dynType(st *State, x *Term) types.Type {
	if t, ok := st.dyn[x]; ok {
		return t
	}
	if x.Type != nil {
		if _, isIf := x.Type.Underlying().(*types.Interface); !isIf {
			if _, isTup := x.Type.(*types.Tuple); !isTup {
				return x.Type
			}
		}
	}
	return nil
}

func (r *run) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) bool {
	T := r.e.T
	x := r.val(st, f, in.X)
	var okT *Term
	if x.IsNil() {
		okT = T.boolean(false)
	} else if dt := r.dynType(st, x); dt != nil {
		if it, isIf := in.AssertedType.Underlying().(*types.Interface); isIf {
			okT = T.boolean(types.Implements(dt, it))
		} else {
			okT = T.boolean(types.Identical(dt, in.AssertedType))
		}
	} else {
		okT = T.mk("isa", types.TypeString(in.AssertedType, nil), in.AssertedType, x)
	}
	if in.CommaOk {
		// fork here so that the value can be refined
		if v, known := st.decide(okT); known {
			res := x
			if !v {
				res = T.zero(in.AssertedType)
			}
			f.env[in] = T.mk("tuple", "", nil, res, T.boolean(v))
			return true
		}
		n := st.clone()
		n.assume(okT, false, in.Pos())
		n.top().env[in] = T.mk("tuple", "", nil, T.zero(in.AssertedType), T.boolean(false))
		r.work = append(r.work, n)
		st.assume(okT, true, in.Pos())
		f.env[in] = T.mk("tuple", "", nil, x, T.boolean(true))
		return true
	}
	st.emit(&Event{Kind: "assert", Val: x, Pos: in.Pos(), Instr: in})
	if v, known := st.decide(okT); known && !v {
		st.panicV = T.sym("typeassert", nil)
		st.emit(&Event{Kind: "panic", Name: "typeassert", Val: st.panicV, Pos: in.Pos(), Instr: in})
		return true
	} else if !known && r.pol.AssertPanics {
		n := st.clone()
		n.panicV = T.sym("typeassert", nil)
		n.emit(&Event{Kind: "panic", Name: "typeassert", Val: n.panicV, Pos: in.Pos(), Instr: in})
		r.work = append(r.work, n)
	}
	st.assume(okT, true, in.Pos())
	f.env[in] = x
	return true
}

func (r *run) selct(st *State, f *Frame, in *ssa.Select) bool {
	T := r.e.T
	ev := &Event{Kind: "select", Pos: in.Pos(), Instr: in, Block: in.Blocking}
	for _, s := range in.States {
		ev.Args = append(ev.Args, r.val(st, f, s.Chan))
	}
	st.emit(ev)
	mkRes := func(s *State, k int) {
		s.seq++
		var as []*Term
		as = append(as, T.cval(constant.MakeInt64(int64(k)), types.Typ[types.Int]))
		as = append(as, T.sym("recvok", types.Typ[types.Bool]))
		for i, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				ct := ss.Chan.Type().Underlying().(*types.Chan)
				as = append(as, T.mk("recv", fmt.Sprintf("#%d.%p.%d", s.seq, in, i), ct.Elem(), ev.Args[i]))
			}
		}
		s.top().env[in] = T.mk("tuple", "", nil, as...)
		if k >= 0 {
			kind := "recv"
			var val *Term
			if in.States[k].Dir == types.SendOnly {
				kind = "send"
				val = r.val(s, s.top(), in.States[k].Send)
			}
			s.emit(&Event{Kind: kind, Name: "select", Recv: ev.Args[k], Val: val, Pos: in.Pos(), Instr: in})
		}
	}
	n := len(in.States)
	for k := 1; k < n; k++ {
		mkRes(r.fork(st), k)
	}
	if !in.Blocking {
		mkRes(r.fork(st), -1)
	}
	if n > 0 {
		mkRes(st, 0)
		return true
	}
	if in.Blocking { // select {} blocks for ever
		r.finish(st, "exit", nil)
	}
	return false
}

func (r *run) callOperands(st *State, f *Frame, c *ssa.CallCommon) (fn, recv *Term, args []*Term) {
	for _, a := range c.Args {
		args = append(args, r.val(st, f, a))
	}
	if c.IsInvoke() {
		recv = r.val(st, f, c.Value)
		return nil, recv, args
	}
	fn = r.val(st, f, c.Value)
	return fn, nil, args
}

// FuncKey is the canonical name of a function or method object.
func FuncKey(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	pk := ""
	if o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if sig.Recv() != nil {
		rt := sig.Recv().Type()
		if n := namedOf(rt); n != nil {
			pk = ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path()
			}
			return "(" + pk + "." + n.Obj().Name() + ")." + o.Name()
		}
		return "(" + pk + ")." + o.Name()
	}
	return pk + "." + o.Name()
}

func (r *run) calleeName(c *ssa.CallCommon, fn *Term) (string, *ssa.Function, *types.Func) {
	if c != nil && c.IsInvoke() {
		// name by the static interface type so that embedding doesn't matter
		return FuncKey(c.Method), nil, c.Method
	}
	if fn != nil {
		switch fn.Op {
		case "func", "closure":
			if o, ok := fn.Fn.Object().(*types.Func); ok {
				return FuncKey(o), fn.Fn, o
			}
			return fn.Fn.String(), fn.Fn, nil
		case "builtin":
			return fn.Aux, nil, nil
		}
	}
	return "", nil, nil
}

func (st *State) escape(t *Term) {
	if t == nil {
		return
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "alloc", "makemap", "makeslice", "slicelit", "makechan":
			if !st.esc[t] {
				st.esc[t] = true
			}
			for k, v := range st.heap {
				if root(k) == t {
					visit(v)
				}
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(t)
}

var privateCells = map[*ssa.Alloc]bool{}

// private is true for a variable that only the function that declares it assigns, although closures may read it.
func (e *Engine) private(t *Term) bool {
	al, ok := t.Val.(*ssa.Alloc)
	if !ok {
		return false
	}
	if p, ok := privateCells[al]; ok {
		return p
	}
	var only func(v ssa.Value, owner bool) bool
	only = func(v ssa.Value, owner bool) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
			case *ssa.Store:
				if r.Val == v || !owner {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v && !only(r.Fn.(*ssa.Function).FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	p := only(al, true)
	privateCells[al] = p
	return p
}

func (r *run) havoc(st *State) {
	st.epoch++
	for k := range st.heap {
		if k.Op == "mver" {
			if !st.local(k.Args[0]) {
				st.heap[k] = r.e.T.sym("mver", nil)
			}
			continue
		}
		if st.local(k) || st.stableAddr(k) {
			continue
		}
		if r.pol.StableField != nil {
			if v := FieldOf(k); v != nil && r.pol.StableField(v) {
				continue
			}
		}
		var typ types.Type
		if st.heap[k] != nil {
			typ = st.heap[k].Type
		}
		rt := root(k)
		if rt == k && k.Op == "alloc" && r.e.private(k) {
			continue
		}
		if rt.Op == "alloc" || rt.Op == "slicelit" || rt.Op == "makeslice" {
			// content of an escaped variable
			if typ == nil {
				if pt, ok := k.Type.(*types.Pointer); ok {
					typ = pt.Elem()
				}
			}
			st.heap[k] = r.e.T.mk("changed", fmt.Sprintf("%d", st.epoch), typ, k)
		} else {
			delete(st.heap, k)
		}
	}
}

// dispatch performs a call.
func (r *run) dispatch(st *State, c *ssa.CallCommon, in ssa.Instruction, fn, recv *Term, args []*Term, bind ssa.Value, isDefer bool) bool {
	T := r.e.T
	pos := in.Pos()
	setRes := func(s *State, v *Term) {
		if bind != nil {
			s.top().env[bind] = v
		}
	}
	// builtins
	if fn != nil && fn.Op == "builtin" {
		return r.builtin(st, fn.Aux, c, in, args, bind, isDefer)
	}
	// resolve target
	var target *ssa.Function
	var free []*Term
	name, _, method := r.calleeName(c, fn)
	if recv != nil {
		if recv.IsNil() {
			st.emit(&Event{Kind: "panic", Name: "nilderef", Pos: pos, Instr: in})
			st.panicV = T.sym("nilderef", nil)
			return true
		}
		if dt := r.dynType(st, recv); dt != nil {
			if f := r.e.P.MethodOf(dt, method); f != nil && r.e.P.InRepo(f) {
				target = f
			}
		} else if fs := r.e.P.ImplFuncs(c.Value.Type(), method); len(fs) == 1 {
			target = fs[0]
		} else if len(fs) > 1 && r.pol.MultiImpl != nil && r.pol.MultiImpl(method) {
			for i, f := range fs {
				s := st
				if i < len(fs)-1 {
					s = st.clone()
				}
				s.dyn[recv] = f.Signature.Recv().Type()
				ok := r.enter(s, f, append([]*Term{recv}, args...), nil, bind, isDefer, in)
				if i < len(fs)-1 {
					if ok {
						r.work = append(r.work, s)
					}
				} else {
					return ok
				}
			}
		}
		if target != nil && target.Signature.Recv() != nil {
			// a value receiver called through a pointer dynamic type is handled by wrapper functions
			args = append([]*Term{recv}, args...)
			recv = nil
		}
	} else if fn != nil {
		switch fn.Op {
		case "func":
			target = fn.Fn
		case "closure":
			target = fn.Fn
			free = fn.Args
		case "init":
			if len(fn.Args) > 0 {
				if g, ok := fn.Args[0].Val.(*ssa.Global); ok {
					target = r.e.P.constFunc(g)
				}
			}
		case "nil":
			st.emit(&Event{Kind: "panic", Name: "nilcall", Pos: pos, Instr: in})
			st.panicV = T.sym("nilcall", nil)
			return true
		}
	}
	if target != nil && len(target.Blocks) > 0 {
		inl := false
		switch {
		case target.Synthetic != "" && target.Object() != nil && r.e.P.InRepo(target):
			inl = true // wrappers, thunks and bound methods
		case strings.HasSuffix(target.Name(), "$bound") || strings.HasSuffix(target.Name(), "$thunk"):
			inl = r.e.P.InRepo(target)
		case r.e.P.InRepo(target):
			inl = r.pol.Inline != nil && r.pol.Inline(target)
		}
		if inl {
			depth := 0
			for _, g := range st.frames {
				if g.fn == target {
					depth++
				}
			}
			if depth > r.pol.AllowRecursion || len(st.frames) >= r.pol.MaxDepth {
				inl = false
			}
		}
		if inl {
			return r.enter(st, target, args, free, bind, isDefer, in)
		}
	}
	// opaque call
	ev := &Event{Kind: "call", Name: name, Fn: target, Method: method, Callee: fn, Recv: recv, Args: args, Pos: pos, Instr: in,
		IsFn: fn != nil && fn.Op != "func" && fn.Op != "closure", Defer: isDefer}
	if target != nil && recv == nil && method != nil && target.Signature.Recv() != nil && len(args) > 0 {
		// normalize: methods called statically have the receiver as first argument
		ev.Recv = args[0]
		ev.Args = args[1:]
	} else if fn != nil && fn.Op == "func" && fn.Fn.Signature.Recv() != nil && len(args) > 0 {
		ev.Recv = args[0]
		ev.Args = args[1:]
	}
	ev.Args = st.expand(c, ev.Args)
	var rtyp types.Type
	if bind != nil {
		rtyp = bind.Type()
	}
	if rtyp == nil {
		rtyp = c.Signature().Results()
	}
	all := append([]*Term{}, ev.Args...)
	if ev.Recv != nil {
		all = append([]*Term{ev.Recv}, all...)
	}
	aux := name
	pure := isPure(name)
	if !pure {
		st.seq++
		aux = fmt.Sprintf("%s#%d.%p", name, st.seq, in)
	}
	if ev.IsFn {
		all = append([]*Term{fn}, all...)
	}
	res := T.mk("call", aux, rtyp, all...)
	if res.Ev == nil {
		res.Ev = ev
	}
	ev.Res = res
	if isExit(name) {
		st.emit(ev)
		r.finish(st, "exit", nil)
		return false
	}
	if r.pol.Snap != nil {
		ev.Snap = r.pol.Snap(st, ev)
	}
	if r.pol.MayPanic != nil && r.pol.MayPanic(ev) {
		n := st.clone()
		pe := *ev
		pe.Panics = true
		n.emit(&pe)
		r.postCall(n, &pe, pure)
		n.panicV = T.sym("callpanic", nil)
		if len(n.frames) > 0 {
			// callbacks may have run before the panic; the model explores callbacks only on the normal path
			r.work = append(r.work, n)
		}
	}
	st.emit(ev)
	// callbacks
	for ai, a := range ev.Args {
		if a != nil && (a.Op == "closure" || a.Op == "func") && r.e.P.InRepo(a.Fn) && len(a.Fn.Blocks) > 0 {
			mode := r.syncMode(ev, a)
			if mode == "no" {
				continue
			}
			_ = ai
			return r.callback(st, ev, a, mode, 0, bind, res, pure, nil)
		}
	}
	r.postCall(st, ev, pure)
	setRes(st, res)
	return true
}

// expand replaces the slice of a variadic call with the elements when they are known.
func (st *State) expand(c *ssa.CallCommon, args []*Term) []*Term {
	if c == nil || len(args) == 0 {
		return args
	}
	if !c.Signature().Variadic() {
		return args
	}
	last := args[len(args)-1]
	if last != nil && last.Op == "slicelit" {
		out := append([]*Term{}, args[:len(args)-1]...)
		return append(out, last.Args...)
	}
	if last != nil && last.IsNil() {
		return args[:len(args)-1]
	}
	return args
}

func (r *run) postCall(st *State, ev *Event, pure bool) {
	if pure || r.pol.NoHavoc != nil && r.pol.NoHavoc(ev) || readOnlyCall(ev.Name) {
		return
	}
	st.escape(ev.Recv)
	for _, a := range ev.Args {
		st.escape(a)
	}
	if ev.IsFn {
		st.escape(ev.Callee)
	}
	r.havoc(st)
}

func (r *run) syncMode(ev *Event, a *Term) string {
	if r.pol.Sync != nil {
		if m := r.pol.Sync(ev, a); m != "" {
			return m
		}
	}
	return syncMode(ev.Name)
}

// callback models a synchronous call of a function argument by an opaque function.
func (r *run) callback(st *State, ev *Event, cl *Term, mode string, n int, bind ssa.Value, res *Term, pure bool, snap map[*Term]*Term) bool {
	done := func(s *State) {
		r.postCall(s, ev, pure)
		if bind != nil {
			s.top().env[bind] = res
		}
	}
	call := func(s *State, k int) bool {
		var as []*Term
		for i := 0; i < cl.Fn.Signature.Params().Len(); i++ {
			pt := cl.Fn.Signature.Params().At(i).Type()
			as = append(as, r.e.T.mk("cbarg", fmt.Sprintf("%d.%d", i, k), pt, res))
		}
		h := make(map[*Term]*Term, len(s.heap))
		for a, v := range s.heap {
			h[a] = v
		}
		s.emit(&Event{Kind: "callback", Name: ev.Name, Fn: cl.Fn, Callee: cl, Args: as, Pos: ev.Pos, Recv: ev.Recv, Res: res})
		fr := r.e.newFrame(cl.Fn)
		fr.free = cl.Args
		for i, p := range cl.Fn.Params {
			if i < len(as) {
				fr.env[p] = as[i]
			}
		}
		fr.onRet = func(s2 *State, cres *Term, panicked bool) {
			if panicked {
				return
			}
			s2.emit(&Event{Kind: "callbackret", Name: ev.Name, Fn: cl.Fn, Val: cres, Pos: ev.Pos, Res: res})
			if mode == "once" || k >= 1 {
				done(s2)
				return
			}
			// stop, or one more time with arbitrary values
			n2 := s2.clone()
			done(n2)
			r.work = append(r.work, n2)
			for a, v := range s2.heap {
				if o, ok := h[a]; ok && o != v && mode != "twice" {
					var typ types.Type
					if v != nil {
						typ = v.Type
					}
					s2.heap[a] = r.e.T.mk("loopcell", ev.Name, typ, a, o, v)
				}
			}
			r.callback(s2, ev, cl, mode, 1, bind, res, pure, nil)
		}
		s.frames = append(s.frames, fr)
		return r.enterBlock(s, fr, cl.Fn.Blocks[0], nil)
	}
	if n == 0 && (mode == "many" || mode == "twice") {
		z := st.clone()
		done(z)
		r.work = append(r.work, z)
	}
	return call(st, n)
}

func (r *run) enter(st *State, target *ssa.Function, args, free []*Term, bind ssa.Value, isDefer bool, in ssa.Instruction) bool {
	ev := &Event{Kind: "enter", Name: r.e.P.FuncName(target), Fn: target, Args: args, Pos: in.Pos(), Instr: in, Defer: isDefer}
	if o, ok := target.Object().(*types.Func); ok {
		ev.Method = o
	}
	st.emit(ev)
	fr := r.e.newFrame(target)
	fr.free = free
	fr.call = bind
	fr.enterEv = ev
	for i, p := range target.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	if isDefer {
		fr.isDefer = true
		if st.panicV != nil {
			// the deferred function runs normally; remember the panic in the frame
			pv := st.panicV
			st.panicV = nil
			fr.env[panicKey] = pv
			fr.onRet = func(s *State, res *Term, panicked bool) {
				if panicked {
					s.top().recovered = false
					return // replaced by a new panic
				}
				if s.top().recovered {
					s.panicV = nil
				} else {
					s.panicV = pv
				}
			}
		}
	}
	st.frames = append(st.frames, fr)
	return r.enterBlock(st, fr, target.Blocks[0], nil)
}

var panicKey = ssa.Value(&ssa.Builtin{})

func (r *run) builtin(st *State, name string, c *ssa.CallCommon, in ssa.Instruction, args []*Term, bind ssa.Value, isDefer bool) bool {
	T := r.e.T
	set := func(t *Term) {
		if bind != nil {
			st.top().env[bind] = t
		}
	}
	var typ types.Type
	if bind != nil {
		typ = bind.Type()
	}
	switch name {
	case "len", "cap":
		x := args[0]
		if name == "len" && x.Op == "slicelit" {
			set(T.cval(constant.MakeInt64(int64(len(x.Args))), types.Typ[types.Int]))
			return true
		}
		if name == "len" {
			if s, ok := x.StrConst(); ok {
				set(T.cval(constant.MakeInt64(int64(len(s))), types.Typ[types.Int]))
				return true
			}
			if x.IsNil() {
				set(T.cval(constant.MakeInt64(0), types.Typ[types.Int]))
				return true
			}
			if x.Op == "makeslice" {
				set(x.Args[0])
				return true
			}
		}
		set(T.mk(name, "", types.Typ[types.Int], x))
	case "append":
		x := args[0]
		var es []*Term
		spread := false
		if len(args) > 1 {
			if args[1].Op == "slicelit" {
				es = args[1].Args
			} else if args[1].IsNil() {
			} else {
				es = []*Term{args[1]}
				spread = true
			}
		}
		op := "append"
		if !spread && len(es) > 0 {
			op = "append1"
		}
		t := T.mk(op, "", typ, append([]*Term{x}, es...)...)
		st.emit(&Event{Kind: "append", Recv: x, Args: es, Res: t, Pos: in.Pos(), Instr: in, Bool: spread})
		set(t)
	case "copy":
		st.emit(&Event{Kind: "copy", Addr: args[0], Val: args[1], Pos: in.Pos(), Instr: in})
		set(T.sym("copied", typ))
	case "delete":
		st.emit(&Event{Kind: "mapdelete", Addr: args[0], Args: args[1:], Pos: in.Pos(), Instr: in})
		for cst := range st.heap {
			if cst.Op == "maddr" && cst.Args[0] == args[0] {
				delete(st.heap, cst)
			}
		}
		st.heap[T.mk("mver", "", nil, args[0])] = T.sym("mver", nil)
	case "panic":
		st.emit(&Event{Kind: "panic", Val: args[0], Pos: in.Pos(), Instr: in})
		st.panicV = args[0]
	case "recover":
		f := st.top()
		if f.isDefer && f.env[panicKey] != nil {
			pv := f.env[panicKey]
			below := st.frames[len(st.frames)-2]
			below.recovered = true
			f.env[panicKey] = nil
			st.emit(&Event{Kind: "recover", Val: pv, Pos: in.Pos(), Instr: in})
			if pv.Op == "sym" {
				st.facts[r.e.eq(pv, T.nilT())] = false
			}
			set(pv)
			// recover() != nil is known
			st.assume(r.e.eq(pv, T.nilT()), false, in.Pos())
		} else {
			set(T.nilT())
		}
	case "close":
		st.emit(&Event{Kind: "close", Recv: args[0], Pos: in.Pos(), Instr: in})
	case "print", "println":
	case "ssa:wrapnilchk":
		set(args[0])
	case "min", "max", "complex", "real", "imag", "clear", "new":
		set(T.mk("builtin:"+name, "", typ, args...))
	default:
		set(T.mk("builtin:"+name, "", typ, args...))
	}
	return true
}

// isExit is true for functions that never return.
func isExit(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit",
		"github.com/sirupsen/logrus.Fatal", "github.com/sirupsen/logrus.Fatalf":
		return true
	}
	return false
}

var purePkgs = []string{"strings.", "strconv.", "path/filepath.", "path.", "errors.", "fmt.Sprint", "fmt.Errorf", "unicode.", "regexp.MustCompile"}

// isPure is true for functions whose result only depends on their arguments
func isPure(name string) bool {
	switch name {
	case "strings.NewReader", "strings.NewReplacer", "errors.New", "path/filepath.Walk", "path/filepath.Abs", "path/filepath.Glob", "path/filepath.EvalSymlinks":
		return false
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "(error).Error", "reflect.ValueOf", "reflect.TypeOf", "(reflect.Value).Len",
		"(reflect.Value).Kind", "(reflect.Value).Index", "(reflect.Value).CanInterface", "(reflect.Value).Interface",
		"(github.com/lyraproj/dgo/dgo.String).GoString", "(github.com/lyraproj/dgo/dgo.Boolean).GoBool",
		"(github.com/lyraproj/dgo/dgo.Integer).GoInt",
		"(github.com/lyraproj/dgo/dgo.MapEntry).Key", "(github.com/lyraproj/dgo/dgo.MapEntry).Value",
		"github.com/lyraproj/dgo/util.ContainsString",
		"github.com/lyraproj/dgo/vf.String", "github.com/lyraproj/dgo/vf.Integer":
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readOnlyCall is true for calls that don't modify memory reachable by the repo
func readOnlyCall(name string) bool {
	if strings.HasPrefix(name, "(sync.") || strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "io/ioutil.") ||
		strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(*regexp") ||
		strings.HasPrefix(name, "(regexp.") || strings.HasPrefix(name, "github.com/lyraproj/dgo/vf.") ||
		strings.HasPrefix(name, "github.com/lyraproj/dgo/util.") || strings.HasPrefix(name, "(reflect.") {
		return true
	}
	if strings.HasPrefix(name, "(github.com/lyraproj/dgo/dgo.") {
		i := strings.LastIndexByte(name, '.')
		switch name[i+1:] {
		case "Call":
			return false
		}
		return true
	}
	return false
}

var syncOnce = map[string]bool{
	"(github.com/lyraproj/dgo/dgo.AliasMap).Collect": true,
	"github.com/lyraproj/dgo/util.Catch":             true,
	"(sync.Once).Do":                                 true,
}

// syncMode tells how an external function calls its function arguments before it returns
func syncMode(name string) string {
	if syncOnce[name] {
		return "once"
	}
	if strings.HasPrefix(name, "(github.com/lyraproj/dgo/dgo.") || strings.HasPrefix(name, "(regexp.Regexp)") ||
		strings.HasPrefix(name, "(sync.Map).Range") || strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") ||
		strings.HasPrefix(name, "strings.") || strings.HasSuffix(name, ".MergeLookup") {
		return "many"
	}
	return "no"
}

// FactsBefore returns the facts established before event index i of a path.
func (p *Path) FactsBefore(i int) map[*Term]bool {
	m := map[*Term]bool{}
	for j := 0; j < i && j < len(p.Events); j++ {
		if ev := p.Events[j]; ev.Kind == "fact" {
			m[ev.Val] = ev.Bool
		}
	}
	return m
}

// Dump prints a path for diagnosis.
func (p *Path) Dump(pr *Prog) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "== exit=%s res=%v\n", p.Exit, p.Res)
	for _, ev := range p.Events {
		fmt.Fprintf(&sb, "   %s%s [%s]\n", strings.Repeat(" ", ev.Depth), ev, pr.Position(ev.Pos))
	}
	return sb.String()
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
