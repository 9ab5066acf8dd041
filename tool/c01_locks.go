package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C01", Technique: "lock typestate over all paths, including panics (path-sensitive dataflow on SSA)",
		Explain: "Every function that acquires or releases a sync.Mutex or sync.RWMutex (found by resolved callee, helpers and closures inlined) is explored path by path; every call that is not provably panic free also ends in a panic. " +
			"On each exit (return or panic) no lock acquired on the path may be held; no lock may be acquired twice or released when not held. A lock stored in a shared map as a placeholder must be replaced or deleted on every exit before it is released, and a value loaded from a shared map may be asserted only when the load succeeded.",
		Check: checkLocks})
}

// lockOp classifies a callee as a lock operation.
func lockOp(name string) (acq, rel bool, mode string) {
	switch name {
	case "(sync.Mutex).Lock", "(sync.RWMutex).Lock", "(sync.Locker).Lock":
		return true, false, "w"
	case "(sync.RWMutex).RLock":
		return true, false, "r"
	case "(sync.Mutex).Unlock", "(sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return false, true, "w"
	case "(sync.RWMutex).RUnlock":
		return false, true, "r"
	}
	return false, false, ""
}

// neverPanics is true for opaque calls that cannot panic in normal operation.
func neverPanics(ev *Event) bool {
	n := ev.Name
	if isPure(n) {
		return true
	}
	if strings.HasPrefix(n, "(sync.") || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "os.") {
		return true
	}
	switch n {
	case "(" + dgoPkg + ".Keyed).Get", "(" + dgoPkg + ".Map).Get", "(" + dgoPkg + ".Map).ContainsKey", "(" + dgoPkg + ".Array).Len", "(" + dgoPkg + ".Map).Len",
		"fmt.Sprintf", "(os.Process).Kill", "(os.Process).Wait", "(os.Process).Signal":
		return true
	}
	return false
}

// touches computes the repo functions that, transitively through static calls, closures and references, satisfy base.
func (p *Prog) touches(base func(*ssa.Function) bool) map[*ssa.Function]bool {
	t := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if base(f) {
			t[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if t[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && t[g] {
							t[f] = true
							ch = true
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
						if fs := p.ImplFuncs(ci.Common().Value.Type(), ci.Common().Method); len(fs) == 1 && t[fs[0]] && pkgOf(fs[0]) == pkgOf(f) {
							t[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
	return t
}

type heldLock struct {
	lock *Term
	mode string
	ev   *Event
}

func checkLocks(c *Ctx) {
	touch := c.P.touches(func(f *ssa.Function) bool {
		for _, ci := range calls(f) {
			if a, r, _ := lockOp(calleeKey(ci)); a || r {
				return true
			}
		}
		return false
	})
	pol := func(root *ssa.Function) *Policy {
		return &Policy{
			Inline: func(f *ssa.Function) bool {
				return pkgOf(f) == pkgOf(root) && (f.Parent() != nil || touch[f] || c.piece(f))
			},
			MayPanic: func(ev *Event) bool { return !neverPanics(ev) },
		}
	}
	// static callers
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
					if _, isGo := in.(*ssa.Go); isGo {
						callee = nil
					}
					if ci.Common().IsInvoke() {
						for _, g := range c.P.ImplFuncs(ci.Common().Value.Type(), ci.Common().Method) {
							escapes[g] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if *op == callee {
							callers[g] = append(callers[g], f)
						} else {
							escapes[g] = true
						}
					}
				}
			}
		}
	}
	type res struct {
		construct, msg string
		pos            token.Pos
		path           *Path
	}
	entered := map[*ssa.Function]bool{}
	analyse := func(f *ssa.Function) (rs []res, acquired int) {
		paths := c.Run(f, pol(f))
		sites := map[ssa.Instruction]bool{}
		for _, p := range paths {
			var held []heldLock
			for _, ev := range p.Events {
				if ev.Kind == "enter" || ev.Kind == "callback" {
					entered[ev.Fn] = true
				}
				if ev.Kind == "call" && ev.Fn != nil && ev.In != nil {
					entered[ev.In] = true
				}
				if ev.In != nil {
					entered[ev.In] = true
				}
				if ev.Kind != "call" {
					continue
				}
				a, r, mode := lockOp(ev.Name)
				if a {
					sites[ev.Instr] = true
					for _, h := range held {
						if h.lock == ev.Recv && (mode == "w" || h.mode == "w") {
							rs = append(rs, res{c.N(f) + " acquires twice", "acquires a lock that is already held on this path (self deadlock)", ev.Pos, p})
						}
					}
					held = append(held, heldLock{ev.Recv, mode, ev})
				}
				if r {
					found := false
					for i := len(held) - 1; i >= 0; i-- {
						if held[i].lock == ev.Recv && held[i].mode == mode {
							held = append(append([]heldLock{}, held[:i]...), held[i+1:]...)
							found = true
							break
						}
					}
					if !found {
						rs = append(rs, res{c.N(f) + " releases unheld", "releases a lock that isn't held on this path", ev.Pos, p})
					}
				}
			}
			if p.Exit == "return" || p.Exit == "panic" {
				for _, h := range held {
					rs = append(rs, res{c.N(f) + " leaves lock held", "a lock acquired at " + c.P.Position(h.ev.Pos) + " is still held when the function ends with a " + p.Exit, h.ev.Pos, p})
				}
			}
			c.placeholder(f, p)
		}
		return rs, len(sites)
	}
	total := map[ssa.Instruction]bool{}
	for _, f := range c.P.Funcs {
		if !touch[f] {
			continue
		}
		for _, ci := range calls(f) {
			if a, _, _ := lockOp(calleeKey(ci)); a {
				total[ci] = true
			}
		}
	}
	c.Count("lock acquisition sites", len(total))
	c.Min("lock acquisition sites", 5)
	for pass := 0; pass < 2; pass++ {
		for _, f := range c.P.Funcs {
			if !touch[f] || f.Synthetic != "" {
				continue
			}
			if pass == 0 && f.Parent() != nil || pass == 1 && (f.Parent() == nil || entered[f]) {
				continue
			}
			rs, _ := analyse(f)
			if len(rs) == 0 {
				c.Good("locks balanced on all exits of %s", c.N(f))
				continue
			}
			// an unexported helper that is only called statically is judged together with its callers
			helper := f.Parent() == nil && !token.IsExported(f.Name()) && !escapes[f] && len(callers[f]) > 0
			if helper {
				for _, cl := range callers[f] {
					if pkgOf(cl) != pkgOf(f) || outer(cl) == f {
						helper = false
					}
				}
			}
			if helper {
				c.Count("lock helpers judged in their callers", 1)
				continue
			}
			for _, r := range rs {
				c.Bad("lock-balance", r.construct, r.pos, r.path, "%s: %s", c.N(f), r.msg)
			}
		}
	}
	// loads from shared maps
	for _, f := range c.P.topFuncs() {
		uses := false
		for _, g := range append([]*ssa.Function{f}, closuresOf(f)...) {
			for _, ci := range calls(g) {
				if calleeKey(ci) == "(sync.Map).Load" {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		for _, p := range c.Run(f, &Policy{Inline: func(g *ssa.Function) bool { return g.Parent() != nil && pkgOf(g) == pkgOf(f) }}) {
			for i, ev := range p.Events {
				if ev.Kind != "assert" || ev.Val == nil || ev.Val.Op != "ext" || ev.Val.Aux != "0" || ev.Val.Args[0].CallName() != "(sync.Map).Load" {
					continue
				}
				okT := c.E.T.mk("ext", "1", types.Typ[types.Bool], ev.Val.Args[0])
				c.Must(p.FactsBefore(i)[okT], "load-checked", c.N(ev.In)+" asserts a loaded value", ev.Pos, p,
					"a value loaded from a shared map is used without knowing that the load succeeded")
				c.Count("uses of values loaded from shared maps", 1)
			}
		}
	}
	c.Min("uses of values loaded from shared maps", 2)
	c.Min("placeholders followed to an exit", 2)
}

// placeholder verifies that a lock that was stored in a shared map doesn't stay there.
func (c *Ctx) placeholder(f *ssa.Function, p *Path) {
	if p.Exit != "return" && p.Exit != "panic" {
		return
	}
	for i, ev := range p.Events {
		if ev.Kind != "call" || ev.Name != "(sync.Map).LoadOrStore" || len(ev.Args) < 2 {
			continue
		}
		lk := ev.Args[1]
		if lk.Type == nil {
			continue
		}
		if !isNamed(lk.Type, "sync", "RWMutex") && !isNamed(lk.Type, "sync", "Mutex") {
			continue
		}
		loaded := c.E.T.mk("ext", "1", types.Typ[types.Bool], ev.Res)
		if v, known := p.St.facts[loaded]; !known || v {
			continue
		}
		c.Count("placeholders followed to an exit", 1)
		replaced := false
		for _, e2 := range p.Events[i+1:] {
			if e2.Kind != "call" {
				continue
			}
			if _, rel, _ := lockOp(e2.Name); rel && e2.Recv == lk {
				break
			}
			if e2.Panics {
				continue
			}
			switch e2.Name {
			case "(sync.Map).Delete", "(sync.Map).Swap", "(sync.Map).LoadAndDelete", "(sync.Map).CompareAndDelete":
				if e2.Recv == ev.Recv && e2.Args[0] == ev.Args[0] {
					replaced = true
				}
			case "(sync.Map).Store":
				if e2.Recv == ev.Recv && (len(e2.Args) > 1 && !e2.Args[1].IsNil()) {
					replaced = true
				}
			}
		}
		c.Must(replaced, "placeholder", c.N(f)+" leaves placeholder on "+p.Exit, ev.Pos, p,
			"the lock stored as a placeholder in a shared map is neither replaced nor deleted before it is released when %s ends with a %s", c.N(f), p.Exit)
	}
}
