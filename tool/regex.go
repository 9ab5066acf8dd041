package main

import (
	"fmt"
	"go/constant"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// patternOf returns the pattern of a regular expression that is a package variable or compiled in place
func (c *Ctx) patternOf(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if t.Op == "call" && strings.HasPrefix(t.CallName(), "regexp.MustCompile") {
		return t.Args[0].StrConst()
	}
	if t.Op != "init" && t.Op != "changed" || len(t.Args) == 0 {
		return "", false
	}
	g, ok := t.Args[0].Val.(*ssa.Global)
	if !ok {
		return "", false
	}
	for _, st := range c.globalStores(g) {
		if call, ok := st.Val.(*ssa.Call); ok && strings.HasPrefix(calleeKey(call), "regexp.MustCompile") {
			if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				return constant.StringVal(k.Value), true
			}
		}
	}
	return "", false
}

// globalStores finds all stores to a package variable
func (c *Ctx) globalStores(g *ssa.Global) (sts []*ssa.Store) {
	fs := append([]*ssa.Function{}, c.P.Funcs...)
	if f := g.Pkg.Func("init"); f != nil {
		fs = append(fs, f)
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fs {
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					sts = append(sts, st)
				}
			}
		}
	}
	return
}

// sameLanguage decides if two regular expressions accept the same strings, as a whole and for each group
func sameLanguage(a, b string) (bool, error) {
	ra, err := syntax.Parse(a, syntax.Perl)
	if err != nil {
		return false, err
	}
	rb, err := syntax.Parse(b, syntax.Perl)
	if err != nil {
		return false, err
	}
	if ra.MaxCap() != rb.MaxCap() {
		return false, nil
	}
	ga, gb := map[int]*syntax.Regexp{0: ra}, map[int]*syntax.Regexp{0: rb}
	captures(ra, ga)
	captures(rb, gb)
	if ok, err := equivalent(ra, rb, true); !ok || err != nil {
		return false, err
	}
	for i := range ga {
		ok, err := equivalent(ga[i], gb[i], false)
		if !ok || err != nil {
			return false, err
		}
	}
	return true, nil
}

func captures(r *syntax.Regexp, m map[int]*syntax.Regexp) {
	if r.Op == syntax.OpCapture {
		m[r.Cap] = r.Sub[0]
	}
	for _, s := range r.Sub {
		captures(s, m)
	}
}

// equivalent compares the sets of strings that the expressions match from begin to end, or somewhere
func equivalent(a, b *syntax.Regexp, anywhere bool) (bool, error) {
	pa, err := syntax.Compile(a.Simplify())
	if err != nil {
		return false, err
	}
	pb, err := syntax.Compile(b.Simplify())
	if err != nil {
		return false, err
	}
	// representatives of all classes of characters
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true}
	for _, p := range []*syntax.Prog{pa, pb} {
		for _, in := range p.Inst {
			for i, r := range in.Rune {
				if len(in.Rune) == 1 || i%2 == 1 {
					cut[r+1] = true
				}
				if len(in.Rune) == 1 || i%2 == 0 {
					cut[r] = true
				}
				if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					return false, fmt.Errorf("case folding isn't supported")
				}
			}
		}
	}
	var alphabet []rune
	for r := range cut {
		alphabet = append(alphabet, r)
	}
	sort.Slice(alphabet, func(i, j int) bool { return alphabet[i] < alphabet[j] })
	type pair struct{ a, b string }
	start := pair{nfaStart(pa, true), nfaStart(pb, true)}
	seen := map[pair]bool{start: true}
	work := []pair{start}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if accepts(pa, p.a) != accepts(pb, p.b) {
			return false, nil
		}
		for _, r := range alphabet {
			n := pair{nfaStep(pa, p.a, r, anywhere), nfaStep(pb, p.b, r, anywhere)}
			if !seen[n] {
				if len(seen) > 20000 {
					return false, fmt.Errorf("too many states")
				}
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return true, nil
}

// A set of states is encoded as a string of instruction numbers, those waiting for a character or for the end of text.

func closureOf(p *syntax.Prog, from []uint32, atBegin bool) string {
	set := map[uint32]bool{}
	var visit func(pc uint32)
	visit = func(pc uint32) {
		if set[pc] {
			return
		}
		set[pc] = true
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(in.Out)
			visit(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			visit(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyBeginLine) == 0 && atBegin {
				visit(in.Out)
			}
		}
	}
	for _, pc := range from {
		visit(pc)
	}
	var ks []int
	for pc := range set {
		switch p.Inst[pc].Op {
		case syntax.InstAlt, syntax.InstAltMatch, syntax.InstCapture, syntax.InstNop, syntax.InstFail:
		default:
			ks = append(ks, int(pc))
		}
	}
	sort.Ints(ks)
	return fmt.Sprint(ks)
}

func decode(s string) (ks []uint32) {
	for _, f := range strings.Fields(strings.Trim(s, "[]")) {
		var n uint32
		_, _ = fmt.Sscan(f, &n)
		ks = append(ks, n)
	}
	return
}

func nfaStart(p *syntax.Prog, atBegin bool) string {
	return closureOf(p, []uint32{uint32(p.Start)}, atBegin)
}

func nfaStep(p *syntax.Prog, s string, r rune, anywhere bool) string {
	var next []uint32
	if anywhere {
		next = append(next, uint32(p.Start))
	}
	for _, pc := range decode(s) {
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			if anywhere {
				return closureOf(p, []uint32{pc}, false) // found, whatever follows
			}
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(r) {
				next = append(next, in.Out)
			}
		}
	}
	return closureOf(p, next, false)
}

func accepts(p *syntax.Prog, s string) bool {
	seen := map[uint32]bool{}
	var visit func(pc uint32) bool
	visit = func(pc uint32) bool {
		if seen[pc] {
			return false
		}
		seen[pc] = true
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return true
		case syntax.InstAlt, syntax.InstAltMatch:
			return visit(in.Out) || visit(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			return visit(in.Out)
		case syntax.InstEmptyWidth:
			return syntax.EmptyOp(in.Arg)&^(syntax.EmptyEndText|syntax.EmptyEndLine) == 0 && visit(in.Out)
		}
		return false
	}
	for _, pc := range decode(s) {
		if visit(pc) {
			return true
		}
	}
	return false
}
