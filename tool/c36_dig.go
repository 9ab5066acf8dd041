package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C36", Technique: "step typestate over all paths of digging and burying (path-sensitive dataflow on SSA)",
		Explain: "On all paths of the methods that dig with a key, each step must use the next segment, starting at the second one; it may only get the element of a list when the segment is known to be an index that is at least zero and less than the length, and the entry of a hash with the key that the segment is; a step that has no such element must find nothing, without failing, and no step may follow it. Each step must report exactly once what it found. Burying must make a hash for each segment from the last to the second one. The value of a lookup must be what digging with its key finds in the interpolated value of its first segment.",
		Check:   checkDig})
	register(&Rule{ID: "C35", Technique: "guard analysis of provider calls (path-sensitive dataflow on SSA, call graph)",
		Explain: "On all paths of lookups, the top provider may only be called when the first segment of the key is known not to be lookup_options; otherwise the key must be reported as invalid and nothing be found. There must be no other way to the top provider.",
		Check:   checkReserved})
}

// segmentAt returns the index of a segment of the key that a term is: a constant, or a term for the index
func (c *Ctx) segmentAt(t, key *Term) (idx *Term, off int64, ok bool) {
	if t == nil || t.Op != "init" || t.Args[0].Op != "iaddr" {
		return nil, 0, false
	}
	base := t.Args[0].Args[0]
	idx = t.Args[0].Args[1]
	for base.Op == "slice" {
		// s[1:]
		if len(base.Args) > 1 && base.Args[1] != nil {
			if k, ok := base.Args[1].IntConst(); ok {
				off += k
			} else if base.Args[1].Op != "none" {
				return nil, 0, false
			}
		}
		base = base.Args[0]
	}
	return idx, off, c.isSegments(base, key)
}

func (c *Ctx) isSegments(t, key *Term) bool {
	if c.apiCall(t, "Key", "Parts") && t.Args[0] == key {
		return true
	}
	return t.Op == "init" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == key
}

// oddSegment is true when a path needs a segment that is neither an index nor a name
func (c *Ctx) oddSegment(facts map[*Term]bool, key *Term) bool {
	no := map[*Term]int{}
	for t, v := range facts {
		if t.Op == "isa" && !v && (t.Aux == "int" || t.Aux == "string") {
			if _, _, ok := c.segmentAt(t.Args[0], key); ok {
				no[t.Args[0]]++
			}
		}
	}
	for _, n := range no {
		if n == 2 {
			return true
		}
	}
	return false
}

type digStep struct {
	seg    *Term
	idx    *Term
	off    int64
	from   int // index of the first event
	to     int // index after the last event
	result *Term
	call   *Term
}

func checkDig(c *Ctx) {
	for _, f := range c.methods("api", "Key", "Dig") {
		c.digPaths(f)
	}
	c.Min("steps into a list", 2)
	c.Min("steps into a hash", 2)
	c.Min("steps that find nothing", 3)
	for _, f := range c.methods("api", "Key", "Bury") {
		c.buryPaths(f)
	}
	c.Min("hashes that are made", 2)
	for _, t := range c.ivTypes() {
		if f := c.methodOn(t, "Lookup"); f != nil {
			c.lookupDigs(f)
		} else {
			c.Anchor("Invocation.Lookup")
		}
	}
	c.Min("lookups that dig", 1)
}

func (c *Ctx) digPaths(f *ssa.Function) {
	n := c.N(f)
	key, ic, val := c.paramTermOf(f, 0), c.paramTermOf(f, 1), c.paramTermOf(f, 2)
	paths := c.Run(f, &Policy{Inline: samePkg(f), NoHavoc: func(ev *Event) bool { return true },
		Sync: func(ev *Event, a *Term) string { return "once" }})
	for _, p := range paths {
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		if p.Exit == "panic" {
			bad("fails", "%s fails")
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		if c.oddSegment(facts, key) {
			continue
		}
		// the steps
		var steps []*digStep
		sub := 0
		for i, ev := range p.Events {
			switch {
			case ev.Kind == "call" && c.isAPI(ev, "Invocation", "WithSubLookup") && ev.Recv == ic:
				sub++
				if ev.Args[0] != key {
					bad("explained", "%s explains another key")
				}
			case ev.Kind == "call" && c.isAPI(ev, "Invocation", "WithSegment") && ev.Recv == ic:
				s := &digStep{seg: ev.Args[0], from: i, call: ev.Res, to: len(p.Events)}
				var ok bool
				s.idx, s.off, ok = c.segmentAt(s.seg, key)
				if !ok {
					bad("segment", "%s makes a step that isn't a segment of its key")
				}
				steps = append(steps, s)
			case ev.Kind == "callbackret" && len(steps) > 0 && ev.Res == steps[len(steps)-1].call:
				steps[len(steps)-1].to, steps[len(steps)-1].result = i, ev.Val
			}
		}
		if len(steps) > 0 && sub != 1 {
			bad("explained", "%s doesn't explain the steps below the key")
		}
		in := func(i int) bool {
			for _, s := range steps {
				if i > s.from && i < s.to {
					return true
				}
			}
			return false
		}
		for i, ev := range p.Events {
			if ev.Kind == "call" && !in(i) && (isDgo(ev.Res, "Get") || c.isAPI(ev, "Invocation", "ReportFound") || c.isAPI(ev, "Invocation", "ReportNotFound")) {
				bad("outside", "%s looks for a segment outside of a step")
			}
		}
		cur := val
		for i, s := range steps {
			if s.result == nil {
				continue
			}
			// the index
			if s.idx != nil {
				k, isC := s.idx.IntConst()
				ok := false
				switch i {
				case 0:
					ok = isC && k+s.off == 1
					if l, d := loopVarOf(s.idx); !ok && l != nil {
						a, k := l.Args[0].IntConst()
						ok = k && a+d+s.off == 1
					}
				default:
					if l, d := loopVarOf(s.idx); l != nil {
						a, k1 := l.Args[0].IntConst()
						b, k2 := l.Args[1].IntConst()
						phi, isPhi := l.Val.(*ssa.Phi)
						ok = k1 && k2 && b-a == 1 && b+d+s.off == 2 && isPhi && counts(phi)
					}
				}
				if !ok {
					bad("order", "%s doesn't use the segments one after the other, from the second one")
				}
			}
			if i > 0 {
				prev := steps[i-1]
				if gone, k := nilFact(p.FactsBefore(s.from), prev.call); !(k && !gone) {
					if gone, k := nilFact(p.FactsBefore(s.from), prev.result); !(k && !gone) {
						bad("nothing", "%s goes on when a segment isn't found")
					}
				}
			}
			c.digStep(f, p, key, ic, s, cur, func(t *Term) bool {
				// the value found by the previous step
				if i == 0 {
					return t == val
				}
				prev := steps[i-1]
				switch {
				case t.Op == "loopcell":
					t = t.Args[2]
				case t.Op == "loopvar":
					t = t.Args[1]
				}
				return t == prev.call || t == prev.result
			})
		}
		if p.Exit != "return" {
			continue
		}
		ts := chase(p, p.Res)
		last := ts[len(ts)-1]
		if len(steps) == 0 {
			if last != val {
				bad("single", "%s doesn't return the value itself when its key has no more segments")
			}
			if !c.noMore(facts, key, 1, nil) {
				bad("all", "%s doesn't use all segments")
			}
			continue
		}
		s := steps[len(steps)-1]
		gone, k := nilFact(facts, s.call)
		if !k {
			gone, k = nilFact(facts, s.result)
		}
		same := false
		for _, t := range ts {
			same = same || t == s.call || t == s.result || t.Op == "loopcell" && (t.Args[2] == s.call || t.Args[2] == s.result) || t.Op == "loopvar" && (t.Args[1] == s.call || t.Args[1] == s.result)
		}
		if !(same || k && gone && last.IsNil()) {
			bad("value", "%s returns something else than what the last segment found")
		}
		if !(k && gone) && !(s.result != nil && s.result.IsNil()) && !c.noMore(facts, key, 2, s) {
			bad("all", "%s doesn't use all segments")
		}
	}
}

// noMore is true when the facts tell that there are no more segments
func (c *Ctx) noMore(facts map[*Term]bool, key *Term, next int64, s *digStep) bool {
	isN := func(t *Term) (int64, bool) {
		if t.Op != "len" {
			return 0, false
		}
		b, off := t.Args[0], int64(0)
		if b.Op == "slice" && len(b.Args) > 1 && b.Args[1] != nil {
			k, ok := b.Args[1].IntConst()
			if !ok {
				return 0, false
			}
			off, b = k, b.Args[0]
		}
		return off, c.isSegments(b, key)
	}
	for t, v := range facts {
		for i := range t.Args {
			off, ok := isN(t.Args[i])
			if !ok {
				continue
			}
			x := t.Args[1-i]
			k, isC := x.IntConst()
			k += off
			if l, d := loopVarOf(x); l != nil {
				if b, ok := l.Args[1].IntConst(); ok {
					// the index that follows the last step
					k, isC = b+d+off, s != nil
				}
			}
			if !isC {
				continue
			}
			switch {
			case t.Op == "lt" && i == 1 && !v && k <= next: // !(k < len)
				return true
			case t.Op == "lt" && i == 0 && v && k <= next+1: // len < k
				return true
			case t.Op == "eq" && v && k <= next:
				return true
			}
		}
	}
	return false
}

func (c *Ctx) digStep(f *ssa.Function, p *Path, key, ic *Term, s *digStep, cur *Term, isCur func(*Term) bool) {
	n := c.N(f)
	bad := func(rule, format string) { c.Bad(rule, n, f.Pos(), p, format, n) }
	facts := p.FactsBefore(s.to)
	// what is known about the container and the segment
	fact := func(of func(*Term) bool, typ string) (bool, bool) {
		for t, v := range facts {
			if t.Op == "isa" && of(t.Args[0]) && t.Aux == typ {
				return v, true
			}
		}
		return false, false
	}
	isSeg := func(t *Term) bool { return t == s.seg || t.Op == "typed" && t.Args[0] == s.seg }
	arr, ka := fact(isCur, dgoPkg+".Array")
	mp, km := fact(isCur, dgoPkg+".Map")
	isInt, ki := fact(isSeg, "int")
	if isStr, k := fact(isSeg, "string"); k && !ki {
		isInt, ki = !isStr, true
	}
	found, missing := 0, 0
	var got *Event
	for _, ev := range p.Events[s.from:s.to] {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case isDgo(ev.Res, "Get"):
			if got != nil {
				bad("once", "%s gets more than one element in a step")
			}
			got = ev
			if !isCur(ev.Recv) {
				bad("container", "%s looks for a segment in something else than what the previous one found")
			}
		case c.isAPI(ev, "Invocation", "ReportFound") && ev.Recv == ic:
			found++
			if !isSeg(ev.Args[0]) || got == nil || ev.Args[1] != got.Res {
				bad("report", "%s reports something else than what a segment found")
			}
		case c.isAPI(ev, "Invocation", "ReportNotFound") && ev.Recv == ic:
			missing++
			if !isSeg(ev.Args[0]) {
				bad("report", "%s reports another segment")
			}
		}
	}
	nonNeg, below := 0, 0 // -1 false, 1 true
	for t, v := range facts {
		if t.Op != "lt" {
			continue
		}
		sg := map[bool]int{true: 1, false: -1}
		if k, ok := t.Args[1].IntConst(); ok && isSeg(t.Args[0]) && k == 0 {
			nonNeg = sg[!v]
		}
		if k, ok := t.Args[0].IntConst(); ok && isSeg(t.Args[1]) && k == -1 {
			nonNeg = sg[v]
		}
		isLen := func(x *Term) bool { return isDgo(x, "Len") && isCur(x.Args[0]) }
		if isSeg(t.Args[0]) && isLen(t.Args[1]) {
			below = sg[v]
		}
		if x := t.Args[0]; isSeg(t.Args[1]) && x.Op == "bin" && x.Aux == "-" && isLen(x.Args[0]) {
			if k, ok := x.Args[1].IntConst(); ok && k == 1 {
				below = sg[!v]
			}
		}
	}
	r := s.result
	gone, k := nilFact(facts, r)
	if r.IsNil() {
		gone, k = true, true
	}
	if got != nil && ka && arr {
		c.Count("steps into a list", 1)
		if !(ki && isInt && nonNeg > 0 && below > 0) {
			bad("bounds", "%s gets an element that a list may not have")
		}
		if !isSeg(got.Args[0]) {
			bad("element", "%s gets another element than the segment tells")
		}
		// elements are never nil
		if x, known := nilFact(facts, got.Res); known && x {
			return
		}
		if r == got.Res && !k {
			gone, k = false, true
		}
	} else if got != nil {
		c.Count("steps into a hash", 1)
		if !(km && mp) {
			bad("container", "%s gets an element of something that isn't known to be a list or a hash")
		}
		a := got.Args[0]
		for a.Op == "conv" || a.Op == "typed" {
			a = a.Args[0]
		}
		ok := a == s.seg && a.Type != nil && types.IsInterface(a.Type)
		if a.Op == "call" && len(a.Args) == 1 {
			x := a.Args[0]
			for x.Op == "conv" {
				x = x.Args[0]
			}
			switch a.CallName() {
			case vfPkg + ".Integer":
				ok = isSeg(x) && ki && isInt
			case vfPkg + ".String":
				ok = isSeg(x) && ki && !isInt
			case vfPkg + ".Value":
				ok = isSeg(x)
			}
		}
		if !ok {
			bad("element", "%s gets the entry of a hash with another key than the segment")
		}
		if r == got.Res && !k {
			bad("report", "%s doesn't test if a segment was found")
			return
		}
	}
	if !k {
		if got == nil || r != got.Res {
			bad("value", "%s finds something else than an element")
		}
		return
	}
	if !gone {
		if got == nil || r != got.Res {
			bad("value", "%s finds something else than an element")
		}
		if found != 1 || missing != 0 {
			bad("report", "%s doesn't report what a segment found")
		}
		return
	}
	c.Count("steps that find nothing", 1)
	if found != 0 || missing != 1 {
		bad("report", "%s doesn't report that a segment wasn't found")
	}
	ok := false
	switch {
	case ka && arr:
		ok = ki && !isInt || nonNeg < 0 || below < 0
	case km && mp:
		ok = got != nil
		if ok {
			g, k := nilFact(facts, got.Res)
			ok = k && g
		}
	default:
		ok = ka && km
	}
	if !ok {
		bad("found", "%s doesn't find what a segment refers to")
	}
}

func (c *Ctx) buryPaths(f *ssa.Function) {
	n := c.N(f)
	key, val := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		bad := func(rule, format string) { c.Bad(rule, n, f.Pos(), p, format, n) }
		if p.Exit == "panic" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		if c.oddSegment(facts, key) {
			continue
		}
		type hash struct {
			idx *Term
			off int64
			res *Term
		}
		var made []hash
		for i, ev := range p.Events {
			if ev.Kind != "call" || ev.Name != vfPkg+".Map" {
				continue
			}
			c.Count("hashes that are made", 1)
			as := ev.Args
			if len(as) == 1 && as[0].Op == "slicelit" {
				as = as[0].Args
			}
			if len(as) != 2 {
				bad("hash", "%s makes a hash that doesn't have one entry")
				continue
			}
			k := as[0]
			before := p.FactsBefore(i)
			if k.Op == "call" && len(k.Args) == 1 {
				isInt, known := false, false
				x := k.Args[0]
				for x.Op == "conv" || x.Op == "typed" {
					x = x.Args[0]
				}
				for t, v := range before {
					if t.Op == "isa" && t.Args[0] == x {
						switch t.Aux {
						case "int":
							isInt, known = v, true
						case "string":
							isInt, known = !v, true
						}
					}
				}
				switch k.CallName() {
				case vfPkg + ".Integer":
					if !known || !isInt {
						bad("key", "%s makes an index of a name")
					}
				case vfPkg + ".String":
					if !known || isInt {
						bad("key", "%s makes a name of an index")
					}
				case vfPkg + ".Value":
				default:
					bad("key", "%s makes a hash with another key than the segment")
				}
				k = x
			}
			idx, off, ok := c.segmentAt(k, key)
			if !ok {
				bad("key", "%s makes a hash with another key than the segment")
				continue
			}
			inner := as[1]
			if len(made) == 0 {
				if inner != val {
					bad("value", "%s doesn't bury the value")
				}
				// the last segment
				x := idx
				ok := x.Op == "bin" && x.Aux == "-" && x.Args[0].Op == "len"
				if ok {
					k, isC := x.Args[1].IntConst()
					ok = isC && k == 1
				}
				if !ok {
					bad("order", "%s doesn't start with the last segment")
				}
			} else {
				prev := made[len(made)-1]
				if !(inner == prev.res || (inner.Op == "loopvar" || inner.Op == "loopcell") && inner.Args[len(inner.Args)-1] == prev.res) {
					bad("value", "%s doesn't bury the hash made for the segment that follows")
				}
				ok := false
				if idx.Op == "loopvar" {
					y := idx.Args[1]
					if y.Op == "bin" && y.Aux == "-" && y.Args[0] == prev.idx {
						k, isC := y.Args[1].IntConst()
						ok = isC && k == 1
					}
				}
				if !ok {
					bad("order", "%s doesn't continue with the segment before")
				}
			}
			// not the first one
			pos := false
			for t, v := range before {
				if t.Op != "lt" {
					continue
				}
				if k, ok := t.Args[0].IntConst(); ok && k+off >= 0 && v && t.Args[1] == idx {
					pos = true
				}
				if k, ok := t.Args[1].IntConst(); ok && k+off >= 1 && !v && t.Args[0] == idx {
					pos = true
				}
			}
			if !pos && off < 1 {
				bad("first", "%s makes a hash for the first segment")
			}
			made = append(made, hash{idx, off, ev.Res})
		}
		if p.Exit != "return" {
			continue
		}
		if len(made) == 0 {
			c.Must(p.Res == val, "single", n, f.Pos(), p, "%s doesn't return the value itself when its key has no more segments", n)
		} else {
			last := made[len(made)-1].res
			r := p.Res
			c.Must(r == last || (r.Op == "loopvar" || r.Op == "loopcell") && r.Args[len(r.Args)-1] == last, "value", n, f.Pos(), p, "%s doesn't return the hash made for the second segment", n)
		}
		// no segments left
		end := false
		for t, v := range facts {
			isIdx := func(x *Term) bool {
				return x.Op == "loopvar" && len(made) > 0 || x.Op == "bin" && x.Args[0].Op == "len" && len(made) == 0 || x.Op == "len" && len(made) == 0
			}
			switch {
			case t.Op == "lt" && !v && isIdx(t.Args[1]):
				k, ok := t.Args[0].IntConst()
				end = end || ok && (k == 0 || k == 1 && t.Args[1].Op == "len")
			case t.Op == "lt" && v && isIdx(t.Args[0]):
				k, ok := t.Args[1].IntConst()
				end = end || ok && (k == 1 || k == 2 && t.Args[0].Op == "len")
			case t.Op == "eq" && v:
				for i := range t.Args {
					k, ok := t.Args[i].IntConst()
					end = end || ok && isIdx(t.Args[1-i]) && (k == 0 || k == 1 && t.Args[1-i].Op == "len")
				}
			}
		}
		c.Must(end, "all", n, f.Pos(), p, "%s doesn't make a hash for each segment", n)
	}
}

// topCalls returns the calls of the top provider on a path
func (c *Ctx) topCalls(p *Path) (evs []*Event, at []int) {
	for i, ev := range p.Events {
		if ev.Kind == "call" && ev.IsFn && ev.Callee != nil && c.apiCall(ev.Callee, "Session", "TopProvider") {
			evs, at = append(evs, ev), append(at, i)
		}
	}
	return
}

func (c *Ctx) lookupRuns(f *ssa.Function) []*Path {
	return c.Run(f, &Policy{Inline: c.besideInvocation(f), NoHavoc: func(ev *Event) bool { return true }, Sync: func(ev *Event, a *Term) string { return "once" }})
}

func (c *Ctx) lookupDigs(f *ssa.Function) {
	n := c.N(f)
	key := c.paramTermOf(f, 1)
	for _, p := range c.lookupRuns(f) {
		if p.Exit != "return" {
			continue
		}
		bad := func(rule, format string) { c.Bad(rule, n, f.Pos(), p, format, n) }
		facts := p.FactsBefore(len(p.Events))
		ts := chase(p, p.Res)
		last := ts[len(ts)-1]
		evs, _ := c.topCalls(p)
		if len(evs) == 0 {
			continue // see C35
		}
		ev := evs[0]
		if len(evs) > 1 {
			bad("once", "%s calls the top provider more than once")
		}
		if !(c.apiCall(ev.Args[1], "Key", "Root") && ev.Args[1].Args[0] == key) {
			bad("root", "%s doesn't ask for the first segment of its key")
		}
		gone, k := nilFact(facts, ev.Res)
		if k && gone {
			if !(last.IsNil() || last == ev.Res) {
				bad("nothing", "%s finds something that the top provider did not find")
			}
			continue
		}
		if !k {
			bad("nothing", "%s digs without testing if something was found")
		}
		c.Count("lookups that dig", 1)
		ok := c.apiCall(last, "Key", "Dig") && last.Args[0] == key && len(last.Args) == 3
		if ok {
			x := last.Args[2]
			ok = x == ev.Res || c.apiCall(x, "Invocation", "Interpolate") && x.Args[1] == ev.Res
		}
		if !ok {
			bad("value", "%s returns something else than what its key finds in the value of its first segment")
		}
	}
}

func checkReserved(c *Ctx) {
	owners := map[*ssa.Function]bool{}
	for _, t := range c.ivTypes() {
		f := c.methodOn(t, "Lookup")
		if f == nil {
			c.Anchor("Invocation.Lookup")
			continue
		}
		n := c.N(f)
		key := c.paramTermOf(f, 1)
		isRoot := func(t *Term) bool { return c.apiCall(t, "Key", "Root") && t.Args[0] == key }
		for _, p := range c.lookupRuns(f) {
			if p.Exit == "cut" {
				continue
			}
			evs, at := c.topCalls(p)
			reserved := func(i int) (bool, bool) {
				for t, v := range p.FactsBefore(i) {
					if t.Op != "eq" {
						continue
					}
					for j := range t.Args {
						if s, ok := t.Args[j].StrConst(); ok && s == "lookup_options" && isRoot(t.Args[1-j]) {
							return v, true
						}
					}
				}
				return false, false
			}
			for i, ev := range evs {
				c.Count("calls of the top provider", 1)
				v, k := reserved(at[i])
				c.Must(k && !v, "guarded", n, ev.Pos, p, "%s calls the top provider without testing if the key is reserved", n)
			}
			if p.Exit != "return" {
				continue
			}
			if v, k := reserved(len(p.Events)); k && v {
				c.Count("lookups of the reserved key", 1)
				ts := chase(p, p.Res)
				c.Must(ts[len(ts)-1].IsNil(), "nothing", n, f.Pos(), p, "%s returns a value for the reserved key", n)
				said := false
				for _, ev := range p.Events {
					said = said || ev.Kind == "call" && c.isAPI(ev, "Invocation", "WithInvalidKey")
				}
				c.Must(said, "reported", n, f.Pos(), p, "%s doesn't report that the key is reserved", n)
			} else if len(evs) == 0 {
				c.Bad("consulted", n, f.Pos(), p, "%s doesn't call the top provider", n)
			}
		}
		for _, e := range c.P.Funcs {
			if outer(e) == f || c.funcs[c.N(outer(e))] {
				owners[e] = true
			}
		}
	}
	c.Min("calls of the top provider", 1)
	c.Min("lookups of the reserved key", 1)
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, ci := range calls(f) {
			if m := methodOfCall(ci); m != nil && c.isAPIMethod(m, "Session", "TopProvider") {
				c.Count("uses of the top provider", 1)
				c.Must(owners[f] || owners[outer(f)], "other-way", c.N(outer(f)), ci.Pos(), nil, "%s uses the top provider without testing if the key is reserved", c.N(f))
			}
		}
	}
	c.Min("uses of the top provider", 1)
}
