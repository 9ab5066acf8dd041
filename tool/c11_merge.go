package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C11", Technique: "precedence analysis of merge operands over all paths (path-sensitive dataflow on SSA)",
		Explain: "In each merge strategy the values must be obtained from index zero of the locations and upwards, all of them unless the strategy is first, which must stop at the first value that is known not to be nil. Where the value merged so far meets the next one, it must be the operand that wins: the argument of Map.Merge for hash, the receiver of WithAll for unique (flattened and without duplicates), the first operand of the deep merge. In the deep merge, an entry of the second operand is only added when the first is known to lack its key, an entry of the first is added as is only when the second lacks its key or the two don't merge, and no entry is lost.",
		Check:   checkMerge})
}

func isDgo(t *Term, method string) bool {
	return t != nil && t.Op == "call" && strings.HasPrefix(t.CallName(), "("+dgoPkg+".") && strings.HasSuffix(t.CallName(), ")."+method)
}

func ext0(t *Term) *Term {
	if t != nil && t.Op == "ext" && t.Aux == "0" {
		return t.Args[0]
	}
	return nil
}

// isaFact tells if a term is known to be (true) or known not to be (false) of some dgo interface
func isaFact(facts map[*Term]bool, t *Term, name string) (val, known bool) {
	for f, v := range facts {
		if f.Op == "isa" && f.Args[0] == t && f.Aux == dgoPkg+"."+name {
			return v, true
		}
	}
	return false, false
}

// returnsConst is the constant string returned by a method without parameters
func (c *Ctx) returnsConst(t types.Type, name string) string {
	f := c.methodOn(t, name)
	if f == nil {
		return ""
	}
	r := ""
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit == "return" {
			s, ok := p.Res.StrConst()
			if !ok || r != "" && r != s {
				return ""
			}
			r = s
		}
	}
	return r
}

type deepRoles map[string][2]int

func checkMerge(c *Ctx) {
	deep := c.P.Func("merge", "Deep")
	if deep == nil {
		c.Anchor("merge.Deep")
		return
	}
	roles := deepRoles{c.fnKey(deep): {0, 1}}
	c.checkDeep(deep, roles)
	seen := map[string]bool{}
	kinds := map[string]types.Type{}
	for _, t := range c.role("api", "MergeStrategy", 4) {
		kind := c.returnsConst(t, "Name")
		if kind == "" {
			continue
		}
		kinds[kind] = t
		f := c.methodOn(t, "MergeLookup")
		if f == nil || seen[kind] {
			continue
		}
		switch kind {
		case "first", "unique", "hash", "deep":
			seen[kind] = true
			c.checkStrategy(f, kind, roles)
		}
	}
	for _, k := range []string{"first", "unique", "hash", "deep"} {
		c.Must(seen[k], "strategy", k, token.NoPos, nil, "there's no merge strategy named %s", k)
	}
	c.Min("locations looked up", 12)
	c.Min("merges of two values", 3)
	c.Min("merge results", 8)
	// selection by name
	gs := c.P.Func("merge", "GetStrategy")
	if gs == nil {
		c.Anchor("merge.GetStrategy")
		return
	}
	for _, p := range c.Run(gs, &Policy{Inline: samePkg(gs)}) {
		if p.Exit != "return" {
			continue
		}
		var name string
		for f, v := range p.FactsBefore(len(p.Events)) {
			if v && f.Op == "eq" {
				for i := range f.Args {
					if s, ok := f.Args[i].StrConst(); ok && f.Args[1-i].Op == "param" {
						name = s
					}
				}
			}
		}
		c.Count("strategies selected by name", 1)
		got := ""
		for k, t := range kinds {
			if p.Res.Type != nil && types.Identical(p.Res.Type, t) {
				got = k
			}
		}
		c.Must(name != "" && got == name, "by-name", name, gs.Pos(), p, "the strategy for %q is %q", name, got)
	}
	c.Min("strategies selected by name", 4)
}

func (c *Ctx) fnKey(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok {
		return FuncKey(o)
	}
	return f.String()
}

// checkStrategy checks a MergeLookup method
func (c *Ctx) checkStrategy(f *ssa.Function, kind string, roles deepRoles) {
	n := c.N(f)
	fi := fnParam(f)
	if fi < 0 {
		c.Anchor("the function parameter of " + n)
		return
	}
	vs, fp := f.Params[1], f.Params[fi]
	stop := func(g *ssa.Function) bool { _, ok := roles[c.fnKey(g)]; return ok }
	with := c.helpersOf(c.methods("api", "Invocation", "WithMerge")...)
	pol := &Policy{MaxPaths: 200000, Inline: func(g *ssa.Function) bool {
		if stop(g) {
			return false
		}
		return pkgOf(g) == pkgOf(f) || with[g]
	}}
	// index of a location
	index := func(t *Term) *Term {
		for t != nil {
			switch {
			case t.Op == "call" && t.CallName() == "(reflect.Value).Interface":
				t = t.Args[0]
			case t.Op == "call" && t.CallName() == "(reflect.Value).Index":
				if t.Args[0].Any(func(x *Term) bool { return isParam(x, vs) }) {
					return t.Args[1]
				}
				return nil
			case t.Op == "init" && t.Args[0].Op == "iaddr" && t.Args[0].Args[0].Any(func(x *Term) bool { return isParam(x, vs) }):
				return t.Args[0].Args[1]
			default:
				return nil
			}
		}
		return nil
	}
	isLen := func(t *Term) bool {
		return (t.Op == "len" || t.Op == "call" && t.CallName() == "(reflect.Value).Len") && t.Args[0].Any(func(x *Term) bool { return isParam(x, vs) })
	}
	paths := c.Run(f, pol)
	memos := map[string]bool{}
	all := make([][]*consult, len(paths))
	for pi, p := range paths {
		for i, ev := range p.Events {
			if ev.Kind == "call" && ev.IsFn && isParam(ev.Callee, fp) {
				cs := &consult{at: i, index: index(ev.Args[0]), val: ev.Res, ev: ev}
				if !c.Must(cs.index != nil, "location", n, ev.Pos, p, "%s looks up something that isn't one of the locations", n) {
					return
				}
				c.Count("locations looked up", 1)
				if k, ok := cs.index.IntConst(); ok {
					c.Must(k == 0 && len(all[pi]) == 0, "location-order", n, ev.Pos, p, "%s doesn't start with the first location", n)
				} else {
					skipped := len(all[pi]) == 0
					for t, v := range p.FactsBefore(i) {
						if t.Op == "call" && t.CallName() == "(reflect.Value).CanInterface" && !v {
							skipped = false
						}
					}
					c.Must(succIndex(cs.index) && !skipped, "location-order", n, ev.Pos, p, "%s doesn't use the locations in order", n)
				}
				all[pi] = append(all[pi], cs)
			}
		}
	}
	from := func(t *Term, css []*consult) bool {
		return t != nil && t.Any(func(x *Term) bool {
			for _, cs := range css {
				if x == cs.val {
					return true
				}
			}
			return false
		})
	}
	for pi, p := range paths {
		if p.Exit == "return" && p.Res != nil {
			p.Res.Any(func(x *Term) bool {
				if (x.Op == "loopvar" || x.Op == "loopcell") && from(x, all[pi]) {
					memos[x.Aux] = true
				}
				return false
			})
		}
	}
	for pi, p := range paths {
		css := all[pi]
		facts := p.FactsBefore(len(p.Events))
		isSlice := true
		one, none := false, false
		canUse := true
		var over []*Term
		for t, v := range facts {
			switch t.Op {
			case "eq":
				for i := range t.Args {
					k, ok := t.Args[1-i].IntConst()
					if !ok {
						continue
					}
					if t.Args[i].Op == "call" && t.Args[i].CallName() == "(reflect.Value).Kind" && !v {
						isSlice = false
					}
					if isLen(t.Args[i]) && v {
						one = one || k == 1
						none = none || k == 0
					}
				}
			case "lt":
				if isLen(t.Args[1]) && !v {
					over = append(over, t.Args[0])
				}
			case "call":
				if t.CallName() == "(reflect.Value).CanInterface" && !v {
					canUse = false
				}
			case "isa":
				if isParam(t.Args[0], vs) && !v {
					isSlice = false
				}
			}
		}
		if kind == "first" {
			for i, cs := range css {
				b := p.FactsBefore(cs.at)
				for _, e := range css[:i] {
					x, known := e.isNil(b)
					c.Must(x && known, "stops-at-value", n, cs.ev.Pos, p, "%s continues although a value may have been found", n)
				}
			}
		}
		if !isSlice || !canUse {
			continue // nothing that can be looked up
		}
		ended := one || none
		for _, o := range over {
			if k, ok := o.IntConst(); ok && k <= 1 {
				ended = true
				none = none || k == 0
			}
			if succIndex(o) {
				ended = true
			}
		}
		isNil := func(cs *consult) (x, known bool) { return cs.isNil(facts) }
		if p.Exit == "return" {
			c.Count("merge results", 1)
			if p.Res.IsNil() {
				c.Must(ended && (none || len(css) > 0), "all-locations", n, f.Pos(), p, "%s gives up before all locations have been tried", n)
				for _, cs := range css {
					x, known := isNil(cs)
					c.Must(x && known, "lost-value", n, cs.ev.Pos, p, "%s returns nil although a value may have been found", n)
				}
				continue
			}
			if kind == "first" {
				last := (*consult)(nil)
				if len(css) > 0 {
					last = css[len(css)-1]
				}
				ok := last != nil && last.has(facts, p.Res)
				if ok && !one {
					// it's also fine to return a value known to be nil when there are no more locations
					x, known := last.isNil(facts)
					ok = known && (!x || ended)
				}
				c.Must(ok, "first-value", n, f.Pos(), p, "%s returns something that isn't known to be the first value found", n)
				continue
			}
			c.Must(ended, "all-locations", n, f.Pos(), p, "%s returns before all locations have been looked up", n)
			c.Must(from(p.Res, css), "lost-value", n, f.Pos(), p, "%s returns something that isn't made from the values that were found", n)
			if len(css) == 1 && one {
				c.Must(c.single(kind, facts, p.Res, css[0]), "single", n, f.Pos(), p, "%s changes the value although there's only one location", n)
			}
			// the first value that was found
			p.Res.Any(func(x *Term) bool {
				if x.Op == "loopvar" && memos[x.Aux] && len(css) > 0 {
					c.Must(c.converted(kind, facts, x.Args[1], css[0].val), "first-operand", n, f.Pos(), p, "%s doesn't start the merge with the first value", n)
				}
				return false
			})
			continue
		}
		if p.Exit != "cut" || kind == "first" {
			continue
		}
		if !c.Must(len(css) >= 2, "all-locations", n, f.Pos(), p, "%s skips a location", n) {
			continue
		}
		last := p.Events[len(p.Events)-1]
		if last.Kind != "loop" || last.Snap == nil {
			continue
		}
		for name, now := range last.Snap {
			if !memos[name] {
				continue
			}
			// value merged so far
			var memo *Term
			for _, ev := range p.Events {
				for _, t := range append([]*Term{ev.Val, ev.Recv, ev.Res}, ev.Args...) {
					if t != nil && memo == nil {
						t.Any(func(x *Term) bool {
							if x.Op == "loopvar" && x.Aux == name {
								memo = x
							}
							return memo != nil
						})
					}
				}
			}
			if memo == nil && now.Op == "loopvar" && now.Aux == name {
				memo = now
			}
			cs := css[len(css)-1]
			x, known := cs.isNil(facts)
			switch {
			case !known:
				c.Bad("nil-value", n, cs.ev.Pos, p, "%s merges a value that may be nil", n)
			case x:
				c.Must(memo == nil && now.IsNil() || now == memo, "lost-value", n, cs.ev.Pos, p, "%s changes the result although a location has no value", n)
			case memo == nil:
				// nothing found before
				c.Must(c.converted(kind, facts, now, cs.val), "first-operand", n, cs.ev.Pos, p, "%s doesn't start the merge with the first value", n)
			default:
				if m, known := nilFact(facts, memo); known && m {
					continue
				}
				c.Count("merges of two values", 1)
				c.Must(c.merged(kind, facts, now, memo, cs.val, roles), "precedence", n, cs.ev.Pos, p, "%s doesn't give precedence to the values of the locations that come first", n)
			}
		}
	}
}

// single tests the result when there's only one location
func (c *Ctx) single(kind string, facts map[*Term]bool, res *Term, cs *consult) bool {
	if res == cs.val {
		isA, known := isaFact(facts, cs.val, "Array")
		return kind != "unique" || known && !isA
	}
	return kind == "unique" && c.converted(kind, facts, res, cs.val)
}

// converted tests what the first value is converted to
func (c *Ctx) converted(kind string, facts map[*Term]bool, t, v *Term) bool {
	if kind != "unique" {
		return t == v
	}
	ls, ok := sequence(t, false, false)
	return ok && len(ls) == 1 && ls[0].t == v && leafOK(facts, ls[0])
}

type leaf struct {
	t                  *Term
	flat, uniq, inside bool
}

func leafOK(facts map[*Term]bool, l leaf) bool {
	isA, known := isaFact(facts, l.t, "Array")
	if l.inside {
		return l.flat || known && !isA
	}
	return known && isA && l.flat && l.uniq
}

// sequence finds what an array consists of
func sequence(t *Term, flat, uniq bool) ([]leaf, bool) {
	switch {
	case isDgo(t, "Flatten"):
		return sequence(t.Args[0], true, uniq)
	case isDgo(t, "Unique"):
		return sequence(t.Args[0], flat, true)
	case isDgo(t, "WithAll"):
		a, ok1 := sequence(t.Args[0], flat, uniq)
		b, ok2 := sequence(t.Args[1], flat, uniq)
		return append(append([]leaf{}, a...), b...), ok1 && ok2
	case isDgo(t, "With"):
		a, ok1 := sequence(t.Args[0], flat, uniq)
		return append(append([]leaf{}, a...), leaf{t.Args[1], flat, uniq, true}), ok1
	case t.Op == "call" && strings.HasSuffix(t.CallName(), "dgo/vf.Values"):
		var ls []leaf
		as := t.Args
		if len(as) == 1 && as[0].Op == "slicelit" {
			as = as[0].Args
		}
		for _, a := range as {
			ls = append(ls, leaf{a, flat, uniq, true})
		}
		return ls, true
	}
	return []leaf{{t, flat, uniq, false}}, true
}

// merged tests the result of merging two values
func (c *Ctx) merged(kind string, facts map[*Term]bool, now, high, low *Term, roles deepRoles) bool {
	switch kind {
	case "hash":
		if isDgo(now, "Merge") {
			return now.Args[0] == low && now.Args[1] == high
		}
		hm, k1 := isaFact(facts, high, "Map")
		lm, k2 := isaFact(facts, low, "Map")
		return now == high && (k1 && !hm || k2 && !lm)
	case "deep":
		call := ext0(now)
		if call == nil || call.Op != "call" {
			return false
		}
		for k, r := range roles {
			if call.CallName() == k {
				return call.Args[r[0]] == high && call.Args[r[1]] == low
			}
		}
		return false
	case "unique":
		ls, ok := sequence(now, false, false)
		if !ok || len(ls) != 2 || ls[0].t != high || ls[1].t != low {
			return false
		}
		return ls[0].uniq && ls[1].uniq && leafOK(facts, ls[1])
	}
	return false
}

// checkDeep checks the deep merge of two values
func (c *Ctx) checkDeep(f *ssa.Function, roles deepRoles) {
	n := c.N(f)
	pol := &Policy{Inline: samePkg(f), MaxPaths: 200000}
	hi := c.E.T.mk("param", f.Name()+"."+f.Params[0].Name(), f.Params[0].Type())
	lo := c.E.T.mk("param", f.Name()+"."+f.Params[1].Name(), f.Params[1].Type())
	paths := c.Run(f, pol)
	// the operands of the recursive function
	for _, p := range paths {
		for _, ev := range p.Events {
			if ev.Kind != "enter" || ev.Fn == nil || ev.Fn.Parent() != nil {
				continue
			}
			h, l := -1, -1
			for i, a := range ev.Args {
				if a == hi {
					h = i
				}
				if a == lo {
					l = i
				}
			}
			if h >= 0 && l >= 0 {
				roles[c.fnKey(ev.Fn)] = [2]int{h, l}
			}
		}
	}
	// entry and key of an operand
	side := func(t *Term) string {
		switch t {
		case hi:
			return "high"
		case lo:
			return "low"
		}
		return ""
	}
	cbOf := func(t *Term, method string) string {
		if t.Op == "cbarg" && isDgo(t.Args[0], method) {
			return side(t.Args[0].Args[0])
		}
		return ""
	}
	keySide := func(k *Term) string {
		if isDgo(k, "Key") {
			return cbOf(k.Args[0], "EachEntry")
		}
		return cbOf(k, "EachKey")
	}
	valSide := func(v, key *Term) string {
		if isDgo(v, "Value") && isDgo(key, "Key") && v.Args[0] == key.Args[0] {
			return cbOf(v.Args[0], "EachEntry")
		}
		if isDgo(v, "Get") && v.Args[1] == key {
			return side(v.Args[0])
		}
		return ""
	}
	lacksKey := func(facts map[*Term]bool, m, key *Term) (lacks, known bool) {
		for t, v := range facts {
			if isDgo(t, "ContainsKey") && t.Args[0] == m && t.Args[1] == key {
				return !v, true
			}
			if t.Op == "eq" {
				for i := range t.Args {
					g := t.Args[i]
					if t.Args[1-i].IsNil() && isDgo(g, "Get") && g.Args[0] == m && g.Args[1] == key {
						return v, true
					}
				}
			}
		}
		return false, false
	}
	recursion := func(t *Term, key *Term) bool {
		if t == nil || t.Op != "call" {
			return false
		}
		r, ok := roles[t.CallName()]
		return ok && valSide(t.Args[r[0]], key) == "high" && valSide(t.Args[r[1]], key) == "low"
	}
	for _, p := range paths {
		if p.Exit != "return" {
			continue
		}
		if p.Res == nil || p.Res.Op != "tuple" || len(p.Res.Args) != 2 {
			c.Bad("deep-result", n, f.Pos(), p, "the result of %s isn't known", n)
			continue
		}
		res := p.Res.Args[0]
		m, known := p.Res.Args[1].BoolConst()
		facts := p.FactsBefore(len(p.Events))
		c.Count("deep merge results", 1)
		kind := func(t *Term) string {
			if v, k := isaFact(facts, t, "Map"); v && k {
				return "map"
			}
			if v, k := isaFact(facts, t, "Array"); v && k {
				return "array"
			}
			_, m := isaFact(facts, t, "Map")
			_, a := isaFact(facts, t, "Array")
			s := ""
			if m {
				s += "notmap"
			}
			if a {
				s += "notarray"
			}
			return s
		}
		kh, kl := kind(hi), kind(lo)
		empty := func(x *Term) bool {
			for t, v := range facts {
				switch t.Op {
				case "eq":
					for i := range t.Args {
						if k, ok := t.Args[1-i].IntConst(); ok && k == 0 && v && isDgo(t.Args[i], "Len") && t.Args[i].Args[0] == x {
							return true
						}
					}
				case "lt":
					if k, ok := t.Args[0].IntConst(); ok && k == 0 && !v && isDgo(t.Args[1], "Len") && t.Args[1].Args[0] == x {
						return true
					}
				}
			}
			return false
		}
		equals := func() bool {
			for t, v := range facts {
				if isDgo(t, "Equals") && v && (t.Args[0] == hi || t.Args[1] == hi) {
					return true
				}
			}
			return false
		}
		switch {
		case res == hi:
			ok := known && !m
			switch kh {
			case "map":
				ok = ok && (strings.HasPrefix(kl, "notmap") || kl == "array" || empty(lo) || equals())
			case "array":
				ok = ok && (strings.HasSuffix(kl, "notarray") || kl == "map" || empty(lo) || equals())
			default:
				ok = ok && kh == "notmapnotarray"
			}
			c.Must(ok, "deep-first", n, f.Pos(), p, "%s returns the first operand although the two may have to be merged", n)
		case res == lo:
			c.Must(known && m && empty(hi) && (kh == "array" && kl == "array" || kh == "map" && kl == "map"), "deep-second", n, f.Pos(), p, "%s returns the second operand although the first isn't known to be empty", n)
		case kh == "array":
			ls, ok := sequence(res, false, false)
			ok = ok && kl == "array" && len(ls) == 2 && ls[0].t == hi && ls[1].t == lo && ls[0].uniq && ls[1].uniq && !ls[0].inside && !ls[1].inside
			c.Count("deep merges of arrays", 1)
			c.Must(ok && known && m, "deep-array", n, f.Pos(), p, "%s doesn't return the unique elements of the first operand followed by those of the second", n)
		default:
			c.Count("deep merges of hashes", 1)
			if !c.Must(kh == "map" && kl == "map" && known && m, "deep-hash", n, f.Pos(), p, "%s merges values that aren't hashes", n) {
				continue
			}
			// what the result starts with
			hasHigh, hasLow := false, false
			if isDgo(res, "Merge") && res.Args[0] == lo && res.Args[1] == hi {
				hasHigh, hasLow = true, true
			}
			if isDgo(res, "Copy") && res.Args[0] == hi {
				hasHigh = true
			}
			walks := map[string]bool{}
			for i, ev := range p.Events {
				if ev.Kind == "call" && (isDgo(ev.Res, "EachEntry") || isDgo(ev.Res, "EachKey") || strings.HasSuffix(ev.Name, ".EachEntry") || strings.HasSuffix(ev.Name, ".EachKey")) {
					walks[side(ev.Recv)] = true
				}
				if ev.Kind == "callback" && (strings.HasSuffix(ev.Name, ".EachEntry") || strings.HasSuffix(ev.Name, ".EachKey")) {
					s := side(ev.Recv)
					if s == "" {
						continue
					}
					// until the callback returns
					handled := false
					d := 0
					var kt *Term
					for j := i + 1; j < len(p.Events); j++ {
						e := p.Events[j]
						if e.Kind == "callback" {
							d++
						}
						if e.Kind == "callbackret" {
							if d == 0 {
								break
							}
							d--
						}
						if e.Kind == "call" && isDgoEv(e, "Put") && e.Recv == res && e.Args[0].Contains(ev.Args[0]) {
							handled = true
						}
						if e.Kind == "call" && isDgoEv(e, "Key") && e.Recv == ev.Args[0] {
							kt = e.Res
						}
					}
					if kt == nil {
						kt = ev.Args[0]
					}
					if !handled {
						if s == "high" {
							handled = hasHigh
						} else {
							l, k := lacksKey(facts, hi, kt)
							handled = hasLow || k && !l
						}
					}
					c.Must(handled, "deep-lost", n+"/"+s, ev.Pos, p, "%s loses an entry of the %s operand", n, s)
				}
				if ev.Kind != "call" || !isDgoEv(ev, "Put") || ev.Recv != res {
					continue
				}
				c.Count("entries added by a deep merge", 1)
				b := p.FactsBefore(i)
				key, v := ev.Args[0], ev.Args[1]
				ks := keySide(key)
				if !c.Must(ks != "", "deep-key", n, ev.Pos, p, "%s adds an entry with a key that isn't taken from the operands", n) {
					continue
				}
				switch {
				case ext0(v) != nil && recursion(ext0(v), key):
					c.Good("deep-nested: %s", n)
				case valSide(v, key) == "low":
					l, k := lacksKey(b, hi, key)
					c.Must(l && k, "deep-precedence", n, ev.Pos, p, "%s adds an entry of the second operand although the first may have its key", n)
				case valSide(v, key) == "high":
					ok := false
					if l, k := lacksKey(b, lo, key); l && k {
						ok = true
					}
					for t, val := range b {
						if t.Op == "ext" && t.Aux == "1" && !val && recursion(t.Args[0], key) {
							ok = true
						}
					}
					c.Must(ok, "deep-nested", n, ev.Pos, p, "%s adds an entry of the first operand without merging it with that of the second", n)
				default:
					c.Bad("deep-value", n, ev.Pos, p, "%s adds a value that isn't known to come from the operands", n)
				}
			}
			c.Must((walks["high"] || hasHigh) && (walks["low"] || hasLow), "deep-lost", n, f.Pos(), p, "%s doesn't visit the entries of both operands", n)
		}
	}
	c.Min("deep merge results", 6)
	c.Min("deep merges of arrays", 1)
	c.Min("deep merges of hashes", 1)
	c.Min("entries added by a deep merge", 2)
}

func isDgoEv(ev *Event, method string) bool {
	return strings.HasPrefix(ev.Name, "("+dgoPkg+".") && strings.HasSuffix(ev.Name, ")."+method)
}
