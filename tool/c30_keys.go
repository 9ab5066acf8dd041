package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C30", Technique: "typestate of the segments of a parsed key, field dependence of equality and hash codes (path-sensitive dataflow on SSA)",
		Explain: "On all paths of api.NewKey and the functions that it calls, a number becomes an index only when it is known to parse, isn't the first segment and wasn't quoted; a text becomes a name only when it was quoted or is known to be neither a number nor empty; a quote that was opened is closed. The key's source is the text it was made from, and the getters return what was stored. For each type with Equals and HashCode, the fields that a hash code depends on must be compared on all paths where Equals can be true, and Equals must compare all fields, or identities, unless it is known that the rest depends on them.",
		Check:   checkKeys})
}

func checkKeys(c *Ctx) {
	c.keyParsing()
	c.rootKeys()
	c.equality()
	c.Min("root keys", 3)
	c.Min("names", 2)
	c.Min("indexes", 1)
	c.Min("types with equality", 5)
}

func (c *Ctx) keyParsing() {
	nk := c.pkgFunc("api", "NewKey")
	if nk == nil {
		c.Anchor("api.NewKey")
		return
	}
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		i, ok := s.Elem().Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	roots := []*ssa.Function{nk}
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || pkgOf(f) != pkgOf(nk) || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !isList(f.Signature.Results().At(0).Type()) {
			continue
		}
		roots = append(roots, f)
	}
	for _, f := range roots {
		n := c.N(f)
		for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
			if f == nk && p.Exit == "return" {
				c.newKey(f, p)
			}
			closed, opened := -1, -1
			last := -1
			for i, ev := range p.Events {
				switch ev.Kind {
				case "fact":
					t := ev.Val
					if idx := quoteIndex(t); idx != nil {
						if lo, _ := intBounds(p.FactsBefore(i+1), func(x *Term) bool { return x == idx }, -1, math.MaxInt64); lo >= 0 {
							closed = i
						}
					}
					if !ev.Bool || t.Op != "eq" {
						continue
					}
					for j := range t.Args {
						if t.Args[j].Op != "nextval" {
							continue
						}
						if k, ok := t.Args[1-j].IntConst(); ok {
							if k == '\'' || k == '"' {
								opened = i
							}
						} else if isRune(t.Args[1-j].Type) {
							closed = i
						}
					}
				case "append":
					if ev.Recv == nil || len(ev.Args) != 1 || ev.Recv.Type != nil && !isList(ev.Recv.Type) {
						continue
					}
					c.segment(p, i, ev, n, f, closed > last)
					last = i
				}
			}
			if p.Exit == "return" && opened > closed && !c.laterParser(p, opened, roots) && !noQuote(p) {
				c.Bad("closed", n, f.Pos(), p, "%s accepts a key with a quote that isn't closed", n)
			}
		}
	}
}

// quoteIndex is the index of a quote that a fact is about
func quoteIndex(t *Term) (idx *Term) {
	if t.Op == "eq" || t.Op == "lt" {
		for _, a := range t.Args {
			if strings.HasPrefix(a.CallName(), "strings.Index") {
				idx = a
			}
		}
	}
	return
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// laterParser is true if the rest of a key is left to a call that isn't part of the path
func (c *Ctx) laterParser(p *Path, i int, fs []*ssa.Function) bool {
	for _, ev := range p.Events[i:] {
		if ev.Kind == "call" {
			for _, f := range fs {
				if ev.Fn == f {
					return true
				}
			}
		}
	}
	return false
}

// noQuote is true if a variable that holds a quote is known to be zero at the end of a path
func noQuote(p *Path) bool {
	for t, v := range p.FactsBefore(len(p.Events)) {
		if v && t.Op == "eq" && (isZeroInt(t.Args[0]) && strings.HasPrefix(t.Args[1].Op, "loop") || isZeroInt(t.Args[1]) && strings.HasPrefix(t.Args[0].Op, "loop")) {
			return true
		}
	}
	return false
}

func (c *Ctx) segment(p *Path, i int, ev *Event, n string, f *ssa.Function, quoted bool) {
	v := stripTyped(ev.Args[0])
	if v == nil {
		return
	}
	facts := p.FactsBefore(i)
	number := func(what *Term) (ok, known bool) {
		for t, b := range facts {
			if t.Op != "eq" {
				continue
			}
			for j := range t.Args {
				x := t.Args[j]
				if t.Args[1-j].IsNil() && x.Op == "ext" && x.Aux == "1" && isNumberParser(x.Args[0]) && (x.Args[0] == what || x.Args[0].Args[0] == what) {
					return b, true
				}
			}
		}
		return false, false
	}
	flagged := false
	for t, b := range facts {
		flagged = flagged || b && (t.Op == "param" || t.Op == "loopvar" || t.Op == "loopcell") && t.Type != nil && types.Identical(t.Type.Underlying(), types.Typ[types.Bool])
	}
	if conv := v; conv.Any(func(x *Term) bool { return isNumberParser(x) }) {
		c.Count("indexes", 1)
		for conv.Op == "conv" {
			conv = conv.Args[0]
		}
		ok, known := false, false
		if conv.Op == "ext" && conv.Aux == "0" && isNumberParser(conv.Args[0]) {
			ok, known = number(conv.Args[0])
		}
		c.Must(ok && known, "index", n, ev.Pos, p, "%s makes an index of a text that isn't known to be a number", n)
		if call := conv; call.Op == "ext" && strings.HasSuffix(call.Args[0].CallName(), ".ParseInt") && len(call.Args[0].Args) > 1 {
			k, ok := call.Args[0].Args[1].IntConst()
			c.Must(ok && k == 10, "index", n+" base", ev.Pos, p, "%s parses an index with base %d", n, k)
		}
		lo, _ := lenBounds(facts, func(x *Term) bool { return x == ev.Recv })
		first := ev.Recv.Op != "append1" && lo < 1
		c.Must(!first, "first", n, ev.Pos, p, "%s can make an index of the first segment", n)
		c.Must(!quoted, "quoted", n, ev.Pos, p, "%s makes an index of a quoted number", n)
		return
	}
	if v.Type != nil && !types.Identical(v.Type.Underlying(), types.Typ[types.String]) {
		c.Bad("segment", n, ev.Pos, p, "%s adds a segment that is neither a number nor a text of the key", n)
		return
	}
	c.Count("names", 1)
	if quoted {
		return
	}
	isNum, known := number(v)
	c.Must(known && !isNum || flagged, "name", n, ev.Pos, p, "%s makes a name of a text that may be a number and isn't quoted", n)
	nonEmpty := flagged
	for t, b := range facts {
		isLen := func(x *Term) bool { return x.Op == "len" && x.Args[0] == v }
		nonEmpty = nonEmpty || !b && t.Op == "eq" && (t.Args[0] == v && constEmpty(t.Args[1]) || t.Args[1] == v && constEmpty(t.Args[0]) || isZeroInt(t.Args[0]) && isLen(t.Args[1]) || isZeroInt(t.Args[1]) && isLen(t.Args[0])) ||
			b && t.Op == "lt" && isZeroInt(t.Args[0]) && isLen(t.Args[1])
	}
	c.Must(nonEmpty, "empty", n, ev.Pos, p, "%s accepts an empty segment that isn't quoted", n)
}

func isNumberParser(t *Term) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	k := t.CallName()
	return k == "strconv.ParseInt" || k == "strconv.Atoi"
}

func (c *Ctx) newKey(f *ssa.Function, p *Path) {
	k := stripTyped(p.Res)
	for _, t := range c.apiTypes("Key") {
		src, parts := c.getterField(t, "Source"), c.getterField(t, "Parts")
		if src == nil || parts == nil {
			c.Anchor("Key.Source and Key.Parts")
			return
		}
		got := stripTyped(p.St.load(p.St.faddr(k, src), src.Type()))
		c.Must(got == c.paramTermOf(f, 0), "source", c.N(f), f.Pos(), p, "the source of a key isn't the text that it was made from")
		r := c.methodOn(t, "Root")
		if r == nil {
			c.Anchor("Key.Root")
			return
		}
		for _, q := range c.Run(r, &Policy{Inline: samePkg(r)}) {
			if q.Exit != "return" {
				continue
			}
			v := stripTyped(q.Res)
			ok := v.Any(func(x *Term) bool {
				return x.Op == "init" && x.Args[0].Op == "iaddr" && isZeroInt(x.Args[0].Args[1]) && x.Args[0].Args[0].Op == "init" && FieldOf(x.Args[0].Args[0].Args[0]) == parts
			})
			c.Must(ok, "root", c.N(r), r.Pos(), q, "the root of a key isn't its first segment")
		}
	}
}

// equality compares what the equality and the hash codes of types depend on
func (c *Ctx) equality() {
	keyTypes := c.apiTypes("Key")
	for _, pk := range c.P.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), c.P.Mod) {
			continue
		}
		for _, name := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			var t types.Type = tn.Type()
			if structOf(t) != nil {
				t = types.NewPointer(t)
			}
			eq, hc := c.methodOn(t, "Equals"), c.methodOn(t, "HashCode")
			if eq == nil || hc == nil || len(eq.Params) != 2 || !strings.HasPrefix(pkgOf(eq).Path(), c.P.Mod) || !strings.HasPrefix(pkgOf(hc).Path(), c.P.Mod) {
				continue
			}
			c.Count("types with equality", 1)
			c.equalityOf(t, eq, hc, hasType(keyTypes, t))
		}
	}
}

func (c *Ctx) equalityOf(t types.Type, eq, hc *ssa.Function, isKey bool) {
	const identity = "identity"
	all := map[string]bool{}
	for _, f := range fieldsOf(deref(t)) {
		all[f.Name()] = true
	}
	all[identity] = true
	// what a term is of the given value
	partsOf := func(x, v *Term) map[string]bool {
		m := map[string]bool{}
		var visit func(y *Term)
		visit = func(y *Term) {
			switch {
			case y == nil:
			case y == v || y.Op == "faddr" && root(y) == v && FieldOf(y).Embedded():
				m[identity] = true
			case y.Op == "init" && root(y.Args[0]) == v && FieldOf(y.Args[0]) != nil:
				m[FieldOf(y.Args[0]).Name()] = true
			case y.Op == "field" && y.Args[0] == v:
				m[FieldOf(y).Name()] = true
			default:
				for _, a := range y.Args {
					visit(a)
				}
			}
		}
		visit(x)
		return m
	}
	n := c.N(eq)
	self, other := c.paramTermOf(eq, 0), c.paramTermOf(eq, 1)
	var common map[string]bool
	for _, p := range c.Run(eq, &Policy{Inline: samePkg(eq)}) {
		if p.Exit != "return" {
			continue
		}
		if b, ok := p.Res.BoolConst(); ok && !b {
			continue
		}
		have := map[string]bool{}
		add := func(a, b *Term) {
			a, b = stripTyped(a), stripTyped(b)
			if a.Any(func(x *Term) bool { return x == other }) {
				a, b = b, a
			}
			if a == self && b == other {
				for k := range all {
					have[k] = true
				}
				return
			}
			x, y := partsOf(a, self), partsOf(b, other)
			for k := range x {
				if y[k] && (a.Op == "agg" || len(x) == 1) {
					have[k] = true
				}
			}
		}
		if p.Res.Op == "eq" {
			add(p.Res.Args[0], p.Res.Args[1])
		} else if isDgo(p.Res, "Equals") && len(p.Res.Args) == 2 {
			add(p.Res.Args[0], p.Res.Args[1])
		}
		for f, v := range p.FactsBefore(len(p.Events)) {
			if v && (f.Op == "eq" || isDgo(f, "Equals")) && len(f.Args) == 2 {
				add(f.Args[0], f.Args[1])
			}
		}
		if common == nil {
			common = have
		} else {
			for k := range common {
				if !have[k] {
					delete(common, k)
				}
			}
		}
		whole := 0
		for k := range all {
			if k != identity && have[k] {
				whole++
			}
		}
		ok := have[identity] || whole == len(all)-1 && whole > 0
		if isKey {
			// the segments are made from the source
			src := c.getterField(t, "Source")
			ok = ok || src != nil && have[src.Name()]
		}
		c.Must(ok, "equal", n, eq.Pos(), p, "values that differ can be equal according to %s", n)
	}
	c.Must(common != nil, "equal", n, eq.Pos(), nil, "nothing is ever equal according to %s", n)
	h := c.paramTermOf(hc, 0)
	returns := 0
	for _, p := range c.Run(hc, &Policy{Inline: samePkg(hc)}) {
		if p.Exit != "return" {
			continue
		}
		returns++
		for k := range partsOf(p.Res, h) {
			c.Must(common[k], "hash", c.N(hc)+" "+k, hc.Pos(), p, "the hash code of values that are equal according to %s depends on their %s, which isn't compared", n, k)
		}
	}
	c.Must(returns > 0, "hash", c.N(hc), hc.Pos(), nil, "%s never returns", c.N(hc))
}

// rootKeys checks that the source of a key with a single segment is that segment, quoted when needed
func (c *Ctx) rootKeys() {
	f := c.pkgFunc("api", "NewRootKey")
	if f == nil {
		return
	}
	name := c.paramTermOf(f, 0)
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f)}) {
		if p.Exit != "return" {
			continue
		}
		k := stripTyped(p.Res)
		facts := p.FactsBefore(len(p.Events))
		contains := func(q string) (has, known bool) {
			for t, v := range facts {
				if t.Op == "call" && len(t.Args) == 2 && t.Args[0] == name {
					s, ok := t.Args[1].StrConst()
					switch {
					case ok && t.CallName() == "strings.Contains" && s == q:
						return v, true
					case ok && t.CallName() == "strings.ContainsAny" && !v && strings.Contains(s, q):
						return false, true
					}
				}
			}
			return false, false
		}
		for _, t := range c.apiTypes("Key") {
			src, parts := c.getterField(t, "Source"), c.getterField(t, "Parts")
			if src == nil || parts == nil {
				continue
			}
			c.Count("root keys", 1)
			tm, vs := template(p.St.load(p.St.faddr(k, src), src.Type()))
			ok := len(vs) == 1 && vs[0] == name
			switch tm {
			case "{}":
			case "'{}'", "\"{}\"":
				if has, known := contains(tm[:1]); known && has {
					ok = false
				}
			default:
				ok = false
			}
			c.Must(ok, "root source", c.N(f), f.Pos(), p, "the source of a key with a single segment isn't that segment, in quotes that it doesn't contain")
			ps := stripTyped(p.St.load(p.St.faddr(k, parts), parts.Type()))
			okP := ps != nil && ps.Op == "slicelit" && len(ps.Args) == 1 && stripTyped(ps.Args[0]) == name
			if ps != nil && strings.HasPrefix(ps.Op, "append") {
				okP = stripTyped(ps.Args[len(ps.Args)-1]) == name || ps.Any(func(x *Term) bool { return x == name })
			}
			c.Must(okP, "root segment", c.N(f), f.Pos(), p, "a key with a single segment has another segment")
		}
	}
}
