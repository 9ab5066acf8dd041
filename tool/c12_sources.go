package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C12", Technique: "source-order typestate over all paths of the exported lookup functions (path-sensitive dataflow on SSA)",
		Explain: "All paths of the exported functions that look up by name are enumerated. A source of lower precedence is consulted only after the results of the ones with higher precedence are known to be nil for every name, a value is returned only when it is the last one consulted and known not to be nil, after a test that it is an instance of the requested type or through a conversion to that type, and nil only when all sources are exhausted.",
		Check:   checkSources})
}

// nilFact tells if the facts decide that a term is nil
func nilFact(facts map[*Term]bool, t *Term) (isNil, known bool) {
	if t.IsNil() {
		return true, true
	}
	for f, v := range facts {
		if f.Op == "eq" && (f.Args[0] == t && f.Args[1].IsNil() || f.Args[1] == t && f.Args[0].IsNil()) {
			return v, true
		}
	}
	return false, false
}

// loopVarOf returns the loop variable that an index is computed from, and what is added to it
func loopVarOf(t *Term) (*Term, int64) {
	if t.Op == "loopvar" {
		return t, 0
	}
	if t.Op == "bin" && t.Aux == "+" {
		for i := range t.Args {
			if k, ok := t.Args[i].IntConst(); ok {
				if l, d := loopVarOf(t.Args[1-i]); l != nil {
					return l, d + k
				}
			}
		}
	}
	return nil, 0
}

// succIndex is true for the index of the iterations after the first in a loop that visits 0, 1, 2...
func succIndex(t *Term) bool {
	l, d := loopVarOf(t)
	if l == nil || len(l.Args) != 2 {
		return false
	}
	phi, ok := l.Val.(*ssa.Phi)
	if !ok || !counts(phi) {
		return false
	}
	a, ok1 := l.Args[0].IntConst()
	b, ok2 := l.Args[1].IntConst()
	return ok1 && ok2 && b-a == 1 && b+d == 1
}

// paramsOf returns the parameters of some type
func paramsOf(f *ssa.Function, is func(types.Type) bool) (ps []*ssa.Parameter) {
	for _, p := range f.Params {
		if is(p.Type()) {
			ps = append(ps, p)
		}
	}
	return
}

type lookupAPI struct {
	f                                   *ssa.Function
	names, name, vtype, stype           *ssa.Parameter
	override, defaults, dflt, producer_ *ssa.Parameter
	options                             *ssa.Parameter
}

// lookupAPIs are the exported functions that look up names using an invocation
func (c *Ctx) lookupAPIs() (as []*lookupAPI) {
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || c.P.relPkg(f) != "hiera" {
			continue
		}
		if len(f.Params) < 2 || !isNamed(f.Params[0].Type(), c.P.Mod+"/api", "Invocation") || f.Signature.Results().Len() != 1 || !isNamed(f.Signature.Results().At(0).Type(), dgoPkg, "Value") {
			continue
		}
		a := &lookupAPI{f: f}
		for _, p := range f.Params[1:] {
			t := p.Type()
			switch {
			case isNamed(t, dgoPkg, "StructMapType"):
				a.stype = p
			case isNamed(t, dgoPkg, "Type"):
				a.vtype = p
			case isNamed(t, dgoPkg, "Value"):
				a.dflt = p
			case isNamed(t, dgoPkg, "Producer"):
				a.producer_ = p
			case isNamed(t, dgoPkg, "Map"):
				switch {
				case a.override == nil:
					a.override = p
				case a.defaults == nil:
					a.defaults = p
				default:
					a.options = p
				}
			case types.Identical(t, types.NewSlice(types.Typ[types.String])):
				a.names = p
			case types.Identical(t, types.Typ[types.String]):
				a.name = p
			case types.IsInterface(t):
				a.options = p
			}
		}
		if a.names == nil && a.name == nil {
			continue
		}
		as = append(as, a)
	}
	return
}

// A use of a source of values
type consult struct {
	at    int
	rank  int
	index *Term // index of the name, nil when the source isn't used by name
	val   *Term
	ev    *Event
}

const (
	srcOverride = 1 + iota
	srcLookup
	srcDefaults
	srcDefault
	srcProducer
)

var srcNames = []string{"", "the override map", "the lookup", "the map of default values", "the default value", "the default function"}

func isParam(t *Term, p *ssa.Parameter) bool {
	return t != nil && p != nil && t.Op == "param" && t.Val == p
}

// nameIndex returns the index of the name that a term denotes
func (a *lookupAPI) nameIndex(c *Ctx, t *Term) *Term {
	if a.name != nil && isParam(t, a.name) {
		return c.E.T.cval(constant.MakeInt64(0), types.Typ[types.Int])
	}
	for t != nil && t.Op == "call" && strings.HasSuffix(t.CallName(), "/vf.String") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t != nil && t.Op == "init" && t.Args[0].Op == "iaddr" && isParam(t.Args[0].Args[0], a.names) {
		return t.Args[0].Args[1]
	}
	return nil
}

func (a *lookupAPI) consultOf(c *Ctx, ev *Event) *consult {
	if ev.Kind != "call" {
		return nil
	}
	switch {
	case ev.Name == "("+dgoPkg+".Keyed).Get" && ev.Recv != nil && (isParam(ev.Recv, a.override) || isParam(ev.Recv, a.defaults)):
		r := srcOverride
		if isParam(ev.Recv, a.defaults) {
			r = srcDefaults
		}
		return &consult{rank: r, index: a.nameIndex(c, ev.Args[0]), val: ev.Res, ev: ev}
	case c.isAPI(ev, "Invocation", "Lookup"):
		cs := &consult{rank: srcLookup, val: ev.Res, ev: ev}
		if k := ev.Args[0]; k.Op == "call" && k.CallName() == c.P.Mod+"/api.NewKey" {
			cs.index = a.nameIndex(c, k.Args[0])
		}
		return cs
	case ev.IsFn && isParam(ev.Callee, a.producer_):
		return &consult{rank: srcProducer, val: ev.Res, ev: ev}
	}
	return nil
}

func checkSources(c *Ctx) {
	as := c.lookupAPIs()
	c.Count("exported lookup functions", len(as))
	c.Min("exported lookup functions", 3)
	for _, a := range as {
		f := a.f
		paths := c.Run(f, &Policy{Inline: samePkg(f), MaxPaths: 200000})
		// loops over names in which each source is used
		phis := map[int]map[ssa.Value]bool{}
		all := make([][]*consult, len(paths))
		for pi, p := range paths {
			for i, ev := range p.Events {
				cs := a.consultOf(c, ev)
				if cs == nil {
					continue
				}
				cs.at = i
				all[pi] = append(all[pi], cs)
				if cs.rank == srcProducer {
					continue
				}
				if !c.Must(cs.index != nil, "source-key", c.N(f)+"/"+srcNames[cs.rank], ev.Pos, p, "%s uses %s with a key that isn't one of the names", c.N(f), srcNames[cs.rank]) {
					return
				}
				if n, ok := cs.index.IntConst(); ok {
					c.Must(n == 0, "names-in-order", c.N(f)+"/"+srcNames[cs.rank], ev.Pos, p, "%s starts with name %d", c.N(f), n)
				} else {
					c.Must(succIndex(cs.index), "names-in-order", c.N(f)+"/"+srcNames[cs.rank], ev.Pos, p, "%s doesn't use all names in order", c.N(f))
					if l, _ := loopVarOf(cs.index); l != nil {
						if phis[cs.rank] == nil {
							phis[cs.rank] = map[ssa.Value]bool{}
						}
						phis[cs.rank][l.Val] = true
					}
				}
				if cs.rank == srcLookup && a.options != nil {
					o := ev.Args[1]
					okOpt := isParam(o, a.options) || o.Op == "call" && o.CallName() == c.P.Mod+"/api.ToMap" && isParam(o.Args[len(o.Args)-1], a.options)
					c.Must(okOpt, "options-passed", c.N(f), ev.Pos, p, "%s looks up a name without using the options it was given", c.N(f))
				}
			}
		}
		for pi, p := range paths {
			if a.stype != nil {
				a.checkAll(c, p, all[pi])
			} else {
				a.checkOne(c, p, all[pi], phis)
			}
		}
	}
	c.Min("uses of a source of values", 10)
	c.Min("values returned", 10)
	c.Min("values added to a result", 3)
	c.Min("returns without a value", 2)
}

// lacks is true if a map is known to be nil or empty
func lacks(facts map[*Term]bool, p *ssa.Parameter, t *Term) bool {
	if p == nil {
		return true
	}
	isM := func(x *Term) bool { return isParam(x, p) }
	isLen := func(x *Term) bool {
		return x.Op == "call" && strings.HasSuffix(x.CallName(), ".Len") && len(x.Args) > 0 && isM(x.Args[0])
	}
	for f, v := range facts {
		switch f.Op {
		case "eq":
			for i := range f.Args {
				o := f.Args[1-i]
				n, isN := o.IntConst()
				if v && (isM(f.Args[i]) && o.IsNil() || isLen(f.Args[i]) && isN && n == 0) {
					return true
				}
			}
		case "lt":
			if n, ok := f.Args[0].IntConst(); ok && n == 0 && isLen(f.Args[1]) && !v {
				return true
			}
			if n, ok := f.Args[1].IntConst(); ok && n == 1 && isLen(f.Args[0]) && v {
				return true
			}
		}
	}
	return false
}

func (a *lookupAPI) paramOf(rank int) *ssa.Parameter {
	switch rank {
	case srcOverride:
		return a.override
	case srcDefaults:
		return a.defaults
	case srcDefault:
		return a.dflt
	}
	return a.producer_
}

// noNames is true if there are no names
func (a *lookupAPI) isLenNames(t *Term) bool { return t.Op == "len" && isParam(t.Args[0], a.names) }

// done is true if a source is known to have no value for any name before an event
func (a *lookupAPI) done(c *Ctx, p *Path, css []*consult, phis map[int]map[ssa.Value]bool, rank, at int) bool {
	facts := p.FactsBefore(at)
	switch rank {
	case srcDefault:
		if a.dflt == nil {
			return true
		}
		n, known := nilFact(facts, c.paramTerm(p, a.dflt))
		return n && known
	case srcOverride, srcDefaults:
		if lacks(facts, a.paramOf(rank), nil) {
			return true
		}
	}
	first := false
	for _, cs := range css {
		if cs.at >= at || cs.rank != rank {
			continue
		}
		if n, known := cs.isNil(facts); !n || !known {
			return false
		}
		if n, ok := cs.index.IntConst(); ok && n == 0 {
			first = true
		}
	}
	if a.name != nil {
		return first
	}
	for f, v := range facts {
		if v || f.Op != "lt" || !a.isLenNames(f.Args[1]) {
			continue
		}
		if n, ok := f.Args[0].IntConst(); ok && n == 0 {
			return true // no names
		}
		if l, _ := loopVarOf(f.Args[0]); first && l != nil && phis[rank][l.Val] && succIndex(f.Args[0]) {
			return true
		}
	}
	return false
}

// paramTerm is the term for a parameter of an analysed function
func (c *Ctx) paramTerm(p *Path, v *ssa.Parameter) *Term {
	return c.E.T.mk("param", fmt.Sprintf("%s.%s", v.Parent().Name(), v.Name()), v.Type())
}

// has is true if a term denotes the value from the latest use of a source
func (cs *consult) has(facts map[*Term]bool, t *Term) bool {
	if t == nil || cs.val == nil {
		return false
	}
	if t == cs.val {
		return true
	}
	var first, later *Term
	switch {
	case t.Op == "loopvar" && len(t.Args) == 2:
		first, later = t.Args[0], t.Args[1]
	case t.Op == "loopcell" && len(t.Args) == 3:
		first, later = t.Args[1], t.Args[2]
	default:
		return false
	}
	n, known := nilFact(facts, first)
	return n && known && cs.has(facts, later)
}

// isNil tells if the facts decide that the value from a source is nil
func (cs *consult) isNil(facts map[*Term]bool) (isNil, known bool) {
	for f, v := range facts {
		if f.Op == "eq" {
			for i := range f.Args {
				if f.Args[1-i].IsNil() && cs.has(facts, f.Args[i]) {
					if known && v != isNil {
						// found in a later iteration
						v = false
					}
					isNil, known = v, true
				}
			}
		}
	}
	return
}

// typed is true if a value is known to be an instance of the type, or the result of a conversion to the type. The term is nil
// when no type is requested
func typed(facts map[*Term]bool, isType func(*Term) bool, v *Term) (src *Term, ok bool) {
	if v.Op == "call" && strings.HasSuffix(v.CallName(), "dgo/vf.New") && len(v.Args) == 2 && isType(v.Args[0]) {
		return v.Args[1], true
	}
	for f, b := range facts {
		if b && f.Op == "call" && strings.HasSuffix(f.CallName(), ".Instance") && len(f.Args) == 2 && isType(f.Args[0]) && f.Args[1] == v {
			return v, true
		}
	}
	return v, false
}

func (a *lookupAPI) checkOne(c *Ctx, p *Path, css []*consult, phis map[int]map[ssa.Value]bool) {
	f := a.f
	for i, cs := range css {
		c.Count("uses of a source of values", 1)
		facts := p.FactsBefore(cs.at)
		for _, e := range css[:i] {
			n, known := e.isNil(facts)
			c.Must(n && known, "stops-at-value", c.N(f)+"/"+srcNames[cs.rank], cs.ev.Pos, p, "%s uses %s although %s may have provided a value", c.N(f), srcNames[cs.rank], srcNames[e.rank])
			c.Must(e.rank <= cs.rank, "source-order", c.N(f)+"/"+srcNames[cs.rank], cs.ev.Pos, p, "%s uses %s after %s", c.N(f), srcNames[cs.rank], srcNames[e.rank])
		}
		for r := srcOverride; r < cs.rank; r++ {
			c.Must(a.done(c, p, css, phis, r, cs.at), "source-order", c.N(f)+"/"+srcNames[cs.rank], cs.ev.Pos, p, "%s uses %s before all names have been tried with %s", c.N(f), srcNames[cs.rank], srcNames[r])
		}
	}
	if p.Exit != "return" {
		return
	}
	end := len(p.Events)
	facts := p.FactsBefore(end)
	pos := f.Pos()
	if p.Res.IsNil() {
		c.Count("returns without a value", 1)
		for r := srcOverride; r <= srcDefault; r++ {
			c.Must(a.done(c, p, css, phis, r, end), "gives-up", c.N(f)+"/"+srcNames[r], pos, p, "%s gives up before all names have been tried with %s", c.N(f), srcNames[r])
		}
		if a.producer_ != nil {
			n, known := nilFact(facts, c.paramTerm(p, a.producer_))
			used := len(css) > 0 && css[len(css)-1].rank == srcProducer
			c.Must(n && known || used, "gives-up", c.N(f)+"/"+srcNames[srcProducer], pos, p, "%s gives up although there's a function that produces a default value", c.N(f))
		}
		return
	}
	c.Count("values returned", 1)
	src, ok := p.Res, false
	if a.vtype != nil {
		src, ok = typed(facts, func(t *Term) bool { return isParam(t, a.vtype) }, p.Res)
		if !ok {
			ok, _ = nilFact(facts, c.paramTerm(p, a.vtype))
		}
	} else {
		// any type
		src, _ = typed(facts, func(t *Term) bool { return t.Any(func(x *Term) bool { return x.Op == "global" }) }, p.Res)
		ok = true
	}
	c.Must(ok, "typed", c.N(f), pos, p, "%s returns a value that may not be of the requested type", c.N(f))
	if isParam(src, a.dflt) {
		n, known := nilFact(facts, src)
		c.Must(known && !n, "returned-value", c.N(f), pos, p, "%s returns a default value that may be nil", c.N(f))
		for r := srcOverride; r < srcDefault; r++ {
			c.Must(a.done(c, p, css, phis, r, end), "source-order", c.N(f)+"/"+srcNames[srcDefault], pos, p, "%s returns the default value before all names have been tried with %s", c.N(f), srcNames[r])
		}
		return
	}
	var last *consult
	if len(css) > 0 {
		last = css[len(css)-1]
	}
	okV := last != nil && last.has(facts, src)
	if okV && last.rank != srcProducer {
		n, known := last.isNil(facts)
		okV = known && !n
	}
	c.Must(okV, "returned-value", c.N(f), pos, p, "%s returns something that isn't known to be the value that was found", c.N(f))
}

func (a *lookupAPI) checkAll(c *Ctx, p *Path, css []*consult) {
	f := a.f
	same := func(x, y *Term) bool { return x == y }
	doneFor := func(rank int, idx *Term, at int) bool {
		facts := p.FactsBefore(at)
		if (rank == srcOverride || rank == srcDefaults) && lacks(facts, a.paramOf(rank), nil) {
			return true
		}
		for _, cs := range css {
			if cs.at < at && cs.rank == rank && same(cs.index, idx) {
				n, known := cs.isNil(facts)
				return n && known
			}
		}
		return false
	}
	for _, cs := range css {
		c.Count("uses of a source of values", 1)
		for r := srcOverride; r < cs.rank; r++ {
			c.Must(doneFor(r, cs.index, cs.at), "source-order", c.N(f)+"/"+srcNames[cs.rank], cs.ev.Pos, p, "%s uses %s although %s may have provided a value", c.N(f), srcNames[cs.rank], srcNames[r])
		}
	}
	put := map[*Term]bool{}
	var result *Term
	for i, ev := range p.Events {
		if ev.Kind != "call" || ev.Name != "("+dgoPkg+".Map).Put" || ev.Recv.Op == "param" {
			continue
		}
		c.Count("values added to a result", 1)
		if result == nil {
			result = ev.Recv
		}
		facts := p.FactsBefore(i)
		idx := a.nameIndex(c, ev.Args[0])
		if !c.Must(idx != nil && ev.Recv == result, "result-key", c.N(f), ev.Pos, p, "%s adds a value using a key that isn't one of the names", c.N(f)) {
			continue
		}
		put[idx] = true
		v := ev.Args[1]
		isType := func(t *Term) bool {
			return t.Op == "call" && strings.HasSuffix(t.CallName(), ".Value") && t.Args[0].Op == "call" && strings.HasSuffix(t.Args[0].CallName(), ".Get") && isParam(t.Args[0].Args[0], a.stype) && same(a.nameIndex(c, t.Args[0].Args[1]), idx)
		}
		src, ok := typed(facts, isType, v)
		if !ok {
			ok, _ = nilFact(facts, c.paramTerm(p, a.stype))
		}
		c.Must(ok, "typed", c.N(f), ev.Pos, p, "%s adds a value that may not be of the type given for its name", c.N(f))
		found := false
		for _, cs := range css {
			if cs.at < i && cs.has(facts, src) && same(cs.index, idx) {
				n, known := cs.isNil(facts)
				found = known && !n
			}
		}
		c.Must(found, "returned-value", c.N(f), ev.Pos, p, "%s adds something that isn't known to be the value found for the name", c.N(f))
	}
	if p.Exit == "panic" {
		return
	}
	if p.Exit == "return" {
		ok := result == nil || p.Res == result
		c.Must(ok, "result", c.N(f), f.Pos(), p, "%s doesn't return the values that were found", c.N(f))
	}
	// all names
	complete := p.Exit == "return"
	if !complete {
		last := p.Events[len(p.Events)-1]
		complete = last.Kind == "loop" && last.In == f
	}
	if !complete {
		return
	}
	for t, v := range p.FactsBefore(len(p.Events)) {
		if t.Op != "lt" || !v || !a.isLenNames(t.Args[1]) || put[t.Args[0]] {
			continue
		}
		for r := srcOverride; r <= srcDefaults; r++ {
			c.Must(doneFor(r, t.Args[0], len(p.Events)), "gives-up", c.N(f)+"/"+srcNames[r], f.Pos(), p, "%s omits a name from the result before it has been tried with %s", c.N(f), srcNames[r])
		}
	}
	if p.Exit == "return" {
		over := false
		for t, v := range p.FactsBefore(len(p.Events)) {
			if t.Op == "lt" && !v && a.isLenNames(t.Args[1]) {
				over = true
			}
		}
		c.Must(over, "all-names", c.N(f), f.Pos(), p, "%s returns before all names have been looked up", c.N(f))
	}
}
