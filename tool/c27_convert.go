package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C27", Technique: "provenance of the converted value, its type and arguments over all paths (path-sensitive dataflow on SSA)",
		Explain: "On each path the value that is found is obtained once and returned unchanged when there is nothing to convert to or no value; otherwise the result is a new instance, made from that value, of the type parsed from the convert_to option, or from its first element if it is an array, whose other elements are then passed along after the value. The options consulted are those the merge strategy was set with, on all of its paths.",
		Check:   checkConvert})
}

func checkConvert(c *Ctx) {
	for _, t := range c.ivTypes() {
		f, sm := c.methodOn(t, "LookupAndConvertData"), c.methodOn(t, "SetMergeStrategy")
		lo := c.getterField(t, "LookupOptions")
		if f == nil || sm == nil || lo == nil || fnParam(f) < 0 {
			c.Anchor("Invocation.LookupAndConvertData, SetMergeStrategy and LookupOptions")
			continue
		}
		for _, p := range c.Run(sm, &Policy{Inline: samePkg(sm)}) {
			if p.Exit != "return" {
				continue
			}
			c.Count("options set", 1)
			var now *Term
			for _, ev := range p.Events {
				if ev.Kind == "store" && FieldOf(ev.Addr) == lo && root(ev.Addr) == c.paramTermOf(sm, 0) {
					now = stripTyped(ev.Val)
				}
			}
			c.Must(now == c.paramTermOf(sm, 2), "options", c.N(sm), sm.Pos(), p, "the lookup options of the invocation aren't those that %s was given", c.N(sm))
		}
		c.conversion(f, func(x *Term) bool {
			return x != nil && x.Op == "init" && FieldOf(x.Args[0]) == lo && root(x.Args[0]) == c.paramTermOf(f, 0)
		})
	}
	c.Min("options set", 1)
	c.Min("conversions", 3)
	c.Min("conversions with arguments", 1)
	c.Min("values that are not converted", 3)
}

func (c *Ctx) conversion(f *ssa.Function, isOpts func(*Term) bool) {
	n := c.N(f)
	fp := f.Params[fnParam(f)]
	for _, p := range c.Run(f, &Policy{Inline: samePkg(f), Sync: func(ev *Event, a *Term) string { return "once" }}) {
		if p.Exit != "return" {
			continue
		}
		bad := func(rule, msg string) { c.Bad(rule, n, f.Pos(), p, "%s %s", n, msg) }
		facts := p.FactsBefore(len(p.Events))
		var val, ct *Term
		found := 0
		impossible := false
		for t, v := range facts {
			// a slice of an array is never nil
			impossible = impossible || v && t.Op == "eq" && (t.Args[0].IsNil() && isDgo(t.Args[1], "Slice") || t.Args[1].IsNil() && isDgo(t.Args[0], "Slice"))
		}
		if impossible {
			continue
		}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if ev.IsFn && isParam(ev.Callee, fp) {
				found++
				val = ev.Res
			}
			if strings.HasSuffix(ev.Name, ").Get") && isDgoEv(ev, "Get") && len(ev.Args) == 1 && isOpts(stripTyped(ev.Recv)) {
				if s, ok := stripTyped(argText(ev.Args[0])).StrConst(); ok && s == "convert_to" {
					ct = ev.Res
				}
			}
		}
		if found != 1 {
			bad("once", "doesn't obtain the value exactly once")
			continue
		}
		res := stripTyped(p.Res)
		same := func(rule, msg string) {
			c.Count("values that are not converted", 1)
			if res != stripTyped(val) {
				bad(rule, msg)
			}
		}
		if v, known := nilFact(facts, val); known && v {
			if !res.IsNil() {
				same("absent", "makes a value from nothing")
			} else {
				c.Count("values that are not converted", 1)
			}
			continue
		}
		none := ct == nil
		if none {
			for t, v := range facts {
				if t.Op == "eq" && v && (isOpts(t.Args[0]) && t.Args[1].IsNil() || isOpts(t.Args[1]) && t.Args[0].IsNil()) {
					same("unconverted", "changes a value that has no lookup options")
					ct = t
				}
			}
			if ct == nil {
				bad("consulted", "doesn't consult the lookup options")
			}
			continue
		}
		if v, known := nilFact(facts, ct); known && v {
			same("unconverted", "changes a value whose lookup options don't name a type")
			continue
		}
		isA, known := isaFact(facts, ct, "Array")
		if !known {
			if isS, k := isaFact(facts, ct, "String"); k && isS {
				isA, known = false, true
			}
		}
		if !known {
			bad("type", "doesn't tell an array from a type")
			continue
		}
		isLen := func(x *Term) bool { return isDgo(x, "Len") && stripTyped(x.Args[0]) == ct }
		var tp *Term
		args := 0 // -1 without, 1 with, 0 either
		if isA {
			lo, hi := intBounds(facts, isLen, 0, 1<<30)
			if hi == 0 {
				same("unconverted", "converts although there is no type in the array")
				continue
			}
			if lo == 0 {
				bad("type", "uses the first element of an array that may be empty")
				continue
			}
			if hi == 1 {
				args = -1
			} else if lo > 1 {
				args = 1
			}
		} else {
			tp, args = ct, -1
		}
		isType := func(x *Term) bool {
			x = stripTyped(x)
			if tp != nil {
				return x == tp
			}
			if !isDgo(x, "Get") || len(x.Args) != 2 || stripTyped(x.Args[0]) != ct {
				return false
			}
			k, ok := x.Args[1].IntConst()
			return ok && k == 0
		}
		isParsed := func(x *Term) bool {
			x = stripTyped(x)
			return x != nil && x.Op == "call" && strings.HasSuffix(x.CallName(), ").ParseType") && len(x.Args) > 1 && isType(x.Args[len(x.Args)-1]) && !x.Args[len(x.Args)-2].IsNil()
		}
		// no type after all
		nothing := false
		for t, v := range facts {
			if t.Op == "eq" && v {
				for i := range t.Args {
					if t.Args[i].IsNil() && (isParsed(t.Args[1-i]) || isType(t.Args[1-i])) {
						nothing = true
					}
				}
			}
		}
		if nothing {
			same("unconverted", "converts although there is no type")
			continue
		}
		if v, known := nilFact(facts, val); !known || v {
			bad("absent", "converts a value that may be absent")
			continue
		}
		c.Count("conversions", 1)
		if res.Op != "call" || !strings.HasSuffix(res.CallName(), "vf.New") || len(res.Args) != 2 {
			bad("converted", "doesn't convert a value whose lookup options name a type")
			continue
		}
		if !isParsed(res.Args[0]) {
			bad("type", "converts to something that isn't the type of the lookup options")
			continue
		}
		a := stripTyped(res.Args[1])
		if a == stripTyped(val) {
			if args == 1 || args == 0 {
				bad("arguments", "drops the arguments of the conversion")
			}
			continue
		}
		isVal := func(x *Term) bool { return x == val }
		isRest := func(x *Term) bool {
			if !isDgo(x, "Slice") || len(x.Args) != 3 || stripTyped(x.Args[0]) != ct {
				return false
			}
			k, ok := x.Args[1].IntConst()
			if m, isC := x.Args[2].IntConst(); isC {
				l, h := intBounds(facts, isLen, 0, 1<<30)
				return ok && k == 1 && l == h && m == l
			}
			return ok && k == 1 && isLen(x.Args[2])
		}
		okA := args >= 0 && a.Op == "call" && strings.HasSuffix(a.CallName(), "vf.Arguments") && a.Any(isVal) && a.Any(isRest)
		a.Any(func(x *Term) bool {
			if (x.Op == "call" || x.Op == "append") && len(x.Args) > 1 && !isRest(x) && x.Any(isVal) && x.Any(isRest) {
				// the value comes first
				if !x.Args[0].Any(isVal) || x.Args[0].Any(isRest) {
					okA = false
				}
			}
			return false
		})
		c.Count("conversions with arguments", 1)
		if !okA {
			bad("arguments", "doesn't pass the value, followed by the arguments of the conversion, to the type")
		}
	}
}
