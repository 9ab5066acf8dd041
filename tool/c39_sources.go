package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C39", Technique: "provenance of the values that built in functions return, over all paths (path-sensitive dataflow on SSA)",
		Explain: "On all paths of each built in data_hash function the value returned is the parsed content of the file that the option path names, unless that file doesn't exist (an empty map), and every other outcome is a panic. On all paths of the environment, scope and yaml_lookup_key functions the value returned is the one that the variable, scope or file holds for exactly the key given. A lookup_key function that is called without a session context returns nil.",
		Check:   checkBuiltinSources})
}

const ioReadFile = "io/ioutil.ReadFile"

// fileRead returns the path and the error of the read that yields the given bytes
func fileRead(t *Term) (path, err *Term) {
	t = stripTyped(t)
	src := ext0(t)
	if src == nil || src.Op != "call" {
		return nil, nil
	}
	switch src.CallName() {
	case ioReadFile, "os.ReadFile":
		return src.Args[0], src
	}
	return nil, nil
}

// optionText tests if the term is the text of an option with the given name
func optionText(t *Term, ctx *Term, name string) bool {
	for d := 0; d < 6 && t != nil; d++ {
		switch {
		case t.Op == "typed" || t.Op == "conv" || t.Op == "ext" && t.Aux == "0":
			t = t.Args[0]
		case t.Op == "call" && len(t.Args) == 1 && (strings.HasSuffix(t.CallName(), ").String") || strings.HasSuffix(t.CallName(), ").GoString")):
			t = t.Args[0]
		case t.Op == "call" && len(t.Args) == 2 && (t.CallName() == "("+sdkPkg+".ProviderContext).Option" || t.CallName() == "("+sdkPkg+".ProviderContext).StringOption"):
			s, ok := t.Args[1].StrConst()
			return ok && s == name && t.Args[0] == ctx
		default:
			return false
		}
	}
	return false
}

// notExist tests if the facts tell whether the error is the one of a file that doesn't exist
func notExist(facts map[*Term]bool, err *Term) (val, known bool) {
	for t, v := range facts {
		if t.Op != "call" || len(t.Args) == 0 || t.Args[0] != err {
			continue
		}
		switch t.CallName() {
		case "os.IsNotExist":
			return v, true
		case "errors.Is":
			if g := t.Args[1]; g.Any(func(x *Term) bool { return strings.HasSuffix(x.String(), "ErrNotExist") }) {
				return v, true
			}
		}
	}
	return false, false
}

// errorOf returns the known state of the last result of a call
func (c *Ctx) errorOf(p *Path, facts map[*Term]bool, call *Term) (err *Term, failed, known bool) {
	n := "1"
	for t := range facts {
		if t.Op == "eq" {
			for i := range t.Args {
				if t.Args[i].Op == "ext" && t.Args[i].Args[0] == call && t.Args[i].Aux == n && t.Args[1-i].IsNil() {
					isNil, _ := nilFact(facts, t.Args[i])
					return t.Args[i], !isNil, true
				}
			}
		}
	}
	return nil, false, false
}

// emptyMap tests if the term is a new map without content
func emptyMap(p *Path, t *Term) bool {
	t = stripTyped(t)
	if t == nil || t.Op != "call" {
		return false
	}
	switch t.CallName() {
	case vfPkg + ".Map":
		if len(t.Args) != 0 && !(len(t.Args) == 1 && (t.Args[0].IsNil() || t.Args[0].Op == "slicelit" && len(t.Args[0].Args) == 0)) {
			return false
		}
	case vfPkg + ".MutableMap", vfPkg + ".MapWithCapacity":
	default:
		return false
	}
	for _, ev := range p.Events {
		if ev.Kind == "call" && ev.Recv == t {
			return false
		}
	}
	return true
}

func checkBuiltinSources(c *Ctx) {
	isC := func(f *ssa.Function) func(*ssa.Function) bool {
		return func(g *ssa.Function) bool {
			return pkgOf(g) == pkgOf(f) && (providerFn(g.Signature) == "" && !returnsProviderFn(g) || g.Object() != nil && !g.Object().Exported())
		}
	}
	for _, f := range c.P.topFuncs() {
		if c.P.relPkg(f) != "provider" || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		switch providerFn(f.Signature) {
		case "data_hash":
			c.fileSource(f, isC(f))
		case "lookup_key":
			c.withoutSession(f, isC(f))
		}
	}
	c.Min("data_hash functions", 2)
	c.Min("lookup_key functions", 5)
	if f := c.pkgFunc("provider", "Environment"); f != nil {
		c.environment(f, isC(f))
	}
	if f := c.pkgFunc("provider", "ScopeLookupKey"); f != nil {
		c.scopeSource(f, isC(f))
	}
	if f := c.pkgFunc("provider", "YamlLookupKey"); f != nil {
		c.yamlKeySource(f, isC(f))
	}
}

// sessionFact tells if the context is known to be the context of a session
func (c *Ctx) sessionFact(facts map[*Term]bool, pc *Term) (val, known bool) {
	for t, v := range facts {
		if t.Op == "isa" && t.Args[0] == pc && strings.HasSuffix(t.Aux, "/api.ServerContext") {
			return v, true
		}
	}
	return false, false
}

// withoutSession checks that a function that is called with another context than one of a session neither fails nor finds
// something that needs one
func (c *Ctx) withoutSession(f *ssa.Function, inline func(*ssa.Function) bool) {
	n := c.N(f)
	pc := c.paramTermOf(f, 0)
	c.Count("lookup_key functions", 1)
	for _, p := range c.Run(f, &Policy{Inline: inline, AssertPanics: true, NoHavoc: func(*Event) bool { return true }, Sync: func(*Event, *Term) string { return "no" }}) {
		facts := p.FactsBefore(len(p.Events))
		is, known := c.sessionFact(facts, pc)
		if is || !known && p.Exit != "panic" {
			continue
		}
		if !known && !lastAssert(p, pc) {
			continue
		}
		c.Count("paths without a session", 1)
		c.Must(p.Exit != "panic", "no-session", n, f.Pos(), p, "%s fails when it isn't called from a session", n)
	}
}

// lastAssert tests if the path ends in a failing type assertion of the term
func lastAssert(p *Path, t *Term) bool {
	for i := len(p.Events) - 1; i >= 0; i-- {
		if ev := p.Events[i]; ev.Kind == "assert" {
			return ev.Val == t
		}
	}
	return false
}

func (c *Ctx) fileSource(f *ssa.Function, inline func(*ssa.Function) bool) {
	n := c.N(f)
	ctx := c.paramTermOf(f, 0)
	c.Count("data_hash functions", 1)
	served := 0
	for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(*Event) bool { return true }}) {
		if p.Exit == "cut" {
			continue
		}
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		c.Count("outcomes of reading a file", 1)
		facts := p.FactsBefore(len(p.Events))
		var read, parse *Term
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.Res == nil {
				continue
			}
			switch {
			case ev.Name == ioReadFile || ev.Name == "os.ReadFile":
				if read != nil && read != ev.Res {
					bad("reads", "%s reads more than one file")
				}
				read = ev.Res
				if !optionText(read.Args[0], ctx, "path") {
					bad("path", "%s reads %v instead of the file that the option path names", read.Args[0])
				}
			case ev.Name == yamlUnmarshal || strings.HasSuffix(ev.Name, "dgo/streamer.UnmarshalJSON"):
				parse = ev.Res
				if p, _ := fileRead(ev.Args[0]); p == nil {
					bad("content", "%s parses %v instead of the content of the file", ev.Args[0])
				}
			}
		}
		if read == nil {
			// there must not be a path to read
			if p.Exit == "return" {
				bad("unread", "%s returns without reading a file")
			}
			continue
		}
		rerr, failed, known := c.errorOf(p, facts, read)
		if !known {
			bad("unchecked", "%s doesn't test if the file could be read")
			continue
		}
		if failed {
			gone, k := notExist(facts, rerr)
			switch {
			case p.Exit == "panic":
				if k && gone {
					bad("missing", "%s fails because its file doesn't exist")
				}
			case !k || !gone:
				bad("unreadable", "%s returns although its file couldn't be read")
			case !emptyMap(p, p.Res):
				bad("missing", "%s doesn't return an empty map when its file doesn't exist")
			}
			continue
		}
		if isNil, k := nilFact(facts, c.extOf(p, read, 0)); k && isNil {
			continue // what has been read is never nil
		}
		if parse == nil {
			bad("unparsed", "%s doesn't parse the file")
			continue
		}
		v := parse
		if perr, ok := c.tupleError(parse); ok {
			isNil, k := nilFact(facts, perr)
			if !k {
				// an unknown outcome of the parsing is a failure to notice errors
				bad("unchecked", "%s doesn't test if the file could be parsed")
				continue
			}
			if !isNil {
				if p.Exit != "panic" {
					bad("invalid", "%s returns although its file couldn't be parsed")
				}
				continue
			}
			v = c.extOf(p, parse, 0)
		}
		isMap := isaFactOf(facts, v, "Map")
		switch {
		case p.Exit == "panic":
			if isMap >= 0 {
				bad("hash", "%s fails although its file contains a map")
			}
		case isMap != 1:
			bad("hash", "%s returns although its file doesn't contain a map")
		case stripTyped(p.Res) != stripTyped(v):
			bad("changed", "%s returns %v instead of the content of its file", p.Res)
		default:
			served++
		}
	}
	c.Must(served > 0, "serves", n, f.Pos(), nil, "%s never returns the content of its file", n)
}

const yamlUnmarshal = "github.com/lyraproj/dgoyaml/yaml.Unmarshal"

// tupleError returns the error of a call with a value and an error
func (c *Ctx) tupleError(call *Term) (*Term, bool) {
	if t, ok := call.Type.(*types.Tuple); ok && t.Len() == 2 {
		return c.E.T.mk("ext", "1", t.At(1).Type(), call), true
	}
	return nil, false
}

// splitAt describes a text that is divided at the first occurrence of a separator
type splitAt struct{ text, at *Term }

// before and after recognize the parts of a text
func partBefore(t *Term, sep string) (s splitAt, ok bool) {
	t = stripTyped(t)
	if t.Op == "slice" && len(t.Args) >= 3 {
		if lo := t.Args[1]; lo.Op != "none" {
			if k, isK := lo.IntConst(); !isK || k != 0 {
				return s, false
			}
		}
		if firstIndex(t.Args[2], t.Args[0], sep) {
			return splitAt{t.Args[0], t.Args[2]}, true
		}
	}
	return cutPart(t, sep, 0)
}

func partAfter(t *Term, sep string) (s splitAt, ok bool) {
	t = stripTyped(t)
	if t.Op == "slice" && len(t.Args) >= 3 && t.Args[2].Op == "none" {
		lo := t.Args[1]
		if lo.Op == "bin" && lo.Aux == "+" {
			for i := range lo.Args {
				if k, isK := lo.Args[1-i].IntConst(); isK && int(k) == len(sep) && firstIndex(lo.Args[i], t.Args[0], sep) {
					return splitAt{t.Args[0], lo.Args[i]}, true
				}
			}
		}
	}
	return cutPart(t, sep, 1)
}

// cutPart recognizes the elements of a text that is divided in two
func cutPart(t *Term, sep string, part int64) (s splitAt, ok bool) {
	if t.Op == "init" && t.Args[0].Op == "iaddr" {
		if k, isK := t.Args[0].Args[1].IntConst(); isK && k == part {
			if sp := stripTyped(t.Args[0].Args[0]); sp.Op == "call" && sp.CallName() == "strings.SplitN" {
				x, ok1 := sp.Args[1].StrConst()
				lim, ok2 := sp.Args[2].IntConst()
				if ok1 && ok2 && x == sep && lim == 2 {
					return splitAt{sp.Args[0], sp}, true
				}
			}
		}
	}
	if t.Op == "ext" && t.Args[0].Op == "call" && t.Args[0].CallName() == "strings.Cut" && t.Aux == string(rune('0'+part)) {
		if x, ok := t.Args[0].Args[1].StrConst(); ok && x == sep {
			return splitAt{t.Args[0].Args[0], t.Args[0]}, true
		}
	}
	return s, false
}

// firstIndex tests if the term is the index of the first occurrence of the separator
func firstIndex(t, text *Term, sep string) bool {
	if t.Op != "call" || len(t.Args) != 2 || t.Args[0] != text {
		return false
	}
	switch t.CallName() {
	case "strings.Index", "strings.IndexAny":
		s, ok := t.Args[1].StrConst()
		return ok && s == sep && (len(sep) == 1 || t.CallName() == "strings.Index")
	case "strings.IndexByte", "strings.IndexRune":
		k, ok := t.Args[1].IntConst()
		return ok && len(sep) == 1 && k == int64(sep[0])
	}
	return false
}

// foundAt returns 1 if the facts tell that the separator is found, at 1 or later unless empty texts are permitted, -1
// if they tell that it isn't, and 0 otherwise
func foundAt(facts map[*Term]bool, s splitAt, least int64) int {
	at := s.at
	if at.Op == "call" {
		switch at.CallName() {
		case "strings.SplitN":
			// there are one or two parts
			lo, hi := intBounds(facts, func(t *Term) bool { return t.Op == "len" && t.Args[0] == at }, 1, 2)
			switch {
			case hi < 2:
				return -1
			case least > 0 && emptyPart(facts, s):
				return -1
			case lo >= 2:
				return 1
			}
			return 0
		case "strings.Cut":
			for t, v := range facts {
				if t.Op == "ext" && t.Aux == "2" && t.Args[0] == at {
					switch {
					case !v || least > 0 && emptyPart(facts, s):
						return -1
					default:
						return 1
					}
				}
			}
			return 0
		}
	}
	lo, hi := intBounds(facts, func(t *Term) bool { return t == at }, -1, math.MaxInt64)
	if lo >= 0 {
		return 1
	}
	if hi < least {
		return -1
	}
	return 0
}

// emptyPart tests if the part before the separator is known to be empty
func emptyPart(facts map[*Term]bool, s splitAt) bool {
	is := func(t *Term) bool {
		t = stripTyped(t)
		return t.Op == "ext" && t.Aux == "0" && t.Args[0] == s.at ||
			t.Op == "init" && t.Args[0].Op == "iaddr" && t.Args[0].Args[0] == s.at && isZeroInt(t.Args[0].Args[1])
	}
	for t, v := range facts {
		if t.Op != "eq" || !v {
			continue
		}
		for i := range t.Args {
			x, y := t.Args[i], t.Args[1-i]
			if is(x) && constEmpty(y) || x.Op == "len" && is(x.Args[0]) && isZeroInt(y) {
				return true
			}
		}
	}
	return false
}

func isZeroInt(t *Term) bool {
	k, ok := t.IntConst()
	return ok && k == 0
}

func (c *Ctx) environment(f *ssa.Function, inline func(*ssa.Function) bool) {
	n := c.N(f)
	pc, key := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
	kinds := map[string]int{}
	for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(*Event) bool { return true }}) {
		if p.Exit == "cut" {
			continue
		}
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		facts := p.FactsBefore(len(p.Events))
		if p.Exit == "panic" {
			bad("fails", "%s fails")
			continue
		}
		c.Count("outcomes of the environment", 1)
		if mode := modeFact(c, facts, pc); mode == 1 {
			kinds["lookup options"]++
			if !p.Res.IsNil() {
				bad("options", "%s returns %v when it's asked for lookup options", p.Res)
			}
			continue
		}
		isKey, isPrefix := c.envKey(facts, key)
		res := stripTyped(p.Res)
		switch {
		case res.IsNil():
			if isKey == 1 {
				bad("all", "%s returns nothing for the key env")
			}
			if isPrefix == 1 {
				// the variable must be known not to exist
				ok := false
				for t, v := range facts {
					if !v && t.Op == "ext" && t.Aux == "1" && t.Args[0].Op == "call" && t.Args[0].CallName() == "os.LookupEnv" && c.envName(t.Args[0].Args[0], key) {
						ok = true
					}
				}
				if !ok {
					bad("absent", "%s returns nothing although the variable may exist")
				}
				kinds["no variable"]++
			}
			if isKey == 0 || isPrefix == 0 && isKey != 1 {
				bad("ignored", "%s returns nothing without testing what the key is")
			}
		case isKey == 1:
			kinds["all variables"]++
			c.allVariables(p, facts, res, bad)
		case isPrefix == 1:
			kinds["one variable"]++
			src := res
			if src.Op == "call" && (src.CallName() == vfPkg+".String" || src.CallName() == vfPkg+".Value") {
				src = stripTyped(src.Args[0])
			}
			lu := ext0(src)
			if lu == nil || lu.Op != "call" || lu.CallName() != "os.LookupEnv" || !c.envName(lu.Args[0], key) {
				bad("variable", "%s returns %v instead of the value of the variable that the key names", res)
				break
			}
			ok := false
			for t, v := range facts {
				if v && t.Op == "ext" && t.Aux == "1" && t.Args[0] == lu {
					ok = true
				}
			}
			if !ok {
				bad("absent", "%s returns the value of a variable that may not exist")
			}
		default:
			bad("other", "%s returns %v for some other key than env or env::<name>", res)
		}
	}
	for _, k := range []string{"lookup options", "all variables", "one variable", "no variable"} {
		c.Must(kinds[k] > 0, "case", n+": "+k, f.Pos(), nil, "%s has no path for: %s", n, k)
	}
}

// modeFact returns 1 if a session is known to be looking up lookup options, and -1 if it's known not to be
func modeFact(c *Ctx, facts map[*Term]bool, pc *Term) int {
	for t, v := range facts {
		if c.apiCall(t, "Invocation", "LookupOptionsMode") {
			if v {
				return 1
			}
			return -1
		}
	}
	return 0
}

// envKey tells if the key is known to be env, or to start with env::
func (c *Ctx) envKey(facts map[*Term]bool, key *Term) (isEnv, isPrefix int) {
	val := func(v bool) int {
		if v {
			return 1
		}
		return -1
	}
	for t, v := range facts {
		switch {
		case t.Op == "eq" && (t.Args[0] == key || t.Args[1] == key):
			for _, a := range t.Args {
				if a.Op == "call" && a.CallName() == "strings.TrimPrefix" && a.Args[0] == key {
					if s, ok := a.Args[1].StrConst(); ok && s == "env::" {
						isPrefix = val(!v)
					}
				}
				if s, ok := a.StrConst(); ok && s == "env" {
					isEnv = val(v)
				}
			}
		case t.Op == "call" && t.CallName() == "strings.HasPrefix" && t.Args[0] == key:
			if s, ok := t.Args[1].StrConst(); ok && s == "env::" {
				isPrefix = val(v)
			}
		case t.Op == "ext" && t.Aux == "1" && t.Args[0].Op == "call" && t.Args[0].CallName() == "strings.CutPrefix" && t.Args[0].Args[0] == key:
			if s, ok := t.Args[0].Args[1].StrConst(); ok && s == "env::" {
				isPrefix = val(v)
			}
		}
	}
	if isEnv == 1 {
		isPrefix = -1
	}
	if isPrefix == 1 {
		isEnv = -1
	}
	return
}

// envName tests if the term is what follows env:: in the key
func (c *Ctx) envName(t, key *Term) bool {
	t = stripTyped(t)
	switch t.Op {
	case "slice":
		k, ok := t.Args[1].IntConst()
		return t.Args[0] == key && ok && k == 5 && t.Args[2].Op == "none"
	case "call":
		if t.CallName() == "strings.TrimPrefix" && t.Args[0] == key {
			s, ok := t.Args[1].StrConst()
			return ok && s == "env::"
		}
	case "ext":
		return t.Aux == "0" && t.Args[0].Op == "call" && t.Args[0].CallName() == "strings.CutPrefix" && t.Args[0].Args[0] == key
	}
	return false
}

func (c *Ctx) allVariables(p *Path, facts map[*Term]bool, res *Term, bad func(rule, format string, args ...interface{})) {
	if res.Op != "call" || !strings.HasPrefix(res.CallName(), vfPkg+".") {
		bad("all", "%s returns %v for the key env", res)
		return
	}
	isEnviron := func(t *Term) bool { t = stripTyped(t); return t.Op == "call" && t.CallName() == "os.Environ" }
	isVar := func(t *Term) bool { return t.Op == "init" && t.Args[0].Op == "iaddr" && isEnviron(t.Args[0].Args[0]) }
	// the variables looked at
	index := map[*Term]bool{}
	for _, ev := range p.Events {
		for _, t := range append([]*Term{ev.Recv, ev.Val}, ev.Args...) {
			if t != nil {
				t.Any(func(x *Term) bool {
					if x.Op == "iaddr" && isEnviron(x.Args[0]) {
						index[x.Args[1]] = true
					}
					return false
				})
			}
		}
	}
	done := false
	for t, v := range facts {
		if t.Op == "lt" && !v && t.Args[1].Op == "len" && isEnviron(t.Args[1].Args[0]) {
			i := t.Args[0]
			if k, ok := i.IntConst(); ok && k == 0 || succIndex(i) {
				done = true
			}
		}
	}
	if !done {
		bad("all", "%s doesn't look at all variables of the environment")
	}
	put := map[*Term]bool{}
	for _, ev := range p.Events {
		if ev.Kind != "call" || ev.Recv != res {
			continue
		}
		if !isDgoEv(ev, "Put") || len(ev.Args) != 2 {
			continue
		}
		k, v := argText(ev.Args[0]), argText(ev.Args[1])
		b, ok1 := partBefore(k, "=")
		a, ok2 := partAfter(v, "=")
		if !ok1 || !ok2 || a.at != b.at || a.text != b.text || !isVar(a.text) {
			bad("parts", "%s enters %v as %v, which aren't what precedes and follows the first = of one variable", v, k)
			continue
		}
		if foundAt(facts, a, 1) != 1 {
			bad("parts", "%s enters a variable without knowing that it contains a =")
		}
		put[a.text] = true
		c.Count("variables entered", 1)
	}
	for i := range index {
		ok := false
		var seen *Term
		for t := range facts {
			t.Any(func(x *Term) bool {
				if x.Op == "call" && len(x.Args) > 0 && isVar(x.Args[0]) && x.Args[0].Args[0].Args[1] == i {
					if foundAt(facts, splitAt{x.Args[0], x}, 1) == -1 {
						ok = true
					}
					seen = x
				}
				return false
			})
		}
		for t := range put {
			if t.Args[0].Args[1] == i {
				ok = true
			}
		}
		if !ok {
			bad("left-out", "%s leaves out a variable that contains a = (%v)", seen)
		}
	}
}

// argText returns the text that is given as a value
func argText(t *Term) *Term {
	t = stripTyped(t)
	if t.Op == "call" && len(t.Args) == 1 && (t.CallName() == vfPkg+".String" || t.CallName() == vfPkg+".Value") {
		return stripTyped(t.Args[0])
	}
	return t
}

func (c *Ctx) scopeSource(f *ssa.Function, inline func(*ssa.Function) bool) {
	n := c.N(f)
	pc, key := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
	found := 0
	for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(*Event) bool { return true }}) {
		if p.Exit == "cut" {
			continue
		}
		facts := p.FactsBefore(len(p.Events))
		if is, known := c.sessionFact(facts, pc); known && !is {
			c.Must(p.Exit == "return" && p.Res.IsNil(), "no-session", n, f.Pos(), p, "%s finds something without a session", n)
			continue
		}
		if p.Exit == "panic" {
			c.Bad("fails", n, f.Pos(), p, "%s fails", n)
			continue
		}
		r := stripTyped(p.Res)
		isScope := func(t *Term) bool {
			return (c.apiCall(t, "Invocation", "Scope") || c.apiCall(t, "Session", "Scope")) && c.apiCall(t.Args[0], "ServerContext", "Invocation") && t.Args[0].Args[0] == pc
		}
		if r.IsNil() {
			// only if the scope has nothing
			ok := false
			for t, v := range facts {
				if v && t.Op == "eq" && t.Any(func(x *Term) bool { return x.Op == "call" && isGetOf(x, isScope, key) }) {
					ok = true
				}
			}
			c.Must(ok, "scope", n, f.Pos(), p, "%s returns nothing without looking in the scope", n)
			continue
		}
		found++
		c.Must(isGetOf(r, isScope, key), "scope", n, f.Pos(), p, "%s returns %v instead of what the scope holds for the key", n, r)
	}
	c.Must(found > 0, "case", n, f.Pos(), nil, "%s never returns a value", n)
}

// isGetOf tests if the term is what a map holds for the key
func isGetOf(t *Term, isMap func(*Term) bool, key *Term) bool {
	return t != nil && t.Op == "call" && strings.HasSuffix(t.CallName(), ").Get") && len(t.Args) == 2 && isMap(stripTyped(t.Args[0])) && argText(t.Args[1]) == key
}

func (c *Ctx) yamlKeySource(f *ssa.Function, inline func(*ssa.Function) bool) {
	n := c.N(f)
	pc, key := c.paramTermOf(f, 0), c.paramTermOf(f, 1)
	kinds := map[string]int{}
	for _, p := range c.Run(f, &Policy{Inline: inline, NoHavoc: func(*Event) bool { return true }}) {
		if p.Exit == "cut" {
			continue
		}
		bad := func(rule, format string, args ...interface{}) {
			c.Bad(rule, n, f.Pos(), p, format, append([]interface{}{n}, args...)...)
		}
		facts := p.FactsBefore(len(p.Events))
		if is, known := c.sessionFact(facts, pc); known && !is {
			if p.Exit != "return" || !p.Res.IsNil() {
				bad("no-session", "%s finds something without a session")
			}
			continue
		}
		if p.Exit == "panic" {
			odd := false // a value that isn't a map
			for t, v := range facts {
				odd = odd || !v && t.Op == "isa" && strings.HasSuffix(t.Aux, "dgo.Map")
			}
			if !odd {
				bad("fails", "%s fails")
			}
			continue
		}
		var cached, cachedKey, loaded, store *Term
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case c.isAPI(ev, "ServerContext", "CachedValue"):
				cached, cachedKey = ev.Res, ev.Args[0]
				if ev.Recv != pc {
					bad("cache", "%s uses the cache of %v", ev.Recv)
				}
			case c.isAPI(ev, "ServerContext", "Cache"):
				if len(ev.Args) == 2 && cachedKey != nil && ev.Args[0] == cachedKey && ev.Recv == pc {
					store = ev.Args[1]
				} else {
					bad("cache", "%s keeps %v under %v", ev.Args[1], ev.Args[0])
				}
			case ev.Fn != nil && providerFn(ev.Fn.Signature) == "data_hash":
				loaded = ev.Res
				a := stripTyped(ev.Args[0])
				// the option must be the one of the session
				ok := c.apiCall(a, "Invocation", "ServerContext") && len(a.Args) == 2
				if ok {
					m := stripTyped(a.Args[1])
					var as []*Term
					if m.Op == "call" && m.CallName() == vfPkg+".Map" {
						as = m.Args
						if len(as) == 1 && as[0].Op == "slicelit" {
							as = as[0].Args
						}
					}
					ok = false
					if len(as) == 2 {
						k, isK := stripTyped(as[0]).StrConst()
						v := stripTyped(as[1])
						if isK && k == "path" && v.Op == "call" && strings.HasSuffix(v.CallName(), ").Get") && c.apiCall(v.Args[0], "Invocation", "SessionOptions") {
							k, isK = argText(v.Args[1]).StrConst()
							ok = isK && k == "path"
						}
					}
				}
				if !ok {
					bad("path", "%s reads another file than the one that the option path of the session names")
				}
			}
		}
		hit := false
		hitKnown := cached == nil
		for t, v := range facts {
			if cached != nil && t.Op == "ext" && t.Aux == "1" && t.Args[0] == cached {
				hit, hitKnown = v, true
			}
		}
		if !hitKnown {
			bad("cache", "%s doesn't test if the value was cached")
			continue
		}
		isData := func(t *Term) bool {
			if hit {
				return t == c.extOf(p, cached, 0)
			}
			return t == stripTyped(loaded)
		}
		if hit {
			kinds["cached"]++
		} else {
			kinds["loaded"]++
			if loaded == nil {
				bad("unread", "%s returns without reading the file")
				continue
			}
			if cached != nil && stripTyped(store) != stripTyped(loaded) {
				bad("cache", "%s doesn't cache what it loaded")
			}
		}
		if r := stripTyped(p.Res); !isGetOf(r, isData, key) {
			bad("value", "%s returns %v instead of what the file holds for the key", r)
		}
	}
	c.Must(kinds["loaded"] > 0, "case", n, f.Pos(), nil, "%s never reads the file", n)
}
