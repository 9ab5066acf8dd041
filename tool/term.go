package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an abstract value: a hash-consed description of where a value comes from.
type Term struct {
	id   int
	Op   string
	Aux  string
	Args []*Term
	Type types.Type
	Fn   *ssa.Function
	Ev   *Event
	Val  ssa.Value // site
	Cst  constant.Value
}

func (t *Term) String() string { return t.str(termDepth) }

var termDepth = 6

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d == 0 {
		return "…"
	}
	switch t.Op {
	case "const":
		return t.Aux
	case "nil":
		return "nil"
	case "func":
		return t.Fn.Name()
	case "faddr", "field":
		return t.Args[0].str(d-1) + "." + t.Aux
	case "init":
		return "*" + t.Args[0].str(d-1)
	case "param", "free", "global":
		return t.Aux
	case "alloc":
		return "&" + t.Aux
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d-1))
	}
	n := t.Op
	if t.Aux != "" {
		if i := strings.IndexByte(t.Aux, '#'); i >= 0 {
			n += ":" + t.Aux[:i]
		} else {
			n += ":" + t.Aux
		}
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

func (t *Term) IsNil() bool   { return t != nil && t.Op == "nil" }
func (t *Term) IsConst() bool { return t != nil && t.Op == "const" }

// StrConst returns the string value of a string constant.
func (t *Term) StrConst() (string, bool) {
	if t != nil && t.Op == "const" && t.Cst != nil && t.Cst.Kind() == constant.String {
		return constant.StringVal(t.Cst), true
	}
	return "", false
}

// BoolConst returns the value of a boolean constant.
func (t *Term) BoolConst() (val, ok bool) {
	if t != nil && t.Op == "const" && t.Cst != nil && t.Cst.Kind() == constant.Bool {
		return constant.BoolVal(t.Cst), true
	}
	return false, false
}

// IntConst returns the value of an integer constant.
func (t *Term) IntConst() (int64, bool) {
	if t != nil && t.Op == "const" && t.Cst != nil && t.Cst.Kind() == constant.Int {
		return constant.Int64Val(t.Cst)
	}
	return 0, false
}

// CallName is the canonical name of the called function for a call result term, or "".
func (t *Term) CallName() string {
	if t == nil || t.Op != "call" {
		return ""
	}
	if i := strings.IndexByte(t.Aux, '#'); i >= 0 {
		return t.Aux[:i]
	}
	return t.Aux
}

// Contains is true if x occurs in t.
func (t *Term) Contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Any is true if pred holds for t or one of its sub terms.
func (t *Term) Any(pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(pred) {
			return true
		}
	}
	return false
}

type terms struct {
	tab map[string]*Term
	n   int
}

func newTerms() *terms { return &terms{tab: map[string]*Term{}} }

func (ts *terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		if a == nil {
			sb.WriteString("|-")
		} else {
			fmt.Fprintf(&sb, "|%d", a.id)
		}
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.n++
	t := &Term{id: ts.n, Op: op, Aux: aux, Args: args, Type: typ}
	ts.tab[k] = t
	return t
}

func (ts *terms) sym(name string, typ types.Type) *Term {
	return ts.mk("sym", fmt.Sprintf("%s#%d", name, ts.n+1), typ)
}

func (ts *terms) konst(c *ssa.Const) *Term {
	if c.Value == nil {
		switch u := c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return ts.zero(c.Type())
		default:
			_ = u
			return ts.mk("nil", "", nil)
		}
	}
	return ts.cval(c.Value, c.Type())
}

func (ts *terms) cval(v constant.Value, typ types.Type) *Term {
	t := ts.mk("const", v.Kind().String()+":"+v.ExactString(), typ)
	t.Cst = v
	return t
}

func (ts *terms) boolean(b bool) *Term { return ts.cval(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *terms) nilT() *Term          { return ts.mk("nil", "", nil) }

func (ts *terms) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.boolean(false)
		case u.Info()&types.IsString != 0:
			return ts.cval(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return ts.cval(constant.MakeInt64(0), typ)
		}
		return ts.nilT()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ts.zero(u.Field(i).Type()))
		}
		return ts.mk("agg", types.TypeString(typ, nil), typ, fs...)
	case *types.Array:
		return ts.mk("zeroarr", types.TypeString(typ, nil), typ)
	case *types.Tuple:
		return ts.mk("tuple", "", typ)
	}
	return ts.nilT()
}

// nonNil is true when the term is known to be a non-nil value by construction.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "func", "closure", "const", "slicelit", "makemap", "makeslice", "makechan", "faddr", "iaddr", "global", "agg",
		"concat", "append1", "bound":
		return true
	case "call":
		switch t.CallName() {
		case "errors.New", "fmt.Errorf":
			return true
		}
	}
	return false
}

func negOp(op token.Token) (token.Token, bool) {
	switch op {
	case token.NEQ:
		return token.EQL, true
	case token.GEQ:
		return token.LSS, true
	case token.GTR:
		return token.GTR, false
	}
	return op, false
}
