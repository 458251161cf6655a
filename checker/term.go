package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind enumerates the shapes of abstract values.
type Kind uint8

const (
	KConst   Kind = iota // compile-time constant or zero value; op = literal
	KParam               // parameter / free variable of the root; op = name
	KSym                 // opaque value produced by one instruction in one context
	KRes                 // i-th result of an opaque call
	KField               // field read out of a struct value
	KLoad                // read through an address that was never written on the path
	KAlloc               // address of a fresh variable
	KGlobal              // address of a package variable
	KFAddr               // address of a field
	KIAddr               // address of an element
	KClosure             // function literal plus bindings
	KFunc                // function constant
	KIface               // value boxed into an interface (never nil)
	KBin                 // binary operation
	KNot                 // boolean negation
	KLookup              // map lookup
	KTypeIs              // dynamic type test
	KAgg                 // struct value with some fields overridden
	KTuple               // tuple
	KPure                // result of a side-effect-free call on its arguments
	KOther               // any other operation, structurally named
)

// Term is an interned abstract value.
type Term struct {
	k    Kind
	op   string
	a    []*Term
	key  string
	syms []int // ids of KSym terms contained
	id   int   // for KSym
	typ  types.Type
	fn   *ssa.Function
	site ssa.Instruction // KSym/KRes/KPure: the instruction
	ctx  int
	call *CallInfo // for KSym that stands for a call
	cst  constant.Value
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.key
}

// Pretty prints a term for a report.
func (t *Term) Pretty() string {
	if t == nil {
		return "?"
	}
	args := func() string {
		var s []string
		for _, x := range t.a {
			s = append(s, x.Pretty())
		}
		return strings.Join(s, ", ")
	}
	switch t.k {
	case KParam:
		return strings.SplitN(t.op, "\x00", 2)[0]
	case KConst:
		return t.op
	case KSym:
		if t.call != nil {
			return t.call.Name + "()"
		}
		return "value#" + strconv.Itoa(t.id)
	case KRes:
		return t.a[0].Pretty() + "." + t.op
	case KField, KFAddr:
		return t.a[0].Pretty() + "." + t.op
	case KLoad, KIface:
		return t.a[0].Pretty()
	case KAlloc:
		return "var"
	case KGlobal:
		return t.op
	case KBin:
		return "(" + t.a[0].Pretty() + " " + t.op + " " + t.a[1].Pretty() + ")"
	case KNot:
		return "!" + t.a[0].Pretty()
	}
	return fmt.Sprintf("%s(%s)", t.op, args())
}

type Terms struct {
	tab  map[string]*Term
	next int
	fold bool // adds constants
}

func (ts *Terms) mk(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.k))
	b.WriteString(t.op)
	if t.k == KSym {
		// op already identifies
	}
	if len(t.a) > 0 {
		b.WriteByte('(')
		for i, x := range t.a {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.key)
		}
		b.WriteByte(')')
	}
	key := b.String()
	if o := ts.tab[key]; o != nil {
		return o
	}
	if len(key) > 4000 && t.k != KSym && t.k != KAlloc {
		// bounded depth: collapse
		return ts.mk(Term{k: KSym, op: "deep:" + t.op + strconv.Itoa(int(t.k)), typ: t.typ})
	}
	n := t
	n.key = key
	if n.k == KSym || n.k == KAlloc {
		ts.next++
		n.id = ts.next
		n.syms = []int{n.id}
	} else {
		m := map[int]bool{}
		for _, x := range t.a {
			for _, s := range x.syms {
				m[s] = true
			}
		}
		for s := range m {
			n.syms = append(n.syms, s)
		}
		sort.Ints(n.syms)
	}
	p := &n
	ts.tab[key] = p
	return p
}

func (t *Term) has(id int) bool {
	i := sort.SearchInts(t.syms, id)
	return i < len(t.syms) && t.syms[i] == id
}

// contains reports whether sub occurs inside t.
func (t *Term) contains(sub *Term) bool {
	if t == nil {
		return false
	}
	if t == sub {
		return true
	}
	for _, x := range t.a {
		if x.contains(sub) {
			return true
		}
	}
	return false
}

// walk visits every subterm.
func (t *Term) walk(f func(*Term)) {
	if t == nil {
		return
	}
	f(t)
	for _, x := range t.a {
		x.walk(f)
	}
}

// strip removes interface boxing.
func (t *Term) strip() *Term {
	for t != nil && t.k == KIface {
		t = t.a[0]
	}
	return t
}

func (ts *Terms) Const(lit string, typ types.Type, v constant.Value) *Term {
	t := ts.mk(Term{k: KConst, op: lit, typ: typ, cst: v})
	return t
}

func (ts *Terms) Nil() *Term { return ts.Const("nil", nil, nil) }
func (ts *Terms) True() *Term {
	return ts.Const("true", types.Typ[types.Bool], constant.MakeBool(true))
}
func (ts *Terms) False() *Term {
	return ts.Const("false", types.Typ[types.Bool], constant.MakeBool(false))
}

func (ts *Terms) ConstVal(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return ts.zero(typ)
	}
	return ts.Const(v.ExactString(), typ, v)
}

// zero is the zero value of typ.
func (ts *Terms) zero(typ types.Type) *Term {
	if typ == nil {
		return ts.Nil()
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.False()
		case u.Info()&types.IsString != 0:
			return ts.ConstVal(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return ts.ConstVal(constant.MakeInt64(0), typ)
		}
		return ts.Nil()
	case *types.Struct, *types.Array:
		return ts.Const("zero:"+types.TypeString(typ, nil), typ, nil)
	}
	return ts.Nil()
}

func (ts *Terms) not(t *Term) *Term {
	if t.k == KNot {
		return t.a[0]
	}
	if t.k == KConst {
		if t.op == "true" {
			return ts.False()
		}
		if t.op == "false" {
			return ts.True()
		}
	}
	return ts.mk(Term{k: KNot, op: "!", a: []*Term{t}, typ: types.Typ[types.Bool]})
}

// bin normalises comparisons: != to !(==), > >= <= to < with possible negation.
func (ts *Terms) bin(op string, x, y *Term, typ types.Type) *Term {
	switch op {
	case "!=":
		return ts.not(ts.bin("==", x, y, typ))
	case ">":
		return ts.bin("<", y, x, typ)
	case ">=":
		return ts.not(ts.bin("<", x, y, typ))
	case "<=":
		return ts.not(ts.bin("<", y, x, typ))
	}
	if x.k == KConst && y.k == KConst && x.cst != nil && y.cst != nil && x.cst.Kind() == y.cst.Kind() {
		switch op {
		case "==":
			if constant.Compare(x.cst, tokEQL, y.cst) {
				return ts.True()
			}
			return ts.False()
		case "+", "-":
			if ts.fold && x.cst.Kind() == constant.Int {
				o := token.ADD
				if op == "-" {
					o = token.SUB
				}
				return ts.ConstVal(constant.BinaryOp(x.cst, o, y.cst), typ)
			}
		case "<":
			if x.cst.Kind() == constant.Int || x.cst.Kind() == constant.Float {
				if constant.Compare(x.cst, tokLSS, y.cst) {
					return ts.True()
				}
				return ts.False()
			}
		}
	}
	if op == "==" {
		if x == y && x.k != KSym {
			return ts.True()
		}
		if isBoolConst(x) {
			x, y = y, x
		}
		if isBoolConst(y) {
			if y.op == "true" {
				return x
			}
			return ts.not(x)
		}
		// constants to the right, otherwise ordered by key
		if x.k == KConst && y.k != KConst {
			x, y = y, x
		} else if (x.k == KConst) == (y.k == KConst) && x.key > y.key {
			x, y = y, x
		}
		// a length is zero exactly when it is not positive
		if y.k == KConst && isLen(x) && isInt(y, 0) {
			return ts.not(ts.mk(Term{k: KBin, op: "<", a: []*Term{y, x}, typ: typ}))
		}
	}
	if op == "<" && y.k == KConst && isLen(x) && isInt(y, 1) {
		return ts.not(ts.mk(Term{k: KBin, op: "<", a: []*Term{ts.ConstVal(constant.MakeInt64(0), types.Typ[types.Int]), x}, typ: typ}))
	}
	return ts.mk(Term{k: KBin, op: op, a: []*Term{x, y}, typ: typ})
}

func isBoolConst(t *Term) bool { return t.k == KConst && (t.op == "true" || t.op == "false") }

// fieldOf reads field f of a struct value.
func (ts *Terms) fieldOf(v *Term, f string, typ types.Type) *Term {
	switch v.k {
	case KAgg:
		names := strings.Split(v.op, "|")
		for i, n := range names {
			if i > 0 && n == f {
				return v.a[i]
			}
		}
		return ts.fieldOf(v.a[0], f, typ)
	case KConst:
		if strings.HasPrefix(v.op, "zero:") {
			return ts.zero(typ)
		}
	case KLoad:
		// the field of a value loaded from addr is the load of the field address
		return ts.mk(Term{k: KLoad, op: "", a: []*Term{ts.mk(Term{k: KFAddr, op: f, a: []*Term{v.a[0]}})}, typ: typ})
	}
	return ts.mk(Term{k: KField, op: f, a: []*Term{v}, typ: typ})
}

func isLen(t *Term) bool { return t.k == KPure && t.op == "len" }

func isInt(t *Term, n int64) bool {
	k, ok := constInt(t.cst)
	return ok && k == n
}

// lenBounds gives what is known about the length of a slice or string: at least lo, and exactly lo when exact.
func lenBounds(t *Term) (lo int64, exact bool) {
	switch t.k {
	case KConst:
		if t.op == "nil" {
			return 0, true
		}
		if t.cst != nil && t.cst.Kind() == constant.String {
			return int64(len(constant.StringVal(t.cst))), true
		}
	case KOther:
		switch t.op {
		case "append":
			lo, exact = lenBounds(t.a[0])
			if len(t.a) > 1 {
				l2, e2 := lenBounds(t.a[1])
				return lo + l2, exact && e2
			}
			return lo, exact
		case "slice":
			if len(t.a) == 4 && t.a[1].op == "_" && t.a[2].op == "_" && t.a[0].k == KAlloc && t.a[0].typ != nil {
				if p, ok := t.a[0].typ.Underlying().(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						return a.Len(), true
					}
				}
			}
		}
	}
	return 0, false
}
