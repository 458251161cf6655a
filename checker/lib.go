package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnByName finds an in-repo function or method by its full name (nil if absent).
func (p *Prog) FnByName(name string) *ssa.Function {
	for _, fn := range p.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if o, ok := fn.Object().(*types.Func); ok && FullName(o) == name {
			return fn
		}
	}
	return nil
}

// TypeByName finds a named type "pkg/path.Name".
func (p *Prog) TypeByName(name string) *types.Named {
	i := strings.LastIndex(name, ".")
	pk := p.ByPth[name[:i]]
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(name[i+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

// Implementers lists in-repo concrete types whose value or pointer satisfies an interface.
func (p *Prog) Implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, pk := range p.Pkgs {
		if isMockOrTest(pk.PkgPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || strings.HasPrefix(n, "Unimplemented") {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok || named.TypeParams().Len() > 0 || types.IsInterface(named) {
				continue
			}
			if types.Implements(named, it) {
				out = append(out, named)
			} else if pt := types.NewPointer(named); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// Method finds the body of a method in a type's method set, promoted ones included.
func (p *Prog) Method(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// swallows: an error that may be set is not reflected in the returned one.
func (x *Exec) swallows(st *State, err, ret *Term) bool {
	if err == nil {
		return false
	}
	if x.nilness(st, err) == Yes {
		return false
	}
	if ret == nil {
		return true
	}
	if ret.strip() == err.strip() {
		return false
	}
	if x.nilness(st, ret) == No {
		return false
	}
	return true
}

func (e *Engine) fieldAddr(base *Term, name string) *Term {
	return e.T.mk(Term{k: KFAddr, op: name, a: []*Term{base}})
}

// field reads a field through a pointer term.
func (x *Exec) field(st *State, ptr *Term, name string) *Term {
	ptr = ptr.strip()
	var typ types.Type
	if ptr.typ != nil {
		typ = fieldTypeDeep(elemOf(ptr.typ), name)
	}
	if ptr.typ != nil {
		if _, ok := ptr.typ.Underlying().(*types.Struct); ok {
			return x.E.T.fieldOf(ptr, name, typ)
		}
	}
	a := x.E.T.mk(Term{k: KFAddr, op: name, a: []*Term{ptr}})
	if typ == nil {
		typ = types.Typ[types.Invalid]
	}
	return x.load(st, a, typ, nil, 0)
}

func fieldTypeDeep(t types.Type, name string) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return fieldType(t, name)
}

// constOf gives the constant a term is known to equal on the path.
func (x *Exec) constOf(st *State, t *Term) (constant.Value, bool) {
	if t == nil {
		return nil, false
	}
	t = t.strip()
	if t.k == KConst {
		if t.cst != nil {
			return t.cst, true
		}
		return nil, false
	}
	for f, v := range st.facts {
		if v && f.k == KBin && f.op == "==" && f.a[0] == t && f.a[1].k == KConst && f.a[1].cst != nil {
			return f.a[1].cst, true
		}
	}
	return nil, false
}

func constInt(v constant.Value) (int64, bool) {
	if v == nil || v.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(v)
	return n, ok
}

// constName finds the declared constant of a type with a value.
func constName(pk *types.Package, typeName string, v int64) string {
	for _, n := range pk.Scope().Names() {
		if c, ok := pk.Scope().Lookup(n).(*types.Const); ok {
			if nt, ok := c.Type().(*types.Named); ok && nt.Obj().Name() == typeName {
				if k, ok := constInt(c.Val()); ok && k == v {
					return n
				}
			}
		}
	}
	return "?"
}

// callees lists the in-repo functions a call may reach (static, or every implementation).
func (e *Engine) callees(c *CallInfo) []*ssa.Function {
	if c.Fn != nil {
		return []*ssa.Function{c.Fn}
	}
	if c.Common.IsInvoke() {
		return e.Implementations(c.Common.Value.Type(), c.Common.Method)
	}
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	f := topFn(fn)
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// baseFn strips synthetic wrappers (bound methods, promoted methods, instances).
func (e *Engine) baseFn(t *Term) *ssa.Function {
	t = t.strip()
	if t.fn == nil {
		return nil
	}
	if b := boundTarget(t.fn); b != nil {
		return e.fnOf(b)
	}
	return t.fn
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func cstStr(s string) constant.Value { return constant.MakeString(s) }

// declared function name for reports: "Type.Method" or "Func"
func shortFn(fn *ssa.Function) string {
	f := topFn(fn)
	if o, ok := f.Object().(*types.Func); ok {
		s := FullName(o)
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return s
	}
	return short(f.String())
}

// stableKey names a function for obligations (full path, no positions).
func stableKey(fn *ssa.Function) string {
	f := topFn(fn)
	if o, ok := f.Object().(*types.Func); ok {
		return FullName(o)
	}
	return f.String()
}

// globalStatus: the first integer constant a package variable (a status error) is initialised with.
func (p *Prog) globalStatus(t *Term) (int64, bool) {
	if t.k != KLoad || t.a[0].k != KGlobal {
		return 0, false
	}
	for _, pk := range p.SSA.AllPackages() {
		if !p.inRep[pk.Pkg] {
			continue
		}
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.String() != t.a[0].op {
				continue
			}
			ini := pk.Func("init")
			for _, b := range ini.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(g) {
						continue
					}
					v := st.Val
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					if call, ok := v.(*ssa.Call); ok {
						for _, a := range call.Call.Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
								n, _ := constant.Int64Val(k.Value)
								return n, true
							}
						}
					}
					// &Err{Status: n}
					if al, ok := v.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							fa, ok := r.(*ssa.FieldAddr)
							if !ok || structField(al.Type(), fa.Field) != "Status" {
								continue
							}
							for _, rr := range *fa.Referrers() {
								if s2, ok := rr.(*ssa.Store); ok {
									if k, ok := s2.Val.(*ssa.Const); ok && k.Value != nil {
										n, _ := constant.Int64Val(k.Value)
										return n, true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return 0, false
}

// fromCall: the value derives from a call to one of the named functions.
func fromCall(v *Term, match func(string) bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.call != nil {
			if match(t.call.Name) {
				return true
			}
			for _, a := range t.call.Args {
				if f(a) {
					return true
				}
			}
		}
		for _, a := range t.a {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(v)
}
