package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalInit describes what a package variable holds for the whole life of the
// program: it is assigned once, in the package initialiser.
type globalInit struct {
	val  ssa.Value
	fn   *ssa.Function
	once bool
}

func (p *Prog) globals() map[string]*globalInit {
	if p.ginit != nil {
		return p.ginit
	}
	m := map[string]*globalInit{}
	for _, pk := range p.SSA.AllPackages() {
		if !p.inRep[pk.Pkg] {
			continue
		}
		for _, mem := range pk.Members {
			if f, ok := mem.(*ssa.Function); ok {
				p.scanGlobals(f, m)
			}
		}
	}
	for _, f := range p.Fns {
		if f.Pkg != nil && f.Pkg.Members[f.Name()] == f {
			continue
		}
		p.scanGlobals(f, m)
	}
	p.ginit = m
	return m
}

func (p *Prog) scanGlobals(f *ssa.Function, m map[string]*globalInit) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				if g, ok := v.Addr.(*ssa.Global); ok {
					if old := m[g.String()]; old != nil {
						old.once = false
					} else {
						m[g.String()] = &globalInit{v.Val, f, f.Name() == "init" && f.Synthetic != ""}
					}
				}
			case *ssa.MapUpdate:
				if u, ok := v.Map.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						if old := m[g.String()]; old != nil {
							old.once = false
						} else {
							m[g.String()] = &globalInit{nil, f, false}
						}
					}
				}
			}
		}
	}
}

// globalMap gives the entries of a constant-keyed map variable that is never modified.
func (p *Prog) globalMap(name string) (map[string]ssa.Value, bool) {
	g := p.globals()[name]
	if g == nil || !g.once {
		return nil, false
	}
	mm, ok := g.val.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	out := map[string]ssa.Value{}
	for _, r := range *mm.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			k, ok := u.Key.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, false
			}
			out[k.Value.ExactString()] = u.Value
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, true
}

// globalStrings gives the string constants a set- or slice-valued variable is built from.
func (p *Prog) globalStrings(name string) (map[string]bool, bool) {
	g := p.globals()[name]
	if g == nil || !g.once {
		return nil, false
	}
	if mm, ok := p.globalMap(name); ok {
		out := map[string]bool{}
		for k, v := range mm {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
				continue
			}
			kv := constant.MakeFromLiteral(k, 9, 0)
			out[constant.StringVal(kv)] = true
		}
		return out, true
	}
	out := map[string]bool{}
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		switch t := v.(type) {
		case *ssa.Call:
			for _, a := range t.Call.Args {
				visit(a)
			}
		case *ssa.MakeInterface:
			visit(t.X)
		case *ssa.ChangeInterface:
			visit(t.X)
		case *ssa.Slice:
			visit(t.X)
		case *ssa.Const:
			if t.Value != nil && t.Value.Kind() == constant.String {
				out[constant.StringVal(t.Value)] = true
			}
		case *ssa.Alloc:
			if _, isArr := deref(t.Type()).Underlying().(*types.Array); !isArr {
				ok = false
				return
			}
			for _, r := range *t.Referrers() {
				if ia, isIA := r.(*ssa.IndexAddr); isIA {
					for _, rr := range *ia.Referrers() {
						if s, isS := rr.(*ssa.Store); isS {
							visit(s.Val)
						}
					}
				}
			}
		default:
			ok = false
		}
	}
	visit(g.val)
	return out, ok
}

// globalOf names the package variable a term was loaded from.
func globalOf(t *Term) string {
	t = t.strip()
	if t.k == KLoad && t.a[0].k == KGlobal {
		return t.a[0].op
	}
	return ""
}

// containsGlobal decides calls like set.Contains(x) or slices.Contains(list, x)
// on a constant collection; the answer is assumed on the path.
func (x *Exec) containsGlobal(st *State, ci *CallInfo) {
	if len(ci.Args) != 2 || len(ci.Name) < 8 || ci.Name[len(ci.Name)-8:] != "Contains" {
		return
	}
	set, ok := x.E.P.globalStrings(globalOf(ci.Args[0]))
	if !ok {
		return
	}
	v, ok := x.constOf(st, ci.Args[1].strip())
	if !ok || v.Kind() != constant.String {
		return
	}
	x.Assume(st, x.E.Res(ci, 0), set[constant.StringVal(v)])
}

// constLookup evaluates an index into a constant map variable.
func (x *Exec) constLookup(st *State, fr *frame, p *point, t *Term, v *ssa.Lookup) (*Term, bool, bool) {
	g := globalOf(t.a[0])
	if g == "" {
		return nil, false, false
	}
	mt, isMap := v.X.Type().Underlying().(*types.Map)
	if !isMap {
		return nil, false, false
	}
	m, ok := x.E.P.globalMap(g)
	if !ok {
		return nil, false, false
	}
	k, ok := x.constOf(st, t.a[1])
	if !ok {
		return nil, false, false
	}
	val, found := m[k.ExactString()]
	if !found {
		return x.E.T.zero(mt.Elem()), false, true
	}
	c, isC := val.(*ssa.Const)
	if !isC {
		return nil, false, false
	}
	return x.val(fr, p, c), true, true
}
