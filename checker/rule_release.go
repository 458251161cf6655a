package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "every acquisition of a file, answer, connection, database, iterator or stream is an obligation followed on all paths until it is closed or handed on; what holds one closes it", func(c *Ctx) {
		c.Rule("released", "what is opened is closed on every path, or handed on")
		c.Rule("holder", "closing a holder closes what it holds")
		resourceRule(c, "released", nil, nil)
		c.closersRule("holder")
		c.Min("released", 40)
		c.Min("holder", 5)
	})
}

// closersRule: whatever keeps something open in a field closes it when it is
// closed itself, on every path on which the field is set.
func (c *Ctx) closersRule(rule string) {
	n := 0
	for _, fn := range c.P.Fns {
		if fn.Name() != "Close" && fn.Name() != "Stop" || fn.Signature.Recv() == nil || fn.Parent() != nil || isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		s, ok := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fields := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isCloser(f.Type()) && (strings.HasPrefix(typeNameOf(f.Type()), "io.") || typeNameOf(f.Type()) == "os.File") || c.ownCloser(f.Type()) || isDatabase(f.Type()) {
				fields[f.Name()] = true
			}
		}
		for _, f := range readerLists(s, 2) {
			n++
			key := methodKey(fn) + " closes the elements of " + f.Name()
			c.Check(c.closesElements(fn, f.Type().Underlying().(*types.Slice).Elem(), 2), rule, key, fn.Pos(), "%s never closes what it reads from, the elements of %s", methodKey(fn), f.Name())
		}
		if len(fields) == 0 {
			continue
		}
		n++
		c.closerOf(rule, fn, fields)
	}
	c.Count("closing methods of holders", n)
}

// isCloser: closing it is its own doing, not that of something inside that was handed to it.
func (c *Ctx) ownCloser(t types.Type) bool {
	m := types.NewMethodSet(t).Lookup(nil, "Close")
	return m != nil && m.Obj().Pkg() != nil && c.P.inRep[m.Obj().Pkg()] && c.ownType(t) && !types.IsInterface(t)
}

func isCloser(t types.Type) bool { return types.NewMethodSet(t).Lookup(nil, "Close") != nil }

// readerLists: the fields, also of what is embedded, that are lists of things to read from.
func readerLists(s *types.Struct, depth int) []*types.Var {
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) && types.NewMethodSet(sl.Elem()).Lookup(nil, "Read") != nil {
			out = append(out, f)
		}
		if e, ok := deref(f.Type()).Underlying().(*types.Struct); ok && f.Embedded() && depth > 0 {
			out = append(out, readerLists(e, depth-1)...)
		}
	}
	return out
}

func isDatabase(t types.Type) bool {
	n := typeNameOf(t)
	return strings.HasSuffix(n, "bbolt.DB") || strings.HasPrefix(n, "github.com/dgraph-io/badger/") && strings.HasSuffix(n, ".DB")
}

func (c *Ctx) ownType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && c.P.inRep[n.Obj().Pkg()]
}

func (c *Ctx) closerOf(rule string, fn *ssa.Function, fields map[string]bool) {
	key := methodKey(fn)
	this := func(x *Exec) *Term { return paramTerm(x, 0) }
	r := &Rule{MaxDepth: 4}
	open := map[string]bool{} // field and flag with which a path left it open
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		nm := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
		if releaseNames[nm] && len(ci.Args) > 0 && ci.Caller != nil {
			a := ci.Args[0].strip()
			for f := range fields {
				if a.contains(x.field(st, this(x), f)) {
					st.Emit(Event{Kind: "closed " + f, Call: ci})
					return ActOpaque
				}
			}
		}
		return ActDefault
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		for _, f := range sortedKeys(fields) {
			v := x.field(st, this(x), f)
			ok := x.nilness(st, v) == Yes
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "closed "+f {
					ok = true
				}
			}
			// a field of its own says whether it is still open
			for t, v := range st.facts {
				if ok {
					break
				}
				if t.k == KLoad || t.k == KField {
					if b, is := t.typ.Underlying().(*types.Basic); is && b.Kind() == types.Bool && t.contains(this(x)) {
						ok = !open[fmt.Sprint(f, t, !v)]
						open[fmt.Sprint(f, t, v)] = true
					}
				}
			}
			c.Check(ok, rule, key+" closes "+f, at.Pos(), "%s can return at %s without having closed %s", key, c.Pos(at.Pos()), f)
		}
	}
	c.Run(fn, r)
}
