package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Graph is the in-repo call graph: static calls, closures, method values and
// interface calls resolved to every in-repo implementation.
type Graph struct {
	Out map[*ssa.Function][]*ssa.Function
	In  map[*ssa.Function][]*ssa.Function
	// Ext lists the resolved names of every callee (in-repo or not) per function.
	Ext map[*ssa.Function]map[string]bool
}

func (e *Engine) Graph() *Graph {
	if e.P.graph != nil {
		return e.P.graph
	}
	g := &Graph{Out: map[*ssa.Function][]*ssa.Function{}, In: map[*ssa.Function][]*ssa.Function{}, Ext: map[*ssa.Function]map[string]bool{}}
	type edge struct{ a, b *ssa.Function }
	seen := map[edge]bool{}
	add := func(a, b *ssa.Function) {
		if b == nil || b.Blocks == nil && boundTarget(b) == nil {
			return
		}
		if o := boundTarget(b); o != nil {
			if f := e.fnOf(o); f != nil {
				b = f
			} else {
				return
			}
		}
		if !seen[edge{a, b}] {
			seen[edge{a, b}] = true
			g.Out[a] = append(g.Out[a], b)
			g.In[b] = append(g.In[b], a)
		}
	}
	var ops []*ssa.Value
	for _, fn := range e.P.Fns {
		ext := map[string]bool{}
		g.Ext[fn] = ext
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if n := calleeName(cc); n != "" {
						ext[n] = true
					}
					if cc.IsInvoke() {
						for _, f := range e.Implementations(cc.Value.Type(), cc.Method) {
							add(fn, f)
						}
					}
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch f := (*o).(type) {
					case *ssa.Function:
						add(fn, f)
					}
				}
			}
		}
	}
	e.P.graph = g
	return g
}

// Reaching is the set of in-repo functions from which a callee with one of the names can be reached.
func (e *Engine) Reaching(match func(name string) bool) map[*ssa.Function]bool {
	g := e.Graph()
	set := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range e.P.Fns {
		for n := range g.Ext[fn] {
			if match(n) {
				set[fn] = true
				work = append(work, fn)
				break
			}
		}
		if o, ok := fn.Object().(*types.Func); ok && !set[fn] && match(FullName(o)) {
			set[fn] = true
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range g.In[f] {
			if !set[c] {
				set[c] = true
				work = append(work, c)
			}
		}
	}
	return set
}

// From is the set of in-repo functions reachable from the roots.
func (e *Engine) From(roots ...*ssa.Function) map[*ssa.Function]bool {
	return e.FromExcept(nil, roots...)
}

// FromExcept is From, not entering the functions skip holds for.
func (e *Engine) FromExcept(skip func(*ssa.Function) bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	g := e.Graph()
	set := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), roots...)
	for _, f := range roots {
		set[f] = true
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range g.Out[f] {
			if !set[c] && (skip == nil || !skip(c)) {
				set[c] = true
				work = append(work, c)
			}
		}
	}
	return set
}

// Weight is the number of blocks of fn and everything it calls in the repo (capped).
func (e *Engine) Weight(fn *ssa.Function) int {
	if e.weights == nil {
		e.weights = map[*ssa.Function]int{}
	}
	if w, ok := e.weights[fn]; ok {
		return w
	}
	e.weights[fn] = 1000 // recursion
	w := len(fn.Blocks)
	for _, c := range e.Graph().Out[fn] {
		w += e.Weight(c)
		if w > 1000 {
			w = 1000
			break
		}
	}
	e.weights[fn] = w
	return w
}

// Focus returns an OnCall policy helper: enter callees that matter or are small.
func (e *Engine) Focus(set map[*ssa.Function]bool, small int) func(c *CallInfo, fn *ssa.Function) bool {
	return func(c *CallInfo, fn *ssa.Function) bool {
		if set[fn] {
			return true
		}
		return e.Weight(fn) <= small
	}
}

// StaticReaching follows only static calls and closures backwards from functions
// that call a matching callee directly (interface calls are not followed).
func (e *Engine) StaticReaching(match func(name string) bool) map[*ssa.Function]bool {
	return e.StaticUp(func(ci ssa.CallInstruction) bool { return match(calleeName(ci.Common())) })
}

// StaticUp is StaticReaching for calls that are recognised otherwise.
func (e *Engine) StaticUp(match func(ssa.CallInstruction) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	in := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	var ops []*ssa.Value
	for _, fn := range e.P.Fns {
		hit := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && match(ci) {
					hit = true
				}
				ops = i.Operands(ops[:0])
				for _, o := range ops {
					if f, ok := (*o).(*ssa.Function); ok {
						if t := boundTarget(f); t != nil {
							if g := e.fnOf(t); g != nil {
								f = g
							}
						}
						in[f] = append(in[f], fn)
					}
				}
			}
		}
		if hit {
			set[fn] = true
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range in[f] {
			if !set[c] {
				set[c] = true
				work = append(work, c)
			}
		}
	}
	return set
}
