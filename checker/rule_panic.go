package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Every go statement is listed with the functions it may run; in each of them something that recovers must be deferred before the first thing that can panic, what others wait for must be deferred there as well, and the first to recover must tell about it where the code tells about failures. Every HTTP engine and every gRPC server is listed and must recover around its handlers.", checkC23)
}

type panics struct {
	c    *Ctx
	memo map[*ssa.Function]ssa.Instruction
	busy map[*ssa.Function]bool
}

// catches: the function, deferred, takes a panic up.
func (p *panics) catches(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	hit := false
	p.c.calls(fn, func(in ssa.CallInstruction, n string) {
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
			if _, now := in.(*ssa.Call); now {
				hit = true
			}
		}
	})
	return hit
}

// targets: the functions of the repository a call may run; dynamic: it may run one that is not known.
func (p *panics) targets(cc *ssa.CallCommon) (fns []*ssa.Function, dynamic bool) {
	if cc.IsInvoke() {
		fns = p.c.E.Implementations(cc.Value.Type(), cc.Method)
		return fns, false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if f := closureOf(cc.Value); f != nil {
		if o := boundTarget(f); o != nil {
			if g := p.c.E.fnOf(o); g != nil {
				return []*ssa.Function{g}, false
			}
			return nil, false
		}
		if p.c.P.InRepo(f) {
			return []*ssa.Function{f}, false
		}
		return nil, false
	}
	return p.values(cc.Value, 4), len(p.values(cc.Value, 4)) == 0
}

// values: the functions a value may be.
func (p *panics) values(v ssa.Value, depth int) (out []*ssa.Function) {
	if depth == 0 {
		return nil
	}
	if f := closureOf(v); f != nil {
		return []*ssa.Function{f}
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			out = append(out, p.values(e, depth-1)...)
		}
	case *ssa.UnOp:
		out = p.values(u.X, depth-1)
	case *ssa.Alloc:
		for _, r := range *u.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == u {
				out = append(out, p.values(s.Val, depth-1)...)
			}
		}
	case *ssa.FreeVar:
		for _, b := range p.bindings(u) {
			out = append(out, p.values(b, depth-1)...)
		}
	case *ssa.ChangeType:
		out = p.values(u.X, depth-1)
	}
	return out
}

// bindings: what a captured variable is bound to where the literal is made.
func (p *panics) bindings(fv *ssa.FreeVar) (out []ssa.Value) {
	fn := fv.Parent()
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if idx < 0 || fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				out = append(out, mc.Bindings[idx])
			}
		}
	}
	return out
}

// source follows a captured variable out to where it is declared.
func (p *panics) source(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return v
			}
			v = u.X
		case *ssa.FreeVar:
			bs := p.bindings(u)
			if len(bs) == 0 {
				return v
			}
			v = bs[0]
		case *ssa.IndexAddr:
			v = u.X
		case *ssa.MakeInterface:
			v = u.X
		case *ssa.ChangeInterface:
			v = u.X
		default:
			return v
		}
	}
	return v
}

// guard: a deferred call that recovers.
type guard struct {
	d      *ssa.Defer
	done   string // the kind of group it counts down
	group  ssa.Value
	tell   []*ssa.Function // what is run with the panic
	rescue bool
}

func (p *panics) guards(fn *ssa.Function) (out []guard) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := guard{d: d}
			fns, _ := p.targets(d.Common())
			g.rescue = len(fns) > 0
			for _, f := range fns {
				if !p.catches(f) {
					g.rescue = false
				}
			}
			name := calleeName(d.Common())
			if dgMethod(name) == "Done" {
				var recv ssa.Value
				if d.Call.IsInvoke() {
					recv = d.Call.Value
				} else if len(d.Call.Args) > 0 {
					recv = d.Call.Args[0]
				}
				if recv != nil {
					g.group = recv
					g.done = typeNameOf(deref(recv.Type()))
				}
			} else if g.rescue {
				// a literal, or what is handed over to be run
				for _, f := range fns {
					if f.Parent() != nil {
						g.tell = append(g.tell, f)
					}
				}
				for _, a := range d.Call.Args {
					g.tell = append(g.tell, p.handed(a)...)
				}
			}
			// a literal that counts down, besides other things
			if g.done == "" {
				for _, f := range fns {
					if f.Parent() == nil {
						continue
					}
					p.c.calls(f, func(in ssa.CallInstruction, n string) {
						if dgMethod(n) == "Done" {
							cc := in.Common()
							if cc.IsInvoke() {
								g.group = cc.Value
							} else {
								g.group = cc.Args[0]
							}
							g.done = "in a literal"
							if g.rescue {
								g.tell = append(g.tell, f)
							}
						}
					})
				}
			}
			out = append(out, g)
		}
	}
	return out
}

// handed: the literals among (variadic) arguments.
func (p *panics) handed(v ssa.Value) (out []*ssa.Function) {
	switch u := v.(type) {
	case *ssa.Slice:
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if s, ok := rr.(*ssa.Store); ok {
							out = append(out, p.values(s.Val, 4)...)
						}
					}
				}
			}
		}
	default:
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			out = p.values(v, 4)
		}
	}
	return out
}

// risky: the instruction can panic, as far as this analysis goes.
func (p *panics) risky(in ssa.Instruction) bool {
	switch u := in.(type) {
	case *ssa.Call:
		cc := u.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return b.Name() == "panic"
		}
		fns, dyn := p.targets(cc)
		if dyn {
			return true
		}
		if cc.IsInvoke() && len(fns) == 0 {
			// a method of the library's own
			return false
		}
		for _, f := range fns {
			if p.risk(f) != nil {
				return true
			}
			// what does work of its own is taken to be able to panic
			if !p.rescues(f) && !harmless(f) && dgMethod(calleeName(cc)) == "" {
				return true
			}
		}
	case *ssa.Defer:
		// it runs when the function ends: what was deferred before it still recovers
	case *ssa.Panic:
		return true
	case *ssa.TypeAssert:
		return !u.CommaOk
	case *ssa.IndexAddr:
		if _, arr := deref(u.X.Type()).Underlying().(*types.Array); arr {
			_, k := u.Index.(*ssa.Const)
			return !k
		}
		return true
	case *ssa.Slice:
		_, al := u.X.(*ssa.Alloc)
		return !al && (u.Low != nil || u.High != nil)
	case *ssa.BinOp:
		if u.Op == token.QUO || u.Op == token.REM {
			_, k := u.Y.(*ssa.Const)
			return isIntType(u.Type()) && !k
		}
	}
	return false
}

func (p *panics) rescues(fn *ssa.Function) bool {
	for _, g := range p.guards(fn) {
		if g.rescue {
			return true
		}
	}
	return false
}

// harmless: it logs, or does nothing but a few steps without calls.
func harmless(f *ssa.Function) bool {
	if strings.HasSuffix(pkgPathOf(f), "common/logs") {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, bt := ci.Common().Value.(*ssa.Builtin); !bt {
					n := calleeName(ci.Common())
					if !strings.HasPrefix(n, "sync") && !strings.HasPrefix(n, "time.") && !strings.HasPrefix(n, "context.") {
						return false
					}
				}
			}
		}
	}
	return true
}

// risk: something in fn that can panic while nothing is deferred that recovers; nil if there is none.
func (p *panics) risk(fn *ssa.Function) ssa.Instruction {
	if r, ok := p.memo[fn]; ok {
		return r
	}
	if p.busy[fn] || len(fn.Blocks) == 0 {
		return nil
	}
	p.busy[fn] = true
	defer delete(p.busy, fn)
	var rescue []*ssa.Defer
	for _, g := range p.guards(fn) {
		if g.rescue {
			rescue = append(rescue, g.d)
		}
	}
	covered := func(in ssa.Instruction) bool {
		for _, d := range rescue {
			if d.Block() == in.Block() {
				if before(d, in) {
					return true
				}
			} else if d.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	var hit ssa.Instruction
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		for _, in := range b.Instrs {
			if hit == nil && p.risky(in) && !covered(in) {
				hit = in
			}
			// what is deferred before anything recovers runs uncovered
			if d, ok := in.(*ssa.Defer); ok && hit == nil && !covered(in) {
				fns, _ := p.targets(d.Common())
				for _, f := range fns {
					if !p.catches(f) && p.risk(f) != nil {
						hit = in
					}
				}
			}
		}
	}
	p.memo[fn] = hit
	return hit
}

// told: what the code, on a failure, changes outside of itself to tell of it.
func (p *panics) told(fn *ssa.Function, failing bool) map[string]ssa.Instruction {
	return p.tellsOf(fn, failing, 3)
}

func (p *panics) tellsOf(fn *ssa.Function, failing bool, depth int) map[string]ssa.Instruction {
	out := map[string]ssa.Instruction{}
	for _, b := range fn.Blocks {
		if failing && !afterFailure(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.Store:
				if v := p.outer(fn, u.Addr); v != "" {
					out[v] = in
				}
			case *ssa.MapUpdate:
				if v := p.outer(fn, u.Map); v != "" {
					out[v] = in
				}
			case *ssa.Call:
				cc := u.Common()
				// a literal of its own that does it
				if fns, _ := p.targets(cc); depth > 0 {
					for _, l := range fns {
						if l.Parent() == nil {
							continue
						}
						for v := range p.tellsOf(l, false, depth-1) {
							if !strings.HasPrefix(v, fn.Name()+".") {
								out[v] = in
							}
						}
					}
				}
				var recv ssa.Value
				if cc.IsInvoke() {
					recv = cc.Value
				} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
					recv = cc.Args[0]
				}
				if recv == nil {
					continue
				}
				n := calleeName(cc)
				m := n[strings.LastIndex(n, ".")+1:]
				switch m {
				case "Add", "Error", "Errors", "Store", "Append", "Push", "Put", "Set":
					if v := p.outer(fn, recv); v != "" {
						out[v] = in
					}
				}
			}
		}
	}
	return out
}

// afterFailure: the block is only reached when an error is there.
func afterFailure(b *ssa.BasicBlock) bool {
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		i := d.Idom()
		ifs, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		cmp, ok := ifs.Cond.(*ssa.BinOp)
		if !ok || !isErrorType(cmp.X.Type()) && !isErrorType(cmp.Y.Type()) {
			continue
		}
		if cmp.Op == token.NEQ && i.Succs[0] == d || cmp.Op == token.EQL && i.Succs[1] == d {
			return true
		}
	}
	return false
}

// outer names a variable of the surrounding functions (not one of fn's own).
func (p *panics) outer(fn *ssa.Function, v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		v = fa.X
	}
	s := p.source(v)
	if s == nil || s.Parent() == nil || s.Parent() == fn {
		return ""
	}
	switch s.(type) {
	case *ssa.Alloc, *ssa.Call, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FreeVar, *ssa.Extract:
	default:
		return ""
	}
	return s.Parent().Name() + "." + s.Name()
}

func checkC23(c *Ctx) {
	p := &panics{c: c, memo: map[*ssa.Function]ssa.Instruction{}, busy: map[*ssa.Function]bool{}}
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) || strings.Contains(pkgPathOf(fn), "/cmd/") {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				key := methodKey(fn)
				c.Count("go statements", 1)
				fns, dyn := p.targets(g.Common())
				if dyn {
					c.Bad("a panic stays in the goroutine", key, g.Pos(), "what the goroutine started at %s runs is not known", c.Pos(g.Pos()))
					continue
				}
				for _, f := range fns {
					c.Count("goroutine bodies", 1)
					p.body(key, f, g)
				}
			}
		}
	}
	p.servers()
	p.groups()
	c.Min("a panic stays in the goroutine", 40)
	c.Min("who waits is released", 14)
	c.Min("a panic is told", 8)
	c.Min("handlers recover", 5)
}

// groups: counting down takes a panic up, delivers it, and only then lets go who waits.
func (p *panics) groups() {
	c := p.c
	for _, fn := range c.P.Fns {
		if fn.Name() != "Done" || fn.Signature.Recv() == nil || !p.catches(fn) || len(fn.Blocks) == 0 {
			continue
		}
		key := methodKey(fn)
		var rec ssa.Value
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
				rec, _ = in.(ssa.Value)
			}
		})
		// the blocks reached only with a panic
		var with *ssa.BasicBlock
		for _, b := range fn.Blocks {
			if ifs, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if cmp, ok := ifs.Cond.(*ssa.BinOp); ok && (cmp.X == rec || cmp.Y == rec) {
					if with = b.Succs[0]; cmp.Op == token.EQL {
						with = b.Succs[1]
					}
				}
			}
		}
		tells, early := false, false
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			switch dgMethod(n) {
			case "Error", "Errors":
				if with != nil && len(with.Preds) == 1 && with == in.Block() {
					tells = true
				}
			case "Done":
				if _, now := in.(*ssa.Call); now && !before2(rec.(ssa.Instruction), in) {
					early = true
				}
			}
		})
		c.Check(tells, "a panic is told", key, fn.Pos(), "%s takes a panic up without delivering it to the group", key)
		c.Check(!early, "a panic is told", key+" in time", fn.Pos(), "%s lets who waits go before a panic is delivered", key)
	}
}

func (p *panics) body(key string, f *ssa.Function, g *ssa.Go) {
	c := p.c
	r := p.risk(f)
	at, what := g.Pos(), ""
	if r != nil {
		at = r.Pos()
		if at == token.NoPos {
			at = g.Pos()
		}
		what = strings.TrimSpace(c.Pos(at))
	}
	c.Check(r == nil, "a panic stays in the goroutine", key, at, "the goroutine started at %s can panic at %s while nothing is deferred that recovers: the whole server ends", c.Pos(g.Pos()), what)

	gs := p.guards(f)
	// what others wait for
	p.c.calls(f, func(in ssa.CallInstruction, n string) {
		cc := in.Common()
		rel := dgMethod(n) == "Done"
		if bt, ok := cc.Value.(*ssa.Builtin); ok && bt.Name() == "close" {
			rel = p.outer(f, cc.Args[0]) != ""
		}
		if !rel {
			return
		}
		_, deferred := in.(*ssa.Defer)
		ok := deferred
		if !ok {
			// nothing that can panic comes before
			ok = true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if p.risky(i) && (b == in.Block() && before(i, in) || b != in.Block()) {
						ok = false
					}
				}
			}
		} else {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if p.risky(i) && !(in.Block() == b && before(in, i)) && !(in.Block() != b && in.Block().Dominates(b)) {
						ok = false
					}
				}
			}
		}
		c.Check(ok, "who waits is released", key, in.Pos(), "what is waited for is counted down or closed at %s only if nothing panics before it: a panic in the goroutine started at %s leaves who waits waiting", c.Pos(in.Pos()), c.Pos(g.Pos()))
	})
	// who recovers first
	var first *guard
	for i := range gs {
		if gs[i].rescue {
			first = &gs[i]
		}
	}
	if first == nil {
		return
	}
	p.tells(key, f, gs, first, g)
}

func (p *panics) tells(key string, f *ssa.Function, gs []guard, first *guard, g *ssa.Go) {
	c := p.c
	// by the group
	var dgs []ssa.Value
	for i := range gs {
		if gs[i].group != nil && strings.HasSuffix(typeNameOf(deref(gs[i].group.Type())), "oneGroup") {
			dgs = append(dgs, gs[i].group)
		}
	}
	rest := p.told(f, true)
	for _, d := range dgs {
		ok := first.group != nil && p.source(first.group) == p.source(d)
		for _, t := range first.tell {
			if len(p.told(t, false)) > 0 {
				ok = true
			}
		}
		c.Check(ok, "a panic is told", key, first.d.Pos(), "a panic of the goroutine started at %s is taken up at %s and never reaches its group: who waits takes it for success", c.Pos(g.Pos()), c.Pos(first.d.Pos()))
		delete(rest, p.outer(f, d))
		return
	}
	// by what it changes when it fails
	for _, v := range sortedKeys(rest) {
		ok := false
		for _, t := range first.tell {
			for w := range p.told(t, false) {
				if w == v {
					ok = true
				}
			}
		}
		c.Check(ok, "a panic is told", key, rest[v].Pos(), "a failure of the goroutine started at %s is told at %s; a panic is not, and is taken for success", c.Pos(g.Pos()), c.Pos(rest[v].Pos()))
		// before who waits goes on
		for i := range gs {
			if gs[i].done == "" || !ok {
				continue
			}
			c.Check(gs[i].d == first.d || before2(gs[i].d, first.d), "a panic is told", key+" in time", first.d.Pos(), "who waits is released at %s before the panic is told at %s", c.Pos(gs[i].d.Pos()), c.Pos(first.d.Pos()))
		}
	}
}

// before2: a comes before b on every path to b.
func before2(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return before(a, b)
	}
	return a.Block().Dominates(b.Block())
}

// servers: what serves requests recovers around the handlers.
func (p *panics) servers() {
	c := p.c
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) || strings.Contains(pkgPathOf(fn), "/cmd/") {
			continue
		}
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch n {
			case ginPkg + ".New":
				c.Check(p.recovers(fn, call), "handlers recover", methodKey(fn)+" gin", call.Pos(), "the engine made at %s answers requests without recovering before its routes", c.Pos(call.Pos()))
			case ginPkg + ".Default":
				c.Check(true, "handlers recover", methodKey(fn)+" gin", call.Pos(), "")
			case "google.golang.org/grpc.NewServer":
				u, s := p.interceptors(call)
				c.Check(u, "handlers recover", methodKey(fn)+" unary", call.Pos(), "the server made at %s has no unary interceptor that recovers", c.Pos(call.Pos()))
				c.Check(s, "handlers recover", methodKey(fn)+" stream", call.Pos(), "the server made at %s has no stream interceptor that recovers", c.Pos(call.Pos()))
			}
		})
	}
}

// recovers: the engine uses the library's recovery before anything else is registered with it.
func (p *panics) recovers(fn *ssa.Function, eng *ssa.Call) bool {
	var use ssa.Instruction
	p.c.calls(fn, func(in ssa.CallInstruction, n string) {
		cc := in.Common()
		if !strings.HasSuffix(n, ".Use") || len(cc.Args) < 2 && !cc.IsInvoke() {
			return
		}
		for _, a := range cc.Args {
			for _, v := range spread(a) {
				if call, ok := stripValue(v).(*ssa.Call); ok && strings.HasPrefix(calleeName(call.Common()), ginPkg+".") && strings.Contains(calleeName(call.Common()), "Recovery") {
					use = in
				}
			}
		}
	})
	if use == nil {
		return false
	}
	// no route before it
	ok := true
	p.c.calls(fn, func(in ssa.CallInstruction, n string) {
		if in == use || before2(use, in) {
			return
		}
		m := n[strings.LastIndex(n, ".")+1:]
		if strings.HasPrefix(n, ginPkg+".") {
			switch m {
			case "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "Any", "Handle", "Group", "Static", "StaticFS":
				ok = false
			}
		}
		for _, a := range in.Common().Args {
			if a == ssa.Value(eng) && m != "Use" && !strings.HasPrefix(n, ginPkg+".") {
				ok = false
			}
		}
	})
	return ok
}

// spread: the values of a variadic argument.
func spread(v ssa.Value) (out []ssa.Value) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return []ssa.Value{v}
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return []ssa.Value{v}
	}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if s, ok := rr.(*ssa.Store); ok {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// interceptors: among the options of a gRPC server, or in what makes them, interceptors that recover.
func (p *panics) interceptors(call *ssa.Call) (unary, stream bool) {
	var look func(v ssa.Value, depth int)
	look = func(v ssa.Value, depth int) {
		if depth == 0 {
			return
		}
		v = stripValue(v)
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if f := closureOf(v); f != nil && f.Signature.Results().Len() > 0 && f.Signature.Params().Len() == 4 {
			for _, g := range p.guards(f) {
				if !g.rescue || p.risk(f) != nil || !p.fails(f, g) {
					continue
				}
				if f.Signature.Results().Len() == 2 {
					unary = true
				} else {
					stream = true
				}
			}
			return
		}
		cl, ok := v.(*ssa.Call)
		if !ok {
			return
		}
		if f := cl.Common().StaticCallee(); f != nil && p.c.P.InRepo(f) {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, r := range ret.Results {
						look(r, depth-1)
					}
				}
			}
			return
		}
		for _, a := range cl.Call.Args {
			for _, s := range spread(a) {
				look(s, depth-1)
			}
		}
	}
	for _, a := range call.Call.Args {
		for _, s := range spread(a) {
			look(s, 6)
		}
	}
	return
}

// fails: having recovered, the function returns an error: the recovering code sets a named result.
func (p *panics) fails(fn *ssa.Function, g guard) bool {
	for _, t := range g.tell {
		for _, b := range t.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && isErrorType(deref(s.Addr.Type())) {
					if al, ok := p.source(s.Addr).(*ssa.Alloc); ok && al.Parent() == fn {
						return true
					}
				}
			}
		}
	}
	return false
}
