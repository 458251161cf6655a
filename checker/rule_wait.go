package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "Every group that goroutines are counted with is identified by where it is made; each counting up is followed on all paths to the goroutine that counts it down, each such goroutine is preceded by a counting up of its own, and from there all paths are followed to where it is waited for. Every channel that is read to its end, and every channel that is closed, is listed with those that send.", checkC24)
}

type waits struct {
	p *panics
	c *Ctx
	// functions and the literals in them
	kids map[*ssa.Function][]*ssa.Function
}

// groupOp: the operation on a group and the group.
func (w *waits) groupOp(in ssa.Instruction) (m string, g ssa.Value) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	cc := ci.Common()
	m = dgMethod(calleeName(cc))
	if m == "" {
		return "", nil
	}
	if m == "WaitDone" && !w.received(in) {
		return "", nil
	}
	var recv ssa.Value
	if cc.IsInvoke() {
		recv = cc.Value
	} else if len(cc.Args) > 0 {
		recv = cc.Args[0]
	}
	if recv == nil {
		return "", nil
	}
	g = w.p.source(recv)
	// a parameter in a variable of its own
	if al, ok := g.(*ssa.Alloc); ok {
		var only ssa.Value
		n := 0
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				only = s.Val
				n++
			}
		}
		if pr, ok := only.(*ssa.Parameter); ok && n == 1 {
			g = pr
		}
	}
	// a group with more to it
	if fa, ok := g.(*ssa.FieldAddr); ok && strings.HasSuffix(typeNameOf(deref(fa.X.Type())), "oneGroup") {
		g = w.p.source(fa.X)
	}
	return m, g
}

// received: something waits for the channel the call returns.
func (w *waits) received(in ssa.Instruction) bool {
	v, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	vals := []ssa.Value{v}
	for i := 0; i < len(vals); i++ {
		if vals[i].Referrers() == nil {
			continue
		}
		for _, r := range *vals[i].Referrers() {
			switch u := r.(type) {
			case *ssa.UnOp:
				if u.Op == token.ARROW {
					return true
				}
				vals = append(vals, u)
			case *ssa.Select:
				if u.Blocking {
					return true
				}
			case *ssa.Store:
				if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == vals[i] && al != vals[i] {
					vals = append(vals, al)
				} else if !ok {
					return true
				}
			case *ssa.Phi:
				if len(vals) < 8 {
					vals = append(vals, u)
				}
			case *ssa.ChangeType:
				vals = append(vals, u)
			case *ssa.Return, *ssa.MakeClosure, ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}

// ups: the instruction counts the group up; by one, or by an unknown number.
func (w *waits) ups(in ssa.Instruction) (g ssa.Value, one bool) {
	m, g := w.groupOp(in)
	switch m {
	case "Todo":
		return g, true
	case "Add":
		args := in.(ssa.CallInstruction).Common().Args
		k, ok := args[len(args)-1].(*ssa.Const)
		if ok && k.Value != nil && k.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(k.Value)
			return g, n == 1
		}
		return g, false
	}
	return nil, false
}

// family: the function and all literals in it.
func (w *waits) family(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, k := range w.kids[fn] {
		out = append(out, w.family(k)...)
	}
	return out
}

// downs: the groups that what is started counts down.
func (w *waits) downs(g *ssa.Go) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	fns, _ := w.p.targets(g.Common())
	for _, f := range fns {
		w.downsOf(f, out, 3)
		// a group handed over as an argument
		args := g.Call.Args
		for i, pr := range f.Params {
			if out[pr] && i < len(args) {
				out[w.p.source(args[i])] = true
			}
		}
	}
	return out
}

func (w *waits) downsOf(f *ssa.Function, out map[ssa.Value]bool, depth int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if m, s := w.groupOp(in); m == "Done" {
				out[s] = true
			}
			ci, ok := in.(ssa.CallInstruction)
			if _, isGo := in.(*ssa.Go); !ok || isGo || depth == 0 {
				continue
			}
			fns, _ := w.p.targets(ci.Common())
			for _, k := range fns {
				if k.Parent() != nil && len(k.Blocks) > 0 {
					w.downsOf(k, out, depth-1)
				}
			}
		}
	}
}

// escapes: the group is handed to something that is not looked at.
func (w *waits) escapes(fams []*ssa.Function, g ssa.Value) bool {
	for _, f := range fams {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch u := in.(type) {
				case *ssa.Return:
					for _, r := range u.Results {
						if w.p.source(r) == g || w.bound(r, g) {
							return true
						}
					}
				case *ssa.Store:
					if u.Addr != g && u.Val != g && w.p.source(u.Addr) != g && (w.p.source(u.Val) == g || w.bound(u.Val, g)) {
						return true
					}
				case ssa.CallInstruction:
					if m, _ := w.groupOp(in); m != "" {
						continue
					}
					for _, a := range u.Common().Args {
						if w.p.source(a) == g {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// bound: the value is a method of the group.
func (w *waits) bound(v ssa.Value, g ssa.Value) bool {
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	if strings.HasPrefix(mc.Fn.(*ssa.Function).Synthetic, "bound") {
		for _, b := range mc.Bindings {
			if w.p.source(b) == g {
				return true
			}
		}
	}
	return false
}

func isWait(m string) bool {
	switch m {
	case "Wait", "WaitUntilError", "WaitError", "WaitDone":
		return true
	}
	return false
}

// walk follows all paths after (or before) an instruction until stop says so; it returns what stop marked as bad.
func walk(from ssa.Instruction, back bool, stop func(in ssa.Instruction) (end, bad bool)) ssa.Instruction {
	b := from.Block()
	idx := 0
	for i, in := range b.Instrs {
		if in == from {
			idx = i
		}
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	var work []pt
	if back {
		work = []pt{{b, idx - 1}}
	} else {
		work = []pt{{b, idx + 1}}
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		ended := false
		for i := p.i; i >= 0 && i < len(p.b.Instrs); {
			end, bad := stop(p.b.Instrs[i])
			if bad {
				return p.b.Instrs[i]
			}
			if end {
				ended = true
				break
			}
			if back {
				i--
			} else {
				i++
			}
		}
		if ended {
			continue
		}
		next := p.b.Succs
		if back {
			next = p.b.Preds
			if len(next) == 0 {
				// the beginning
				if _, bad := stop(nil); bad {
					return from
				}
			}
		}
		for _, n := range next {
			if !seen[n] {
				seen[n] = true
				i := 0
				if back {
					i = len(n.Instrs) - 1
				}
				work = append(work, pt{n, i})
			}
		}
	}
	return nil
}

func checkC24(c *Ctx) {
	w := &waits{c: c, p: &panics{c: c, memo: map[*ssa.Function]ssa.Instruction{}, busy: map[*ssa.Function]bool{}}, kids: map[*ssa.Function][]*ssa.Function{}}
	for _, fn := range c.P.Fns {
		if fn.Parent() != nil {
			w.kids[fn.Parent()] = append(w.kids[fn.Parent()], fn)
		}
	}
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) || strings.Contains(pkgPathOf(fn), "/cmd/") || strings.HasSuffix(topFn(fn).String(), "oneGroup).Todo") {
			continue
		}
		w.function(fn)
	}
	c.Min("counted up, then started", 15)
	c.Min("started after counting up", 15)
	c.Min("waited for", 12)
	c.Min("errors are asked for", 9)
	c.Min("read to its end", 2)
	c.Min("closed after the last send", 3)
}

func (w *waits) function(fn *ssa.Function) {
	c, key := w.c, methodKey(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if g, one := w.ups(in); g != nil {
				w.counted(fn, key, in, g, one)
			}
			if g, ok := in.(*ssa.Go); ok {
				for s := range w.downs(g) {
					if _, param := s.(*ssa.Parameter); param && !w.upIn(fn, s) || s.Parent() == nil {
						continue
					}
					if _, isField := s.(*ssa.FieldAddr); isField {
						continue
					}
					if s.Parent() != fn && !w.inside(fn, s.Parent()) {
						continue // a group of the goroutine itself
					}
					bad := walk(g, true, func(p ssa.Instruction) (bool, bool) {
						if p == nil {
							return true, true
						}
						if u, _ := w.ups(p); u == s {
							return true, false
						}
						if o, ok := p.(*ssa.Go); ok && o != g && w.downs(o)[s] {
							return true, !w.bulk(fn, s)
						}
						return false, false
					})
					again := false
					if !w.bulk(fn, s) {
						// the loop around it must count up each time
						if walk(g, false, func(p ssa.Instruction) (bool, bool) {
							if u, _ := w.ups(p); u == s {
								return true, false
							}
							return p == ssa.Instruction(g), p == ssa.Instruction(g)
						}) != nil {
							again = true
						}
					}
					c.Check(bad == nil && !again, "started after counting up", key, g.Pos(), "the goroutine started at %s counts a group down that was not counted up for it before: who waits may go on too early", c.Pos(g.Pos()))
				}
			}
			if mc, ok := in.(*ssa.MakeChan); ok {
				w.channel(fn, key, mc)
			}
		}
	}
}

// inside: fn is a literal in (a literal in) outer.
func (w *waits) inside(fn, outer *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f == outer {
			return true
		}
	}
	return false
}

// upIn: the function counts the group up somewhere.
func (w *waits) upIn(fn *ssa.Function, g ssa.Value) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, _ := w.ups(in); s == g {
				return true
			}
		}
	}
	return false
}

// bulk: the group is counted up by more than one at a time.
func (w *waits) bulk(fn *ssa.Function, g ssa.Value) bool {
	hit := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, one := w.ups(in); s == g && !one {
				hit = true
			}
		}
	}
	return hit
}

func (w *waits) counted(fn *ssa.Function, key string, up ssa.Instruction, g ssa.Value, one bool) {
	c := w.c
	home := g.Parent()
	if home == nil {
		return
	}
	_, param := g.(*ssa.Parameter)
	fam := w.family(home)
	if one {
		bad := walk(up, false, func(in ssa.Instruction) (bool, bool) {
			switch u := in.(type) {
			case *ssa.Go:
				if w.downs(u)[g] {
					return true, false
				}
			case *ssa.Return:
				return true, true
			}
			m, s := w.groupOp(in)
			if s == g {
				if m == "Done" {
					return true, false
				}
				if m == "Todo" || m == "Add" || m == "Wait" || m == "WaitUntilError" {
					if _, d := in.(*ssa.Defer); !d {
						return true, true
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok && m == "" {
				for _, a := range ci.Common().Args {
					if w.p.source(a) == g {
						return true, false
					}
				}
			}
			return false, false
		})
		at := up.Pos()
		if bad != nil && bad.Pos() != token.NoPos {
			at = bad.Pos()
		}
		c.Check(bad == nil, "counted up, then started", key, up.Pos(), "the group counted up at %s is not counted down by anything started before %s: waiting for it never ends", c.Pos(up.Pos()), c.Pos(at))
	}
	if param {
		return // whoever made it waits
	}
	// waited for
	waited, asked, delivers, many, closes := false, false, false, false, false
	for _, f := range fam {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, s := w.groupOp(in)
				if s != g {
					continue
				}
				switch m {
				case "WaitUntilError":
					waited = true
					if v, ok := in.(*ssa.Call); ok && v.Referrers() != nil && len(*v.Referrers()) > 0 {
						asked = true
					}
				case "WaitError":
					asked, waited = true, true
				case "Wait", "WaitDone":
					waited = true
				case "Error":
					delivers = true
				case "Errors":
					delivers, many = true, true
				case "Close":
					closes = true
				}
			}
		}
	}
	esc := w.escapes(fam, g)
	ok := waited || esc
	var past ssa.Instruction
	if ok && !esc && home == fn {
		// on every path
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, s := w.groupOp(in); s == g && isWait(m) {
					if _, d := in.(*ssa.Defer); d {
						esc = true
					}
				}
			}
		}
		if !esc {
			past = walk(up, false, func(in ssa.Instruction) (bool, bool) {
				if m, s := w.groupOp(in); s == g && isWait(m) {
					return true, false
				}
				_, ret := in.(*ssa.Return)
				return ret, ret
			})
		}
	}
	at := up.Pos()
	if past != nil && past.Pos() != token.NoPos {
		at = past.Pos()
	}
	c.Check(ok && past == nil, "waited for", key, up.Pos(), "what is counted at %s is not waited for on every path (%s): the function goes on without it", c.Pos(up.Pos()), c.Pos(at))
	if delivers {
		c.Check(asked || esc, "errors are asked for", key, up.Pos(), "errors are delivered to the group counted up at %s, and nothing asks for them", c.Pos(up.Pos()))
	}
	if many {
		c.Check(asked && closes, "errors are asked for", key+" many", up.Pos(), "several errors may be delivered to the group counted up at %s: they must be read until it is closed", c.Pos(up.Pos()))
	}
}

// reads: where the channel is read until it is closed, in the functions.
func (w *waits) drained(fams []*ssa.Function, is func(ssa.Value) bool) ssa.Instruction {
	for _, f := range fams {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk && is(u.X) {
					return in
				}
			}
		}
	}
	return nil
}

func (w *waits) channel(fn *ssa.Function, key string, mc *ssa.MakeChan) {
	c := w.c
	home := topFn(fn)
	fam := w.family(home)
	cells := map[ssa.Value]bool{mc: true}
	var returned bool
	for _, r := range *mc.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == mc {
			if al, ok := s.Addr.(*ssa.Alloc); ok {
				cells[al] = true
			} else {
				return // kept elsewhere
			}
		}
	}
	is := func(v ssa.Value) bool {
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		return cells[w.p.source(v)]
	}
	var shut []ssa.CallInstruction
	type send struct {
		in ssa.Instruction
		fn *ssa.Function
	}
	var sends []send
	for _, f := range fam {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch u := in.(type) {
				case ssa.CallInstruction:
					if bt, ok := u.Common().Value.(*ssa.Builtin); ok && bt.Name() == "close" && is(u.Common().Args[0]) {
						shut = append(shut, u)
					}
				case *ssa.Send:
					if is(u.Chan) {
						sends = append(sends, send{in, f})
					}
				case *ssa.Return:
					for _, r := range u.Results {
						if is(r) {
							returned = true
						}
					}
				}
			}
		}
	}
	drain := w.drained(fam, is)
	if drain == nil && returned {
		for _, caller := range c.P.Fns {
			c.calls(caller, func(in ssa.CallInstruction, n string) {
				if call, ok := in.(*ssa.Call); ok && call.Common().StaticCallee() == fn {
					if d := w.drained([]*ssa.Function{caller}, func(v ssa.Value) bool {
						return v == call || w.p.source(v) == ssa.Value(call)
					}); d != nil {
						drain = d
					}
				}
			})
		}
	}
	if drain != nil {
		c.Check(len(shut) > 0, "read to its end", key, drain.Pos(), "the channel made at %s is read at %s until it is closed, and nothing closes it", c.Pos(mc.Pos()), c.Pos(drain.Pos()))
	}
	for _, cl := range shut {
		f := cl.Parent()
		ok := true
		var at ssa.Instruction
		for _, s := range sends {
			if s.fn == f {
				// in one function: a deferred close, or none after it
				if _, d := cl.(*ssa.Defer); !d && !before2(s.in, cl) && !s.in.Block().Dominates(cl.Block()) {
					if walk(cl, false, func(in ssa.Instruction) (bool, bool) { return in == s.in, in == s.in }) != nil {
						ok, at = false, s.in
					}
				}
				continue
			}
			if !w.inside(s.fn, f) {
				continue
			}
			// by goroutines it has started: it must have waited for all of them
			if !w.waitedBefore(f, s.fn, cl) {
				ok, at = false, s.in
			}
		}
		pos := cl.Pos()
		if at != nil {
			pos = at.Pos()
		}
		c.Check(ok, "closed after the last send", key, cl.Pos(), "the channel made at %s may be closed at %s before a goroutine sends on it at %s", c.Pos(mc.Pos()), c.Pos(cl.Pos()), c.Pos(pos))
	}
}

// waitedBefore: before the channel is closed, all of the goroutines running the sender were waited for.
func (w *waits) waitedBefore(f, sender *ssa.Function, cl ssa.CallInstruction) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			fns, _ := w.p.targets(g.Common())
			mine := false
			for _, t := range fns {
				mine = mine || w.inside(sender, t)
			}
			if !mine {
				continue
			}
			downs := w.downs(g)
			_, late := cl.(*ssa.Defer)
			full := func(p ssa.Instruction) bool {
				m, s := w.groupOp(p)
				return m == "Wait" && downs[s]
			}
			// a deferred wait runs before a close that was deferred earlier
			if late {
				dw := false
				for _, bb := range f.Blocks {
					for _, p := range bb.Instrs {
						if _, d := p.(*ssa.Defer); d && full(p) && before2(cl, p) {
							dw = true
						}
					}
				}
				if dw {
					continue
				}
			}
			if walk(g, false, func(p ssa.Instruction) (bool, bool) {
				if _, d := p.(*ssa.Defer); !d && full(p) {
					return true, false
				}
				if late {
					_, ret := p.(*ssa.Return)
					return ret, ret
				}
				return p == ssa.Instruction(cl), p == ssa.Instruction(cl)
			}) != nil {
				return false
			}
		}
	}
	return true
}
