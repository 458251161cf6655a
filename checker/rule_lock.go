package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Every function of the five modules is summarised: which places (named by the global, parameter, captured variable or allocation they are reached from, and the fields on the way) it reads and writes and which locks are held then, and which locks it takes and leaves, per path, with deferred calls, conditional locking and functions passed as arguments. The summaries are composed along a call graph (variable type analysis) up to every handler, remote call, interceptor and goroutine; there, all accesses to one place must have a lock in common.", locking)
}

func fnOfKey(r string) string {
	if i := strings.LastIndexByte(r, '@'); i > 2 {
		return r[2:i]
	}
	return ""
}

// concurrentRoots are the functions that run at the same time as others and as themselves: handlers of requests,
// and what libraries call from goroutines of theirs.
func (c *Ctx) concurrentRoots() map[*ssa.Function]string {
	roots := map[*ssa.Function]string{}
	for _, rt := range c.GinRoutes("") {
		for _, h := range append(append([]*Term(nil), rt.Mid...), rt.Own...) {
			if fn := c.E.baseFn(h.strip()); fn != nil {
				roots[c.P.base(fn)] = rt.Key()
			}
		}
	}
	for _, m := range c.RPCs("") {
		roots[c.P.base(m.Fn)] = m.Full()
		for _, t := range m.Inter {
			if fn := c.E.baseFn(t.strip()); fn != nil {
				roots[c.P.base(fn)] = "interceptor"
			}
		}
	}
	return roots
}

// locksOn are the names of the locks that are held for this access: a lock kept in the object that
// is accessed counts only if it is the one of that very object.
func locksOn(a *access) map[string]lockMode {
	out := map[string]lockMode{}
	for k, m := range a.held {
		cs := compsOf(k)
		ok := true
		if len(cs) > 0 {
			own := strings.SplitN(cs[len(cs)-1], "#", 2)[0]
			prefix := k[:strings.LastIndexByte(k, '|')]
			rest := a.key
			for {
				i := strings.LastIndexByte(rest, '|')
				if i < 0 {
					break
				}
				if strings.HasPrefix(rest[i+1:], own+"#") {
					ok = rest[:i] == prefix
					break
				}
				rest = rest[:i]
			}
		}
		if ok && out[tail(k)] < m {
			out[tail(k)] = m
		}
	}
	return out
}

type sharedPlace struct {
	id  string
	acc []*access
	src map[string]bool // request, or the goroutine it is accessed from
}

func locking(c *Ctx) {
	c.Rule("guarded", "every place that outlives a request and is written while servers run - found by following receivers, globals, results, captured variables and parameters through every call, with the locks held on the way - is accessed under one lock in common, held exclusively by writers, if it is a map, a list or a slice, or if any access is under a lock")
	c.Rule("captured", "a variable that a goroutine and its creator (or several goroutines) use, one of them writing, is used under a common lock, before the goroutine starts, or after it was waited for")
	c.Rule("released", "no path through a function leaves a lock held behind or unlocks one that is not held, counting what its callees lock and unlock")
	c.Rule("relock", "no lock is acquired where it may be held already by the same goroutine")
	c.Rule("order", "locks are nested in one order only")
	l := newLocks(c)
	l.run()
	for f := range l.over {
		c.undecided = append(c.undecided, "too many lock states in "+f.String())
	}
	roots := c.concurrentRoots()
	c.Count("functions", len(l.fns))
	c.Count("concurrent roots", len(roots))

	places := map[string]*sharedPlace{}
	note := func(a *access, src string) {
		id := tail(a.key)
		p := places[id]
		if p == nil {
			p = &sharedPlace{id: id, src: map[string]bool{}}
			places[id] = p
		}
		p.acc = append(p.acc, a)
		p.src[src] = true
	}
	for _, fn := range l.fns {
		n := roots[fn]
		if n == "" {
			continue
		}
		for _, k := range sortedKeys(l.sums[fn].accesses) {
			a := l.sums[fn].accesses[k]
			r := rootOf(a.key)
			switch r[0] {
			case 'G':
			case 'P':
				if !(r == "P:"+fnID(fn)+"@0" && fn.Signature.Recv() != nil || fn.Parent() != nil && fnOfKey(r) == fnID(fn.Parent())) {
					continue
				}
			default:
				if !(fn.Parent() != nil && fnOfKey(r) == fnID(fn.Parent())) {
					continue
				}
			}
			note(a, "requests")
			note(a, n)
		}
	}
	mains := 0
	for _, fn := range l.fns {
		if fn.Name() != "main" || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		mains++
		for _, k := range sortedKeys(l.sums[fn].accesses) {
			if a := l.sums[fn].accesses[k]; a.async && rootOf(a.key)[0] != 'P' {
				note(a, "goroutine "+topFn(a.at.Parent()).String())
			}
		}
	}
	for _, id := range sortedKeys(places) {
		p := places[id]
		written, locked := false, false
		for _, a := range p.acc {
			written = written || a.write
			locked = locked || len(a.held) > 0 && guardKind(a)
		}
		if strings.HasPrefix(id, "N:") {
			continue
		}
		isMap := strings.HasSuffix(id, "{}")
		isSlice := l.sliceLike[id] || strings.HasSuffix(id, "[]") && !l.arrays[id]
		if !written || !p.src["requests"] && len(p.src) < 2 {
			continue
		}
		if strings.Contains(id, "/config.") {
			continue
		}
		if !isMap && !isSlice && !locked {
			continue
		}
		var common map[string]lockMode
		for _, a := range p.acc {
			h := locksOn(a)
			for k, m := range h {
				if a.write && m != writeLock {
					delete(h, k)
				}
			}
			if common == nil {
				common = h
				continue
			}
			for k := range common {
				if h[k] == 0 {
					delete(common, k)
				}
			}
		}
		if len(common) > 0 {
			c.Ok("guarded", id)
			continue
		}
		// the lock most accesses are under tells which of them lack it
		votes := map[string]int{}
		for _, a := range p.acc {
			for k, m := range locksOn(a) {
				if !a.write || m == writeLock {
					votes[k]++
				}
			}
		}
		best := ""
		for _, k := range sortedKeys(votes) {
			if best == "" || votes[k] > votes[best] {
				best = k
			}
		}
		for _, a := range p.acc {
			h := locksOn(a)
			if best != "" && (h[best] == writeLock || h[best] == readLock && !a.write) {
				continue
			}
			what := "read"
			if a.write {
				what = "changed"
			}
			how := "with no lock"
			if best != "" {
				how = "without " + best + " (held elsewhere)"
				if h[best] == readLock {
					how = "with " + best + " held for reading only"
				}
			}
			c.Bad("guarded", id+" in "+a.at.Parent().String(), l.pos(a.at), "%s is %s here %s while other requests or goroutines may change it: %s", id, what, how, l.path(a))
		}
	}
	l.captured()
	l.discipline(roots)
	c.Min("guarded", 8)
	c.Min("captured", 30)
	c.Min("released", 120)
	c.Min("relock", 20)
}

// guardKind: some lock held is one that could guard this place, not just one of a caller elsewhere.
func guardKind(a *access) bool {
	ak := a.key
	for k := range a.held {
		cs := compsOf(k)
		if len(cs) == 0 {
			// a package lock guards variables of its package
			if strings.HasPrefix(ak, "G:") && pkgOfID(ak[2:]) == pkgOfID(k[2:]) {
				return true
			}
			continue
		}
		own := strings.SplitN(cs[len(cs)-1], "#", 2)[0]
		ac := compsOf(ak)
		for i := len(ac) - 1; i >= 0; i-- {
			if ac[i] == "[]" || ac[i] == "{}" {
				continue
			}
			if strings.HasPrefix(ac[i], own+"#") {
				return true
			}
			break
		}
	}
	return false
}

func pkgOfID(s string) string {
	s = strings.SplitN(s, "|", 2)[0]
	if i := strings.LastIndexByte(s, '.'); i > 0 {
		return s[:i]
	}
	return s
}

func (l *locks) path(a *access) string {
	if a.held == nil || len(a.held) == 0 {
		return "reached as " + a.key
	}
	return "reached as " + a.key + " holding " + a.held.String()
}

func (l *locks) pos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, o := range in.Block().Instrs {
		if o.Pos().IsValid() {
			return o.Pos()
		}
	}
	return in.Parent().Pos()
}

// ---- variables shared with goroutines

// doneKeys are the groups a goroutine counts down and the channels it sends to or closes.
func (l *locks) signals(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, depth int)
	visit = func(f *ssa.Function, depth int) {
		if seen[f] || depth > 3 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					out["ch "+l.norm(x.Chan)] = true
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						out["ch "+l.norm(cc.Args[0])] = true
					}
					if m := dgMethod(calleeName(cc)); m == "Done" {
						out["wg "+l.norm(recvOf(cc))] = true
					}
					if _, isGo := in.(*ssa.Go); !isGo {
						for _, t := range l.targets(x) {
							if t.fn.Parent() == f || t.fn.Parent() == f.Parent() {
								visit(t.fn, depth+1)
							}
						}
					}
				}
			}
		}
	}
	visit(fn, 0)
	return out
}

func (l *locks) norm(v ssa.Value) string { return strings.TrimPrefix(l.key(v), "=") }

func recvOf(cc *ssa.CallCommon) ssa.Value {
	if cc.IsInvoke() {
		return cc.Value
	}
	if len(cc.Args) > 0 {
		return cc.Args[0]
	}
	return nil
}

// tells: receiving from the channel means that what signals has ended.
func (l *locks) tells(ch ssa.Value, sig map[string]bool) bool {
	k := l.norm(ch)
	if sig["ch "+k] {
		return true
	}
	if call, ok := ch.(*ssa.Call); ok && dgMethod(calleeName(call.Common())) == "WaitDone" && sig["wg "+l.norm(recvOf(call.Common()))] {
		return true
	}
	for _, wg := range l.relays()[k] {
		if sig["wg "+wg] {
			return true
		}
	}
	return false
}

// relays are the channels that are closed, or sent to, only after a group was waited for.
func (l *locks) relays() map[string][]string {
	if l.relay != nil {
		return l.relay
	}
	l.relay = map[string][]string{}
	for _, fn := range l.fns {
		var waits []*ssa.Call
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && dgMethod(calleeName(call.Common())) == "Wait" {
					waits = append(waits, call)
				}
			}
		}
		if len(waits) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ch ssa.Value
				switch x := in.(type) {
				case *ssa.Send:
					ch = x.Chan
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						ch = x.Call.Args[0]
					}
				case *ssa.Defer:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						ch = x.Call.Args[0]
					}
				}
				if ch == nil || l.norm(ch) == noKey {
					continue
				}
				for _, w := range waits {
					_, late := in.(*ssa.Defer)
					if late && w.Block() == fn.Blocks[0] || before(w, in) {
						l.relay[l.norm(ch)] = append(l.relay[l.norm(ch)], l.norm(recvOf(w.Common())))
					}
				}
			}
		}
	}
	return l.relay
}

// before: every path to b goes through a.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// joinsOn: after the instruction (on the edge, for the wait that may end early) what signals has ended.
// It returns whether it is a join and, for conditional ones, the error value that must be nil.
func (l *locks) joinsOn(in ssa.Instruction, sig map[string]bool) (bool, ssa.Value) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW && l.tells(x.X, sig) {
			return true, nil
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.RecvOnly && l.tells(s.Chan, sig) {
				return true, nil
			}
		}
	case *ssa.Call:
		cc := x.Common()
		switch dgMethod(calleeName(cc)) {
		case "Wait":
			if sig["wg "+l.norm(recvOf(cc))] {
				return true, nil
			}
		case "WaitUntilError":
			if sig["wg "+l.norm(recvOf(cc))] {
				return true, x
			}
		case "":
			for _, t := range l.targets(x) {
				if t.async {
					continue
				}
				for _, b := range t.fn.Blocks {
					for _, i2 := range b.Instrs {
						c2, ok := i2.(*ssa.Call)
						if !ok {
							continue
						}
						if m := dgMethod(calleeName(c2.Common())); m == "Wait" || m == "WaitUntilError" {
							k := l.translate(l.norm(recvOf(c2.Common())), t.fn, x)
							if sig["wg "+k] {
								if m == "WaitUntilError" {
									return true, x
								}
								return true, nil
							}
						}
					}
				}
			}
		}
	}
	return false, nil
}

// reach is the set of instructions that may run after from without a join in between.
func (l *locks) unjoined(from ssa.Instruction, sig map[string]bool) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	type pt struct {
		b *ssa.BasicBlock
		i int
		e ssa.Value // waited with this error result, not yet known nil
	}
	seen := map[pt]bool{}
	var work []pt
	push := func(p pt) {
		if !seen[p] {
			seen[p] = true
			work = append(work, p)
		}
	}
	idx := 0
	for i, in := range from.Block().Instrs {
		if in == from {
			idx = i + 1
		}
	}
	push(pt{from.Block(), idx, nil})
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		e := p.e
		stop := false
		for i := p.i; i < len(p.b.Instrs); i++ {
			in := p.b.Instrs[i]
			j, cond := l.joinsOn(in, sig)
			if j && cond == nil {
				out[in] = true
				stop = true
				break
			}
			if j {
				e = cond
				out[in] = true
				continue
			}
			if e == nil {
				out[in] = true
			} else if !l.onlyKept(in, e) {
				out[in] = true
			}
		}
		if stop {
			continue
		}
		last := p.b.Instrs[len(p.b.Instrs)-1]
		for i, s := range p.b.Succs {
			if iff, ok := last.(*ssa.If); ok && e != nil {
				if nilOn, ok := l.nilTest(iff.Cond, e); ok && nilOn == (i == 0) {
					continue // waited for: everything has ended
				}
			}
			push(pt{s, 0, e})
		}
	}
	return out
}

// onlyKept: storing the error of the wait itself is no use of what is waited for.
func (l *locks) onlyKept(in ssa.Instruction, e ssa.Value) bool {
	s, ok := in.(*ssa.Store)
	return ok && s.Val == e
}

// nilTest tells on which branch of the condition the error is nil.
func (l *locks) nilTest(cond ssa.Value, e ssa.Value) (bool, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false, false
	}
	is := func(v ssa.Value) bool {
		for i := 0; i < 4; i++ {
			if v == e {
				return true
			}
			switch x := v.(type) {
			case *ssa.Extract:
				v = x.Tuple
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Val == e {
							return true
						}
					}
				}
				return false
			case *ssa.Phi:
				for _, ed := range x.Edges {
					if ed == e {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	isNilC := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
	if is(b.X) && isNilC(b.Y) || is(b.Y) && isNilC(b.X) {
		return b.Op == token.EQL, b.Op == token.EQL || b.Op == token.NEQ
	}
	return false, false
}

// inLoopPast: the instruction can run again without the variable being made anew.
func runsAgain(in ssa.Instruction, alloc ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), in.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if alloc != nil && b == alloc.Block() {
			if b == in.Block() {
				continue // made before it is used again
			}
			continue
		}
		if b == in.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

func (l *locks) captured() {
	c := l.c
	for _, fn := range l.fns {
		if isGenerated(c.P, fn) {
			continue
		}
		var gos []ssa.Instruction
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					gos = append(gos, in)
				}
			}
		}
		if len(gos) == 0 {
			continue
		}
		sum := l.sums[fn]
		by := map[string][]*access{}
		for _, k := range sortedKeys(sum.accesses) {
			a := sum.accesses[k]
			if strings.Contains(a.key, "|[]") {
				continue // elements are told apart by index
			}
			r := rootOf(a.key)
			if r[0] == 'N' && fnOfKey(r) != "" {
				by[a.key] = append(by[a.key], a)
			}
		}
		for _, key := range sortedKeys(by) {
			acc := by[key]
			hasW, hasAsync := false, false
			for _, a := range acc {
				hasW = hasW || a.write
				if _, ok := a.here.(*ssa.Go); ok {
					hasAsync = true
				}
			}
			if !hasW || !hasAsync {
				continue
			}
			l.capturedPlace(fn, key, acc)
		}
	}
}

func (l *locks) capturedPlace(fn *ssa.Function, key string, acc []*access) {
	c := l.c
	name := key[strings.LastIndexByte(key, '@')+1:]
	if i := strings.IndexByte(name, '.'); i > 0 && !strings.Contains(name, "|") {
		name = name[:i]
	}
	obl := name + " of " + fn.String()
	alloc := l.allocOf(fn, key)
	ok := true
	bad := func(a, b *access, why string) {
		ok = false
		c.Bad("captured", obl, l.pos(a.at), "%s is used by a goroutine here and at %s, one of them changing it, %s", name, c.Pos(l.pos(b.at)), why)
	}
	outer := map[string]bool{}
	for f := fn; f != nil; f = f.Parent() {
		outer[fnID(f)] = true
	}
	sameLock := func(a, b *access) bool {
		h := locksOn(b)
		for k, m := range locksOn(a) {
			if r := rootOf(k); strings.HasPrefix(r, "N:") && !outer[ownerOf(r)] {
				continue // each goroutine has its own
			} else if la := l.allocOf(fn, r); la != nil && runsAgain(la, alloc) {
				continue // each turn of the loop has its own
			}
			if h[k] != 0 && (m == writeLock || !a.write) && (h[k] == writeLock || !b.write) {
				return true
			}
		}
		return false
	}
	for _, a := range acc {
		g, isGo := a.here.(*ssa.Go)
		if !isGo {
			continue
		}
		sig := map[string]bool{}
		for _, t := range l.targets(g) {
			for k := range l.signals(t.fn) {
				sig[k] = true
				for _, v := range []string{"ch ", "wg "} {
					if strings.HasPrefix(k, v) {
						sig[v+l.translate(k[3:], t.fn, g)] = true
					}
				}
			}
		}
		delete(sig, "ch "+noKey)
		delete(sig, "wg "+noKey)
		delete(sig, "ch ")
		delete(sig, "wg ")
		after := l.unjoined(g, sig)
		if a.write && after[g] && runsAgain(g, alloc) && !sameLock(a, a) {
			bad(a, a, "and several of these goroutines may run at the same time")
			return
		}
		for _, b := range acc {
			if b == a || !a.write && !b.write || sameLock(a, b) {
				continue
			}
			if b.here == a.here {
				if after[g] && runsAgain(g, alloc) {
					bad(a, b, "and several of these goroutines may run at the same time")
					return
				}
				continue
			}
			at := b.here
			if d, ok := at.(*ssa.Defer); ok {
				// runs when the function ends
				hit := false
				for in := range after {
					if _, ok := in.(*ssa.RunDefers); ok {
						hit = true
					}
				}
				_ = d
				if hit {
					bad(a, b, "with neither a common lock nor waiting in between")
					return
				}
				continue
			}
			if after[at] && (alloc == nil || at != alloc) {
				if alloc != nil && !l.reachesPast(g, at, alloc) {
					continue
				}
				bad(a, b, "with neither a common lock nor waiting in between")
				return
			}
		}
	}
	if ok {
		c.Ok("captured", obl)
	}
}

// reachesPast: from can be followed by to without the variable being made anew in between.
func (l *locks) reachesPast(from, to, alloc ssa.Instruction) bool {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	idx := 0
	for i, in := range from.Block().Instrs {
		if in == from {
			idx = i + 1
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{from.Block(), idx}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := p.i; i < len(p.b.Instrs); i++ {
			if p.b.Instrs[i] == to {
				return true
			}
			if p.b.Instrs[i] == alloc {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		for _, s := range p.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pt{s, 0})
			}
		}
	}
	return false
}

// allocOf finds the instruction that makes the variable.
func (l *locks) allocOf(fn *ssa.Function, key string) ssa.Instruction {
	r := rootOf(key)
	if fnOfKey(r) != fnID(fn) {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				switch in.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
					if fmt.Sprintf("N:%s@%s", fnID(fn), l.allocName(v)) == r {
						return in
					}
				}
			}
		}
	}
	return nil
}

// ---- the discipline of lock operations

func (l *locks) discipline(roots map[*ssa.Function]string) {
	c := l.c
	for _, fn := range l.fns {
		sum := l.sums[fn]
		if len(sum.ops) == 0 {
			continue
		}
		own := false
		for _, o := range sum.ops {
			own = own || o.at.Parent() == fn
		}
		sync := false
		for _, s := range l.callers[fn] {
			if _, isGo := s.(*ssa.Go); !isGo {
				sync = true
			}
		}
		top := roots[fn] != "" || !sync
		if own || top {
			good := true
			for _, k := range sortedKeys(sum.leaks) {
				if !top && l.helper(fn, k) {
					continue
				}
				good = false
				c.Bad("released", tail(k)+" in "+fn.String(), l.pos(sum.leaks[k]), "a path through %s ends here with %s still held", fn, tail(k))
			}
			for _, e := range sum.exits {
				for k := range e.released {
					if !top && l.helper(fn, k) {
						continue
					}
					good = false
					c.Bad("released", "unlock of "+tail(k)+" in "+fn.String(), fn.Pos(), "a path through %s unlocks %s which is not held there", fn, tail(k))
				}
			}
			if good {
				c.Ok("released", fn.String())
			}
		}
		for _, k := range sortedKeys(sum.ops) {
			o := sum.ops[k]
			if o.at.Parent() == fn {
				c.Ok("relock", tail(o.key)+" in "+fn.String())
			}
		}
	}
	// the same lock again
	for _, fn := range l.fns {
		for _, k := range sortedKeys(l.sums[fn].ops) {
			o := l.sums[fn].ops[k]
			if !o.try && o.held[o.key] != 0 {
				c.Bad("relock", tail(o.key)+" in "+o.at.Parent().String(), l.pos(o.at), "%s is locked here while %s may hold it already: it waits for itself", tail(o.key), fn)
			}
		}
	}
	// order
	edges := map[string]map[string]*lockOp{}
	for _, fn := range l.fns {
		for _, k := range sortedKeys(l.sums[fn].ops) {
			o := l.sums[fn].ops[k]
			if o.try {
				continue
			}
			for h := range o.held {
				a, b := tail(h), tail(o.key)
				if a == b || strings.HasPrefix(a, "P:") || strings.HasPrefix(b, "P:") {
					continue
				}
				if edges[a] == nil {
					edges[a] = map[string]*lockOp{}
				}
				if edges[a][b] == nil {
					edges[a][b] = o
				}
			}
		}
	}
	n := 0
	for _, a := range sortedKeys(edges) {
		for _, b := range sortedKeys(edges[a]) {
			n++
			seen := map[string]bool{}
			var find func(x string) bool
			find = func(x string) bool {
				if x == a {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range edges[x] {
					if find(y) {
						return true
					}
				}
				return false
			}
			o := edges[a][b]
			c.Check(!find(b), "order", a+" before "+b, l.pos(o.at), "%s is locked here while %s is held, elsewhere the other way round: two requests may wait for each other", b, a)
		}
	}
	c.Count("nested lock pairs", n)
}

// helper: the function is one whose callers deal with the lock (it locks or unlocks for them).
func (l *locks) helper(fn *ssa.Function, key string) bool {
	// on every path alike
	n := 0
	for _, e := range l.sums[fn].exits {
		if _, ok := e.held[key]; ok || e.released[key] {
			n++
		} else if len(e.rets) == 0 {
			return false
		}
	}
	return n > 0
}
