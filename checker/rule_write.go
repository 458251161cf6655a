package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const apiUse = "apiserver/internal/usecase/"

func init() {
	register("C17", "Every function of the API server that writes to other servers and reports an error is explored on every path, with the goroutines it waits for run in line: where it may report success, the branch facts must show that none of its writes failed.", checkC17)
}

// writes recognises what changes data on other servers.
type writes struct {
	c  *Ctx
	fn map[*ssa.Function]bool // functions that write and report errors
	in map[*ssa.Function]bool // functions (literals, too) that write
}

// leaf: a call that writes, seen from its name and types.
func (w *writes) leaf(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	for _, p := range []string{apiUse + "webapi.", apiUse + "grpcapi."} {
		if strings.HasPrefix(n, p) {
			m := n[len(p):]
			if m == "DeleteTmpObject" {
				return false // expires on its own
			}
			for _, v := range []string{"Post", "Put", "Patch", "Save", "Update", "Remove", "Del"} {
				if strings.HasPrefix(m, v) {
					return true
				}
			}
		}
	}
	if cc.IsInvoke() {
		return w.streamOp(cc.Method) != ""
	}
	if strings.HasPrefix(n, "io.Copy") && len(cc.Args) > 0 {
		return w.commits(cc.Args[0])
	}
	if cc.StaticCallee() == nil && typeNameOf(cc.Value.Type()) == apiSvc+"LocatesUpdater" {
		return true
	}
	return false
}

// streamOp: Write and Commit of the stream interfaces.
func (w *writes) streamOp(m *types.Func) string {
	switch m.Name() {
	case "Write", "Commit", "Flush":
	default:
		return ""
	}
	sig := m.Type().(*types.Signature)
	if n := sig.Results().Len(); n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return ""
	}
	return m.Name()
}

// commits: the value given as an interface can be committed.
func (w *writes) commits(v ssa.Value) bool {
	for {
		switch m := v.(type) {
		case *ssa.MakeInterface:
			v = m.X
			continue
		case *ssa.ChangeInterface:
			v = m.X
			continue
		}
		break
	}
	ms := w.c.P.SSA.MethodSets.MethodSet(v.Type())
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Commit" {
			return true
		}
	}
	return false
}

// op: a call that writes, directly or through a function that is judged itself.
func (w *writes) op(cc *ssa.CallCommon) bool {
	if w.leaf(cc) {
		return true
	}
	if cc.IsInvoke() {
		for _, f := range w.c.E.Implementations(cc.Value.Type(), cc.Method) {
			if w.fn[f] {
				return true
			}
		}
		return false
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if w.fn[f] {
		return true
	}
	if b := boundTarget(f); b != nil {
		g := w.c.E.fnOf(b)
		return g != nil && w.fn[g]
	}
	return false
}

func (c *Ctx) newWrites() *writes {
	w := &writes{c: c, fn: map[*ssa.Function]bool{}, in: map[*ssa.Function]bool{}}
	scope := func(fn *ssa.Function) bool {
		p := pkgPathOf(fn)
		return strings.HasPrefix(p, apiUse) && p != apiUse+"webapi" && p != apiUse+"grpcapi" && !isMockOrTest(p)
	}
	has := w.in
	for changed := true; changed; {
		changed = false
		for _, fn := range c.P.Fns {
			if has[fn] || !scope(fn) || isGenerated(c.P, fn) {
				continue
			}
			hit := false
			c.calls(fn, func(ci ssa.CallInstruction, n string) {
				cc := ci.Common()
				hit = hit || w.op(cc)
				if f := cc.StaticCallee(); f != nil && has[f] {
					hit = true
				}
			})
			for _, a := range fn.AnonFuncs {
				hit = hit || has[a]
			}
			if hit {
				has[fn] = true
				changed = true
				if fn.Parent() == nil && errorOf(fn) >= 0 && fn.Synthetic == "" {
					w.fn[fn] = true
				}
			}
		}
	}
	return w
}

func checkC17(c *Ctx) {
	c.Rule("reported", "a function that writes to other servers reports success only if none of its writes failed")
	c.Rule("joined", "writing in the background is waited for before success is reported, unless the configuration asks for asynchronous work")
	c.Rule("counted", "a Write that reports success says that all bytes were written")
	c.Rule("flushed", "what is buffered was written without error before the streams behind it are committed")
	c.Rule("committed", "Commit(true) reports success only if the temporary object was made permanent, or the stream had ended before; no stream is closed before it is committed")
	c.Rule("group", "waiting for a group gives no error only after everything is done and no error was delivered; a panic is delivered before the group counts down")
	w := c.newWrites()
	for _, fn := range c.sorted(w.fn) {
		w.judge(fn)
	}
	for _, fn := range c.P.Fns {
		switch methodName(fn) {
		case "common/util.doneGroup.WaitUntilError":
			if fn.Parent() == nil {
				c.groupWait(fn)
			}
		case "common/util.doneGroup.Done", "common/util.limitDoneGroup.Done":
			if fn.Parent() == nil {
				c.groupDone(fn)
			}
		}
	}
	c.Min("reported", 15)
	c.Min("counted", 3)
	c.Min("flushed", 2)
	c.Min("committed", 3)
	c.Min("group", 2)
}

// groupWait: no error only after everything was done, and with a look at what was delivered after that.
func (c *Ctx) groupWait(fn *ssa.Function) {
	key := methodKey(fn)
	chans := func(in ssa.Instruction) (done, errs bool) {
		look := func(v ssa.Value) {
			if call, ok := v.(*ssa.Call); ok {
				done = done || dgMethod(calleeName(&call.Call)) == "WaitDone"
				errs = errs || dgMethod(calleeName(&call.Call)) == "WaitError"
			}
			if ct, ok := v.Type().Underlying().(*types.Chan); ok && isErrorType(ct.Elem()) {
				errs = true
			}
		}
		switch v := in.(type) {
		case *ssa.Select:
			for _, s := range v.States {
				look(s.Chan)
			}
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				look(v.X)
			}
		}
		return
	}
	r := &Rule{}
	r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		done, errs := chans(in)
		if errs && st.Has("done") {
			st.Emit(Event{Kind: "looked"})
		}
		if done {
			st.Emit(Event{Kind: "done"})
		}
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch dgMethod(ci.Name) {
		case "":
			return ActDefault
		case "Wait":
			st.Emit(Event{Kind: "done"})
		}
		return ActOpaque
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if x.nilness(st, res[0]) == Yes {
			c.Check(st.Has("looked"), "group", key, at.Pos(), "%s gives no error without having looked for one after everything was done", key)
		}
	}
	c.Run(fn, r)
}

// groupDone: the count goes down only after a panic was looked for, and delivered.
func (c *Ctx) groupDone(fn *ssa.Function) {
	key := methodKey(fn)
	isRecover := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "recover"
	}
	r := &Rule{}
	r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if isRecover(in) {
			st.Emit(Event{Kind: "recover"})
		}
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch dgMethod(ci.Name) {
		case "":
			if ci.Fn != nil && pkgPathOf(ci.Fn) == "common/graceful" {
				return ActOpaque
			}
			return ActDefault
		case "Error", "Errors":
			st.Emit(Event{Kind: "delivered"})
		case "Done":
			caught := false
			for f, v := range st.facts {
				if !v && f.k == KBin && f.op == "==" && f.a[0].site != nil && isRecover(f.a[0].site) {
					caught = true
				}
			}
			c.Check(st.Has("recover") && (!caught || st.Has("delivered")), "group", key, ci.Site.Pos(), "%s counts down before a panic of the goroutine was delivered", key)
		}
		return ActOpaque
	}
	c.Run(fn, r)
}

// buffers: the receiver keeps written bytes.
func buffers(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	var deep func(t types.Type, d int) bool
	deep = func(t types.Type, d int) bool {
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok || d > 3 {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Embedded() && deep(f.Type(), d+1) {
				return true
			}
			if sl, ok := f.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				return true
			}
		}
		return false
	}
	return deep(recv.Type(), 0)
}

// recognised: the path knows the error to be one of the declared ones.
func recognised(st *State, err *Term) bool {
	for f, v := range st.facts {
		if !v || len(f.a) != 2 || f.k != KPure && f.k != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.a[i].strip() == err.strip() && isSentinel(f.a[1-i].strip()) && (f.op == "errors.Is" || f.op == "==") {
				return true
			}
		}
	}
	return false
}

// kept: the error is an element of a slice, and so is what is returned made from the slice, or every element was seen to be nil.
func (w *writes) kept(x *Exec, st *State, err, ret *Term) bool {
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "kept" || ev.Val != err.strip() {
			continue
		}
		if ret.k == KRes && ret.a[0].call != nil && ret.a[0].call.Name == "errors.Join" && ret.a[0].call.Args[0].strip() == ev.Args[0] {
			return true
		}
		for j := range st.trace {
			if st.trace[j].Kind == "none" && st.trace[j].Val == ev.Args[0] {
				return true
			}
		}
	}
	return false
}

// elements learns from branch facts about kept errors.
func (w *writes) elements(x *Exec, st *State) {
	for i := 0; i < len(st.trace); i++ {
		if st.trace[i].Kind != "kept" {
			continue
		}
		s := st.trace[i].Args[0]
		checked, over := false, false
		for f, v := range st.facts {
			if f.k != KBin {
				continue
			}
			switch {
			case f.op == "==" && v && f.a[1].k == KConst && f.a[0].k == KRes && f.a[0].a[0].call != nil && f.a[0].a[0].call.Name == "errors.Join" && f.a[0].a[0].call.Args[0].strip() == s:
				st.Emit(Event{Kind: "none", Val: s})
			case f.op == "==" && v && isNil(f.a[1]) && f.a[0].strip() != st.trace[i].Val && isElem(f.a[0].strip(), s):
				checked = true
			case f.op == "<" && !v && isLen(f.a[1]) && f.a[1].a[0].strip() == s:
				over = true
				checked = checked || len(f.a[0].syms) == 0 // it was said to be empty, but an element was stored
			}
		}
		if checked {
			st.Emit(Event{Kind: "checked", Val: s})
		}
		if over {
			for j := range st.trace {
				if st.trace[j].Kind == "checked" && st.trace[j].Val == s {
					st.Emit(Event{Kind: "none", Val: s})
					break
				}
			}
		}
	}
}

func isNil(t *Term) bool { return t.k == KConst && t.op == "nil" }

// isElem: the value was read out of the slice.
func isElem(t, s *Term) bool {
	return t.k == KLoad && t.a[0].k == KIAddr && t.a[0].a[0].strip() == s
}

// later: the configuration asks for asynchronous work, and the failure is delivered to a group.
func (w *writes) later(x *Exec, st *State, i int) bool {
	if !st.Has("async") {
		return false
	}
	for j := range st.trace {
		if ev := &st.trace[j]; ev.Kind == "dg-error" && (ev.Val.strip() == st.trace[i].Val.strip() || j > i && x.nilness(st, ev.Val) == No) {
			return true
		}
	}
	return false
}

func (w *writes) judge(fn *ssa.Function) {
	c := w.c
	key := methodKey(fn)
	ei := errorOf(fn)
	r := &Rule{Wide: 4, LoopEvents: true}
	commit := fn.Name() == "Commit" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 1
	ends := false // makes temporary objects permanent itself
	c.calls(fn, func(_ ssa.CallInstruction, n string) { ends = ends || strings.HasSuffix(n, ".PutTmpObject") })
	settle := func(x *Exec, st *State) {
		for f, v := range st.facts {
			if v && (f.k == KField && strings.HasSuffix(f.op, "Async") || f.k == KLoad && f.a[0].k == KFAddr && strings.HasSuffix(f.a[0].op, "Async")) {
				st.Emit(Event{Kind: "async"})
			}
		}
		for f, v := range st.facts {
			f.walk(func(t *Term) {
				if t.call != nil && strings.HasPrefix(t.call.Name, "sync/atomic.") && (t != f || v != strings.Contains(t.call.Name, "CompareAndSwap")) {
					st.Emit(Event{Kind: "ended"})
				}
			})
		}
		for i := 0; i < len(st.trace); i++ {
			if ev := st.trace[i]; ev.Kind == "write" && x.nilness(st, ev.Val) == Yes {
				if len(ev.Call.Args) > 0 && rootParam(ev.Call.Args[0]) == paramTerm(x, 0) && !strings.HasSuffix(ev.Call.Name, ".Commit") {
					st.Emit(Event{Kind: "flushed"})
				}
				st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
				i--
			}
		}
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if w.op(ci.Common) || ci.Fn != nil && w.fn[ci.Fn] {
			if strings.HasSuffix(ci.Name, ".Commit") {
				if x.Eval(st, ci.Args[len(ci.Args)-1]) == No {
					return ActPure // discards
				}
				closed := false
				for i := range st.trace {
					closed = closed || st.trace[i].Kind == "closed" && st.trace[i].Val == ci.Args[0].strip()
				}
				c.Check(!closed, "committed", key, ci.Site.Pos(), "%s commits a stream after closing it", key)
				if commit && buffers(fn) {
					c.Check(st.Has("flushed"), "flushed", key, ci.Site.Pos(), "%s commits without having written what is buffered", key)
				}
			}
			if strings.HasSuffix(ci.Name, ".PutTmpObject") {
				if commit {
					c.Check(x.Eval(st, paramTerm(x, 1)) == Yes, "committed", key, ci.Site.Pos(), "%s makes a temporary object permanent that is to be discarded", key)
				}
				st.Emit(Event{Kind: "permanent"})
			}
			st.Emit(Event{Kind: "write", Call: ci, Val: x.E.ErrRes(ci)})
			return ActPure
		}
		if strings.HasSuffix(ci.Name, ".Close") && ci.Common.IsInvoke() {
			st.Emit(Event{Kind: "closed", Val: ci.Args[0].strip()})
			return ActPure
		}
		if strings.HasPrefix(ci.Name, "common/collection/set.") {
			switch {
			case strings.HasSuffix(ci.Name, ".Add"):
				st.Emit(Event{Kind: "collected", Val: ci.Args[0].strip()})
				return ActPure
			case strings.HasSuffix(ci.Name, ".Size"):
				return ActPure
			}
		}
		if ci.Fn != nil && pkgPathOf(ci.Fn) != pkgPathOf(fn) && ci.Fn.Parent() == nil {
			return ActOpaque
		}
		return ActDefault
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if strings.HasPrefix(ci.Name, "common/collection/set.") && strings.HasSuffix(ci.Name, ".Size") {
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "collected" && ci.Args[0].contains(ev.Val) {
					x.Assume(st, x.E.T.bin("<", x.E.T.ConstVal(constant.MakeInt64(0), types.Typ[types.Int]), x.E.Res(ci, 0), types.Typ[types.Bool]), true)
				}
			}
		}
		return nil
	}
	r.OnStore = func(x *Exec, st *State, addr, val *Term, _ ssa.Instruction) {
		if addr.k == KIAddr && isErrSlice(addr.a[0].typ) {
			st.Emit(Event{Kind: "kept", Val: val.strip(), Args: []*Term{addr.a[0].strip()}})
		}
	}
	r.OnBranch = func(x *Exec, st *State) {
		settle(x, st)
		w.elements(x, st)
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		ret := res[ei]
		c.Ok("reported", key)
		if x.nilness(st, ret) == No {
			return
		}
		settle(x, st)
		if st.Has("background") || st.Has("todo") && st.Has("go") {
			c.Check(st.Has("async"), "joined", key, at.Pos(), "%s can report success before what it writes in the background is done", key)
		}
		if fn.Name() == "Write" && len(res) == 2 {
			c.Check(w.counts(x, st, res[0]), "counted", key, at.Pos(), "%s can report success for fewer bytes than it was given", key)
		}
		if commit && ends && x.Eval(st, paramTerm(x, 1)) != No {
			c.Check(st.Has("permanent") || st.Has("ended"), "committed", key, at.Pos(), "%s can report success without making the temporary object permanent", key)
		}
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind != "write" || !x.swallows(st, ev.Val, ret) || recognised(st, ev.Val) || w.kept(x, st, ev.Val, ret) || w.later(x, st, i) {
				continue
			}
			what := calleeName(ev.Call.Common)
			c.Bad("reported", key+" "+what[strings.LastIndex(what, ".")+1:], ev.Call.Site.Pos(), "%s can report success although %s failed", key, what)
		}
	}
	c.dgHooks(r, nil)
	inline := r.OnGo
	r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool {
		if inline(x, st, ci) {
			return true
		}
		if ci.Fn != nil && w.in[ci.Fn] && w.adds(ci.Fn) {
			st.Emit(Event{Kind: "background"})
		}
		return false
	}
	c.Run(fn, r)
}

// adds: the function does more than remove.
func (w *writes) adds(fn *ssa.Function) bool {
	hit := false
	w.c.calls(fn, func(ci ssa.CallInstruction, n string) {
		n = n[strings.LastIndex(n, ".")+1:]
		if w.op(ci.Common()) && !strings.HasPrefix(n, "Remove") && !strings.HasPrefix(n, "Del") {
			hit = true
		}
	})
	return hit
}

// counts: the number is that of the bytes given, or what another Write of them said.
func (w *writes) counts(x *Exec, st *State, n *Term) bool {
	n = n.strip()
	p := paramTerm(x, 1)
	if n.k == KPure && n.op == "len" && n.a[0].strip() == p {
		return true
	}
	if n.k == KRes && n.a[0].call != nil {
		for _, a := range n.a[0].call.Args {
			if a.strip() == p {
				return true
			}
		}
	}
	return false
}

// rootParam: what a value is reached from by fields.
func rootParam(t *Term) *Term {
	for {
		t = t.strip()
		switch t.k {
		case KLoad, KField, KFAddr:
			t = t.a[0]
		default:
			return t
		}
	}
}
