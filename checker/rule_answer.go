package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Every handler and middleware of the four HTTP servers is explored on every path, with the functions that answer entered: which statuses and bodies are written, in which order, and which calls in it are known to have failed.", checkC26)
}

type answers struct {
	c     *Ctx
	kinds map[string]bool // services whose callers are told the kind of a failure
}

// bodyCall: the call sends a whole body ("answer") or a part of one ("part").
func bodyCall(n string) string {
	if strings.HasPrefix(n, ginCtx) {
		switch n[len(ginCtx):] {
		case "Status", "AbortWithStatus", "AbortWithError":
			return ""
		case "File", "Stream", "FileAttachment", "DataFromReader":
			return "part"
		}
		if statusArg(n) > 0 {
			return "answer"
		}
		return ""
	}
	switch {
	case strings.HasPrefix(n, ginPkg+".ResponseWriter.Write"), n == "net/http.ResponseWriter.Write", strings.HasPrefix(n, "net/http.Serve"):
		return "part"
	case n == "net/http.Error", n == "net/http.Redirect", n == "net/http.NotFound":
		return "answer"
	}
	return ""
}

// isWriter: the value is where the body of the answer is written.
func isWriter(t *Term) bool {
	t = t.strip()
	if t.k == KIface {
		t = t.a[0].strip()
	}
	if t.k == KLoad && t.a[0].k == KFAddr && t.a[0].op == "Writer" {
		return true
	}
	if t.k == KPure && t.op == "io.MultiWriter" {
		for _, a := range t.a {
			if isWriter(a) {
				return true
			}
		}
	}
	if t.typ != nil {
		n := typeNameOf(deref(t.typ))
		return n == "net/http.ResponseWriter" || n == ginPkg+".ResponseWriter"
	}
	return false
}

func checkC26(c *Ctx) {
	c.Rule("told", "a request is not answered as done after something in it is known to have failed")
	c.Rule("once", "a request is answered once: nothing is added to an answer, and a failure is told before the body has begun")
	c.Rule("status", "a body is sent with the status that was chosen")
	c.Rule("stop", "a handler in front that refuses a request stops it")
	c.Rule("mapped", "the failure of a remote call carries the kind of what failed")
	c.Rule("hop", "the status of a failure survives a remote call")
	c.Rule("kind", "a failure that has a status is answered with it, and every other with one that says it failed")
	c.Rule("bound", "what a request asks for is only acted on when it was read without an error")
	m := &answers{c: c}
	mids, own := map[*ssa.Function]string{}, map[*ssa.Function]string{}
	for _, rt := range c.GinRoutes("") {
		chain := append(append([]*Term{}, rt.Mid...), rt.Own...)
		for i, h := range chain {
			if fn := c.E.baseFn(h.strip()); fn != nil && c.P.InRepo(fn) {
				if i+1 < len(chain) {
					mids[c.P.base(fn)] = rt.Key()
				} else {
					own[c.P.base(fn)] = rt.Key()
				}
			}
		}
	}
	all := map[*ssa.Function]bool{}
	for fn := range mids {
		all[fn] = true
	}
	for fn := range own {
		all[fn] = true
	}
	c.Count("handlers", len(own))
	c.Count("handlers in front", len(mids))
	for _, fn := range c.sorted(all) {
		if _, ok := mids[fn]; ok {
			m.handler(fn, true)
		}
		if _, ok := own[fn]; ok {
			m.handler(fn, false)
		}
	}
	m.hop()
	m.kinds = map[string]bool{}
	for _, rpc := range c.RPCs("") {
		if rpc.Fn != nil && c.callsAny(rpc.Fn, "common/response.GRPCError") {
			m.kinds[rpc.Service] = true
		}
	}
	for _, rpc := range c.RPCs("") {
		if rpc.Fn != nil && !rpc.Stream {
			m.call(rpc.Fn, m.kinds[rpc.Service])
		}
	}
	c.Count("remote services that tell the kind of a failure", len(m.kinds))
	c.Min("mapped", 8)
	c.Min("told", 20)
	c.Min("once", 20)
	c.Min("status", 10)
	c.Min("stop", 5)
	c.Min("bound", 10)
}

// entered: parts of the handler itself, and what answers.
func (m *answers) entered(of *ssa.Function, f *ssa.Function) bool {
	p := pkgPathOf(f)
	if p == "common/response" {
		return true
	}
	if p != pkgPathOf(of) {
		return false
	}
	for _, q := range f.Params {
		if isGinCtx(q.Type()) {
			return true
		}
	}
	return f.Parent() != nil || m.c.E.Weight(f) <= 25
}

func (m *answers) handler(fn *ssa.Function, mid bool) {
	c := m.c
	key := stableKey(fn)
	if fn.Parent() != nil {
		key += "$" + fn.Name()
	}
	good := func(n int64) bool { return n >= 200 && n < 400 }
	r := &Rule{
		Relevant:    func(_ *CallInfo, f *ssa.Function) bool { return m.entered(fn, f) },
		NoCallbacks: true,
	}
	said := func(x *Exec, st *State, ci *CallInfo, arg int) (int64, bool) {
		if arg < 0 || arg >= len(ci.Args) {
			return 200, true
		}
		v, ok := x.constOf(st, ci.Args[arg])
		if !ok {
			return 0, false
		}
		return constInt(v)
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		n := ci.Name
		pos := ci.Site.Pos()
		if strings.HasPrefix(n, ginCtx) {
			switch {
			case n == ginCtx+"Next":
				if st.Has("fail") {
					c.Bad("stop", key, pos, "the handlers behind run although the request was refused")
				}
				st.Emit(Event{Kind: "next"})
			case aborts(n):
				st.Emit(Event{Kind: "abort"})
			}
		}
		if m.header(ci) && st.Has("part") && !st.Has("fail") {
			c.Bad("once", key, pos, "a header is set after the body has begun")
		}
		if n == "io.MultiWriter" || n == "net/http.NewResponseController" {
			return ActPure
		}
		if cutsOff(ci) {
			if begun := st.Has("part") || st.Has("answer"); begun {
				st.Emit(Event{Kind: "fail"})
			}
			return ActOpaque
		}
		kind := bodyCall(n)
		if n == "io.Copy" || n == "io.CopyN" || n == "io.CopyBuffer" || n == "io.WriteString" || strings.HasPrefix(n, "fmt.Fprint") {
			if isWriter(ci.Args[0]) {
				kind = "part"
			}
		}
		if _, in := m.inside(ci); kind == "" && !in {
			for _, a := range ci.Args {
				if isWriter(a) {
					kind = "part"
				}
			}
		}
		i := statusArg(n)
		if n == "net/http.Error" || n == "net/http.Redirect" {
			i = len(ci.Args) - 1
		}
		if kind == "" && i < 1 {
			return ActDefault
		}
		code, known := int64(200), true
		if i > 0 {
			code, known = said(x, st, ci, i)
		}
		ok := known && good(code)
		begun, whole := st.Has("part"), st.Has("answer")
		c.Check(!(begun || whole) || kind == "part" && !whole || ok && kind == "", "once", key, pos, "%s answers again: the request was answered before, or its body has begun", n)
		if ok && !begun && !whole {
			c.Check(!st.Has("fail"), "once", key, pos, "%s answers a request that was refused before", n)
		}
		if !ok && !begun && !whole {
			st.Emit(Event{Kind: "fail"})
		}
		if kind == "" {
			st.Drop("status")
			st.Emit(Event{Kind: "status", Val: ci.Args[i].strip()})
		} else {
			if ev := st.Last("status"); ev != nil && i > 0 {
				c.Check(!ok || ev.Val == ci.Args[i].strip(), "status", key, pos, "the status was chosen to be %s, but the body is sent with %s", ev.Val.Pretty(), ci.Args[i].Pretty())
			} else {
				c.Ok("status", key)
			}
			if st.Index(st.Last(kind)) < 0 || !st.Has(kind) {
				st.Emit(Event{Kind: kind})
			}
		}
		return ActOpaque
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if strings.HasSuffix(ci.Name, ".Written") {
			res := x.E.Res(ci, 0)
			var out []*State
			for _, v := range []bool{true, false} {
				if v && !st.Has("part") && !st.Has("answer") || !v && st.Has("answer") {
					continue
				}
				s := st.clone()
				if !x.Assume(s, res, v) {
					continue
				}
				if !v {
					s.Drop("part")
				}
				out = append(out, s)
			}
			return out
		}
		m.did(x, st, ci)
		return nil
	}
	r.OnBranch = m.understood
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		failed := st.Has("fail")
		for i := range st.trace {
			ev := &st.trace[i]
			switch ev.Kind {
			case "bind":
				c.Check(failed || x.nilness(st, ev.Val) == Yes || mid, "bound", key, ev.Pos, "the request is acted on although %s may have failed", ev.Call.Name)
				fallthrough
			case "did":
				if mid {
					continue // the handlers behind answer
				}
				nil_ := x.nilness(st, ev.Val)
				c.Check(failed || nil_ == Yes || nil_ == Unknown && !m.acts(ev.Call) || m.expected(st, ev.Val), "told", key, ev.Pos, "%s failed, but the request is answered as done", ev.Call.Name)
			}
		}
		if mid {
			if st.Has("next") {
				return
			}
			c.Check(!failed || st.Has("abort"), "stop", key, at.Pos(), "a request is refused, but the handlers behind run all the same")
			c.Check(!st.Has("abort") || failed || st.Has("status") || st.Has("answer") || st.Has("part"), "stop", key, at.Pos(), "a request is stopped without an answer")
		}
		if !mid {
			c.Ok("told", key)
		}
	}
	c.Run(fn, r)
}

// call explores what answers a remote call.
func (m *answers) call(fn *ssa.Function, kinds bool) {
	c := m.c
	key := stableKey(fn)
	r := &Rule{NoCallbacks: true}
	r.Relevant = func(_ *CallInfo, f *ssa.Function) bool { return pkgPathOf(f) != "common/response" && m.entered(fn, f) }
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if m.mapsErr(ci) {
			x.Assume(st, x.E.T.bin("==", x.E.Res(ci, 0), x.E.T.Nil(), types.Typ[types.Bool]), false)
			return nil
		}
		m.did(x, st, ci)
		return nil
	}
	r.OnBranch = m.understood
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if len(res) != 2 {
			return
		}
		refused := x.nilness(st, res[1]) != Yes
		if f := x.field(st, res[0], "Success"); !refused && f != nil && typeNameOf(deref(fn.Signature.Results().At(0).Type())) == "common/proto/pb.Response" {
			refused = !isTrue(f) && x.Eval(st, f) != Yes
		}
		if raw := callOf(res[1].strip()); kinds && x.nilness(st, res[1]) != Yes {
			c.Check(raw == nil || m.mapsErr(raw) || raw.Obj == nil || raw.Obj.Pkg() == nil || c.P.ByPth[raw.Obj.Pkg().Path()] == nil || !m.acts(raw), "mapped", key, at.Pos(), "the error of %s is returned as it is: the caller is not told its kind", nameOf(raw))
		}
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "did" {
				nil_ := x.nilness(st, ev.Val)
				c.Check(refused || nil_ == Yes || nil_ == Unknown && !m.acts(ev.Call) || m.expected(st, ev.Val), "told", key, ev.Pos, "%s failed, but the call is answered as done", ev.Call.Name)
			}
		}
		c.Ok("told", key)
	}
	c.Run(fn, r)
}

// mapsErr: the call makes the error of a remote call of a failure.
func (m *answers) mapsErr(ci *CallInfo) bool {
	rs := ci.Common.Signature().Results()
	return rs.Len() == 1 && isErrorType(rs.At(0).Type()) && ci.Fn != nil && pkgPathOf(ci.Fn) == "common/response" || strings.HasPrefix(ci.Name, "google.golang.org/grpc/status.Error")
}

// did notes what a call that can fail returned.
func (m *answers) did(x *Exec, st *State, ci *CallInfo) {
	e := x.E.ErrRes(ci)
	if e == nil || len(ci.Args) == 0 || len(ci.Args) == 1 && ci.Common.Signature().Recv() != nil || bodyCall(ci.Name) != "" || statusArg(ci.Name) > -2 {
		return
	}
	if methodName2(ci.Name) == "Close" || ci.Name == "os.Remove" || ci.Name == "os.RemoveAll" {
		return
	}
	kind := "did"
	if m.binds(ci) {
		kind = "bind"
	}
	st.Emit(Event{Kind: kind, Call: ci, Val: e, Pos: ci.Site.Pos()})
}

// understood: from here on it is known what failed.
func (m *answers) understood(x *Exec, st *State) {
	for i := range st.trace {
		if ev := &st.trace[i]; ev.Kind == "did" && m.expected(st, ev.Val) {
			st.trace = append(append([]Event{}, st.trace[:i]...), st.trace[i+1:]...)
			return
		}
	}
}

// inside: the call only handles the writer.
func (m *answers) inside(ci *CallInfo) (string, bool) {
	n := ci.Name
	switch {
	case strings.HasPrefix(n, "builtin."), strings.HasPrefix(n, ginPkg+"."), strings.HasPrefix(n, "(*"+ginPkg+"."):
		return n, true
	case ci.Fn != nil && pkgPathOf(ci.Fn) == "common/response":
		return n, true
	}
	return n, false
}

// header: the call sets a header of the answer.
func (m *answers) header(ci *CallInfo) bool {
	return ci.Name == ginCtx+"Header" || ci.Name == ginCtx+"SetCookie"
}

// binds: the call reads the request's parameters or body.
func (m *answers) binds(ci *CallInfo) bool {
	if strings.HasPrefix(ci.Name, ginCtx) && strings.Contains(ci.Name, "Bind") {
		return true
	}
	if ci.Fn == nil || !strings.Contains(ci.Fn.Name(), "Bind") {
		return false
	}
	for _, a := range ci.Args {
		if a.typ != nil && isGinCtx(a.typ) {
			return true
		}
	}
	return false
}

// acts: the call does part of what was asked for, or writes the answer (and is not a mere conversion).
func (m *answers) acts(ci *CallInfo) bool {
	if ci.Obj != nil && ci.Obj.Pkg() != nil && m.c.P.ByPth[ci.Obj.Pkg().Path()] != nil {
		return true
	}
	return strings.HasPrefix(ci.Name, "io.")
}

// expected: the path knows which error it is.
func (m *answers) expected(st *State, err *Term) bool {
	err = err.strip()
	for f, v := range st.facts {
		if !v {
			continue
		}
		if f.k == KBin && f.op == "==" && (isNil(f.a[0]) || isNil(f.a[1])) {
			continue
		}
		if f.contains(err) {
			return true
		}
		if ci := callOf(f); ci != nil {
			for _, a := range ci.Args {
				if a.contains(err) {
					return true
				}
			}
		}
	}
	return false
}

func nameOf(ci *CallInfo) string {
	if ci == nil {
		return "?"
	}
	return ci.Name
}

// number evaluates an integer or condition in which only unknowns that stand for n occur.
func (m *answers) number(t *Term, is func(*Term) bool, n int64, table map[int64]int64) (int64, bool) {
	t = t.strip()
	if v := cstOf(t); v != nil {
		if v.Kind() == constant.Bool {
			if constant.BoolVal(v) {
				return 1, true
			}
			return 0, true
		}
		return constInt(v)
	}
	if is(t) {
		return n, true
	}
	if t.k == KRes && t.a[0].k == KLookup && table != nil {
		key, ok := m.number(t.a[0].a[1], is, n, nil)
		if !ok {
			return 0, false
		}
		v, in := table[key]
		if t.op == "1" {
			if in {
				return 1, true
			}
			return 0, true
		}
		return v, true
	}
	if t.k == KLookup && table != nil {
		if key, ok := m.number(t.a[1], is, n, nil); ok {
			return table[key], true
		}
	}
	if t.k != KBin || len(t.a) != 2 {
		return 0, false
	}
	a, ok1 := m.number(t.a[0], is, n, table)
	b, ok2 := m.number(t.a[1], is, n, table)
	if !ok1 || !ok2 {
		return 0, false
	}
	truth := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch t.op {
	case "==":
		return truth(a == b)
	case "!=":
		return truth(a != b)
	case "<":
		return truth(a < b)
	case "<=":
		return truth(a <= b)
	case "/":
		if b != 0 {
			return a / b, true
		}
	case "%":
		if b != 0 {
			return a % b, true
		}
	case "-":
		return a - b, true
	case "+":
		return a + b, true
	}
	return 0, false
}

// outcomes explores fn with every unknown that stands for n taken to be n, and hands over what it returns.
func (m *answers) outcomes(fn *ssa.Function, is func(*Term) bool, n int64, table map[int64]int64, visit func(x *Exec, st *State, res []*Term)) {
	r := &Rule{}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if strings.HasSuffix(ci.Name, ".GetStatus") {
			st.Emit(Event{Kind: "asked"})
			return ActOpaque
		}
		if i := statusArg(ci.Name); i > 0 {
			st.Emit(Event{Kind: "sent", Val: ci.Args[i].strip()})
			return ActOpaque
		}
		if cutsOff(ci) {
			st.Emit(Event{Kind: "cut"})
		}
		if strings.HasSuffix(ci.Name, ".Code") {
			st.Emit(Event{Kind: "asked"})
		}
		return ActDefault
	}
	r.OnBranch = func(x *Exec, st *State) {
		for f, v := range st.facts {
			if got, ok := m.number(f, is, n, table); ok && (got != 0) != v {
				st.Emit(Event{Kind: "off"})
				return
			}
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if !st.Has("off") {
			visit(x, st, res)
		}
	}
	m.c.Run(fn, r)
}

func calledMethod(name string) func(*Term) bool {
	return func(t *Term) bool {
		ci := callOf(t.strip())
		return ci != nil && methodName2(ci.Name) == name
	}
}

// constsOf lists the constant integers given to the calls that match, in the packages of a module.
func (m *answers) constsOf(module, callee string) map[int64]bool {
	out := map[int64]bool{}
	for _, fn := range m.c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), module+"/") {
			continue
		}
		m.c.calls(fn, func(in ssa.CallInstruction, name string) {
			if name != callee {
				return
			}
			if k, ok := in.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
				if v, ok := constInt(k.Value); ok {
					out[v] = true
				}
			}
		})
	}
	return out
}

// hop decides what becomes of the status of a failure on its way through a remote call.
func (m *answers) hop() {
	c := m.c
	table := map[int64]int64{}
	var to, tell *ssa.Function
	var back []*ssa.Function
	from := map[string]bool{} // modules that send
	for _, fn := range c.P.Fns {
		if pkgPathOf(fn) == "common/response" {
			if fn.Name() == "GRPCError" {
				to = fn
			}
			if fn.Name() == "FailErr" {
				tell = fn
			}
			if strings.HasPrefix(fn.Name(), "init") {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.MapUpdate); ok {
							k, ok1 := u.Key.(*ssa.Const)
							v, ok2 := u.Value.(*ssa.Const)
							if ok1 && ok2 && strings.HasSuffix(typeNameOf(u.Value.Type()), "codes.Code") {
								kn, _ := constInt(k.Value)
								vn, _ := constInt(v.Value)
								table[kn] = vn
							}
						}
					}
				}
			}
		}
		if ps := fn.Signature.Params(); ps.Len() == 1 && isErrorType(ps.At(0).Type()) && fn.Signature.Results().Len() == 1 && fn.Signature.Recv() == nil && fn.Parent() == nil {
			hit := false
			c.calls(fn, func(_ ssa.CallInstruction, name string) {
				hit = hit || name == "google.golang.org/grpc/status.FromError" || name == "google.golang.org/grpc/status.Convert" || name == "google.golang.org/grpc/status.Code"
			})
			if hit {
				back = append(back, fn)
			}
		}
	}
	for _, fn := range c.callersOf(func(n string) bool { return n == "common/response.GRPCError" }) {
		from[strings.SplitN(pkgPathOf(fn), "/", 2)[0]] = true
	}
	if to == nil || len(back) == 0 {
		c.Bad("hop", "common/response.GRPCError", 0, "what turns failures into those of remote calls, or back, was not found")
		return
	}
	sent := map[int64]bool{}
	for mod := range from {
		for s := range m.constsOf(mod, "common/response.NewError") {
			sent[s] = true
		}
	}
	status, code := calledMethod("GetStatus"), calledMethod("Code")
	var statuses []int64
	for s := range sent {
		statuses = append(statuses, s)
	}
	sort.Slice(statuses, func(i, j int) bool { return statuses[i] < statuses[j] })
	for _, s := range statuses {
		if s < 400 {
			continue
		}
		codes := map[int64]bool{}
		lost := false
		m.outcomes(to, status, s, table, func(x *Exec, st *State, res []*Term) {
			if !m.hasStatus(st) {
				return // not a failure with a status
			}
			ci := callOf(res[0].strip())
			if ci == nil || len(ci.Args) == 0 {
				lost = true
				return
			}
			n, ok := m.number(ci.Args[0], status, s, table)
			if !ok || n == 0 {
				lost = true
			}
			codes[n] = true
		})
		key := fmt.Sprint("status ", s)
		c.Check(!lost && len(codes) > 0, "hop", key, to.Pos(), "a failure with status %d leaves a remote call as a success, or with a code that is not known", s)
		for _, b := range back {
			exact := m.constsOf(m.users(b), "common/response.CheckErrStatus")[s]
			for n := range codes {
				m.outcomes(b, code, n, nil, func(x *Exec, st *State, res []*Term) {
					if !m.read(st) {
						return
					}
					got, ok := int64(0), false
					if ci := callOf(res[0].strip()); ci != nil && ci.Name == "common/response.NewError" {
						got, ok = m.number(ci.Args[0], code, n, nil)
					} else if f := x.field(st, res[0].strip(), "Status"); f != nil {
						got, ok = m.number(f, code, n, nil)
					}
					c.Check(ok && got/100 == s/100 && (!exact || got == s), "hop", key+" at "+stableKey(b), b.Pos(), "a failure with status %d arrives as one with status %d", s, got)
				})
			}
		}
	}
	c.Min("hop", 6)
	if tell == nil {
		c.Bad("kind", "common/response.FailErr", 0, "what answers with a failure was not found")
		return
	}
	for _, s := range []int64{400, 401, 403, 404, 416, 500, 502, 503} {
		key := fmt.Sprint("status ", s, " at ", stableKey(tell))
		m.outcomes(tell, status, s, nil, func(x *Exec, st *State, res []*Term) {
			if st.Has("cut") {
				return
			}
			ev := st.Last("sent")
			if ev == nil {
				c.Bad("kind", key, tell.Pos(), "a failure is not answered")
				return
			}
			n, ok := m.number(ev.Val, status, s, nil)
			c.Check(ok && n >= 400 && (!st.Has("asked") || n == s), "kind", key, tell.Pos(), "a failure with status %d is answered with %s", s, ev.Val.Pretty())
		})
	}
	c.Min("kind", 6)
}

// users is the module that calls fn (its own if there is none).
func (m *answers) users(fn *ssa.Function) string {
	name := strings.TrimPrefix(fn.String(), "")
	for _, f := range m.c.callersOf(func(n string) bool { return n == name }) {
		return strings.SplitN(pkgPathOf(f), "/", 2)[0]
	}
	return strings.SplitN(pkgPathOf(fn), "/", 2)[0]
}

// hasStatus: the path asked the failure for its status.
func (m *answers) hasStatus(st *State) bool { return st.Has("asked") }

// read: the path read the code of the failure.
func (m *answers) read(st *State) bool { return st.Has("asked") }
