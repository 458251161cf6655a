package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "Every function that sends a request to another server (HTTP client, RPC stub) and reports an error is explored on every path; where it may report success, the branch facts must show that the request had no error and that its answer says success.", checkC35)
}

// requestKind: "http" for requests of the HTTP client, "rpc" for unary calls of an RPC stub.
func requestKind(cc *ssa.CallCommon) string {
	n := calleeName(cc)
	switch n {
	case "net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm", "net/http.Client.Do", "net/http.Client.Get", "net/http.Client.Post", "net/http.Client.Head", "net/http.Client.PostForm":
		return "http"
	}
	if cc.IsInvoke() && strings.HasPrefix(n, "common/proto/pb.") {
		sig := cc.Signature()
		recv := n[:strings.LastIndex(n, ".")]
		if strings.HasSuffix(recv, "Client") && !strings.Contains(recv, "_") && sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type()) {
			if _, isPtr := sig.Results().At(0).Type().(*types.Pointer); isPtr {
				return "rpc"
			}
		}
	}
	return ""
}

func isResponse(t types.Type) bool { return typeNameOf(deref(t)) == "common/proto/pb.Response" }
func isHTTPResponse(t types.Type) bool {
	return typeNameOf(deref(t)) == "net/http.Response"
}

// errorOf is the index of the error result, or -1.
func errorOf(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	if n := rs.Len(); n > 0 && isErrorType(rs.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// passesError: the function turns an error into another one, and gives nil only for nil (or an error whose code says OK).
func (c *Ctx) passesError(fn *ssa.Function) bool {
	sig := fn.Signature
	if fn.Blocks == nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isErrorType(sig.Params().At(0).Type()) {
		return false
	}
	if !isErrorLike(sig.Results().At(0).Type()) {
		return false
	}
	if v, ok := c.passes[fn]; ok {
		return v
	}
	if c.passes == nil {
		c.passes = map[*ssa.Function]bool{}
	}
	c.passes[fn] = false
	okd := true
	r := &Rule{}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case strings.HasSuffix(ci.Name, "grpc/status.FromError") || strings.HasSuffix(ci.Name, "grpc/status.Convert"):
			if ci.Args[0].strip() == paramTerm(x, 0) {
				st.Emit(Event{Kind: "status", Call: ci, Val: x.E.Res(ci, 0)})
			}
			return ActPure
		case strings.HasSuffix(ci.Name, "status.Status.Code"):
			if s := st.Last("status"); s != nil && s.Val == ci.Args[0].strip() {
				st.Emit(Event{Kind: "code", Call: ci, Val: x.E.Res(ci, 0)})
			}
			return ActPure
		}
		return ActDefault
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if x.nilness(st, res[0]) == No || x.nilness(st, paramTerm(x, 0)) == Yes {
			return
		}
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "code" {
				if v, ok := x.constOf(st, ev.Val); ok {
					if n, ok := constInt(v); ok && n == 0 {
						return // its code is OK
					}
				}
			}
		}
		okd = false
	}
	c.Run(fn, r)
	c.passes[fn] = okd
	return okd
}

func isErrorLike(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Error" {
			return true
		}
	}
	return false
}

// successStatus: the path found the status of an answer to be one of success.
func (x *Exec) successStatus(st *State, resp *Term) bool {
	sc := x.field(st, resp, "StatusCode")
	if v, ok := x.constOf(st, sc); ok && v.Kind() == constant.Int {
		n, _ := constant.Int64Val(v)
		return n >= 200 && n < 300
	}
	lo, hi := false, false
	for f, v := range st.facts {
		if v && f.k == KBin && f.op == "==" && isInt(f.a[1], 2) && f.a[0].k == KBin && f.a[0].op == "/" && f.a[0].a[0].strip() == sc.strip() && isInt(f.a[0].a[1], 100) {
			return true // hundreds
		}
		if f.k != KBin || f.op != "<" {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.a[i].strip() != sc.strip() {
				continue
			}
			o := f.a[1-i]
			n, ok := constInt(cstOf(o.strip()))
			if !ok {
				continue
			}
			switch {
			case i == 0 && v && n <= 300, i == 1 && !v && n <= 299:
				hi = true
			case i == 0 && !v && n >= 200, i == 1 && v && n >= 199:
				lo = true
			}
		}
	}
	return lo && hi
}

func checkC35(c *Ctx) {
	c.Rule("answered", "a function that asks another server reports success only if the request had no error, its answer had a status of success, and (for commands) says so")
	c.Rule("converted", "converting a remote error gives no error only for none")
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	n := 0
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isTestMain(fn) || strings.HasPrefix(pkgPathOf(fn), "common/proto/pb") {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, name string) {
			if requestKind(ci.Common()) != "" {
				n++
				if f := topFn(fn); !seen[f] && errorOf(f) >= 0 {
					seen[f] = true
					roots = append(roots, f)
				}
			}
		})
	}
	c.Count("requests", n)
	sortFns(roots)
	for _, fn := range roots {
		c.requests(fn)
	}
	for _, fn := range c.P.Fns {
		if o, ok := fn.Object().(*types.Func); ok && o.Name() == "ResolveErr" {
			c.Check(c.passesError(fn), "converted", methodName(fn), fn.Pos(), "an error of another server may be converted to none")
		}
	}
	c.Min("answered", 20)
	c.Min("converted", 1)
}

// requests judges one function that asks other servers.
func (c *Ctx) requests(fn *ssa.Function) {
	key := methodKey(fn)
	ei := errorOf(fn)
	r := &Rule{}
	returnsHTTP := false
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		returnsHTTP = returnsHTTP || isHTTPResponse(fn.Signature.Results().At(i).Type())
	}
	settled := func(x *Exec, st *State, ev *Event) bool {
		if x.nilness(st, ev.Val) != Yes {
			return false
		}
		resp := ev.Args[0]
		switch {
		case isHTTPResponse(resp.typ):
			return returnsHTTP || x.successStatus(st, resp)
		case isResponse(resp.typ):
			return x.Eval(st, x.field(st, resp, "Success")) == Yes
		}
		return true
	}
	settle := func(x *Exec, st *State) {
		for i := 0; i < len(st.trace); i++ {
			if ev := st.trace[i]; ev.Kind == "request" && settled(x, st, &ev) {
				st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
				i--
			}
		}
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		k := requestKind(ci.Common)
		if k == "" && ci.Fn != nil && errorOf(ci.Fn) == 1 && isHTTPResponse(ci.Fn.Signature.Results().At(0).Type()) {
			k = "http"
		}
		if k != "" {
			st.Emit(Event{Kind: "request", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{x.E.Res(ci, 0)}})
			return ActPure
		}
		if ci.Fn != nil && c.passesError(ci.Fn) {
			return ActPure
		}
		if strings.HasSuffix(ci.Name, "common/proto.ResolveResponse") {
			return ActEnter
		}
		if ci.Fn != nil && strings.HasPrefix(ci.Name, "common/proto/pb.") && strings.Contains(ci.Name, ".Get") {
			return ActEnter
		}
		if o, ok := ci.Common.Value.(*ssa.Function); ok && ci.Fn != nil && o.Parent() == nil && pkgPathOf(ci.Fn) != pkgPathOf(fn) {
			return ActOpaque
		}
		return ActDefault
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if ci.Fn != nil && c.passesError(ci.Fn) {
			isNil := func(t *Term) *Term { return x.E.T.bin("==", t, x.E.T.Nil(), types.Typ[types.Bool]) }
			arg, res := ci.Args[0], x.E.Res(ci, 0)
			switch x.nilness(st, arg) {
			case Yes:
				x.Assume(st, isNil(res), true)
			case No:
				x.Assume(st, isNil(res), false)
			default:
				st2 := st.clone()
				x.Assume(st, isNil(arg), true)
				x.Assume(st, isNil(res), true)
				x.Assume(st2, isNil(arg), false)
				x.Assume(st2, isNil(res), false)
				return []*State{st, st2}
			}
		}
		return nil
	}
	r.OnBranch = settle
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		ret := res[ei]
		if x.nilness(st, ret) == No {
			return
		}
		for i := range res {
			// an answer that says no
			if i != ei && isResponse(res[i].typ) && x.Eval(st, x.field(st, res[i], "Success")) == No {
				return
			}
		}
		settle(x, st)
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind != "request" {
				continue
			}
			what := calleeName(ev.Call.Common)
			okd := false
			if ret.strip() == ev.Val.strip() || x.nilness(st, ev.Val) == Yes {
				// the error is handed on; so must the answer be, or it says nothing more
				okd = !isHTTPResponse(ev.Args[0].typ) && !isResponse(ev.Args[0].typ) || isHTTPResponse(ev.Args[0].typ) && returnsHTTP
				for _, o := range res {
					okd = okd || o.strip() == ev.Args[0].strip()
				}
			}
			c.Check(okd, "answered", key+" "+what[strings.LastIndex(what, ".")+1:], at.Pos(), "%s can report success although its request (%s) failed or was answered with a failure", key, what)
		}
		c.Ok("answered", key)
	}
	c.dgHooks(r, nil)
	c.Run(fn, r)
}
