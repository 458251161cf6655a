package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	authPkg  = "apiserver/internal/usecase/componet/auth"
	ginCtx   = ginPkg + ".Context."
	etcdKV   = "go.etcd.io/etcd/client/v3"
	adminCrd = authPkg + "/credential.AdminCredential"
)

func init() {
	register("C15", "The routes of the API server are collected by exploring the function that builds the engine (loops over literal lists unrolled); for each route the handlers in front of its own are explored one after another, with the values they keep in the request's context: where the route's handler is reached, the branch facts of the path must be one of the accepted proofs.", checkC15)
}

// ginChain explores handlers in order on one request context; at sees every state in which the next one would run.
type ginChain struct {
	c    *Ctx
	rule func() *Rule // a fresh rule per handler
	stop func(x *Exec, st *State, ci *CallInfo)
	next func(x *Exec, st *State, pos token.Pos) // the handlers behind are run
}

func aborts(name string) bool {
	return strings.HasPrefix(name, ginCtx+"Abort")
}

func (g *ginChain) run(rt *Route, hs []*Term) {
	T := g.c.E.T
	cx := T.mk(Term{k: KParam, op: "request", typ: g.ctxType(rt)})
	first := rt.St.clone()
	first.trace = nil
	first.facts = map[*Term]bool{} // they are about the time the engine was built
	states := []*State{first}
	for i, h := range hs {
		h = h.strip()
		var out []*State
		seen := map[string]bool{}
		for _, s := range states {
			r := g.rule()
			base := r.OnCall
			r.Params = func(e *Engine, fn *ssa.Function) []*Term {
				if len(fn.Params) == 2 && len(h.a) > 0 { // bound method
					return []*Term{h.a[0], cx}
				}
				return []*Term{cx}
			}
			r.Init = func(e *Engine, st *State, _ []*Term) { *st = *s.clone() }
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if !strings.HasPrefix(ci.Name, ginCtx) {
					return base(x, st, ci)
				}
				key := ""
				if len(ci.Args) > 1 {
					if v, ok := x.constOf(st, ci.Args[1]); ok && v.Kind() == constant.String {
						key = "gin:" + constant.StringVal(v)
					}
				}
				switch m := ci.Name[len(ginCtx):]; m {
				case "Set":
					st.terms[key] = ci.Args[2]
					return ActOpaque
				case "Next":
					g.next(x, st, ci.Site.Pos())
					return ActOpaque
				}
				if aborts(ci.Name) {
					g.stop(x, st, ci)
					st.Emit(Event{Kind: "abort"})
					base(x, st, ci)
					return ActOpaque
				}
				return base(x, st, ci)
			}
			after := r.AfterOpaque
			r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
				if ci.Name == ginPkg+".ResponseWriter.Written" {
					x.Assume(st, x.E.Res(ci, 0), st.Has("answered"))
					return nil
				}
				if strings.HasPrefix(ci.Name, ginCtx) && len(ci.Args) > 1 {
					if v, ok := x.constOf(st, ci.Args[1]); ok && v.Kind() == constant.String {
						val := st.terms["gin:"+constant.StringVal(v)]
						switch ci.Name[len(ginCtx):] {
						case "GetBool":
							if val == nil {
								x.Assume(st, x.E.Res(ci, 0), false)
								return nil
							}
							b := val.strip()
							if b.k == KIface {
								b = b.a[0].strip()
							}
							var l []*State
							for _, t := range []bool{true, false} {
								if e := x.Eval(st, b); e == Unknown || (e == Yes) == t {
									n := st.clone()
									x.Assume(n, b, t)
									x.Assume(n, x.E.Res(ci, 0), t)
									x.branched(n)
									l = append(l, n)
								}
							}
							return l
						case "Get", "MustGet":
							if ci.Name == ginCtx+"Get" {
								x.Assume(st, x.E.Res(ci, 1), val != nil)
							}
							if val != nil {
								st.terms["is:"+x.E.Res(ci, 0).key] = val
							}
						}
					}
				}
				if after != nil {
					return after(x, st, ci)
				}
				return nil
			}
			r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
				if st.Has("abort") {
					return
				}
				if i == len(hs)-1 {
					g.next(x, st, at.Pos())
					return
				}
				n := st.clone()
				if k := stateKey(n); !seen[k] {
					seen[k] = true
					out = append(out, n)
				}
			}
			g.c.HandlerRun(h, r)
		}
		states = out
	}
}

// stateKey: what later handlers can see of a state.
func stateKey(st *State) string {
	var l []string
	for k, t := range st.terms {
		if strings.HasPrefix(k, "gin:") {
			l = append(l, k+"="+t.key)
		}
	}
	for i := range st.trace {
		l = append(l, st.trace[i].key)
	}
	for f, v := range st.facts {
		s := "-"
		if v {
			s = "+"
		}
		l = append(l, s+f.key)
	}
	sort.Strings(l)
	return strings.Join(l, "\x00")
}

func (g *ginChain) ctxType(rt *Route) types.Type {
	for _, h := range rt.Own {
		if fn := g.c.E.baseFn(h); fn != nil && len(fn.Params) > 0 {
			return fn.Params[len(fn.Params)-1].Type()
		}
	}
	return nil
}

// serves: the function reaches what works on objects, metadata or buckets.
func (c *Ctx) serves(fn *ssa.Function) bool {
	for f := range c.E.From(fn) {
		p := pkgPathOf(f)
		if strings.HasPrefix(p, apiUse) && (strings.HasSuffix(p, "/service") || strings.HasSuffix(p, "/repo") || strings.HasSuffix(p, "/webapi") || strings.HasSuffix(p, "/grpcapi")) && f.Name() != "init" {
			return true
		}
	}
	return false
}

func checkC15(c *Ctx) {
	c.Rule("guarded", "a route that works on objects, metadata or buckets is reached only if authentication is off, the route's pattern is on the white list, the name and password of the request equal the stored ones, or the callback answered with success")
	c.Rule("denied", "a request that is turned away gets an answer, and not one of success")
	c.Rule("seeded-once", "the stored credential is written only if it was looked up without error and there is none, and never with an empty name or password")
	routes := c.GinRoutes("apiserver/")
	for _, rt := range routes {
		hf := c.E.baseFn(rt.Own[len(rt.Own)-1])
		if hf == nil {
			c.Bad("guarded", rt.Key(), rt.At.Pos(), "the handler of %s is not known statically", rt.Key())
			continue
		}
		if !c.serves(hf) {
			continue
		}
		c.guarded(rt)
	}
	c.Min("guarded", 10)
	c.Min("denied", 5)
	c.seeded()
	c.Min("seeded-once", 1)
}

// proofs turns branch facts into events.
func (c *Ctx) proofs(x *Exec, st *State) {
	for i := 0; i < len(st.trace); i++ {
		if ev := st.trace[i]; (ev.Kind == "asked" || ev.Kind == "fetched") && x.nilness(st, ev.Val) == Yes {
			st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
			i--
			if ev.Args != nil {
				st.Emit(Event{Kind: "answer", Val: ev.Args[0]})
			}
		}
	}
	for i := range st.trace {
		if ev := &st.trace[i]; ev.Kind == "answer" && x.successStatus(st, ev.Val) {
			st.Emit(Event{Kind: "allowed"})
		}
	}
	for f, v := range st.facts {
		switch {
		case isFieldOf(f, "Enable", authPkg+".Config"):
			if !v {
				st.Emit(Event{Kind: "open"})
			}
		case isFieldOf(f, "Enable", authPkg+".PasswordConfig"):
			if v {
				st.Emit(Event{Kind: "passwords"})
			}
		case isFieldOf(f, "Enable", authPkg+".CallbackConfig"):
			if v {
				st.Emit(Event{Kind: "callbacks"})
			}
		case v && f.k == KPure && f.op == "strings.HasPrefix" && fromRoute(f.a[0]) && hasField(f.a[1], "whiteList"):
			st.Emit(Event{Kind: "white"})
		case f.k == KRes && f.op == "2" && v && f.a[0].call != nil && strings.HasSuffix(f.a[0].call.Name, "Request.BasicAuth"):
			st.Emit(Event{Kind: "given"})
		}
		a, b := equated(f, v)
		if a == nil {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b = b, a
			if basicAuth(a, "0") && credentialField(b, "Username") {
				st.Emit(Event{Kind: "same-name"})
			}
			if basicAuth(a, "1") && credentialField(b, "Password") {
				st.Emit(Event{Kind: "same-password"})
			}
		}
	}
}

// equated: the fact says that two values are equal.
func equated(f *Term, v bool) (a, b *Term) {
	inner := f
	if f.k == KBin && f.op == "==" && f.a[0].k != KConst && (isInt(f.a[1], 1) || isInt(f.a[1], 0)) {
		inner = f.a[0].strip()
	}
	name := inner.op
	args := inner.a
	if inner.k == KRes && inner.a[0].call != nil {
		name, args = inner.a[0].call.Name, inner.a[0].call.Args
	}
	switch {
	case inner == f && f.k == KBin && f.op == "==" && v:
		return f.a[0], f.a[1]
	case inner != f && name == "crypto/subtle.ConstantTimeCompare" && v == isInt(f.a[1], 1):
		return args[0], args[1]
	case inner != f && (name == "strings.Compare" || name == "bytes.Compare") && v && isInt(f.a[1], 0):
		return args[0], args[1]
	case inner == f && v && (name == "crypto/hmac.Equal" || name == "bytes.Equal"):
		return args[0], args[1]
	}
	return nil, nil
}

func basicAuth(t *Term, i string) bool {
	t = t.strip()
	return t.k == KRes && t.op == i && t.a[0].call != nil && strings.HasSuffix(t.a[0].call.Name, "Request.BasicAuth")
}

func credentialField(t *Term, name string) bool { return isFieldOf(t, name, adminCrd) }

// fromRoute: the pattern or path of the request.
func fromRoute(t *Term) bool {
	hit := false
	t.walk(func(s *Term) {
		if s.call != nil && s.call.Name == ginCtx+"FullPath" || s.k == KFAddr && s.op == "Path" || s.k == KField && s.op == "Path" {
			hit = true
		}
	})
	return hit
}

func hasField(t *Term, name string) bool {
	hit := false
	t.walk(func(s *Term) { hit = hit || (s.k == KFAddr || s.k == KField) && s.op == name })
	return hit
}

func proven(st *State) bool {
	if st.Has("open") || st.Has("white") || st.Has("allowed") && st.Has("callbacks") {
		return true
	}
	for _, k := range []string{"passwords", "given", "same-name", "same-password"} {
		if !st.Has(k) {
			return false
		}
	}
	return !st.Has("fetched")
}

func (c *Ctx) guarded(rt *Route) {
	key := rt.Key()
	g := &ginChain{c: c}
	g.rule = func() *Rule {
		r := &Rule{MaxDepth: 8, Wide: 8}
		r.OnBranch = c.proofs
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			last := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
			switch {
			case strings.HasPrefix(ci.Name, "net/http.") && len(ci.Common.Signature().Params().String()) > 0 && isHTTPResult(ci.Common):
				st.Emit(Event{Kind: "asked", Val: x.E.ErrRes(ci), Args: []*Term{x.E.Res(ci, 0)}})
				return ActOpaque
			case strings.HasPrefix(ci.Name, etcdKV) && last == "Get", strings.HasSuffix(ci.Name, ".DecodeMsgp"), last == "UnmarshalMsg":
				st.Emit(Event{Kind: "fetched", Val: x.E.ErrRes(ci)})
				return ActOpaque
			case strings.HasPrefix(ci.Name, ginCtx):
				c.answer(x, st, ci)
			case ci.Fn != nil && pkgPathOf(ci.Fn) == "common/logs":
				return ActOpaque
			}
			return ActDefault
		}
		return r
	}
	g.stop = func(x *Exec, st *State, ci *CallInfo) {
		c.answer(x, st, ci)
		ok := st.Has("answered")
		c.Check(ok, "denied", key, ci.Site.Pos(), "a request to %s can be turned away without an answer, which counts as success", key)
	}
	g.next = func(x *Exec, st *State, pos token.Pos) {
		c.proofs(x, st)
		c.Check(proven(st), "guarded", key, rt.At.Pos(), "%s is reached without proof of who is asking (handlers in front end at %s)", key, c.Pos(pos))
	}
	hs := append(append([]*Term(nil), rt.Mid...), rt.Own[:len(rt.Own)-1]...)
	var own []*Term
	for _, h := range hs {
		fn := c.E.baseFn(h.strip())
		if fn == nil || fn.Blocks == nil || !c.P.InRepo(fn) {
			continue // library handlers (logging, recovery) prove nothing
		}
		own = append(own, h)
	}
	if len(own) == 0 {
		c.Bad("guarded", key, rt.At.Pos(), "%s is served without authentication", key)
		return
	}
	g.run(rt, own)
}

func isHTTPResult(cc *ssa.CallCommon) bool {
	rs := cc.Signature().Results()
	return rs.Len() == 2 && strings.HasSuffix(typeNameOf(deref(rs.At(0).Type())), "net/http.Response")
}

// answer notes that an answer was written, and judges its status.
func (c *Ctx) answer(x *Exec, st *State, ci *CallInfo) {
	m := strings.TrimPrefix(ci.Name, ginCtx)
	var code *Term
	switch m {
	case "JSON", "Status", "String", "AbortWithStatus", "AbortWithStatusJSON", "AbortWithError", "Data", "XML", "IndentedJSON", "PureJSON", "Redirect":
		code = ci.Args[1]
	default:
		return
	}
	st.Emit(Event{Kind: "answered"})
	key := "status"
	if v, ok := x.constOf(st, code); ok {
		n, _ := constInt(v)
		c.Check(n >= 300, "denied", key, ci.Site.Pos(), "a request that is turned away is answered with status %d", n)
		return
	}
	resp := false
	code.walk(func(t *Term) { resp = resp || (t.k == KFAddr || t.k == KField) && t.op == "StatusCode" })
	if !resp {
		return // of an error that is made in the library
	}
	for f, v := range st.facts {
		if !v && f.k == KBin && f.op == "==" && isInt(f.a[1], 2) && f.a[0].k == KBin && f.a[0].op == "/" && f.a[0].a[0].strip() == code.strip() {
			return
		}
	}
	c.Bad("denied", key, ci.Site.Pos(), "a request that is turned away can be answered with a status of success, taken from %s", code.Pretty())
}

// seeded: writing the stored credential.
func (c *Ctx) seeded() {
	isKey := func(x *Exec, st *State, ci *CallInfo) bool {
		for _, a := range ci.Args {
			if hasField(a, "ApiCredential") {
				return true
			}
			if v, ok := x.constOf(st, a); ok && v.Kind() == constant.String && constant.StringVal(v) == "api_credential" {
				return true
			}
		}
		return false
	}
	for _, fn := range c.P.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" || !c.P.InRepo(fn) {
			continue
		}
		hit := false
		c.calls(fn, func(ci ssa.CallInstruction, n string) {
			hit = hit || strings.HasPrefix(n, etcdKV) && strings.HasSuffix(n, ".Put")
		})
		if !hit {
			continue
		}
		key := methodKey(fn)
		r := &Rule{MaxDepth: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if !strings.HasPrefix(ci.Name, etcdKV) || !isKey(x, st, ci) {
				return ActDefault
			}
			switch {
			case strings.HasSuffix(ci.Name, ".Get"):
				st.Emit(Event{Kind: "looked", Call: ci, Val: x.E.ErrRes(ci)})
			case strings.HasSuffix(ci.Name, ".Put"):
				c.Check(st.Has("none"), "seeded-once", key, ci.Site.Pos(), "%s can overwrite the credential that is stored", key)
				c.Check(st.Has("set:Username") && st.Has("set:Password"), "seeded-once", key+" empty", ci.Site.Pos(), "%s can store an empty name or password", key)
			}
			return ActOpaque
		}
		r.OnBranch = func(x *Exec, st *State) {
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind == "looked" && x.nilness(st, ev.Val) == Yes && x.knownEmpty(st, x.E.Res(ev.Call, 0)) {
					st.Emit(Event{Kind: "none"})
					break
				}
			}
			for f, v := range st.facts {
				for _, n := range []string{"Username", "Password"} {
					if f.k == KBin && f.op == "==" && !v && isFieldOf(f.a[0], n) && isEmptyString(f.a[1]) || f.k == KBin && f.op == "<" && v && isLen(f.a[1]) && isFieldOf(f.a[1].a[0], n) {
						st.Emit(Event{Kind: "set:" + n})
					}
				}
			}
		}
		c.Run(fn, r)
	}
}

func isEmptyString(t *Term) bool {
	v := cstOf(t.strip())
	return v != nil && v.Kind() == constant.String && constant.StringVal(v) == ""
}
