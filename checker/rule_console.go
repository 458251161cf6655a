package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", "The routes of the admin server are collected from the function that builds its engine; the handlers in front of each one that reaches a request or a remote call to another server are explored in order, then the handler itself: what leaves for the API server and which credential it carries, and what sessions keep.", checkC40)
}

const (
	adminPkg = "adminserver/internal"
	session  = "github.com/gin-contrib/sessions.Session."
	checkAt  = "/security/check"
)

type console struct{ c *Ctx }

// working: the handler works on metadata, objects, buckets or servers.
func (s *console) working(fn *ssa.Function) bool {
	for f := range s.c.E.From(fn) {
		hit, check := false, false
		for _, t := range textConsts(f) {
			check = check || strings.Contains(t, checkAt)
		}
		s.c.calls(f, func(site ssa.CallInstruction, name string) {
			hit = hit || strings.HasPrefix(name, "common/proto/pb.") && strings.Contains(name, "Client.") || sendsHTTP(name) && !check
		})
		if hit {
			return true
		}
	}
	return false
}

// credential: the value is the credential of the request or of its session.
func (s *console) credential(t *Term) bool {
	hit := false
	t.walk(func(q *Term) {
		if q.call == nil {
			return
		}
		switch q.call.Name {
		case session + "Get":
			hit = true
		case ginCtx + "GetHeader", "net/http.Header.Get":
			hit = hit || strings.EqualFold(textOf(q.call.Args[1]), "authorization")
		}
	})
	return hit
}

// given: the term has the credential of the request itself in it; stored: that of its session.
func (s *console) given(t *Term) bool {
	hit := false
	t.walk(func(q *Term) {
		hit = hit || q.call != nil && q.call.Name != session+"Get" && s.credential(q)
	})
	return hit
}

func (s *console) stored(t *Term) bool {
	hit := false
	t.walk(func(q *Term) { hit = hit || q.call != nil && q.call.Name == session+"Get" })
	return hit
}

// request follows how requests are made and sent; true if the call was taken.
func (s *console) request(x *Exec, st *State, ci *CallInfo) bool {
	switch ci.Name {
	case "net/http.NewRequest", "net/http.NewRequestWithContext":
		k := 1
		if strings.HasSuffix(ci.Name, "Context") {
			k = 2
		}
		var holes []*Term
		p := &protos{c: s.c}
		st.Emit(Event{Kind: "req", Val: x.E.Res(ci, 0), Args: []*Term{x.E.T.ConstVal(constant.MakeString(p.text(x, st, ci.Args[k], &holes, ci.Site, "")), types.Typ[types.String])}})
		return true
	case "net/http.Header.Set", "net/http.Header.Add":
		if strings.EqualFold(textOf(ci.Args[1]), "authorization") {
			st.Emit(Event{Kind: "auth", Val: ci.Args[2].strip(), Args: []*Term{ci.Args[0].strip()}})
		}
		return true
	}
	if !sendsHTTP(ci.Name) {
		return false
	}
	st.Emit(Event{Kind: "asked", Val: x.E.ErrRes(ci), Args: []*Term{x.E.Res(ci, 0), ci.Args[1].strip()}})
	return true
}

// header follows headers that are put into the map itself.
func (s *console) header(x *Exec, st *State, addr, val *Term, _ ssa.Instruction) {
	if addr.k == KLookup && strings.EqualFold(textOf(addr.a[1]), "authorization") {
		for _, v := range x.flatten(st, val) {
			st.Emit(Event{Kind: "auth", Val: v.strip(), Args: []*Term{addr.a[0].strip()}})
		}
	}
}

// sent gives the address of a request and the credential it carries.
func (s *console) sent(st *State, req *Term) (url string, cred *Term) {
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "req" && ev.Val.strip() == req {
			url = textOf(ev.Args[0])
		}
		if ev.Kind == "auth" && ev.Args[0].contains(req) {
			cred = ev.Val
		}
	}
	return
}

// confirm turns answers of the check into events.
func (s *console) confirm(x *Exec, st *State) {
	for i := 0; i < len(st.trace); i++ {
		ev := st.trace[i]
		if ev.Kind != "asked" || x.nilness(st, ev.Val) == No || !x.successStatus(st, ev.Args[0]) {
			continue
		}
		if url, cred := s.sent(st, ev.Args[1]); strings.HasSuffix(url, checkAt) && cred != nil && s.credential(cred) {
			st.Emit(Event{Kind: "confirmed"})
		}
	}
}

func checkC40(c *Ctx) {
	c.Rule("confirmed", "a request that works on metadata, objects, buckets or servers is acted on only after an API server has confirmed the credential it came with")
	c.Rule("forwarded", "what the console asks of an API server for a user carries the credential of that user")
	c.Rule("kept", "what is kept in a session is a credential that was given, and it is saved")
	c.Rule("forgotten", "who logs out is told so only after the credential has been removed from the session and that has been saved")
	c.Rule("guarded", "an API server confirms a credential only if it would act on it: its own check stands in front of that route")
	c.Rule("denied", "a request that is turned away gets an answer, and not one of success")
	for _, rt := range c.GinRoutes("apiserver/") {
		if strings.HasSuffix(rt.Path, checkAt) {
			c.guarded(rt)
		}
	}
	c.Min("guarded", 1)
	s := &console{c}
	for _, rt := range c.GinRoutes("adminserver/") {
		hf := c.E.baseFn(rt.Own[len(rt.Own)-1])
		if hf == nil {
			c.Bad("confirmed", rt.Key(), rt.At.Pos(), "the handler of %s is not known statically", rt.Key())
			continue
		}
		s.forwarded(rt, hf)
		s.login(rt, hf)
		if strings.Contains(rt.Path, "/server/") || !s.working(hf) {
			continue
		}
		s.confirmed(rt)
	}
	c.Min("confirmed", 8)
	c.Min("forwarded", 4)
	roots := map[*ssa.Function]bool{}
	for fn := range s.sessions() {
		roots[fn] = true
		if fn.Signature.Results().Len() > 0 {
			for _, g := range c.E.Graph().In[fn] {
				roots[g] = true
			}
		}
	}
	for _, fn := range c.sorted(roots) {
		s.session(fn)
	}
	c.Min("kept", 1)
	c.Min("forgotten", 1)
}

func (s *console) confirmed(rt *Route) {
	c, key := s.c, rt.Key()
	g := &ginChain{c: c}
	g.rule = func() *Rule {
		r := &Rule{MaxDepth: 8, Wide: 8}
		r.OnBranch = s.confirm
		r.OnStore = s.header
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if s.request(x, st, ci) || ci.Fn != nil && pkgPathOf(ci.Fn) == "common/logs" {
				return ActOpaque
			}
			return ActDefault
		}
		return r
	}
	g.stop = func(*Exec, *State, *CallInfo) {}
	g.next = func(x *Exec, st *State, pos token.Pos) {
		s.confirm(x, st)
		c.Check(st.Has("confirmed"), "confirmed", key, rt.At.Pos(), "%s is reached although no API server has confirmed the credential (handlers in front end at %s)", key, c.Pos(pos))
	}
	var own []*Term
	for _, h := range append(append([]*Term(nil), rt.Mid...), rt.Own[:len(rt.Own)-1]...) {
		fn := c.E.baseFn(h.strip())
		if fn == nil || fn.Blocks == nil || !c.P.InRepo(fn) {
			continue // library handlers prove nothing
		}
		own = append(own, h)
	}
	if len(own) == 0 {
		c.Bad("confirmed", key, rt.At.Pos(), "%s is served without asking for a credential", key)
		return
	}
	g.run(rt, own)
}

func (s *console) forwarded(rt *Route, fn *ssa.Function) {
	c := s.c
	r := &Rule{MaxDepth: 8, NoCallbacks: true}
	r.OnStore = s.header
	r.Relevant = func(_ *CallInfo, f *ssa.Function) bool {
		return strings.HasPrefix(pkgPathOf(f), adminPkg) || pkgPathOf(f) == "common/request"
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if !s.request(x, st, ci) {
			return ActDefault
		}
		if sendsHTTP(ci.Name) {
			url, cred := s.sent(st, ci.Args[1].strip())
			_, at, _ := strings.Cut(url, "://")
			if _, at, _ = strings.Cut(at, "/"); strings.HasPrefix(at, "v1/") || at == "config" {
				ok := cred != nil && s.credential(cred)
				what := "the request to /%s carries no credential"
				if cred != nil {
					what = "what the request to /%s carries is not the credential of who asks"
				}
				c.Check(ok, "forwarded", rt.Key(), ci.Site.Pos(), what, strings.ReplaceAll(at, hole, "*"))
			}
		}
		return ActOpaque
	}
	c.HandlerRun(rt.Own[len(rt.Own)-1], r)
}

// login: a handler that asks for the check itself says yes only if it was passed.
func (s *console) login(rt *Route, fn *ssa.Function) {
	c, asks := s.c, false
	for f := range c.E.From(fn) {
		for _, t := range textConsts(f) {
			asks = asks || strings.Contains(t, checkAt)
		}
	}
	if !asks {
		return
	}
	r := &Rule{MaxDepth: 8, NoCallbacks: true}
	r.OnStore = s.header
	r.Relevant = func(_ *CallInfo, f *ssa.Function) bool {
		return strings.HasPrefix(pkgPathOf(f), adminPkg) || pkgPathOf(f) == "common/request"
	}
	r.OnBranch = s.confirm
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if s.request(x, st, ci) {
			return ActOpaque
		}
		if c.onAnswer(x, st, ci) {
			s.confirm(x, st)
			if ev := st.Last("answer-ok"); ev != nil && ev.Call == ci {
				c.Check(st.Has("confirmed"), "confirmed", rt.Key(), ci.Site.Pos(), "%s says that a credential is good which no API server has confirmed", rt.Key())
			}
			return ActOpaque
		}
		return ActDefault
	}
	c.HandlerRun(rt.Own[len(rt.Own)-1], r)
}

// sessions are the functions that change a session.
func (s *console) sessions() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range s.c.callersOf(func(n string) bool {
		return n == session+"Set" || n == session+"Clear" || n == session+"Delete"
	}) {
		out[fn] = true
	}
	return out
}

func (s *console) session(fn *ssa.Function) {
	c, key := s.c, stableKey(fn)
	r := &Rule{NoCallbacks: true}
	r.Relevant = func(_ *CallInfo, f *ssa.Function) bool {
		return strings.HasPrefix(pkgPathOf(f), adminPkg+"/controller") || pkgPathOf(f) == "common/response"
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case session + "Set":
			v := ci.Args[2]
			ok := s.credential(v)
			c.Check(ok, "kept", key, ci.Site.Pos(), "what is kept in the session is not the credential of a request")
			if ok {
				c.Check(filled(st, v), "kept", key, ci.Site.Pos(), "a request without a credential replaces the one that is kept")
			}
			st.Emit(Event{Kind: "set", Val: v.strip()})
			st.Emit(Event{Kind: "put"})
			return ActOpaque
		case session + "Clear", session + "Delete":
			st.Drop("saved")
			st.Emit(Event{Kind: "cleared"})
			return ActOpaque
		case session + "Save":
			if st.Has("cleared") {
				st.Emit(Event{Kind: "saved", Val: x.E.ErrRes(ci)})
			}
			st.Drop("set")
			return ActOpaque
		}
		if c.onAnswer(x, st, ci) {
			return ActOpaque
		}
		return ActDefault
	}
	sets := c.callsAny(fn, session+"Set")
	r.OnBranch = func(x *Exec, st *State) {
		for f, is := range st.facts {
			if f.k != KBin || !s.given(f) {
				continue
			}
			switch {
			case f.op == "==" && is && (isEmptyString(f.a[1]) || isEmptyString(f.a[0]) || s.stored(f)):
				st.Emit(Event{Kind: "as-is"})
			case f.op == "<" && !is && isInt(f.a[0], 0) && isLen(f.a[1]):
				st.Emit(Event{Kind: "as-is"})
			}
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if sets && !st.Has("put") {
			c.Check(st.Has("as-is"), "kept", key, at.Pos(), "the request has another credential than its session, which is not replaced: the one of somebody else is used")
		}
		c.Check(!st.Has("set"), "kept", key, at.Pos(), "a credential is put into the session, which is not saved")
		if !st.Has("cleared") || st.Has("answer-fail") {
			return
		}
		ev := st.Last("saved")
		if n := len(res); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && (x.nilness(st, res[n-1]) == No || ev != nil && res[n-1].strip() == ev.Val.strip()) {
			return // the caller is told
		}
		c.Check(ev != nil && x.nilness(st, ev.Val) == Yes, "forgotten", key, at.Pos(), "the session is cleared, but that is not saved: the credential stays in it")
	}
	c.Run(fn, r)
}

// filled: the path knows that the text is not empty.
func filled(st *State, v *Term) bool {
	unbox := func(t *Term) *Term {
		t = t.strip()
		if t.k == KIface {
			t = t.a[0].strip()
		}
		return t
	}
	v = unbox(v)
	for f, is := range st.facts {
		if f.k != KBin {
			continue
		}
		switch a, b := unbox(f.a[0]), unbox(f.a[1]); {
		case f.op == "==" && !is && (a == v && isEmptyString(b) || b == v && isEmptyString(a)):
			return true
		case f.op == "<" && is && isInt(a, 0) && isLen(b) && b.contains(v):
			return true
		}
	}
	return false
}
