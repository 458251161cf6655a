package main

import (
	"go/types"
	"net/http"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	isLeaderFn = "metaserver/internal/usecase/raftimpl.RaftWrapper.IsLeader"
	isNormalFn = "metaserver/internal/usecase/db.HashSlotDB.IsNormal"
	isKeyFn    = "metaserver/internal/usecase/logic.HashSlot.IsKeyOnThisServer"
)

// gateCall records the questions a path asked about this node.
func gateCall(x *Exec, st *State, ci *CallInfo) (Action, bool) {
	switch ci.Name {
	case isLeaderFn:
		st.Emit(Event{Kind: "leader", Call: ci})
	case isNormalFn:
		st.Emit(Event{Kind: "normal", Call: ci})
	case isKeyFn:
		st.Emit(Event{Kind: "key", Call: ci, Args: ci.Args[1:]})
	default:
		return ActDefault, false
	}
	return ActOpaque, true
}

func factOnField(f *Term, field string) bool {
	if f.k == KLoad && f.a[0].k == KFAddr {
		return f.a[0].op == field
	}
	return f.k == KField && f.op == field
}

// gatesHeld evaluates which guards a path has established.
func gatesHeld(x *Exec, st *State, keyOf func(*Term) bool) map[string]bool {
	out := map[string]bool{}
	for _, ev := range st.trace {
		switch ev.Kind {
		case "leader", "normal":
			if x.Eval(st, x.E.Res(ev.Call, 0)) == Yes {
				out[ev.Kind] = true
			}
		case "key":
			if x.Eval(st, x.E.Res(ev.Call, 0)) == Yes && (keyOf == nil || keyOf(ev.Args[0])) {
				out["key"] = true
			}
		}
	}
	for f, v := range st.facts {
		if !v && factOnField(f, "Enabled") {
			out["leader"] = true
			out["noraft"] = true
		}
		if v && f.k == KBin && f.op == "==" && keyOf != nil && keyOf(f.a[0]) && f.a[1].k == KConst && f.a[1].op == `""` {
			out["key"] = true
		}
	}
	return out
}

func init() {
	register("C03", "The gRPC services and gin routes of the metadata server are collected by exploring the functions that build the servers, together with the interceptors and middlewares that run in front of each. For every operation whose implementation can reach a record change (call graph), each interceptor is explored on all paths with the operation's own full method name (or HTTP verb): at the point where it hands on, the path must have established that the node leads (or does not replicate), that no slot migration is running, and that the key belongs to this node. Unions over the chain give what holds before the handler.", checkC03)
}

// mutators: service functions that submit to the log or write the store themselves.
func (c *Ctx) mutators() map[*ssa.Function]bool {
	w := c.writesDB()
	out := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		pp := pkgPathOf(fn)
		if !strings.HasPrefix(pp, "metaserver/") || strings.HasPrefix(pp, msRepoPkg) || strings.HasPrefix(pp, "metaserver/internal/usecase/db") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				info := &CallInfo{Common: ci.Common(), Name: calleeName(ci.Common()), Fn: ci.Common().StaticCallee()}
				if isApplyRaft(info) || c.isLocalMutation(info, w) && !c.serviceCall(ci.Common()) {
					out[fn] = true
				}
			}
		}
	}
	return out
}

func (c *Ctx) serviceCall(cc *ssa.CallCommon) bool { return cc.IsInvoke() && c.serviceIface(cc) }

// reachesAny: fn can reach one of the functions, not going back from repositories to services.
func (c *Ctx) reachesAny(fn *ssa.Function, set map[*ssa.Function]bool) bool {
	skip := func(f *ssa.Function) bool { return strings.HasPrefix(pkgPathOf(f), msRepoPkg) }
	for f := range c.E.FromExcept(skip, fn) {
		if set[f] {
			return true
		}
	}
	return false
}

func (c *Ctx) callsAny(fn *ssa.Function, names ...string) bool {
	skip := func(f *ssa.Function) bool { return strings.HasPrefix(pkgPathOf(f), msRepoPkg) }
	g := c.E.Graph()
	for f := range c.E.FromExcept(skip, fn) {
		for n := range g.Ext[f] {
			for _, w := range names {
				if n == w {
					return true
				}
			}
		}
		if o, ok := f.Object().(*types.Func); ok {
			for _, w := range names {
				if FullName(o) == w {
					return true
				}
			}
		}
	}
	return false
}

func checkC03(c *Ctx) {
	c.Rule("rpc-writable", "before a record-changing RPC is handed to its implementation, the node is known to lead or not to replicate")
	c.Rule("rpc-normal", "before a record-changing RPC is handed on, no slot migration is running on this node (the migration's own receiving stream excepted)")
	c.Rule("rpc-key", "a unary RPC naming a record is handed on only if the key belongs to this node")
	c.Rule("http-writable", "before a record-changing HTTP route's handler runs, the node is known to lead or not to replicate")
	c.Rule("http-normal", "before a record-changing HTTP route's handler runs, no slot migration is running")
	c.Rule("http-key", "a record-changing HTTP route reaches the service only if the key belongs to this node")
	c.Rule("membership", "members are added to or removed from the replication group only by its leader")
	c.Rule("ownership", "a key is reported as owned only when its slot was resolved and maps to this node or its leader")
	mut := c.mutators()
	member := []string{raftPkg + ".Raft.AddVoter", raftPkg + ".Raft.RemoveServer", raftPkg + ".Raft.AddNonvoter", raftPkg + ".Raft.DemoteVoter"}
	held := func(rpc *RPC) map[string]bool {
		all := map[string]bool{}
		for _, h := range rpc.Inter {
			fn := c.E.baseFn(h)
			if fn == nil || fn.Blocks == nil || !c.P.InRepo(fn) {
				continue
			}
			var guards map[string]bool // intersection over hand-on points
			var handler *Term
			var reqTerm *Term
			keyOf := func(t *Term) bool {
				t = t.strip()
				return reqTerm != nil && t.contains(reqTerm) && (t.k == KLoad && t.a[0].k == KFAddr && t.a[0].op == "Id" || t.k == KField && t.op == "Id" || t.k == KRes || t.k == KPure)
			}
			r := &Rule{MaxDepth: 6}
			r.Params = func(e *Engine, f *ssa.Function) []*Term {
				var ps []*Term
				for _, p := range f.Params {
					t := e.Param(p.Name(), p.Type())
					ts := p.Type().String()
					if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && rpc.ReqType != nil {
						reqTerm = e.Param("request", rpc.ReqType)
						t = e.T.mk(Term{k: KIface, op: types.TypeString(rpc.ReqType, nil), a: []*Term{reqTerm}, typ: rpc.ReqType})
					}
					if strings.HasSuffix(ts, "grpc.UnaryHandler") || strings.HasSuffix(ts, "grpc.StreamHandler") {
						handler = t
					}
					ps = append(ps, t)
				}
				return ps
			}
			r.Init = func(e *Engine, st *State, ps []*Term) {
				for i, p := range fn.Params {
					ts := p.Type().String()
					if strings.HasSuffix(ts, "grpc.UnaryServerInfo") || strings.HasSuffix(ts, "grpc.StreamServerInfo") {
						st.mem[e.fieldAddr(ps[i], "FullMethod")] = e.T.ConstVal(cstStr(rpc.Full()), types.Typ[types.String])
					}
				}
			}
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if a, ok := gateCall(x, st, ci); ok {
					return a
				}
				if ci.Closure != nil && ci.Closure == handler {
					g := gatesHeld(x, st, keyOf)
					if guards == nil {
						guards = g
					} else {
						for k := range guards {
							if !g[k] {
								delete(guards, k)
							}
						}
					}
					return ActOpaque
				}
				return ActDefault
			}
			r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
				x.containsGlobal(st, ci)
				return nil
			}
			c.HandlerRun(h, r)
			for k := range guards {
				all[k] = true
			}
		}
		return all
	}
	rpcs := c.RPCs("metaserver/")
	for _, rpc := range rpcs {
		k := rpc.Service + "/" + rpc.Name
		pos := rpc.Fn.Pos()
		isMut := c.reachesAny(rpc.Fn, mut)
		isMig := c.callsAny(rpc.Fn, "metaserver/internal/usecase/db.HashSlotDB.ReadyMigrateTo", "metaserver/internal/usecase/db.HashSlotDB.ReadyMigrateFrom")
		own := c.callsAny(rpc.Fn, "metaserver/internal/usecase/db.HashSlotDB.FinishMigrateFrom") && rpc.Stream
		h := held(rpc)
		if isMut || isMig {
			c.Check(h["leader"], "rpc-writable", k, pos, "%s changes records, but no interceptor stops it on a node that is not the leader", rpc.Full())
			if !own {
				c.Check(h["normal"], "rpc-normal", k, pos, "%s changes records, but no interceptor stops it while a slot migration is running", rpc.Full())
			}
		}
		if rpc.ReqType != nil && !rpc.Stream {
			if fieldType(deref(rpc.ReqType), "Id") == types.Typ[types.String] && (isMut || c.readsRecords(rpc.Fn)) {
				c.Check(h["key"], "rpc-key", k, pos, "%s is served for keys that belong to another node", rpc.Full())
			}
		}
		if c.callsAny(rpc.Fn, member...) && !rpc.Stream {
			base := h["leader"] && !h["noraft"]
			r := &Rule{MaxDepth: 5}
			key := k
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if a, ok := gateCall(x, st, ci); ok {
					return a
				}
				for _, m := range member {
					if ci.Name == m {
						c.Check(base || gatesHeld(x, st, nil)["leader"], "membership", key, ci.Site.Pos(), "%s changes the replication group on a node that may not be its leader", key)
					}
				}
				return ActDefault
			}
			c.Run(rpc.Fn, r)
		}
	}
	c.Min("rpc-writable", 5)
	c.Min("rpc-normal", 4)
	c.Min("rpc-key", 5)
	c.Min("membership", 1)

	for _, rt := range c.GinRoutes("metaserver/") {
		last := rt.Own[len(rt.Own)-1]
		hf := c.E.baseFn(last)
		if hf == nil {
			continue
		}
		if !c.reachesAny(hf, mut) {
			continue
		}
		key := rt.Key()
		methods := []string{rt.Method}
		if !httpKnown(rt.Method) {
			methods = []string{http.MethodGet, http.MethodPost, http.MethodPut, http.MethodDelete, http.MethodPatch}
		}
		for _, m := range methods {
			h := map[string]bool{}
			chain := append(append([]*Term(nil), rt.Mid...), rt.Own[:len(rt.Own)-1]...)
			for _, mid := range chain {
				for g := range c.midGuards(mid, m) {
					h[g] = true
				}
			}
			c.Check(h["leader"], "http-writable", key, rt.At.Pos(), "%s changes records, but nothing in front of it stops it on a node that is not the leader", key)
			c.Check(h["normal"], "http-normal", key, rt.At.Pos(), "%s changes records, but nothing in front of it stops it while a slot migration is running", key)
			if h["key"] && strings.Contains(rt.Path, ":name") {
				c.Ok("http-key", key)
				continue
			}
			// the key is in the body: the handler itself has to ask
			c.handlerKey(last, key, mut)
		}
	}
	c.Min("http-writable", 5)
	c.Min("http-normal", 5)
	c.Min("http-key", 4)
	c.ownershipRule()
}

func httpKnown(m string) bool { return m == strings.ToUpper(m) }

// readsRecords: the RPC answers from the record store by key.
func (c *Ctx) readsRecords(fn *ssa.Function) bool {
	for f := range c.E.From(fn) {
		if strings.HasPrefix(pkgPathOf(f), msRepoPkg) {
			return true
		}
	}
	return false
}

// midGuards: what a middleware has established whenever the next handler can run.
func (c *Ctx) midGuards(mid *Term, method string) map[string]bool {
	fn := c.E.baseFn(mid)
	if fn == nil || fn.Blocks == nil || !c.P.InRepo(fn) {
		return nil
	}
	var guards map[string]bool
	meet := func(g map[string]bool) {
		if guards == nil {
			guards = g
			return
		}
		for k := range guards {
			if !g[k] {
				delete(guards, k)
			}
		}
	}
	keyOf := func(t *Term) bool {
		t = t.strip()
		return fromCall(t, func(n string) bool { return n == ginPkg+".Context.Param" })
	}
	r := &Rule{MaxDepth: 6}
	r.Init = func(e *Engine, st *State, ps []*Term) { initHTTP(e, fn, st, ps, method) }
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if a, ok := gateCall(x, st, ci); ok {
			return a
		}
		if strings.HasPrefix(ci.Name, ginPkg+".Context.") {
			n := ci.Name[len(ginPkg+".Context."):]
			switch {
			case n == "Next":
				if !st.Has("abort") {
					meet(gatesHeld(x, st, keyOf))
				}
				st.Emit(Event{Kind: "next"})
			case n == "Param":
				st.terms["param:"+ci.Sym.key] = x.E.Res(ci, 0)
			case strings.HasPrefix(n, "Abort"):
				st.Emit(Event{Kind: "abort"})
			}
			return ActOpaque
		}
		return ActDefault
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		x.containsGlobal(st, ci)
		return nil
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if !st.Has("abort") && !st.Has("next") {
			meet(gatesHeld(x, st, keyOf))
		}
	}
	c.HandlerRun(mid, r)
	return guards
}

func initHTTP(e *Engine, fn *ssa.Function, st *State, ps []*Term, method string) {
	for i, p := range fn.Params {
		if p.Type().String() != "*"+ginPkg+".Context" {
			continue
		}
		var rt types.Type
		if ct, ok := deref(p.Type()).Underlying().(*types.Struct); ok {
			for j := 0; j < ct.NumFields(); j++ {
				if ct.Field(j).Name() == "Request" {
					rt = ct.Field(j).Type()
				}
			}
		}
		req := e.Param("httpRequest", rt)
		st.mem[e.fieldAddr(ps[i], "Request")] = req
		st.mem[e.fieldAddr(req, "Method")] = e.T.ConstVal(cstStr(method), types.Typ[types.String])
	}
}

// handlerKey: a handler whose key is not in the path asks for ownership before it calls a changing service.
func (c *Ctx) handlerKey(h *Term, key string, mut map[*ssa.Function]bool) {
	raft := map[*ssa.Function]bool{}
	for f := range mut {
		for n := range c.E.Graph().Ext[f] {
			if strings.HasSuffix(n, ".ApplyRaft") {
				raft[f] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci.Common()), ".ApplyRaft") {
					raft[f] = true
				}
			}
		}
	}
	r := &Rule{MaxDepth: 5}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if a, ok := gateCall(x, st, ci); ok {
			return a
		}
		if ci.Common.IsInvoke() || ci.Fn != nil && strings.HasPrefix(pkgPathOf(ci.Fn), "metaserver/internal/usecase") {
			for _, f := range c.E.callees(ci) {
				if !strings.HasPrefix(pkgPathOf(f), "metaserver/internal/usecase") {
					continue
				}
				if c.reachesAny(f, raft) {
					c.Check(gatesHeld(x, st, nil)["key"], "http-key", key, ci.Site.Pos(), "%s calls %s without having checked that the key belongs to this node", key, ci.Name)
					return ActOpaque
				}
			}
		}
		return ActDefault
	}
	c.HandlerRun(h, r)
}

// ownershipRule: the question every gate asks is answered correctly.
func (c *Ctx) ownershipRule() {
	fn := c.P.FnByName(isKeyFn)
	if fn == nil {
		c.Bad("ownership", "IsKeyOnThisServer", 0, "the ownership check was not found")
		return
	}
	r := &Rule{MaxDepth: 3}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if strings.HasSuffix(ci.Name, ".GetKeyIdentify") {
			st.Emit(Event{Kind: "ident", Call: ci, Args: ci.Args})
			return ActOpaque
		}
		if strings.HasSuffix(ci.Name, ".LeaderID") || strings.HasSuffix(ci.Name, ".SID") {
			st.terms["id:"+ci.Sym.key] = x.E.Res(ci, 0)
			return ActOpaque
		}
		return ActDefault
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if x.Eval(st, res[0]) == No {
			return
		}
		ev := st.Find("ident")
		if ev == nil || x.nilness(st, x.E.ErrRes(ev.Call)) != Yes {
			c.Bad("ownership", "resolved", at.Pos(), "a key is reported as owned although its slot was not resolved")
			return
		}
		c.Ok("ownership", "resolved")
		c.Check(ev.Args[len(ev.Args)-1].strip() == x.E.Param(fn.Params[len(fn.Params)-1].Name(), fn.Params[len(fn.Params)-1].Type()), "ownership", "key", at.Pos(), "the slot is resolved for another key than the one asked about")
		id := x.E.Res(ev.Call, 0)
		// either the answer is a comparison with the resolved owner, or the path took one
		ok := c.ownerEq(res[0], id)
		for f, v := range st.facts {
			if v && c.ownerEq(f, id) {
				ok = true
			}
		}
		c.Check(ok, "ownership", "owner", at.Pos(), "a key is reported as owned although its slot's owner is neither this node nor its leader")
	}
	c.Run(fn, r)
	c.Min("ownership", 2)
}

func (c *Ctx) ownerEq(t, id *Term) bool {
	if t.k != KBin || t.op != "==" {
		return false
	}
	for i := 0; i < 2; i++ {
		o := t.a[1-i].strip()
		if t.a[i].strip() == id && o.call != nil && (strings.HasSuffix(o.call.Name, ".SID") || strings.HasSuffix(o.call.Name, ".LeaderID")) {
			return true
		}
	}
	return false
}
