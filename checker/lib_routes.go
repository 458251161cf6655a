package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ginPkg = "github.com/gin-gonic/gin"

// Route is one registered HTTP route with everything that runs for it, in order.
type Route struct {
	Method, Path string
	Mid, Own     []*Term
	At           ssa.Instruction
	Root         *ssa.Function
	St           *State
}

func (r *Route) Key() string { return r.Method + " " + r.Path }

// flatten lists the members of a slice value built from literals and appends;
// unknown parts come out as they are.
func (x *Exec) flatten(st *State, t *Term) []*Term {
	t = t.strip()
	if t.k == KOther && t.op == "append" {
		return append(x.flatten(st, t.a[0]), x.flatten(st, t.a[1])...)
	}
	if t.k == KOther && t.op == "slice" {
		if e := x.Elems(st, t); len(e) > 0 {
			return e
		}
	}
	if t.k == KConst {
		return nil
	}
	return []*Term{t}
}

func ginRecv(t *Term) *Term {
	t = t.strip()
	for t.k == KFAddr && t.op == "RouterGroup" || t.k == KLoad && t.a[0].k == KFAddr && t.a[0].op == "RouterGroup" {
		if t.k == KLoad {
			t = t.a[0]
		}
		t = t.a[0].strip()
	}
	return t
}

var httpVerbs = map[string]bool{"GET": true, "POST": true, "PUT": true, "DELETE": true, "PATCH": true, "HEAD": true, "OPTIONS": true, "Any": true, "Handle": true, "Match": true}

// GinRoutes explores the functions that build a gin engine and collects its routes.
func (c *Ctx) GinRoutes(pkgPrefix string) []*Route {
	var out []*Route
	for _, root := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(root), pkgPrefix) || root.Parent() != nil {
			continue
		}
		hit := false
		for _, b := range root.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					hit = hit || n == ginPkg+".New" || n == ginPkg+".Default"
				}
			}
		}
		if hit {
			out = append(out, c.ginRoutesOf(root)...)
		}
	}
	return out
}

func (c *Ctx) ginRoutesOf(root *ssa.Function) []*Route {
	var out []*Route
	seen := map[string]bool{}
	tab := map[string]*Term{}
	r := &Rule{MaxDepth: 6, Unroll: 8}
	type group struct {
		prefix string
		mids   []string
	}
	get := func(st *State, t *Term) group {
		v := st.vars["grp:"+ginRecv(t).key]
		p := strings.Split(v, "\x00")
		if v == "" {
			return group{}
		}
		return group{p[0], p[1:]}
	}
	put := func(st *State, t *Term, g group) {
		st.vars["grp:"+ginRecv(t).key] = strings.Join(append([]string{g.prefix}, g.mids...), "\x00")
	}
	add := func(st *State, g *group, hs []*Term) {
		for _, h := range hs {
			st.terms["mid:"+h.key] = h // keeps what it captured
			tab[h.key] = h
			g.mids = append(g.mids, h.key)
		}
	}
	str := func(x *Exec, st *State, t *Term) string {
		if v, ok := x.constOf(st, t); ok && v.Kind() == constant.String {
			return constant.StringVal(v)
		}
		return "?"
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if !strings.HasPrefix(ci.Name, ginPkg+".") {
			return ActDefault
		}
		n := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
		res := func() *Term { return x.E.Res(ci, 0) }
		switch {
		case n == "Use":
			g := get(st, ci.Args[0])
			add(st, &g, x.flatten(st, ci.Args[len(ci.Args)-1]))
			put(st, ci.Args[0], g)
			put(st, res(), g)
		case n == "Group":
			g := get(st, ci.Args[0])
			g.prefix = joinPath(g.prefix, str(x, st, ci.Args[1]))
			g.mids = append([]string(nil), g.mids...)
			add(st, &g, x.flatten(st, ci.Args[len(ci.Args)-1]))
			put(st, res(), g)
		case httpVerbs[n] && len(ci.Args) >= 3:
			g := get(st, ci.Args[0])
			meth, pa := n, ci.Args[1]
			if n == "Handle" && len(ci.Args) == 4 {
				meth, pa = str(x, st, ci.Args[1]), ci.Args[2]
			}
			rt := &Route{Method: meth, Path: joinPath(g.prefix, str(x, st, pa)), At: ci.Site, Root: root, St: st.clone()}
			for _, m := range g.mids {
				rt.Mid = append(rt.Mid, tab[m])
			}
			rt.Own = x.flatten(st, ci.Args[len(ci.Args)-1])
			k := rt.Key()
			for _, h := range append(append([]*Term(nil), rt.Mid...), rt.Own...) {
				k += "|" + h.key
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, rt)
			}
			put(st, res(), g)
		}
		return ActOpaque
	}
	c.Run(root, r)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

func joinPath(a, b string) string {
	s := strings.TrimRight(a, "/") + "/" + strings.TrimLeft(b, "/")
	return strings.TrimRight(s, "/")
}

// HandlerRun explores a handler term (function, method value or closure) as a root.
func (c *Ctx) HandlerRun(h *Term, r *Rule) *Exec {
	h = h.strip()
	fn := c.E.baseFn(h)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	if b := boundTarget(h.fn); b == nil && len(h.a) > 0 {
		binds := h.a
		r.Bind = func(e *Engine, f *ssa.Function) []*Term { return binds }
	}
	return c.Run(fn, r)
}

// RPC is one registered gRPC method.
type RPC struct {
	Service, Name string
	Fn            *ssa.Function
	Inter         []*Term // interceptors that apply, in order
	Stream        bool
	ReqType       types.Type
}

func (r *RPC) Full() string { return "/proto." + r.Service + "/" + r.Name }

var registerRe = regexp.MustCompile(`common/proto/pb\.Register(\w+)Server$`)

// RPCs collects the gRPC services registered in a module and their interceptors.
func (c *Ctx) RPCs(pkgPrefix string) []*RPC {
	var out []*RPC
	for _, root := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(root), pkgPrefix) || root.Parent() != nil {
			continue
		}
		hit := false
		for _, b := range root.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "google.golang.org/grpc.NewServer" {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		var unary, stream []*Term
		seen := map[string]bool{}
		r := &Rule{MaxDepth: 6}
		note := map[string][]*Term{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch ci.Name {
			case "google.golang.org/grpc.ChainUnaryInterceptor", "google.golang.org/grpc.ChainStreamInterceptor",
				"google.golang.org/grpc.UnaryInterceptor", "google.golang.org/grpc.StreamInterceptor":
				note[ci.Sym.key] = x.flatten(st, ci.Args[0])
				return ActOpaque
			case "google.golang.org/grpc.NewServer":
				for _, o := range x.flatten(st, ci.Args[0]) {
					if len(o.a) == 0 || note[o.a[0].key] == nil {
						continue
					}
					l := note[o.a[0].key]
					if strings.Contains(o.a[0].call.Name, "Unary") {
						unary = append(unary, l...)
					} else {
						stream = append(stream, l...)
					}
				}
				return ActOpaque
			}
			if m := registerRe.FindStringSubmatch(ci.Name); m != nil {
				impl := ci.Args[1]
				if impl.k != KIface || impl.typ == nil {
					c.Bad("analysis", "rpc-registration "+m[1], ci.Site.Pos(), "the implementation registered for %s is not known statically", m[1])
					return ActOpaque
				}
				ifn := c.P.TypeByName("common/proto/pb." + m[1] + "Server")
				if ifn == nil {
					return ActOpaque
				}
				it := ifn.Underlying().(*types.Interface)
				for i := 0; i < it.NumMethods(); i++ {
					meth := it.Method(i)
					if !meth.Exported() {
						continue
					}
					fn := c.P.Method(impl.typ, meth.Name())
					if fn == nil || seen[m[1]+"."+meth.Name()] {
						continue
					}
					seen[m[1]+"."+meth.Name()] = true
					rpc := &RPC{Service: m[1], Name: meth.Name(), Fn: fn}
					sig := meth.Type().(*types.Signature)
					rpc.Stream = sig.Results().Len() == 1
					if !rpc.Stream && sig.Params().Len() == 2 {
						rpc.ReqType = sig.Params().At(1).Type()
					}
					out = append(out, rpc)
				}
				return ActOpaque
			}
			return ActDefault
		}
		before := len(out)
		c.Run(root, r)
		for _, rpc := range out[before:] {
			rpc.Inter = unary
			if rpc.Stream {
				rpc.Inter = stream
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Full() < out[j].Full() })
	return out
}
