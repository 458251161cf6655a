package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type acquire struct {
	what   string
	result int
	noErr  bool
}

// external functions that hand out something that must be released
var acquires = map[string]acquire{
	"os.Open":                                        {"file", 0, false},
	"os.OpenFile":                                    {"file", 0, false},
	"os.Create":                                      {"file", 0, false},
	"os.CreateTemp":                                  {"file", 0, false},
	"syscall.Open":                                   {"file", 0, false},
	"golang.org/x/sys/unix.Open":                     {"file", 0, false},
	"github.com/ncw/directio.OpenFile":               {"file", 0, false},
	"net/http.Get":                                   {"response body", 0, false},
	"net/http.Head":                                  {"response body", 0, false},
	"net/http.Post":                                  {"response body", 0, false},
	"net/http.PostForm":                              {"response body", 0, false},
	"net/http.Client.Do":                             {"response body", 0, false},
	"net/http.Client.Get":                            {"response body", 0, false},
	"net/http.Client.Head":                           {"response body", 0, false},
	"net/http.Client.Post":                           {"response body", 0, false},
	"net/http.Client.PostForm":                       {"response body", 0, false},
	"google.golang.org/grpc.Dial":                    {"connection", 0, false},
	"google.golang.org/grpc.DialContext":             {"connection", 0, false},
	"google.golang.org/grpc.NewClient":               {"connection", 0, false},
	"net.Dial":                                       {"connection", 0, false},
	"net.DialTimeout":                                {"connection", 0, false},
	"go.etcd.io/bbolt.Open":                          {"database", 0, false},
	"github.com/dgraph-io/badger/v3.Open":            {"database", 0, false},
	"github.com/dgraph-io/badger/v3.Txn.NewIterator": {"iterator", 0, true},
	"github.com/dgraph-io/badger/v4.Open":            {"database", 0, false},
	"github.com/dgraph-io/badger/v4.Txn.NewIterator": {"iterator", 0, true},
	"mime/multipart.FileHeader.Open":                 {"file", 0, false},
	"os.File.Open":                                   {"file", 0, false},
	"go.etcd.io/etcd/client/v3.New":                  {"etcd client", 0, false},
}

var releaseNames = map[string]bool{"Close": true, "Stop": true, "CloseNow": true, "Release": true}

// passing to one of these hands the resource over
var takesOver = map[string]bool{
	"net/http.NewRequest": true, "net/http.NewRequestWithContext": true,
	"net/http.Server.Serve": true, "google.golang.org/grpc.Server.Serve": true,
}

type resourceUse struct {
	kind, fn string
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return FullName(cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if o, ok := f.Object().(*types.Func); ok {
			return FullName(o)
		}
		return f.String()
	}
	return ""
}

func isThirdPartySkip(p *Prog, fn *ssa.Function) bool { return isGenerated(p, fn) }

func (p *Prog) fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	if fn.Origin() != nil {
		s = fn.Origin().String()
	}
	return s
}

// topFn is the enclosing declared function.
func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		return fn.Origin()
	}
	return fn
}

// resourceRule explores every function that obtains a resource (or calls one
// that hands it one) and checks that each is released, returned or stored on
// every path.
func resourceRule(c *Ctx, rule string, kinds map[string]bool, holders map[string]map[string]bool) {
	roots := map[*ssa.Function]bool{}
	nsites := 0
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isTestMain(fn) || strings.Contains(pkgPathOf(fn)+"/", "/cmd/") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if a, ok := acquires[calleeName(ci.Common())]; ok && (kinds == nil || kinds[a.what]) {
						roots[fn] = true
						nsites++
					} else if _, ok := c.opensReader(ci.Common()); ok && !returnsReader(topFn(fn).Signature) {
						roots[fn] = true
						nsites++
					}
				}
			}
		}
	}
	callers := c.P.Callers()
	doneRoot := map[*ssa.Function]bool{}
	passing := map[*ssa.Function]bool{} // functions that hand what they opened to their callers
	var work []*ssa.Function
	for f := range roots {
		work = append(work, f)
	}
	sortFns(work)
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if doneRoot[fn] {
			continue
		}
		doneRoot[fn] = true
		if passed := c.resourceOne(rule, fn, kinds, holders, passing); passed {
			passing[topFn(fn)] = true
			cs := append([]*ssa.Function(nil), callers[fn]...)
			sortFns(cs)
			work = append(work, cs...)
		}
	}
	c.Count("acquire sites", nsites)
	c.Count("functions explored as owners", len(doneRoot))
}

func isTestMain(fn *ssa.Function) bool { return fn.Name() == "init" && fn.Synthetic != "" }

func sortFns(f []*ssa.Function) {
	sort.Slice(f, func(i, j int) bool {
		if f[i].String() != f[j].String() {
			return f[i].String() < f[j].String()
		}
		return f[i].Pos() < f[j].Pos()
	})
}

// Callers is the static in-repo reverse call graph (closures count as called by their parent).
func (p *Prog) Callers() map[*ssa.Function][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	seen := map[[2]*ssa.Function]bool{}
	add := func(from, to *ssa.Function) {
		k := [2]*ssa.Function{from, to}
		if !seen[k] {
			seen[k] = true
			out[to] = append(out[to], from)
		}
	}
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						add(fn, f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(fn, mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

func (c *Ctx) resourceOne(rule string, root *ssa.Function, kinds map[string]bool, holders map[string]map[string]bool, passing map[*ssa.Function]bool) (returned bool) {
	r := &Rule{MaxDepth: 4}
	reachAcq := c.E.Reaching(func(n string) bool { a, ok := acquires[n]; return ok && (kinds == nil || kinds[a.what]) })
	if root.Parent() != nil {
		// a function literal is its own owner
	}
	owner := !returnsReader(topFn(root).Signature)
	r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool { return ci.Fn != nil }
	release := func(x *Exec, st *State, ci *CallInfo) bool {
		nm := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
		if !releaseNames[nm] || len(ci.Args) == 0 {
			return false
		}
		hit := false
		for k, t := range st.terms {
			if strings.HasPrefix(k, "res:") && ci.Args[0].contains(t) {
				delete(st.terms, k)
				delete(st.vars, k)
				hit = true
			}
		}
		return hit
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if release(x, st, ci) {
			return ActOpaque
		}
		if _, ok := c.opensReader(ci.Common); ok && owner && topFn(ci.Caller) == topFn(root) {
			return ActOpaque
		}
		if strings.HasPrefix(ci.Name, "sync/atomic.") && (strings.HasSuffix(ci.Name, ".Store") || strings.HasSuffix(ci.Name, ".Swap")) && len(ci.Args) > 1 {
			// what it replaces has to be closed
			for k, t := range st.terms {
				if !strings.HasPrefix(k, "res:") || !ci.Args[1].contains(t) {
					continue
				}
				for h, o := range st.terms {
					if strings.HasPrefix(h, "cur:") && st.vars[h] == fmt.Sprint(ci.Args[0].strip().id) {
						st.terms["res:"+h] = o
						st.vars["res:"+h] = "replaced |" + strings.Split(st.vars[k], "|")[1] + "|" + x.E.P.fnKey(ci.Caller)
					}
				}
			}
		}
		if takesOver[ci.Name] || strings.HasPrefix(ci.Name, "sync/atomic.") || strings.HasPrefix(ci.Name, "sync.Map.") || strings.HasPrefix(ci.Name, "sync.Pool.") {
			for k, t := range st.terms {
				for _, a := range ci.Args {
					if a.contains(t) {
						delete(st.terms, k)
						delete(st.vars, k)
					}
				}
			}
		}
		if ci.Fn != nil && x.E.P.InRepo(ci.Fn) && !reachAcq[ci.Fn] && x.E.Weight(ci.Fn) > 12 {
			for k, t := range st.terms {
				if !strings.HasPrefix(k, "res:") {
					continue
				}
				for _, a := range ci.Args {
					if reach(st, a, t) {
						return ActDefault
					}
				}
				if ci.Closure != nil && reach(st, ci.Closure, t) {
					return ActDefault
				}
			}
			return ActOpaque
		}
		// an in-repo callee that will not be entered and receives the resource may keep it
		return ActDefault
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if strings.HasPrefix(ci.Name, "sync/atomic.") && strings.HasSuffix(ci.Name, ".Load") {
			k := fmt.Sprintf("cur:%d", ci.Sym.id)
			st.terms[k], st.vars[k] = x.E.Res(ci, 0), fmt.Sprint(ci.Args[0].strip().id)
			return nil
		}
		a, ok := acquires[ci.Name]
		if !ok && owner {
			a, ok = c.opensReader(ci.Common)
		}
		ok = ok && (topFn(ci.Caller) == topFn(root) || passing[topFn(ci.Caller)])
		if ok && (kinds == nil || kinds[a.what]) {
			t := x.E.Res(ci, a.result)
			k := fmt.Sprintf("res:%d", ci.Sym.id)
			st.terms[k] = t
			st.vars[k] = a.what + "|" + ci.Name + "|" + x.E.P.fnKey(ci.Caller)
			if !a.noErr {
				// a failed acquisition hands out nothing
				s2 := st.clone()
				e := x.E.ErrRes(ci)
				nilp := x.E.T.bin("==", e, x.E.T.Nil(), types.Typ[types.Bool])
				x.Assume(st, nilp, true)
				x.Assume(s2, nilp, false)
				some := func(v *Term) {
					x.Assume(st, x.E.T.bin("==", v, x.E.T.Nil(), types.Typ[types.Bool]), false)
				}
				some(t)
				if a.what == "response body" {
					if b := x.field(st, t, "Body"); b != nil {
						some(b)
					}
				}
				delete(s2.terms, k)
				delete(s2.vars, k)
				return []*State{st, s2}
			}
			return nil
		}
		// in-repo callee left opaque (recursion, interface with several implementations) may take ownership
		if ci.Fn != nil && isGenerated(x.E.P, ci.Fn) {
			return nil // a client uses its connection, it does not close it
		}
		if ci.Fn != nil && x.E.P.InRepo(ci.Fn) || ci.Common.IsInvoke() && ci.Obj != nil && x.E.P.inRep[ci.Obj.Pkg()] || strings.HasPrefix(ci.Name, "dynamic:") {
			for k, t := range st.terms {
				for _, a := range ci.Args {
					if a.contains(t) {
						delete(st.terms, k)
						delete(st.vars, k)
					}
				}
			}
		}
		return nil
	}
	r.OnAppend = func(x *Exec, st *State, args []*Term, in ssa.Instruction) {
		// what is collected is closed element by element
		for k, t := range st.terms {
			if !strings.HasPrefix(k, "res:") || len(args) < 2 || !reach(st, args[1], t) {
				continue
			}
			info := strings.Split(st.vars[k], "|")
			delete(st.terms, k)
			delete(st.vars, k)
			if call, ok := in.(*ssa.Call); ok {
				el := elemType(call.Type())
				c.Check(c.closesElements(topFn(in.Parent()), el, 2) || returnsSlice(topFn(in.Parent()), el), rule, info[2]+" collected "+info[0]+" from "+short(info[1]), in.Pos(),
					"%s collects what it obtains from %s and never closes the elements", topFn(in.Parent()), info[1])
			}
		}
	}
	r.OnSend = func(x *Exec, st *State, ch, val *Term, in ssa.Instruction) {
		for k, t := range st.terms {
			if strings.HasPrefix(k, "res:") && reach(st, val, t) {
				delete(st.terms, k)
				delete(st.vars, k)
			}
		}
	}
	r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		// what is put into something that lives on is its to close
		o := baseOf(addr)
		if addr.k == KLookup {
			o = baseOf(addr.a[0].strip())
		}
		if o.k == KParam || o.k == KGlobal || o.k == KLoad {
			for k, t := range st.terms {
				if strings.HasPrefix(k, "res:") && reach(st, val, t) {
					delete(st.terms, k)
					delete(st.vars, k)
				}
			}
		}
		if holders == nil {
			return
		}
		for k, t := range st.terms {
			if strings.HasPrefix(k, "res:") && val.contains(t) && addr.k == KFAddr {
				tn := typeNameOf(elemOf(addr.a[0].typ))
				if tn != "" {
					if holders[tn] == nil {
						holders[tn] = map[string]bool{}
					}
					holders[tn][addr.op] = true
				}
			}
		}
	}
	sites := map[string]bool{}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		for k, t := range st.terms {
			if !strings.HasPrefix(k, "res:") {
				continue
			}
			info := strings.Split(st.vars[k], "|")
			key := info[2] + " " + info[0] + " from " + short(info[1])
			if escaped(st, t, res) {
				for _, q := range res {
					if reach(st, q, t) {
						returned = true
					}
				}
				c.Ok(rule, key)
				continue
			}
			_ = sites
			pos := at.Pos()
			if len(t.a) > 0 && t.a[0].site != nil {
				pos = t.a[0].site.Pos()
			}
			c.Bad(rule, key, pos, "the %s obtained from %s is still open when %s returns at %s, and nothing else holds it", info[0], info[1], root, c.Pos(at.Pos()))
		}
	}
	c.Run(root, r)
	// sites that were never left open are discharged
	for _, b := range root.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				a, ok := acquires[calleeName(ci.Common())]
				if !ok && owner {
					a, ok = c.opensReader(ci.Common())
				}
				if ok && (kinds == nil || kinds[a.what]) {
					c.Ok(rule, c.P.fnKey(root)+" "+a.what+" from "+short(calleeName(ci.Common())))
				}
			}
		}
	}
	return
}

func typeNameOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		pk := ""
		if n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg().Path() + "."
		}
		return pk + n.Obj().Name()
	}
	return ""
}

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// reach: is t reachable from q through memory?
func reach(st *State, q, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(q *Term) bool
	f = func(q *Term) bool {
		if q == nil || seen[q] {
			return false
		}
		seen[q] = true
		if q.contains(t) {
			return true
		}
		hit := false
		q.walk(func(s *Term) {
			if cl := callOf(s); !hit && cl != nil && s.k == KRes && cl.Fn != nil && strings.HasPrefix(cl.Fn.Name(), "New") && strings.HasSuffix(cl.Fn.Name(), "Client") {
				for _, a := range cl.Args {
					hit = hit || f(a)
				}
			}
			if hit || (s.k != KAlloc && s.k != KFAddr && s.k != KIAddr) {
				return
			}
			for a, v := range st.mem {
				r := a
				for r.k == KFAddr || r.k == KIAddr {
					if r == s {
						break
					}
					r = r.a[0]
				}
				if (a == s || r == s) && f(v) {
					hit = true
					return
				}
			}
		})
		return hit
	}
	return f(q)
}

// escaped: the value is returned, or stored where the caller can find it.
func escaped(st *State, t *Term, res []*Term) bool {
	for _, q := range res {
		if reach(st, q, t) {
			return true
		}
	}
	for a, v := range st.mem {
		if !reach(st, v, t) {
			continue
		}
		r := a
		for r.k == KFAddr || r.k == KIAddr {
			r = r.a[0]
		}
		if r.k != KAlloc {
			return true // stored through a parameter, a loaded pointer or a package variable
		}
	}
	return false
}

// opensReader: a function of the repository that hands its caller something
// to read from and to close.
func (c *Ctx) opensReader(cc *ssa.CallCommon) (acquire, bool) {
	var pkg *types.Package
	if cc.IsInvoke() {
		pkg = cc.Method.Pkg()
	} else if f := cc.StaticCallee(); f != nil && f.Pkg != nil {
		pkg = f.Pkg.Pkg
	}
	if pkg == nil || !c.P.inRep[pkg] {
		return acquire{}, false
	}
	rs := cc.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if isReadCloser(rs.At(i).Type()) {
			return acquire{"stream", i, !isErrorType(rs.At(rs.Len() - 1).Type())}, true
		}
	}
	return acquire{}, false
}

func returnsReader(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isReadCloser(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func isReadCloser(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Close") != nil && ms.Lookup(nil, "Read") != nil
}

// closesElements: the function, its literals, or what they call with such a
// list close the elements of a list of that type.
func (c *Ctx) closesElements(fn *ssa.Function, el types.Type, depth int) bool {
	for _, f := range append(c.sorted(c.literals(fn)), fn) {
		hit := false
		c.calls(f, func(in ssa.CallInstruction, name string) {
			cc := in.Common()
			var recv ssa.Value
			if cc.IsInvoke() {
				recv = cc.Value
			} else if len(cc.Args) > 0 {
				recv = cc.Args[0]
			}
			nm := name[strings.LastIndex(name, ".")+1:]
			if recv != nil && releaseNames[nm] && fromElement(recv, el, map[ssa.Value]bool{}) {
				hit = true
			}
			g := cc.StaticCallee()
			if hit || g == nil || depth == 0 || !c.P.InRepo(g) {
				return
			}
			for i, a := range cc.Args {
				if fromElement(a, el, map[ssa.Value]bool{}) && i < len(g.Params) && c.closesParam(g, i) {
					hit = true
				}
				if s, ok := a.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), el) && c.closesElements(c.P.base(g), el, depth-1) {
					hit = true
				}
			}
		})
		if hit {
			return true
		}
	}
	return false
}

// closesParam: the function closes what it gets in that place.
func (c *Ctx) closesParam(g *ssa.Function, i int) bool {
	hit := false
	c.calls(g, func(in ssa.CallInstruction, name string) {
		cc := in.Common()
		var recv ssa.Value
		if cc.IsInvoke() {
			recv = cc.Value
		} else if len(cc.Args) > 0 {
			recv = cc.Args[0]
		}
		if recv != nil && releaseNames[name[strings.LastIndex(name, ".")+1:]] && stripValue(recv) == ssa.Value(g.Params[i]) {
			hit = true
		}
	})
	return hit
}

func stripValue(v ssa.Value) ssa.Value {
	for {
		switch w := v.(type) {
		case *ssa.MakeInterface:
			v = w.X
		case *ssa.ChangeInterface:
			v = w.X
		case *ssa.ChangeType:
			v = w.X
		case *ssa.TypeAssert:
			v = w.X
		case *ssa.Extract:
			v = w.Tuple
		default:
			return v
		}
	}
}

// fromElement: the value comes out of a list of such elements.
func fromElement(v ssa.Value, el types.Type, seen map[ssa.Value]bool) bool {
	v = stripValue(v)
	if seen[v] {
		return false
	}
	seen[v] = true
	switch w := v.(type) {
	case *ssa.UnOp:
		if ia, ok := w.X.(*ssa.IndexAddr); ok {
			return types.Identical(w.Type(), el) && ia != nil
		}
		if al, ok := w.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && fromElement(s.Val, el, seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range w.Edges {
			if fromElement(e, el, seen) {
				return true
			}
		}
	case *ssa.Next:
		return true
	}
	return false
}

func returnsSlice(fn *ssa.Function, el types.Type) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if s, ok := rs.At(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), el) {
			return true
		}
	}
	return false
}

func baseOf(a *Term) *Term { return root(a) }
