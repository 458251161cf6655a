package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "The loop that follows the registered servers, the loop that keeps the lease, what is written to the registry and how servers start are explored on every path.", checkC30)
}

func checkC30(c *Ctx) {
	c.Rule("follow", "a service is followed from the revision of the list that was read, and read again whenever that ends")
	c.Rule("listed", "what the registry lists is taken over, what it does not list any more is dropped")
	c.Rule("change", "a server that registers is added and one that goes is removed, for every change delivered")
	c.Rule("closed", "following and renewing go on until they are closed, and end then")
	c.Rule("lease", "every lease granted is told to all subscribers and kept alive")
	c.Rule("key", "a server registers, under the lease, where it is looked for, and removes that same key")
	c.Rule("role", "a server that changes its role leaves no key of the old one behind")
	c.Rule("start", "a server that is registered keeps its lease and unregisters when it stops")
	m := &registryRule{c: c, rd: &reads{&files{c}, map[string][]string{}}}
	m.follow()
	m.renew()
	m.register()
	m.roles()
	m.starts()
	c.Min("follow", 3)
	c.Min("listed", 3)
	c.Min("change", 3)
	c.Min("closed", 3)
	c.Min("lease", 3)
	c.Min("key", 3)
	c.Min("role", 2)
	c.Min("start", 3)
}

type registryRule struct {
	c      *Ctx
	rd     *reads
	prefix [][]string // what services are looked for under
}

const (
	etcdPkg     = "go.etcd.io/etcd/client/v3."
	registryPkg = "common/registry"
)

func etcdCall(n, method string) bool {
	return strings.HasPrefix(n, etcdPkg) && strings.HasSuffix(n, "."+method)
}

// started lists the functions run as goroutines that reach a call of etcd's method.
func (m *registryRule) started(method string) []*ssa.Function {
	c := m.c
	reach := c.E.StaticReaching(func(n string) bool { return etcdCall(n, method) })
	set := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				f := g.Call.StaticCallee()
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					f, _ = mc.Fn.(*ssa.Function)
				}
				if f != nil && reach[f] && strings.HasPrefix(pkgPathOf(f), registryPkg) {
					set[f] = true
				}
			}
		}
	}
	return c.sorted(set)
}

// isDone: the value is the channel that is closed with a context.
func isDone(v ssa.Value) bool {
	ci, ok := v.(*ssa.Call)
	return ok && calleeName(ci.Common()) == "context.Context.Done"
}

// life lets a rule know about the end of a context: events "closed" and "asked".
func (m *registryRule) life(r *Rule) {
	onCall, onBranch, onInstr := r.OnCall, r.OnBranch, r.OnInstr
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case "context.Context.Err":
			st.Drop("asked")
			st.Emit(Event{Kind: "asked", Call: ci, Val: ci.Sym})
			return ActOpaque
		case "context.Context.Done":
			st.Drop("asked")
			st.Emit(Event{Kind: "asked", Call: ci, Val: ci.Sym})
			return ActPure
		}
		return onCall(x, st, ci)
	}
	r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" && isDone(u.X) {
			st.Emit(Event{Kind: "closed"})
		}
		if onInstr != nil {
			onInstr(x, st, in)
		}
	}
	r.OnBranch = func(x *Exec, st *State) {
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind != "asked" || ev.Call.Name != "context.Context.Err" {
				continue
			}
			switch x.nilness(st, x.E.Res(ev.Call, 0)) {
			case No:
				st.Emit(Event{Kind: "closed"})
			case Yes:
				st.Drop("closed")
			}
			break
		}
		for f, v := range st.facts {
			if f.k != KBin || f.op != "==" || !v || past(f) {
				continue
			}
			a, n := f.a[0], f.a[1]
			if a.k == KConst {
				a, n = n, a
			}
			if a.k != KRes || a.op != "0" || n.k != KConst {
				continue
			}
			sel, ok := a.a[0].site.(*ssa.Select)
			if !ok {
				continue
			}
			if i, ok := constInt(n.cst); ok && i >= 0 && int(i) < len(sel.States) && sel.States[i].Dir == types.RecvOnly && isDone(sel.States[i].Chan) {
				st.Emit(Event{Kind: "closed"})
			}
		}
		if onBranch != nil {
			onBranch(x, st)
		}
	}
}

// elemOfField: an element of the slice in the field; gives the slice and the element.
func elemOfField(t *Term, field string) (s, elem *Term) {
	var find func(t *Term)
	find = func(t *Term) {
		if s != nil || t == nil {
			return
		}
		if b, i := elemAt(t); b != nil && i != nil && lastField(b) == field {
			s, elem = b, t
			return
		}
		for _, a := range t.a {
			find(a)
		}
	}
	find(t)
	return
}

// lists: the map is the one of a list of servers.
// listOf says that a term is looked up in a map of server lists.
func listOf(t *Term) bool {
	if t.k != KLookup || t.a[0].typ == nil {
		return false
	}
	m, ok := t.a[0].typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "data" {
			return true
		}
	}
	return false
}

func lists(t *Term) bool { return hasField(t.strip(), "data") }

func (m *registryRule) follow() {
	c := m.c
	for _, fn := range m.started("Watch") {
		key := methodKey(fn)
		pos := fn.Pos()
		r := &Rule{LoopEvents: true, Wide: 8}
		// items: what is looked at of a slice; done: what became of it
		item := func(st *State, t *Term) *Event {
			for i := range st.trace {
				if ev := &st.trace[i]; (ev.Kind == "item" || ev.Kind == "seen") && ev.Val == t {
					return ev
				}
			}
			return nil
		}
		did := func(st *State, idx, s *Term) { st.Emit(Event{Kind: "did", Val: idx, Args: []*Term{s}}) }
		isDid := func(st *State, idx, s *Term) bool {
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "did" && ev.Val == idx && ev.Args[0] == s {
					return true
				}
			}
			return false
		}
		kinds := map[string]int64{}
		if pk := c.P.ByPth["go.etcd.io/etcd/api/v3/mvccpb"]; pk != nil {
			for _, n := range []string{"PUT", "DELETE"} {
				if k, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok {
					kinds[n], _ = constant.Int64Val(k.Val())
				}
			}
		}
		if len(kinds) == 0 {
			kinds = map[string]int64{"PUT": 0, "DELETE": 1}
		}
		ofItem := map[string]bool{"item": true, "did": true, "isPUT": true, "notPUT": true, "isDELETE": true, "notDELETE": true}
		was := func(st *State, idx, s *Term, kind string) Tri {
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Val == idx && len(ev.Args) == 1 && ev.Args[0] == s {
					switch ev.Kind {
					case "is" + kind:
						return Yes
					case "not" + kind:
						return No
					}
				}
			}
			return Unknown
		}
		is := func(x *Exec, st *State, elem *Term, kind string) Tri {
			t := x.field(st, elem, "Type")
			if in := x.field(st, elem, "Event"); t == nil && in != nil {
				t = x.field(st, in, "Type")
			}
			if t == nil {
				return Unknown
			}
			if v, ok := x.constOf(st, t); ok {
				n, _ := constInt(v)
				return tri(n == kinds[kind])
			}
			return x.Eval(st, x.E.T.bin("==", t, x.E.T.ConstVal(constant.MakeInt64(kinds[kind]), t.typ), types.Typ[types.Bool]))
		}
		// leave: what was begun must be finished
		settled := func(x *Exec, st *State, s *Term, idx *Term) {
			for i := 0; i < len(st.trace); i++ {
				ev := st.trace[i]
				if ev.Kind != "item" || ev.Args[0] != s && s != nil || ev.Val == idx && idx != nil || isDid(st, ev.Val, ev.Args[0]) {
					continue
				}
				what := lastField(ev.Args[0])
				if what == "Kvs" {
					c.Check(st.Has("failed"), "listed", key+" entries", pos, "%s does not take over every server that is registered", key)
				} else {
					none := was(st, ev.Val, ev.Args[0], "PUT") == No && was(st, ev.Val, ev.Args[0], "DELETE") == No
					c.Check(none, "change", key+" events", pos, "%s does not apply every change it is told of", key)
				}
			}
		}
		forget := func(st *State, s *Term) {
			kept := st.trace[:0:0]
			for _, ev := range st.trace {
				if ofItem[ev.Kind] && ev.Args[0] == s {
					if ev.Kind != "item" || past(ev.Val) {
						continue
					}
					ev.Kind = "seen"
					ev.setKey()
				}
				kept = append(kept, ev)
			}
			st.trace = kept
		}
		end := func(x *Exec, st *State) {
			settled(x, st, nil, nil)
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind != "item" && ev.Kind != "seen" {
					continue
				}
				all := false
				for j := range st.trace {
					if o := &st.trace[j]; o.Kind == "all" && o.Val == ev.Args[0] {
						all = true
					}
				}
				if what := lastField(ev.Args[0]); what == "Kvs" {
					c.Check(all, "listed", key+" all", pos, "%s leaves servers out that are registered", key)
				} else {
					c.Check(all, "change", key+" all", pos, "%s leaves changes out that it is told of", key)
				}
			}
			if st.Has("stale") {
				c.Bad("listed", key+" gone", pos, "%s keeps servers that are not registered any more", key)
			}
			for k := range ofItem {
				st.Drop(k)
			}
			st.Drop("all")
			st.Drop("seen")
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case etcdCall(ci.Name, "Get"):
				end(x, st)
				if st.Has("round") {
					c.Check(st.Has("asked") && !st.Has("closed"), "closed", key+" asks", ci.Site.Pos(), "%s goes on after it was closed", key)
				}
				for _, k := range []string{"round", "asked", "read", "list", "swept", "failed"} {
					st.Drop(k)
				}
				st.Emit(Event{Kind: "round"})
				st.Emit(Event{Kind: "read", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{ci.Args[2], x.E.Res(ci, 0)}})
				m.prefix = append(m.prefix, m.parts(x, st, ci.Args[2]))
				c.Check(m.option(x, st, ci.Args[3], "WithPrefix") != nil, "listed", key+" prefix", ci.Site.Pos(), "%s does not read the servers of the service", key)
				return ActOpaque
			case etcdCall(ci.Name, "Watch"):
				end(x, st)
				rd := st.Last("list")
				c.Check(rd != nil, "follow", key+" read", ci.Site.Pos(), "%s watches without the list it starts from", key)
				c.Check(rd == nil || st.Has("swept"), "listed", key+" swept", ci.Site.Pos(), "%s does not drop the servers that are not registered any more", key)
				c.Check(m.option(x, st, ci.Args[3], "WithPrefix") != nil, "follow", key+" prefix", ci.Site.Pos(), "%s does not watch the servers of the service", key)
				m.prefix = append(m.prefix, m.parts(x, st, ci.Args[2]))
				if rd != nil {
					c.Check(rd.Args[0] == ci.Args[2].strip(), "follow", key+" same", ci.Site.Pos(), "%s watches another key than the one it read", key)
					ok := false
					if rev := m.option(x, st, ci.Args[3], "WithRev"); rev != nil {
						at := callOf(rev).Args[0]
						base, k := offset(at)
						ok = lastField(base) == "Revision" && base.contains(rd.Args[1]) && (k == 0 || k == 1)
					}
					c.Check(ok, "follow", key+" revision", ci.Site.Pos(), "%s misses what changes between reading the list and watching it", key)
				}
				c.Check(m.bound(x, ci.Args[1]), "closed", key+" watch", ci.Site.Pos(), "%s watches on after it was closed", key)
				st.Drop("list")
				st.Drop("swept")
				return ActOpaque
			case strings.HasPrefix(ci.Name, etcdPkg+"With"):
				return ActOpaque
			case strings.HasPrefix(ci.Name, etcdPkg+"WatchResponse."), strings.HasPrefix(ci.Name, etcdPkg+"Event."):
				return ActPure
			case ci.Name == "builtin.delete" && lists(ci.Args[0]):
				k := ci.Args[1].strip()
				for i := 0; i < len(st.trace); i++ {
					if ev := st.trace[i]; ev.Kind == "stale" && ev.Val == k {
						st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
						c.Ok("listed", key+" drops")
						return ActDefault
					}
				}
				s, el := elemOfField(k, "Events")
				if s == nil {
					c.Bad("listed", key+" drops", ci.Site.Pos(), "%s drops a server that may be registered", key)
					return ActDefault
				}
				_, idx := elemAt(el)
				c.Check(lastField(k) == "Key" && was(st, idx, s, "PUT") != Yes && was(st, idx, s, "DELETE") != No && (was(st, idx, s, "PUT") == No || was(st, idx, s, "DELETE") == Yes),
					"change", key+" removal", ci.Site.Pos(), "%s drops a server that registers", key)
				did(st, idx, s)
			case strings.HasPrefix(ci.Name, "github.com/sirupsen/"):
				return ActPure
			}
			return ActDefault
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k == KFAddr && addr.op == "data" && !isNil(val) {
				if st.Has("list") {
					st.Drop("swept")
					st.Emit(Event{Kind: "swept"})
				}
				return
			}
			if addr.k != KLookup || len(addr.a) < 2 {
				return
			}
			k := addr.a[1].strip()
			if s, el := elemOfField(k, "Kvs"); s != nil {
				_, idx := elemAt(el)
				vs, vel := elemOfField(val, "Kvs")
				c.Check(lastField(k) == "Key" && vs == s && vel == el && lastField(val.strip()) == "Value", "listed", key+" taken", in.Pos(), "%s takes over a server under another key or address", key)
				did(st, idx, s)
			}
			if s, el := elemOfField(k, "Events"); s != nil && lists(addr.a[0]) {
				_, idx := elemAt(el)
				vs, vel := elemOfField(val, "Events")
				ok := lastField(k) == "Key" && vs == s && vel == el && lastField(val.strip()) == "Value" && was(st, idx, s, "DELETE") != Yes && was(st, idx, s, "PUT") != No &&
					(was(st, idx, s, "DELETE") == No || was(st, idx, s, "PUT") == Yes)
				c.Check(ok, "change", key+" addition", in.Pos(), "%s adds a server that goes, or another one than the one that registers", key)
				did(st, idx, s)
			}
		}
		r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.Range:
				if fieldOfValue(v.X) == "data" && st.Has("list") {
					st.Drop("swept")
					st.Emit(Event{Kind: "swept"})
				}
			case *ssa.Next:
				st.Drop("foreign")
				if st.Has("stale") {
					c.Bad("listed", key+" gone", pos, "%s keeps servers that are not registered any more", key)
					st.Drop("stale")
				}
			case *ssa.UnOp:
				if v.Op.String() == "<-" {
					end(x, st)
				}
			case *ssa.Select:
				end(x, st)
			}
		}
		r.OnBranch = func(x *Exec, st *State) {
			if rd := st.Last("read"); rd != nil {
				switch x.nilness(st, rd.Val) {
				case Yes:
					ev := Event{Kind: "list", Args: []*Term{rd.Args[0].strip(), rd.Args[1]}}
					st.Drop("read")
					st.Emit(ev)
				case No:
					st.Drop("read")
				}
			}
			for _, f := range sortedFacts(st) {
				if past(f) {
					continue
				}
				v := st.facts[f]
				switch {
				case f.k == KBin && f.op == "<" && isLen(f.a[1]):
					s := f.a[1].a[0].strip()
					if n := lastField(s); n != "Kvs" && n != "Events" {
						continue
					}
					if !v {
						st.Emit(Event{Kind: "all", Val: s})
						continue
					}
					if item(st, f.a[0]) == nil {
						settled(x, st, s, f.a[0])
						forget(st, s)
						st.Emit(Event{Kind: "item", Val: f.a[0], Args: []*Term{s}})
					}
				case f.k == KRes && f.op == "1" && !v && listOf(f.a[0]):
					// a service that is not followed has no list
					for _, ev := range append([]Event(nil), st.trace...) {
						if ev.Kind == "item" {
							did(st, ev.Val, ev.Args[0])
						}
					}
				case f.k == KBin && f.op == "==" && v && f.a[0].strip().k == KLookup && isNil(f.a[1]):
					// there is no list to remove anything from
					for _, ev := range append([]Event(nil), st.trace...) {
						if ev.Kind == "item" && (was(st, ev.Val, ev.Args[0], "DELETE") == Yes || was(st, ev.Val, ev.Args[0], "PUT") == No) {
							did(st, ev.Val, ev.Args[0])
						}
					}
				case f.k == KRes && f.op == "1" && f.a[0].k == KLookup && !v && !lists(f.a[0].a[0]) && !listOf(f.a[0]) && st.Has("swept"):
					k := f.a[0].a[1].strip()
					known := false
					for i := range st.trace {
						known = known || (st.trace[i].Kind == "stale" || st.trace[i].Kind == "foreign") && st.trace[i].Val == k
					}
					if !known {
						st.Emit(Event{Kind: "stale", Val: k})
					}
				case f.k == KPure && f.op == "strings.HasPrefix" && !v:
					k := f.a[0].strip()
					for i := 0; i < len(st.trace); i++ {
						if st.trace[i].Kind == "stale" && st.trace[i].Val == k {
							st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
							i--
						}
					}
					st.Emit(Event{Kind: "foreign", Val: k})
				}
			}
		}
		learn := r.OnBranch
		r.OnBranch = func(x *Exec, st *State) {
			learn(x, st)
			for _, ev := range append([]Event(nil), st.trace...) {
				if ev.Kind != "item" || lastField(ev.Args[0]) != "Events" {
					continue
				}
				el := x.elemTerm(st, ev.Args[0], ev.Val)
				if el == nil {
					continue
				}
				for _, k := range sortedKeys(kinds) {
					switch is(x, st, el, k) {
					case Yes:
						st.Emit(Event{Kind: "is" + k, Val: ev.Val, Args: ev.Args})
					case No:
						st.Emit(Event{Kind: "not" + k, Val: ev.Val, Args: ev.Args})
					}
				}
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			end(x, st)
			c.Check(st.Has("closed"), "closed", key+" ends", at.Pos(), "%s stops following the servers although it was not closed", key)
		}
		m.life(r)
		c.Run(fn, r)
	}
}

// offset splits a sum into what is added to and a constant.
func offset(t *Term) (*Term, int64) {
	t = t.strip()
	if t.k == KBin && (t.op == "+" || t.op == "-") && t.a[1].k == KConst {
		if n, ok := constInt(t.a[1].cst); ok {
			if t.op == "-" {
				n = -n
			}
			b, k := offset(t.a[0])
			return b, k + n
		}
	}
	return t, 0
}

// past: the term is about an earlier round of a loop.
func past(t *Term) bool {
	hit := false
	t.walk(func(s *Term) { hit = hit || s.k == KSym && strings.HasPrefix(s.op, "old:") })
	return hit
}

// sortedFacts lists what is known, in a fixed order.
func sortedFacts(st *State) []*Term {
	out := make([]*Term, 0, len(st.facts))
	for f := range st.facts {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// fieldOfValue names the field a value was read from.
func fieldOfValue(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	return structField(fa.X.Type(), fa.Field)
}

// elemTerm is the element of the slice at the index.
func (x *Exec) elemTerm(st *State, s, i *Term) *Term {
	if s.typ == nil {
		return nil
	}
	sl, ok := s.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return x.load0(st, x.E.T.mk(Term{k: KIAddr, a: []*Term{s, i}, typ: types.NewPointer(sl.Elem())}), sl.Elem())
}

// option finds an option of a request.
func (m *registryRule) option(x *Exec, st *State, opts *Term, name string) *Term {
	for _, o := range x.flatten(st, opts) {
		if ci := callOf(o); ci != nil && etcdCall(ci.Name, name) {
			return o
		}
	}
	return nil
}

// bound: the context ends when something else says so.
func (m *registryRule) bound(x *Exec, t *Term) bool {
	for t != nil {
		t = t.strip()
		if t.k == KIface {
			t = t.a[0].strip()
		}
		name, args := "", []*Term(nil)
		switch ci := callOf(t); {
		case ci != nil:
			name, args = ci.Name, ci.Args
		case t.k == KPure:
			name, args = t.op, t.a
		}
		switch name {
		case "context.Background", "context.TODO":
			return false
		case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithValue", "context.WithCancelCause":
			t = args[0]
		default:
			return true
		}
	}
	return true
}

// parts spells a key: what is fixed, and the kinds of what is not.
func (m *registryRule) parts(x *Exec, st *State, key *Term) []string {
	var out []string
	for _, p := range m.rd.pieces(x, st, key) {
		if p.k == KConst {
			if n := len(out); n > 0 && !strings.HasPrefix(out[n-1], "<") {
				out[n-1] += textOf(p)
			} else {
				out = append(out, textOf(p))
			}
			continue
		}
		out = append(out, "<"+strings.ToLower(m.named(p))+">")
	}
	return out
}

func (m *registryRule) named(p *Term) string {
	p = p.strip()
	if f := lastField(p); f != "" {
		return f
	}
	if ci := callOf(p); ci != nil {
		return ci.Name[strings.LastIndex(ci.Name, ".")+1:]
	}
	return "?"
}

func (m *registryRule) renew() {
	c := m.c
	for _, fn := range m.started("Grant") {
		key := methodKey(fn)
		pos := fn.Pos()
		r := &Rule{LoopEvents: true, Wide: 8}
		subs := func(t *Term) bool {
			if t == nil || t.typ == nil {
				return false
			}
			sl, ok := t.typ.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			sig, ok := sl.Elem().Underlying().(*types.Signature)
			return ok && sig.Params().Len() == 1
		}
		told := func(st *State) {
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind != "item" {
					continue
				}
				ok := false
				for j := range st.trace {
					ok = ok || st.trace[j].Kind == "did" && st.trace[j].Val == ev.Val
				}
				c.Check(ok, "lease", key+" subscriber", pos, "%s does not tell every subscriber of the new lease", key)
			}
		}
		end := func(st *State, at ssa.Instruction) {
			if st.Has("lease") {
				told(st)
				c.Check(st.Has("all"), "lease", key+" told", pos, "%s does not tell the subscribers of a new lease", key)
				c.Check(st.Has("kept"), "lease", key+" kept", pos, "%s does not hand out the new lease", key)
				c.Check(st.Has("alive"), "lease", key+" alive", pos, "%s does not keep the new lease alive", key)
			}
			c.Check(!st.Has("locked"), "lease", key+" lock", at.Pos(), "%s waits with the lock held", key)
		}
		lease := func(x *Exec, st *State, t *Term) bool {
			ev := st.Last("lease")
			return ev != nil && lastField(t) == "ID" && t.contains(ev.Val)
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case etcdCall(ci.Name, "Grant"):
				end(st, ci.Site)
				if st.Has("round") {
					c.Check(st.Has("asked") && !st.Has("closed"), "closed", key+" asks", ci.Site.Pos(), "%s asks for another lease after it was closed", key)
				}
				for _, k := range []string{"round", "asked", "grant", "lease", "item", "did", "seen", "all", "kept", "alive"} {
					st.Drop(k)
				}
				st.Emit(Event{Kind: "round"})
				st.Emit(Event{Kind: "grant", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{x.E.Res(ci, 0)}})
				return ActOpaque
			case etcdCall(ci.Name, "KeepAlive"):
				c.Check(lease(x, st, ci.Args[2]), "lease", key+" same", ci.Site.Pos(), "%s keeps another lease alive than the one it was granted", key)
				c.Check(m.bound(x, ci.Args[1]), "closed", key+" keeps", ci.Site.Pos(), "%s keeps the lease after it was closed", key)
				c.Check(!st.Has("locked"), "lease", key+" lock", ci.Site.Pos(), "%s waits with the lock held", key)
				st.Emit(Event{Kind: "alive"})
				return ActOpaque
			case etcdCall(ci.Name, "KeepAliveOnce"):
				c.Bad("lease", key+" once", ci.Site.Pos(), "%s keeps the lease alive only once", key)
			case etcdCall(ci.Name, "Revoke"):
				c.Check(st.Has("closed"), "lease", key+" revoke", ci.Site.Pos(), "%s gives the lease back although it was not closed", key)
				return ActOpaque
			case ci.Name == "sync.RWMutex.Lock" || ci.Name == "sync.Mutex.Lock":
				st.Emit(Event{Kind: "locked"})
			case ci.Name == "sync.RWMutex.Unlock" || ci.Name == "sync.Mutex.Unlock":
				st.Drop("locked")
			case ci.Name == "time.Sleep":
				c.Check(!st.Has("locked"), "lease", key+" lock", ci.Site.Pos(), "%s waits with the lock held", key)
			case strings.HasPrefix(ci.Name, "github.com/sirupsen/"):
				return ActPure
			case strings.HasPrefix(ci.Name, "dynamic:") && len(ci.Args) == 1 && typeNameOf(ci.Args[0].typ) == etcdPkg+"LeaseID":
				c.Check(lease(x, st, ci.Args[0]), "lease", key+" value", ci.Site.Pos(), "%s tells a subscriber of another lease than the new one", key)
				for i := range st.trace {
					if ev := st.trace[i]; ev.Kind == "item" {
						st.Emit(Event{Kind: "did", Val: ev.Val})
					}
				}
				return ActOpaque
			}
			return ActDefault
		}
		r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool { return true }
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k == KFAddr && typeNameOf(val.typ) == etcdPkg+"LeaseID" && lease(x, st, val) {
				st.Emit(Event{Kind: "kept"})
			}
		}
		r.OnBranch = func(x *Exec, st *State) {
			if g := st.Last("grant"); g != nil {
				switch x.nilness(st, g.Val) {
				case Yes:
					v := g.Args[0]
					st.Drop("grant")
					st.Emit(Event{Kind: "lease", Val: v})
				case No:
					st.Drop("grant")
				}
			}
			for _, f := range sortedFacts(st) {
				if past(f) || f.k != KBin || f.op != "<" || !isLen(f.a[1]) || !subs(f.a[1].a[0].strip()) {
					continue
				}
				if !st.facts[f] {
					told(st)
					st.Emit(Event{Kind: "all"})
					continue
				}
				known := false
				for i := range st.trace {
					known = known || (st.trace[i].Kind == "item" || st.trace[i].Kind == "seen") && st.trace[i].Val == f.a[0]
				}
				if !known {
					told(st)
					if ev := st.Last("item"); ev != nil && !past(ev.Val) {
						st.Emit(Event{Kind: "seen", Val: ev.Val})
					}
					st.Drop("item")
					st.Drop("did")
					st.Emit(Event{Kind: "item", Val: f.a[0]})
				}
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if !st.Has("closed") {
				end(st, at)
			}
			c.Check(st.Has("closed"), "closed", key+" ends", at.Pos(), "%s stops keeping a lease although it was not closed", key)
		}
		m.life(r)
		c.Run(fn, r)
	}
}

// names explores how the name a server registers under is made up.
func (m *registryRule) names() map[string]bool {
	c := m.c
	made := map[string]map[string]bool{}
	for _, fn := range c.P.Fns {
		if pkgPathOf(fn) != registryPkg || !storesField(fn, "name") && !storesField(fn, "stdName") {
			continue
		}
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasSuffix(ci.Name, ".SID") || strings.HasSuffix(ci.Name, ".RegisterAddr") {
				return ActOpaque
			}
			return ActDefault
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k != KFAddr || addr.op != "name" && addr.op != "stdName" {
				return
			}
			if made[addr.op] == nil {
				made[addr.op] = map[string]bool{}
			}
			made[addr.op][strings.Join(m.parts(x, st, val), "")] = true
		}
		c.Run(fn, r)
	}
	out := map[string]bool{}
	for _, n := range sortedKeys(made["name"]) {
		if !strings.Contains(n, "<stdname>") {
			out[n] = true
			continue
		}
		for _, s := range sortedKeys(made["stdName"]) {
			out[strings.ReplaceAll(n, "<stdname>", s)] = true
		}
	}
	return out
}

func storesField(fn *ssa.Function, field string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structField(fa.X.Type(), fa.Field) == field {
					return true
				}
			}
		}
	}
	return false
}

func (m *registryRule) register() {
	c := m.c
	names := m.names()
	type use struct {
		key, text string
		at        ssa.Instruction
	}
	var puts, dels []use
	for _, fn := range c.P.Fns {
		if pkgPathOf(fn) != registryPkg {
			continue
		}
		hit, gets := false, false
		c.calls(fn, func(_ ssa.CallInstruction, n string) {
			hit = hit || etcdCall(n, "Put") || etcdCall(n, "Delete")
			gets = gets || etcdCall(n, "Get")
		})
		if !hit && !(gets && fn.Signature.Recv() != nil && strings.HasSuffix(typeNameOf(deref(fn.Signature.Recv().Type())), ".EtcdRegistry")) {
			continue
		}
		key := methodKey(fn)
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case etcdCall(ci.Name, "Put"):
				puts = append(puts, use{key, strings.Join(m.parts(x, st, ci.Args[2]), ""), ci.Site})
				bound := false
				if o := m.option(x, st, ci.Args[4], "WithLease"); o != nil {
					id := callOf(o).Args[0].strip()
					bound = id.k == KParam || callOf(id) != nil && typeNameOf(id.typ) == etcdPkg+"LeaseID"
				}
				c.Check(bound, "key", key+" lease", ci.Site.Pos(), "%s registers a server without its lease", key)
				c.Check(lastField(ci.Args[3]) == "addr", "key", key+" address", ci.Site.Pos(), "%s registers something else than the address of the server", key)
				return ActOpaque
			case etcdCall(ci.Name, "Delete"):
				dels = append(dels, use{key, strings.Join(m.parts(x, st, ci.Args[2]), ""), ci.Site})
				return ActOpaque
			case etcdCall(ci.Name, "Get"):
				m.prefix = append(m.prefix, m.parts(x, st, ci.Args[2]))
				return ActOpaque
			}
			return ActDefault
		}
		c.Run(fn, r)
	}
	for _, u := range puts {
		for _, n := range sortedKeys(names) {
			text := strings.ReplaceAll(u.text, "<name>", n)
			for _, p := range m.prefix {
				under := prefixName.ReplaceAllString(strings.Join(p, ""), "<name>/")
				rest, ok := strings.CutPrefix(text, under)
				c.Check(ok && strings.HasSuffix(under, "/") && rest != "" && !strings.Contains(rest, "/"), "key", u.key+" place", u.at.Pos(), "%s registers a server as %s, it is looked for under %s", u.key, text, under)
			}
		}
	}
	for _, d := range dels {
		ok := false
		for _, u := range puts {
			ok = ok || u.text == d.text
		}
		c.Check(ok, "key", d.key+" removed", d.at.Pos(), "%s removes another key than the one that is registered", d.key)
	}
	if len(puts) == 0 || len(dels) == 0 || len(names) == 0 {
		c.Bad("key", "none", 0, "no server is registered or unregistered")
	}
}

var prefixName = regexp.MustCompile(`<[^<>]*>/$`)

// roles judges what changes the name of a registered server.
func (m *registryRule) roles() {
	c := m.c
	renames := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if pkgPathOf(fn) == registryPkg && fn.Signature.Recv() != nil && storesField(fn, "name") {
			renames[fn] = true
		}
	}
	puts := c.E.StaticReaching(func(n string) bool { return n == registryPkg+".EtcdRegistry.Register" })
	set := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) || pkgPathOf(fn) == registryPkg {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, _ string) {
			if f := ci.Common().StaticCallee(); f != nil && renames[f] && puts[fn] {
				set[fn] = true
			}
		})
	}
	for _, fn := range c.sorted(set) {
		key := methodKey(fn)
		leader := func(x *Exec, st *State) Tri {
			for i := 0; i < 4 && i < len(fn.Params); i++ {
				if b, ok := fn.Params[i].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					if t := paramTerm(x, i); t != nil {
						return x.Eval(st, t)
					}
				}
			}
			return Unknown
		}
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case etcdCall(ci.Name, "Delete"):
				if !st.Has("renamed") {
					st.Emit(Event{Kind: "removed"})
				}
				return ActOpaque
			case etcdCall(ci.Name, "Put"):
				if !c.passesParam(fn) {
					return ActOpaque
				}
				ev := st.Last("renamed")
				c.Check(ev == nil || st.Has("removed"), "role", key+" removes", ci.Site.Pos(), "%s registers a server in its new role and leaves the old one registered", key)
				if l := leader(x, st); l != Unknown && ev != nil {
					parts := m.parts(x, st, ci.Args[2])
					text := ""
					for _, p := range parts {
						if !strings.HasPrefix(p, "<") {
							text += p
						}
					}
					c.Check(strings.HasSuffix(text, "_master") == (l == Yes) && (l == Yes || strings.HasSuffix(text, "_slave")), "role", key+" role", ci.Site.Pos(), "%s registers a leader as a follower, or a follower as a leader", key)
				}
				st.Emit(Event{Kind: "registered"})
				return ActOpaque
			case strings.HasSuffix(ci.Name, ".SID"):
				return ActOpaque
			case strings.HasPrefix(ci.Name, "github.com/sirupsen/"):
				return ActPure
			}
			return ActDefault
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k == KFAddr && addr.op == "name" {
				st.Drop("renamed")
				st.Emit(Event{Kind: "renamed", Val: val})
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if st.Has("renamed") || st.Has("removed") {
				c.Check(st.Has("registered"), "role", key+" again", at.Pos(), "%s changes the role of a server and does not register it", key)
			}
		}
		c.Run(fn, r)
	}
}

// passesParam: the function is told the role.
func (c *Ctx) passesParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return true
		}
	}
	return false
}

// starts judges how servers start and stop.
func (m *registryRule) starts() {
	c := m.c
	renews := map[*ssa.Function]bool{}
	for _, fn := range m.started("Grant") {
		renews[topFn(fn)] = true
	}
	puts := c.E.StaticReaching(func(n string) bool { return etcdCall(n, "Put") })
	dels := c.E.StaticReaching(func(n string) bool { return etcdCall(n, "Delete") })
	mine := func(fn *ssa.Function) bool {
		return fn != nil && fn.Signature.Recv() != nil && strings.HasSuffix(typeNameOf(deref(fn.Signature.Recv().Type())), ".EtcdRegistry")
	}
	roots := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) || pkgPathOf(fn) == registryPkg {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, _ string) {
			if f := ci.Common().StaticCallee(); f != nil && renews[f] {
				roots[topFn(fn)] = true
			}
		})
	}
	for _, fn := range c.sorted(roots) {
		key := stableKey(fn)
		r := &Rule{Wide: 2}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			for _, a := range ci.Args {
				for _, e := range x.flatten(st, a) {
					f := e.strip().fn
					if f == nil {
						continue
					}
					// a step of the start that was handed over: it counts as done here
					if f.Parent() != nil && ci.Fn != nil && c.P.InRepo(ci.Fn) {
						m.inside(f, func(g *ssa.Function, in ssa.Instruction) {
							if _, ok := in.(*ssa.Go); ok && renews[g] {
								c.Check(st.Has("subscribed"), "start", key+" subscribed", in.Pos(), "%s starts to keep a lease before the server is registered under it", key)
								st.Emit(Event{Kind: "renewing"})
							}
							if mine(g) && dels[g] {
								st.Emit(Event{Kind: "unregistered"})
							}
						})
					}
					if mine(c.P.base(f)) && dels[c.P.base(f)] || c.callsOneOf(f, func(g *ssa.Function) bool { return mine(g) && dels[g] }) {
						st.Emit(Event{Kind: "unregistered"})
					}
				}
			}
			if mine(ci.Fn) && dels[ci.Fn] {
				st.Emit(Event{Kind: "unregistered"})
				return ActOpaque
			}
			if strings.HasSuffix(ci.Name, ".Lifecycle.Subscribe") {
				if f := ci.Args[1].strip().fn; f != nil {
					if b := c.P.base(f); mine(b) && puts[b] || c.callsOneOf(f, func(g *ssa.Function) bool { return mine(g) && puts[g] }) {
						st.Emit(Event{Kind: "subscribed"})
					}
				}
				return ActPure
			}
			return ActOpaque
		}
		r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool {
			if f := ci.Fn; f != nil && (renews[f] || c.callsOneOf(f, func(g *ssa.Function) bool { return renews[g] })) {
				c.Check(st.Has("subscribed"), "start", key+" subscribed", ci.Site.Pos(), "%s starts to keep a lease before the server is registered under it", key)
				st.Emit(Event{Kind: "renewing"})
			}
			return false
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if st.Has("renewing") || st.Has("subscribed") {
				c.Check(st.Has("unregistered"), "start", key+" unregisters", at.Pos(), "%s stops and leaves the server registered", key)
				c.Check(st.Has("renewing"), "start", key+" renews", at.Pos(), "%s does not keep the lease the server is registered under", key)
			}
		}
		c.Run(fn, r)
	}
}

// inside visits the calls of a function and of the literals in it.
func (m *registryRule) inside(fn *ssa.Function, visit func(*ssa.Function, ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
				visit(ci.Common().StaticCallee(), in)
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		m.inside(f, visit)
	}
}

// callsOneOf: the function calls one of those itself.
func (c *Ctx) callsOneOf(fn *ssa.Function, match func(*ssa.Function) bool) bool {
	hit := false
	c.calls(fn, func(ci ssa.CallInstruction, _ string) {
		if f := ci.Common().StaticCallee(); f != nil && match(f) {
			hit = true
		}
	})
	return hit
}
