package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Every place of the API server that sends a request about metadata is explored; the address it is sent to, the key it carries and the key the slot was computed of are compared on every path.", checkC20)
}

const (
	apiPrefix = "apiserver/"
	slotOwner = "common/hashslot."
)

type routes struct {
	c      *Ctx
	rd     *reads
	addrs  map[*ssa.Function]string // what gives the address of a metadata server
	locate map[*ssa.Function]bool   // what gives the group of a key
	conns  map[*ssa.Function]bool
	keys   map[string][]string
	at     map[string]token.Pos
}

func checkC20(c *Ctx) {
	c.Rule("slot", "a request about metadata is sent to the group that the key it carries belongs to")
	c.Rule("master", "a request that changes metadata is sent to the server that announced the slots")
	c.Rule("key", "the key of an object consists of its bucket and its name, everywhere in the same way")
	c.Rule("member", "a request that only reads is sent to a member of the group")
	c.Rule("owner", "the owner of a slot is looked up among all announced slots, by the whole key")
	c.Rule("conn", "a connection belongs to the address it is taken for")
	m := &routes{c: c, rd: &reads{&files{c}, map[string][]string{}}, addrs: map[*ssa.Function]string{}, locate: map[*ssa.Function]bool{}, conns: map[*ssa.Function]bool{}, keys: map[string][]string{}, at: map[string]token.Pos{}}
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), apiPrefix) || fn.Parent() != nil || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		textIn := 0
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if isString(fn.Signature.Params().At(i).Type()) {
				textIn++
			}
		}
		if typeNameOf(deref(res.At(0).Type())) == "google.golang.org/grpc.ClientConn" && textIn == 1 {
			m.conns[fn] = true
		}
		if !isString(res.At(0).Type()) || textIn != 1 || fn.Signature.Params().Len() != 1 {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, n string) {
			switch {
			case strings.HasSuffix(n, ".GetServiceMapping"):
				m.addrs[fn] = "member"
			case strings.HasPrefix(n, slotOwner) && isString(ci.Common().Signature().Results().At(0).Type()):
				m.locate[fn] = true
			}
		})
	}
	m.requests()
	m.members()
	m.owners()
	m.dials()
	c.Min("slot", 8)
	c.Min("master", 4)
	c.Min("key", 5)
	c.Min("member", 1)
	c.Min("owner", 1)
	c.Min("conn", 1)
}

// changes: the calls of the metadata service that a server applies to all of its group.
func (m *routes) changes() map[string]bool {
	out := map[string]bool{}
	mut := m.c.mutators()
	for _, r := range m.c.RPCs("metaserver/") {
		if m.c.reachesAny(r.Fn, mut) {
			out[r.Service+"."+r.Name] = true
		}
	}
	return out
}

func (m *routes) requests() {
	c := m.c
	changes := m.changes()
	c.Count("remote methods that change metadata", len(changes))
	sends := func(p string) bool { return strings.HasSuffix(p, "/grpcapi") || strings.HasSuffix(p, "/webapi") }
	keyed := c.E.StaticReaching(func(n string) bool {
		return strings.HasPrefix(n, "common/proto/pb.MetadataApiClient.")
	})
	about := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if !sends(pkgPathOf(fn)) {
			continue
		}
		if keyed[fn] {
			about[fn] = true
		}
		for _, s := range textConsts(fn) {
			if strings.Contains(s, "/bucket") || strings.Contains(s, "/metadata") {
				about[fn] = true
			}
		}
	}
	var fns []*ssa.Function
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), apiPrefix) || sends(pkgPathOf(fn)) || isMockOrTest(pkgPathOf(fn)) || strings.HasSuffix(pkgPathOf(fn), "/logic") {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, _ string) {
			if f := ci.Common().StaticCallee(); f != nil && sends(pkgPathOf(f)) && m.sendsKey(f, about, 0) {
				fns = append(fns, fn)
			}
		})
	}
	for _, fn := range c.entryRoots(fns) {
		key := methodKey(fn)
		r := &Rule{Wide: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case ci.Fn != nil && (m.addrs[ci.Fn] != "" || m.locate[ci.Fn] || m.conns[ci.Fn]):
				st.Emit(Event{Kind: "lookup", Call: ci, Val: x.E.ErrRes(ci)})
				return ActOpaque
			case strings.HasPrefix(ci.Name, "common/registry."):
				return ActOpaque
			case strings.HasPrefix(ci.Name, "common/proto/pb.New") && strings.HasSuffix(ci.Name, "Client"):
				return ActPure
			case strings.HasPrefix(ci.Name, "common/proto/pb.MetadataApiClient.") && len(ci.Args) >= 3:
				name := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
				k := x.field(st, ci.Args[2], "Id")
				if k == nil || !hasFieldOf(ci.Common.Args, "Id") {
					return ActOpaque
				}
				var addr *Term
				if cc := callOf(ci.Args[0].strip()); cc != nil && len(cc.Args) > 0 {
					conn := cc.Args[0].strip()
					if conn.k == KIface {
						conn = conn.a[0].strip()
					}
					if dc := callOf(conn); dc != nil && dc.Fn != nil && m.conns[dc.Fn] {
						addr = dc.Args[len(dc.Args)-1]
					}
				}
				m.judge(x, st, key+" "+name, ci.Site.Pos(), addr, []*Term{k}, changes["MetadataApi."+name])
				return ActOpaque
			case ci.Name == "net/http.NewRequest" || ci.Name == "net/http.NewRequestWithContext" || strings.HasPrefix(ci.Name, "net/http.Client.") || ci.Name == "net/http.Get":
				i := 0
				method := "GET"
				switch ci.Name {
				case "net/http.NewRequest":
					i, method = 1, textOf(ci.Args[0])
				case "net/http.NewRequestWithContext":
					i, method = 2, textOf(ci.Args[1])
				case "net/http.Client.Do":
					return ActOpaque
				case "net/http.Client.Get":
					i = 1
				case "net/http.Client.Post", "net/http.Client.Head", "net/http.Client.PostForm":
					i, method = 1, ci.Name[len("net/http.Client."):]
				}
				var addr *Term
				var keys []*Term
				path := ""
				for _, p := range m.rd.pieces(x, st, ci.Args[i]) {
					switch {
					case p.k == KConst:
						path += textOf(p)
					case addr == nil:
						addr = p
					case strings.Contains(path, "?"):
						keys = append(keys, p)
					default:
						// escaped, a text cannot lead to another path
						if p.k == KPure && p.op == "net/url.PathEscape" {
							p = p.a[0]
						} else {
							c.Bad("slot", key+" path", ci.Site.Pos(), "%s sends a request about a name that is not escaped; it can be taken as another name", key)
						}
						keys = append(keys, p)
						path += "*"
					}
				}
				if strings.Contains(path, "/bucket") || strings.Contains(path, "/metadata") {
					m.judge(x, st, key, ci.Site.Pos(), addr, keys, method != "GET" && method != "Head" && method != "HEAD")
				}
				return ActOpaque
			case ci.Fn == nil || !c.P.InRepo(ci.Fn) || aside(ci.Name):
				return ActOpaque
			case ci.Fn.Parent() == nil && (pkgPathOf(ci.Fn) == "common/util" || strings.HasPrefix(pkgPathOf(ci.Fn), "common/response") || strings.HasPrefix(pkgPathOf(ci.Fn), "common/performance")):
				return ActOpaque
			}
			return ActDefault
		}
		c.Run(fn, r)
	}
	m.sameKeys()
}

// service: the servers asked for are those of metadata.
func (m *routes) service(ci *CallInfo, key string, pos token.Pos) {
	for _, a := range ci.Args {
		if _, f := fieldOfTerm(a); strings.HasSuffix(f, "ServName") {
			m.c.Check(f == "MetaServName", "slot", key+" service", pos, "%s looks for a metadata server among other servers", key)
		}
	}
}

func hasFieldOf(args []ssa.Value, field string) bool {
	for _, a := range args {
		if s, ok := deref(a.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == field {
					return true
				}
			}
		}
	}
	return false
}

func (m *routes) sendsKey(f *ssa.Function, about map[*ssa.Function]bool, d int) bool {
	if about[f] {
		return true
	}
	hit := false
	if d < 3 {
		m.c.calls(f, func(ci ssa.CallInstruction, _ string) {
			if g := ci.Common().StaticCallee(); g != nil && strings.HasPrefix(pkgPathOf(g), apiPrefix) {
				hit = hit || m.sendsKey(g, about, d+1)
			}
		})
	}
	return hit
}

// judge compares where a request goes with the key it carries.
func (m *routes) judge(x *Exec, st *State, key string, pos token.Pos, addr *Term, carried []*Term, change bool) {
	c := m.c
	if addr == nil {
		c.Bad("slot", key, pos, "%s sends a request about metadata to a server that was not looked up", key)
		return
	}
	a := addr.strip()
	cc := callOf(a)
	if cc == nil || len(cc.Args) == 0 {
		c.Bad("slot", key, pos, "%s sends a request about metadata to %s, which was not looked up", key, a.Pretty())
		return
	}
	id := cc.Args[len(cc.Args)-1].strip()
	kind := ""
	switch {
	case cc.Fn != nil && m.addrs[cc.Fn] != "":
		kind = m.addrs[cc.Fn]
		c.Check(x.nilness(st, x.E.ErrRes(cc)) != No, "slot", key+" error", pos, "%s goes on after no server was found", key)
	case strings.HasSuffix(cc.Name, ".GetService"):
		kind = "master"
		m.service(cc, key, pos)
	}
	if kind == "" {
		c.Bad("slot", key, pos, "%s sends a request about metadata to a server that is not looked up by its id", key)
		return
	}
	if change {
		c.Check(kind == "master", "master", key, pos, "%s sends a change of metadata to any member of the group", key)
	}
	lc := callOf(id)
	if lc == nil || lc.Fn == nil || !m.locate[lc.Fn] || id.k != KRes || id.op != "0" {
		c.Bad("slot", key, pos, "%s does not send the request to the owner of a slot", key)
		return
	}
	of := lc.Args[len(lc.Args)-1].strip()
	same := false
	for _, k := range carried {
		if k.strip() == of || k.Pretty() == of.Pretty() {
			same = true
		}
	}
	if !same {
		// made up in the same way
		join := func(ts ...*Term) string {
			t := "|"
			for _, k := range ts {
				for _, p := range m.rd.pieces(x, st, k) {
					t += p.Pretty() + "|"
				}
			}
			return t
		}
		want := join(of)
		for _, k := range carried {
			same = same || join(k) == want
		}
	}
	c.Check(same, "slot", key, pos, "%s sends a request about one key to the owner of another one", key)
	c.Check(x.nilness(st, x.E.ErrRes(lc)) != No, "slot", key+" owner", pos, "%s goes on after no owner was found", key)
	// how the key is made up
	ps := m.rd.pieces(x, st, of)
	if len(ps) < 2 {
		return
	}
	text := ""
	for _, p := range ps {
		if p.k == KConst {
			text += textOf(p)
			continue
		}
		text += "<" + m.roleOf(x, p) + ">"
	}
	m.keys[text] = append(m.keys[text], key)
	m.at[key] = pos
}

// roleOf tells whether a piece is the bucket or the name of an object.
func (m *routes) roleOf(x *Exec, t *Term) string {
	t = t.strip()
	by := func(s string) string {
		s = strings.ToLower(s)
		switch {
		case strings.Contains(s, "bucket"):
			return "bucket"
		case strings.Contains(s, "name"):
			return "name"
		}
		return ""
	}
	if _, f := fieldOfTerm(t); f != "" {
		if r := by(f); r != "" {
			return r
		}
	}
	if p := paramOf(x, rootParam(t)); p != nil {
		if r := by(p.Name()); r != "" {
			return r
		}
		seen := map[ssa.Value]bool{}
		roles := map[string]bool{}
		var from func(v ssa.Value, d int)
		from = func(v ssa.Value, d int) {
			if seen[v] || d > 4 {
				return
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.UnOp:
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					if s, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
						if r := by(s.Field(fa.Field).Name()); r != "" {
							roles[r] = true
						}
					}
				}
			case *ssa.Parameter:
				if r := by(v.Name()); r != "" {
					roles[r] = true
					return
				}
				fn := v.Parent()
				for i, q := range fn.Params {
					if q != v {
						continue
					}
					for _, caller := range m.c.P.Fns {
						m.c.calls(caller, func(ci ssa.CallInstruction, _ string) {
							cc := ci.Common()
							j := i
							hit := cc.StaticCallee() == fn
							if cc.IsInvoke() && fn.Signature.Recv() != nil && cc.Method.Name() == fn.Name() && types.Identical(cc.Method.Type().(*types.Signature).Params(), fn.Signature.Params()) {
								hit, j = true, i-1
							}
							if hit && j >= 0 && j < len(cc.Args) {
								from(cc.Args[j], d+1)
							}
						})
					}
				}
			}
		}
		from(p, 0)
		if len(roles) == 1 {
			for r := range roles {
				return r
			}
		}
	}
	return "?"
}

func (m *routes) sameKeys() {
	var texts []string
	for t := range m.keys {
		texts = append(texts, t)
	}
	sort.Strings(texts)
	most := ""
	for _, t := range texts {
		if !strings.Contains(t, "?") && len(m.keys[t]) > len(m.keys[most]) {
			most = t
		}
	}
	fits := func(t string) bool {
		return t == most || strings.Contains(t, "<?>") && strings.Count(t, "<") == strings.Count(most, "<")
	}
	for _, t := range texts {
		for _, k := range m.keys[t] {
			m.c.Check(fits(t), "key", k, m.at[k], "%s takes the key of an object as %s, others as %s", k, t, most)
		}
	}
}

// members: what is chosen from is known to belong to the group.
func (m *routes) members() {
	c := m.c
	for _, fn := range c.sorted(m.addrFns()) {
		key := methodKey(fn)
		r := &Rule{Wide: 4}
		r.OnAppend = func(x *Exec, st *State, args []*Term, in ssa.Instruction) {
			if len(args) < 2 || !isString(elemType(in.(*ssa.Call).Type())) {
				return
			}
			for _, e := range x.flatten(st, args[1]) {
				st.Emit(Event{Kind: "add", Val: e.strip(), Args: []*Term{args[0].strip()}})
				m.addable(x, st, e.strip(), key, in)
			}
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasSuffix(ci.Name, ".GetServiceMapping") {
				m.service(ci, key, ci.Site.Pos())
			}
			return ActOpaque
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if len(res) != 2 || x.nilness(st, res[1]) == No {
				return
			}
			t := res[0].strip()
			cc := callOf(t)
			ok := cc != nil && strings.HasSuffix(cc.Name, ".Select") || t.k == KLoad && t.a[0].k == KIAddr
			if t.k == KRes && len(t.a) > 0 && t.a[0].k == KLookup {
				ok = x.Eval(st, x.E.T.mk(Term{k: KRes, op: "1", a: t.a, typ: types.Typ[types.Bool]})) == Yes && t.a[0].a[1].strip() == paramTerm(x, len(fn.Params)-1).strip()
			}
			c.Check(ok, "member", key, at.Pos(), "%s answers with something else than one of the servers of the group", key)
		}
		c.Run(fn, r)
	}
}

func elemType(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

func (m *routes) addrFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range m.addrs {
		out[f] = true
	}
	return out
}

// addable: an address that was found for the id of a member, or the id itself.
func (m *routes) addable(x *Exec, st *State, e *Term, key string, in ssa.Instruction) {
	c := m.c
	id := paramTerm(x, len(x.Root.Params)-1)
	if e == id.strip() {
		return
	}
	if e.k == KRes && len(e.a) > 0 && e.a[0].k == KLookup {
		found := x.Eval(st, x.E.T.mk(Term{k: KRes, op: "1", a: e.a, typ: types.Typ[types.Bool]}))
		c.Check(found == Yes, "member", key+" found", in.Pos(), "%s chooses from addresses of servers that are not known", key)
		k := e.a[0].a[1].strip()
		list, _ := elemAt(k)
		ok := list != nil || k == id.strip()
		c.Check(ok, "member", key+" group", in.Pos(), "%s chooses from servers that are not members of the group", key)
		return
	}
	c.Bad("member", key+" group", in.Pos(), "%s chooses from %s, which is not the address of a member", key, e.Pretty())
}

// owners: the lookup of the owner of a slot.
func (m *routes) owners() {
	c := m.c
	for _, fn := range c.sorted(m.locate) {
		key := methodKey(fn)
		r := &Rule{Wide: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case strings.HasSuffix(ci.Name, ".DecodeMsgp"):
				st.Emit(Event{Kind: "decode", Call: ci, Val: x.E.ErrRes(ci)})
				return ActOpaque
			case ci.Name == slotOwner+"WrapSlots":
				st.Emit(Event{Kind: "wrap", Call: ci, Val: x.E.ErrRes(ci), Args: ci.Args})
				return ActOpaque
			case strings.HasPrefix(ci.Name, slotOwner) && len(ci.Args) == 2 && ci.Common.Signature().Results().Len() == 2 && isString(ci.Common.Signature().Results().At(0).Type()):
				st.Emit(Event{Kind: "owner", Call: ci, Val: x.E.ErrRes(ci), Args: ci.Args})
				return ActOpaque
			case strings.HasPrefix(ci.Name, "go.etcd.io/etcd") && strings.HasSuffix(ci.Name, ".Get"):
				st.Emit(Event{Kind: "get", Call: ci, Val: x.E.ErrRes(ci), Args: ci.Args})
				return ActOpaque
			case strings.HasSuffix(ci.Name, ".WithPrefix"):
				st.Emit(Event{Kind: "prefix", Call: ci})
				return ActOpaque
			case ci.Fn != nil && c.P.InRepo(ci.Fn) && !strings.HasPrefix(ci.Name, slotOwner) && !aside(ci.Name):
				return ActDefault
			}
			return ActPure
		}
		r.OnBranch = func(x *Exec, st *State) {
			if ev := st.Last("decode"); ev != nil && x.nilness(st, ev.Val) == No {
				st.Emit(Event{Kind: "broken"})
			}
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k != KLookup {
				return
			}
			_, kf := fieldOfTerm(addr.a[1])
			_, vf := fieldOfTerm(val)
			c.Check(kf == "ServerID" && vf == "Slots", "owner", key+" map", in.Pos(), "%s takes slots as owned by another server than the one that announced them", key)
			st.Emit(Event{Kind: "kept", Args: []*Term{addr.a[0].strip()}})
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if len(res) != 2 || x.nilness(st, res[1]) == No {
				return
			}
			c.Check(!st.Has("broken"), "owner", key+" all", at.Pos(), "%s leaves out slots that cannot be decoded", key)
			o, w, g := st.Last("owner"), st.Last("wrap"), st.Last("get")
			name := paramTerm(x, len(fn.Params)-1).strip()
			ok := o != nil && w != nil && g != nil && res[0].strip().k == KRes && callOf(res[0].strip()) != nil && callOf(res[0].strip()).Sym == o.Call.Sym
			c.Check(ok, "owner", key, at.Pos(), "%s does not answer with the owner of the slot", key)
			if !ok {
				return
			}
			c.Check(o.Args[0].strip() == name || o.Args[0].strip().contains(name) && o.Args[0].strip().k == KPure, "owner", key+" key", at.Pos(), "%s looks up the slot of something else than the key", key)
			c.Check(o.Args[1].contains(w.Call.Sym), "owner", key+" slots", at.Pos(), "%s does not look up the slot among all announced ones", key)
			c.Check(st.Has("prefix"), "owner", key+" servers", at.Pos(), "%s does not look up the slots of all servers", key)
		}
		c.Run(fn, r)
	}
}

// dials: a connection is kept and found under its address.
func (m *routes) dials() {
	c := m.c
	for _, fn := range c.sorted(m.conns) {
		key := methodKey(fn)
		r := &Rule{Wide: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Fn != nil && c.P.InRepo(ci.Fn) {
				return ActDefault
			}
			return ActPure
		}
		addr := func(x *Exec) *Term { return paramTerm(x, len(fn.Params)-1).strip() }
		dialed := func(x *Exec, t *Term) bool {
			cc := callOf(t.strip())
			if cc == nil || !strings.HasPrefix(cc.Name, "google.golang.org/grpc.") {
				return false
			}
			for _, a := range cc.Args {
				if a.strip() == addr(x) {
					return true
				}
			}
			return false
		}
		r.OnStore = func(x *Exec, st *State, a, val *Term, in ssa.Instruction) {
			if a.k == KLookup {
				c.Check(a.a[1].strip() == addr(x) && dialed(x, val), "conn", key+" kept", in.Pos(), "%s keeps a connection under an address it does not belong to", key)
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if len(res) == 2 && x.nilness(st, res[1]) == No {
				return
			}
			t := res[0].strip()
			if t.k == KRes && len(t.a) > 0 && t.a[0].k == KLookup {
				t = t.a[0]
			}
			ok := t.k == KLookup && t.a[1].strip() == addr(x) || dialed(x, t)
			c.Check(ok, "conn", key, at.Pos(), "%s answers with a connection to another address", key)
		}
		c.Run(fn, r)
	}
}

// textConsts lists the constant texts in a function.
func textConsts(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if k, ok := (*o).(*ssa.Const); ok && k.Value != nil {
					if s, ok := cstString(k.Value); ok {
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

// paramOf is the parameter of the explored function that a term stands for.
func paramOf(x *Exec, t *Term) *ssa.Parameter {
	if t == nil || t.k != KParam {
		return nil
	}
	name, _, _ := strings.Cut(t.op, "\x00")
	for _, p := range x.Root.Params {
		if p.Name() == name {
			return p
		}
	}
	return nil
}
