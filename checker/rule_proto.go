package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", "Every HTTP request one server of the repository sends is matched with the route that serves it: method and path, what the handler reads and requires against what is sent, the statuses and headers it answers with against those the sender accepts and reads, and the JSON values both sides use.", checkC39)
}

const hole = "\x01"

// asked is a request a function sends.
type asked struct {
	fn           *ssa.Function
	at           ssa.Instruction
	method, path string
	names        map[string]bool // of the query
	open         bool            // parts of the query are not known
	headers      map[string]bool
	reads        map[string]bool // headers of the answer
	accepts      map[int64]bool  // statuses that are taken for success
	any          bool
	vague        bool           // the status is judged in a way that is not followed
	sends        bool           // has a body that is not JSON
	hopen        bool           // headers are not known
	handed       bool           // what is sent is made by the caller
	failed       map[int64]bool // statuses that are taken for a failure
	body, want   types.Type     // JSON
	keys         map[string]types.Type
	hasKeys      bool
}

// served is what the handlers of a route do.
type served struct {
	reads    map[string]bool // "form:x", "header:x"
	required map[string]bool
	headers  map[string]bool
	ok       map[int64]bool
	body     types.Type
	answers  []types.Type
	open     bool // reads names that are not constants
	takes    bool // reads the body
}

type protos struct {
	c      *Ctx
	routes []*Route
	info   map[*Route]*served
}

var verbRe = regexp.MustCompile(`%([-+# 0]*)(\d+)?(\.\d+)?(?:\[(\d+)\])?([a-zA-Z%])`)

// text writes a term as text with a hole for each unknown part, and collects the terms in the holes.
func (p *protos) text(x *Exec, st *State, t *Term, holes *[]*Term, at ssa.Instruction, key string) string {
	t = t.strip()
	if v, ok := x.constOf(st, t); ok && v != nil {
		if v.Kind() == constant.String {
			return constant.StringVal(v)
		}
		return v.ExactString()
	}
	unknown := func() string { *holes = append(*holes, t); return hole }
	switch {
	case t.k == KBin && t.op == "+" && (t.typ == nil || !isIntType(t.typ)):
		return p.text(x, st, t.a[0], holes, at, key) + p.text(x, st, t.a[1], holes, at, key)
	case t.k == KPure && t.op == "fmt.Sprint":
		s := ""
		for _, a := range t.a {
			s += p.text(x, st, a, holes, at, key)
		}
		return s
	case t.k == KPure && t.op == "strings.Join":
		return unknown()
	case t.k == KPure && t.op == "fmt.Sprintf" && len(t.a) > 0:
		v, ok := x.constOf(st, t.a[0])
		if !ok || v.Kind() != constant.String {
			return unknown()
		}
		f := constant.StringVal(v)
		out, last, arg := "", 0, 1
		for _, m := range verbRe.FindAllStringSubmatchIndex(f, -1) {
			out += f[last:m[0]]
			last = m[1]
			verb := f[m[10]:m[11]]
			if verb == "%" {
				out += "%"
				continue
			}
			if m[8] >= 0 {
				fmt.Sscan(f[m[8]:m[9]], &arg)
			}
			if arg >= len(t.a) {
				p.c.Bad("verbs", key, at.Pos(), "%q has more verbs than values", f)
				return out
			}
			a := t.a[arg]
			arg++
			if typ := a.strip().typ; typ != nil {
				ok := true
				switch verb {
				case "d":
					ok = isIntType(typ)
				case "t":
					b, is := typ.Underlying().(*types.Basic)
					ok = is && b.Info()&types.IsBoolean != 0
				case "s":
					ok = !isIntType(typ)
				}
				p.c.Check(ok, "verbs", key, at.Pos(), "%%%s of %q is given a value of type %s", verb, f, typ)
			}
			out += p.text(x, st, a, holes, at, key)
		}
		return out + f[last:]
	}
	return unknown()
}

var nameRe = regexp.MustCompile(`(?:^|&)([^=&\x01]+)=`)

// sendsHTTP tells if a library function sends a request.
func sendsHTTP(n string) bool {
	switch n {
	case "net/http.Client.Do", "net/http.Client.Get", "net/http.Client.Post", "net/http.Client.Head", "net/http.Client.PostForm", "net/http.Get", "net/http.Post", "net/http.Head":
		return true
	}
	return false
}

func checkC39(c *Ctx) {
	c.Rule("route", "a request that is sent to another server is served there: method and path are those of one of its routes")
	c.Rule("asked", "what a request says in its query and headers is read by what serves it")
	c.Rule("required", "a request says everything that what serves it requires")
	c.Rule("status", "what the server answers a request with when it is done is taken for success by the sender, and nothing else of class 2xx is expected")
	c.Rule("told", "headers of the answer that are read are set by what serves the request")
	c.Rule("body", "what is sent and answered as JSON has the fields, of the kinds, that are read from it")
	c.Rule("escaped", "a text a user has chosen becomes part of an address escaped, so that it stays one part of it")
	c.Rule("verbs", "the values an address is made of fit their places")
	p := &protos{c: c, routes: c.GinRoutes(""), info: map[*Route]*served{}}
	fns := map[*ssa.Function]bool{}
	for _, fn := range c.callersOf(sendsHTTP) {
		fns[fn] = true
	}
	n := 0
	work := c.sorted(fns)
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for _, a := range p.requests(fn) {
			if a.path != "" {
				n++
				p.judge(a)
				continue
			}
			if !a.handed {
				continue
			}
			var more []*ssa.Function // the request is handed in: look at who does
			for _, g := range c.E.Graph().In[fn] {
				if !fns[g] && pkgPathOf(g) == pkgPathOf(fn) {
					fns[g] = true
					more = append(more, g)
				}
			}
			sortFns(more)
			work = append(work, more...)
		}
	}
	c.Count("requests", n)
	c.Count("routes", len(p.routes))
	c.Min("route", 15)
	c.Min("status", 12)
	c.Min("asked", 12)
	c.Min("required", 8)
	c.Min("body", 6)
	c.Min("verbs", 20)
	c.Min("escaped", 12)
}

// requests explores a function that sends requests.
func (p *protos) requests(fn *ssa.Function) []*asked {
	c := p.c
	key := stableKey(fn)
	out := map[ssa.Instruction]*asked{}
	var order []ssa.Instruction
	r := &Rule{NoCallbacks: true}
	r.Relevant = func(_ *CallInfo, f *ssa.Function) bool {
		return pkgPathOf(f) == pkgPathOf(fn) || pkgPathOf(f) == "common/request" || strings.HasPrefix(pkgPathOf(f), "common/util") && c.E.Weight(f) < 30
	}
	get := func(ci *CallInfo) *asked {
		a := out[ci.Site]
		if a == nil {
			a = &asked{fn: fn, at: ci.Site, names: map[string]bool{}, headers: map[string]bool{}, reads: map[string]bool{}, accepts: map[int64]bool{}, failed: map[int64]bool{}, keys: map[string]types.Type{}}
			out[ci.Site] = a
			order = append(order, ci.Site)
		}
		return a
	}
	r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.k == KLookup {
			st.Emit(Event{Kind: "put", Args: []*Term{addr.a[0].strip(), addr.a[1].strip(), val}})
		}
		if addr.k == KFAddr && addr.op == "Header" {
			st.Emit(Event{Kind: "hdmap", Args: []*Term{addr.strip(), val.strip()}})
		}
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch ci.Name {
		case "net/http.NewRequest":
			st.Emit(Event{Kind: "req", Val: x.E.Res(ci, 0), Args: []*Term{ci.Args[0], ci.Args[1], ci.Args[2]}, Call: ci})
			return ActOpaque
		case "net/http.NewRequestWithContext":
			st.Emit(Event{Kind: "req", Val: x.E.Res(ci, 0), Args: []*Term{ci.Args[1], ci.Args[2], ci.Args[3]}, Call: ci})
			return ActOpaque
		case "net/http.Header.Set", "net/http.Header.Add":
			st.Emit(Event{Kind: "hd", Args: []*Term{ci.Args[0].strip(), ci.Args[1].strip()}})
			return ActOpaque
		case "net/url.Values.Set", "net/url.Values.Add":
			st.Emit(Event{Kind: "put", Args: []*Term{ci.Args[0].strip(), ci.Args[1].strip(), ci.Args[2]}})
			return ActOpaque
		case "net/http.Header.Get":
			if ev := st.Last("sent"); ev != nil {
				if s := textOf(ci.Args[1]); s != "" {
					get(ev.Call).reads[strings.ToLower(s)] = true
				}
			}
		case "encoding/json.Marshal":
			st.Emit(Event{Kind: "json", Val: ci.Args[0].strip()})
			return ActOpaque
		case "encoding/json.Unmarshal":
			if ev := st.Last("sent"); ev != nil {
				if t := ci.Args[1].strip().typ; t != nil {
					get(ev.Call).want = deref(t)
				}
			}
		}
		if sendsHTTP(ci.Name) {
			p.sent(x, st, ci, get(ci), key)
			st.Emit(Event{Kind: "sent", Call: ci, Val: x.E.Res(ci, 0)})
			return ActOpaque
		}
		return ActDefault
	}
	r.OnBranch = func(x *Exec, st *State) {
		ev := st.Last("sent")
		if ev == nil {
			return
		}
		for f, v := range st.facts {
			if f.k != KBin || !hasField(f.a[0].strip(), "StatusCode") && !hasField(f.a[1].strip(), "StatusCode") {
				continue
			}
			if f.op != "==" || lastField(f.a[0]) != "StatusCode" && lastField(f.a[1]) != "StatusCode" {
				st.Emit(Event{Kind: "range"}) // judged by more than equality: not followed
				continue
			}
			if !v {
				continue
			}
			for _, a := range f.a {
				if s := cstOf(a.strip()); s != nil && !st.Has("code") {
					st.Emit(Event{Kind: "code", Val: a.strip()})
				}
			}
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		ev := st.Last("sent")
		if ev == nil {
			return
		}
		a := get(ev.Call)
		good := Unknown
		if n := len(res); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) {
			good = x.nilness(st, res[n-1])
		}
		if e := x.E.ErrRes(ev.Call); e != nil && x.nilness(st, e) == No {
			return
		}
		code := int64(-1)
		if k := st.Last("code"); k != nil {
			code, _ = constInt(cstOf(k.Val))
		}
		switch {
		case st.Has("range"):
			a.vague = true
		case good == No:
			if code >= 0 {
				a.failed[code] = true
			}
		case code >= 0:
			a.accepts[code] = true
		default:
			a.any = true
		}
	}
	c.Run(fn, r)
	var l []*asked
	for _, in := range order {
		l = append(l, out[in])
	}
	return l
}

// sent reads the request that is sent.
func (p *protos) sent(x *Exec, st *State, ci *CallInfo, a *asked, key string) {
	var method, url *Term
	name := methodName2(ci.Name)
	client := strings.HasPrefix(ci.Name, "net/http.Client.")
	at := 0
	if client {
		at = 1
	}
	switch name {
	case "Do":
		req := ci.Args[1].strip()
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "req" && ev.Val.strip() == req {
				method, url = ev.Args[0], ev.Args[1]
				a.sends = !isNil(ev.Args[2])
			}
		}
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "hd" && ev.Args[0].contains(req) {
				if s := textOf(ev.Args[1]); s != "" {
					a.headers[strings.ToLower(s)] = true
				} else {
					a.hopen = true
				}
			}
		}
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind == "hdmap" && ev.Args[0].contains(req) {
				given := false
				for k := range st.trace {
					if e := &st.trace[k]; e.Kind == "put" && e.Args[0] == ev.Args[1] {
						given = true
						if s := textOf(e.Args[1]); s != "" {
							a.headers[strings.ToLower(s)] = true
						} else {
							a.hopen = true
						}
					}
				}
				a.hopen = a.hopen || !given
			}
			if ev.Kind == "put" && ev.Args[0].contains(req) {
				if s := textOf(ev.Args[1]); s != "" {
					a.headers[strings.ToLower(s)] = true
				} else {
					a.hopen = true
				}
			}
		}
	default:
		url = ci.Args[at]
		a.method = strings.ToUpper(strings.TrimSuffix(name, "Form"))
		if name == "Post" {
			a.sends = !isNil(ci.Args[len(ci.Args)-1])
			a.headers["content-type"] = true
		}
	}
	if url == nil {
		a.handed = true // judged where it is made
		return
	}
	if method != nil {
		a.method = textOf(method)
	}
	var holes []*Term
	s := p.text(x, st, url, &holes, ci.Site, key)
	i := strings.Index(s, "://")
	if i < 0 {
		a.handed = a.handed || s == hole
		return // not an address that is made here
	}
	s0 := s
	s = s[i+3:]
	j := strings.IndexAny(s, "/?")
	if j < 0 {
		return
	}
	path, query, _ := strings.Cut(s[j:], "?")
	a.path = path
	first := strings.Count(s0[:len(s0)-len(s)+j], hole)
	inPath := strings.Count(path, hole)
	for k := first; k < len(holes); k++ {
		want := "net/url.QueryEscape"
		if k < first+inPath {
			want = "net/url.PathEscape"
		}
		bad := ""
		for _, t := range plain(holes[k], want) {
			if p.saidBy(x, t) {
				bad = t.Pretty()
			}
		}
		c := p.c
		c.Check(bad == "", "escaped", fmt.Sprintf("%s: %d", key, k), ci.Site.Pos(), "%s, a text somebody else has chosen, becomes part of the address as it is, not through %s", bad, want)
	}
	for _, m := range nameRe.FindAllStringSubmatch(query, -1) {
		a.names[m[1]] = true
	}
	if strings.Contains(nameRe.ReplaceAllString(query, "\x02"), hole) {
		for _, h := range holes {
			e := callOf(h)
			if e == nil || e.Name != "net/url.Values.Encode" {
				continue
			}
			base := e.Args[0].strip()
			for k := range st.trace {
				if ev := &st.trace[k]; ev.Kind == "put" && ev.Args[0] == base {
					if s := textOf(ev.Args[1]); s != "" {
						a.names[s] = true
					} else {
						a.open = true
					}
				}
			}
			if base.k == KSym && rootParam(base) != nil {
				a.open = true
			}
		}
	}
	if ev := st.Last("json"); ev != nil {
		a.body = ev.Val.typ
		if ev.Val.typ != nil {
			if _, ok := ev.Val.typ.Underlying().(*types.Map); ok {
				for k := range st.trace {
					if e := &st.trace[k]; e.Kind == "put" && e.Args[0] == ev.Val {
						if s := textOf(e.Args[1]); s != "" {
							a.keys[s] = e.Args[2].strip().typ
							a.hasKeys = true
						}
					}
				}
			}
		}
	}
}

// plain gives the parameters (or fields of them) of the root a term is made of without the escaping.
func plain(t *Term, want string) []*Term {
	t = t.strip()
	if (t.k == KPure || t.k == KRes) && t.op == want {
		return nil
	}
	if e := callOf(t); e != nil {
		if e.Name == want {
			return nil
		}
		if !strings.HasPrefix(e.Name, "strings.") && !strings.HasPrefix(e.Name, "fmt.") && !strings.HasPrefix(e.Name, "net/url.") {
			return nil
		}
		var out []*Term
		for _, a := range e.Args {
			out = append(out, plain(a, want)...)
		}
		return out
	}
	if t.k != KPure && t.k != KBin {
		if !isText(t.typ) {
			return nil
		}
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.a {
		out = append(out, plain(a, want)...)
	}
	return out
}

// saidBy: a parameter of the function (or a field of it) is what a request has said.
func (p *protos) saidBy(x *Exec, t *Term) bool {
	par := rootParam(t)
	if par == nil {
		return false
	}
	tag := ""
	if t = t.strip(); t != par.strip() {
		f := t
		if f.k == KLoad {
			f = f.a[0].strip()
		}
		if len(f.a) > 0 {
			tag = fieldTag(f)
		}
	}
	if strings.Contains(tag, "uri:") || strings.Contains(tag, "form:") {
		return true
	}
	for _, q := range x.Root.Params {
		if x.E.Param(q.Name(), q.Type()) == par {
			return p.said(q, t.strip() != par.strip(), map[ssa.Value]bool{}, 8)
		}
	}
	return false
}

// said: the value is what a request has said; of whole, the value is a struct a request is read into.
func (p *protos) said(v ssa.Value, whole bool, seen map[ssa.Value]bool, depth int) bool {
	if depth == 0 || seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		i := -1
		for k, q := range v.Parent().Params {
			if q == v {
				i = k
			}
		}
		for _, caller := range p.c.E.Graph().In[v.Parent()] {
			for _, b := range caller.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc, k := ci.Common(), i
					if cc.IsInvoke() {
						if k--; cc.Method.Name() != v.Parent().Name() {
							continue
						}
					} else if f := cc.StaticCallee(); f == nil || f != v.Parent() && f.Origin() != v.Parent() {
						continue
					}
					if k >= 0 && k < len(cc.Args) && p.said(cc.Args[k], whole, seen, depth-1) {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if p.said(e, whole, seen, depth) {
				return true
			}
		}
	case *ssa.ChangeType:
		return p.said(v.X, whole, seen, depth)
	case *ssa.MakeInterface:
		return p.said(v.X, whole, seen, depth)
	case *ssa.Convert:
		return p.said(v.X, whole, seen, depth)
	case *ssa.BinOp:
		return p.said(v.X, whole, seen, depth) || p.said(v.Y, whole, seen, depth)
	case *ssa.Extract:
		return p.said(v.Tuple, whole, seen, depth)
	case *ssa.Alloc:
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v && p.said(in.Val, whole, seen, depth) {
					return true
				}
			case *ssa.MakeInterface:
				for _, u := range *in.Referrers() {
					if ci, ok := u.(ssa.CallInstruction); whole && ok && strings.Contains(calleeName(ci.Common()), "Bind") {
						return true
					}
				}
			}
		}
	case *ssa.UnOp:
		return p.said(v.X, whole, seen, depth)
	case *ssa.FieldAddr:
		st := deref(v.X.Type()).Underlying().(*types.Struct)
		tag := st.Tag(v.Field)
		if strings.Contains(tag, "uri:") || strings.Contains(tag, "form:") || typeNameOf(v.X.Type()) == "mime/multipart.FileHeader" {
			return true
		}
		return p.said(v.X, true, seen, depth)
	case *ssa.Call:
		n := calleeName(v.Common())
		if strings.HasPrefix(n, ginCtx) {
			switch n[len(ginCtx):] {
			case "Param", "Query", "GetQuery", "DefaultQuery", "PostForm", "GetPostForm", "DefaultPostForm":
				return true
			}
		}
		if strings.HasPrefix(n, "strings.") {
			for _, a := range v.Common().Args {
				if p.said(a, whole, seen, depth) {
					return true
				}
			}
		}
	}
	return false
}

// match gives the routes of one server each that serve the request.
func (p *protos) match(a *asked) []*Route {
	segs := strings.Split(strings.Trim(a.path, "/"), "/")
	best := map[string]*Route{}
	score := map[string]int{}
	for _, rt := range p.routes {
		if rt.Method != a.method && rt.Method != "Any" {
			continue
		}
		rs := strings.Split(strings.Trim(rt.Path, "/"), "/")
		n, ok := 0, len(rs) == len(segs)
		for i := 0; ok && i < len(rs); i++ {
			switch {
			case strings.HasPrefix(rs[i], ":"):
				ok = segs[i] != ""
			case rs[i] != segs[i]:
				ok = false
			default:
				n++
			}
		}
		mod := strings.SplitN(pkgPathOf(rt.Root), "/", 2)[0]
		if ok && (best[mod] == nil || n > score[mod]) {
			best[mod], score[mod] = rt, n
		}
	}
	var out []*Route
	for _, m := range sortedKeys(best) {
		out = append(out, best[m])
	}
	return out
}

func (p *protos) judge(a *asked) {
	c := p.c
	show := a.method + " " + strings.ReplaceAll(a.path, hole, "*")
	key := stableKey(a.fn) + ": " + show
	rts := p.match(a)
	if len(rts) == 0 {
		c.Bad("route", key, a.at.Pos(), "%s is sent, but no server has a route for it", show)
		return
	}
	c.Ok("route", key)
	type miss struct{ rule, text string }
	var least []miss
	for i, rt := range rts {
		s := p.serve(rt)
		var ms []miss
		add := func(rule, f string, args ...any) {
			ms = append(ms, miss{rule, fmt.Sprintf(f, args...)})
		}
		for _, n := range sortedKeys(a.names) {
			if !s.reads["form:"+n] && !s.open {
				add("asked", "the query says %q, which what serves %s does not read", n, rt.Key())
			}
		}
		for _, n := range sortedKeys(a.headers) {
			if !s.reads["header:"+n] && !usualHeader[n] && !s.open {
				add("asked", "the header %q is sent, which what serves %s does not read", n, rt.Key())
			}
		}
		if a.sends && !s.takes {
			add("asked", "a body is sent, which what serves %s does not read", rt.Key())
		}
		for _, n := range sortedKeys(s.required) {
			kind, name, _ := strings.Cut(n, ":")
			if kind == "form" && !a.names[name] && !a.open || kind == "header" && !a.headers[name] && !a.hopen {
				add("required", "what serves %s requires the %s %q, which is not sent", rt.Key(), map[string]string{"form": "query", "header": "header"}[kind], name)
			}
		}
		switch {
		case a.vague:
		case !a.any:
			for _, n := range sortedInts(s.ok) {
				if !a.accepts[n] {
					add("status", "%s is answered with %d when it is done, which is not taken for success", rt.Key(), n)
				}
			}
			for _, n := range sortedInts(a.accepts) {
				if n >= 200 && n < 300 && !s.ok[n] {
					add("status", "%d is expected of %s, which never answers with it", n, rt.Key())
				}
			}
		default:
			for _, n := range sortedInts(s.ok) {
				if a.failed[n] {
					add("status", "%s is answered with %d when it is done, which is taken for a failure", rt.Key(), n)
				}
			}
		}
		for _, n := range sortedKeys(a.reads) {
			if !s.headers[n] && !usualHeader[n] {
				add("told", "the header %q of the answer is read, which what serves %s does not set", n, rt.Key())
			}
		}
		if s.body != nil && (a.body != nil || a.hasKeys) {
			have := a.keys
			if !a.hasKeys {
				have = jsonFields(a.body, "")
			}
			for n, f := range jsonTags(s.body) {
				h, ok := have[n]
				if !ok && f.required {
					add("body", "what serves %s requires %q in the body, which %s does not have", rt.Key(), n, a.body)
				}
				if ok && !sameKind(h, f.typ) {
					add("body", "%q is sent as %s, but what serves %s reads it as %s", n, h, rt.Key(), f.typ)
				}
			}
			if a.hasKeys {
				tags := jsonTags(s.body)
				for n := range a.keys {
					if _, ok := tags[n]; !ok {
						add("body", "%q is sent in the body, which what serves %s does not read", n, rt.Key())
					}
				}
			}
		}
		if a.want != nil && len(s.answers) > 0 {
			for _, t := range s.answers {
				have := jsonFields(t, "")
				if have == nil {
					continue
				}
				for n, f := range jsonTags(a.want) {
					h, ok := have[n]
					if ok && !sameKind(h, f.typ) {
						add("body", "%q is answered as %s by what serves %s, but read as %s", n, h, rt.Key(), f.typ)
					}
					if _, list := deref(f.typ).Underlying().(*types.Slice); !ok && !list { // lists of parts are asked for on their own
						add("body", "%q is read from the answer, which what serves %s does not have (%s)", n, rt.Key(), t)
					}
				}
			}
		}
		if i == 0 || len(ms) < len(least) {
			least = ms
		}
	}
	bad := map[string]bool{}
	for _, m := range least {
		bad[m.rule] = true
		c.Bad(m.rule, key, a.at.Pos(), "%s", m.text)
	}
	for _, rule := range []string{"asked", "required", "status", "told", "body"} {
		if !bad[rule] {
			c.Ok(rule, key)
		}
	}
}

var usualHeader = map[string]bool{"content-type": true, "authorization": true, "accept": true, "connection": true, "keep-alive": true, "content-length": true, "user-agent": true}

func sortedInts(m map[int64]bool) []int64 {
	var l []int64
	for n := range m {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// serve explores the handlers of a route.
func (p *protos) serve(rt *Route) *served {
	if s := p.info[rt]; s != nil {
		return s
	}
	c := p.c
	s := &served{reads: map[string]bool{}, required: map[string]bool{}, headers: map[string]bool{}, ok: map[int64]bool{}}
	p.info[rt] = s
	m := &answers{c: c}
	chain := append(append([]*Term{}, rt.Mid...), rt.Own...)
	for i, h := range chain {
		fn := c.E.baseFn(h.strip())
		if fn == nil || !c.P.InRepo(fn) {
			continue
		}
		fn = c.P.base(fn)
		last := i+1 == len(chain)
		r := &Rule{NoCallbacks: true}
		r.Relevant = func(_ *CallInfo, f *ssa.Function) bool {
			if strings.HasPrefix(f.Name(), "BindAll") {
				return false
			}
			return m.entered(fn, f) || strings.HasSuffix(pkgPathOf(f), "/entity") || pkgPathOf(f) == "common/request"
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if lastField(val) == "Body" {
				s.takes = true
			}
			if addr.k == KLookup {
				if n := textOf(addr.a[1]); n != "" {
					s.headers[strings.ToLower(n)] = true
				}
			}
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			p.reading(x, st, ci, s)
			for _, a := range ci.Args {
				if lastField(a) == "Body" {
					s.takes = true
				}
			}
			if strings.HasPrefix(ci.Name, "net/http.Header.") && (methodName2(ci.Name) == "Set" || methodName2(ci.Name) == "Add") || ci.Name == ginCtx+"Header" {
				if n := textOf(ci.Args[1]); n != "" {
					s.headers[strings.ToLower(n)] = true
				}
			}
			if ci.Name == ginCtx+"Next" {
				st.Emit(Event{Kind: "next"})
			}
			if aborts(ci.Name) {
				st.Emit(Event{Kind: "abort"})
			}
			k := statusArg(ci.Name)
			if k == -1 {
				st.Emit(Event{Kind: "said"})
			}
			if k < 1 {
				if cutsOff(ci) {
					st.Emit(Event{Kind: "fail"})
				}
				return ActDefault
			}
			v, known := x.constOf(st, ci.Args[k])
			n, isN := int64(0), false
			if known {
				n, isN = constInt(v)
			}
			if !isN || n < 200 || n >= 300 {
				st.Emit(Event{Kind: "fail"})
				return ActOpaque
			}
			if !st.Has("said") {
				st.Drop("status")
				st.Emit(Event{Kind: "status", Val: ci.Args[k].strip()})
			}
			if bodyCall(ci.Name) == "answer" {
				st.Emit(Event{Kind: "said"})
				if mn := methodName2(ci.Name); strings.HasSuffix(mn, "JSON") && !st.Has("fail") && last {
					if t := ci.Args[len(ci.Args)-1].strip().typ; t != nil {
						p.answered(s, t)
					}
				}
			}
			return ActOpaque
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if st.Has("fail") || !last && !st.Has("abort") || !last && st.Has("next") {
				return
			}
			code := int64(200)
			if ev := st.Last("status"); ev != nil {
				if v, ok := x.constOf(st, ev.Val); ok {
					code, _ = constInt(v)
				}
			}
			s.ok[code] = true
		}
		c.Run(fn, r)
	}
	return s
}

func (p *protos) answered(s *served, t types.Type) {
	for _, o := range s.answers {
		if types.Identical(o, t) {
			return
		}
	}
	s.answers = append(s.answers, t)
}

// reading notes what a handler reads of the request.
func (p *protos) reading(x *Exec, st *State, ci *CallInfo, s *served) {
	n := ci.Name
	name := func(kind string, t *Term) {
		if v := textOf(t); v != "" {
			if kind == "header" {
				v = strings.ToLower(v)
			}
			s.reads[kind+":"+v] = true
		} else {
			s.open = true
		}
	}
	if strings.HasPrefix(n, ginCtx) {
		switch m := n[len(ginCtx):]; {
		case m == "Query" || m == "GetQuery" || m == "DefaultQuery" || m == "QueryArray" || m == "GetQueryArray":
			name("form", ci.Args[1])
			return
		case m == "GetHeader":
			name("header", ci.Args[1])
			return
		}
	}
	if n == "net/http.Header.Get" || n == "net/http.Header.Values" {
		name("header", ci.Args[1])
		return
	}
	if n == "net/url.Values.Get" {
		name("form", ci.Args[1])
		return
	}
	if !strings.Contains(methodName2(n), "Bind") {
		return
	}
	gin := strings.HasPrefix(n, ginCtx)
	body := gin && strings.HasSuffix(n, "JSON")
	query := !gin || strings.HasSuffix(n, "Query") || n == ginCtx+"ShouldBind" || n == ginCtx+"Bind" || strings.HasSuffix(n, "With")
	header := !gin || strings.HasSuffix(n, "Header") || strings.HasSuffix(n, "With")
	if !gin && strings.HasSuffix(n, ".BindAll") {
		query, header = false, false
		for _, b := range x.flatten(st, ci.Args[len(ci.Args)-1]) {
			b := b.strip().String()
			query = query || strings.Contains(b, "binding.Query") || strings.Contains(b, "binding.Form")
			header = header || strings.Contains(b, "binding.Header")
			body = body || strings.Contains(b, "binding.JSON")
			if !strings.Contains(b, "binding.") {
				query, header, body = true, true, true
			}
		}
	}
	for _, a := range ci.Args {
		t := a.strip().typ
		if t == nil || isGinCtx(t) {
			continue
		}
		if _, ok := deref(t).Underlying().(*types.Struct); !ok {
			continue
		}
		if body {
			s.body = deref(t)
			s.takes = true
		}
		walkFields(deref(t), func(f *types.Var, tag reflect.StructTag) {
			req := strings.Contains(","+tag.Get("binding")+",", ",required,")
			for kind, on := range map[string]bool{"form": query, "header": header} {
				v, _, _ := strings.Cut(tag.Get(kind), ",")
				if v == "" {
					continue
				}
				if kind == "header" {
					v = strings.ToLower(v)
				}
				if on {
					s.reads[kind+":"+v] = true
				}
				if req {
					s.required[kind+":"+v] = true
				}
			}
		})
	}
}

// walkFields visits the fields of a struct, those of embedded structs included.
func walkFields(t types.Type, visit func(f *types.Var, tag reflect.StructTag)) {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i))
		if _, ok := deref(f.Type()).Underlying().(*types.Struct); ok && f.Embedded() && tag.Get("json") == "" {
			walkFields(f.Type(), visit)
			continue
		}
		visit(f, tag)
	}
}

type jsonField struct {
	typ      types.Type
	required bool
}

// jsonTags gives the fields of a struct (or of the elements of a list) as they are read from JSON.
func jsonTags(t types.Type) map[string]jsonField {
	if t == nil {
		return nil
	}
	for {
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = deref(s.Elem())
			continue
		}
		t = deref(t)
		break
	}
	out := map[string]jsonField{}
	walkFields(t, func(f *types.Var, tag reflect.StructTag) {
		if n := jsonName(f, tag); n != "" {
			out[n] = jsonField{f.Type(), strings.Contains(","+tag.Get("binding")+",", ",required,")}
		}
	})
	return out
}

func jsonName(f *types.Var, tag reflect.StructTag) string {
	if !f.Exported() {
		return ""
	}
	n, _, _ := strings.Cut(tag.Get("json"), ",")
	if n == "-" {
		return ""
	}
	if n == "" {
		return f.Name()
	}
	return n
}

// jsonFields gives the fields of what is written as JSON; nil if it is not a struct or a list of them.
func jsonFields(t types.Type, _ string) map[string]types.Type {
	if t == nil {
		return nil
	}
	out := map[string]types.Type{}
	for n, f := range jsonTags(t) {
		out[n] = f.typ
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// sameKind: what is written from one type can be read into the other.
func sameKind(a, b types.Type) bool {
	if a == nil || b == nil {
		return true
	}
	a, b = deref(a).Underlying(), deref(b).Underlying()
	kind := func(t types.Type) string {
		switch t := t.(type) {
		case *types.Basic:
			switch {
			case t.Info()&types.IsString != 0:
				return "string"
			case t.Info()&types.IsNumeric != 0:
				return "number"
			case t.Info()&types.IsBoolean != 0:
				return "bool"
			}
		case *types.Slice, *types.Array:
			return "list"
		case *types.Struct, *types.Map:
			return "object"
		}
		return ""
	}
	x, y := kind(a), kind(b)
	return x == y || x == "" || y == ""
}
