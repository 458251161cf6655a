package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Fields named as passwords or secrets, the password of a request and its Authorization header are followed on every path of the functions that touch them, through formatting and encoding: none reaches a log, an error, an answer or an address, and a struct that has such fields is only formatted or encoded with each of them replaced. The configuration a server runs with keeps its own.", checkC25)
}

var secretName = regexp.MustCompile(`(?i)passw(or)?d|passphrase|secret|(private|access|api)_?key`)

func isTextType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

type secrets struct {
	c     *Ctx
	paths map[types.Type][][]string
	label map[*Term]string // what an encoding carries
	what  map[*CallInfo]string
	sure  bool
	param bool // what was found last is in a parameter: its caller may have replaced it
}

func textConst(t *Term) string {
	t = t.strip()
	if t.cst == nil {
		return ""
	}
	s, _ := cstString(t.cst)
	return s
}

// of lists the fields of a struct, at any depth, that hold a secret or the name that belongs to it.
func (m *secrets) of(t types.Type) [][]string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if l, ok := m.paths[t]; ok {
		return l
	}
	m.paths[t] = nil
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && m.c.P.ByPth[n.Obj().Pkg().Path()] == nil {
		return nil // of a library
	}
	var out [][]string
	own := false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if secretName.MatchString(f.Name()) && isTextType(f.Type()) {
			own = true
			out = append(out, []string{f.Name()})
			continue
		}
		ft := f.Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		if _, ok := ft.Underlying().(*types.Struct); !ok {
			continue
		}
		for _, p := range m.of(ft) {
			out = append(out, append([]string{f.Name()}, p...))
		}
	}
	if own {
		for i := 0; i < s.NumFields(); i++ {
			switch f := s.Field(i); strings.ToLower(f.Name()) {
			case "username", "user", "account":
				if isTextType(f.Type()) {
					out = append(out, []string{f.Name()})
				}
			}
		}
	}
	m.paths[t] = out
	return out
}

func isSecretField(t types.Type, name string) bool {
	return secretName.MatchString(name) && (t == nil || isTextType(t))
}

// basic are the calls that give the credential of a request.
func givesCredential(ci *CallInfo) (string, bool) {
	switch {
	case ci.Name == "net/http.Request.BasicAuth":
		return "1", true
	case ci.Name == ginCtx+"GetHeader", ci.Name == "net/http.Header.Get", ci.Name == "net/http.Header.Values":
		for _, a := range ci.Args[1:] {
			if s := textConst(a); strings.EqualFold(s, "authorization") || strings.EqualFold(s, "cookie") {
				return "", true
			}
		}
	}
	return "", false
}

// predicates tell something about a text without giving it away.
func predicate(n string) bool {
	i := strings.LastIndexByte(n, '.')
	switch m := n[i+1:]; m {
	case "Contains", "HasPrefix", "HasSuffix", "EqualFold", "Equal", "Compare", "Index", "Count", "ConstantTimeCompare", "len", "Len", "Repeat":
		return true
	}
	return strings.HasPrefix(n, "crypto/") || strings.HasPrefix(n, "golang.org/x/crypto/")
}

// given finds the secret in a value: what it is, or "".
func (m *secrets) given(x *Exec, st *State, t *Term, depth int) string {
	if t == nil || depth > 12 {
		return ""
	}
	if _, ok := x.constOf(st, t); ok {
		return ""
	}
	for _, ev := range st.trace {
		if ev.Kind == "carries" && ev.Val != nil && t == ev.Val {
			return m.label[t]
		}
	}
	if t.typ != nil && t.k != KIface {
		if l := m.of(t.typ); len(l) > 0 {
			for _, p := range l {
				if s := m.inside(x, st, t, p); s != "" {
					return s
				}
			}
			return ""
		}
	}
	switch t.k {
	case KIface, KTuple, KAgg:
		for _, a := range t.a {
			if s := m.given(x, st, a, depth+1); s != "" {
				return s
			}
		}
	case KLoad:
		a := t.a[0]
		if a.k == KFAddr && isSecretField(t.typ, a.op) {
			return a.Pretty()
		}
	case KField:
		if isSecretField(t.typ, t.op) {
			return t.Pretty()
		}
	case KBin:
		if t.op == "+" {
			for _, a := range t.a {
				if s := m.given(x, st, a, depth+1); s != "" {
					return s
				}
			}
		}
	case KSym, KRes:
		if ci := callOf(t); ci != nil {
			if i, ok := givesCredential(ci); ok && (i == "" || t.k == KRes && t.op == i) {
				return "the credential of the request"
			}
		}
	case KPure:
		if predicate(t.op) {
			return ""
		}
		for _, a := range t.a {
			if s := m.given(x, st, a, depth+1); s != "" {
				return s
			}
		}
	case KOther:
		if t.op == "slice" {
			for _, e := range x.Elems(st, t) {
				if s := m.given(x, st, e, depth+1); s != "" {
					return s
				}
			}
		}
		for _, a := range t.a {
			if s := m.given(x, st, a, depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}

// inside looks at one field of a struct (or what points to it).
func (m *secrets) inside(x *Exec, st *State, t *Term, path []string) string {
	v := t
	for i, name := range path {
		v = x.field(st, v, name)
		if v == nil {
			return ""
		}
		if i < len(path)-1 {
			continue
		}
		v = v.strip()
		if _, ok := x.constOf(st, v); ok {
			return ""
		}
		if v.k == KLoad && v.a[0].k == KFAddr && v.a[0].op == name || v.k == KField && v.op == name {
			m.param = m.param || isOfParam(v)
			return strings.Join(path, ".")
		}
		if s := m.given(x, st, v, 1); s != "" {
			return strings.Join(path, ".")
		}
	}
	return ""
}

func isOfParam(t *Term) bool {
	for len(t.a) > 0 {
		t = t.a[0]
	}
	return t.k == KParam
}

func carrier(n string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Append", "strings.", "bytes.", "net/url.", "encoding/", "gopkg.in/yaml", "strconv.Quote", "html."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return strings.HasSuffix(n, ".Marshal") || strings.HasSuffix(n, ".MarshalIndent") || strings.HasSuffix(n, ".MarshalMsg")
}

// told: the call writes its arguments where others read them.
func told(ci *CallInfo) (string, bool) {
	n := ci.Name
	if strings.HasSuffix(n, ".Encoder.Encode") && (strings.HasPrefix(n, "encoding/json") || strings.HasPrefix(n, "gopkg.in/yaml")) {
		// what a server keeps for itself is its own matter
		if enc := callOf(ci.Args[0]); enc != nil && len(enc.Args) == 1 {
			w := enc.Args[0].strip()
			if w.k == KIface {
				w = w.a[0].strip()
			}
			if w.typ != nil && w.typ.String() == "*os.File" {
				return "", false
			}
		}
		return "the answer", true
	}
	return toldBy(n)
}

var logs = regexp.MustCompile(`^github.com/sirupsen/logrus\.(\w+\.)?(Trace|Debug|Info|Print|Warn|Warning|Error|Fatal|Panic|Log|WithField|WithFields|WithError)(f|ln)?$`)

func toldBy(n string) (string, bool) {
	switch {
	case logs.MatchString(n), strings.HasPrefix(n, "log."), strings.HasPrefix(n, "log/slog."),
		strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"):
		return "the log", true
	case n == "errors.New", n == "fmt.Errorf", strings.HasPrefix(n, "google.golang.org/grpc/status."), strings.HasPrefix(n, "github.com/pkg/errors."):
		return "an error", true
	case strings.HasPrefix(n, ginCtx):
		switch m := n[len(ginCtx):]; m {
		case "Set", "GetHeader", "Get", "SetCookie", "Query", "Param":
			return "", false
		}
		return "the answer", true
	case strings.HasPrefix(n, ginPkg+".ResponseWriter."), strings.HasPrefix(n, "net/http.ResponseWriter."), n == "net/http.Error", n == "net/http.Redirect",
		n == "io.WriteString", strings.HasPrefix(n, "bufio.Writer.Write"):
		return "the answer", true
	case strings.HasPrefix(n, "net/http.NewRequest"):
		return "an address", true
	}
	return "", false
}

func checkC25(c *Ctx) {
	c.Rule("told", "no secret reaches a log, an error, an answer or an address")
	c.Rule("shown", "a configuration that is shown has each of its secrets replaced")
	c.Rule("kept", "the configuration a server runs with keeps its secrets")
	m := &secrets{c, map[types.Type][][]string{}, map[*Term]string{}, map[*CallInfo]string{}, false, false}
	cands := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) || isGenerated(c.P, fn) {
			continue
		}
		if m.touches(fn) {
			cands[fn] = true
		}
	}
	c.Count("functions that touch secrets", len(cands))
	serving := map[*ssa.Function]bool{}
	for fn := range c.concurrentRoots() {
		serving[fn] = true
	}
	rpcs := map[*ssa.Function]bool{}
	for _, r := range c.RPCs("") {
		rpcs[c.P.base(r.Fn)] = true
	}
	shown := 0
	g := c.E.Graph()
	known := map[*ssa.Function]bool{}  // what is entered
	enters := map[*ssa.Function]bool{} // and what is handed one
	var explore func(fn *ssa.Function, quiet bool) bool
	explore = func(fn *ssa.Function, quiet bool) (open bool) {
		key := stableKey(fn)
		bad := func(rule string, pos token.Pos, format string, a ...any) {
			open = open || m.param
			m.sure = m.sure || !m.param
			m.param = false
			if !quiet {
				c.Bad(rule, key, pos, format, a...)
			}
		}
		m.param, m.sure = false, false
		told2 := func(x *Exec, st *State, ci *CallInfo, where string) {
			for i, a := range ci.Args {
				if strings.HasPrefix(ci.Name, "net/http.NewRequest") && i >= len(ci.Args)-1 {
					continue // the body
				}
				var what string
				if i > 0 && i == len(ci.Args)-1 && ci.Common.Signature().Variadic() {
					for _, e := range x.flatten(st, a) {
						if what = m.given(x, st, e, 0); what != "" {
							break
						}
					}
				}
				if what == "" {
					what = m.given(x, st, a, 0)
				}
				if what != "" {
					bad("told", ci.Site.Pos(), "%s is written to %s by %s", what, where, ci.Name)
				}
			}
		}
		r := &Rule{
			Relevant: func(_ *CallInfo, f *ssa.Function) bool { return enters[topFn(f)] || c.E.Weight(f) <= 25 },
			Fork:     true,
			Unroll:   6,
			OnGo:     func(*Exec, *State, *CallInfo) bool { return true },
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Fn != nil && !enters[ci.Fn] && m.c.P.InRepo(ci.Fn) {
				was := m.param
				for _, a := range ci.Args {
					if m.given(x, st, a, 0) != "" {
						enters[ci.Fn] = true
					}
				}
				m.param = was
			}
			if where, ok := told(ci); ok {
				c.Ok("told", key)
				told2(x, st, ci, where)
			}
			if f := ci.Fn; f != nil || ci.Closure != nil {
				if f == nil {
					f = ci.Closure.fn
				}
				if f != nil && topFn(f) == fn && f != fn {
					return ActEnter // goroutines and deferred functions of its own
				}
			}
			if !carrier(ci.Name) || predicate(ci.Name) {
				return ActDefault
			}
			act := ActDefault
			if strings.HasSuffix(ci.Name, ".MarshalMsg") {
				act = ActOpaque
			}
			// what is encoded is looked at before the library gets hold of it
			var args []*Term
			for _, a := range ci.Args {
				args = append(args, x.flatten(st, a)...)
			}
			for _, a := range args {
				in := a.strip()
				if in.k == KIface {
					in = in.a[0]
				}
				if in.typ != nil && len(m.of(in.typ)) > 0 {
					shown++
					c.Ok("shown", key)
				}
				if s := m.given(x, st, a, 0); s != "" {
					m.what[ci] = s
					st.Emit(Event{Kind: "encodes", Call: ci})
				}
			}
			return act
		}
		r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
			if ev := st.encoded(ci); ev {
				res := ci.Common.Signature().Results()
				for i := 0; i < res.Len(); i++ {
					if isErrorType(res.At(i).Type()) {
						continue
					}
					v := x.E.Res(ci, i)
					m.label[v] = m.what[ci]
					st.Emit(Event{Kind: "carries", Val: v, Call: ci})
				}
			}
			return nil
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k == KFAddr && addr.a[0].typ != nil {
				where := ""
				if o := addr.a[0].typ; types.Implements(o, errorIface) {
					where = "an error"
				} else if o.String() == "*net/url.URL" {
					where = "an address"
				}
				if where != "" {
					c.Ok("told", key)
					if what := m.given(x, st, val, 0); what != "" {
						bad("told", in.Pos(), "%s is kept in %s", what, where)
					}
				}
			}
			if !serving[fn] || addr.k != KFAddr || !secretName.MatchString(addr.op) {
				return
			}
			b := root(addr)
			for b.k == KLoad || b.k == KFAddr {
				b = b.a[0]
			}
			if b.k == KGlobal {
				bad("kept", in.Pos(), "%s of the running configuration is overwritten", addr.Pretty())
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if serving[fn] {
				c.Ok("kept", key)
			}
			for _, v := range res {
				if v.typ != nil && !isErrorType(v.typ) && m.given(x, st, v, 0) != "" {
					open = true
				}
			}
			if !rpcs[fn] || len(res) == 0 {
				return
			}
			t := res[0].strip()
			if t.typ == nil {
				return
			}
			p, ok := t.typ.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			s, ok := p.Elem().Underlying().(*types.Struct)
			if !ok {
				return
			}
			c.Ok("told", key)
			for i := 0; i < s.NumFields(); i++ {
				if !isTextType(s.Field(i).Type()) {
					continue
				}
				if what := m.given(x, st, x.field(st, t, s.Field(i).Name()), 0); what != "" {
					bad("told", at.Pos(), "%s is in the answer", what)
				}
			}
		}
		c.Run(fn, r)
		return open
	}
	// a function that keeps its secrets to itself needs no look at its callers
	roots := map[*ssa.Function]bool{}
	work := c.sorted(cands)
	for len(work) > 0 {
		fn := topFn(work[0])
		work = work[1:]
		if known[fn] {
			continue
		}
		known[fn], enters[fn] = true, true
		if explore(fn, true) {
			up := 0
			for _, p := range c.sorted(setOf(g.In[fn])) {
				if p = topFn(p); p != fn && !isMockOrTest(pkgPathOf(p)) {
					work = append(work, p)
					up++
				}
			}
			if up > 0 && !serving[fn] && !m.sure {
				continue
			}
		}
		roots[fn] = true
	}
	for _, fn := range c.sorted(roots) {
		explore(fn, false)
	}
	c.Count("structs with secrets shown", shown)
	c.Min("told", 10)
	c.Min("shown", 3)
	c.Min("kept", 3)
}

// touches: the function reads a secret, or hands on a struct that has some.
func (m *secrets) touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				s, _ := elemOf(v.X.Type()).Underlying().(*types.Struct)
				if s != nil && isSecretField(s.Field(v.Field).Type(), s.Field(v.Field).Name()) {
					return true
				}
			case *ssa.Field:
				s, _ := v.X.Type().Underlying().(*types.Struct)
				if s != nil && isSecretField(s.Field(v.Field).Type(), s.Field(v.Field).Name()) {
					return true
				}
			case *ssa.MakeInterface:
				if len(m.of(v.X.Type())) > 0 {
					return true
				}
			case *ssa.UnOp:
				if _, ok := v.Type().Underlying().(*types.Struct); ok && len(m.of(v.Type())) > 0 {
					return true
				}
			case ssa.CallInstruction:
				switch n := calleeName(v.Common()); n {
				case "net/http.Request.BasicAuth":
					return true
				case ginCtx + "GetHeader", "net/http.Header.Get", "net/http.Header.Values":
					for _, a := range v.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil {
							if s, _ := cstString(k.Value); strings.EqualFold(s, "authorization") {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func setOf(l []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range l {
		out[f] = true
	}
	return out
}

func (s *State) encoded(ci *CallInfo) bool {
	for _, ev := range s.trace {
		if ev.Kind == "encodes" && ev.Call == ci {
			return true
		}
	}
	return false
}
