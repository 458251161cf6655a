package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const apiRs = "apiserver/config.RsConfig"

func init() {
	register("C36", "Every place that makes a layout for writing or reading an object, names its shards or copies, and splits or joins its data is explored on every path; what the places do is written as formulas over what a version records, which must agree.", checkC36)
}

// layouts collects how objects are cut into shards at the places that write and read them.
type layouts struct {
	c     *Ctx
	rd    *reads
	codes map[*ssa.Function]bool // make an encoder or decoder
	opens map[*ssa.Function]bool
}

func checkC36(c *Ctx) {
	c.Rule("layout", "the blocks of an object are computed for writing and for reading by the same formula over what its version records and the configuration, and are never empty")
	c.Rule("name", "shards and copies are stored, continued and looked for under the same name, at the location of their position")
	c.Rule("size", "the size asked for when reading a shard or copy is the one announced when storing it")
	c.Rule("version", "an object is written and read with hash, size and compression of the version it is recorded in, or was found in")
	c.Rule("split", "each piece of a block is written to the shard of its position, parity after it was computed")
	c.Rule("token", "a resumable upload is continued, checked and recorded with the layout, servers and ids it was started with")
	l := &layouts{c: c, rd: &reads{&files{c}, map[string][]string{}}}
	l.codes = c.E.StaticReaching(func(n string) bool { return n == "github.com/klauspost/reedsolomon.New" })
	l.opens = c.E.StaticReaching(func(n string) bool { return n == apiWeb+"PostTmpObject" })
	l.configs()
	l.streams()
	l.versions()
	l.encoders()
	l.tokens()
	c.Min("layout", 3)
	c.Min("name", 4)
	c.Min("size", 4)
	c.Min("version", 4)
	c.Min("split", 2)
	c.Min("token", 5)
}

func isRs(t types.Type) bool { return typeNameOf(deref(t)) == apiRs }

func rsPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && isRs(t)
}

// formula writes a term over named values; ok is false if it depends on anything else than those and global variables.
func formula(t *Term, names map[*Term]string) (string, bool) {
	t = t.strip()
	if n := names[t]; n != "" {
		return n, true
	}
	switch t.k {
	case KConst:
		return t.op, true
	case KGlobal:
		return t.op, true
	case KLoad, KIface:
		return formula(t.a[0], names)
	case KField, KFAddr:
		s, ok := formula(t.a[0], names)
		return s + "." + t.op, ok
	case KAgg, KBin, KNot, KPure, KOther:
		okd := true
		var s []string
		for _, a := range t.a {
			f, o := formula(a, names)
			okd = okd && o
			s = append(s, f)
		}
		if t.k == KBin && (t.op == "+" || t.op == "*") {
			sort.Strings(s)
		}
		return t.op + "(" + strings.Join(s, ",") + ")", okd
	}
	return t.key, false
}

// configs compares the layouts that are made.
func (l *layouts) configs() {
	c := l.c
	type site struct {
		key string
		pos token.Pos
		set map[string]bool
	}
	sites := map[string]*site{}
	mentions := func(fn *ssa.Function) bool {
		sig := fn.Signature
		has := func(t types.Type) bool {
			n := typeNameOf(deref(t))
			return n == apiRs || n == "apiserver/config.ObjectConfig"
		}
		if sig.Recv() != nil && has(sig.Recv().Type()) {
			return true
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if has(sig.Params().At(i).Type()) {
				return true
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if has(sig.Results().At(i).Type()) {
				return true
			}
		}
		return strings.HasPrefix(pkgPathOf(fn), "common/util/math")
	}
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "apiserver/") || fn.Parent() != nil || isMockOrTest(pkgPathOf(fn)) || isGenerated(c.P, fn) {
			continue
		}
		makes := false
		c.calls(fn, func(ci ssa.CallInstruction, _ string) {
			cc := ci.Common()
			if f := cc.StaticCallee(); f != nil && l.codes[f] {
				for _, a := range cc.Args {
					if al, ok := a.(*ssa.Alloc); ok && rsPointer(al.Type()) {
						makes = true
					}
				}
			}
		})
		if !makes {
			continue
		}
		key := methodKey(fn)
		r := &Rule{Wide: 20}
		r.Relevant = func(ci *CallInfo, f *ssa.Function) bool { return mentions(f) }
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if ci.Fn == nil || !l.codes[ci.Fn] {
				if ci.Fn != nil && mentions(ci.Fn) {
					return ActDefault
				}
				return ActOpaque
			}
			var cfg, opt *Term
			for i, a := range ci.Args {
				if i < len(ci.Common.Args) && rsPointer(ci.Common.Args[i].Type()) {
					cfg = a.strip()
				}
				if isStreamOption(a) {
					opt = a.strip()
				}
			}
			if cfg == nil || opt == nil {
				return ActPure
			}
			s := sites[key]
			if s == nil {
				s = &site{key, ci.Site.Pos(), map[string]bool{}}
				sites[key] = s
			}
			names := map[*Term]string{
				x.field(st, opt, "Size").strip():         "size",
				x.field(st, cfg, "DataShards").strip():   "data",
				x.field(st, cfg, "ParityShards").strip(): "parity",
			}
			for t, n := range names {
				if t.k == KConst {
					delete(names, t)
					_ = n
				}
			}
			bps := x.field(st, cfg, "BlockPerShard")
			f, okd := formula(bps, names)
			if !okd {
				c.Bad("layout", key, ci.Site.Pos(), "%s cuts an object into blocks of %s, which its version does not tell", key, bps.Pretty())
				return ActPure
			}
			var facts []string
			least := bps.k == KConst && x.atLeast(st, bps, 1)
			for fa, v := range st.facts {
				t, o := formula(fa, names)
				if !o || !strings.Contains(t, "size") && !strings.Contains(t, "data") && !strings.Contains(t, "parity") {
					continue
				}
				if !v {
					t = "not " + t
				}
				facts = append(facts, t)
			}
			sort.Strings(facts)
			s.set[strings.Join(facts, " & ")+" => "+f] = true
			// as configured, or known not to be empty
			conf := strings.HasSuffix(f, ".BlockPerShard") && !strings.Contains(f, "(")
			c.Check(conf || least || x.atLeast(st, bps, 1), "layout", key+" blocks", ci.Site.Pos(), "%s can cut an object into empty blocks", key)
			return ActPure
		}
		c.Run(fn, r)
	}
	var all []*site
	for _, s := range sites {
		all = append(all, s)
	}
	// what reads and writes most objects is what the others are compared to
	sort.Slice(all, func(i, j int) bool { return all[i].key < all[j].key })
	for i, s := range all {
		same := len(all) > 1
		other := ""
		for j, o := range all {
			if i == j || sameSet(s.set, o.set) {
				continue
			}
			same = false
			other = o.key
		}
		c.Check(same, "layout", s.key, s.pos, "%s does not cut objects into the blocks that %s cuts them into", s.key, other)
	}
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// streams compares the names, locations and sizes of shards and copies.
func (l *layouts) streams() {
	c := l.c
	// what opens a stream of one shard or copy
	single := func(ci *CallInfo) string {
		if ci.Fn == nil || !strings.HasPrefix(ci.Name, apiSvc) || ci.Fn.Signature.Recv() != nil {
			return ""
		}
		sig := ci.Fn.Signature
		if sig.Results().Len() == 0 || sig.Params().Len() < 2 || !isString(sig.Params().At(0).Type()) || !isString(sig.Params().At(1).Type()) {
			return ""
		}
		if !strings.HasSuffix(typeNameOf(deref(sig.Results().At(0).Type())), "Stream") {
			return ""
		}
		if l.opens[ci.Fn] {
			return "put"
		}
		return "get"
	}
	var fns []*ssa.Function
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn)+".", apiSvc) {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, n string) {
			if f := ci.Common().StaticCallee(); f != nil && single(&CallInfo{Fn: f, Name: n}) != "" {
				fns = append(fns, fn)
			}
		})
	}
	var names, sizes = map[string][]string{}, map[string][]string{}
	poss := map[string]token.Pos{}
	add := func(m map[string][]string, what, key string, pos token.Pos) {
		m[what] = append(m[what], key)
		poss[key] = pos
	}
	for _, fn := range c.entryRoots(fns) {
		key := methodKey(fn)
		if !strings.HasPrefix(pkgPathOf(fn)+".", apiSvc) {
			continue
		}
		kind := "copy"
		for _, p := range fn.Params {
			if isRs(p.Type()) {
				kind = "shard"
			}
		}
		r := &Rule{Wide: 8, Elements: true}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			k := single(ci)
			if k == "" {
				if ci.Fn != nil && (strings.HasPrefix(ci.Name, apiRs) || ci.Fn.Parent() != nil || pkgPathOf(ci.Fn)+"." == apiSvc && !l.makesCode(ci.Fn)) {
					return ActDefault
				}
				if ci.Fn != nil && !isGetter(ci.Fn) && takesAlloc(ci) {
					return ActOpaque
				}
				return ActPure
			}
			pos := ci.Site.Pos()
			var idx *Term
			_, li := elemAt(ci.Args[0])
			name := ci.Args[1]
			for i, a := range ci.Args[1:] {
				if i+1 >= len(ci.Common.Args) || !isString(ci.Common.Args[i+1].Type()) {
					continue
				}
				if _, ni := elemAt(a); ni != nil {
					// an id: the one of the same position
					c.Check(li == ni, "name", key+" id", pos, "%s takes the id of one shard at the server of another one", key)
				}
			}
			for _, p := range l.rd.pieces(x, st, name) {
				if p.k != KConst && p.typ != nil && isIntType(p.typ) {
					idx = p.strip()
				}
			}
			if idx != nil {
				var text strings.Builder
				for _, p := range l.rd.pieces(x, st, name) {
					switch {
					case p.k == KConst:
						text.WriteString(textOf(p))
					case p.strip() == idx:
						text.WriteString("<position>")
					case isFieldOf(p, "Hash"):
						text.WriteString("<hash>")
					default:
						text.WriteString("<" + p.Pretty() + ">")
					}
				}
				add(names, text.String(), key+" "+ci.Name[strings.LastIndex(ci.Name, ".")+1:], pos)
				if li != nil {
					c.Check(li == idx, "name", key+" location", pos, "%s looks for or stores a shard or copy at the location of another one", key)
				}
			}
			for i, a := range ci.Args {
				if i < 2 || i >= ci.Fn.Signature.Params().Len() || !isIntType(ci.Fn.Signature.Params().At(i).Type()) {
					continue
				}
				nm := map[*Term]string{}
				a.walk(func(t *Term) {
					t = t.strip()
					switch {
					case isFieldOf(t, "Size", apiSvc+"StreamOption"):
						nm[t] = "size"
					case isFieldOf(t, "DataShards", apiRs):
						nm[t] = "data"
					}
				})
				f, okd := formula(a, nm)
				if !okd {
					f = "?" + f
				}
				add(sizes, kind+" "+f, key+" "+ci.Name[strings.LastIndex(ci.Name, ".")+1:], pos)
			}
			if idx != nil {
				st.Emit(Event{Kind: k, Call: ci, Val: ci.Sym, Args: []*Term{idx}})
			}
			return ActPure
		}
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			v := val.strip()
			if v.k == KIface {
				v = v.a[0].strip()
			}
			if addr.k != KIAddr || v.k != KRes && v.k != KSym {
				return
			}
			for i := len(st.trace) - 1; i >= 0; i-- {
				ev := &st.trace[i]
				if len(ev.Args) != 1 || v != ev.Val && (v.k != KRes || v.a[0] != ev.Val) {
					continue
				}
				c.Check(addr.a[1].strip() == ev.Args[0], "name", key+" position", in.Pos(), "%s keeps the stream of a shard or copy at the position of another one", key)
				return
			}
		}
		c.dgHooks(r, func(ci *CallInfo) bool {
			hit := false
			if ci.Fn != nil {
				for _, f := range append([]*ssa.Function{ci.Fn}, ci.Fn.AnonFuncs...) {
					c.calls(f, func(in ssa.CallInstruction, n string) {
						if g := in.Common().StaticCallee(); g != nil {
							hit = hit || single(&CallInfo{Fn: g, Name: n}) != ""
						}
					})
				}
			}
			return hit
		})
		c.Run(fn, r)
	}
	l.agree("name", names, poss, func(string) string { return "" }, "%s names what it stores or looks for %s, others do it as %s")
	l.agree("size", sizes, poss, func(s string) string { return strings.Fields(s)[0] }, "%s announces or asks for a size of %s, others of %s")
}

// takesAlloc: a library function is given something to fill.
func takesAlloc(ci *CallInfo) bool {
	for _, a := range ci.Common.Args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if _, ok := a.(*ssa.Alloc); ok {
			return true
		}
	}
	return false
}

func (l *layouts) makesCode(f *ssa.Function) bool {
	hit := false
	l.c.calls(f, func(_ ssa.CallInstruction, n string) { hit = hit || n == "github.com/klauspost/reedsolomon.New" })
	return hit
}

// agree: within a group all sites say the same; the minority is reported.
func (l *layouts) agree(rule string, m map[string][]string, poss map[string]token.Pos, group func(string) string, format string) {
	most := map[string]string{}
	var texts []string
	for t := range m {
		texts = append(texts, t)
	}
	sort.Strings(texts)
	for _, t := range texts {
		g := group(t)
		if o, ok := most[g]; !ok || len(m[t]) > len(m[o]) {
			most[g] = t
		}
	}
	for _, t := range texts {
		o := most[group(t)]
		for _, key := range m[t] {
			l.c.Check(t == o, rule, key, poss[key], format, key, t, o)
		}
	}
}

// versions: a stream is made for the version it is used for.
func (l *layouts) versions() {
	c := l.c
	isVer := func(t *Term) bool {
		t = t.strip()
		return t.typ != nil && typeNameOf(deref(t.typ)) == "apiserver/internal/entity.Version"
	}
	provides := func(ci *CallInfo) bool {
		res := ci.Common.Signature().Results()
		return res.Len() == 1 && typeNameOf(res.At(0).Type()) == apiSvc+"StreamProvider" && len(ci.Args) >= 2
	}
	var fns []*ssa.Function
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "apiserver/") || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		c.calls(fn, func(ci ssa.CallInstruction, n string) {
			cc := ci.Common()
			res := cc.Signature().Results()
			if res.Len() != 1 || typeNameOf(res.At(0).Type()) != apiSvc+"StreamProvider" {
				return
			}
			for _, a := range cc.Args {
				if typeNameOf(deref(a.Type())) == "apiserver/internal/entity.Version" {
					fns = append(fns, topFn(fn))
				}
			}
		})
	}
	for _, fn := range c.entryRoots(fns) {
		key := methodKey(fn)
		r := &Rule{Wide: 8}
		r.Relevant = func(ci *CallInfo, f *ssa.Function) bool {
			return f.Parent() != nil || pkgPathOf(f) == pkgPathOf(fn)
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if provides(ci) {
				var opt, ver *Term
				for _, a := range ci.Args {
					if isStreamOption(a) {
						opt = a.strip()
					}
					if isVer(a) {
						ver = a.strip()
					}
				}
				if opt == nil || ver == nil {
					return ActPure
				}
				for _, f := range []string{"Hash", "Size", "Compress"} {
					a, b := x.field(st, opt, f).strip(), x.field(st, ver, f).strip()
					same := a == b || x.Eval(st, x.E.T.bin("==", a, b, types.Typ[types.Bool])) == Yes
					if !same && f == "Compress" {
						same = x.Eval(st, a) != Unknown && x.Eval(st, a) == x.Eval(st, b)
					}
					c.Check(same, "version", key+" "+f, ci.Site.Pos(), "%s makes a stream with another %s than that of the version", key, f)
				}
				st.Emit(Event{Kind: "provider", Call: ci, Val: ci.Sym, Args: []*Term{ver}})
				return ActPure
			}
			if strings.HasSuffix(ci.Name, ".GetStream") && len(ci.Args) == 2 {
				if ev := st.Last("provider"); ev != nil {
					c.Check(isFieldOf(ci.Args[1], "Locate") && ci.Args[1].strip() == x.field(st, ev.Args[0], "Locate").strip(), "version", key+" Locate", ci.Site.Pos(), "%s reads an object at other locations than those of the version", key)
				}
				return ActPure
			}
			if ci.Fn != nil && (ci.Fn.Parent() != nil || pkgPathOf(ci.Fn)+"." == apiSvc) && ci.Fn.Signature.Recv() == nil {
				return ActDefault
			}
			if ci.Name == "apiserver/internal/entity.Bucket.MakeVersion" {
				return ActOpaque
			}
			return ActPure
		}
		c.dgHooks(r, nil)
		c.Run(fn, r)
	}
}

// encoders: each piece goes to the shard of its position.
func (l *layouts) encoders() {
	c := l.c
	const enc = "github.com/klauspost/reedsolomon.Encoder."
	for _, fn := range c.callersOf(func(n string) bool { return n == enc+"Encode" }) {
		if !strings.HasPrefix(pkgPathOf(fn)+".", apiSvc) {
			continue
		}
		fn = topFn(fn)
		key := methodKey(fn)
		r := &Rule{Wide: 8, LoopEvents: true}
		// where a piece lies in what was split
		place := func(t *Term) (base, idx *Term, x2 []*Term) {
			b, i := elemAt(t)
			if b == nil {
				return nil, nil, nil
			}
			sum := []*Term{i}
			for b.k == KOther && b.op == "slice" {
				if lo := b.a[1]; lo.op != "_" && !(lo.k == KConst && lo.op == "0") {
					sum = append(sum, lo.strip())
				}
				b = b.a[0].strip()
			}
			return b, i, sum
		}
		addends := func(t *Term) []*Term {
			var out []*Term
			var walk func(t *Term)
			walk = func(t *Term) {
				t = t.strip()
				if t.k == KBin && t.op == "+" {
					walk(t.a[0])
					walk(t.a[1])
					return
				}
				out = append(out, t)
			}
			walk(t)
			return out
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case ci.Name == enc+"Split":
				st.Emit(Event{Kind: "split", Call: ci, Val: ci.Sym})
				return ActPure
			case ci.Name == enc+"Encode":
				st.Emit(Event{Kind: "encode", Call: ci, Val: x.E.ErrRes(ci), Args: ci.Args})
				return ActPure
			case strings.HasSuffix(ci.Name, ".Write") && ci.Common.IsInvoke() && len(ci.Args) == 2:
				wb, wi := elemAt(ci.Args[0])
				b, _, sum := place(ci.Args[1])
				if wb == nil || b == nil {
					c.Bad("split", key, ci.Site.Pos(), "%s writes what is not a piece of the block, or not to the shard of a position", key)
					return ActPure
				}
				var have []*Term
				for _, s := range sum {
					have = append(have, addends(s)...)
				}
				c.Check(sameTerms(have, addends(wi)), "split", key, ci.Site.Pos(), "%s writes a piece of a block to the shard of another position", key)
				sp := st.Last("split")
				c.Check(sp != nil && b.k == KRes && b.a[0] == sp.Val, "split", key+" block", ci.Site.Pos(), "%s writes something else than the pieces of the block", key)
				parity := false
				for _, s := range sum {
					parity = parity || isFieldOf(s, "DataShards")
				}
				if parity {
					ok := false
					for i := range st.trace {
						if ev := &st.trace[i]; ev.Kind == "encoded" || ev.Kind == "encode" && x.nilness(st, ev.Val) == Yes {
							ok = true
						}
					}
					c.Check(ok, "split", key+" parity", ci.Site.Pos(), "%s writes parity before it was computed without error", key)
				}
				return ActPure
			case aside(ci.Name) && dgMethod(ci.Name) == "" && !strings.HasSuffix(ci.Name, "Group"):
				return ActPure
			}
			return ActDefault
		}
		r.OnBranch = func(x *Exec, st *State) {
			if ev := st.Last("encode"); ev != nil && x.nilness(st, ev.Val) == Yes {
				st.Emit(Event{Kind: "encoded"})
			}
		}
		c.dgHooks(r, nil)
		c.Run(fn, r)
	}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	used := map[int]bool{}
	for _, t := range a {
		hit := false
		for j, o := range b {
			if !used[j] && (t == o || t.Pretty() == o.Pretty() && t.k == KLoad && isFieldOf(t, "DataShards")) {
				used[j], hit = true, true
				break
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

const apiToken = apiSvc + "resumeToken"

// tokens: what continues an upload uses what is kept of its start.
func (l *layouts) tokens() {
	c := l.c
	hasToken := func(t types.Type) bool { return hasField2(t, apiToken, 0) }
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "apiserver/") || fn.Parent() != nil || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		sig := fn.Signature
		returns := sig.Results().Len() == 2 && hasToken(sig.Results().At(0).Type())
		method := sig.Recv() != nil && hasToken(sig.Recv().Type())
		uses := false
		c.calls(fn, func(ci ssa.CallInstruction, _ string) {
			res := ci.Common().Signature().Results()
			if res.Len() == 2 && hasToken(res.At(0).Type()) {
				uses = true
			}
		})
		key := methodKey(fn)
		switch {
		case returns:
			l.starts(fn, key)
		case method:
			l.continues(fn, key)
		case uses:
			l.records(fn, key)
		}
	}
}

func hasField2(t types.Type, name string, d int) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok || d > 3 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() && (typeNameOf(deref(f.Type())) == name || hasField2(f.Type(), name, d+1)) {
			return true
		}
	}
	return false
}

// starts: the layout kept is the one the streams were opened with, and the ones opened again use what was kept.
func (l *layouts) starts(fn *ssa.Function, key string) {
	c := l.c
	r := &Rule{Wide: 4}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Fn == nil || !l.codes[ci.Fn] {
			return ActOpaque
		}
		ev := Event{Kind: "stream", Call: ci, Val: ci.Sym}
		for i, a := range ci.Args {
			if i >= len(ci.Common.Args) {
				break
			}
			t := ci.Common.Args[i].Type()
			switch {
			case rsPointer(t):
				ev.Args = append(ev.Args, a.strip())
			case !l.opens[ci.Fn] && isTextList(t):
				ev.Args = append(ev.Args, a.strip())
			}
		}
		st.Emit(ev)
		return ActPure
	}
	r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.k == KFAddr && addr.a[0].typ != nil && typeNameOf(deref(addr.a[0].typ)) == apiToken && rsPointer2(val) {
			st.Emit(Event{Kind: "kept", Val: val.strip()})
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		ev := st.Last("stream")
		if x.nilness(st, res[1]) == No || ev == nil {
			return
		}
		if l.opens[ev.Call.Fn] {
			k := st.Last("kept")
			c.Check(k != nil && len(ev.Args) > 0 && k.Val == ev.Args[0], "token", key+" layout", at.Pos(), "%s does not keep the layout the upload is started with", key)
			return
		}
		seen := map[string]bool{}
		okd := len(ev.Args) >= 3
		var root *Term
		for _, a := range ev.Args {
			b, f := fieldOfTerm(a)
			if b == nil || b.typ == nil || typeNameOf(deref(b.typ)) != apiToken && typeNameOf(b.typ) != apiToken {
				okd = false
				continue
			}
			if root == nil {
				root = b
			}
			okd = okd && root == b && !seen[f]
			seen[f] = true
		}
		c.Check(okd && seen["Config"] && seen["Servers"] && seen["Ids"], "token", key+" layout", at.Pos(), "%s does not continue an upload with the layout, servers and ids kept of it", key)
	}
	c.Run(fn, r)
}

func rsPointer2(t *Term) bool { return t.typ != nil && rsPointer(t.typ) }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isTextList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isText(s.Elem())
}

// fieldOfTerm splits the read of a field.
func fieldOfTerm(t *Term) (base *Term, field string) {
	t = t.strip()
	switch {
	case t.k == KLoad && t.a[0].k == KFAddr:
		return t.a[0].a[0].strip(), t.a[0].op
	case t.k == KField:
		return t.a[0].strip(), t.op
	}
	return nil, ""
}

// continues: what reads an upload back uses its own layout, servers, ids and size.
func (l *layouts) continues(fn *ssa.Function, key string) {
	c := l.c
	r := &Rule{Wide: 4}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if ci.Fn == nil || !l.codes[ci.Fn] || ci.Fn.Signature.Recv() != nil {
			return ActPure
		}
		for i, a := range ci.Args {
			if i >= len(ci.Common.Args) {
				break
			}
			t := ci.Common.Args[i].Type()
			switch {
			case rsPointer(t):
				c.Check(isFieldOf(a, "Config", apiToken), "token", key+" layout", ci.Site.Pos(), "%s reads an upload back in another layout", key)
			case isTextList(t):
				c.Check(isFieldOf(a, "Ids", apiToken), "token", key+" ids", ci.Site.Pos(), "%s reads back something else than what was uploaded", key)
			case isStreamOption(a):
				c.Check(isFieldOf(x.field(st, a, "Locates"), "Servers", apiToken) && isFieldOf(x.field(st, a, "Size"), "Size", apiToken), "token", key+" servers", ci.Site.Pos(), "%s reads an upload back from other servers, or with another size", key)
			}
		}
		return ActPure
	}
	c.Run(fn, r)
}

// records: the version recorded of an upload tells its layout.
func (l *layouts) records(fn *ssa.Function, key string) {
	c := l.c
	cst := constByName(c.P.ByPth["apiserver/internal/entity"].Types, "ECReedSolomon")
	r := &Rule{Wide: 8}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		res := ci.Common.Signature().Results()
		if res.Len() == 2 && hasField2(res.At(0).Type(), apiToken, 0) {
			ev := Event{Kind: "upload", Call: ci, Val: ci.Sym}
			for i, a := range ci.Args {
				if i < len(ci.Common.Args) && rsPointer(ci.Common.Args[i].Type()) {
					ev.Args = append(ev.Args, a.strip())
				}
			}
			st.Emit(ev)
			return ActPure
		}
		for _, a := range ci.Args {
			v := a.strip()
			if v.typ == nil || typeNameOf(deref(v.typ)) != "apiserver/internal/entity.Version" {
				continue
			}
			up := st.Last("upload")
			if up == nil || len(up.Args) > 0 {
				continue
			}
			pos := ci.Site.Pos()
			for _, f := range []string{"DataShards", "ParityShards"} {
				t := x.field(st, v, f).strip()
				b, n := fieldOfTerm(t)
				ok := n == f && b != nil && isFieldOf(b, "Config", apiToken) && b.contains(up.Val)
				c.Check(ok, "token", key+" "+f, pos, "%s records an upload with another number of shards (%s) than it has", key, t.Pretty())
			}
			t := x.field(st, v, "Size").strip()
			c.Check(isFieldOf(t, "Size", apiToken) && t.contains(up.Val), "token", key+" Size", pos, "%s records an upload with another size", key)
			k, ok := x.constOf(st, x.field(st, v, "StoreStrategy"))
			var n int64 = -1
			if ok {
				n, _ = constInt(k)
			}
			c.Check(n == cst, "token", key+" StoreStrategy", pos, "%s records an upload with another strategy", key)
		}
		return ActPure
	}
	c.Run(fn, r)
}
