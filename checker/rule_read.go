package main

import (
	"go/constant"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "The handlers that read, store and remove objects are explored on every path with opening, seeking, skipping, limiting and copying noted as events and the readers and writers in between resolved; what is answered from the cache is judged by linear facts on offset, size and length, and keys of the cache are compared piece by piece.", checkC14)
}

// lin is a sum of terms with factors and a constant.
type lin struct {
	co map[*Term]int64
	k  int64
}

func linOf(x *Exec, st *State, t *Term, by int64, out *lin) {
	t = t.strip()
	if v, ok := x.constOf(st, t); ok {
		if n, ok := constInt(v); ok {
			out.k += by * n
			return
		}
	}
	switch {
	case t.k == KBin && t.op == "+":
		linOf(x, st, t.a[0], by, out)
		linOf(x, st, t.a[1], by, out)
	case t.k == KBin && t.op == "-":
		linOf(x, st, t.a[0], by, out)
		linOf(x, st, t.a[1], -by, out)
	case isLen(t) && t.a[0].strip().k == KOther && t.a[0].strip().op == "slice":
		// the length of a slice is its end less its begin
		s := t.a[0].strip()
		if s.a[2].op != "_" {
			linOf(x, st, s.a[2], by, out)
		} else {
			linOf(x, st, x.E.T.mk(Term{k: KPure, op: "len", a: []*Term{s.a[0].strip()}, typ: t.typ}), by, out)
		}
		if s.a[1].op != "_" {
			linOf(x, st, s.a[1], -by, out)
		}
	default:
		out.co[t] += by
		if out.co[t] == 0 {
			delete(out.co, t)
		}
	}
}

// diff is y - x.
func diff(e *Exec, st *State, y, x *Term) *lin {
	l := &lin{co: map[*Term]int64{}}
	if y != nil {
		linOf(e, st, y, 1, l)
	}
	if x != nil {
		linOf(e, st, x, -1, l)
	}
	return l
}

func (l *lin) zero() bool { return len(l.co) == 0 && l.k == 0 }

// atMost: one fact of the path (or none) makes l >= 0.
func (l *lin) holds(x *Exec, st *State) bool {
	if len(l.co) == 0 {
		return l.k >= 0
	}
	for f, v := range st.facts {
		if f.k != KBin || f.op != "<" && !(f.op == "==" && v) {
			continue
		}
		var g []*lin
		switch {
		case f.op == "==":
			g = append(g, diff(x, st, f.a[1], f.a[0]), diff(x, st, f.a[0], f.a[1]))
		case v: // a < b: b - a - 1 >= 0
			d := diff(x, st, f.a[1], f.a[0])
			d.k--
			g = append(g, d)
		default: // a >= b
			g = append(g, diff(x, st, f.a[0], f.a[1]))
		}
		for _, d := range g {
			if len(d.co) != len(l.co) || d.k > l.k {
				continue
			}
			same := true
			for t, n := range l.co {
				if d.co[t] != n {
					same = false
				}
			}
			if same {
				return true
			}
		}
	}
	return false
}

// callOf is the call a term is a result of.
func callOf(t *Term) *CallInfo {
	t = t.strip()
	if t.k == KRes {
		t = t.a[0]
	}
	return t.call
}

type reads struct {
	*files
	// pieces of the keys looked up, by what compress is
	keys map[string][]string
}

// offset: the term is the first byte the request asks for.
func (f *reads) offset(t *Term) bool {
	if t = t.strip(); t.k != KRes && t.k != KField && t.k != KLoad {
		return false
	}
	hit := false
	t.walk(func(s *Term) {
		if s.call != nil && strings.Contains(s.call.Name, "request.Range.") && !strings.HasSuffix(s.call.Name, ".ConvertFrom") {
			hit = true
		}
	})
	return hit
}

func sizeAsked(t *Term) bool { return strings.Contains(tagOf(t), `header:"size"`) }

func nameAsked(t *Term) bool { return t != nil && uriParam(t) }

// compressed is the compress parameter of the request, if the handler binds one.
func isCompress(t *Term) bool { return strings.Contains(tagOf(t), `form:"compress"`) }

// chain resolves a reader: the file behind it, the most that is read, and the decompressing reader.
func (f *reads) chain(x *Exec, st *State, rd *Term) (file, limit, unpack *Term) {
	for i := 0; i < 8; i++ {
		rd = rd.strip()
		if rd.k == KAlloc {
			if n := typeNameOf(deref(rd.typ)); n == "io.LimitedReader" || n == "common/system/disk.AlignedLimitedReader" {
				limit = x.field(st, rd, "N")
				rd = x.field(st, rd, "R")
				continue
			}
			return rd, limit, unpack
		}
		if l := st.terms["limit:"+rd.key]; l != nil {
			limit = l
			rd = st.terms["behind:"+rd.key]
			continue
		}
		if u := st.terms["behind:"+rd.key]; u != nil {
			if ci := callOf(rd); ci != nil && strings.Contains(ci.Name, "compress") {
				unpack = rd
			}
			rd = u
			continue
		}
		break
	}
	return rd, limit, unpack
}

// outputs are the writers a writer writes to.
func (f *reads) outputs(st *State, w *Term) []*Term {
	w = w.strip()
	var out []*Term
	for i := 0; ; i++ {
		t := st.terms["out"+strconv.Itoa(i)+":"+w.key]
		if t == nil {
			break
		}
		out = append(out, f.outputs(st, t)...)
	}
	if len(out) == 0 {
		out = append(out, w)
	}
	return out
}

func isResponseWriter(t *Term) bool {
	t = t.strip()
	return lastField(t) == "Writer" && t.a[0].typ != nil || t.typ != nil && strings.HasSuffix(typeNameOf(t.typ), "gin.ResponseWriter")
}

func checkC14(c *Ctx) {
	c.Rule("exact", "a request for an object or an upload that is not answered from the cache is answered with success only after the bytes asked for, of the file found under the name asked for, were copied without error: from the offset on, not more than the size, unpacked if and only if that is asked for")
	c.Rule("served", "what is answered from the cache is the part from the offset with the size that was asked for, which is known to lie inside of what was cached under this name and kind")
	c.Rule("cached", "data is cached as the content of an object only after the same bytes were stored without error, or were read without error from the begin of the object")
	c.Rule("paged", "a file opened for direct I/O is read in whole pages and from the begin of a page, or direct I/O was switched off")
	c.Rule("packed", "what gets the name of an object was written compressed if and only if the request asks for that")
	c.Rule("apart", "keys of the cache begin with one of several distinct words, or are known to")
	c.Rule("dropped", "removing an object is answered with success only if everything it is cached under was dropped after that")
	f := &reads{&files{c}, map[string][]string{}}
	words := map[string]string{}
	var dels []func()
	for _, rt := range c.GinRoutes("objectserver/") {
		k := rt.Key()
		for i, h := range rt.Own {
			fn := c.E.baseFn(h.strip())
			if fn == nil {
				continue
			}
			last := i == len(rt.Own)-1
			if k == "DELETE /objects/:name" {
				dels = append(dels, func() { f.handler(fn, k, last, words) })
				continue
			}
			f.handler(fn, k, last, words)
		}
	}
	for _, d := range dels {
		d()
	}
	for p, at := range words {
		for q := range words {
			if p != q {
				c.Check(!strings.HasPrefix(q, p), "apart", at, token.NoPos, "keys that begin with %q and with %q are mixed up", p, q)
			}
		}
	}
	c.Count("words that keys of the cache begin with", len(words))
	c.Min("exact", 2)
	c.Min("served", 1)
	c.Min("cached", 2)
	c.Min("paged", 2)
	c.Min("packed", 2)
	c.Min("apart", 3)
	c.Min("dropped", 1)
}

// pieces takes a text apart into constant and other pieces; constant ones are prefixed by "=".
func (f *reads) pieces(x *Exec, st *State, t *Term) []*Term {
	t = t.strip()
	if t.k != KConst && (t.k == KRes || t.k == KLoad || t.k == KField) && (nameAsked(t) || isCompress(t)) {
		return []*Term{t}
	}
	if v, ok := x.constOf(st, t); ok && v != nil {
		switch v.Kind() {
		case constant.String:
			return []*Term{x.E.T.ConstVal(v, nil)}
		case constant.Bool:
			return []*Term{x.E.T.ConstVal(constant.MakeString(v.String()), nil)}
		}
	}
	if isBoolConst(t) {
		return []*Term{x.E.T.ConstVal(constant.MakeString(t.op), nil)}
	}
	var out []*Term
	switch {
	case t.k == KBin && t.op == "+" && (t.typ == nil || !isIntType(t.typ)):
		out = append(f.pieces(x, st, t.a[0]), f.pieces(x, st, t.a[1])...)
	case t.k == KPure && t.op == "fmt.Sprint":
		for _, a := range t.a {
			out = append(out, f.pieces(x, st, a)...)
		}
	case t.k == KPure && t.op == "strings.Join" && len(t.a) == 2:
		for i, e := range x.flatten(st, t.a[0]) {
			if i > 0 {
				out = append(out, f.pieces(x, st, t.a[1])...)
			}
			out = append(out, f.pieces(x, st, e)...)
		}
	case t.k == KPure && t.op == "fmt.Sprintf" && len(t.a) > 0 && t.a[0].strip().cst != nil:
		s, _ := cstString(t.a[0].strip().cst)
		n := 1
		for s != "" {
			i := strings.IndexByte(s, '%')
			if i < 0 || i+1 >= len(s) {
				break
			}
			if i > 0 {
				out = append(out, x.E.T.ConstVal(constant.MakeString(s[:i]), nil))
			}
			if n < len(t.a) && strings.IndexByte("vstdq", s[i+1]) >= 0 {
				out = append(out, f.pieces(x, st, t.a[n])...)
				n++
			}
			s = s[i+2:]
		}
		if s != "" {
			out = append(out, x.E.T.ConstVal(constant.MakeString(s), nil))
		}
	case t.k == KPure && (t.op == "strconv.FormatBool" || t.op == "strconv.Itoa") && len(t.a) == 1:
		out = f.pieces(x, st, t.a[0])
	default:
		if ci := callOf(t); ci != nil && ci.Name == "strconv.FormatBool" {
			return f.pieces(x, st, ci.Args[0])
		}
		return []*Term{t}
	}
	return out
}

// keyText is a key with the pieces written out; what is asked for as compress is replaced by comp.
func (f *reads) keyText(x *Exec, st *State, key *Term, comp string) (text string, named, compressed bool) {
	var sb strings.Builder
	for _, p := range f.pieces(x, st, key) {
		switch {
		case p.k == KConst:
			s, _ := cstString(p.cst)
			sb.WriteString(s)
		case isCompress(p):
			compressed = true
			sb.WriteString(comp)
		case nameAsked(p):
			named = true
			sb.WriteString("\x00name\x00")
		default:
			sb.WriteString("\x00" + p.key + "\x00")
		}
	}
	return sb.String(), named, compressed
}

// asksCompress: what the path knows of the request's compress parameter.
func (f *reads) asksCompress(x *Exec, st *State) Tri {
	for fa, v := range st.facts {
		if isCompress(fa) {
			return tri(v)
		}
	}
	return Unknown
}

// texts are the keys a lookup stands for.
func (f *reads) texts(x *Exec, st *State, key *Term) (out []string, ok bool) {
	a, named, comp := f.keyText(x, st, key, "true")
	b, _, _ := f.keyText(x, st, key, "false")
	if !named {
		return nil, false
	}
	known := f.asksCompress(x, st)
	if !comp && known == Unknown && st.vars["compress"] == "" {
		return nil, false
	}
	if !comp {
		return []string{a}, true
	}
	switch known {
	case Yes:
		return []string{a}, true
	case No:
		return []string{b}, true
	}
	return []string{a, b}, true
}

func (f *reads) contentKey(key *Term) bool {
	p := keyPrefix(key)
	return p != "" && p != f.c.markPrefix()
}

func (f *reads) handler(fn *ssa.Function, route string, last bool, words map[string]string) {
	c := f.c
	key := route + " " + methodKey(fn)
	object := strings.Contains(route, "/objects/")
	r := &Rule{Wide: 4, Unroll: 4}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if c.onAnswer(x, st, ci) {
			return ActPure
		}
		n := ci.Name
		if strings.HasPrefix(n, "common/cache.ICache.") && len(ci.Args) > 1 {
			f.word(x, st, ci, key, words)
		}
		switch {
		case strings.HasPrefix(n, "common/request.Range."):
			if strings.HasSuffix(n, ".ConvertFrom") {
				return ActOpaque
			}
			return ActPure
		case n == "io.LimitReader":
			st.terms["limit:"+x.E.Res(ci, 0).key] = ci.Args[1]
			st.terms["behind:"+x.E.Res(ci, 0).key] = ci.Args[0].strip()
			return ActPure
		case n == "io.TeeReader":
			st.terms["behind:"+x.E.Res(ci, 0).key] = ci.Args[0].strip()
			st.terms["out0:tee:"+x.E.Res(ci, 0).key] = ci.Args[1].strip()
			return ActPure
		case strings.HasPrefix(n, "bufio.NewReader"), strings.HasPrefix(n, "github.com/klauspost/compress/") && strings.HasSuffix(n, ".NewReader"):
			st.terms["behind:"+x.E.Res(ci, 0).key] = ci.Args[0].strip()
			return ActPure
		case n == "io.MultiWriter":
			for i, w := range x.flatten(st, ci.Args[0]) {
				st.terms["out"+strconv.Itoa(i)+":"+x.E.Res(ci, 0).key] = w.strip()
			}
			return ActPure
		case n == "os.File.Seek":
			st.Emit(Event{Kind: "seek", Call: ci, Val: x.E.ErrRes(ci), Args: append([]*Term{ci.Args[0].strip()}, ci.Args[1:]...), Pos: ci.Site.Pos()})
			return ActPure
		case strings.HasPrefix(n, "github.com/klauspost/compress/") && (strings.HasSuffix(n, ".Skip") || strings.HasSuffix(n, ".Seek")):
			st.Emit(Event{Kind: "skip", Call: ci, Val: x.E.ErrRes(ci), Args: append([]*Term{ci.Args[0].strip()}, ci.Args[1:]...), Pos: ci.Site.Pos()})
			return ActPure
		case n == "common/system/disk.DisableDirectIO":
			st.Emit(Event{Kind: "indirect", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{ci.Args[0].strip()}, Pos: ci.Site.Pos()})
			return ActPure
		case n == "common/system/disk.AlignedBlock", strings.HasPrefix(n, "common/system/disk.AlignedSize"):
			return ActPure
		case n == "io.Copy", n == "io.CopyBuffer", n == "io.CopyN":
			file, limit, unpack := f.chain(x, st, ci.Args[1])
			if n == "io.CopyN" {
				limit = ci.Args[2]
			}
			if limit == nil {
				limit = x.E.T.Nil()
			}
			if unpack == nil {
				unpack = x.E.T.Nil()
			}
			if n == "io.CopyBuffer" && strings.HasPrefix(route, "GET") {
				if why, direct := f.paged(x, st, file, ci.Args[2]); direct {
					c.Check(why == "", "paged", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: %s", key, why)
				}
			}
			st.Emit(Event{Kind: "copy", Call: ci, Val: x.E.ErrRes(ci), Args: append([]*Term{file, limit.strip(), unpack}, f.outputs(st, ci.Args[0])...), Pos: ci.Site.Pos()})
		case strings.HasSuffix(n, "gin.ResponseWriter.Write"), strings.HasSuffix(n, "http.ResponseWriter.Write"):
			st.Emit(Event{Kind: "body", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{ci.Args[1].strip()}, Pos: ci.Site.Pos()})
			if object && strings.HasPrefix(route, "GET") {
				why := f.served(x, st, ci.Args[1])
				c.Check(why == "", "served", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: %s", key, why)
			}
			return ActPure
		case strings.HasPrefix(n, "bytes.Buffer."):
			switch n[len("bytes.Buffer."):] {
			case "Write", "WriteString", "WriteByte", "ReadFrom", "Truncate", "Next", "Read":
				st.Emit(Event{Kind: "touched", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{ci.Args[0].strip()}, Pos: ci.Site.Pos()})
			}
			return ActPure
		case n == "common/cache.ICache.Set" && f.contentKey(ci.Args[1]):
			why := f.cached(x, st, ci)
			c.Check(why == "", "cached", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: %s", key, why)
		}
		return ActDefault
	}
	r.OnBranch = func(x *Exec, st *State) {
		switch f.asksCompress(x, st) {
		case Yes:
			st.vars["compress"] = "yes"
		case No:
			st.vars["compress"] = "no"
		}
		if f.noOffset(x, st) {
			st.vars["no-offset"] = "yes"
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if !succeeded(st) || !last && !st.Has("answer-ok") {
			return
		}
		switch {
		case strings.HasPrefix(route, "PUT "):
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind != "rename" || x.nilness(st, ev.Val) != Yes || f.object(st, ev.Args[1]) == nil {
					continue
				}
				packed := "no"
				for j := range st.trace {
					cr := &st.trace[j]
					if cr.Kind != "create" || !sameParts(f.parts(st, cr.Args[0]), f.parts(st, ev.Args[0])) {
						continue
					}
					for w, to := range st.terms {
						if strings.HasPrefix(w, "wraps:") && to == cr.Args[1] {
							packed = "yes"
						}
					}
				}
				c.Check(st.vars["compress"] == packed, "packed", key, at.Pos(), "%s: data is stored compressed where that may not be asked for, or the other way round", key)
			}
		case strings.HasPrefix(route, "GET "):
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "body" {
					return // judged where it is written
				}
			}
			if !object && !strings.Contains(route, "/temp/") {
				return
			}
			why := f.exact(x, st, object)
			c.Check(why == "", "exact", key, at.Pos(), "%s is answered with success although %s", key, why)
		case route == "DELETE /objects/:name":
			var missing string
			lastRemoved := -1
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "remove" {
					lastRemoved = i
				}
			}
			for text := range f.keys {
				ok := false
				for i := range st.trace {
					ev := &st.trace[i]
					if ev.Kind != "forget" || i < lastRemoved {
						continue
					}
					if s, _, _ := f.keyText(x, st, ev.Args[0], ""); s == text {
						ok = true
					}
				}
				if !ok && (missing == "" || text < missing) {
					missing = text
				}
			}
			c.Check(missing == "", "dropped", key, at.Pos(), "%s is answered with success although the object may still be cached under %q", key, strings.ReplaceAll(missing, "\x00", "*"))
		}
	}
	f.hooks(r)
	c.Run(fn, r)
}

// word notes what a key of the cache begins with.
func (f *reads) word(x *Exec, st *State, ci *CallInfo, at string, words map[string]string) {
	if strings.HasSuffix(ci.Name, ".Close") || strings.HasSuffix(ci.Name, ".NotifyEvicted") {
		return
	}
	k := ci.Args[1].strip()
	at += " -> " + stableKey(ci.Caller)
	p := keyPrefix(k)
	if p == "" {
		for fa, v := range st.facts {
			if v && fa.k == KPure && fa.op == "strings.HasPrefix" && fa.a[0].strip() == k {
				p = textOf(fa.a[1])
			}
		}
	}
	f.c.Check(p != "", "apart", at, ci.Site.Pos(), "%s: the cache is asked with a key that is not known to begin with a word of its own", at)
	if p != "" {
		words[p] = at
	}
}

// served says why the bytes written may not be the ones asked for.
func (f *reads) served(x *Exec, st *State, v *Term) string {
	v = v.strip()
	lo, hi := (*Term)(nil), (*Term)(nil)
	base := v
	end := diff(x, st, x.E.T.mk(Term{k: KPure, op: "len", a: []*Term{v}}), nil)
	from := &lin{co: map[*Term]int64{}}
	for base.k == KOther && base.op == "slice" {
		if base.a[1].op != "_" {
			lo = base.a[1]
			linOf(x, st, lo, 1, from)
		}
		if base.a[2].op != "_" {
			hi = base.a[2]
		}
		base = base.a[0].strip()
	}
	ci := callOf(base)
	if ci == nil || !strings.HasPrefix(ci.Name, "common/cache.ICache.") {
		return "" // not from the cache
	}
	texts, ok := f.texts(x, st, ci.Args[1])
	if !ok {
		return "what is cached under a key without the object's name and kind is sent"
	}
	for _, t := range texts {
		f.keys[t] = nil
	}
	// begin: the offset
	var off *Term
	switch {
	case len(from.co) == 0 && from.k == 0:
		// only right if no offset was asked for
		if !f.noOffset(x, st) {
			return "the answer begins at the begin of the object although an offset may have been asked for"
		}
	case len(from.co) == 1 && from.k == 0:
		for t, n := range from.co {
			if n == 1 && f.offset(t) {
				off = t
			}
		}
		if off == nil {
			return "the answer does not begin at the offset that was asked for"
		}
	default:
		return "the answer does not begin at the offset that was asked for"
	}
	if hi == nil {
		return "the answer does not end after the size that was asked for"
	}
	sized := false
	if len(end.co) == 1 && end.k == 0 {
		for t, n := range end.co {
			sized = n == 1 && sizeAsked(t)
		}
	}
	if !sized {
		return "the answer does not have the size that was asked for"
	}
	// known to lie inside
	if off != nil {
		if !diff(x, st, off, nil).holds(x, st) {
			return "the offset may be negative"
		}
	}
	l := diff(x, st, x.E.T.mk(Term{k: KPure, op: "len", a: []*Term{base}}), nil)
	for t, n := range from.co {
		l.co[t] -= n
	}
	for t, n := range end.co {
		l.co[t] -= n
	}
	l.k -= from.k + end.k
	if !f.fits(x, st, base, from, end) {
		return "the part that was asked for may not lie inside of what is cached"
	}
	return ""
}

// fits: a fact says that len(base) - from - size >= 0.
func (f *reads) fits(x *Exec, st *State, base *Term, from, size *lin) bool {
	for fa := range st.facts {
		if fa.k != KBin {
			continue
		}
		// the length as it stands in the facts
		var lens []*Term
		fa.walk(func(s *Term) {
			if isLen(s) && s.a[0].strip() == base {
				lens = append(lens, s)
			}
		})
		for _, ln := range lens {
			l := diff(x, st, ln, nil)
			for t, n := range from.co {
				l.co[t] -= n
				if l.co[t] == 0 {
					delete(l.co, t)
				}
			}
			for t, n := range size.co {
				l.co[t] -= n
				if l.co[t] == 0 {
					delete(l.co, t)
				}
			}
			l.k -= from.k + size.k
			if l.holds(x, st) {
				return true
			}
		}
	}
	return false
}

// noOffset: the path knows that no offset was asked for, or that it is zero.
func (f *reads) noOffset(x *Exec, st *State) bool {
	for fa, v := range st.facts {
		if ci := callOf(fa); ci != nil && strings.HasSuffix(ci.Name, "request.Range.ConvertFrom") {
			if !v {
				return true
			}
		}
	}
	for fa, v := range st.facts {
		if fa.k != KBin {
			continue
		}
		if v && fa.op == "==" && f.offset(fa.a[0]) && isInt(fa.a[1], 0) {
			return true
		}
		if !v && fa.op == "<" && isInt(fa.a[0], 0) && f.offset(fa.a[1]) {
			return true
		}
	}
	return st.vars["no-offset"] == "yes"
}

// exact says why the bytes copied may not be the ones asked for.
func (f *reads) exact(x *Exec, st *State, object bool) string {
	var cp *Event
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "copy" {
			continue
		}
		for _, w := range ev.Args[3:] {
			if isResponseWriter(w) {
				if cp != nil {
					return "data is copied to the answer twice"
				}
				cp = ev
			}
		}
	}
	if cp == nil {
		return "no data was copied to the answer"
	}
	if x.nilness(st, cp.Val) != Yes {
		return "copying the data may have failed"
	}
	file, limit, unpack := cp.Args[0], cp.Args[1], cp.Args[2]
	if isNil(limit) || !sizeAsked(limit) {
		return "what is copied is not limited to the size that was asked for"
	}
	opened := false
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "open" || ev.Args[1] != file {
			continue
		}
		if x.nilness(st, ev.Val) != Yes {
			return "opening the file may have failed"
		}
		if object {
			opened = nameAsked(f.object(st, ev.Args[0])) && f.found(x, st, f.object(st, ev.Args[0]))
		} else {
			opened = lastField(ev.Args[0]) == "FullPath"
		}
	}
	if !opened {
		return "the data is not known to come from the file found under the name that was asked for"
	}
	packed := !isNil(unpack)
	if object {
		switch {
		case packed && st.vars["compress"] != "yes":
			return "the data is unpacked although that may not have been asked for"
		case !packed && st.vars["compress"] != "no":
			return "the data is not unpacked although that may have been asked for"
		}
	}
	moved := false
	for i := range st.trace {
		ev := &st.trace[i]
		var on *Term
		switch ev.Kind {
		case "seek":
			on = file
		case "skip":
			on = unpack
		default:
			continue
		}
		if ev.Args[0] != on {
			continue
		}
		if ev.Kind == "seek" && packed {
			return "the offset is applied to the compressed data"
		}
		if ev.Kind == "seek" {
			if !isInt(ev.Args[2].strip(), 0) {
				return "the offset is not counted from the begin of the file"
			}
			if isInt(ev.Args[1].strip(), 0) {
				moved = false
				continue
			}
		}
		if moved {
			return "the offset is applied twice"
		}
		if !f.offset(ev.Args[1]) || x.nilness(st, ev.Val) != Yes {
			return "the place it was read from may not be the offset that was asked for"
		}
		moved = true
	}
	if object && !moved && !f.noOffset(x, st) {
		return "the data is read from the begin of the object although an offset may have been asked for"
	}
	return ""
}

// cached says why the bytes may not be the begin of the object's content.
func (f *reads) cached(x *Exec, st *State, ci *CallInfo) string {
	if _, ok := f.texts(x, st, ci.Args[1]); !ok {
		return "data is cached under a key without the object's name and kind"
	}
	b := ci.Args[2].strip()
	bc := callOf(b)
	if bc == nil && b.k == KPure && len(b.a) > 0 {
		return f.filled(x, st, b.a[0].strip())
	}
	if bc == nil || bc.Name != "bytes.Buffer.Bytes" {
		return "what is cached is not known to be data that was stored or read"
	}
	return f.filled(x, st, bc.Args[0].strip())
}

func (f *reads) filled(x *Exec, st *State, buf *Term) string {
	// read: a copy of which the buffer got the same as the answer
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "copy" {
			continue
		}
		for _, w := range ev.Args[3:] {
			if w != buf {
				continue
			}
			if x.nilness(st, ev.Val) != Yes {
				return "data is cached although reading it may have failed"
			}
			if !f.noOffset(x, st) {
				return "data is cached that may not begin at the begin of the object"
			}
			return ""
		}
	}
	empty := buf.k == KAlloc && typeNameOf(deref(buf.typ)) == "bytes.Buffer"
	for i := range st.trace {
		if ev := &st.trace[i]; ev.Kind == "touched" && ev.Args[0] == buf {
			return "what is cached is not known to be data that was stored or read"
		}
	}
	// stored: what the buffer got is what was written to the object
	for k, t := range st.terms {
		if !strings.HasPrefix(k, "out0:tee:") || t != buf {
			continue
		}
		for _, n := range f.names(st) {
			if f.found(x, st, n) {
				return ""
			}
		}
		return "data is cached although storing it may have failed"
	}
	for k, t := range st.terms {
		if strings.HasPrefix(k, "out") && t == buf {
			empty = false
		}
	}
	if empty {
		return "" // nothing is cached
	}
	return "what is cached is not known to be data that was stored or read"
}

// pages: the number is a multiple of the size of a page.
func (f *reads) pages(x *Exec, st *State, t *Term) bool {
	t = t.strip()
	if v, ok := x.constOf(st, t); ok {
		n, ok := constInt(v)
		return ok && n%4096 == 0
	}
	switch {
	case t.k == KBin && t.op == "*":
		return f.pages(x, st, t.a[0]) || f.pages(x, st, t.a[1])
	case t.k == KBin && (t.op == "+" || t.op == "-"):
		return f.pages(x, st, t.a[0]) && f.pages(x, st, t.a[1])
	case lastField(t) == "PageSize":
		return true
	case t.k == KRes || t.k == KPure:
		if ci := callOf(t); ci != nil && strings.HasPrefix(ci.Name, "common/system/disk.AlignedSize") {
			return true
		}
		if t.k == KPure && (t.op == "min" || t.op == "max") {
			for _, a := range t.a {
				if !f.pages(x, st, a) {
					return false
				}
			}
			return len(t.a) > 0
		}
	}
	return false
}

// paged says why direct I/O may be refused by the system.
func (f *reads) paged(x *Exec, st *State, file, buf *Term) (why string, direct bool) {
	for i := range st.trace {
		ev := &st.trace[i]
		switch {
		case ev.Kind == "open" && ev.Args[1] == file:
			direct = strings.HasSuffix(ev.Call.Name, ".OpenFileDirectIO")
		case ev.Kind == "indirect" && ev.Args[0] == file && x.nilness(st, ev.Val) == Yes:
			return "", direct
		}
	}
	if !direct {
		return "", false
	}
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "seek" || ev.Args[0] != file || f.pages(x, st, ev.Args[1]) {
			continue
		}
		ok := false
		for fa, v := range st.facts {
			if fa.k != KBin {
				continue
			}
			for j, a := range fa.a {
				rest := a.strip()
				if rest.k != KBin || rest.op != "%" || rest.a[0].strip() != ev.Args[1].strip() || !f.pages(x, st, rest.a[1]) || !isInt(fa.a[1-j].strip(), 0) {
					continue
				}
				ok = ok || fa.op == "==" && v || fa.op == "<" && !v && j == 1
			}
		}
		if !ok {
			return "it is read with direct I/O from a place that may not be the begin of a page", true
		}
	}
	ci := callOf(buf)
	if ci == nil || ci.Name != "common/system/disk.AlignedBlock" || !f.pages(x, st, ci.Args[0]) {
		return "it is read with direct I/O into a buffer that may not be made of whole pages", true
	}
	return "", true
}
