package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "The handlers of temporary uploads, the goroutines that take what the cache evicts, the cache's removal callback and the search at start are explored on every path, with the lookups of upload records, file operations and cache changes noted as events; the file worked on must be the one of the record found for the requested id.", checkC13)
}

// uriParam: the term is (made from) a part of the request's path.
func uriParam(t *Term) bool {
	hit := false
	t.walk(func(s *Term) {
		if s.call != nil && s.call.Name == ginCtx+"Param" {
			hit = true
		}
		if (s.k == KFAddr || s.k == KField) && len(s.a) > 0 && strings.Contains(fieldTag(s), "uri:") {
			hit = true
		}
	})
	return hit
}

// fieldTag is the tag of the struct field a term denotes.
func fieldTag(t *Term) string {
	typ := t.a[0].typ
	if typ == nil {
		return ""
	}
	s, ok := deref(typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == t.op {
			return string(reflect.StructTag(s.Tag(i)))
		}
	}
	return ""
}

const getGob = "common/cache.GetGob"

// temps recognises records of temporary uploads.
type temps struct {
	*files
	prefix string
}

// info: the field of an upload's record found on the path; the lookup.
func (f *temps) info(st *State, t *Term, field string) *Event {
	t = t.strip()
	if t.k == KLoad {
		t = t.a[0]
	}
	if t.k != KFAddr && t.k != KField || t.op != field {
		return nil
	}
	for i := range st.trace {
		if ev := &st.trace[i]; ev.Kind == "record" && ev.Args[1] == t.a[0].strip() {
			return ev
		}
	}
	return nil
}

// own: the path is the file of a record that was found for the requested id.
func (f *temps) own(x *Exec, st *State, path *Term) bool {
	ps := f.parts(st, path)
	var ev *Event
	switch {
	case len(ps) == 1:
		ev = f.info(st, ps[0], "FullPath")
	case len(ps) == 3 && lastField(ps[1]) == "TempPath":
		ev = f.info(st, ps[0], "MountPoint")
		if ev != nil && ps[2].strip() != ev.Args[0].strip() && f.info(st, ps[2], "Id") != ev {
			return false
		}
	}
	return ev != nil && uriParam(ev.Args[0]) && x.Eval(st, ev.Val) == Yes
}

func (f *temps) hooks(r *Rule) {
	f.files.hooks(r)
	base := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if strings.HasPrefix(ci.Name, getGob) && len(ci.Args) == 2 {
			st.Emit(Event{Kind: "record", Call: ci, Val: x.E.Res(ci, 1), Args: []*Term{ci.Args[1], x.E.Res(ci, 0)}, Pos: ci.Site.Pos()})
			return ActPure
		}
		if ci.Name == "common/util.GobDecode" && len(ci.Args) == 2 {
			st.Emit(Event{Kind: "decode", Call: ci, Val: x.E.Res(ci, 0), Args: []*Term{ci.Args[0], ci.Args[1].strip()}, Pos: ci.Site.Pos()})
			return ActOpaque
		}
		if strings.HasSuffix(ci.Name, ".ResponseWriter.Write") {
			st.Emit(Event{Kind: "body", Call: ci, Args: ci.Args[1:], Pos: ci.Site.Pos()})
			return ActPure
		}
		if ci.Name == "common/util.StrToBytes" {
			return ActPure
		}
		if ci.Name == "common/cache.ICache.SetGob" {
			st.Emit(Event{Kind: "keep", Call: ci, Val: x.E.Res(ci, 0), Args: []*Term{ci.Args[1], ci.Args[2]}, Pos: ci.Site.Pos()})
			return ActPure
		}
		return base(x, st, ci)
	}
}

func checkC13(c *Ctx) {
	c.Rule("own", "what a request about a temporary upload opens, moves or looks at is the file of the record found for the id it names")
	c.Rule("appended", "data of an upload is appended: the file is opened for appending and not emptied")
	c.Rule("written", "adding data to an upload is answered with success only if opening, writing and closing the file succeeded")
	c.Rule("sized", "the size of an upload is answered only if its file was looked at, or is known not to exist")
	c.Rule("recorded", "starting an upload is answered with success only if its record was kept under the id that is answered, with the name, size and place the file is written to")
	c.Rule("ended", "the record of an upload is dropped where it was committed without error or removed, and only there")
	c.Rule("named", "a committed upload gets the name, and stays on the mount point, of its record")
	c.Rule("evicted", "the file of every upload record that leaves the cache is removed before the next one is received")
	c.Rule("notified", "every entry that leaves the cache is sent to every listener with its key and value")
	c.Rule("left-over", "at start files of temporary uploads are removed, and neither marked as objects nor counted")
	f := &temps{&files{c}, ""}
	if pk := c.P.ByPth["objectserver/internal/entity"]; pk != nil {
		if k, ok := pk.Types.Scope().Lookup("TempKeyPrefix").(*types.Const); ok {
			f.prefix = strings.Trim(k.Val().ExactString(), `"`)
		}
	}
	for _, rt := range c.GinRoutes("objectserver/") {
		if !strings.Contains(rt.Path, "/temp/") {
			continue
		}
		k := rt.Key()
		for _, h := range rt.Own {
			fn := c.E.baseFn(h.strip())
			if fn == nil {
				continue
			}
			f.handler(fn, rt.Method, k+" "+methodKey(fn), h == rt.Own[len(rt.Own)-1])
		}
	}
	f.cleaners()
	f.notified()
	f.leftOver()
	c.Min("own", 3)
	c.Min("appended", 1)
	c.Min("written", 1)
	c.Min("sized", 1)
	c.Min("recorded", 1)
	c.Min("ended", 2)
	c.Min("named", 1)
	c.Min("evicted", 1)
	c.Min("notified", 1)
	c.Min("left-over", 1)
}

func (f *temps) handler(fn *ssa.Function, method, key string, last bool) {
	c := f.c
	r := &Rule{Wide: 4}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if c.onAnswer(x, st, ci) {
			return ActPure
		}
		return ActDefault
	}
	f.hooks(r)
	base := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		n := len(st.trace)
		a := base(x, st, ci)
		at := key + " -> " + stableKey(ci.Caller)
		if len(st.trace) == n {
			return a
		}
		for _, ev := range st.trace[n:] {
			switch ev.Kind {
			case "open", "create":
				if f.made(st, ev.Args[0]) {
					break
				}
				c.Check(f.own(x, st, ev.Args[0]), "own", at, ci.Site.Pos(), "%s: the file opened is not known to be the one of the upload that was asked for", key)
				if ev.Kind == "create" {
					ok := false
					if len(ci.Args) == 3 {
						if v, known := x.constOf(st, ci.Args[1]); known {
							if n, isInt := constInt(v); isInt {
								ok = n&0x400 != 0 && n&0x200 == 0
							}
						}
					}
					c.Check(ok, "appended", at, ci.Site.Pos(), "%s: the file of the upload is not opened for appending only", key)
				}
			case "rename":
				if f.made(st, ev.Args[0]) {
					break
				}
				c.Check(f.own(x, st, ev.Args[0]), "own", at, ci.Site.Pos(), "%s: the file moved is not known to be the one of the upload that was asked for", key)
			}
			if ev.Kind == "rename" && f.stored(st, ev.Args[1]) {
				ps := f.parts(st, ev.Args[1])
				ok := len(ps) == 3 && f.info(st, ps[2], "Name") != nil && f.info(st, ps[0], "MountPoint") == f.info(st, ps[2], "Name")
				c.Check(ok, "named", at, ci.Site.Pos(), "%s: the committed upload does not get the name of its record on the same mount point", key)
			}
		}
		return a
	}
	r.OnBranch = func(x *Exec, st *State) {
		for fa, v := range st.facts {
			if !v && fa.k == KPure && fa.op == "strings.HasPrefix" && uriParam(fa.a[0]) && textOf(fa.a[1]) == f.prefix {
				st.vars["temp"] = "no"
			}
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		ok := succeeded(st) && (last || st.Has("answer-ok"))
		forgot := false
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "forget" && uriParam(ev.Args[0]) {
				forgot = true
			}
		}
		switch method {
		case "PATCH":
			if !ok || !last {
				break
			}
			good := false
			for i := range st.trace {
				cr := &st.trace[i]
				if cr.Kind != "create" || x.nilness(st, cr.Val) != Yes {
					continue
				}
				wrote, closed := false, false
				for j := range st.trace {
					ev := &st.trace[j]
					if (ev.Kind == "write" || ev.Kind == "close") && ev.Args[0] == cr.Args[1] && x.nilness(st, ev.Val) == Yes {
						wrote = wrote || ev.Kind == "write"
						closed = closed || ev.Kind == "close"
					}
				}
				good = good || wrote && closed
			}
			c.Check(good, "written", key, at.Pos(), "%s is answered with success although the data may not have been written", key)
		case "HEAD":
			if !ok || !last {
				break
			}
			good := false
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "stat" && f.own(x, st, ev.Args[0]) && (x.nilness(st, ev.Val) == Yes || f.notExist(x, st, ev.Val) == Yes) {
					good = true
				}
			}
			c.Check(good, "sized", key, at.Pos(), "%s is answered with success although the file of the upload was not looked at", key)
		case "POST":
			if !ok || !last {
				break
			}
			c.Check(f.recorded(x, st), "recorded", key, at.Pos(), "%s is answered with success although no record with name, size and place was kept under the id that is answered", key)
		case "PUT", "DELETE":
			if !last {
				break
			}
			if ok {
				// an id without the prefix has no record
				c.Check(forgot || st.vars["temp"] == "no", "ended", key, at.Pos(), "%s is answered with success but the record of the upload stays", key)
			} else if method == "PUT" {
				c.Check(!forgot, "ended", key, at.Pos(), "%s fails but the record of the upload is dropped, and with it its data", key)
			}
			if method == "PUT" && forgot {
				// the drop comes after the commit
				for i := range st.trace {
					if ev := &st.trace[i]; ev.Kind == "rename" && x.nilness(st, ev.Val) != Yes {
						c.Bad("ended", key, at.Pos(), "%s: the record of the upload is dropped although its file may not have been moved", key)
					}
				}
			}
		}
		if forgot && method != "PUT" && method != "DELETE" {
			c.Bad("ended", key, at.Pos(), "%s: the record of an upload is dropped that is neither committed nor removed", key)
		}
	}
	c.Run(fn, r)
}

// recorded: the record is kept and announced.
func (f *temps) recorded(x *Exec, st *State) bool {
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "keep" || ev.Val == nil || x.Eval(st, ev.Val) != Yes {
			continue
		}
		rec := ev.Args[1].strip()
		if rec.k == KIface {
			rec = rec.a[0].strip()
		}
		id := x.field(st, rec, "Id")
		if id.strip() != ev.Args[0].strip() {
			continue
		}
		full := f.parts(st, x.field(st, rec, "FullPath"))
		mount := f.parts(st, x.field(st, rec, "MountPoint"))
		want := append(append([]*Term{}, mount...), nil, id.strip())
		if len(full) != len(want) || lastField(full[len(full)-2]) != "TempPath" {
			continue
		}
		same := true
		for j, w := range want {
			if w != nil && full[j].strip() != w.strip() {
				same = false
			}
		}
		if !same || !uriParam(x.field(st, rec, "Name")) || !strings.Contains(tagOf(x.field(st, rec, "Size")), "header:") {
			continue
		}
		for j := range st.trace {
			if b := &st.trace[j]; b.Kind == "body" && madeOf(b.Args[0], id.strip()) {
				return true
			}
		}
	}
	return false
}

func tagOf(t *Term) string {
	t = t.strip()
	if t.k == KLoad {
		t = t.a[0]
	}
	if t.k == KFAddr || t.k == KField {
		return fieldTag(t)
	}
	return ""
}

func isEntry(t types.Type) bool { return typeNameOf(t) == "common/cache.Entry" }

// cleaners: goroutines that receive evicted entries.
func (f *temps) cleaners() {
	c := f.c
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "objectserver/") {
			continue
		}
		takes := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					for _, s := range in.States {
						takes = takes || s.Dir == types.RecvOnly && isEntry(s.Chan.Type().Underlying().(*types.Chan).Elem())
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						takes = takes || isEntry(in.X.Type().Underlying().(*types.Chan).Elem())
					}
				}
			}
		}
		if !takes {
			continue
		}
		key := stableKey(fn)
		r := &Rule{Wide: 8}
		f.hooks(r)
		base := r.OnCall
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			return base(x, st, ci)
		}
		settle := func(x *Exec, st *State) {
			for fa, v := range st.facts {
				if fa.k == KPure && fa.op == "strings.HasPrefix" && f.ofEntry(fa.a[0]) {
					p := textOf(fa.a[1])
					if v && p == f.prefix {
						st.vars["temp"] = "yes"
					} else if !v && p != "" && strings.HasPrefix(f.prefix, p) {
						st.vars["temp"] = "no"
					}
				}
				if v && fa.k == KBin && fa.op == "==" && isIndexOfSelect(fa.a[0]) {
					st.vars["case"] = fa.a[1].Pretty()
				}
			}
			for i := range st.trace {
				ev := &st.trace[i]
				switch ev.Kind {
				case "decode":
					switch x.Eval(st, ev.Val) {
					case No:
						st.vars["temp"] = "no"
					case Yes:
						st.vars["decoded"] = "yes"
					}
				case "remove":
					st.vars["gone"] = "yes"
				case "stat":
					if x.nilness(st, ev.Val) == No {
						st.vars["gone"] = "yes"
					}
				}
			}
		}
		r.OnBranch = settle
		flush := func(x *Exec, st *State, pos token.Pos) {
			if st.vars["got"] == "" {
				return
			}
			settle(x, st)
			if st.vars["case"] != "" && st.vars["case"] != st.vars["got"] {
				return
			}
			c.Check(st.vars["temp"] == "no" || st.vars["gone"] == "yes", "evicted", key, pos, "%s: a received entry is passed over although it may be the record of an upload whose file is there", key)
		}
		r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			recv := false
			which := ""
			switch in := in.(type) {
			case *ssa.Select:
				for i, s := range in.States {
					if s.Dir == types.RecvOnly && isEntry(s.Chan.Type().Underlying().(*types.Chan).Elem()) {
						recv = true
						which = strconv.Itoa(i)
					}
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW && isEntry(in.X.Type().Underlying().(*types.Chan).Elem()) {
					recv = true
				}
			}
			if !recv {
				return
			}
			flush(x, st, in.Pos())
			for _, v := range []string{"temp", "gone", "case", "decoded"} {
				delete(st.vars, v)
			}
			st.trace = nil
			st.vars["got"] = which
			if which == "" {
				st.vars["got"] = "received"
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) { flush(x, st, at.Pos()) }
		c.Run(fn, r)
	}
}

// ofEntry: the key of a received entry.
func (f *temps) ofEntry(t *Term) bool {
	hit := false
	t.walk(func(s *Term) {
		if (s.k == KFAddr || s.k == KField) && s.op == "Key" {
			hit = true
		}
	})
	return hit
}

func isIndexOfSelect(t *Term) bool {
	return t.k == KRes && t.op == "0" && len(t.a) == 1 && t.a[0].k == KSym && strings.HasPrefix(t.a[0].op, "sel")
}

// notified: what the cache library is given as callback tells every listener.
func (f *temps) notified() {
	c := f.c
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || calleeName(ci.Common()) != "github.com/allegro/bigcache/v3.New" {
					continue
				}
				set := false
				r := &Rule{}
				r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
					if ci.Name == "github.com/allegro/bigcache/v3.New" {
						cb := x.field(st, ci.Args[1], "OnRemoveWithReason")
						g := c.E.baseFn(cb.strip())
						set = g != nil
						c.Check(set && x.nilness(st, x.field(st, ci.Args[1], "OnRemove")) != No, "notified", "cache "+stableKey(ci.Caller), ci.Site.Pos(), "the cache is made without a callback that is known for what leaves it")
						if g != nil {
							f.callback(g)
						}
						return ActOpaque
					}
					return ActDefault
				}
				c.Run(topFn(fn), r)
			}
		}
	}
}

func (f *temps) callback(fn *ssa.Function) {
	c := f.c
	key := stableKey(fn)
	r := &Rule{Wide: 4}
	r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool { return true }
	var ps []*Term
	r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Send); ok && isEntry(s.X.Type()) {
			st.vars["sent"] = "yes"
		}
	}
	_ = ps
	r.OnBranch = func(x *Exec, st *State) {
		for fa, v := range st.facts {
			if v && fa.k == KBin && fa.op == "<" && fa.a[1].k == KPure && fa.a[1].op == "len" && hasField(fa.a[1], "notifyEvicted") {
				st.vars["listeners"] = "yes"
			}
		}
	}
	seen := false
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if st.vars["listeners"] == "yes" {
			seen = true
			c.Check(st.vars["sent"] == "yes", "notified", key, at.Pos(), "%s: an entry that leaves the cache is not sent to a listener", key)
		}
	}
	c.Run(fn, r)
	c.Check(seen, "notified", key+" listeners", fn.Pos(), "%s: what leaves the cache is not sent to the listeners", key)
}

// leftOver: walking the files at start.
func (f *temps) leftOver() {
	c := f.c
	walks := c.callersOf(func(n string) bool {
		return n == "path/filepath.Walk" || n == "path/filepath.WalkDir" || n == "os.ReadDir"
	})
	for _, fn := range walks {
		if !strings.HasPrefix(pkgPathOf(fn), "objectserver/") {
			continue
		}
		marks := c.E.Reaching(func(n string) bool { return n == "common/cache.ICache.Set" })
		for lit := range c.literals(topFn(fn)) {
			key := stableKey(lit)
			if !marks[lit] {
				continue
			}
			r := &Rule{Wide: 4}
			f.hooks(r)
			base := r.OnCall
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				switch ci.Name {
				case "common/cache.ICache.Set", objApp + "db.ObjectCapacity.AddCap":
					c.Check(f.tempName(st) == No, "left-over", key+" -> "+ci.Name[strings.LastIndex(ci.Name, ".")+1:], ci.Site.Pos(), "%s: a file that may belong to a temporary upload is marked as an object or counted", key)
				}
				return base(x, st, ci)
			}
			r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
				if f.tempName(st) != Yes {
					return
				}
				gone := false
				for i := range st.trace {
					ev := &st.trace[i]
					gone = gone || ev.Kind == "remove" || ev.Kind == "stat" && x.nilness(st, ev.Val) == No
				}
				c.Check(gone, "left-over", key+" remove", at.Pos(), "%s: a file left over by a temporary upload stays", key)
			}
			r.OnBranch = func(x *Exec, st *State) {
				switch f.tempNameFact(st) {
				case Yes:
					st.vars["temp"] = "yes"
				case No:
					st.vars["temp"] = "no"
				}
			}
			c.Run(lit, r)
		}
	}
}

func (f *temps) tempName(st *State) Tri {
	switch st.vars["temp"] {
	case "yes":
		return Yes
	case "no":
		return No
	}
	return Unknown
}

func (f *temps) tempNameFact(st *State) Tri {
	for fa, v := range st.facts {
		if fa.k == KPure && fa.op == "strings.HasPrefix" && len(fa.a) == 2 {
			p := textOf(fa.a[1])
			if v && p == f.prefix {
				return Yes
			}
			if !v && p != "" && strings.HasPrefix(f.prefix, p) {
				return No
			}
		}
	}
	return Unknown
}

// textOf is the text of a constant string.
func textOf(t *Term) string {
	if t = t.strip(); t.cst != nil {
		s, _ := cstString(t.cst)
		return s
	}
	return ""
}

// madeOf: the term is computed from the other one.
func madeOf(t, from *Term) bool {
	hit := false
	t.walk(func(s *Term) {
		if s == from {
			hit = true
		}
		if s.call != nil && s.k == KRes || s.call != nil && s.k == KSym {
			for _, a := range s.call.Args {
				hit = hit || a.contains(from)
			}
		}
	})
	return hit
}
