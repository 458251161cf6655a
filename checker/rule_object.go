package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	objApp  = "objectserver/internal/"
	objSvc  = objApp + "usecase/service."
	pathIdx = objApp + "db.PathCache."
)

func init() {
	register("C12", "Every HTTP handler, RPC method and background function of the object server that touches files is explored on every path, with what it opens, writes, closes, renames, removes and looks up noted as events: an object's name may only be given to a file by renaming one whose writes and closing are known to have succeeded, and where a request is answered with success the path must have seen the object on the disk (or it gone, for removing).", checkC12)
}

// files notes what a path does to files.
type files struct {
	c *Ctx
}

// parts are the elements a path is joined from.
func (f *files) parts(st *State, t *Term) []*Term {
	t = t.strip()
	if n := st.terms["name:"+t.key]; n != nil {
		return f.parts(st, n)
	}
	if t.k == KPure && t.op == "path/filepath.Join" || t.k == KPure && t.op == "path.Join" {
		var out []*Term
		for _, a := range t.a {
			out = append(out, f.parts(st, a)...)
		}
		return out
	}
	if isEmptyString(t) {
		return nil
	}
	return []*Term{t}
}

func sameParts(a, b []*Term) bool {
	if len(a) != len(b) || len(a) == 0 {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// object is the name of the object whose storage path this is.
func (f *files) object(st *State, path *Term) *Term {
	ps := f.parts(st, path)
	for i, p := range ps {
		if lastField(p) == "StoragePath" && i == len(ps)-2 {
			return ps[i+1].strip()
		}
	}
	if len(ps) == 1 && st.terms["obj:"+ps[0].key] != nil {
		return st.terms["obj:"+ps[0].key]
	}
	if len(ps) == 1 && ps[0].k == KRes && ps[0].op == "0" {
		call := ps[0].a[0].call
		switch {
		case call == nil || len(call.Args) != 2:
		case call.Name == pathIdx+"GetLast":
			return call.Args[1].strip()
		case strings.HasSuffix(call.Name, "DriverManager.FindMountPath"):
			return f.object(st, call.Args[1])
		}
	}
	return nil
}

// stored: the path lies in the storage directory.
func (f *files) stored(st *State, path *Term) bool {
	for _, p := range f.parts(st, path) {
		if lastField(p) == "StoragePath" {
			return true
		}
	}
	return f.object(st, path) != nil
}

// temp: the path lies in the directory of temporary files, or is the one recorded for an upload.
func (f *files) temp(st *State, path *Term) bool {
	ps := f.parts(st, path)
	for _, p := range ps {
		if lastField(p) == "TempPath" {
			return true
		}
	}
	return len(ps) == 1 && lastField(ps[0]) == "FullPath"
}

// made: the file's name was made up on this path.
func (f *files) made(st *State, path *Term) bool {
	ps := f.parts(st, path)
	if len(ps) == 0 {
		return false
	}
	hit := false
	ps[len(ps)-1].walk(func(s *Term) {
		if s.call != nil && (strings.Contains(s.call.Name, "uuid.") || strings.HasPrefix(s.call.Name, "os.CreateTemp")) {
			hit = true
		}
	})
	return hit
}

// lastField: the term is a field read; its name.
func lastField(t *Term) string {
	t = t.strip()
	if t.k == KLoad {
		t = t.a[0]
	}
	if t.k == KFAddr || t.k == KField {
		return t.op
	}
	return ""
}

const writeFlags = 1 | 2 | 0x40 | 0x200 | 0x400

// target resolves what a writer writes to.
func (f *files) target(st *State, w *Term) *Term {
	w = w.strip()
	for i := 0; i < 4; i++ {
		t := st.terms["wraps:"+w.key]
		if t == nil {
			break
		}
		w = t
	}
	return w
}

// hooks adds the events to a rule.
func (f *files) hooks(r *Rule) {
	r.LoopEvents = true
	base := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if base != nil {
			if a := base(x, st, ci); a != ActDefault {
				return a
			}
		}
		err := func() *Term { return x.E.ErrRes(ci) }
		switch n := ci.Name; n {
		case "os.OpenFile", "common/system/disk.OpenFileDirectIO", "os.Create", "os.Open":
			wr := n == "os.Create"
			if len(ci.Args) == 3 {
				wr = true
				if v, ok := x.constOf(st, ci.Args[1]); ok {
					if k, ok := constInt(v); ok && k&writeFlags == 0 {
						wr = false
					}
				}
			}
			kind := "open"
			if wr {
				kind = "create"
			}
			st.Emit(Event{Kind: kind, Call: ci, Val: err(), Args: []*Term{ci.Args[0], x.E.Res(ci, 0)}, Pos: ci.Site.Pos()})
			return ActPure
		case "os.CreateTemp":
			p := x.E.T.mk(Term{k: KPure, op: "path/filepath.Join", a: []*Term{ci.Args[0], x.E.Res(ci, 0)}, typ: types.Typ[types.String]})
			st.terms["file:"+x.E.Res(ci, 0).key] = p
			st.Emit(Event{Kind: "create", Call: ci, Val: err(), Args: []*Term{p, x.E.Res(ci, 0)}, Pos: ci.Site.Pos()})
			return ActPure
		case "os.WriteFile":
			st.Emit(Event{Kind: "create", Call: ci, Val: err(), Args: []*Term{ci.Args[0], ci.Sym}, Pos: ci.Site.Pos()})
			st.Emit(Event{Kind: "write", Call: ci, Val: err(), Args: []*Term{ci.Sym}, Pos: ci.Site.Pos()})
			st.Emit(Event{Kind: "close", Call: ci, Val: err(), Args: []*Term{ci.Sym}, Pos: ci.Site.Pos()})
			return ActPure
		case "io.Copy", "io.CopyBuffer", "io.CopyN":
			st.Emit(Event{Kind: "write", Call: ci, Val: err(), Args: []*Term{f.target(st, ci.Args[0])}, Pos: ci.Site.Pos()})
			return ActPure
		case "os.File.Write", "os.File.WriteString", "os.File.WriteAt", "os.File.ReadFrom":
			st.Emit(Event{Kind: "write", Call: ci, Val: err(), Args: []*Term{ci.Args[0].strip()}, Pos: ci.Site.Pos()})
			return ActPure
		case "os.File.Close":
			st.Emit(Event{Kind: "close", Call: ci, Val: err(), Args: []*Term{ci.Args[0].strip()}, Pos: ci.Site.Pos()})
			return ActPure
		case "os.File.Name":
			st.terms["name:"+x.E.Res(ci, 0).key] = f.pathOf(st, ci.Args[0])
			return ActPure
		case pathIdx + "GetLast":
			st.terms["obj:"+x.E.Res(ci, 0).key] = ci.Args[1].strip()
			return ActPure
		case "os.Rename":
			st.Emit(Event{Kind: "rename", Call: ci, Val: err(), Args: ci.Args, Pos: ci.Site.Pos()})
			return ActPure
		case "os.Stat", "os.Lstat":
			st.Emit(Event{Kind: "stat", Call: ci, Val: err(), Args: []*Term{ci.Args[0], x.E.Res(ci, 0)}, Pos: ci.Site.Pos()})
			return ActPure
		case "os.Remove", "os.RemoveAll":
			st.Emit(Event{Kind: "remove", Call: ci, Val: err(), Args: ci.Args, Pos: ci.Site.Pos()})
			return ActPure
		case objApp + "db.ObjectCapacity.AddCap":
			st.Emit(Event{Kind: "add", Call: ci, Args: ci.Args[1:], Pos: ci.Site.Pos()})
			return ActPure
		case objApp + "db.ObjectCapacity.SubCap":
			st.Emit(Event{Kind: "sub", Call: ci, Args: ci.Args[1:], Pos: ci.Site.Pos()})
			return ActPure
		case objApp + "usecase/component.DriverManager.FindMountPath":
			// what it returns without error it has seen: rule "finds"
			if o := f.object(st, ci.Args[1]); o != nil {
				st.terms["obj:"+x.E.Res(ci, 0).key] = o
			}
			st.Emit(Event{Kind: "stat", Call: ci, Val: err(), Args: []*Term{x.E.Res(ci, 0), ci.Sym}, Pos: ci.Site.Pos()})
			return ActPure
		case "common/cache.ICache.Set", "common/cache.ICache.SetGob":
			st.Emit(Event{Kind: "keep", Call: ci, Args: ci.Args[1:], Pos: ci.Site.Pos()})
			return ActPure
		case "common/cache.ICache.Delete":
			st.Emit(Event{Kind: "forget", Call: ci, Args: ci.Args[1:], Pos: ci.Site.Pos()})
			return ActPure
		case "common/cache.ICache.Has", "common/cache.ICache.Get", "common/cache.ICache.HasGet":
			st.Emit(Event{Kind: "lookup", Call: ci, Args: ci.Args[1:], Pos: ci.Site.Pos()})
			return ActPure
		}
		switch {
		case strings.HasPrefix(ci.Name, "io/fs.") && strings.HasSuffix(ci.Name, ".IsDir"):
			st.Emit(Event{Kind: "isdir", Call: ci, Val: x.E.Res(ci, 0), Args: ci.Args, Pos: ci.Site.Pos()})
			return ActPure
		case ci.Name == "io/fs.FileMode.IsRegular":
			st.Emit(Event{Kind: "regular", Call: ci, Val: x.E.Res(ci, 0), Args: ci.Args, Pos: ci.Site.Pos()})
			return ActPure
		case strings.HasPrefix(ci.Name, pathIdx), strings.HasPrefix(ci.Name, "os."), strings.HasPrefix(ci.Name, objApp+"usecase/component.DriverManager."), strings.HasPrefix(ci.Name, "bytes."), strings.HasPrefix(ci.Name, "common/datasize."):
			return ActPure
		case strings.HasPrefix(ci.Name, "github.com/klauspost/compress/") && strings.HasSuffix(ci.Name, ".NewWriter") && len(ci.Args) > 0:
			st.terms["wraps:"+x.E.Res(ci, 0).key] = ci.Args[0].strip()
			return ActPure
		case strings.HasPrefix(ci.Name, "github.com/klauspost/compress/"):
			switch {
			case strings.HasSuffix(ci.Name, ".Writer.Close"):
				st.Emit(Event{Kind: "flush", Call: ci, Val: err(), Args: []*Term{ci.Args[0].strip()}, Pos: ci.Site.Pos()})
			case strings.HasSuffix(ci.Name, ".Write"), strings.HasSuffix(ci.Name, ".ReadFrom"):
				st.Emit(Event{Kind: "write", Call: ci, Val: err(), Args: []*Term{f.target(st, ci.Args[0])}, Pos: ci.Site.Pos()})
			}
			return ActPure
		case ci.Name == "objectserver/internal/entity.BindAll":
			return ActOpaque
		case strings.HasPrefix(ci.Name, "common/logs."), strings.HasPrefix(ci.Name, "github.com/sirupsen/logrus."), ci.Name == "common/util.LogErr", ci.Name == "common/util.LogErrWithPre":
			return ActPure
		}
		return ActDefault
	}
}

// pathOf is the path a file was opened with.
func (f *files) pathOf(st *State, file *Term) *Term {
	file = file.strip()
	if p := st.terms["file:"+file.key]; p != nil {
		return p
	}
	for i := range st.trace {
		if ev := &st.trace[i]; (ev.Kind == "create" || ev.Kind == "open") && ev.Args[1] == file {
			return ev.Args[0]
		}
	}
	return file
}

// found: the path saw the object's file on the disk.
func (f *files) found(x *Exec, st *State, name *Term) bool {
	for i := range st.trace {
		ev := &st.trace[i]
		switch ev.Kind {
		case "stat":
			if f.object(st, ev.Args[0]) == name && f.exists(x, st, ev) {
				return true
			}
		case "rename":
			if f.object(st, ev.Args[1]) == name && x.nilness(st, ev.Val) == Yes {
				return true
			}
		}
	}
	return false
}

func (f *files) exists(x *Exec, st *State, stat *Event) bool {
	if x.nilness(st, stat.Val) == Yes {
		return true
	}
	return f.notExist(x, st, stat.Val) == No
}

func (f *files) notExist(x *Exec, st *State, err *Term) Tri {
	for fa, v := range st.facts {
		if fa.k == KPure && (strings.HasSuffix(fa.op, "os.IsNotExist") || fa.op == "errors.Is") && len(fa.a) > 0 && fa.a[0].strip() == err {
			return tri(v)
		}
	}
	if x.nilness(st, err) == Yes {
		return No
	}
	return Unknown
}

// objects walks the distinct object names a path deals with.
func (f *files) names(st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(n *Term) {
		if n != nil && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for i := range st.trace {
		ev := &st.trace[i]
		switch ev.Kind {
		case "stat":
			add(f.object(st, ev.Args[0]))
		case "rename":
			add(f.object(st, ev.Args[1]))
		}
	}
	return out
}

// whole: what the file renamed had written to it is there.
func (f *files) whole(x *Exec, st *State, from *Term) string {
	src := f.parts(st, from)
	if !f.temp(st, from) {
		return "the file moved there does not come from the temporary directory"
	}
	for i := range st.trace {
		cr := &st.trace[i]
		if cr.Kind != "create" || !sameParts(f.parts(st, cr.Args[0]), src) || x.nilness(st, cr.Val) == No {
			continue
		}
		closed := false
		for j := range st.trace {
			ev := &st.trace[j]
			switch ev.Kind {
			case "write":
				if ev.Args[0] == cr.Args[1] && x.nilness(st, ev.Val) != Yes {
					return "a write to it may have failed"
				}
			case "close":
				if ev.Args[0] == cr.Args[1] {
					if x.nilness(st, ev.Val) == Yes {
						closed = true
					}
				}
			}
		}
		for k, w := range st.terms {
			if strings.HasPrefix(k, "wraps:") && w == cr.Args[1] {
				ok := false
				for j := range st.trace {
					if ev := &st.trace[j]; ev.Kind == "flush" && "wraps:"+ev.Args[0].key == k && x.nilness(st, ev.Val) == Yes {
						ok = true
					}
				}
				if !ok {
					return "what the compressing writer holds back may not have been written"
				}
			}
		}
		if !closed {
			return "closing it may have failed, or it is not closed"
		}
	}
	return ""
}

func keyPrefix(t *Term) string {
	t = t.strip()
	if t.k == KBin && t.op == "+" {
		return keyPrefix(t.a[0])
	}
	if t.k == KPure && t.op == "fmt.Sprint" && len(t.a) > 0 {
		return keyPrefix(t.a[0])
	}
	if t.k == KPure && t.op == "fmt.Sprintf" && len(t.a) > 0 {
		if t.a[0].strip().cst != nil {
			s := constant.StringVal(t.a[0].strip().cst)
			if i := strings.IndexByte(s, '%'); i >= 0 {
				if i == 0 && len(t.a) > 1 {
					return keyPrefix(t.a[1])
				}
				return s[:i]
			}
			return s
		}
	}
	if t.cst != nil && t.cst.Kind() == constant.String {
		return constant.StringVal(t.cst)
	}
	return ""
}

// roots are the functions of the object server to explore: the handlers, remote methods and background functions that reach file operations.
func (f *files) roots() []*ssa.Function {
	ops := f.c.callersOf(func(n string) bool {
		switch n {
		case "os.OpenFile", "os.Create", "os.WriteFile", "os.Rename", "os.Remove", "os.RemoveAll", "os.CreateTemp", "common/system/disk.OpenFileDirectIO", "common/cache.ICache.Set":
			return true
		}
		return false
	})
	return f.c.serverRoots("objectserver/", ops)
}

// serverRoots climbs from functions to the handlers, remote methods, background functions and uncalled functions of a module that reach them.
func (c *Ctx) serverRoots(prefix string, fns []*ssa.Function) []*ssa.Function {
	stop := map[*ssa.Function]bool{}
	for _, rt := range c.GinRoutes(prefix) {
		for _, h := range append(append([]*Term(nil), rt.Mid...), rt.Own...) {
			if fn := c.E.baseFn(h.strip()); fn != nil {
				stop[c.P.base(fn)] = true
			}
		}
	}
	for _, m := range c.RPCs(prefix) {
		stop[c.P.base(m.Fn)] = true
	}
	for _, fn := range c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := g.Call.StaticCallee(); t != nil {
						stop[c.P.base(t)] = true
					}
				}
			}
		}
	}
	g := c.E.Graph()
	set, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		b := c.P.base(f)
		if stop[b] {
			if strings.HasPrefix(pkgPathOf(b), prefix) {
				set[b] = true
			}
			return
		}
		var in []*ssa.Function
		for _, p := range g.In[f] {
			if n := topFn(p).Name(); strings.HasPrefix(pkgPathOf(p), prefix) && n != "init" && !strings.HasPrefix(n, "init#") && !strings.HasSuffix(pkgPathOf(p), "/app") {
				in = append(in, p)
			}
		}
		if len(in) == 0 {
			if strings.HasPrefix(pkgPathOf(b), prefix) && b.Synthetic == "" {
				set[b] = true
			}
			return
		}
		for _, p := range in {
			up(p)
		}
	}
	for _, f := range fns {
		if strings.HasPrefix(pkgPathOf(f), prefix) {
			up(f)
		}
	}
	var out []*ssa.Function
	for f := range set {
		out = append(out, f)
	}
	sortFns(out)
	return out
}

func (c *Ctx) markPrefix() string {
	if pk := c.P.ByPth[strings.TrimSuffix(objSvc, ".")]; pk != nil {
		if k, ok := pk.Types.Scope().Lookup("LocateKeyPrefix").(*types.Const); ok {
			return constant.StringVal(k.Val())
		}
	}
	return "\x00"
}

func checkC12(c *Ctx) {
	c.Rule("direct", "files with the name of an object are never opened for writing")
	c.Rule("whole", "a file gets the name of an object only by being moved there from the temporary directory, after every write to it and closing it are known to have succeeded")
	c.Rule("stored", "storing an object or committing an upload is answered with success only if the path saw the object of that name on the disk or moved it there without error")
	c.Rule("cleaned", "a file made up for storing is moved or removed before the request is answered")
	c.Rule("counted", "storing adds the size of the file to the capacity, removing takes it off")
	c.Rule("marked", "an object is marked as existing only where the path saw it on the disk")
	c.Rule("deleted", "removing an object is answered with success only if each file found for it was removed without error and its mark was dropped after that")
	c.Rule("finds", "looking for a file on the drives returns without error only a path it saw")
	c.Rule("broken-off", "a reader that pads or limits what is stored reports the end of the data only if the reader behind it did")
	f := &files{c}
	mark := c.markPrefix()
	explore := func(fn *ssa.Function, exit func(x *Exec, st *State, at ssa.Instruction)) {
		key := methodKey(fn)
		r := &Rule{Wide: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if c.onAnswer(x, st, ci) {
				return ActPure
			}
			switch ci.Name {
			case "common/cache.ICache.Set":
				if keyPrefix(ci.Args[1]) != mark {
					return ActDefault
				}
				n := keyName(ci.Args[1])
				ok := n != nil && f.found(x, st, n)
				if !ok && n != nil && n.k == KRes && n.a[0].call != nil && strings.HasPrefix(n.a[0].call.Name, "io/fs.") && strings.HasSuffix(n.a[0].call.Name, ".Name") {
					// of a file that was walked
					for i := range st.trace {
						ev := &st.trace[i]
						ok = ok || ev.Kind == "isdir" && x.Eval(st, ev.Val) == No || ev.Kind == "regular" && x.Eval(st, ev.Val) == Yes
					}
				}
				c.Check(ok, "marked", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: an object is marked as existing where it was not seen on the disk", key)
			case "os.Rename":
				if f.stored(st, ci.Args[1]) {
					why := f.whole(x, st, ci.Args[0])
					if f.object(st, ci.Args[1]) == nil {
						why = "the place it is moved to is not the storage path with the name of one object"
					}
					c.Check(why == "", "whole", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: a file gets the name of an object although %s", key, why)
				}
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			f.balance(x, st, key, at)
			if exit != nil {
				exit(x, st, at)
			}
		}
		f.hooks(r)
		base := r.OnCall
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			a := base(x, st, ci)
			if ev := lastOf(st, ci, "create"); ev != nil {
				c.Check(!f.stored(st, ev.Args[0]), "direct", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: a file in the storage directory is opened for writing: its data is visible under the name of the object before it is complete", key)
			}
			return a
		}
		c.Run(fn, r)
	}
	done := map[*ssa.Function]bool{}
	for _, rt := range c.GinRoutes("objectserver/") {
		k := rt.Key()
		for i, h := range rt.Own {
			fn := c.E.baseFn(h.strip())
			if fn == nil || done[fn] {
				continue
			}
			last := i == len(rt.Own)-1
			hkey := k + " " + methodKey(fn)
			var exit func(x *Exec, st *State, at ssa.Instruction)
			switch k {
			case "PUT /objects/:name", "PUT /temp/:name":
				exit = func(x *Exec, st *State, at ssa.Instruction) {
					if !succeeded(st) || !last && !st.Has("answer-ok") {
						return
					}
					ok := false
					for _, n := range f.names(st) {
						ok = ok || f.found(x, st, n) && f.asked(st, n, k)
					}
					c.Check(ok, "stored", hkey, at.Pos(), "%s is answered with success although the path neither saw the object of that name on the disk nor moved it there", k)
				}
			case "DELETE /objects/:name":
				exit = func(x *Exec, st *State, at ssa.Instruction) {
					if !succeeded(st) || !last && !st.Has("answer-ok") {
						return
					}
					why := f.gone(x, st, mark)
					c.Check(why == "", "deleted", hkey, at.Pos(), "%s is answered with success although %s", k, why)
				}
			case "HEAD /objects/:name":
				exit = func(x *Exec, st *State, at ssa.Instruction) {
					if !succeeded(st) || !last && !st.Has("answer-ok") {
						return
					}
					ok := false
					for i := range st.trace {
						ev := &st.trace[i]
						if ev.Kind == "lookup" && keyPrefix(ev.Args[0]) == mark {
							ok = ok || isTrueTerm(x, st, ev)
						}
					}
					for _, n := range f.names(st) {
						ok = ok || f.found(x, st, n)
					}
					c.Check(ok, "stored", hkey, at.Pos(), "%s is answered with success although the object is neither marked as existing nor seen on the disk", k)
				}
			}
			if exit != nil {
				done[fn] = true
				explore(fn, exit)
			}
		}
	}
	for _, fn := range f.roots() {
		if !done[fn] {
			explore(fn, nil)
		}
	}
	c.searches(f)
	c.readers()
	c.Min("finds", 1)
	c.Min("direct", 3)
	c.Min("whole", 2)
	c.Min("stored", 3)
	c.Min("cleaned", 2)
	c.Min("counted", 3)
	c.Min("marked", 2)
	c.Min("deleted", 1)
	c.Min("broken-off", 1)
}

// lastOf is the event this very call has just added.
func lastOf(st *State, ci *CallInfo, kind string) *Event {
	if n := len(st.trace); n > 0 {
		if ev := &st.trace[n-1]; ev.Call == ci && ev.Kind == kind {
			return ev
		}
	}
	return nil
}

// keyName is the rest of a key behind its prefix.
func keyName(t *Term) *Term {
	t = t.strip()
	if t.k == KBin && t.op == "+" || t.k == KPure && t.op == "fmt.Sprint" {
		if len(t.a) == 2 {
			return t.a[1].strip()
		}
	}
	return nil
}

func isTrueTerm(x *Exec, st *State, ev *Event) bool {
	if ev.Call == nil {
		return false
	}
	sig := ev.Call.Common.Signature()
	i := sig.Results().Len() - 1
	return x.Eval(st, x.E.Res(ev.Call, i)) == Yes
}

// asked: the name is the one the request is about.
func (f *files) asked(st *State, n *Term, route string) bool {
	hit := false
	n.walk(func(s *Term) {
		if (s.k == KFAddr || s.k == KField) && s.op == "Name" {
			hit = true
		}
		if s.call != nil && s.call.Name == ginCtx+"Param" {
			hit = true
		}
	})
	return hit
}

// gone says why the object may still be there.
func (f *files) gone(x *Exec, st *State, mark string) string {
	lastRemoved := -1
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "remove" && f.stored(st, ev.Args[0]) {
			lastRemoved = i
		}
		if ev.Kind != "stat" || f.object(st, ev.Args[0]) == nil || !f.exists(x, st, ev) {
			continue
		}
		ok := false
		for j := range st.trace {
			rm := &st.trace[j]
			if rm.Kind == "remove" && sameParts(f.parts(st, rm.Args[0]), f.parts(st, ev.Args[0])) && (x.nilness(st, rm.Val) == Yes || f.notExist(x, st, rm.Val) == Yes) {
				ok = true
			}
			if rm.Kind == "stat" && j > i && sameParts(f.parts(st, rm.Args[0]), f.parts(st, ev.Args[0])) && f.notExist(x, st, rm.Val) == Yes {
				ok = true
			}
		}
		if !ok {
			return "a file found for it may not have been removed"
		}
	}
	for i := range st.trace {
		if ev := &st.trace[i]; ev.Kind == "forget" && i > lastRemoved && keyPrefix(ev.Args[0]) == mark {
			return ""
		}
	}
	return "it is still marked as existing"
}

// balance: what is stored and removed is counted, what was made up is not left behind.
func (f *files) balance(x *Exec, st *State, key string, at ssa.Instruction) {
	c := f.c
	var stored, removed, adds, subs int
	for i := range st.trace {
		ev := &st.trace[i]
		switch ev.Kind {
		case "rename":
			if f.stored(st, ev.Args[1]) && x.nilness(st, ev.Val) != No {
				stored++
			}
		case "remove":
			if f.stored(st, ev.Args[0]) && x.nilness(st, ev.Val) == Yes {
				removed++
			}
		case "add":
			adds++
			if f.sizeOf(st, ev.Args[0]) {
				continue
			}
			c.Bad("counted", key+" add "+stableKey(ev.Call.Caller), ev.Pos, "%s: what is added to the capacity is not the size of the file", key)
		case "sub":
			subs++
		}
	}
	if stored > 0 {
		c.Check(adds == stored, "counted", key+" store", at.Pos(), "%s: %d files get the name of an object, but the capacity grows %d times", key, stored, adds)
	}
	if removed > 0 {
		c.Check(subs > 0, "counted", key+" remove", at.Pos(), "%s: the file of an object is removed, but the capacity is not reduced", key)
	}
	for i := range st.trace {
		cr := &st.trace[i]
		if cr.Kind != "create" || x.nilness(st, cr.Val) == No || !f.made(st, cr.Args[0]) {
			continue
		}
		ps := f.parts(st, cr.Args[0])
		ok := false
		for j := range st.trace {
			ev := &st.trace[j]
			switch ev.Kind {
			case "rename":
				ok = ok || sameParts(f.parts(st, ev.Args[0]), ps) && x.nilness(st, ev.Val) == Yes
			case "remove":
				ok = ok || sameParts(f.parts(st, ev.Args[0]), ps)
			case "stat":
				ok = ok || j > i && sameParts(f.parts(st, ev.Args[0]), ps) && x.nilness(st, ev.Val) == No
			}
		}
		c.Check(ok, "cleaned", key+" -> "+stableKey(cr.Call.Caller), cr.Pos, "%s: a file made up for storing is neither moved nor removed on some path", key)
	}
}

// sizeOf: the size a file reports, or the length of what was copied into one.
func (f *files) sizeOf(st *State, t *Term) bool {
	hit := false
	t.walk(func(s *Term) {
		if s.call != nil && (strings.HasSuffix(s.call.Name, "fs.FileInfo.Size") || strings.HasPrefix(s.call.Name, "io.Copy")) {
			hit = true
		}
	})
	return hit
}

// searches: the search over the drives returns what it saw.
func (c *Ctx) searches(f *files) {
	fn := c.P.FnByName(objApp + "usecase/component.DriverManager.FindMountPath")
	if fn == nil {
		return
	}
	r := &Rule{Wide: 4}
	f.hooks(r)
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if len(res) != 2 || x.nilness(st, res[1]) == No {
			return
		}
		ok := false
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "stat" && sameParts(f.parts(st, ev.Args[0]), f.parts(st, res[0])) && x.nilness(st, ev.Val) == Yes {
				ok = true
			}
		}
		c.Check(ok, "finds", methodKey(fn), at.Pos(), "%s returns a path without error that it did not see on the disk", methodKey(fn))
	}
	c.Run(fn, r)
}

// readers: Read methods of the disk package.
func (c *Ctx) readers() {
	for _, fn := range c.P.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Name() != "Read" || fn.Signature.Recv() == nil || pkgPathOf(fn) != "common/system/disk" {
			continue
		}
		key := methodKey(fn)
		r := &Rule{Wide: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case strings.HasPrefix(ci.Name, "common/util/"):
				return ActPure
			case ci.Common.IsInvoke() && ci.Name == "io.Reader.Read":
				st.Emit(Event{Kind: "read", Call: ci, Val: x.E.ErrRes(ci), Pos: ci.Site.Pos()})
				return ActOpaque
			case ci.Name == "io.ReadFull", ci.Name == "io.ReadAtLeast":
				st.Emit(Event{Kind: "fill", Call: ci, Val: x.E.ErrRes(ci), Pos: ci.Site.Pos()})
				return ActOpaque
			}
			return ActDefault
		}
		r.OnBranch = func(x *Exec, st *State) {
			var keep []Event
			for _, ev := range st.trace {
				if ev.Kind != "read" && ev.Kind != "fill" || x.nilness(st, ev.Val) != Yes && !isEOF(st, ev.Val) {
					keep = append(keep, ev)
				}
			}
			st.trace = keep
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if len(res) != 2 {
				return
			}
			c.Check(true, "broken-off", key, at.Pos(), "")
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind != "read" && ev.Kind != "fill" {
					continue
				}
				ok := res[1].strip() == ev.Val || x.nilness(st, ev.Val) == Yes || isEOF(st, ev.Val)
				if !ok && x.nilness(st, res[1]) == No && !isEOF(st, res[1]) && !strings.HasSuffix(res[1].Pretty(), "io.EOF") {
					ok = true // another error
				}
				c.Check(ok, "broken-off", key, at.Pos(), "%s reports the end of the data (or nothing) where the reader behind it may have failed", key)
			}
		}
		c.Run(fn, r)
	}
}
