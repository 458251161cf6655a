package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "The object server's handlers, remote methods and what they start are explored on every path, goroutines in line, with the messages of a migration, file operations and updates of metadata noted as events: a stored file may only be removed where its copy is known to be taken over, and the receiver's answers are judged by branch facts on sizes and errors.", checkC37)
}

const migrationPb = "common/proto/pb.ObjectMigration"

type transfer struct {
	*files
	prefix string
}

func checkC37(c *Ctx) {
	c.Rule("kept", "the file of a stored object is removed only where that is requested, where another server has confirmed to have taken the object over, or after a complete file with its name took its place")
	c.Rule("sent", "an object is reported as sent only after all of it was read and sent without error, in messages with its name and size, and the receiver answered with success")
	c.Rule("order", "what is received is written as it was received, each part before the next is taken")
	c.Rule("received", "receiving an object is answered with success only if a file of the announced size got its name or was seen under it, or nothing was sent")
	c.Rule("taken-over", "taking an object over is answered with success only if its file was seen with the announced size and every metadata server answered the new location without error or that it does not know the object")
	f := &transfer{files: &files{c}}
	if pk := c.P.ByPth["objectserver/internal/entity"]; pk != nil {
		if k, ok := pk.Types.Scope().Lookup("TempKeyPrefix").(*types.Const); ok {
			f.prefix = strings.Trim(k.Val().ExactString(), `"`)
		}
	}
	n := 0
	done := map[*ssa.Function]bool{}
	senders := f.senders()
	for fn := range senders {
		f.sender(fn)
		n++
	}
	c.Count("functions that hand objects over", n)
	for _, m := range c.RPCs("objectserver/") {
		switch {
		case strings.HasSuffix(m.Service, "ObjectMigration") && m.Stream:
			f.receiver(m)
			done[c.P.base(m.Fn)] = true
		case strings.HasSuffix(m.Service, "ObjectMigration") && m.Name == "FinishReceive":
			f.taken(m)
		}
	}
	asked := map[*ssa.Function]bool{}
	for _, rt := range c.GinRoutes("objectserver/") {
		if rt.Method == "DELETE" && strings.Contains(rt.Path, "/objects/") {
			for _, h := range rt.Own {
				if fn := c.E.baseFn(h.strip()); fn != nil {
					asked[c.P.base(fn)] = true
				}
			}
		}
	}
	for _, fn := range f.roots() {
		part := done[fn]
		for p := fn; p != nil; p = p.Parent() {
			part = part || senders[p]
		}
		if !part && !asked[fn] {
			f.others(fn, senders)
		}
	}
	c.Min("kept", 2)
	c.Min("sent", 1)
	c.Min("order", 1)
	c.Min("received", 2)
	c.Min("taken-over", 2)
}

// senders are the innermost functions that both have another server take objects over and remove files.
func (f *transfer) senders() map[*ssa.Function]bool {
	c := f.c
	gives := c.E.Reaching(func(n string) bool { return n == migrationPb+"Client.FinishReceive" })
	drops := c.E.Reaching(func(n string) bool { return n == "os.Remove" || n == "os.RemoveAll" })
	both := func(fn *ssa.Function) bool { return gives[fn] && drops[fn] }
	out := map[*ssa.Function]bool{}
	for _, fn := range c.P.Fns {
		if fn.Synthetic != "" || !strings.HasPrefix(pkgPathOf(fn), "objectserver/") || !both(fn) {
			continue
		}
		inner := true
		for g := range c.E.From(fn) {
			if g != fn && both(g) && !c.E.From(g)[fn] {
				inner = false
			}
		}
		if inner {
			out[fn] = true
		}
	}
	return out
}

// sizedFact: a fact says that the size of a file equals a size that was announced.
func sizedFact(st *State) bool {
	for fa, v := range st.facts {
		if !v || fa.k != KBin || fa.op != "==" {
			continue
		}
		for i := range fa.a {
			ci := callOf(fa.a[i])
			if ci == nil || !strings.HasPrefix(ci.Name, "io/fs.") || !strings.HasSuffix(ci.Name, ".Size") {
				continue
			}
			hit := false
			fa.a[1-i].walk(func(s *Term) {
				if (s.k == KFAddr || s.k == KField) && s.op == "Size" {
					hit = true
				}
				if s.call != nil && strings.HasSuffix(s.call.Name, ".GetSize") {
					hit = true
				}
			})
			if hit {
				return true
			}
		}
	}
	return false
}

// isPart: the term is the named field of a message, read directly or by its getter.
func isPart(t *Term, name string) bool {
	t = t.strip()
	if ci := callOf(t); ci != nil && strings.HasSuffix(ci.Name, ".Get"+name) {
		return true
	}
	return lastField(t) == name
}

func (f *transfer) sender(fn *ssa.Function) {
	c := f.c
	key := stableKey(fn)
	ops := c.E.Reaching(func(n string) bool {
		return n == "os.Remove" || n == "os.RemoveAll" || strings.HasPrefix(n, migrationPb) || n == "os.Open"
	})
	r := &Rule{Wide: 4}
	small := c.E.Focus(ops, 3)
	r.Relevant = func(ci *CallInfo, fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if typeNameOf(p.Type()) == "common/proto/pb.Response" {
				return true
			}
		}
		return small(ci, fn)
	}
	settle := func(x *Exec, st *State) {
		for i := range st.trace {
			ev := &st.trace[i]
			switch ev.Kind {
			case "rpc CloseAndRecv", "rpc FinishReceive":
				if x.nilness(st, ev.Val) == Yes && x.Eval(st, x.field(st, x.E.Res(ev.Call, 0), "Success")) == Yes {
					st.vars[ev.Kind] = "yes"
				}
			case "rpc Send":
				if isEOF(st, ev.Val) {
					st.vars["whole"] = "yes"
				}
			case "read":
				if isEOF(st, ev.Val) {
					st.vars["whole"] = "yes"
				}
			}
		}
	}
	r.OnBranch = settle
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		at := key + " -> " + stableKey(ci.Caller)
		switch {
		case ci.Name == "os.File.Read", ci.Name == "io.Reader.Read", ci.Name == "io.ReadFull", ci.Name == "io.ReadAtLeast":
			b := ci.Args[1]
			st.Emit(Event{Kind: "read", Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{ci.Args[0].strip(), b}, Pos: ci.Site.Pos()})
			return ActPure
		case strings.HasPrefix(ci.Name, migrationPb):
			op := methodName2(ci.Name)
			switch op {
			case "Send":
				msg := ci.Args[1]
				data := x.field(st, msg, "Data").strip()
				ok := false
				if data.k == KOther && data.op == "slice" && (data.a[1].op == "_" || isInt(data.a[1], 0)) {
					for i := range st.trace {
						if ev := &st.trace[i]; ev.Kind == "read" && ev.Args[1].strip() == data.a[0].strip() && data.a[2].strip() == x.E.Res(ev.Call, 0) {
							ok = true
						}
					}
				}
				c.Check(ok, "sent", at+" data", ci.Site.Pos(), "%s: what is sent is not what was read last", key)
				st.terms["file"] = x.field(st, msg, "FileName").strip()
				st.terms["size"] = x.field(st, msg, "Size").strip()
			case "FinishReceive":
				settle(x, st)
				info := ci.Args[2]
				why := ""
				switch {
				case st.vars["rpc CloseAndRecv"] != "yes":
					why = "the receiver may not have answered with success"
				case st.vars["whole"] != "yes":
					why = "the file may not have been read to its end"
				case st.terms["file"] != nil && st.terms["file"] != x.field(st, info, "FileName").strip():
					why = "it was sent under another name"
				case st.terms["size"] != nil && st.terms["size"] != x.field(st, info, "Size").strip():
					why = "it was sent with another size"
				}
				for i := range st.trace {
					ev := &st.trace[i]
					if (ev.Kind == "rpc Send" || ev.Kind == "read") && x.nilness(st, ev.Val) != Yes && !isEOF(st, ev.Val) && st.vars["whole"] != "yes" {
						why = "a message may not have been sent"
					}
				}
				c.Check(why == "", "sent", at, ci.Site.Pos(), "%s: an object is reported as sent although %s", key, why)
				st.terms["finished"] = x.field(st, info, "FileName").strip()
			}
			st.Emit(Event{Kind: "rpc " + op, Call: ci, Val: x.E.ErrRes(ci), Args: ci.Args, Pos: ci.Site.Pos()})
			return ActOpaque
		case ci.Name == "os.Remove", ci.Name == "os.RemoveAll":
			settle(x, st)
			why := ""
			switch {
			case st.vars["rpc FinishReceive"] != "yes":
				why = "the receiver may not have taken it over"
			case f.object(st, ci.Args[0]) != nil && f.object(st, ci.Args[0]) != st.terms["finished"]:
				why = "another one was taken over"
			}
			c.Check(why == "", "kept", at, ci.Site.Pos(), "%s: the file of an object is removed although %s", key, why)
		}
		return ActDefault
	}
	f.hooks(r)
	c.dgHooks(r, func(ci *CallInfo) bool { return true })
	c.Run(fn, r)
}

// methodName2 is the last part of a qualified name.
func methodName2(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

// replaced: each stored file removed has been replaced by another of its name before.
func (f *transfer) replaced(x *Exec, st *State, path *Term) string {
	if f.temp(st, path) && !f.stored(st, path) {
		return ""
	}
	if st.vars["temp"] == "yes" {
		return "" // an unfinished upload
	}
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "rename" && x.nilness(st, ev.Val) == Yes && f.object(st, ev.Args[1]) != nil && f.object(st, ev.Args[1]) == f.object(st, path) {
			return ""
		}
	}
	return "nothing has taken its place"
}

func (f *transfer) others(fn *ssa.Function, senders map[*ssa.Function]bool) {
	c := f.c
	key := methodKey(fn)
	r := &Rule{}
	near := c.E.Focus(c.E.Reaching(func(n string) bool {
		return n == "os.Remove" || n == "os.RemoveAll" || n == "os.Rename" || n == pathIdx+"GetLast" || strings.HasSuffix(n, "DriverManager.FindMountPath")
	}), 3)
	r.Relevant = func(ci *CallInfo, fn *ssa.Function) bool { return !senders[fn] && near(ci, fn) }
	r.OnBranch = func(x *Exec, st *State) {
		for fa, v := range st.facts {
			if fa.k == KPure && fa.op == "strings.HasPrefix" && textOf(fa.a[1]) == f.prefix {
				st.vars["temp"] = map[bool]string{true: "yes"}[v]
			}
		}
	}
	r.OnCallback = func(x *Exec, st *State, ci *CallInfo, res []*Term) { st.vars["temp"] = "" }
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if c.onAnswer(x, st, ci) {
			return ActPure
		}
		if strings.HasPrefix(ci.Name, "common/util/slices.") {
			return ActOpaque
		}
		if ci.Name == "os.Remove" || ci.Name == "os.RemoveAll" {
			why := f.replaced(x, st, ci.Args[0])
			c.Check(why == "", "kept", key+" -> "+stableKey(ci.Caller), ci.Site.Pos(), "%s: the file of an object is removed although %s", key, why)
		}
		return ActDefault
	}
	f.hooks(r)
	hooked := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		a := hooked(x, st, ci)
		// what takes a place is all that matters later
		for _, k := range []string{"isdir", "regular", "stat", "remove", "add", "sub", "keep", "forget", "lookup", "open", "write", "close", "flush"} {
			st.Drop(k)
		}
		return a
	}
	c.Run(fn, r)
}

func (f *transfer) receiver(m *RPC) {
	c := f.c
	key := m.Service + " " + m.Name
	r := &Rule{Wide: 8}
	settle := func(x *Exec, st *State) {
		if ev := st.Last("recv"); ev != nil {
			if st.vars["recv"] == "asked" {
				switch x.nilness(st, ev.Val) {
				case Yes:
					st.vars["recv"] = "got"
					st.vars["any"] = "yes"
				case No:
					st.vars["recv"] = ""
				}
			}
		}
		if sizedFact(st) {
			st.vars["sized"] = "yes"
		}
	}
	r.OnBranch = settle
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		at := key + " -> " + stableKey(ci.Caller)
		switch {
		case strings.HasPrefix(ci.Name, migrationPb) && strings.HasSuffix(ci.Name, ".Recv"):
			settle(x, st)
			c.Check(st.vars["recv"] == "", "order", at, ci.Site.Pos(), "%s: a part that was received is not written before the next is taken", key)
			st.Emit(Event{Kind: "recv", Call: ci, Val: x.E.ErrRes(ci), Pos: ci.Site.Pos()})
			st.vars["recv"] = "asked"
			return ActOpaque
		case ci.Name == "os.IsExist":
			// neither looking at a file nor opening one that may exist fails with that
			for i := range st.trace {
				if ev := &st.trace[i]; (ev.Kind == "create" || ev.Kind == "stat") && ev.Val == ci.Args[0].strip() && !exclusive(x, st, ev.Call) {
					x.Assume(st, x.E.T.mk(Term{k: KPure, op: ci.Name, a: ci.Args, typ: types.Typ[types.Bool]}), false)
				}
			}
		case ci.Name == "os.File.Write" || ci.Name == "io.Writer.Write":
			settle(x, st)
			st.vars["sized"] = ""
			if isPart(ci.Args[1], "Data") {
				st.vars["recv"] = ""
			}
		case ci.Name == "os.Rename" && f.stored(st, ci.Args[1]):
			settle(x, st)
			why := ""
			if st.vars["sized"] != "yes" {
				why = "it may not have the size that was announced"
			} else if st.vars["recv"] == "got" {
				why = "a part that was received was not written"
			}
			c.Check(why == "", "received", at, ci.Site.Pos(), "%s: a received file gets the name of its object although %s", key, why)
		case ci.Name == "os.Remove", ci.Name == "os.RemoveAll":
			why := f.replaced(x, st, ci.Args[0])
			c.Check(why == "", "kept", at, ci.Site.Pos(), "%s: the file of an object is removed although %s", key, why)
		case strings.HasSuffix(ci.Name, ".SendMsg"), strings.HasSuffix(ci.Name, ".SendAndClose"):
			settle(x, st)
			msg := ci.Args[1].strip()
			if x.Eval(st, x.field(st, msg, "Success")) == No {
				return ActOpaque
			}
			ok := st.vars["any"] == ""
			for i := range st.trace {
				ev := &st.trace[i]
				switch ev.Kind {
				case "rename":
					ok = ok || f.object(st, ev.Args[1]) != nil && x.nilness(st, ev.Val) == Yes
				case "stat":
					ok = ok || f.object(st, ev.Args[0]) != nil && f.exists(x, st, ev) && st.vars["sized"] == "yes"
				}
			}
			c.Check(ok, "received", at, ci.Site.Pos(), "%s: receiving an object is answered with success although no file of the announced size has its name", key)
			return ActOpaque
		}
		return ActDefault
	}
	f.hooks(r)
	c.Run(m.Fn, r)
}

func (f *transfer) taken(m *RPC) {
	c := f.c
	key := m.Service + " " + m.Name
	r := &Rule{Wide: 8}
	update := objApp + "usecase/webapi.UpdateVersionLocates"
	r.OnBranch = func(x *Exec, st *State) {
		if sizedFact(st) {
			st.vars["sized"] = "yes"
		}
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		at := key + " -> " + stableKey(ci.Caller)
		switch {
		case ci.Name == update:
			hash, seq, loc := ci.Args[1], ci.Args[2], ci.Args[3]
			named := func(t *Term) bool {
				hit := false
				see := func(s *Term) { hit = hit || isPart(s, "FileName") }
				t.walk(see)
				if call := callOf(t); call != nil {
					for _, a := range call.Args {
						a.walk(see)
					}
				}
				return hit
			}
			c.Check(named(hash) && named(seq), "taken-over", at+" shard", ci.Site.Pos(), "%s: the location that is changed is not the one of the object's name", key)
			own := callOf(loc)
			c.Check(own != nil && strings.HasSuffix(own.Name, ".GetService"), "taken-over", at+" location", ci.Site.Pos(), "%s: the new location is not the address this server is registered with", key)
			st.vars["updated"] = "yes"
			return ActOpaque
		case strings.HasPrefix(ci.Name, "common/util.ToInt"):
			return ActPure
		case ci.Name == "common/response.CheckErrStatus", strings.HasPrefix(ci.Name, "common/registry."):
			return ActOpaque
		case strings.HasPrefix(ci.Name, "sync/atomic."):
			switch {
			case strings.Contains(ci.Name, "Add"):
				st.vars["counted"] = "yes"
			case strings.Contains(ci.Name, "Store"):
				st.vars["counted"] = ""
			}
			return ActOpaque
		}
		return ActDefault
	}
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		B := types.Typ[types.Bool]
		switch {
		case ci.Name == update:
			err := x.E.ErrRes(ci)
			var out []*State
			for _, how := range []string{"", "unknown", "failed"} {
				s := st.clone()
				x.Assume(s, x.E.T.bin("==", err, x.E.T.Nil(), B), how == "")
				if how != "" {
					s.terms["failure"] = err
					s.vars["failure"] = how
				}
				if how == "failed" {
					s.vars["failed"] = "yes"
				}
				out = append(out, s)
			}
			return out
		case ci.Name == "common/response.CheckErrStatus":
			if e := st.terms["failure"]; e != nil && ci.Args[1].strip() == e && isInt(ci.Args[0].strip(), 404) {
				x.Assume(st, x.E.Res(ci, 0), st.vars["failure"] == "unknown")
			}
		case strings.HasPrefix(ci.Name, "sync/atomic.") && strings.Contains(ci.Name, "Load"):
			if st.vars["counted"] != "" {
				x.Assume(st, x.E.T.bin("<", x.E.T.ConstVal(constant.MakeInt64(0), types.Typ[types.Int]), x.E.Res(ci, 0), B), true)
			}
		}
		return nil
	}
	updated := false
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if len(res) != 2 || x.nilness(st, res[1]) == No || x.Eval(st, x.field(st, res[0], "Success")) == No {
			return
		}
		updated = updated || st.vars["updated"] == "yes"
		why := ""
		seen := false
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "stat" {
				if n := f.object(st, ev.Args[0]); n != nil && isPart(n, "FileName") && f.exists(x, st, ev) {
					seen = true
				}
			}
		}
		switch {
		case !seen:
			why = "its file was not seen"
		case st.vars["sized"] != "yes":
			why = "its file may have another size"
		case st.vars["failed"] == "yes":
			why = "a metadata server may still have the old location"
		case st.Has("todo"):
			why = "the metadata servers may not have answered yet"
		}
		c.Check(why == "", "taken-over", key, at.Pos(), "%s is answered with success although %s", key, why)
	}
	f.hooks(r)
	c.dgHooks(r, nil)
	c.Run(m.Fn, r)
	c.Check(updated, "taken-over", key+" updates", m.Fn.Pos(), "%s: no location is changed", key)
}

// exclusive: opening the file fails if it exists.
func exclusive(x *Exec, st *State, ci *CallInfo) bool {
	if ci.Name == "os.Stat" || ci.Name == "os.Lstat" || ci.Name == "os.Create" {
		return false
	}
	if len(ci.Args) == 3 {
		if v, ok := x.constOf(st, ci.Args[1]); ok {
			if k, ok := constInt(v); ok {
				return k&0x80 != 0
			}
		}
	}
	return !strings.HasSuffix(ci.Name, "FindMountPath")
}
