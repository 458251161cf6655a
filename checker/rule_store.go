package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Every function that starts a write transaction, and every function that opens or swaps the store file, is explored on every path; the branch facts of the path decide whether the read-only gate was seen open, whether the swap holds it, and whether it is given back.", checkC06)
	register("C09", "Every change of the migration status is listed with its constant operands; every exported operation of the slot store, the services that obtain a migration status and the RPC handlers are explored on every path for the status they report, guard and give back.", checkC09)
	register("C11", "The snapshot's Persist and the state machine's Restore are explored on every path, entering helpers; a path that reports success must have performed every step with its error known to be nil, in order.", checkC11)
}

// calls visits every call of a function and the literals in it.
func (c *Ctx) calls(fn *ssa.Function, visit func(in ssa.CallInstruction, name string)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				visit(ci, calleeName(ci.Common()))
			}
		}
	}
}

// callersOf lists in-repo functions that directly call a matching callee.
func (c *Ctx) callersOf(match func(string) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Fns {
		hit := false
		c.calls(fn, func(_ ssa.CallInstruction, n string) {
			if match(n) {
				hit = true
			}
		})
		if hit {
			out = append(out, fn)
		}
	}
	return out
}

// entryRoots climbs from helpers to the functions other packages can call.
func (c *Ctx) entryRoots(fns []*ssa.Function) []*ssa.Function {
	g := c.E.Graph()
	seen := map[*ssa.Function]bool{}
	set := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		f = topFn(f)
		if seen[f] {
			return
		}
		seen[f] = true
		o, _ := f.Object().(*types.Func)
		if f.Synthetic != "" && o == nil {
			return
		}
		exported := o != nil && o.Exported()
		var in []*ssa.Function
		for _, p := range g.In[f] {
			if topFn(p) != f {
				in = append(in, p)
			}
		}
		if exported || len(in) == 0 {
			set[c.P.base(f)] = true
			return
		}
		for _, p := range in {
			up(p)
		}
	}
	for _, f := range fns {
		up(f)
	}
	var out []*ssa.Function
	for f := range set {
		out = append(out, f)
	}
	sortFns(out)
	return out
}

// atomField: the struct field an atomic operation works on.
func atomField(recv *Term) string {
	recv = recv.strip()
	if recv.k == KLoad {
		recv = recv.a[0]
	}
	if recv.k == KFAddr {
		return recv.op
	}
	return ""
}

// atomOp recognises an operation on an atomic value.
func atomOp(ci *CallInfo) (op, field string) {
	if ci == nil || !strings.HasPrefix(ci.Name, "sync/atomic.") || len(ci.Args) == 0 {
		return "", ""
	}
	n := strings.TrimPrefix(ci.Name, "sync/atomic.")
	if i := strings.Index(n, "."); i >= 0 {
		return n[i+1:], atomField(ci.Args[0])
	}
	for _, p := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add"} {
		if strings.HasPrefix(n, p) {
			return p, atomField(ci.Args[0])
		}
	}
	return "", ""
}

// observed: the facts of the path say a load of the atomic field gave the value (or a CAS from old to new succeeded).
func (x *Exec) observed(st *State, field string, isVal func(*Term) bool) bool {
	for f, v := range st.facts {
		t := f
		// boolean loads
		if !v && t.k == KRes && t.call != nil {
			if op, fl := atomOp(t.call); op == "Load" && fl == field && isVal(x.E.T.False()) {
				return true
			}
		}
		if v && t.k == KRes && t.call != nil {
			if op, fl := atomOp(t.call); op == "Load" && fl == field && isVal(x.E.T.True()) {
				return true
			}
		}
		if v && t.k == KBin && t.op == "==" {
			for i := 0; i < 2; i++ {
				a, b := t.a[i], t.a[1-i]
				if a.call != nil && b.k == KConst {
					if op, fl := atomOp(a.call); op == "Load" && fl == field && isVal(b) {
						return true
					}
				}
			}
		}
	}
	return false
}

// casDone: a compare-and-swap on the field succeeded on the path; the operands are returned.
func (x *Exec) casDone(st *State, field string) (from, to *Term, ok bool) {
	for f, v := range st.facts {
		if v && f.k == KRes && f.call != nil {
			if op, fl := atomOp(f.call); op == "CompareAndSwap" && (field == "" || fl == field) && len(f.call.Args) >= 3 {
				return f.call.Args[1].strip(), f.call.Args[2].strip(), true
			}
		}
	}
	return nil, nil, false
}

// pinAtom keeps what an atomic operation returned on the path.
func pinAtom(st *State, ci *CallInfo) {
	if op, f := atomOp(ci); op == "Load" || op == "CompareAndSwap" {
		st.Emit(Event{Kind: "atom:" + f, Call: ci})
	}
}

func isTrue(t *Term) bool  { return t.strip().k == KConst && t.strip().op == "true" }
func isFalse(t *Term) bool { return t.strip().k == KConst && t.strip().op == "false" }

func checkC06(c *Ctx) {
	c.Rule("write-gate", "a write transaction is started only on paths where the read-only gate was seen open")
	c.Rule("swap-gated", "a store that is in use is exchanged for another one only while this path holds the read-only gate")
	c.Rule("gate-restored", "every path that takes the gate gives it back, and no other path opens it")
	c.Rule("swap-opened", "a store handle is published only after it was opened without error")
	c.Rule("failure-keeps", "a path that reports failure has not exchanged the store, a path that reports success has")
	c.Rule("old-closed-last", "the store in use is closed and its file removed only after another one was published, and never the new one's")
	var openers []*ssa.Function
	for _, fn := range c.entryRoots(c.callersOf(func(n string) bool { return n == boltDot+"Open" })) {
		if strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
			openers = append(openers, fn)
		}
	}
	gate := ""
	for _, fn := range openers {
		rv := fn.Signature.Recv()
		if rv == nil {
			continue
		}
		for f := range c.E.From(fn) {
			c.calls(f, func(in ssa.CallInstruction, n string) {
				if strings.HasPrefix(n, "sync/atomic.") && strings.HasSuffix(n, "CompareAndSwap") && len(in.Common().Args) > 0 {
					if fa, ok := in.Common().Args[0].(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), deref(rv.Type())) {
						gate = structField(fa.X.Type(), fa.Field)
					}
				}
			})
		}
	}
	if !c.Check(gate != "", "swap-gated", "gate", 0, "no function that exchanges the store takes a gate") {
		return
	}
	// writers
	for _, fn := range c.entryRoots(c.callersOf(isWriteTx)) {
		if !strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
			continue
		}
		r := &Rule{NoCallbacks: true}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			pinAtom(st, ci)
			if isWriteTx(ci.Name) {
				c.Check(x.observed(st, gate, func(t *Term) bool { return isFalse(t) }), "write-gate", methodKey(fn), ci.Site.Pos(), "a write transaction can start while the store is read-only (being replaced): the write goes to the file that is about to be removed")
				return ActOpaque
			}
			return ActDefault
		}
		c.Run(fn, r)
	}
	for _, fn := range openers {
		key := methodKey(fn)
		r := &Rule{NoCallbacks: true}
		r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool { return true }
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			pinAtom(st, ci)
			op, field := atomOp(ci)
			switch {
			case op == "Store" || op == "Swap":
				if field == gate {
					st.Emit(Event{Kind: "gate", Call: ci, Val: ci.Args[1].strip()})
				} else if len(ci.Args) > 1 && strings.HasSuffix(typeNameOf(deref(ci.Args[1].strip().typ)), "bbolt.DB") {
					nw := ci.Args[1].strip()
					opened := nw.call != nil && nw.call.Name == boltDot+"Open" && x.nilness(st, x.E.ErrRes(nw.call)) == Yes
					c.Check(opened, "swap-opened", key, ci.Site.Pos(), "a store handle is published that may not have been opened")
					if st.vars["loaded"] == field || op == "Swap" {
						from, to, ok := x.casDone(st, gate)
						held := ok && isFalse(from) && isTrue(to) && !st.Has("gate")
						c.Check(held, "swap-gated", key, ci.Site.Pos(), "the store in use is exchanged without the read-only gate being held, so writes may go to the file that is removed")
						st.vars["replaced"] = "1"
					}
					st.vars["published"] = field
					st.terms["new"] = nw
				}
			case op == "Load" && field != gate:
				if st.vars["published"] == "" {
					st.vars["loaded"] = field
				}
			case ci.Name == boltDot+"DB.Close":
				ok := st.vars["published"] != "" && st.terms["new"] != ci.Args[0].strip()
				if st.terms["new"] == nil && ci.Args[0].strip().call != nil && ci.Args[0].strip().call.Name == boltDot+"Open" {
					ok = true // discarding a handle that was never published
				}
				c.Check(ok, "old-closed-last", key, ci.Site.Pos(), "the store in use is closed before, or instead of, the one it was exchanged for")
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			_, _, took := x.casDone(st, gate)
			opened := false
			for _, ev := range st.trace {
				if ev.Kind == "gate" && isFalse(ev.Val) {
					opened = true
				}
			}
			if took {
				c.Check(opened, "gate-restored", key, at.Pos(), "the store stays read-only after this path: every later write is refused")
			} else {
				c.Check(!opened, "gate-restored", key+" other", at.Pos(), "a path that does not hold the gate opens it while another one is exchanging the store")
			}
			e := res[len(res)-1]
			if !isErrorType(e.typ) && e.k != KConst {
				return
			}
			switch x.nilness(st, e) {
			case No:
				c.Check(st.vars["published"] == "", "failure-keeps", key+" failure", at.Pos(), "failure is reported although the store was exchanged")
			case Yes:
				c.Check(st.vars["published"] != "", "failure-keeps", key+" success", at.Pos(), "success is reported although no store was opened")
			}
		}
		c.Run(fn, r)
	}
	c.Min("write-gate", 2)
	c.Min("swap-gated", 1)
	c.Min("gate-restored", 2)
	c.Min("swap-opened", 2)
	c.Min("failure-keeps", 3)
	c.Min("old-closed-last", 1)
}

func checkC11(c *Ctx) {
	c.Rule("persist-complete", "persisting a snapshot reports success only after the whole state was written, the compressor was closed and the sink was closed, each with a nil error")
	c.Rule("persist-cancel", "persisting a snapshot that fails cancels the sink, and the sink is never closed as complete after a failure")
	c.Rule("restore-complete", "a restored store is put in place only after all of its data was read and written to an emptied file that was closed, each with a nil error")
	c.Rule("restore-reported", "restoring reports success only if the store was put in place, and what is put in place is the file the data was written to")
	c.Rule("restore-cache", "after the store was put in place everything cached from the old one is dropped before success is reported")
	// Persist
	persists := 0
	for _, fn := range c.P.Fns {
		if fn.Name() != "Persist" || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Signature.Params().Len() != 1 || !strings.HasSuffix(typeNameOf(fn.Signature.Params().At(0).Type()), "raft.SnapshotSink") {
			continue
		}
		persists++
		key := methodKey(fn)
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			n := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
			sink := len(ci.Args) > 0 && ci.Args[0].strip() == paramTerm(x, 1)
			switch {
			case sink && n == "Cancel":
				st.Emit(Event{Kind: "cancel", Call: ci})
			case sink && n == "Close":
				c.Check(persistOK(x, st) && !st.Has("cancel"), "persist-cancel", key+" close", ci.Site.Pos(), "the sink is closed as a complete snapshot although not everything was written to it: the log it replaces is deleted and the state is lost")
				st.Emit(Event{Kind: "close", Call: ci})
			case n == "WriteTo" || n == "Write" || n == "Copy":
				st.Emit(Event{Kind: "write", Call: ci})
			case strings.HasPrefix(ci.Name, "compress/") && strings.HasSuffix(ci.Name, "NewWriter"), strings.HasPrefix(ci.Name, "compress/") && strings.HasSuffix(ci.Name, "NewWriterLevel"):
				st.Emit(Event{Kind: "gzip", Call: ci})
			case strings.HasPrefix(ci.Name, "compress/") && n == "Close":
				st.Emit(Event{Kind: "gzip-close", Call: ci})
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			e := res[len(res)-1]
			cl := st.Find("close")
			if x.nilness(st, e) != No && (cl == nil || e.strip() != x.E.ErrRes(cl.Call) || x.nilness(st, e) == Yes) {
				// may report success
				c.Check(cl != nil && x.nilness(st, x.E.ErrRes(cl.Call)) == Yes && persistOK(x, st), "persist-complete", key, at.Pos(), "success is reported for a snapshot that was not written and closed completely")
				return
			}
			if cl != nil {
				c.Ok("persist-complete", key+" by the sink")
				return
			}
			c.Check(st.Has("cancel"), "persist-cancel", key+" cancel", at.Pos(), "a failed snapshot is not cancelled")
		}
		c.Run(fn, r)
	}
	c.Check(persists > 0, "persist-complete", "implementation", 0, "no snapshot implementation found")
	// Restore
	restores := 0
	for _, fn := range c.P.Fns {
		if fn.Name() != "Restore" || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Signature.Params().Len() != 1 {
			continue
		}
		pt := fn.Signature.Params().At(0).Type().String()
		if pt != "io.ReadCloser" {
			continue
		}
		restores++
		key := methodKey(fn)
		steps := func(x *Exec, st *State) (ok bool, why string) {
			var op, cp, cls *Event
			for i := range st.trace {
				switch st.trace[i].Kind {
				case "open":
					op = &st.trace[i]
				case "copy":
					cp = &st.trace[i]
				case "fclose":
					cls = &st.trace[i]
				}
			}
			switch {
			case op == nil || x.nilness(st, x.E.ErrRes(op.Call)) != Yes:
				return false, "the file was not opened"
			case cp == nil || x.nilness(st, x.E.ErrRes(cp.Call)) != Yes:
				return false, "the data was not copied completely"
			case cp.Args[0].strip() != x.E.Res(op.Call, 0):
				return false, "the data was written elsewhere"
			case cls == nil || x.nilness(st, x.E.ErrRes(cls.Call)) != Yes:
				return false, "the file was not closed without error"
			}
			if op.Call.Name == "os.OpenFile" {
				fl, ok := x.constOf(st, op.Args[1])
				n, ok2 := constInt(fl)
				if !ok || !ok2 || n&0o1000 == 0 {
					return false, "the file is not emptied first, the end of an earlier, longer one stays in it"
				}
			}
			return true, ""
		}
		r := &Rule{NoCallbacks: true, MaxDepth: 12}
		r.OnGo = func(x *Exec, st *State, ci *CallInfo) bool { return false }
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			n := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
			switch {
			case ci.Name == "os.OpenFile" || ci.Name == "os.Create":
				st.Emit(Event{Kind: "open", Call: ci, Args: ci.Args})
			case ci.Name == "io.Copy" || ci.Name == "io.CopyBuffer":
				st.Emit(Event{Kind: "copy", Call: ci, Args: ci.Args})
			case ci.Name == "os.File.Close":
				st.Emit(Event{Kind: "fclose", Call: ci})
			case ci.Name == boltDot+"Open":
				ok, why := steps(x, st)
				c.Check(ok, "restore-complete", key, ci.Site.Pos(), "a restored store is opened although %s", why)
				op := st.Find("open")
				c.Check(op != nil && op.Args[0].strip() == ci.Args[0].strip(), "restore-reported", key+" file", ci.Site.Pos(), "the store that is opened is not the file the snapshot was written to")
			case n == "Clear" && len(ci.Args) == 1:
				if st.Has("swap") {
					st.Emit(Event{Kind: "clear", Call: ci})
				}
				return ActOpaque
			}
			if op, _ := atomOp(ci); (op == "Store" || op == "Swap") && len(ci.Args) > 1 && strings.HasSuffix(typeNameOf(deref(ci.Args[1].strip().typ)), "bbolt.DB") {
				st.Emit(Event{Kind: "swap", Call: ci})
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			e := res[len(res)-1]
			if x.nilness(st, e) == No {
				return
			}
			c.Check(st.Has("swap"), "restore-reported", key, at.Pos(), "success is reported although the restored store was not put in place")
			if st.Has("swap") {
				c.Check(st.Has("clear"), "restore-cache", key, at.Pos(), "records cached from the old store are served after it was replaced")
			}
		}
		c.Run(fn, r)
	}
	c.Check(restores > 0, "restore-complete", "implementation", 0, "no restore found")
	c.Min("persist-complete", 2)
	c.Min("persist-cancel", 2)
	c.Min("restore-complete", 2)
	c.Min("restore-reported", 2)
	c.Min("restore-cache", 1)
}

// persistOK: everything written so far was written without error and the compressor is closed.
func persistOK(x *Exec, st *State) bool {
	wrote, gz := false, false
	for _, ev := range st.trace {
		switch ev.Kind {
		case "write":
			wrote = true
			if x.nilness(st, x.E.ErrRes(ev.Call)) != Yes {
				return false
			}
		case "gzip":
			gz = true
		case "gzip-close":
			gz = false
			if x.nilness(st, x.E.ErrRes(ev.Call)) != Yes {
				return false
			}
		}
	}
	return wrote && !gz
}

func checkC09(c *Ctx) {
	c.Rule("transition", "the status changes only by compare-and-swap between constants: idle to one of the migration states, back to idle, or idle to closed")
	c.Rule("reported", "an operation that changes the status reports success exactly if its compare-and-swap succeeded")
	c.Rule("peer", "entering a migration state records the given peer and slots, which are what is reported while the state lasts")
	c.Rule("idle-save", "slot ownership is written to or removed from the registry only on paths where the status was seen idle")
	c.Rule("given-back", "every path of an operation that runs a migration gives the status back, whether it succeeds or fails")
	c.Rule("timeout", "preparing to receive starts a timer that gives the status back unless receiving starts, and receiving stops it")
	nt := c.P.TypeByName("metaserver/internal/usecase/db.HashSlotDB")
	if nt == nil {
		c.Bad("transition", "type", 0, "the slot store is gone")
		return
	}
	pk := nt.Obj().Pkg()
	normal := constByName(pk, "StatusNormal")
	to, from, closed := constByName(pk, "StatusMigrateTo"), constByName(pk, "StatusMigrateFrom"), constByName(pk, "StatusClosed")
	allowed := map[[2]int64]bool{{normal, to}: true, {normal, from}: true, {to, normal}: true, {from, normal}: true, {normal, closed}: true}
	field := ""
	stt := nt.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if n := typeNameOf(deref(stt.Field(i).Type())); n == "sync/atomic.Int32" || n == "sync/atomic.Int64" {
			field = stt.Field(i).Name()
		}
	}
	if !c.Check(field != "", "transition", "atomic status", 0, "the status is not kept in an atomic variable") {
		return
	}
	var methods []*ssa.Function
	for _, fn := range c.P.Fns {
		if pkgPathOf(fn) != pk.Path() || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if o, ok := fn.Object().(*types.Func); ok && o.Exported() && fn.Signature.Recv() != nil && deref(fn.Signature.Recv().Type()) == types.Type(nt) {
			methods = append(methods, fn)
		}
	}
	for _, fn := range methods {
		key := methodKey(fn)
		isPeer := false
		r := &Rule{NoCallbacks: true}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			pinAtom(st, ci)
			op, f := atomOp(ci)
			if f == field {
				switch op {
				case "CompareAndSwap":
					a, ok1 := x.constOf(st, ci.Args[1])
					b, ok2 := x.constOf(st, ci.Args[2])
					m, _ := constInt(a)
					n, _ := constInt(b)
					c.Check(ok1 && ok2 && allowed[[2]int64{m, n}], "transition", key, ci.Site.Pos(), "a status change that is not part of a migration's life")
					st.Emit(Event{Kind: "cas", Call: ci})
					if n == to || n == from {
						isPeer = true
					}
				case "Store", "Swap", "Add", "And", "Or":
					c.Bad("transition", key, ci.Site.Pos(), "the status is overwritten whatever it was")
				}
			}
			n := ci.Name
			if strings.Contains(n, "etcd") && (strings.HasSuffix(n, ".Put") || strings.HasSuffix(n, ".Delete") || strings.HasSuffix(n, ".Txn")) {
				idle := x.observed(st, field, func(t *Term) bool { k, ok := constInt(t.cst); return ok && k == normal })
				c.Check(idle, "idle-save", key, ci.Site.Pos(), "slot ownership changes while slots are being migrated")
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if !st.Has("cas") || len(res) == 0 || !isErrorType(fn.Signature.Results().At(len(res)-1).Type()) {
				return
			}
			_, n, did := x.casDone(st, field)
			switch x.nilness(st, res[len(res)-1]) {
			case Yes:
				c.Check(did, "reported", key+" success", at.Pos(), "success is reported although the status did not change")
				if k, ok := constInt(cstOf(n)); did && ok && (k == to || k == from) {
					got := map[*Term]bool{}
					for a, v := range st.mem {
						if a.k == KFAddr && a.a[0] == paramTerm(x, 0) {
							got[v.strip()] = true
						}
					}
					c.Check(got[paramTerm(x, 1)] && got[paramTerm(x, 2)], "peer", key, at.Pos(), "the migration state is entered without recording the peer and the slots it is about")
				}
			default:
				c.Check(!did, "reported", key+" failure", at.Pos(), "failure may be reported although the status did change, so nobody gives it back")
			}
		}
		c.Run(fn, r)
		_ = isPeer
	}
	// everything else that touches the status
	for _, fn := range c.P.Fns {
		if fn.Parent() == nil && fn.Signature.Recv() != nil {
			continue
		}
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			if !strings.HasPrefix(n, "sync/atomic.Int") || len(in.Common().Args) == 0 || strings.HasSuffix(n, ".Load") {
				return
			}
			v := in.Common().Args[0]
			if u, ok := v.(*ssa.UnOp); ok {
				v = u.X
			}
			if fa, ok := v.(*ssa.FieldAddr); ok && deref(fa.X.Type()) == types.Type(nt) && structField(fa.X.Type(), fa.Field) == field {
				_, fresh := fa.X.(*ssa.Alloc)
				c.Check(fresh, "transition", stableKey(fn), in.Pos(), "the status is changed outside the operations of the slot store")
			}
		})
	}
	c.migrationLife()
	c.Min("transition", 3)
	c.Min("reported", 6)
	c.Min("peer", 2)
	c.Min("idle-save", 2)
	c.Min("given-back", 3)
	c.Min("timeout", 2)
}

func constByName(pk *types.Package, name string) int64 {
	if k, ok := pk.Scope().Lookup(name).(*types.Const); ok {
		n, _ := constInt(k.Val())
		return n
	}
	return -1
}

func cstOf(t *Term) constant.Value {
	if t == nil {
		return nil
	}
	return t.cst
}

const slotDB = "metaserver/internal/usecase/db.HashSlotDB."

// migrationLife follows a migration status from where it is obtained to where it is given back.
func (c *Ctx) migrationLife() {
	slotCall := func(ci *CallInfo) string {
		if strings.HasPrefix(ci.Name, slotDB) {
			return strings.TrimPrefix(ci.Name, slotDB)
		}
		return ""
	}
	relevant := c.E.StaticReaching(func(n string) bool { return strings.HasPrefix(n, slotDB) })
	hooks := func(r *Rule) {
		r.MaxDepth = 6
		r.Relevant = c.E.Focus(relevant, 12)
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if n := slotCall(ci); n != "" {
				st.Emit(Event{Kind: "slot:" + n, Call: ci})
				return ActOpaque
			}
			if strings.HasPrefix(ci.Name, "dynamic:") && ci.Closure != nil && ci.Closure.k == KLoad && ci.Closure.a[0].k == KFAddr {
				st.Emit(Event{Kind: "dyn:" + ci.Closure.a[0].op, Call: ci})
			}
			return ActDefault
		}
		// keep the names a status is compared with
		r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
			if rs := ci.Common.Signature().Results(); rs.Len() == 1 && st.Has("slot:GetMigrateTo") && types.Identical(rs.At(0).Type(), types.Typ[types.String]) {
				st.Emit(Event{Kind: "name", Val: x.E.Res(ci, 0)})
			}
			return nil
		}
		r.OnReturnFrom = func(x *Exec, st *State, ci *CallInfo, res []*Term) {
			if len(res) == 1 && st.Has("slot:GetMigrateTo") && types.Identical(res[0].typ, types.Typ[types.String]) {
				st.Emit(Event{Kind: "name", Val: res[0]})
			}
		}
	}
	users := c.entryRoots(c.callersOf(func(n string) bool {
		return n == slotDB+"FinishMigrateTo" || n == slotDB+"FinishMigrateFrom" || n == slotDB+"ReadyMigrateTo" || n == slotDB+"ReadyMigrateFrom"
	}))
	timerField := ""
	for _, fn := range users {
		key := methodKey(fn)
		// the timer
		starts, gives, stops := false, false, false
		for f := range c.literals(fn) {
			isGo := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == f {
							isGo = true
						}
						if g.Call.StaticCallee() == f {
							isGo = true
						}
					}
				}
			}
			if isGo {
				starts = true
				r := &Rule{}
				hooks(r)
				r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
					if st.Has("slot:FinishMigrateFrom") {
						gives = true
					} else {
						stops = true
					}
				}
				c.Run(f, r)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if mc, ok := s.Val.(*ssa.MakeClosure); ok && closes(mc.Fn.(*ssa.Function)) {
							timerField = structField(fa.X.Type(), fa.Field)
						}
					}
				}
			}
		}
		r := &Rule{}
		hooks(r)
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			e := res[len(res)-1]
			for _, d := range []string{"To", "From"} {
				if ev := st.Find("slot:GetMigrate" + d); ev != nil && x.Eval(st, x.E.Res(ev.Call, 0)) == Yes && !differs(st, x.E.Res(ev.Call, 1)) {
					c.Check(st.Has("slot:FinishMigrate"+d), "given-back", key, at.Pos(), "a path ends a migration without giving the status back: the server refuses writes from then on")
				}
				if ev := st.Find("slot:ReadyMigrate" + d); ev != nil && x.nilness(st, x.E.ErrRes(ev.Call)) != No {
					if ret := e.strip(); ret == x.E.ErrRes(ev.Call) {
						c.Ok("given-back", key+" handed to the caller")
						continue
					}
					if x.nilness(st, e) == No {
						c.Check(st.Has("slot:FinishMigrate"+d), "given-back", key+" failure", at.Pos(), "preparing reports failure but keeps the migration status")
					} else if d == "From" {
						c.Check(starts && gives && stops, "timeout", key, at.Pos(), "after preparing to receive, nothing gives the status back if receiving never starts")
					}
				}
			}
		}
		c.Run(fn, r)
	}
	// receiving stops the timer
	c.Check(timerField != "", "timeout", "stop function", 0, "preparing to receive leaves no way to stop its timer")
	var handlers []*ssa.Function
	for _, n := range []string{"PrepareMigrationTo", "FinishReceiveItem", "ReceiveItem"} {
		handlers = append(handlers, c.callersOf(func(s string) bool { return strings.HasPrefix(s, "metaserver/") && strings.HasSuffix(s, "."+n) })...)
		if n != "PrepareMigrationTo" && timerField != "" {
			for _, fn := range c.P.Fns {
				if fn.Name() != n || fn.Signature.Recv() == nil || fn.Synthetic != "" || !strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
					continue
				}
				r := &Rule{}
				hooks(r)
				r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
					c.Check(st.Has("dyn:"+timerField), "timeout", methodKey(fn), at.Pos(), "receiving goes on while the timer that gives the status back keeps running")
				}
				c.Run(fn, r)
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range c.entryRoots(handlers) {
		if done[fn] {
			continue
		}
		done[fn] = true
		key := methodKey(fn)
		r := &Rule{MaxDepth: 4}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			n := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
			if ci.Common.IsInvoke() && strings.HasPrefix(ci.Name, "metaserver/") {
				st.Emit(Event{Kind: "srv:" + n, Call: ci, Args: ci.Args[1:]})
				return ActOpaque
			}
			if ci.Common.IsInvoke() && (n == "Recv" || n == "RecvMsg") {
				st.terms["recv"] = x.E.ErrRes(ci)
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if ev := st.Find("srv:PrepareMigrationTo"); ev != nil && x.nilness(st, x.E.ErrRes(ev.Call)) == Yes {
				c.Check(st.Has("srv:AutoMigrate"), "given-back", key, at.Pos(), "the server was put into the migration state but the migration that gives it back is not run")
			}
			if e := st.terms["recv"]; e != nil {
				ev := st.Find("srv:FinishReceiveItem")
				if !c.Check(ev != nil, "given-back", key, at.Pos(), "a receiving stream ends without giving the migration status back") {
					return
				}
				eof := false
				for f, v := range st.facts {
					if v && f.k == KBin && f.op == "==" && (f.a[0] == e && strings.HasSuffix(f.a[1].Pretty(), "io.EOF") || f.a[1] == e && strings.HasSuffix(f.a[0].Pretty(), "io.EOF")) {
						eof = true
					}
					if v && f.k == KPure && f.op == "errors.Is" && f.a[0].strip() == e && strings.HasSuffix(f.a[1].Pretty(), "io.EOF") {
						eof = true
					}
				}
				arg := ev.Args[0].strip()
				if isTrue(arg) {
					c.Check(eof, "given-back", key+" success", at.Pos(), "a stream that broke off is taken for a complete migration: the slots change hands without their data")
				} else {
					c.Check(!eof || !isFalse(arg), "given-back", key+" failure", at.Pos(), "a complete stream is taken for a failed one")
				}
			}
		}
		c.Run(fn, r)
	}
}

// literals lists the function literals directly inside a function.
func (c *Ctx) literals(fn *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fn.AnonFuncs {
		m[f] = true
		for g := range c.literals(f) {
			m[g] = true
		}
	}
	return m
}

func closes(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					return true
				}
			}
		}
	}
	return false
}

// differs: the path saw the value to be unequal to something.
func differs(st *State, t *Term) bool {
	for f, v := range st.facts {
		if !v && f.k == KBin && f.op == "==" && (f.a[0] == t || f.a[1] == t) {
			return true
		}
	}
	return false
}
