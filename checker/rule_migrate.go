package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "The functions that send records to another server, the operation that runs a migration and the receiving side are explored on every path; the error of every transfer step, the emptiness of the collected errors and the order of sending, giving up slots, finishing and removing are decided from the branch facts.", checkC10)
}

func isErrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

// isBuiltin: a call of the named builtin function.
func isBuiltin(in ssa.Instruction, name string) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == name {
		return c
	}
	return nil
}

// isEOF: the path saw the error to be io.EOF.
func isEOF(st *State, e *Term) bool {
	for f, v := range st.facts {
		if !v {
			continue
		}
		if f.k == KBin && f.op == "==" && (f.a[0] == e && strings.HasSuffix(f.a[1].Pretty(), "io.EOF") || f.a[1] == e && strings.HasSuffix(f.a[0].Pretty(), "io.EOF")) {
			return true
		}
		if f.k == KPure && f.op == "errors.Is" && f.a[0].strip() == e && strings.HasSuffix(f.a[1].Pretty(), "io.EOF") {
			return true
		}
	}
	return false
}

// knownEmpty: the path saw that a value built from t has no elements (or t itself, an error, is nil).
func (x *Exec) knownEmpty(st *State, t *Term) bool {
	if isErrorType(t.typ) {
		return x.nilness(st, t) == Yes
	}
	if _, exact := lenBounds(t); exact {
		lo, _ := lenBounds(t)
		return lo == 0
	}
	for f, v := range st.facts {
		if f.k != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.a[i], f.a[1-i]
			if !isLen(a) || !a.a[0].contains(t) {
				continue
			}
			switch {
			case f.op == "==" && v && isInt(b, 0):
				return true
			case f.op == "<" && i == 1 && !v && isInt(b, 0): // !(0 < len)
				return true
			case f.op == "<" && i == 0 && v && isInt(b, 1):
				return true
			}
		}
	}
	return false
}

const migItem = "proto/pb.MigrationItem"

// transferStep recognises one step of sending a record: reading it, sending it, awaiting the answer.
func transferStep(ci *CallInfo) string {
	if ci.Common == nil || !ci.Common.IsInvoke() {
		return ""
	}
	sig := ci.Common.Signature()
	switch ci.Common.Method.Name() {
	case "Send":
		if sig.Params().Len() == 1 && strings.HasSuffix(typeNameOf(deref(sig.Params().At(0).Type())), migItem) {
			return "send"
		}
	case "Recv":
		if sig.Results().Len() == 2 && strings.HasSuffix(typeNameOf(deref(sig.Results().At(0).Type())), "proto/pb.Response") {
			return "answer"
		}
	case "GetMetadataBytes", "GetBytes":
		if strings.HasPrefix(ci.Name, "metaserver/") {
			return "read"
		}
	}
	return ""
}

func checkC10(c *Ctx) {
	c.Rule("failure-recorded", "while records are sent, every step (read, send, answer) that did not provably succeed leaves an error in what the sending function returns")
	c.Rule("answered", "after a record is sent its answer is awaited before the next record is sent or the function returns")
	c.Rule("all-versions", "sending the versions of an object stops early only after a failure was recorded")
	c.Rule("give-up-last", "slots are given up only on paths that saw every sending function return no error")
	c.Rule("remove-last", "migrated records are removed from the sending server, and success is reported, only after the slots were given up and the receiver ended the stream regularly")
	c.Rule("no-new-keys", "what is removed was collected while sending, not looked up again afterwards")
	c.Rule("slots-restored", "if the receiver does not end the stream regularly after the slots were given up, they are taken back")
	c.Rule("stored-or-error", "the receiving side acknowledges a record only if it was stored or is already there")
	c.Rule("take-over", "the receiver takes over slots only for a stream reported as successful, and reports success for one only if they were saved")

	// a step stays in the trace until it is known to have succeeded or its failure was recorded
	settle := func(x *Exec, st *State) {
		for i := 0; i < len(st.trace); i++ {
			ev := st.trace[i]
			done := x.nilness(st, ev.Val) == Yes
			if done && ev.Kind == "answer" {
				done = false
				for f, v := range st.facts {
					if v && f.k == KLoad && f.a[0].k == KFAddr && f.a[0].op == "Success" && f.contains(ev.Args[0]) {
						done = true
					}
				}
			}
			if done {
				st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
				i--
			}
		}
	}
	pending := func(x *Exec, st *State) string {
		settle(x, st)
		if len(st.trace) > 0 {
			return st.trace[0].Kind
		}
		return ""
	}
	hooks := func(r *Rule, key string) {
		r.OnBranch = settle
		r.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
			if a := isBuiltin(in, "append"); a != nil && isErrSlice(a.Type()) {
				st.trace = nil
				st.vars["recorded"] = "1"
				delete(st.vars, "open")
			}
		}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			k := transferStep(ci)
			if k == "read" || k == "send" {
				why := pending(x, st)
				c.Check(why == "", "failure-recorded", key, ci.Site.Pos(), "the next record is processed although a failed %s of the one before was not recorded", why)
				st.trace = nil
				c.Check(k == "read" || st.vars["open"] == "", "answered", key, ci.Site.Pos(), "a record is sent before the answer to the one before was read: answers get attributed to the wrong record")
			}
			switch k {
			case "send":
				st.vars["open"] = "1"
			case "answer":
				delete(st.vars, "open")
			}
			if k != "" {
				st.Emit(Event{Kind: k, Call: ci, Val: x.E.ErrRes(ci), Args: []*Term{x.E.Res(ci, 0)}})
				return ActOpaque
			}
			if ci.Common.IsInvoke() && strings.HasPrefix(ci.Name, "metaserver/") {
				return ActOpaque
			}
			return ActDefault
		}
	}
	// the functions that send, up to the one that also gives up the slots
	sends := c.E.StaticUp(func(ci ssa.CallInstruction) bool {
		return transferStep(&CallInfo{Common: ci.Common(), Name: calleeName(ci.Common())}) == "send"
	})
	saves := c.E.StaticReaching(func(n string) bool { return n == slotDB+"Save" })
	senders := map[*ssa.Function]bool{}
	for fn := range sends {
		if !saves[fn] || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && sends[f] && !saves[f] {
						senders[f] = true
					}
					if transferStep(&CallInfo{Common: ci.Common(), Name: calleeName(ci.Common())}) == "send" {
						senders[topFn(fn)] = true
					}
				}
			}
		}
	}
	// helpers that send one record for a caller that collects errors are judged as part of it
	returnsErrs := func(fn *ssa.Function) bool {
		rs := fn.Signature.Results()
		return rs.Len() > 0 && (isErrSlice(rs.At(rs.Len()-1).Type()) || isErrorType(rs.At(rs.Len()-1).Type()))
	}
	for _, fn := range c.sorted(senders) {
		key := methodKey(fn)
		if !c.Check(returnsErrs(fn), "failure-recorded", key+" result", fn.Pos(), "a function that sends records has no error result") {
			continue
		}
		r := &Rule{MaxDepth: 5, LoopEvents: true}
		hooks(r, key)
		r.OnReturnFrom = func(x *Exec, st *State, ci *CallInfo, res []*Term) {
			// a callback that asks to stop
			if ci.Common != nil && ci.Common.IsInvoke() && strings.HasPrefix(ci.Common.Method.Name(), "Foreach") && len(res) == 1 && types.Identical(res[0].typ, types.Typ[types.Bool]) {
				c.Check(x.Eval(st, res[0]) == Yes || st.vars["recorded"] != "" && x.Eval(st, res[0]) == No, "all-versions", key, ci.Site.Pos(), "sending the versions of an object stops before all of them were sent, without an error")
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			e := res[len(res)-1]
			why := pending(x, st)
			single := isErrorType(fn.Signature.Results().At(len(res) - 1).Type())
			if single {
				c.Check(x.nilness(st, e) == No || why == "" || returnsItsError(x, st, e), "failure-recorded", key+" return", at.Pos(), "success is reported after a failed %s", why)
			} else {
				c.Check(why == "", "failure-recorded", key+" return", at.Pos(), "a failed %s is not in the errors that are returned", why)
				if lo, exact := lenBounds(e); st.vars["recorded"] != "" {
					c.Check(!(exact && lo == 0), "failure-recorded", key+" returned", at.Pos(), "the recorded errors are not what is returned")
				}
			}
			c.Check(st.vars["open"] == "" || single && x.nilness(st, e) == No, "answered", key+" return", at.Pos(), "the answer to the last record is not awaited")
		}
		c.Run(fn, r)
	}
	// running a migration
	var migrators []*ssa.Function
	for _, fn := range c.P.Fns {
		if strings.HasPrefix(pkgPathOf(fn), "metaserver/") && fn.Synthetic == "" && fn.Name() == "AutoMigrate" && fn.Signature.Recv() != nil && fn.Blocks != nil {
			migrators = append(migrators, fn)
		}
	}
	c.Check(len(migrators) > 0, "give-up-last", "operation", 0, "no operation runs a migration")
	onSlots := c.E.StaticReaching(func(n string) bool {
		return strings.HasPrefix(n, slotDB) || strings.HasSuffix(n, ".CloseSend") || strings.HasPrefix(n, "metaserver/") && strings.Contains(n, ".Remove")
	})
	for _, fn := range migrators {
		key := methodKey(fn)
		finished := func(x *Exec, st *State) bool {
			cl, rv, given := st.Find("closesend"), st.Last("recv"), st.Find("slots")
			return given != nil && x.nilness(st, x.E.ErrRes(given.Call)) == Yes &&
				cl != nil && x.nilness(st, x.E.ErrRes(cl.Call)) == Yes && rv != nil && st.Index(rv) > st.Index(cl) && isEOF(st, x.E.ErrRes(rv.Call))
		}
		r := &Rule{MaxDepth: 6}
		r.Relevant = c.E.Focus(onSlots, 12)
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if f := ci.Common.StaticCallee(); f != nil && senders[f] && f != fn {
				st.Emit(Event{Kind: "sent", Call: ci})
				return ActOpaque
			}
			if f := ci.Common.StaticCallee(); f != nil && strings.HasPrefix(ci.Name, slotDB) {
				if strings.HasSuffix(ci.Name, ".Save") {
					if !st.Has("slots") {
						for _, ev := range st.trace {
							if ev.Kind != "sent" {
								continue
							}
							rs := ev.Call.Common.Signature().Results()
							c.Check(x.knownEmpty(st, x.E.Res(ev.Call, rs.Len()-1)), "give-up-last", key, ci.Site.Pos(), "the slots are given up although not every record was sent and acknowledged")
						}
						c.Check(st.Has("sent"), "give-up-last", key+" sent", ci.Site.Pos(), "the slots are given up before anything was sent")
					}
					st.Emit(Event{Kind: "slots", Call: ci, Args: ci.Args})
				}
				return ActOpaque
			}
			if !ci.Common.IsInvoke() {
				return ActDefault
			}
			n := ci.Common.Method.Name()
			switch {
			case n == "CloseSend":
				st.Emit(Event{Kind: "closesend", Call: ci})
			case transferStep(ci) == "answer":
				st.Emit(Event{Kind: "recv", Call: ci})
			case strings.HasPrefix(ci.Name, "metaserver/") && strings.HasPrefix(n, "Remove"):
				c.Check(finished(x, st), "remove-last", key, ci.Site.Pos(), "records are removed from this server before it is certain that the receiver has taken over their slots")
				c.Check(!st.Has("lookup"), "no-new-keys", key, ci.Site.Pos(), "the records to remove are looked up after the migration: ones written meanwhile are removed without having been sent")
				return ActOpaque
			case strings.HasPrefix(ci.Name, "metaserver/") && (n == "FilterKeys" || strings.HasPrefix(n, "Foreach") || strings.HasPrefix(n, "List")):
				st.Emit(Event{Kind: "lookup", Call: ci})
				return ActOpaque
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			e := res[len(res)-1]
			given := st.Find("slots")
			if x.nilness(st, e) != No {
				c.Check(finished(x, st), "remove-last", key+" success", at.Pos(), "success is reported although the receiver did not end the stream regularly")
				return
			}
			if given == nil || x.nilness(st, x.E.ErrRes(given.Call)) == No || finished(x, st) {
				return
			}
			back := false
			for _, ev := range st.trace {
				if ev.Kind == "slots" && ev.Call != given.Call && ev.Args[len(ev.Args)-1].strip() != given.Args[len(given.Args)-1].strip() {
					back = true
				}
			}
			c.Check(back, "slots-restored", key, at.Pos(), "the slots were given up but the receiver did not take them over: nobody owns them any more")
		}
		c.Run(fn, r)
	}
	c.receiving()
	c.Min("failure-recorded", 4)
	c.Min("answered", 2)
	c.Min("all-versions", 1)
	c.Min("give-up-last", 2)
	c.Min("remove-last", 2)
	c.Min("no-new-keys", 1)
	c.Min("slots-restored", 1)
	c.Min("stored-or-error", 2)
	c.Min("take-over", 2)
}

// returnsItsError: the error returned is that of a step of the path.
func returnsItsError(x *Exec, st *State, e *Term) bool {
	for _, ev := range st.trace {
		if ev.Val == e.strip() {
			return true
		}
	}
	return false
}

func (c *Ctx) sorted(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sortFns(out)
	return out
}

// receiving judges the side that stores migrated records.
func (c *Ctx) receiving() {
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "metaserver/") || fn.Synthetic != "" || fn.Signature.Recv() == nil || fn.Blocks == nil {
			continue
		}
		key := methodKey(fn)
		switch fn.Name() {
		case "ReceiveItem":
			r := &Rule{MaxDepth: 3}
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if ci.Common.IsInvoke() && strings.HasPrefix(ci.Name, "metaserver/") && x.E.ErrRes(ci) != nil {
					st.Emit(Event{Kind: "store", Call: ci})
					return ActOpaque
				}
				if strings.HasSuffix(ci.Name, "DecodeMsgp") {
					st.Emit(Event{Kind: "decode", Call: ci})
					return ActOpaque
				}
				return ActDefault
			}
			r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
				e := res[len(res)-1]
				if x.nilness(st, e) == No {
					return
				}
				ev := st.Find("store")
				if !c.Check(ev != nil, "stored-or-error", key, at.Pos(), "a record is acknowledged that was not stored") {
					return
				}
				se := x.E.ErrRes(ev.Call)
				okd := x.nilness(st, se) == Yes || e.strip() == se
				for f, v := range st.facts {
					if v && f.k == KPure && f.op == "errors.Is" && f.a[0].strip() == se && strings.HasSuffix(f.a[1].Pretty(), "ErrExists") {
						okd = true
					}
					if v && f.k == KBin && f.op == "==" && f.contains(se) && (strings.HasSuffix(f.a[0].Pretty(), "ErrExists") || strings.HasSuffix(f.a[1].Pretty(), "ErrExists")) {
						okd = true
					}
				}
				c.Check(okd, "stored-or-error", key+" stored", at.Pos(), "a record is acknowledged although storing it failed")
				if d := st.Find("decode"); d != nil {
					c.Check(x.nilness(st, x.E.ErrRes(d.Call)) == Yes, "stored-or-error", key+" decoded", at.Pos(), "a record is acknowledged although it could not be decoded")
				}
			}
			c.Run(fn, r)
		case "FinishReceiveItem":
			r := &Rule{MaxDepth: 6}
			r.Relevant = c.E.Focus(c.E.StaticReaching(func(n string) bool { return strings.HasPrefix(n, slotDB) }), 12)
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if strings.HasPrefix(ci.Name, slotDB) {
					if strings.HasSuffix(ci.Name, ".Save") {
						c.Check(x.Eval(st, paramTerm(x, 1)) == Yes, "take-over", key, ci.Site.Pos(), "slots are taken over although their data did not arrive completely")
						st.Emit(Event{Kind: "slots", Call: ci})
					}
					return ActOpaque
				}
				return ActDefault
			}
			r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
				e := res[len(res)-1]
				if x.Eval(st, paramTerm(x, 1)) == No || x.nilness(st, e) == No {
					return
				}
				ev := st.Find("slots")
				c.Check(ev != nil && (x.nilness(st, x.E.ErrRes(ev.Call)) == Yes || e.strip() == x.E.ErrRes(ev.Call)), "take-over", key+" success", at.Pos(), "success is reported although the slots were not taken over: the sender removes its data and nobody serves it")
			}
			c.Run(fn, r)
		}
		if o, ok := fn.Object().(*types.Func); !ok || !o.Exported() {
			continue
		}
		// the handler that answers each record
		takes := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok && cc.Common().IsInvoke() && cc.Common().Method.Name() == "Recv" {
					rs := cc.Common().Signature().Results()
					if rs.Len() == 2 && strings.HasSuffix(typeNameOf(deref(rs.At(0).Type())), migItem) {
						takes = true
					}
				}
			}
		}
		if !takes {
			continue
		}
		r := &Rule{MaxDepth: 3}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if !ci.Common.IsInvoke() {
				return ActDefault
			}
			switch ci.Common.Method.Name() {
			case "Recv":
				st.trace = nil
				st.Emit(Event{Kind: "recv", Call: ci})
			case "ReceiveItem":
				st.Emit(Event{Kind: "store", Call: ci})
				return ActOpaque
			case "Send", "SendMsg":
				ev := st.Last("store")
				msg := ci.Args[len(ci.Args)-1].strip()
				okd := ev != nil && x.nilness(st, x.E.ErrRes(ev.Call)) == Yes
				if !okd {
					for a, v := range st.mem {
						if a.k == KFAddr && a.op == "Success" && a.a[0].strip() == msg && x.Eval(st, v) == No {
							okd = true
						}
					}
				}
				c.Check(okd, "stored-or-error", key+" answer", ci.Site.Pos(), "a record is answered with success although it was not stored")
			}
			return ActDefault
		}
		c.Run(fn, r)
	}
}
