package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "The constructors, readers and closing methods of the streams that repair lost shards and copies are explored on every path, with the goroutines they start run in line: branch facts must show that a repaired shard or copy is whole where it is kept, and that it was kept where its location is recorded.", checkC34)
}

const rsRebuild = "github.com/klauspost/reedsolomon.Encoder.Reconstruct"

// repairs collects what the rules about repairing look at.
type repairs struct {
	c      *Ctx
	commit func(string) string
	opens  map[*ssa.Function]bool // create temporary objects
	end    [2]string              // the fields that are equal where the data ended
	w      *writes
}

func checkC34(c *Ctx) {
	c.Rule("whole", "a repaired shard or copy is kept only after all of the data was read, and written without error")
	c.Rule("recorded", "new locations are recorded only after every repaired shard or copy was stored without error, and they are recorded then")
	c.Rule("locations", "the locations recorded are all of the object's, with each new one at the position of what was lost there")
	c.Rule("rebuilt", "what is written to a repaired shard is the rebuilt block of that shard, after the block before it was written without error")
	c.Rule("left-out", "a shard that could not be read is left out of the rebuilding, others count with what was read")
	c.Rule("ended", "data is said to have ended only if as much as its size was rebuilt")
	c.Rule("kept-error", "an error of writing a repaired shard is kept until the shard is committed")
	c.Rule("place", "what is lost is found, and written again, under the name of its position")
	r := &repairs{c: c, commit: c.ifaceOps(apiSvc + "Committer"), w: c.newWrites()}
	r.opens = c.E.StaticReaching(func(n string) bool { return n == apiWeb+"PostTmpObject" })
	r.ends()
	r.decoders()
	r.closers()
	r.makers()
	c.Min("whole", 2)
	c.Min("recorded", 2)
	c.Min("locations", 3)
	c.Min("rebuilt", 1)
	c.Min("left-out", 1)
	c.Min("ended", 1)
	c.Min("place", 2)
}

// own: the functions of the package of the streams.
func (r *repairs) own(match func(n string) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.c.callersOf(match) {
		if strings.HasPrefix(pkgPathOf(f)+".", apiSvc) {
			out = append(out, f)
		}
	}
	return out
}

// pair: a fact says that two integer fields of one object are equal.
func pair(f *Term, v bool) (a, b string, ok bool) {
	if !v || f.k != KBin || f.op != "==" || f.a[0].typ == nil || !isIntType(f.a[0].typ) {
		return
	}
	x, y := f.a[0].strip(), f.a[1].strip()
	if x.k != KLoad || y.k != KLoad || x.a[0].k != KFAddr || y.a[0].k != KFAddr || x.a[0].a[0] != y.a[0].a[0] {
		return
	}
	a, b = x.a[0].op, y.a[0].op
	if a > b {
		a, b = b, a
	}
	return a, b, true
}

// ends finds the fields that say how much was read and how much there is.
func (r *repairs) ends() {
	c := r.c
	for _, fn := range c.entryRoots(r.own(func(n string) bool { return strings.HasPrefix(n, rsRebuild) })) {
		key := methodKey(fn)
		ei := errorOf(fn)
		if ei < 0 {
			continue
		}
		q := &Rule{Wide: 6}
		q.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if aside(ci.Name) {
				return ActOpaque
			}
			if strings.HasPrefix(ci.Name, rsRebuild) {
				st.Emit(Event{Kind: "rebuilt"})
				return ActPure
			}
			return ActDefault
		}
		q.OnBranch = func(x *Exec, st *State) {
			for f, v := range st.facts {
				if a, b, ok := pair(f, v); ok && !st.Has("rebuilt") {
					st.Emit(Event{Kind: "pair", Val: x.E.T.ConstVal(constant.MakeString(a+" "+b), types.Typ[types.String])})
				}
			}
		}
		q.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			t := res[ei].strip()
			if t.k == KIface {
				t = t.a[0].strip()
			}
			if t.k != KLoad || t.a[0].k != KGlobal || !strings.HasSuffix(t.a[0].op, "io.EOF") {
				return
			}
			p := st.Last("pair")
			if c.Check(p != nil, "ended", key, at.Pos(), "%s says that the data ended where it is not known to be read completely", key) {
				s := strings.Fields(constant.StringVal(p.Val.cst))
				r.end = [2]string{s[0], s[1]}
			}
		}
		c.Run(fn, q)
	}
}

// state finds the group of what is being written, and the error kept of it, behind an object.
func (r *repairs) state(x *Exec, st *State, obj *Term, depth int) (group *Term, errs []*Term) {
	if obj == nil || obj.typ == nil || depth > 3 {
		return
	}
	s, ok := deref(obj.typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case typeNameOf(f.Type()) == "common/util.DoneGroup":
			group = x.field(st, obj, f.Name())
		case isErrorType(f.Type()):
			errs = append(errs, x.field(st, obj, f.Name()))
		}
	}
	if group != nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if g, e := r.state(x, st, x.field(st, obj, f.Name()), depth+1); g != nil {
				return g, e
			}
		}
	}
	return nil, nil
}

// settled: nothing is being written any more, and no error was kept.
func (r *repairs) settled(x *Exec, st *State, own map[*Term]bool) bool {
	g, errs := r.state(x, st, paramTerm(x, 0), 0)
	if g == nil {
		return true
	}
	if !own[x.groupOf(st, g)] && x.nilness(st, g) != Yes {
		return false
	}
	for _, e := range errs {
		if x.nilness(st, e) != Yes {
			return false
		}
	}
	return true
}

// elem splits an element read of a slice.
func elemAt(t *Term) (s, i *Term) {
	t = t.strip()
	if t.k == KIface {
		t = t.a[0].strip()
	}
	if t.k == KLoad && t.a[0].k == KIAddr {
		return t.a[0].a[0].strip(), t.a[0].a[1].strip()
	}
	return nil, nil
}

// decoders judges what rebuilds blocks.
func (r *repairs) decoders() {
	c := r.c
	for _, fn := range r.own(func(n string) bool { return strings.HasPrefix(n, rsRebuild) }) {
		fn = topFn(fn)
		key := methodKey(fn)
		q := &Rule{Wide: 8, LoopEvents: true}
		judge := func(x *Exec, st *State) {
			for i := 0; i < len(st.trace); i++ {
				if st.trace[i].Kind == "fetch" {
					ev := st.trace[i]
					st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
					i--
					r.fetched(x, st, &ev, key)
				}
			}
			st.Drop("set")
			st.Drop("go")
		}
		told := func(x *Exec, st *State) {
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind != "wrote" || x.nilness(st, ev.Val) == Yes {
					continue
				}
				ok := false
				for j := range st.trace {
					ok = ok || st.trace[j].Kind == "dg-error" && x.nilness(st, st.trace[j].Val) != Yes
				}
				c.Check(ok, "kept-error", key+" delivered", ev.Call.Site.Pos(), "%s forgets an error of writing a repaired shard", key)
			}
			st.Drop("wrote")
		}
		q.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case ci.Name == "io.ReadFull" || ci.Name == "io.ReadAtLeast":
				st.Emit(Event{Kind: "fetch", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActPure
			case strings.HasPrefix(ci.Name, rsRebuild):
				judge(x, st)
				c.Check(!st.Has("todo"), "left-out", key, ci.Site.Pos(), "%s rebuilds a block before its shards were read", key)
				st.Emit(Event{Kind: "rebuilt", Call: ci, Val: x.E.ErrRes(ci), Args: ci.Args})
				return ActPure
			case ci.Name == "io.Writer.Write":
				r.rewrite(x, st, ci, key)
				st.Emit(Event{Kind: "wrote", Call: ci, Val: x.E.ErrRes(ci)})
				return ActPure
			case strings.HasPrefix(ci.Name, "common/util.Close"), strings.HasSuffix(ci.Name, ".Close"):
				return ActPure
			case aside(ci.Name) && dgMethod(ci.Name) == "" && !strings.HasSuffix(ci.Name, "Group"):
				return ActPure
			}
			return ActDefault
		}
		q.OnReturnFrom = func(x *Exec, st *State, ci *CallInfo, res []*Term) {
			if _, ok := ci.Site.(*ssa.Go); ok {
				judge(x, st)
				told(x, st)
			}
		}
		q.AfterOpaque = waited
		q.OnBranch = func(x *Exec, st *State) {
			if r.built(x, st, nil) {
				st.Emit(Event{Kind: "built", Args: []*Term{st.Last("rebuilt").Args[1].strip()}})
				if r.settled(x, st, nil) {
					st.Emit(Event{Kind: "settled"})
				}
			}
		}
		q.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			switch {
			case addr.k == KIAddr && st.Has("fetch"):
				st.Emit(Event{Kind: "set", Val: val, Args: []*Term{addr.a[0].strip(), addr.a[1].strip()}})
			case addr.k == KFAddr && (addr.op == r.end[0] || addr.op == r.end[1]) && addr.a[0].strip() == paramTerm(x, 0).strip():
				c.Check(r.built(x, st, nil), "ended", key+" "+addr.op, in.Pos(), "%s counts data that was not rebuilt", key)
			case addr.k == KFAddr && val.typ != nil && typeNameOf(val.typ) == "common/util.DoneGroup" || addr.k == KFAddr && isNil(val) && strings.HasSuffix(typeNameOf(elemOf(addr.typ)), "DoneGroup"):
				r.forget(x, st, addr, in, key)
				st.Drop("settled")
			}
		}
		q.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			told(x, st)
			g, _ := r.state(x, st, paramTerm(x, 0), 0)
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "todo" {
					c.Check(g != nil && x.groupOf(st, g) == ev.Val, "kept-error", key, at.Pos(), "%s ends without the result of writing repaired shards", key)
				}
			}
		}
		c.dgHooks(q, nil)
		c.Run(fn, q)
		c.Ok("left-out", key)
	}
	// everything else that forgets the group
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn)+".", apiSvc) || fn.Parent() != nil || !r.dropsGroup(fn) {
			continue
		}
		key := methodKey(fn)
		q := &Rule{}
		q.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			return ActPure
		}
		q.AfterOpaque = waited
		q.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k == KFAddr && isNil(val.strip()) && typeNameOf(fieldTypeDeep(elemOf(addr.a[0].typ), addr.op)) == "common/util.DoneGroup" {
				r.forget(x, st, addr, in, key)
			}
		}
		c.dgHooks(q, nil)
		c.Run(fn, q)
	}
}

// built: the shards were rebuilt without error.
func (r *repairs) built(x *Exec, st *State, shards *Term) bool {
	for i := range st.trace {
		ev := &st.trace[i]
		switch ev.Kind {
		case "built":
			if shards == nil || ev.Args[0] == shards {
				return true
			}
		case "rebuilt":
			if x.nilness(st, ev.Val) == Yes && (shards == nil || ev.Args[1].strip() == shards) {
				return true
			}
		}
	}
	return false
}

// waited notes what waiting for a group gave.
func waited(x *Exec, st *State, ci *CallInfo) []*State {
	if dgMethod(ci.Name) == "WaitUntilError" {
		st.Emit(Event{Kind: "waited", Val: x.E.Res(ci, 0), Args: []*Term{x.groupOf(st, ci.Args[0])}})
	}
	return nil
}

func (r *repairs) dropsGroup(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeNameOf(elemOf(fa.Type())) == "common/util.DoneGroup" {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

// forget: a group is dropped or replaced only if it was waited for and its error is kept.
func (r *repairs) forget(x *Exec, st *State, addr *Term, in ssa.Instruction, key string) {
	old := x.load(st, addr, fieldTypeDeep(elemOf(addr.a[0].typ), addr.op), nil, 0)
	if x.nilness(st, old) == Yes || st.Has("settled") {
		r.c.Ok("kept-error", key)
		return
	}
	ok := false
	_, errs := r.state(x, st, addr.a[0], 0)
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "waited" || ev.Args[0] != x.groupOf(st, old) {
			continue
		}
		if x.nilness(st, ev.Val) == Yes {
			ok = true
		}
		for _, e := range errs {
			ok = ok || e.strip() == ev.Val.strip()
		}
	}
	r.c.Check(ok, "kept-error", key, in.Pos(), "%s drops the result of writing repaired shards", key)
}

// fetched: what was read counts with its length, what could not be read does not count, now and later.
func (r *repairs) fetched(x *Exec, st *State, ev *Event, key string) {
	c := r.c
	pos := ev.Call.Site.Pos()
	rd, ri := elemAt(ev.Args[0])
	sl, si := elemAt(ev.Args[1])
	if !c.Check(rd != nil && sl != nil && ri == si, "left-out", key+" position", pos, "%s reads a shard from the reader of another one", key) {
		return
	}
	n, err := x.E.Res(ev.Call, 0), x.E.ErrRes(ev.Call)
	end := x.nilness(st, err) == Yes || isEOF(st, err) || recognised(st, err)
	var got, src *Term
	for i := range st.trace {
		s := &st.trace[i]
		if s.Kind != "set" || s.Args[1] != si {
			continue
		}
		switch s.Args[0] {
		case sl:
			got = s.Val.strip()
		case rd:
			src = s.Val.strip()
		}
	}
	if end {
		okd := x.nilness(st, err) == Yes || got != nil && got.k == KOther && got.op == "slice" && got.a[2].strip() == n
		if got != nil {
			okd = okd && got.k == KOther && got.op == "slice" && (got.a[2].strip() == n)
		}
		c.Check(okd, "left-out", key+" short", pos, "%s takes more from a shard than was read", key)
		return
	}
	isnil := func(t *Term) bool { return t != nil && (isNil(t) || t.k == KIface && isNil(t.a[0].strip())) }
	c.Check(isnil(got), "left-out", key+" failed", pos, "%s rebuilds a block with a shard that could not be read", key)
	c.Check(isnil(src), "left-out", key+" again", pos, "%s goes on reading a shard after a block of it could not be read", key)
}

// rewrite judges writing a rebuilt block.
func (r *repairs) rewrite(x *Exec, st *State, ci *CallInfo, key string) {
	c := r.c
	pos := ci.Site.Pos()
	_, wi := elemAt(ci.Args[0])
	sl, si := elemAt(ci.Args[1])
	c.Check(sl != nil && r.built(x, st, sl), "rebuilt", key, pos, "%s writes a block to a repaired shard that was not rebuilt", key)
	c.Check(wi != nil && wi == si, "rebuilt", key+" position", pos, "%s writes the block of another shard to a repaired one", key)
	own := map[*Term]bool{}
	for i := range st.trace {
		if st.trace[i].Kind == "todo" {
			own[st.trace[i].Val] = true
		}
	}
	c.Check(st.Has("settled") || r.settled(x, st, own), "rebuilt", key+" order", pos, "%s writes a block to a repaired shard while the one before it is being written, or failed", key)
}

// repairing: the receiver knows how to record locations.
func repairing(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	return hasTyped(recv.Type(), apiSvc+"LocatesUpdater", 0)
}

func hasTyped(t types.Type, name string, d int) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok || d > 3 {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if typeNameOf(f.Type()) == name || f.Embedded() && hasTyped(f.Type(), name, d+1) {
			return true
		}
	}
	return false
}

// keeps: a call that makes a repaired shard or copy permanent.
func (r *repairs) keeps(n string) bool {
	return r.commit(n) == "Commit" || n == apiWeb+"PutObject"
}

// closers judges what keeps repaired shards and copies.
func (r *repairs) closers() {
	c := r.c
	var fns []*ssa.Function
	for _, f := range r.own(r.keeps) {
		if repairing(topFn(f)) {
			fns = append(fns, topFn(f))
		}
	}
	for _, fn := range c.entryRoots(fns) {
		if !repairing(fn) {
			continue
		}
		r.closer(fn)
	}
}

func (r *repairs) closer(fn *ssa.Function) {
	c := r.c
	key := methodKey(fn)
	ei := errorOf(fn)
	q := &Rule{Wide: 8, LoopEvents: true}
	learn := func(x *Exec, st *State) {
		for f, v := range st.facts {
			if a, b, ok := pair(f, v); ok && a == r.end[0] && b == r.end[1] {
				st.Emit(Event{Kind: "whole"})
			}
			if v && f.k == KBin && f.op == "==" {
				for i := 0; i < 2; i++ {
					if ci := callOf(f.a[i].strip()); ci != nil && strings.HasSuffix(ci.Name, ".Len") && isFieldOf(f.a[1-i], "size") {
						st.Emit(Event{Kind: "whole", Val: ci.Args[0].strip()})
					}
				}
			}
			if v && (f.k == KField && strings.HasSuffix(f.op, "Async") || f.k == KLoad && f.a[0].k == KFAddr && strings.HasSuffix(f.a[0].op, "Async")) {
				st.Emit(Event{Kind: "async"})
			}
		}
		if r.settled(x, st, nil) {
			st.Emit(Event{Kind: "settled"})
		}
	}
	var put func(x *Exec, st *State, ci *CallInfo) Action
	put = func(x *Exec, st *State, ci *CallInfo) Action {
		pos := ci.Site.Pos()
		if r.commit(ci.Name) == "Commit" {
			arg := ci.Args[len(ci.Args)-1]
			if x.Eval(st, arg) == No {
				return ActPure
			}
			s := st.clone()
			x.Assume(s, arg, true)
			learn(x, s)
			c.Check(s.Has("whole"), "whole", key, pos, "%s keeps a repaired shard although not all of the data was read", key)
			c.Check(s.Has("settled"), "whole", key+" written", pos, "%s keeps a repaired shard although it was not written without error", key)
			st.Emit(Event{Kind: "stored", Call: ci, Val: x.E.ErrRes(ci), Args: group(st, arg)})
			return ActPure
		}
		learn(x, st)
		// the data must be what was counted
		ok := false
		for i := range st.trace {
			if st.trace[i].Kind == "whole" && st.trace[i].Val != nil && r.bytesOf(x, st, ci.Args[len(ci.Args)-1], st.trace[i].Val) {
				ok = true
			}
		}
		c.Check(ok, "whole", key, pos, "%s keeps a copy although not all of the data was read", key)
		_, li := elemAt(ci.Args[0])
		_, ni := elemAt(ci.Args[1])
		c.Check(li != nil && li == ni, "place", key, pos, "%s sends a copy to the server of another one", key)
		st.Emit(Event{Kind: "stored", Call: ci, Val: x.E.ErrRes(ci), Args: group(st, x.E.T.True())})
		return ActPure
	}
	q.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case r.keeps(ci.Name):
			return put(x, st, ci)
		case ci.Fn == nil && !ci.Common.IsInvoke() && typeNameOf(ci.Common.Value.Type()) == apiSvc+"LocatesUpdater":
			r.record(x, st, ci, key)
			return ActPure
		case strings.HasPrefix(ci.Name, "common/collection/set."):
			if strings.HasSuffix(ci.Name, ".Add") {
				st.Emit(Event{Kind: "collected", Val: ci.Args[0].strip()})
			}
			return ActPure
		case dgMethod(ci.Name) != "" || strings.HasPrefix(ci.Name, "common/util.") && strings.HasSuffix(ci.Name, "Group"):
			return ActDefault
		case ci.Common.IsInvoke(), ci.Fn != nil && pkgPathOf(ci.Fn) != pkgPathOf(fn) && ci.Fn.Parent() == nil:
			return ActPure
		}
		return ActDefault
	}
	q.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if r.commit(ci.Name) == "Commit" && x.Eval(st, ci.Args[len(ci.Args)-1]) == Unknown {
			no := st.clone()
			no.Drop("stored")
			x.Assume(no, ci.Args[len(ci.Args)-1], false)
			x.Assume(st, ci.Args[len(ci.Args)-1], true)
			return []*State{st, no}
		}
		if strings.HasPrefix(ci.Name, "common/collection/set.") && strings.HasSuffix(ci.Name, ".Size") {
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "collected" && ci.Args[0].contains(ev.Val) {
					x.Assume(st, x.E.T.bin("<", x.E.T.ConstVal(constant.MakeInt64(0), types.Typ[types.Int]), x.E.Res(ci, 0), types.Typ[types.Bool]), true)
				}
			}
		}
		return nil
	}
	q.OnBranch = func(x *Exec, st *State) {
		learn(x, st)
		// an error is kept as failed, success as done
		for i := range st.trace {
			ev := st.trace[i]
			if ev.Kind == "stored" && x.nilness(st, ev.Val) == Yes {
				ev.Kind = "done"
				st.trace = append(append([]Event(nil), st.trace[:i]...), st.trace[i+1:]...)
				st.Emit(Event{Kind: "done", Args: ev.Args})
				break
			}
		}
	}
	q.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if ei >= 0 && x.nilness(st, res[ei]) == No {
			return
		}
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == "done" && x.Eval(st, ev.Args[0]) == No {
				return
			}
		}
		if st.Has("stored") || !st.Has("done") {
			return // failed, or nothing to record: reporting it is another property
		}
		ok := st.Has("recorded")
		if !ok && st.Has("dg-error") && st.Has("async") {
			ok = true // it is only logged
		}
		if !ok && ei >= 0 {
			ret := res[ei].strip()
			ok = callOf(ret) != nil && st.Has("recorded")
		}
		c.Check(ok, "recorded", key+" always", at.Pos(), "%s ends without recording where repaired shards or copies are", key)
	}
	c.dgHooks(q, nil)
	c.Run(fn, q)
}

// group adds the group a goroutine was counted in last.
func group(st *State, arg *Term) []*Term {
	if ev := st.Last("todo"); ev != nil {
		return []*Term{arg, ev.Val}
	}
	return []*Term{arg}
}

// bytesOf: the reader gives the bytes of the buffer.
func (r *repairs) bytesOf(x *Exec, st *State, rd, buf *Term) bool {
	rd = rd.strip()
	if rd.k == KIface {
		rd = rd.a[0].strip()
	}
	hit := false
	for i := 0; i < 3 && !hit; i++ {
		ci := callOf(rd)
		if ci == nil || len(ci.Args) == 0 {
			return false
		}
		if strings.HasSuffix(ci.Name, ".Bytes") && ci.Args[0].strip() == buf {
			hit = true
		}
		rd = ci.Args[0].strip()
		if rd.k == KIface {
			rd = rd.a[0].strip()
		}
	}
	return hit
}

// record judges recording locations.
func (r *repairs) record(x *Exec, st *State, ci *CallInfo, key string) {
	c := r.c
	pos := ci.Site.Pos()
	bad := false
	pending := map[*Term]bool{}
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "stored" && x.nilness(st, ev.Val) != Yes {
			bad = true
		}
		if ev.Kind == "todo" {
			pending[ev.Val] = true
		}
	}
	for i := range st.trace {
		if ev := &st.trace[i]; (ev.Kind == "stored" || ev.Kind == "done") && len(ev.Args) == 2 && pending[ev.Args[1]] {
			bad = true
		}
	}
	c.Check(!bad, "recorded", key, pos, "%s records where a repaired shard or copy is although it may not have been stored", key)
	a := ci.Args[len(ci.Args)-1].strip()
	c.Check(r.allLocations(a), "locations", key, pos, "%s records other locations than those of all shards or copies", key)
	st.Emit(Event{Kind: "recorded", Call: ci, Val: x.E.ErrRes(ci)})
}

// allLocations: the value is the list of locations of an option, or a field that was made from one.
func (r *repairs) allLocations(t *Term) bool {
	if isFieldOf(t, "Locates", apiSvc+"StreamOption") {
		return true
	}
	if t.k != KLoad || t.a[0].k != KFAddr || t.a[0].a[0].typ == nil {
		return false
	}
	n, ok := deref(t.a[0].a[0].typ).(*types.Named)
	if !ok {
		return false
	}
	from := r.origins(n, t.a[0].op)
	if len(from) == 0 {
		return false
	}
	for _, o := range from {
		if o != apiSvc+"StreamOption.Locates" {
			return false
		}
	}
	return true
}

// origins lists the fields a field is made from, through parameters.
func (r *repairs) origins(n *types.Named, field string) []string {
	var out []string
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value, d int)
	from = func(v ssa.Value, d int) {
		if seen[v] || d > 6 {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				t := deref(fa.X.Type())
				if s, ok := t.Underlying().(*types.Struct); ok {
					out = append(out, typeNameOf(t)+"."+s.Field(fa.Field).Name())
					return
				}
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				from(e, d+1)
			}
			return
		case *ssa.Convert:
			from(v.X, d+1)
			return
		case *ssa.Parameter:
			fn := v.Parent()
			for i, p := range fn.Params {
				if p != v {
					continue
				}
				for _, caller := range r.c.P.Fns {
					r.c.calls(caller, func(ci ssa.CallInstruction, _ string) {
						if ci.Common().StaticCallee() == fn && i < len(ci.Common().Args) {
							from(ci.Common().Args[i], d+1)
						}
					})
				}
			}
			return
		}
		out = append(out, "?")
	}
	for _, fn := range r.c.P.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := deref(fa.X.Type())
				if st, ok := t.Underlying().(*types.Struct); ok && types.Identical(t, n) && st.Field(fa.Field).Name() == field {
					from(s.Val, 0)
				}
			}
		}
	}
	return out
}

// makers judges what opens streams to repair with.
func (r *repairs) makers() {
	c := r.c
	get := apiSvc + "NewGetStream"
	for _, fn := range c.entryRoots(r.own(func(n string) bool { return n == get })) {
		if fn.Signature.Results().Len() == 2 {
			r.maker(fn, get)
		}
	}
}

func (r *repairs) maker(fn *ssa.Function, get string) {
	c := r.c
	key := methodKey(fn)
	q := &Rule{Wide: 8, LoopEvents: true, Elements: true}
	inOption := func(s *Term) bool { return isFieldOf(s, "Locates", apiSvc+"StreamOption") }
	said := func(st *State, kind string, of, idx *Term) bool {
		for i := range st.trace {
			if ev := &st.trace[i]; ev.Kind == kind && ev.Val == of && (idx == nil || ev.Args[0] == idx) {
				return true
			}
		}
		return false
	}
	finish := func(x *Exec, st *State) {
		for i := range st.trace {
			ev := &st.trace[i]
			p := token.NoPos
			if ev.Call != nil {
				p = ev.Call.Site.Pos()
			}
			switch ev.Kind {
			case "lost": // a copy: looked for at an element of the locations
				_, idx := elemAt(ev.Args[0])
				if idx == nil {
					continue
				}
				c.Check(said(st, "named", ev.Val, nil), "place", key+" name", p, "%s does not repair a copy under the name it was lost under", key)
				c.Check(said(st, "moved", ev.Val, idx), "locations", key, p, "%s does not remember the new location of a copy where the lost one was", key)
				sent := false
				for j := range st.trace {
					if m := &st.trace[j]; m.Kind == "moved" && m.Val == ev.Val && len(m.Args) == 2 {
						sent = sent || said(st, "appended", ev.Val, m.Args[1])
					}
				}
				c.Check(sent, "place", key+" server", p, "%s does not repair a copy on the server it remembers", key)
			case "opened": // a shard
				for j := range st.trace {
					h := &st.trace[j]
					if h.Kind == "held" && h.Val == ev.Val && ev.Args[1].contains(h.Args[0]) && said(st, "moved", ev.Val, h.Args[0]) {
						p = token.NoPos
					}
				}
				if p == token.NoPos {
					c.Ok("locations", key)
				} else {
					c.Bad("locations", key, p, "%s does not keep the writer and the new location of a lost shard at the position its name has", key)
				}
			}
		}
		for _, k := range []string{"get", "put", "lost", "opened", "named", "moved", "appended", "held"} {
			st.Drop(k)
		}
	}
	learn := func(x *Exec, st *State) {
		for i := range st.trace {
			ev := st.trace[i]
			switch ev.Kind {
			case "get":
				if x.nilness(st, lastRes(x, &ev)) == No {
					ev.Kind, ev.Sym = "lost", nil
					st.trace[i] = ev
				}
			case "put":
				if x.nilness(st, lastRes(x, &ev)) == Yes {
					ev.Kind, ev.Sym = "opened", nil
					st.trace[i] = ev
				}
			}
		}
	}
	q.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		switch {
		case ci.Name == get:
			finish(x, st)
			c.Check(ci.Args[1].k == KPure && r.positioned(st, ci), "place", key, ci.Site.Pos(), "%s looks for a shard or copy under the name of another position", key)
			st.Emit(Event{Kind: "get", Call: ci, Val: ci.Sym, Args: ci.Args})
			return ActPure
		case r.opens[ci.Fn] && ci.Common.Signature().Results().Len() == 2 && r.takesName(ci):
			finish(x, st)
			st.Emit(Event{Kind: "put", Call: ci, Val: ci.Sym, Args: ci.Args})
			return ActPure
		case aside(ci.Name) && dgMethod(ci.Name) == "" && !strings.HasSuffix(ci.Name, "Group"), ci.Common.IsInvoke() && dgMethod(ci.Name) == "":
			return ActPure
		case ci.Fn != nil && pkgPathOf(ci.Fn) != pkgPathOf(fn) && ci.Fn.Parent() == nil && dgMethod(ci.Name) == "":
			return ActPure
		}
		return ActDefault
	}
	q.OnBranch = learn
	q.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
		v := val.strip()
		if v.k == KIface {
			v = v.a[0].strip()
		}
		switch addr.k {
		case KIAddr:
			base, idx := addr.a[0].strip(), addr.a[1].strip()
			for i := range st.trace {
				ev := &st.trace[i]
				if (ev.Kind == "put" || ev.Kind == "opened") && v.k == KRes && v.a[0] == ev.Val {
					st.Emit(Event{Kind: "held", Val: ev.Val, Args: []*Term{idx}})
				}
				if !inOption(base) {
					continue
				}
				if (ev.Kind == "put" || ev.Kind == "opened") && v == ev.Args[0].strip() {
					st.Emit(Event{Kind: "moved", Val: ev.Val, Args: []*Term{idx}})
				}
				if ev.Kind == "lost" || ev.Kind == "get" {
					st.Emit(Event{Kind: "moved", Val: ev.Val, Args: []*Term{idx, v}})
				}
			}
			// what was handed over with a position is put there
			if v.k == KLoad && v.a[0].k == KFAddr && typeNameOf(fieldTypeDeep(elemOf(v.a[0].a[0].typ), v.a[0].op)) == "io.Reader" && r.handed(v.a[0].a[0]) {
				ok := idx.k == KLoad && idx.a[0].k == KFAddr && idx.a[0].a[0] == v.a[0].a[0]
				c.Check(ok, "place", key+" reader", in.Pos(), "%s puts the reader of a shard at the position of another one", key)
			}
		case KFAddr:
			obj := addr.a[0].strip()
			for i := range st.trace {
				if ev := &st.trace[i]; ev.Kind == "get" && v.k == KRes && v.a[0] == ev.Val && v.op == "0" {
					st.Emit(Event{Kind: "carried", Call: ev.Call, Val: obj, Args: []*Term{ev.Args[1]}})
				}
			}
			if val.typ != nil && isIntType(val.typ) {
				st.Emit(Event{Kind: "position", Val: obj, Args: []*Term{v}})
			}
		}
	}
	q.OnInstr = func(x *Exec, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); !ok {
			return
		}
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind != "carried" {
				continue
			}
			ok := false
			for j := range st.trace {
				if p := &st.trace[j]; p.Kind == "position" && p.Val == ev.Val && ev.Args[0].contains(p.Args[0]) {
					ok = true
				}
			}
			c.Check(ok, "place", key+" handed", in.Pos(), "%s hands over the reader of a shard with the position of another one", key)
		}
	}
	q.OnAppend = func(x *Exec, st *State, args []*Term, in ssa.Instruction) {
		if len(args) != 2 {
			return
		}
		for _, e := range x.Elems(st, args[1].strip()) {
			e = e.strip()
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind != "lost" {
					continue
				}
				if e == ev.Args[1].strip() {
					st.Emit(Event{Kind: "named", Val: ev.Val})
				}
				st.Emit(Event{Kind: "appended", Val: ev.Val, Args: []*Term{e}})
			}
		}
	}
	q.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if x.nilness(st, res[1]) != No {
			finish(x, st)
		}
	}
	c.dgHooks(q, func(ci *CallInfo) bool {
		hit := false
		if ci.Fn != nil {
			for _, f := range append([]*ssa.Function{ci.Fn}, ci.Fn.AnonFuncs...) {
				c.calls(f, func(_ ssa.CallInstruction, n string) { hit = hit || n == get })
			}
		}
		return hit
	})
	c.Run(fn, q)
}

// handed: an object that carries a reader and a position.
func (r *repairs) handed(o *Term) bool {
	if o.typ == nil {
		return false
	}
	s, ok := deref(o.typ).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	rd, pos := false, false
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		rd = rd || typeNameOf(t) == "io.Reader"
		pos = pos || isIntType(t)
	}
	return rd && pos && s.NumFields() <= 4
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// positioned: the name has the position of the location it is looked for at.
func (r *repairs) positioned(st *State, ci *CallInfo) bool {
	name := ci.Args[1].strip()
	_, idx := elemAt(ci.Args[0])
	return idx != nil && name.contains(idx)
}

// takesName: the callee is told a server and a name.
func (r *repairs) takesName(ci *CallInfo) bool {
	n := 0
	for _, a := range ci.Common.Args {
		if isText(a.Type()) {
			n++
		}
	}
	return n >= 2
}
