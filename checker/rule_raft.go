package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	msRepoPkg   = "metaserver/internal/usecase/repo"
	msUsecase   = "metaserver/internal/usecase"
	boltPkg     = "go.etcd.io/bbolt"
	raftPkg     = "github.com/hashicorp/raft"
	applyRaftIF = "metaserver/internal/usecase.RaftApply.ApplyRaft"
)

// writesDB: functions from which a read-write transaction can be opened.
func (c *Ctx) writesDB() map[*ssa.Function]bool {
	return c.E.StaticReaching(func(n string) bool {
		return n == boltPkg+".DB.Update" || n == boltPkg+".DB.Batch"
	})
}

// isLocalMutation: a call from outside the repositories that opens a write transaction on the store.
func (c *Ctx) isLocalMutation(ci *CallInfo, w map[*ssa.Function]bool) bool {
	if strings.HasPrefix(ci.Name, "metaserver/internal/usecase/db.Storage.") {
		return strings.HasSuffix(ci.Name, ".Update") || strings.HasSuffix(ci.Name, ".Batch")
	}
	for _, f := range c.E.callees(ci) {
		if w[f] && strings.HasPrefix(pkgPathOf(f), msRepoPkg) && !c.isHashIndexRepo(f) {
			return true
		}
	}
	return false
}

// isHashIndexRepo: the lookup table from checksum to versions is derived data; dropping an
// entry that points nowhere is local housekeeping, not a mutation of records.
func (c *Ctx) isHashIndexRepo(f *ssa.Function) bool {
	t := c.P.TypeByName(msUsecase + ".IHashIndexRepo")
	r := f.Signature.Recv()
	return t != nil && r != nil && types.Implements(r.Type(), t.Underlying().(*types.Interface))
}

// repoMethod: methods of the store's repositories (read or write).
func (c *Ctx) isRepoCall(ci *CallInfo) bool {
	for _, f := range c.E.callees(ci) {
		if strings.HasPrefix(pkgPathOf(f), msRepoPkg) {
			return true
		}
	}
	return false
}

func isApplyRaft(ci *CallInfo) bool {
	return strings.HasSuffix(ci.Name, ".ApplyRaft")
}

// serviceRoots lists the methods of every type that can submit to the replicated log.
func (c *Ctx) serviceRoots() []*ssa.Function {
	ra := c.P.TypeByName(msUsecase + ".RaftApply")
	if ra == nil {
		return nil
	}
	it := ra.Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, t := range c.P.Implementers(it) {
		// the applier itself declares the method; services get it from an embedded field
		m := c.P.Method(t, "ApplyRaft")
		if m == nil || m.Synthetic == "" {
			continue
		}
		ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(deref(t)))
		for i := 0; i < ms.Len(); i++ {
			f := c.P.SSA.MethodValue(ms.At(i))
			if f == nil || f.Blocks == nil || ms.At(i).Obj().Name() == "ApplyRaft" {
				continue
			}
			out = append(out, f)
		}
	}
	// a service may keep the applier in an ordinary field
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if !s.Field(i).Embedded() && types.Identical(s.Field(i).Type(), ra) {
					ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(tn.Type()))
					for j := 0; j < ms.Len(); j++ {
						if f := c.P.SSA.MethodValue(ms.At(j)); f != nil && f.Blocks != nil {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// methodKey names a (possibly promoted) method by its receiver.
func methodKey(fn *ssa.Function) string {
	s := fn.String()
	s = strings.NewReplacer("(", "", ")", "", "*", "").Replace(s)
	return short(s)
}

var entryFields = []string{"Type", "Dest", "Name", "Sequence", "Version", "Metadata", "Bucket"}

type fsmOp struct {
	method string
	args   []string
}

// fsmTable explores the replicated state machine and tells which local
// operation each kind of entry is turned into.
func (c *Ctx) fsmTable(rule string, visit func(x *Exec, st *State, kind string)) map[string]map[string]fsmOp {
	out := map[string]map[string]fsmOp{}
	w := c.writesDB()
	rd := c.P.TypeByName("metaserver/internal/entity.RaftData")
	if rd == nil {
		return out
	}
	for _, root := range c.fsmRoots() {
		tab := map[string]fsmOp{}
		out[methodKey(root)] = tab
		r := &Rule{MaxDepth: 8}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if !c.isRepoCall(ci) {
				return ActDefault
			}
			if !c.isLocalMutation(ci, w) {
				return ActOpaque
			}
			// which entry is this?
			typ, dst := c.entryKind(x, st, ci)
			kind := typ + "/" + dst
			var args []string
			for _, a := range ci.Args[1:] {
				args = append(args, c.entryField(x, st, a))
			}
			name := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
			op := fsmOp{name, args}
			if o, had := tab[kind]; had && fmt.Sprint(o) != fmt.Sprint(op) {
				c.Bad(rule, methodKey(root)+" "+kind, ci.Site.Pos(), "one entry kind leads to two different operations: %v and %v", o, op)
			}
			tab[kind] = op
			return ActOpaque
		}
		c.Run(root, r)
	}
	return out
}

func (c *Ctx) fsmRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range c.P.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			t := types.NewPointer(tn.Type())
			a := c.P.Method(t, "Apply")
			if a == nil || len(a.Params) != 2 || !strings.HasSuffix(a.Params[1].Type().String(), raftPkg+".Log") {
				continue
			}
			out = append(out, a)
			if b := c.P.Method(t, "ApplyBatch"); b != nil {
				out = append(out, b)
			}
		}
	}
	return out
}

// entryKind reads the entry's kind off the branch facts of the path.
func (c *Ctx) entryKind(x *Exec, st *State, ci *CallInfo) (string, string) {
	typ, dst := "?", "?"
	pk := c.P.ByPth["metaserver/internal/entity"].Types
	for f, v := range st.facts {
		if !v || f.k != KBin || f.op != "==" || f.a[1].k != KConst {
			continue
		}
		t := f.a[0]
		var name string
		switch {
		case t.k == KField:
			name = t.op
		case t.k == KLoad && t.a[0].k == KFAddr:
			name = t.a[0].op
		}
		n, ok := constInt(f.a[1].cst)
		if !ok {
			continue
		}
		if nt, ok := t.typ.(*types.Named); ok && nt.Obj().Pkg() == pk {
			switch nt.Obj().Name() {
			case "LogType":
				typ = constName(pk, "LogType", n)
			case "Dest":
				dst = constName(pk, "Dest", n)
			}
		}
		_ = name
	}
	return typ, dst
}

// entryField names the entry field an operation's argument comes from.
func (c *Ctx) entryField(x *Exec, st *State, a *Term) string {
	a = a.strip()
	switch {
	case a.k == KField:
		return a.op
	case a.k == KLoad && a.a[0].k == KFAddr:
		return a.a[0].op
	}
	return "other:" + a.Pretty()
}

func init() {
	register("C01", "For every method of every service that can submit to the replicated log, all control paths are explored (helpers, deferred calls and interface calls with one implementation are entered). A path may write the local store only after the log said this node does not replicate; when the log handled the entry, the log's verdict is returned. The submitted entry is compared field by field with the local operation it stands for, using the state machine's own dispatch (also read off its paths).", checkC01)
	register("C02", "The replicated state machine's Apply and ApplyBatch are explored on all paths: every submitted entry kind has an operation, errors of the operation and undecodable or unknown entries become failing responses, the assigned version number is returned. Everything reachable from them is scanned for values that differ between replicas (clock, randomness, environment, network), followed to where they are used; identities and timestamps are shown to be set before an entry is submitted.", checkC02)
}

func checkC01(c *Ctx) {
	c.Rule("log-first", "the local store is written only on paths on which the replicated log answered that it does not handle the entry")
	c.Rule("log-result", "when the log handled the entry its error is what the caller gets")
	c.Rule("local-result", "an error of the local write reaches the caller")
	c.Rule("entry-matches-operation", "the submitted entry, interpreted by the state machine, is the same operation on the same arguments as the local write")
	c.Rule("no-side-door", "outside the repositories and the state machine only the explored service methods write the store")
	c.Rule("applier", "the log adapter reports an entry as handled whenever this node leads, and reports success only for a successful response")
	w := c.writesDB()
	tab := map[string]fsmOp{}
	for _, t := range c.fsmTable("fsm-dispatch", nil) {
		for k, op := range t {
			if o, had := tab[k]; had {
				c.Check(fmt.Sprint(o) == fmt.Sprint(op), "entry-matches-operation", "dispatch "+k, 0, "single and batched application of %s differ: %v and %v", k, o, op)
			} else {
				tab[k] = op
			}
		}
	}
	rd := c.P.TypeByName("metaserver/internal/entity.RaftData")
	entityPk := c.P.ByPth["metaserver/internal/entity"].Types
	covered := map[*ssa.Function]bool{}
	seenKinds := map[string]bool{}
	for _, root := range c.serviceRoots() {
		if !w[root] && root.Synthetic == "" {
			reach := false
			for f := range c.E.From(root) {
				if w[f] {
					reach = true
				}
			}
			if !reach {
				continue
			}
		}
		key := methodKey(root)
		r := &Rule{MaxDepth: 6}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if isApplyRaft(ci) {
				ent := ci.Args[len(ci.Args)-1].strip()
				var vals []*Term
				for _, f := range entryFields {
					vals = append(vals, x.load(st, x.E.fieldAddr(ent, f), fieldType(rd.Underlying(), f), ci.Site, ci.Ctx))
				}
				if st.Has("mut") {
					c.Bad("log-first", key, ci.Site.Pos(), "the store was written before the entry was submitted to the log")
				}
				st.Emit(Event{Kind: "raft", Call: ci, Args: vals})
				// one submission per path
				return ActOpaque
			}
			if c.isLocalMutation(ci, w) {
				ev := st.Find("raft")
				name := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
				mk := key
				if ev == nil {
					c.Bad("log-first", mk+" -> "+name, ci.Site.Pos(), "%s writes the store (%s) on a path that never submits to the replicated log", key, ci.Name)
				} else if x.Eval(st, x.E.Res(ev.Call, 0)) != No {
					c.Bad("log-first", mk+" -> "+name, ci.Site.Pos(), "%s writes the store (%s) although the log may already have handled the entry", key, ci.Name)
				} else {
					c.Ok("log-first", mk+" -> "+name)
					c.matchEntry(x, st, ev, ci, name, key, tab, entityPk, seenKinds)
				}
				st.Emit(Event{Kind: "mut", Call: ci})
				return ActOpaque
			}
			if c.isRepoCall(ci) {
				return ActOpaque
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			var ret *Term
			if n := len(res); n > 0 && isErrorType(root.Signature.Results().At(n-1).Type()) {
				ret = res[n-1]
			}
			ev := st.Find("raft")
			if ev != nil {
				ok := x.E.Res(ev.Call, 0)
				handled := x.Eval(st, ok)
				if handled != No {
					if !st.Has("mut") {
						c.Check(!x.swallows(st, x.E.Res(ev.Call, 2), ret), "log-result", key, at.Pos(), "%s can report success although the replicated log returned an error", key)
						if root.Signature.Results().Len() == 2 && x.nilness(st, x.E.Res(ev.Call, 2)) != No && x.nilness(st, ret) != No {
							c.Check(res[0].contains(x.E.Res(ev.Call, 1)), "log-result", key+" value", at.Pos(), "%s does not return the value the replicated log assigned", key)
						}
					}
				}
				if handled == No && !st.Has("mut") && x.nilness(st, ret) != No {
					c.Bad("log-first", key+" exit", at.Pos(), "%s reports success although neither the log nor the local store was written", key)
				}
			}
			if m := st.Find("mut"); m != nil {
				e := x.E.ErrRes(m.Call)
				if e != nil {
					c.Check(!x.swallows(st, e, ret), "local-result", key, at.Pos(), "%s can report success although the local write failed", key)
				}
			}
		}
		x := c.Run(root, r)
		for f := range x.Entered {
			covered[topFn(f)] = true
		}
	}
	c.Min("log-first", 10)
	c.Min("entry-matches-operation", 10)
	// no other writers
	fsm := c.E.From(c.fsmRoots()...)
	for _, fn := range c.P.Fns {
		pp := pkgPathOf(fn)
		if !strings.HasPrefix(pp, "metaserver/") || strings.HasPrefix(pp, msRepoPkg) || strings.HasPrefix(pp, msUsecase+"/db") || strings.HasPrefix(pp, msUsecase+"/logic") {
			continue
		}
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				info := &CallInfo{Common: ci.Common(), Name: calleeName(ci.Common()), Fn: ci.Common().StaticCallee()}
				if !c.isLocalMutation(info, w) {
					continue
				}
				// interface methods that services implement themselves go through the service
				if ci.Common().IsInvoke() && c.serviceIface(ci.Common()) {
					continue
				}
				key := stableKey(fn) + " -> " + info.Name[strings.LastIndex(info.Name, ".")+1:]
				if covered[topFn(fn)] || fsm[fn] {
					c.Ok("no-side-door", key)
				} else {
					c.Bad("no-side-door", key, in.Pos(), "%s writes the store directly, bypassing the replicated log", fn)
				}
			}
		}
	}
	c.Min("no-side-door", 15)
	c.applierRule()
}

// serviceIface: the static interface type is one whose implementers include a replicating service.
func (c *Ctx) serviceIface(cc *ssa.CallCommon) bool {
	ra := c.P.TypeByName(msUsecase + ".RaftApply").Underlying().(*types.Interface)
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for _, n := range []string{"IMetadataService", "BucketService", "MetadataRpcService"} {
		if t := c.P.TypeByName(msUsecase + "." + n); t != nil && types.Identical(cc.Value.Type(), t) {
			return true
		}
	}
	_ = ra
	_ = it
	return false
}

func (c *Ctx) matchEntry(x *Exec, st *State, ev *Event, ci *CallInfo, name, key string, tab map[string]fsmOp, pk *types.Package, seen map[string]bool) {
	kinds := make([]string, 2)
	for i, tn := range []string{"LogType", "Dest"} {
		v, ok := x.constOf(st, ev.Args[i])
		if n, isInt := constInt(v); ok && isInt {
			kinds[i] = constName(pk, tn, n)
		} else {
			c.Bad("entry-matches-operation", key+" -> "+name, ci.Site.Pos(), "the kind of the submitted entry is not a constant on this path")
			return
		}
	}
	kind := kinds[0] + "/" + kinds[1]
	seen[kind] = true
	op, ok := tab[kind]
	k := key + " -> " + name
	if !ok {
		c.Bad("entry-matches-operation", k, ci.Site.Pos(), "the state machine has no operation for the submitted entry kind %s", kind)
		return
	}
	if op.method != name {
		c.Bad("entry-matches-operation", k, ci.Site.Pos(), "entry kind %s makes the replicas run %s, but the local write is %s", kind, op.method, name)
		return
	}
	if len(op.args) != len(ci.Args)-1 {
		c.Bad("entry-matches-operation", k, ci.Site.Pos(), "argument counts differ")
		return
	}
	good := true
	for i, f := range op.args {
		want := ci.Args[i+1].strip()
		found := false
		for j, n := range entryFields {
			if n == f && (ev.Args[j].strip() == want) {
				found = true
			}
		}
		if !found {
			good = false
			c.Bad("entry-matches-operation", k, ci.Site.Pos(), "argument %d of %s is %s locally, but the replicas take it from the entry's %s, which was submitted with a different value", i+1, name, want.Pretty(), f)
		}
	}
	// fields that an update needs besides the arguments
	if good {
		c.Ok("entry-matches-operation", k)
	}
}

// applierRule checks the adapter between the services and the consensus library.
func (c *Ctx) applierRule() {
	ra := c.P.TypeByName(msUsecase + ".RaftApply")
	n := 0
	for _, t := range c.P.Implementers(ra.Underlying().(*types.Interface)) {
		fn := c.P.Method(t, "ApplyRaft")
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		n++
		key := methodKey(fn)
		isApply := func(n string) bool {
			return n == raftPkg+".Raft.Apply" || n == msUsecase+".IRaft.Apply" || n == raftPkg+".Raft.ApplyLog" || n == msUsecase+".IRaft.ApplyLog"
		}
		r := &Rule{MaxDepth: 6}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch {
			case strings.HasSuffix(ci.Name, ".RaftWrapper.IsLeader"):
				st.Emit(Event{Kind: "leader", Call: ci, Val: x.E.Res(ci, 0)})
				return ActOpaque
			case isApply(ci.Name):
				st.Emit(Event{Kind: "apply", Call: ci, Val: x.E.Res(ci, 0)})
				return ActOpaque
			case strings.HasSuffix(ci.Name, "uture.Error") && strings.HasPrefix(ci.Name, raftPkg):
				st.Emit(Event{Kind: "ferr", Call: ci, Val: x.E.Res(ci, 0)})
				return ActOpaque
			case strings.HasSuffix(ci.Name, "uture.Response") && strings.HasPrefix(ci.Name, raftPkg):
				st.Emit(Event{Kind: "fresp", Call: ci, Val: x.E.Res(ci, 0)})
				return ActOpaque
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			handled := x.Eval(st, res[0])
			ld := st.Find("leader")
			leads := Unknown
			if ld != nil {
				leads = x.Eval(st, ld.Val)
			}
			if ap := st.Find("apply"); ap != nil {
				c.Check(handled == Yes, "applier", key+" handled", at.Pos(), "an entry handed to the consensus library is reported as not handled, so the caller writes the store once more on its own")
				fe := st.Find("ferr")
				if fe == nil {
					c.Bad("applier", key+" future", at.Pos(), "the outcome of the consensus round is not awaited")
				} else {
					c.Check(!x.swallows(st, fe.Val, res[2]), "applier", key+" future", at.Pos(), "a failed consensus round is reported as success")
				}
				if x.nilness(st, res[2]) != No && fe != nil && x.nilness(st, fe.Val) != No {
					rs := st.Find("fresp")
					good := false
					if rs != nil {
						for f, v := range st.facts {
							if f.contains(rs.Val) {
								f.walk(func(s *Term) {
									if (s.k == KFAddr || s.k == KField) && s.op == "Status" && v {
										good = true
									}
								})
							}
						}
						if res[2].strip() == rs.Val || res[2].contains(rs.Val) {
							good = true // the response itself is returned as the error
						}
					}
					c.Check(good, "applier", key+" response", at.Pos(), "success is reported without the state machine's response saying so")
				}
			} else {
				c.Check(handled == Yes || leads == No, "applier", key+" leader", at.Pos(), "this node may lead, but the entry is reported as not handled without being submitted")
				if handled == Yes {
					c.Check(x.nilness(st, res[2]) == No, "applier", key+" unsubmitted", at.Pos(), "an entry that was never submitted is reported as handled without an error")
				}
			}
		}
		c.Run(fn, r)
	}
	// leadership itself
	if fn := c.P.FnByName("metaserver/internal/usecase/raftimpl.RaftWrapper.IsLeader"); fn != nil {
		n++
		r := &Rule{}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			s := st.clone()
			if !x.Assume(s, res[0], true) {
				c.Ok("applier", "IsLeader")
				return
			}
			got := map[string]bool{}
			for f, v := range s.facts {
				if v {
					f.walk(func(t *Term) {
						if t.k == KFAddr {
							got[t.op] = true
						}
					})
				}
			}
			c.Check(len(got) >= 2, "applier", "IsLeader", at.Pos(), "leadership is reported without both the raft switch and the last leadership notification saying so")
		}
		c.Run(fn, r)
	}
	c.Min("applier", 4)
	_ = n
}

// ---- C02 ----

var nondet = map[string]string{
	"time.Now": "the clock", "github.com/google/uuid.NewString": "a random id", "github.com/google/uuid.New": "a random id", "github.com/google/uuid.NewRandom": "a random id",
	"os.Getenv": "the environment", "os.Hostname": "the host name",
}

func isNondet(n string) string {
	if s := nondet[n]; s != "" {
		return s
	}
	if strings.HasPrefix(n, "math/rand.") || strings.HasPrefix(n, "crypto/rand.") || strings.HasPrefix(n, "math/rand/v2.") {
		return "randomness"
	}
	if strings.HasPrefix(n, "go.etcd.io/etcd/client/v3.") {
		return "the registry"
	}
	if strings.HasPrefix(n, "net/http.") || strings.HasPrefix(n, "net.") {
		return "the network"
	}
	if strings.HasPrefix(n, "github.com/google/uuid.") {
		return "a random id"
	}
	return ""
}

func checkC02(c *Ctx) {
	c.Rule("exhaustive", "every entry kind a service submits has exactly one operation in the state machine, single and batched alike")
	c.Rule("outcome", "a failing operation, an undecodable or an unknown entry yields a failing response; a succeeding one a success")
	c.Rule("sequence", "the response to an inserted version carries the number assigned inside the transaction")
	c.Rule("deterministic", "nothing reachable from the state machine feeds the clock, randomness, the environment or the network into the store")
	c.Rule("stamped-before-submit", "creation and update times and unique ids are fixed before the entry is submitted")
	c.Rule("map-order", "the apply path does not iterate over a map")
	c.Rule("sync-reported", "when the batch cannot be synced, every entry that would be answered with success is answered with the sync failure")
	roots := c.fsmRoots()
	w := c.writesDB()
	// exhaustive: kinds submitted
	kinds := c.submittedKinds()
	for root, tab := range c.fsmTable("exhaustive", nil) {
		for _, k := range sortedKeys(kinds) {
			_, ok := tab[k]
			c.Check(ok, "exhaustive", root+" "+k, kinds[k].Pos(), "entries of kind %s are submitted but %s has no operation for them", k, root)
		}
	}
	c.Min("exhaustive", 16)
	for _, root := range roots {
		c.outcomeRule(root, w)
	}
	c.Min("outcome", 6)
	c.Min("sequence", 2)
	// determinism
	// the state machine is wired with repositories; replicating services implement
	// the same interfaces but are what submits entries, not what applies them
	svc := map[*ssa.Function]bool{}
	for _, f := range c.serviceRoots() {
		svc[f] = true
	}
	scope := c.E.FromExcept(func(f *ssa.Function) bool { return svc[topFn(f)] }, roots...)
	nfn := 0
	for _, fn := range c.P.Fns {
		if !scope[fn] || !strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
			continue
		}
		nfn++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if rg, ok := in.(*ssa.Range); ok {
					if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
						c.Bad("map-order", stableKey(fn), in.Pos(), "iterates over a map while applying an entry; the order differs between replicas")
					}
				}
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				what := isNondet(calleeName(ci.Common()))
				if what == "" {
					continue
				}
				sink := c.taintSink(ci)
				key := stableKey(fn) + " " + what
				c.Check(sink == nil, "deterministic", key, in.Pos(), "%s is read while applying an entry and flows into %v: replicas end up with different contents", what, sinkText(sink))
			}
		}
	}
	c.Count("functions reachable from the state machine", nfn)
	c.Ok("map-order", "scanned")
	c.Min("deterministic", 2)
	c.stampRule()
	c.Min("stamped-before-submit", 8)
}

func sinkText(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	return i.String()
}

// taintSink follows a value forward; only logging, durations and comparisons with durations are harmless.
func (c *Ctx) taintSink(v ssa.Value) ssa.Instruction {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) ssa.Instruction
	visit = func(v ssa.Value) ssa.Instruction {
		if seen[v] {
			return nil
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return nil
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				n := calleeName(r.Common())
				if strings.HasPrefix(n, "time.Time.") || strings.HasPrefix(n, "time.Since") || strings.HasPrefix(n, "time.Duration.") {
					if s := visit(r); s != nil {
						return s
					}
					continue
				}
				if strings.HasPrefix(n, "common/logs.") || strings.HasPrefix(n, "github.com/sirupsen/logrus.") || strings.HasPrefix(n, "fmt.Print") {
					continue
				}
				return r
			case *ssa.Store:
				switch a := r.Addr.(type) {
				case *ssa.Alloc:
					if s := visit(a); s != nil {
						return s
					}
				case *ssa.IndexAddr:
					if s := visit(a.X); s != nil {
						return s
					}
				default:
					if r.Val == v || a != v {
						return r
					}
				}
			case *ssa.UnOp, *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Slice, *ssa.BinOp, *ssa.IndexAddr, *ssa.Phi, *ssa.Field:
				if s := visit(r.(ssa.Value)); s != nil {
					return s
				}
			case *ssa.MakeClosure:
				cf := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && i < len(cf.FreeVars) {
						if s := visit(cf.FreeVars[i]); s != nil {
							return s
						}
					}
				}
			case *ssa.Defer:
				n := calleeName(r.Common())
				if strings.HasPrefix(n, "common/logs.") || strings.HasPrefix(n, "github.com/sirupsen/logrus.") {
					continue
				}
				return r
			default:
				return r
			}
		}
		return nil
	}
	return visit(v)
}

// submittedKinds explores the services for the entry kinds they submit.
func (c *Ctx) submittedKinds() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	pk := c.P.ByPth["metaserver/internal/entity"].Types
	rd := c.P.TypeByName("metaserver/internal/entity.RaftData")
	for _, root := range c.serviceRoots() {
		root := root
		r := &Rule{MaxDepth: 6}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if isApplyRaft(ci) {
				ent := ci.Args[len(ci.Args)-1].strip()
				var k [2]string
				for i, f := range []string{"Type", "Dest"} {
					v := x.load(st, x.E.fieldAddr(ent, f), fieldType(rd.Underlying(), f), ci.Site, ci.Ctx)
					cv, _ := x.constOf(st, v)
					n, ok := constInt(cv)
					if !ok {
						n = -1
					}
					k[i] = constName(pk, []string{"LogType", "Dest"}[i], n)
				}
				out[k[0]+"/"+k[1]] = root
				return ActOpaque
			}
			if c.isRepoCall(ci) {
				return ActOpaque
			}
			return ActDefault
		}
		c.Run(root, r)
	}
	return out
}

// stampRule: times and ids are set on the record before it is submitted.
func (c *Ctx) stampRule() {
	pk := c.P.ByPth["metaserver/internal/entity"].Types
	rd := c.P.TypeByName("metaserver/internal/entity.RaftData")
	want := map[string][][2]string{ // kind -> (record field of the entry, stamped field)
		"LogInsert/DestMetadata": {{"Metadata", "CreateTime"}, {"Metadata", "UpdateTime"}},
		"LogUpdate/DestMetadata": {{"Metadata", "UpdateTime"}},
		"LogInsert/DestVersion":  {{"Version", "Ts"}, {"Version", "UniqueId"}},
		"LogUpdate/DestVersion":  {{"Version", "Ts"}},
		"LogInsert/DestBucket":   {{"Bucket", "CreateTime"}, {"Bucket", "UpdateTime"}},
		"LogUpdate/DestBucket":   {{"Bucket", "UpdateTime"}},
	}
	for _, root := range c.serviceRoots() {
		key := methodKey(root)
		r := &Rule{MaxDepth: 6}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if isApplyRaft(ci) {
				ent := ci.Args[len(ci.Args)-1].strip()
				get := func(f string) *Term {
					return x.load(st, x.E.fieldAddr(ent, f), fieldType(rd.Underlying(), f), ci.Site, ci.Ctx)
				}
				var k [2]string
				for i, f := range []string{"Type", "Dest"} {
					cv, _ := x.constOf(st, get(f))
					n, ok := constInt(cv)
					if !ok {
						n = -1
					}
					k[i] = constName(pk, []string{"LogType", "Dest"}[i], n)
				}
				for _, fs := range want[k[0]+"/"+k[1]] {
					rec := get(fs[0])
					v := x.field(st, rec, fs[1])
					good := fromCall(v, func(n string) bool { return isNondet(n) != "" })
					c.Check(good, "stamped-before-submit", key+" "+fs[0]+"."+fs[1], ci.Site.Pos(), "the entry is submitted before %s of the record is fixed, so it keeps a caller-supplied or stale value (or would differ between replicas)", fs[1])
				}
				return ActOpaque
			}
			if c.isRepoCall(ci) {
				return ActOpaque
			}
			return ActDefault
		}
		c.Run(root, r)
	}
}

// outcomeRule: what the state machine answers for each way an entry can go.
func (c *Ctx) outcomeRule(root *ssa.Function, w map[*ssa.Function]bool) {
	key := methodKey(root)
	batched := root.Signature.Results().Len() == 1 && strings.HasPrefix(root.Signature.Results().At(0).Type().String(), "[]")
	judge := func(x *Exec, st *State, v *Term, pos ssa.Instruction) {
		in := v
		v = v.strip()
		status := "?"
		errFlow := func(*Term) bool { return false }
		isResp := strings.HasSuffix(typeNameOf(v.typ), "raftimpl.FSMResponse") || (v.k == KAlloc && strings.HasSuffix(typeNameOf(deref(v.typ)), ".FSMResponse"))
		if isResp {
			ef := x.field(st, v, "err")
			sv := x.field(st, ef, "Status")
			cv, ok := x.constOf(st, sv)
			if n, isG := c.P.globalStatus(ef.strip()); isG && !ok {
				cv, ok = constant.MakeInt64(n), true
			}
			if ok {
				n, _ := constInt(cv)
				if n/100 == 2 {
					status = "ok"
				} else {
					status = "fail"
				}
			}
			errFlow = func(e *Term) bool {
				return ef.strip() == e.strip() || reach(st, ef, e.strip())
			}
		} else {
			// a bare error
			if x.nilness(st, in) == No {
				status = "fail"
			}
			errFlow = func(e *Term) bool { return in.strip() == e.strip() }
		}
		m := st.terms["op"]
		if m == nil {
			c.Check(status == "fail" || (isResp && status == "?"), "outcome", key+" no operation", pos.Pos(), "an entry that was not applied is answered with success")
			return
		}
		e := x.E.ErrRes(m.call)
		name := short(m.call.Name)
		name = name[strings.LastIndex(name, ".")+1:]
		if e == nil {
			return
		}
		switch x.nilness(st, e) {
		case Yes:
			c.Check(status == "ok", "outcome", key+" "+name+" ok", pos.Pos(), "%s succeeded but the response is not a success", name)
		default:
			// an already existing record is the one accepted failure: replayed entries
			exists := false
			for f, fv := range st.facts {
				if fv && f.k == KPure && f.op == "errors.Is" && f.a[0].strip() == e && strings.HasSuffix(f.a[1].Pretty(), ".ErrExists") {
					exists = true
				}
			}
			c.Check(exists || status == "fail" || (status == "?" && errFlow(e)), "outcome", key+" "+name+" error", pos.Pos(), "%s failed but the response does not carry the failure", name)
		}
		if name == "AddVersion" && x.nilness(st, e) == Yes && isResp {
			d := x.field(st, v, "Data").strip()
			good := (d.k == KField && d.op == "Sequence") || (d.k == KLoad && d.a[0].k == KFAddr && d.a[0].op == "Sequence")
			c.Check(good, "sequence", key, pos.Pos(), "the response to an inserted version does not carry the assigned version number but %s", d.Pretty())
		}
	}
	synced, replaced := false, false
	r := &Rule{MaxDepth: 8}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if c.isRepoCall(ci) {
			if c.isLocalMutation(ci, w) {
				st.terms["op"] = ci.Sym
			}
			return ActOpaque
		}
		return ActDefault
	}
	if batched {
		r.OnStore = func(x *Exec, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.k != KIAddr || in.Parent() != root && topFn(in.Parent()) != topFn(root) {
				return
			}
			if addr.a[0].typ == nil || !strings.HasPrefix(addr.a[0].typ.String(), "[]") {
				return
			}
			if st.vars["synced"] != "" {
				// an answer replaced because the batch could not be made durable
				if !c.P.failureValue(x, st, val) {
					return
				}
				for f, v := range st.facts {
					if f.k == KBin && f.op == "==" && v && f.a[1].op == "nil" && f.a[0].contains(addr.a[0]) {
						return // only answers that are still unset: there is none
					}
				}
				replaced = true
				return
			}
			judge(x, st, val, in)
			delete(st.terms, "op")
		}
		prev := r.OnCall
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasSuffix(ci.Name, ".Sync") {
				st.vars["synced"] = "y"
				synced = true
			}
			return prev(x, st, ci)
		}
		defer func() {
			c.Check(synced && replaced, "sync-reported", key, root.Pos(), "the batch is made durable by one Sync at the end, and when that fails the entries already answered with success are not answered with a failure")
		}()
	} else {
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) { judge(x, st, res[0], at) }
	}
	c.Run(root, r)
}

// failureValue: an answer that is certainly a failure (a response with a non-2xx status or a non-nil error).
func (p *Prog) failureValue(x *Exec, st *State, in *Term) bool {
	v := in.strip()
	if strings.HasSuffix(typeNameOf(v.typ), "raftimpl.FSMResponse") || (v.k == KAlloc && strings.HasSuffix(typeNameOf(deref(v.typ)), ".FSMResponse")) {
		ef := x.field(st, v, "err")
		cv, ok := x.constOf(st, x.field(st, ef, "Status"))
		if n, isG := p.globalStatus(ef.strip()); isG && !ok {
			cv, ok = constant.MakeInt64(n), true
		}
		n, _ := constInt(cv)
		return ok && n/100 != 2
	}
	return x.nilness(st, in) == No && isErrorType(in.typ)
}
