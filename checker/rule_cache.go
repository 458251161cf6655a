package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "The cache keys of every cached record kind are extracted as templates and compared; every repository method that commits a change is explored on every path for the cache operation that follows the commit, and every read that fills the cache for the record and identity it fills in.", checkC07)
	register("C33", "Every function that looks at the versions of an object is explored for how it derives an order from them: sorting calls, comparison functions, cursor positions on the version buckets and the bounds of pages.", checkC33)
}

const icache = "common/cache.ICache."

// cacheTypes are the types that keep records in a cache.ICache.
func (c *Ctx) cacheTypes() []*types.Named {
	var out []*types.Named
	for _, fn := range c.P.Fns {
		rv := fn.Signature.Recv()
		if rv == nil || fn.Synthetic != "" || !strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
			continue
		}
		hit := false
		c.calls(fn, func(_ ssa.CallInstruction, n string) {
			if strings.HasPrefix(n, icache) {
				hit = true
			}
		})
		nt, ok := deref(rv.Type()).(*types.Named)
		if !hit || !ok {
			continue
		}
		dup := false
		for _, o := range out {
			dup = dup || o == nt
		}
		if !dup {
			out = append(out, nt)
		}
	}
	return out
}

// verbNoun splits a repository method's name: AddVersion is ("set", "Version").
func verbNoun(n string) (string, string) {
	n = strings.TrimSuffix(n, "FromRaft")
	for _, v := range []string{"Add", "Create", "Update"} {
		if strings.HasPrefix(n, v) {
			return "set", strings.TrimPrefix(n, v)
		}
	}
	if strings.HasPrefix(n, "Remove") {
		return "drop", strings.TrimPrefix(n, "Remove")
	}
	if strings.HasPrefix(n, "Get") {
		return "get", strings.TrimPrefix(n, "Get")
	}
	return "", ""
}

// keyShape writes a cache key as its constant parts and what fills the rest.
func keyShape(x *Exec, st *State, k *Term) []string {
	k = k.strip()
	if k.k == KPure && (k.op == "fmt.Sprint" || k.op == "fmt.Sprintf") {
		var out []string
		as := k.a
		if k.op == "fmt.Sprintf" {
			out = append(out, as[0].Pretty())
			as = as[1:]
		}
		for _, a := range as {
			out = append(out, keyShape(x, st, a)...)
		}
		return merge(out)
	}
	if k.k == KBin && k.op == "+" {
		return merge(append(keyShape(x, st, k.a[0]), keyShape(x, st, k.a[1])...))
	}
	if k.k == KConst && k.cst != nil {
		s, ok := cstString(k.cst)
		if !ok {
			s = k.Pretty()
		}
		return []string{"'" + s}
	}
	switch b, _ := k.typ.Underlying().(*types.Basic); {
	case b != nil && b.Info()&types.IsInteger != 0:
		return []string{"<number>"}
	case b != nil && b.Info()&types.IsString != 0:
		return []string{"<name>"}
	}
	if k.k == KPure && strings.HasPrefix(k.op, "strconv.") {
		return []string{"<number>"}
	}
	return []string{"?" + k.Pretty()}
}

func merge(in []string) []string {
	var out []string
	for _, s := range in {
		if n := len(out); n > 0 && strings.HasPrefix(s, "'") && strings.HasPrefix(out[n-1], "'") {
			out[n-1] += s[1:]
			continue
		}
		out = append(out, s)
	}
	return out
}

func checkC07(c *Ctx) {
	c.Rule("same-key", "all operations of the cache on one kind of record use the same key")
	c.Rule("distinct-keys", "the keys of different kinds of records cannot collide, whatever the records are called")
	c.Rule("after-commit", "a method that commits a change of a record updates or drops its cached copy before it reports success")
	c.Rule("right-record", "what is put in the cache after a commit is the committed record under its own name")
	c.Rule("committed-only", "a record is put in the cache only after its change was committed")
	c.Rule("drop-versions", "a method that removes the versions of an object drops all of their cached copies, up to the last number read before the removal")
	c.Rule("derived-change", "any other committed change of cached records is followed by dropping their cached copies")
	c.Rule("fill-as-read", "a read fills the cache only with the record it decoded without error, under the name it was read by")
	c.Rule("hit-only", "a record is taken from the cache only if the cache had it and could decode it")
	c.Rule("one-cache", "all record caches of a server share the store that is emptied when the database is replaced")

	cts := c.cacheTypes()
	if !c.Check(len(cts) > 0, "same-key", "cache types", 0, "no type keeps records in the cache") {
		return
	}
	c.cachePkgs = map[string]bool{}
	for _, nt := range cts {
		c.cachePkgs[nt.Obj().Pkg().Path()] = true
	}
	shapes := map[string]map[string]string{} // noun -> shape -> method
	ctNames := map[string]bool{}
	for _, nt := range cts {
		ctNames[nt.Obj().Name()] = true
		ms := types.NewMethodSet(types.NewPointer(nt))
		for i := 0; i < ms.Len(); i++ {
			fn := c.P.Method(types.NewPointer(nt), ms.At(i).Obj().Name())
			if fn == nil || fn.Blocks == nil || !ms.At(i).Obj().Exported() {
				continue
			}
			_, noun := verbNoun(fn.Name())
			kind := ""
			r := &Rule{MaxDepth: 5}
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if strings.HasPrefix(ci.Name, "common/util.Decode") && len(ci.Args) > 1 {
					st.Emit(Event{Kind: "decode", Call: ci, Val: x.E.ErrRes(ci)})
					return ActOpaque
				}
				if !strings.HasPrefix(ci.Name, icache) || len(ci.Args) < 2 {
					return ActDefault
				}
				sh := strings.Join(keyShape(x, st, ci.Args[1]), " ")
				kind = nt.Obj().Name() + " " + strings.TrimSuffix(noun, "Bytes")
				if strings.HasPrefix(fn.Name(), "List") {
					kind = nt.Obj().Name() + " " + strings.TrimSuffix(strings.TrimPrefix(fn.Name(), "List"), "s")
				}
				if shapes[kind] == nil {
					shapes[kind] = map[string]string{}
				}
				if _, ok := shapes[kind][sh]; !ok {
					shapes[kind][sh] = methodKey(fn)
				}
				if strings.HasSuffix(ci.Name, "ICache.HasGet") {
					st.Emit(Event{Kind: "lookup", Call: ci, Val: x.E.Res(ci, 1)})
				}
				return ActOpaque
			}
			r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
				lk := st.Last("lookup")
				if lk == nil || strings.HasPrefix(fn.Name(), "List") || x.nilness(st, res[len(res)-1]) == No {
					return
				}
				e := res[len(res)-1]
				c.Check(x.Eval(st, lk.Val) == Yes, "hit-only", methodKey(fn), at.Pos(), "a record is returned although the cache does not have it")
				if d := st.Last("decode"); d != nil {
					c.Check(e.strip() == d.Val.strip() || x.nilness(st, d.Val) == Yes, "hit-only", methodKey(fn)+" decoded", at.Pos(), "a cached record is returned without error although it could not be decoded")
				}
			}
			c.Run(fn, r)
		}
	}
	var kinds []string
	for k := range shapes {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	prefix := map[string]string{}
	for _, k := range kinds {
		var hs []string
		for sh, at := range shapes[k] {
			hs = append(hs, sh+" ("+at+")")
			prefix[k] = sh
		}
		sort.Strings(hs)
		c.Check(len(hs) == 1, "same-key", k, 0, "one kind of record is cached under different keys, so a change or removal misses the copy that is read: %s", strings.Join(hs, " / "))
	}
	for i, a := range kinds {
		for _, b := range kinds[i+1:] {
			pa, pb := constPrefix(prefix[a]), constPrefix(prefix[b])
			c.Check(!strings.HasPrefix(pa, pb) && !strings.HasPrefix(pb, pa), "distinct-keys", a+" and "+b, 0, "keys %s and %s can be the same for records named alike: one kind is returned for the other", prefix[a], prefix[b])
		}
	}
	c.cacheAfterCommit(cts)
	c.cacheFill(cts)
	c.oneCache(cts)
	c.Min("same-key", 2)
	c.Min("distinct-keys", 1)
	c.Min("after-commit", 10)
	c.Min("right-record", 5)
	c.Min("drop-versions", 2)
	c.Min("fill-as-read", 2)
	c.Min("hit-only", 3)
	c.Min("one-cache", 1)
}

func constPrefix(shape string) string {
	if !strings.HasPrefix(shape, "'") {
		return ""
	}
	s := shape[1:]
	for _, m := range []string{" <", " ?"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[:i]
		}
	}
	return s
}

// commitFns are the wrappers that run a function in a write transaction.
func (c *Ctx) commitFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range c.callersOf(isWriteTx) {
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
				out[fn] = true
			}
		}
	}
	return out
}

// cacheOp recognises an operation on a record cache behind an interface: the receiver is a field of the repository.
func (c *Ctx) cacheOp(x *Exec, ci *CallInfo, isCache func(types.Type) bool) (verb, noun string) {
	if ci.Common == nil || len(ci.Args) == 0 {
		return "", ""
	}
	name := ""
	if ci.Common.IsInvoke() {
		if !isCache(ci.Common.Value.Type()) {
			return "", ""
		}
		// the services hold repositories behind interfaces that the caches implement as well
		if !c.cachePkgs[pkgPathOf(ci.Site.Parent())] {
			return "", ""
		}
		name = ci.Common.Method.Name()
	} else {
		f := ci.Common.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !isCache(f.Signature.Recv().Type()) {
			return "", ""
		}
		name = f.Name()
	}
	return verbNoun(name)
}

func cacheIface(cts []*types.Named) func(types.Type) bool {
	return func(t types.Type) bool {
		for _, nt := range cts {
			if deref(t) == types.Type(nt) {
				return true
			}
			if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && types.Implements(types.NewPointer(nt), it) {
				return true
			}
		}
		return false
	}
}

func (c *Ctx) cacheAfterCommit(cts []*types.Named) {
	isCache := cacheIface(cts)
	commits := c.commitFns()
	isCommit := func(ci *CallInfo) bool {
		f := ci.Common.StaticCallee()
		return f != nil && commits[f] || isWriteTx(ci.Name)
	}
	methods := append(c.storeMethods(msUsecase+".WritableRepo"), c.storeMethods(msUsecase+".BucketWritableRepo")...)
	done := map[*ssa.Function]bool{}
	hooks := func(r *Rule, fn *ssa.Function) {
		key := methodKey(fn)
		verb, noun := verbNoun(fn.Name())
		r.NoCallbacks = true
		r.MaxDepth = 5
		r.LoopEvents = true
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if isCommit(ci) {
				st.Emit(Event{Kind: "commit", Call: ci, Val: x.E.ErrRes(ci)})
				return ActOpaque
			}
			cv, cn := c.cacheOp(x, ci, isCache)
			if cv == "set" || cv == "drop" {
				cm := st.Last("commit")
				if cv == "set" {
					c.Check(cm != nil && x.nilness(st, cm.Val) == Yes, "committed-only", key, ci.Site.Pos(), "a record is cached although its change was not committed")
					if verb == "set" && cn == noun {
						as := ci.Args[1:]
						rec := as[len(as)-1].strip()
						okr := false
						for i := 1; i < len(x.Root.Params); i++ {
							if paramTerm(x, i) == rec {
								okr = true
							}
						}
						if len(as) > 1 {
							okr = okr && as[0].strip() == paramTerm(x, 1)
						}
						c.Check(okr, "right-record", key, ci.Site.Pos(), "what is cached is not the record that was committed under that name")
					}
				}
				st.Emit(Event{Kind: cv + ":" + cn, Call: ci, Args: ci.Args[1:]})
				return ActOpaque
			}
			if f := ci.Common.StaticCallee(); f != nil && st.Find("commit") == nil && len(ci.Args) > 1 && ci.Args[1].strip() == paramTerm(x, 1) {
				rs := f.Signature.Results()
				if rs.Len() > 0 && c.P.InRepo(f) {
					if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						st.Emit(Event{Kind: "last", Call: ci})
						return ActOpaque
					}
				}
			}
			return ActDefault
		}
	}
	for _, fn := range methods {
		if done[fn] {
			continue
		}
		done[fn] = true
		key := methodKey(fn)
		verb, noun := verbNoun(fn.Name())
		dropsAll := false
		r := &Rule{}
		hooks(r, fn)
		prev := r.OnCall
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			a := prev(x, st, ci)
			if cv, cn := c.cacheOp(x, ci, isCache); cv == "drop" && cn == "Version" && verb == "drop" && noun != "Version" && len(ci.Args) > 2 && ci.Args[1].strip() == paramTerm(x, 1) {
				dropsAll = true
				okb := st.Has("last") && st.Has("commit")
				i := ci.Args[2].strip()
				for f, v := range st.facts {
					if v && f.k == KBin && f.op == "<" && f.a[0].strip() == i && f.a[1].k != KBin && !isLen(f.a[1]) && f.a[1].k != KConst {
						okb = false
					}
				}
				c.Check(okb, "drop-versions", key, ci.Site.Pos(), "the cached versions are not dropped up to the last one there was before the removal")
			}
			return a
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			e := res[len(res)-1]
			cm := st.Last("commit")
			if cm == nil || x.nilness(st, cm.Val) == No || x.nilness(st, e) == No && e.strip() != cm.Val {
				return
			}
			if noun == "AllVersion" {
				return
			}
			hit := false
			for _, ev := range st.trace {
				if ev.Kind == "commit" {
					hit = false
				}
				if ev.Kind == "drop:"+noun || ev.Kind == "set:"+noun && verb == "set" {
					same := true
					if !strings.HasSuffix(typeNameOf(deref(ev.Args[0].strip().typ)), "msg.Bucket") {
						same = ev.Args[0].strip() == paramTerm(x, 1) || ev.Args[0].contains(paramTerm(x, 1))
					}
					if ev.Kind == "drop:"+noun && noun == "Version" && len(ev.Args) > 1 {
						same = same && (ev.Args[1].strip() == paramTerm(x, 2) || ev.Args[1].contains(paramTerm(x, 2)))
					}
					hit = hit || same
				}
			}
			c.Check(hit, "after-commit", key, at.Pos(), "success is reported while the cache still holds the record as it was before the change")
		}
		c.Run(fn, r)
		if verb == "drop" && noun != "Version" && strings.HasSuffix(noun, "etadata") || noun == "AllVersion" {
			c.Check(dropsAll, "drop-versions", key+" dropped", fn.Pos(), "the cached copies of the removed versions are never dropped")
		}
	}
	// other changes of cached records
	for _, fn := range c.entryRoots(c.callersOf(func(n string) bool {
		f := false
		for k := range commits {
			if n == calleeNameOf(k) {
				f = true
			}
		}
		return f
	})) {
		if done[fn] || commits[fn] || !c.cachePkgs[pkgPathOf(fn)] {
			continue
		}
		writes := map[string]bool{}
		r := c.storeRule(func(x *Exec, st *State, ops []boltOp, at ssa.Instruction) {
			for i := range ops {
				if ops[i].name == "Put" {
					if e := encOf(st, ops[i].val); e != nil {
						writes[typeNameOf(deref(e.Val.typ))] = true
					}
				}
			}
		})
		c.Run(fn, r)
		for t := range writes {
			noun := t[strings.LastIndex(t, ".")+1:]
			if noun == "Bucket" {
				noun = ""
			}
			drops := false
			r := &Rule{}
			hooks(r, fn)
			r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
				ok := false
				for _, ev := range st.trace {
					if ev.Kind == "commit" {
						ok = x.nilness(st, ev.Val) == Yes
					}
					if (ev.Kind == "drop:"+noun || ev.Kind == "set:"+noun) && ok {
						drops = true
					}
				}
			}
			c.Run(fn, r)
			c.Check(drops, "derived-change", methodKey(fn)+" "+t, fn.Pos(), "records are changed in the store but their cached copies stay as they were")
		}
	}
}

func calleeNameOf(fn *ssa.Function) string {
	n := pkgPathOf(fn) + "."
	if rv := fn.Signature.Recv(); rv != nil {
		n = typeNameOf(deref(rv.Type())) + "."
	}
	return n + fn.Name()
}

func (c *Ctx) cacheFill(cts []*types.Named) {
	isCache := cacheIface(cts)
	w := c.writesDB()
	fills := c.E.StaticUp(func(ci ssa.CallInstruction) bool {
		if !ci.Common().IsInvoke() || !isCache(ci.Common().Value.Type()) || !c.cachePkgs[pkgPathOf(ci.Parent())] {
			return false
		}
		v, _ := verbNoun(ci.Common().Method.Name())
		return v == "set"
	})
	gets := c.E.StaticUp(func(ci ssa.CallInstruction) bool {
		if !ci.Common().IsInvoke() || !isCache(ci.Common().Value.Type()) || !c.cachePkgs[pkgPathOf(ci.Parent())] {
			return false
		}
		v, _ := verbNoun(ci.Common().Method.Name())
		return v == "get"
	})
	for fn := range gets {
		fills[fn] = true
	}
	for _, fn := range c.sorted(fills) {
		if w[fn] || fn.Parent() != nil || fn.Synthetic != "" || !c.cachePkgs[pkgPathOf(fn)] || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() == nil || isOneOf(deref(fn.Signature.Recv().Type()), cts) {
			continue
		}
		key := methodKey(fn)
		r := &Rule{MaxDepth: 10}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			cv, _ := c.cacheOp(x, ci, isCache)
			if cv == "" {
				if strings.HasPrefix(ci.Name, "common/logs.") || strings.HasPrefix(ci.Name, "common/graceful.") {
					return ActOpaque
				}
				return ActDefault
			}
			if cv == "get" {
				st.Emit(Event{Kind: "cached", Call: ci, Val: x.E.ErrRes(ci)})
				return ActOpaque
			}
			if cv == "set" {
				rec := ci.Args[len(ci.Args)-1].strip()
				var dec *Event
				for i := range st.trace {
					if st.trace[i].Kind == "dec" && st.trace[i].Val == rec {
						dec = &st.trace[i]
					}
				}
				if dec == nil {
					// elements of a list that was read
					_, isElem := rec, rec.k == KLoad && rec.a[0].k == KIAddr || strings.Contains(rec.Pretty(), "range")
					c.Check(isElem, "fill-as-read", key, ci.Site.Pos(), "a read caches a record that it did not read from the store")
					return ActOpaque
				}
				c.Check(x.nilness(st, x.E.ErrRes(dec.Call)) == Yes || st.vars["view"] == "ok", "fill-as-read", key, ci.Site.Pos(), "a read caches a record that it could not read")
				if len(ci.Args) > 2 {
					_, args := boltCall(st, dec.Args[0])
					c.Check(len(args) > 1 && args[1].contains(ci.Args[1].strip()), "fill-as-read", key+" name", ci.Site.Pos(), "a read caches a record under another name than it was read by")
				}
				return ActOpaque
			}
			return ActOpaque
		}
		boltHooks(r)
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			for _, ev := range st.trace {
				if ev.Kind == "cached" && res[0].strip() == x.E.Res(ev.Call, 0).strip() && len(res) > 1 {
					e := res[len(res)-1]
					c.Check(x.nilness(st, ev.Val) == Yes || e.strip() == ev.Val.strip() || x.nilness(st, e) == No, "hit-only", key, at.Pos(), "what the cache returned is passed on although it had no such record")
				}
			}
		}
		r.OnCallback = func(x *Exec, st *State, ci *CallInfo, res []*Term) {
			if ci.Name == boltDot+"DB.View" && len(res) == 1 && x.nilness(st, res[0]) == Yes {
				st.vars["view"] = "ok"
			}
		}
		c.Run(fn, r)
	}
}

func isOneOf(t types.Type, cts []*types.Named) bool {
	for _, nt := range cts {
		if t == types.Type(nt) {
			return true
		}
	}
	return false
}

// oneCache: the constructors of the record caches get the same cache.
func (c *Ctx) oneCache(cts []*types.Named) {
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
			continue
		}
		var got []ssa.Value
		var pos token.Pos
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || f.Signature.Results().Len() != 1 || !isOneOf(deref(f.Signature.Results().At(0).Type()), cts) || f.Signature.Recv() != nil {
					continue
				}
				for _, a := range call.Call.Args {
					if strings.HasSuffix(typeNameOf(a.Type()), "cache.ICache") {
						for {
							if ch, ok := a.(*ssa.ChangeInterface); ok {
								a = ch.X
								continue
							}
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
								continue
							}
							break
						}
						if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
							a = u.X
						}
						got = append(got, a)
						pos = in.Pos()
					}
				}
			}
		}
		if len(got) < 2 {
			continue
		}
		same := true
		for _, v := range got[1:] {
			if v != got[0] {
				same = false
			}
		}
		c.Check(same, "one-cache", stableKey(fn), pos, "the record caches use different stores, only one of which is emptied when the database is replaced")
	}
}

func checkC33(c *Ctx) {
	c.Rule("numeric-sort", "version numbers are sorted by their numeric value")
	c.Rule("no-text-order", "no position of a cursor on the versions of an object is taken for an order of versions")
	c.Rule("sorted-first", "the first and last version are taken from a list that was sorted")
	c.Rule("by-position", "a page of versions is bounded by positions, never by version numbers, which have gaps")
	c.Rule("latest", "the version looked up when no number is given is the highest one")
	// sorting
	for _, fn := range c.P.Fns {
		if !strings.HasPrefix(pkgPathOf(fn), "metaserver/") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(ci.Common())
				if n != "sort.Slice" && n != "sort.SliceStable" {
					continue
				}
				v := ci.Common().Args[0]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				el, ok := v.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				eb, isB := el.Elem().Underlying().(*types.Basic)
				if !isB {
					continue
				}
				less := closureOf(ci.Common().Args[1])
				if less == nil {
					continue
				}
				num := eb.Info()&types.IsInteger != 0
				asc := ascending(less)
				if num {
					c.Check(asc, "numeric-sort", stableKey(fn), in.Pos(), "numbers are not sorted in ascending numeric order, although the first is taken for the oldest version and the last for the latest")
				}
			}
		}
	}
	// cursors on version buckets
	tx := map[string]bool{boltDot + "DB.View": true, boltDot + "DB.Update": true, boltDot + "DB.Batch": true}
	reach := c.E.StaticReaching(func(n string) bool { return tx[n] })
	var users []*ssa.Function
	for fn := range reach {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Signature.Recv() != nil && strings.HasPrefix(pkgPathOf(fn), "metaserver/internal/usecase/repo") {
			if o, ok := fn.Object().(*types.Func); ok && o.Exported() {
				users = append(users, fn)
			}
		}
	}
	sortFns(users)
	for _, fn := range users {
		key := methodKey(fn)
		r := &Rule{MaxDepth: 10}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasPrefix(ci.Name, "common/logs.") || strings.HasPrefix(ci.Name, "common/graceful.") || strings.Contains(ci.Name, "IMetaCache.") || strings.Contains(ci.Name, "CacheRepo.") {
				return ActOpaque
			}
			return ActDefault
		}
		boltHooks(r)
		prev := r.OnCall
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasPrefix(ci.Name, boltDot+"Cursor.") {
				n := strings.TrimPrefix(ci.Name, boltDot+"Cursor.")
				cn, ca := boltCall(st, ci.Args[0])
				if cn == "Bucket.Cursor" {
					p := boltPath(st, ca[0])
					versions := len(p) == 2 && c.isVersionRoot(p[0])
					bad := versions && (n == "Last" || n == "Prev" || n == "Seek")
					c.Check(!bad, "no-text-order", key, ci.Site.Pos(), "versions are taken in the order of their keys, which is that of text: version 9 comes after version 10")
				}
			}
			if (ci.Name == "sort.Slice" || ci.Name == "sort.SliceStable" || strings.HasPrefix(ci.Name, "slices.Sort") || ci.Name == "sort.Sort" || ci.Name == "sort.Ints") && len(ci.Args) > 0 {
				st.Emit(Event{Kind: "sorted", Val: ci.Args[0].strip()})
			}
			return prev(x, st, ci)
		}
		if strings.HasPrefix(fn.Name(), "List") {
			r.OnBranch = func(x *Exec, st *State) {
				for f := range st.facts {
					if f.k != KBin || f.op != "<" {
						continue
					}
					num, bound := false, false
					for _, a := range f.a {
						a.walk(func(s *Term) { num = num || s.k == KLoad && s.a[0].k == KIAddr && isUint(s.typ) })
						for i := 1; i < len(x.Root.Params); i++ {
							bound = bound || isUint(x.Root.Params[i].Type()) && a.contains(paramTerm(x, i))
						}
					}
					if bound {
						c.Check(!num, "by-position", key, fn.Pos(), "a version number is compared with the bound of a page: once old versions were removed, pages overlap and the last versions are on none")
					}
				}
			}
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			judge := func(t *Term, what string) {
				if t == nil {
					return
				}
				t.walk(func(s *Term) {
					if s.k != KLoad || s.a[0].k != KIAddr {
						return
					}
					sl := s.a[0].a[0].strip()
					if st0, ok := sl.typ.(*types.Slice); !ok || !isUint(st0.Elem()) {
						return
					}
					sorted := false
					for _, ev := range st.trace {
						if ev.Kind == "sorted" && ev.Val == sl {
							sorted = true
						}
					}
					c.Check(sorted, "sorted-first", key+" "+what, at.Pos(), "a version number is taken from a list that was not sorted")
				})
			}
			for i, t := range res {
				judge(t, "result "+string(rune('0'+i)))
			}
			for a, v := range st.mem {
				if a.k == KFAddr && (a.op == "FirstVersion" || a.op == "LastVersion") {
					judge(v, a.op)
				}
			}
		}
		c.Run(fn, r)
	}
	if nt := c.P.TypeByName(msUsecase + ".IMetadataService"); nt != nil {
		for _, t := range c.P.Implementers(nt.Underlying().(*types.Interface)) {
			fn := c.P.base(c.P.Method(t, "GetVersion"))
			key := methodKey(fn)
			r := &Rule{MaxDepth: 5}
			r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
				if !ci.Common.IsInvoke() || !strings.HasSuffix(ci.Name, "Repo."+ci.Common.Method.Name()) {
					return ActDefault
				}
				switch ci.Common.Method.Name() {
				case "GetLastVersionNumber":
					st.Emit(Event{Kind: "last", Call: ci, Val: x.E.Res(ci, 0)})
				case "GetVersion":
					n := ci.Args[2]
					ok := n.contains(paramTerm(x, 2)) && x.atLeast(st, paramTerm(x, 2), 1)
					for _, ev := range st.trace {
						ok = ok || ev.Kind == "last" && n == ev.Val && ev.Call.Args[1].strip() == paramTerm(x, 1)
					}
					c.Check(ok, "latest", key, ci.Site.Pos(), "the version looked up is neither the one asked for nor the highest one of the object")
				}
				return ActOpaque
			}
			c.Run(fn, r)
		}
	}
	c.Min("numeric-sort", 1)
	c.Min("sorted-first", 2)
	c.Min("by-position", 1)
	c.Min("latest", 1)
}

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// isVersionRoot: the bucket that AddVersion keeps versions in.
func (c *Ctx) isVersionRoot(t *Term) bool {
	return strings.Contains(t.Pretty(), "version")
}

func closureOf(v ssa.Value) *ssa.Function {
	switch f := v.(type) {
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function)
	case *ssa.Function:
		return f
	}
	return nil
}

// ascending: a comparison function that returns a[i] < a[j] (or a[j] > a[i]).
func ascending(less *ssa.Function) bool {
	if len(less.Params) != 2 {
		return false
	}
	idx := func(v ssa.Value) *ssa.Parameter {
		for {
			switch u := v.(type) {
			case *ssa.Convert:
				v = u.X
				continue
			case *ssa.UnOp:
				v = u.X
				continue
			case *ssa.IndexAddr:
				p, _ := u.Index.(*ssa.Parameter)
				return p
			}
			return nil
		}
	}
	for _, b := range less.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			op, ok := r.Results[0].(*ssa.BinOp)
			if !ok {
				return false
			}
			x, y := idx(op.X), idx(op.Y)
			if bt, ok := op.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
				return false
			}
			switch op.Op {
			case token.LSS, token.LEQ:
				if x != less.Params[0] || y != less.Params[1] {
					return false
				}
			case token.GTR, token.GEQ:
				if x != less.Params[1] || y != less.Params[0] {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func cstString(v constant.Value) (string, bool) {
	if v.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v), true
}

// atLeast: the path has established that the integer is n or more.
func (x *Exec) atLeast(st *State, t *Term, n int64) bool {
	if t.k == KConst {
		v, ok := constInt(t.cst)
		return ok && v >= n
	}
	for f, v := range st.facts {
		if f.k != KBin {
			continue
		}
		switch {
		case v && f.op == "<" && f.a[1] == t && f.a[0].k == KConst:
			if m, ok := constInt(f.a[0].cst); ok && m >= n-1 {
				return true
			}
		case !v && f.op == "<" && f.a[0] == t && f.a[1].k == KConst:
			if m, ok := constInt(f.a[1].cst); ok && m >= n {
				return true
			}
		case v && f.op == "==" && f.a[0] == t && f.a[1].k == KConst:
			if m, ok := constInt(f.a[1].cst); ok && m >= n {
				return true
			}
		}
	}
	return false
}
