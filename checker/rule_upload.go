package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	apiMeta   = "apiserver/internal/usecase.IMetaService"
	apiObj    = "apiserver/internal/usecase.IObjectService"
	apiBucket = "apiserver/internal/usecase/repo.IBucketRepo"
	apiSvc    = "apiserver/internal/usecase/service."
	apiWeb    = "apiserver/internal/usecase/webapi."
)

func init() {
	register("C16", "Every operation that records a version is explored on every path, entering helpers, closures and joined goroutines: the branch facts of the path must show that the data was stored without error, or located, and verified, before it is recorded, and that the record says what was stored.", checkC16)
	register("C18", "Every operation that records a version is explored on every path: a lookup whose failure is not known to mean \"not there\" must end it before anything is recorded, and what lookups deliver is used only after they were waited for.", checkC18)
	register("C19", "Every operation that stores object data or records a version is explored on every path: the bucket's settings must have been read without error and must allow it; removal of old versions is tied to the recorded one and to the bucket's settings.", checkC19)
}

// ifaceOps gives the operation of the named interface that a callee's full name stands for, called through the interface or an implementation.
func (c *Ctx) ifaceOps(iface string) func(name string) string {
	pre := map[string]bool{iface: true}
	ops := map[string]bool{}
	if n := c.P.TypeByName(iface); n != nil {
		if it, ok := n.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				ops[it.Method(i).Name()] = true
				// embedded interfaces
				full := FullName(it.Method(i))
				pre[full[:strings.LastIndex(full, ".")]] = true
			}
			for _, t := range c.P.Implementers(it) {
				pre[typeNameOf(deref(t))] = true
				for i := 0; i < it.NumMethods(); i++ {
					if m := c.P.Method(t, it.Method(i).Name()); m != nil {
						if o, ok := m.Object().(*types.Func); ok {
							full := FullName(o)
							pre[full[:strings.LastIndex(full, ".")]] = true
						}
					}
				}
			}
		}
	}
	return func(name string) string {
		i := strings.LastIndex(name, ".")
		if i < 0 || !pre[name[:i]] || !ops[name[i+1:]] {
			return ""
		}
		return name[i+1:]
	}
}

// uploads collects what the upload rules look at.
type uploads struct {
	c               *Ctx
	meta, obj, buck func(string) string
	commit, provide func(string) string
	creates         map[*ssa.Function]bool // reach the creation of temporary objects
	applied         map[*ssa.Function]bool
}

func (c *Ctx) newUploads() *uploads {
	u := &uploads{c: c, applied: map[*ssa.Function]bool{}, meta: c.ifaceOps(apiMeta), obj: c.ifaceOps(apiObj), buck: c.ifaceOps(apiBucket),
		commit: c.ifaceOps(apiSvc + "Committer"), provide: c.ifaceOps(apiSvc + "StreamProvider")}
	u.creates = c.E.StaticReaching(func(n string) bool { return n == apiWeb+"PostTmpObject" || n == apiWeb+"PutObject" })
	return u
}

// roots are the operations other packages call that record versions.
func (u *uploads) roots() []*ssa.Function {
	var own []*ssa.Function
	for _, f := range u.c.callersOf(func(n string) bool {
		m := u.meta(n)
		return m == "SaveMetadata" || m == "AddVersion" || m == "RemoveVersion"
	}) {
		if strings.HasPrefix(pkgPathOf(f), "apiserver/") && u.meta(methodName(f)) == "" {
			own = append(own, f)
		}
	}
	return u.c.entryRoots(own)
}

func methodName(f *ssa.Function) string {
	if o, ok := topFn(f).Object().(*types.Func); ok {
		return FullName(o)
	}
	return ""
}

// explore runs the operations; sink sees "open", "commit", "record" and "retain" before they happen.
func (u *uploads) explore(sink func(x *Exec, st *State, kind string, ci *CallInfo, key string)) {
	c := u.c
	opNames := func(n string) bool {
		return u.meta(n) != "" || u.buck(n) != "" || u.commit(n) != "" || u.provide(n) != "" || u.obj(n) == "LocateObject" ||
			n == "common/util/crypto.SHA256IO" || n == "common/response.CheckErrStatus" || strings.HasPrefix(n, "io.Copy")
	}
	reach := c.E.StaticReaching(opNames)
	for _, root := range u.roots() {
		key := methodKey(root)
		r := &Rule{Wide: 20}
		retains := func(ci *CallInfo) bool {
			hit := false
			if ci.Fn != nil {
				c.calls(ci.Fn, func(_ ssa.CallInstruction, n string) { hit = hit || u.meta(n) == "RemoveVersion" })
			}
			return hit
		}
		r.Relevant = c.E.Focus(reach, 15)
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			switch m := u.meta(ci.Name); m {
			case "":
			case "GetMetadata":
				st.Emit(Event{Kind: "getmeta", Call: ci, Val: ci.Sym})
				return ActPure
			case "SaveMetadata", "AddVersion":
				sink(x, st, "record", ci, key)
				st.Emit(Event{Kind: "record", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActPure
			case "RemoveVersion":
				sink(x, st, "retain", ci, key)
				return ActPure
			default:
				return ActPure
			}
			if u.buck(ci.Name) == "Get" {
				st.Emit(Event{Kind: "getbucket", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActPure
			}
			if u.commit(ci.Name) == "Commit" {
				if x.Eval(st, ci.Args[1]) != No {
					sink(x, st, "commit", ci, key)
				}
				st.Emit(Event{Kind: "commit", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			}
			if o := u.obj(ci.Name); o == "LocateObject" || o == "UniqueHash" {
				st.Emit(Event{Kind: o, Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			}
			switch {
			case ci.Name == "common/util/crypto.SHA256IO":
				st.Emit(Event{Kind: "digest", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			case ci.Name == "common/response.CheckErrStatus":
				st.Emit(Event{Kind: "is404", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			case ci.Name == "io.TeeReader":
				st.Emit(Event{Kind: "tee", Call: ci, Val: ci.Sym, Args: ci.Args})
			case strings.HasPrefix(ci.Name, "io.Copy"):
				sink(x, st, "copy", ci, key)
				st.Emit(Event{Kind: "copy", Call: ci, Val: ci.Sym, Args: ci.Args})
			case strings.HasSuffix(ci.Name, ".CurrentSize"):
				st.Emit(Event{Kind: "size", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			}
			if u.provide(ci.Name) == "PutStream" || u.opens(ci) {
				sink(x, st, "open", ci, key)
				st.Emit(Event{Kind: "open", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			}
			if u.provides(ci) {
				ev := Event{Kind: "provider", Call: ci, Val: ci.Sym}
				for _, a := range ci.Args {
					if isStreamOption(a) {
						ev.Args = append(ev.Args, x.field(st, a, "Hash"))
					}
				}
				st.Emit(ev)
				return ActEnter
			}
			for _, a := range ci.Args {
				if isFieldOf(a, "Ids") && ci.Fn != nil && !reach[ci.Fn] {
					st.Emit(Event{Kind: "readback", Call: ci, Val: ci.Sym, Args: ci.Args})
					return ActOpaque
				}
			}
			if u.resumes(ci) {
				st.Emit(Event{Kind: "resume", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActOpaque
			}
			if aside(ci.Name) || strings.HasSuffix(ci.Name, ".Close") {
				return ActOpaque
			}
			if u.applies(ci) {
				if u.ensures(ci.Fn) {
					st.Emit(Event{Kind: "applied", Call: ci, Val: ci.Sym, Args: ci.Args})
				}
				return ActOpaque
			}
			return ActDefault
		}
		r.OnBranch = u.writable
		c.dgHooks(r, retains)
		c.Run(root, r)
	}
}

// aside: helpers that only log, recover or convert.
func aside(name string) bool {
	if identityFns[name] {
		return false
	}
	for _, p := range []string{"common/util.", "common/logs.", "common/graceful.", "common/response."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// applies: the callee applies the settings of a bucket to a version.
func (u *uploads) applies(ci *CallInfo) bool {
	if ci.Fn == nil {
		return false
	}
	b, v := false, false
	for _, p := range ci.Fn.Params {
		switch typeNameOf(deref(p.Type())) {
		case "apiserver/internal/entity.Bucket":
			b = true
		case "apiserver/internal/entity.Version":
			v = true
		}
	}
	return b && v && len(ci.Fn.Blocks) > 0 && len(ci.Fn.Params) == 3
}

// ensures: where the bucket forces compression, the version is compressed when the function returns.
func (u *uploads) ensures(fn *ssa.Function) bool {
	if v, ok := u.applied[fn]; ok {
		return v
	}
	okd := true
	r := &Rule{}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		var b, v *Term
		for i, p := range fn.Params {
			switch typeNameOf(deref(p.Type())) {
			case "apiserver/internal/entity.Bucket":
				b = paramTerm(x, i)
			case "apiserver/internal/entity.Version":
				v = paramTerm(x, i)
			}
		}
		if x.Eval(st, x.field(st, b, "Compress")) != No && x.Eval(st, x.field(st, v, "Compress")) != Yes {
			okd = false
		}
	}
	u.c.Run(fn, r)
	u.applied[fn] = okd
	return okd
}

// compressed: the compression a hash is computed with follows from the bucket's settings.
func (u *uploads) compressed(x *Exec, st *State, b, hash *Event) bool {
	bk := x.E.Res(b.Call, 0)
	if x.Eval(st, x.field(st, bk, "Compress")) == No || x.Eval(st, hash.Args[5]) == Yes {
		return true
	}
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "applied" || ev.Args[0].strip() != bk || st.Index(ev) > st.Index(hash) {
			continue
		}
		if x.field(st, ev.Args[1], "Compress").strip() == hash.Args[5].strip() {
			return true
		}
	}
	return false
}

// opens: the callee creates temporary objects and hands out what commits them.
func (u *uploads) opens(ci *CallInfo) bool {
	if ci.Fn == nil || !u.creates[ci.Fn] {
		return false
	}
	res := ci.Common.Signature().Results()
	n := u.c.P.TypeByName(apiSvc + "Committer")
	if res.Len() == 0 || n == nil {
		return false
	}
	return types.Implements(res.At(0).Type(), n.Underlying().(*types.Interface)) && res.Len() == 2 // not those that also choose servers
}

func (u *uploads) provides(ci *CallInfo) bool {
	res := ci.Common.Signature().Results()
	return ci.Fn != nil && res.Len() == 1 && typeNameOf(res.At(0).Type()) == apiSvc+"StreamProvider"
}

// resumes: the callee hands out what commits temporary objects that exist already.
func (u *uploads) resumes(ci *CallInfo) bool {
	res := ci.Common.Signature().Results()
	n := u.c.P.TypeByName(apiSvc + "Committer")
	return ci.Fn != nil && !u.creates[ci.Fn] && res.Len() == 2 && n != nil && types.Implements(res.At(0).Type(), n.Underlying().(*types.Interface))
}

// writable notes the buckets a path found to be writable, before the knowledge is forgotten.
func (u *uploads) writable(x *Exec, st *State) {
	for i := range st.trace {
		ev := st.trace[i]
		if ev.Kind == "getbucket" && x.nilness(st, lastRes(x, &ev)) == Yes && x.Eval(st, x.field(st, x.E.Res(ev.Call, 0), "Readonly")) == No {
			ev.Kind = "writable"
			st.Emit(ev)
		}
	}
}

func lastRes(x *Exec, ev *Event) *Term {
	t := x.E.ErrRes(ev.Call)
	if t != nil && ev.Sym != nil && ev.Sym != ev.Call.Sym {
		t = x.E.T.subst(t, ev.Call.Sym, ev.Sym)
	}
	return t
}

// version gives the version record an operation is asked to record.
func (u *uploads) version(x *Exec, st *State, ci *CallInfo) *Term {
	last := ci.Args[len(ci.Args)-1].strip()
	if u.meta(ci.Name) == "AddVersion" {
		return last
	}
	vs := x.field(st, last, "Versions")
	if el := x.Elems(st, vs); len(el) > 0 && el[0] != vs {
		return el[0].strip()
	}
	a := x.E.T.mk(Term{k: KIAddr, op: "", a: []*Term{vs, x.E.T.ConstVal(constant.MakeInt64(0), types.Typ[types.Int])}})
	return x.load(st, a, elemOf(vs.typ), nil, 0).strip()
}

func isFieldOf(t *Term, field string, of ...string) bool {
	t = t.strip()
	var base *Term
	if t.k == KLoad && t.a[0].k == KFAddr && t.a[0].op == field {
		base = t.a[0].a[0]
	} else if t.k == KField && t.op == field {
		base = t.a[0]
	}
	if base == nil {
		return false
	}
	if len(of) == 0 {
		return true
	}
	if base.typ == nil {
		return false
	}
	n := typeNameOf(deref(base.typ))
	for _, o := range of {
		if n == o {
			return true
		}
	}
	return false
}

func checkC16(c *Ctx) {
	c.Rule("stored-first", "a version is recorded only on paths on which its data was committed without error, or located on storage nodes")
	c.Rule("verified-first", "with checksums on, uploaded data is committed only after the digest of what was written equalled the digest the client gave")
	c.Rule("written-first", "uploaded data is committed only after all of it was written without error")
	c.Rule("recorded-as-stored", "the recorded version carries the hash and locations its data was stored or located under")
	c.Rule("continues", "a resumed upload is continued only if it was found to end where the continuation starts")
	c.Rule("token", "the token of a resumable upload says where, under which names and with which hash and digest its data is stored")
	c.Rule("hash-of-layout", "the recorded hash was computed with the version's own strategy, shard numbers and compression")
	u := c.newUploads()
	u.explore(func(x *Exec, st *State, kind string, ci *CallInfo, key string) {
		switch kind {
		case "record":
			u.checkRecord(x, st, ci, key)
		case "commit":
			u.checkCommit(x, st, ci, key)
		case "copy":
			u.checkContinue(x, st, ci, key)
		case "open":
			for _, a := range ci.Args {
				if !isStreamOption(a) {
					continue
				}
				d := x.field(st, a, "Digest").strip()
				h := u.hashOf(x, st, x.field(st, a, "Hash").strip())
				c.Check(h != nil && h.Args[1].strip() == d, "token", key+" digest", ci.Site.Pos(), "the digest kept for verifying the upload (%s) is not the one its content hash is computed from", d.Pretty())
			}
		}
	})
	u.checkToken()
	c.Rule("digest", "the digest of what was read is given only if all of it was read (and passed on) without error")
	if fn := c.P.FnByName("common/util/crypto.SHA256IO"); fn != nil {
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasPrefix(ci.Name, "io.Copy") {
				st.Emit(Event{Kind: "copy", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActPure
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if v := cstOf(res[0].strip()); v != nil && v.Kind() == constant.String && constant.StringVal(v) == "" {
				return
			}
			cp := st.Last("copy")
			okd := cp != nil && x.nilness(st, lastRes(x, cp)) == Yes && cp.Args[1].strip() == paramTerm(x, 0)
			c.Check(okd, "digest", methodName(fn), at.Pos(), "a digest is returned although reading its input may have failed")
		}
		c.Run(fn, r)
	}
	c.Min("digest", 1)
	c.Min("stored-first", 3)
	c.Min("verified-first", 2)
	c.Min("written-first", 2)
	c.Min("recorded-as-stored", 3)
	c.Min("hash-of-layout", 1)
	c.Min("continues", 1)
	c.Min("token", 4)
}

func (u *uploads) checkRecord(x *Exec, st *State, ci *CallInfo, key string) {
	c := u.c
	op := key + " " + u.meta(ci.Name)
	pos := ci.Site.Pos()
	var by *Event
	for i := range st.trace {
		ev := &st.trace[i]
		switch ev.Kind {
		case "LocateObject":
			if x.Eval(st, x.E.Res(ev.Call, 1)) == Yes {
				by = ev
			}
		case "commit":
			if x.Eval(st, ev.Args[1]) == Yes && x.nilness(st, lastRes(x, ev)) == Yes {
				by = ev
			}
		}
	}
	if !c.Check(by != nil, "stored-first", op, pos, "a version is recorded on a path on which its data was neither committed without error nor located") {
		return
	}
	v := u.version(x, st, ci)
	if v == nil {
		return
	}
	loc, hash := x.field(st, v, "Locate").strip(), x.field(st, v, "Hash").strip()
	if by.Kind == "LocateObject" {
		c.Check(loc == x.E.Res(by.Call, 0), "recorded-as-stored", op+" located locations", pos, "the version is recorded with other locations (%s) than those it was found at", loc.Pretty())
		c.Check(hash == by.Args[1].strip(), "recorded-as-stored", op+" located hash", pos, "the version is recorded under another hash (%s) than the one that was located (%s)", hash.Pretty(), by.Args[1].Pretty())
	} else {
		okl, okh := false, false
		for i := range st.trace {
			ev := &st.trace[i]
			switch ev.Kind {
			case "open":
				for _, a := range ev.Args {
					okl = okl || a.strip() == loc
				}
			case "provider":
				for _, a := range ev.Args {
					okh = okh || a.strip() == hash
				}
			case "resume":
				// continued from a token: what the token says
				tok := x.E.Res(ev.Call, 0)
				okl = okl || loc.about(tok) && isFieldOf(loc, "Servers")
				okh = okh || hash.about(tok) && isFieldOf(hash, "Hash")
			}
		}
		c.Check(okl, "recorded-as-stored", op+" locations", pos, "the version is recorded with locations (%s) its data was not written to", loc.Pretty())
		c.Check(okh, "recorded-as-stored", op+" hash", pos, "the version is recorded under a hash (%s) its data was not written under", hash.Pretty())
	}
	if ev := u.hashOf(x, st, hash); ev != nil {
		for i, f := range []string{"StoreStrategy", "DataShards", "ParityShards", "Compress"} {
			a, b := x.field(st, v, f).strip(), ev.Args[2+i].strip()
			same := a == b || x.Eval(st, x.E.T.bin("==", a, b, types.Typ[types.Bool])) == Yes
			c.Check(same, "hash-of-layout", op+" "+f, pos, "the version is recorded with %s %s, but its hash was computed with %s", f, a.Pretty(), b.Pretty())
		}
	}
}

// hashOf finds the computation of a hash.
func (u *uploads) hashOf(x *Exec, st *State, hash *Term) *Event {
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "UniqueHash" && x.E.Res(ev.Call, 0) == hash {
			return ev
		}
	}
	return nil
}

func isStreamOption(t *Term) bool {
	t = t.strip()
	return t.typ != nil && typeNameOf(deref(t.typ)) == apiSvc+"StreamOption"
}

func (u *uploads) checkCommit(x *Exec, st *State, ci *CallInfo, key string) {
	c := u.c
	pos := ci.Site.Pos()
	off := false
	for f, v := range st.facts {
		if !v && factOnField(f, "Checksum") {
			off = true
		}
	}
	recv := ci.Args[0].strip()
	verified := false
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "digest" {
			continue
		}
		d := resOf(x, ev)
		for f, v := range st.facts {
			if !v || f.k != KBin || f.op != "==" {
				continue
			}
			for j := 0; j < 2; j++ {
				o := f.a[1-j].strip()
				if f.a[j].strip() == d && (isFieldOf(o, "Hash", "apiserver/internal/entity.PutReq") || isFieldOf(o, "Digest", apiSvc+"resumeToken")) && u.hashed(x, st, ev, recv) {
					verified = true
				}
			}
		}
	}
	c.Check(off || verified, "verified-first", key, pos, "uploaded data is committed although checksums may be on and the digest of what was written was not found equal to the requested one")
	written := false
	for i := range st.trace {
		ev := &st.trace[i]
		switch ev.Kind {
		case "copy":
			if x.partOf(ev.Args[0], recv) {
				e := lastRes(x, ev)
				written = written || x.nilness(st, e) == Yes || u.sizeReached(st, x, ev)
			}
		case "digest":
			// a failed write or read makes the digest empty
			if verified && u.tees(x, st, ev, recv) {
				written = true
			}
		}
	}
	c.Check(written, "written-first", key, pos, "uploaded data is committed although writing it may have failed or stopped early")
}

// checkContinue: data is appended to a resumed upload only at the offset it has reached.
func (u *uploads) checkContinue(x *Exec, st *State, ci *CallInfo, key string) {
	var from *Event
	for i := range st.trace {
		if ev := &st.trace[i]; ev.Kind == "resume" && ci.Args[0].strip().about(x.E.Res(ev.Call, 0)) {
			from = ev
		}
	}
	if from == nil {
		return
	}
	okd := false
	if sz := st.Last("size"); sz != nil && x.nilness(st, lastRes(x, sz)) == Yes && sz.Args[0].strip().about(x.E.Res(from.Call, 0)) {
		n := resOf(x, sz)
		for f, v := range st.facts {
			if v && f.k == KBin && f.op == "==" && (f.a[0].strip() == n && !f.a[1].contains(n) || f.a[1].strip() == n) {
				okd = true
			}
		}
	}
	u.c.Check(okd, "continues", key, ci.Site.Pos(), "data is appended to a resumed upload whose current size was not found equal to the offset it is meant for")
}

// checkToken: what a new resumable upload notes down is what it was opened with.
func (u *uploads) checkToken() {
	c := u.c
	for _, fn := range c.P.Fns {
		res := fn.Signature.Results()
		if fn.Parent() != nil || fn.Blocks == nil || res.Len() != 2 || !u.creates[fn] || fieldType(deref(res.At(0).Type()), "resumeToken") == types.Typ[types.Invalid] {
			continue
		}
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if u.opens(ci) {
				return ActPure
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if x.nilness(st, res[1]) == No {
				return
			}
			var opt *Term
			for i, p := range fn.Params {
				if typeNameOf(deref(p.Type())) == apiSvc+"StreamOption" {
					opt = paramTerm(x, i)
				}
			}
			if opt == nil {
				return
			}
			tok := x.field(st, res[0], "resumeToken")
			for _, f := range [][2]string{{"Hash", "Hash"}, {"Digest", "Digest"}, {"Name", "Name"}, {"Bucket", "Bucket"}, {"Size", "Size"}, {"Compress", "Compress"}, {"Servers", "Locates"}} {
				a, b := x.field(st, tok, f[0]).strip(), x.field(st, opt, f[1]).strip()
				c.Check(a == b, "token", methodName(fn)+" "+f[0], at.Pos(), "the token notes %s as %s, the upload was opened with %s", f[0], a.Pretty(), b.Pretty())
			}
		}
		c.Run(fn, r)
	}
}

// about: the term is derived from another one, also through contents that an opaque call may have changed.
func (t *Term) about(o *Term) bool { return t.contains(o) || strings.Contains(t.key, o.key) }

// partOf: a stream handed over is the one (or embeds the one) that is committed.
func (x *Exec) partOf(a, recv *Term) bool {
	a, recv = a.strip(), recv.strip()
	return a == recv || recv.about(a)
}

func (u *uploads) tees(x *Exec, st *State, dig *Event, recv *Term) bool {
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "tee" && dig.Args[0].strip() == resOf(x, ev) && x.partOf(ev.Args[1], recv) {
			return true
		}
	}
	return false
}

// hashed: the digest is that of what was written to the stream, or of what was read back from its temporary objects.
func (u *uploads) hashed(x *Exec, st *State, dig *Event, recv *Term) bool {
	if u.tees(x, st, dig, recv) {
		return true
	}
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "readback" && dig.Args[0].strip() == resOf(x, ev) {
			for _, a := range ev.Args {
				if isFieldOf(a, "Ids") {
					return true
				}
			}
		}
	}
	return false
}

// sizeReached: the path found what is uploaded so far neither smaller nor larger than the intended size.
func (u *uploads) sizeReached(st *State, x *Exec, cp *Event) bool {
	n := x.E.Res(cp.Call, 0)
	less, more := false, false
	for f, v := range st.facts {
		if f.k != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.a[i], f.a[1-i]
			if !a.contains(n) || !isFieldOf(b, "Size") {
				continue
			}
			switch {
			case f.op == "==" && v:
				return true
			case f.op == "<" && !v && i == 0:
				less = true
			case f.op == "<" && !v && i == 1:
				more = true
			}
		}
	}
	return less && more
}

func checkC18(c *Ctx) {
	c.Rule("absent-only", "when the lookup of an object failed, a version is recorded only if the failure is known to mean that the object is not there")
	c.Rule("bucket-known", "a version is recorded only after its bucket was looked up without error")
	c.Rule("waited", "nothing is recorded before all lookups that were started have been waited for")
	u := c.newUploads()
	u.explore(func(x *Exec, st *State, kind string, ci *CallInfo, key string) {
		if kind != "record" {
			return
		}
		op := key + " " + u.meta(ci.Name)
		pos := ci.Site.Pos()
		g := st.Last("getmeta")
		okd := false
		if g != nil {
			e := lastRes(x, g)
			okd = x.nilness(st, e) == Yes
			for i := range st.trace {
				ev := &st.trace[i]
				if ev.Kind == "is404" && len(ev.Args) == 2 && ev.Args[1].strip() == e.strip() && isInt(ev.Args[0], 404) && x.Eval(st, resOf(x, ev)) == Yes {
					okd = true
				}
			}
			for f, v := range st.facts {
				if v && f.contains(e) && (f.k == KPure && f.op == "errors.Is" || f.k == KBin && f.op == "==") && strings.Contains(f.Pretty(), "NotFound") {
					okd = true
				}
			}
		}
		c.Check(okd, "absent-only", op, pos, "a version is recorded although looking up the object may have failed for another reason than its absence")
		b := st.Last("getbucket")
		c.Check(b != nil && x.nilness(st, lastRes(x, b)) == Yes, "bucket-known", op, pos, "a version is recorded although looking up its bucket may have failed")
		c.Check(!st.Has("todo"), "waited", op, pos, "a version is recorded while lookups are still running")
	})
	c.Rule("status-test", "an error counts as having a status only if it carries exactly that status")
	if fn := c.P.FnByName("common/response.CheckErrStatus"); fn != nil {
		r := &Rule{}
		r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
			if strings.HasSuffix(ci.Name, ".GetStatus") {
				st.Emit(Event{Kind: "status", Call: ci, Val: ci.Sym, Args: ci.Args})
				return ActPure
			}
			return ActDefault
		}
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			if x.Eval(st, res[0]) == No {
				return
			}
			okd := false
			if ev := st.Last("status"); ev != nil && ev.Args[0].strip().about(paramTerm(x, 1)) {
				same := x.E.T.bin("==", resOf(x, ev), paramTerm(x, 0), types.Typ[types.Bool])
				okd = res[0].strip() == same || x.Eval(st, same) == Yes
			}
			c.Check(okd, "status-test", methodName(fn), at.Pos(), "an error may count as having a status (%s) it does not carry", res[0].Pretty())
		}
		c.Run(fn, r)
	}
	c.Min("status-test", 1)
	c.Min("absent-only", 3)
	c.Min("bucket-known", 3)
	c.Min("waited", 3)
}

func checkC19(c *Ctx) {
	c.Rule("writable", "object data is stored and versions are recorded only on paths on which the bucket was read without error and found not to be read-only")
	c.Rule("same-bucket", "the bucket whose settings were checked is the one the version is recorded in")
	c.Rule("compress", "in a bucket that forces compression the content hash is computed for compressed storage")
	c.Rule("retention-after", "an old version is removed only after the new one was recorded without error, in the same object")
	c.Rule("retention-first", "the version that is removed is the first one of the object as it was read")
	c.Rule("retention-allowed", "an old version is removed only if the bucket does not keep versions or already holds as many as it may")
	u := c.newUploads()
	bucketOf := func(x *Exec, st *State) *Event {
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind == "writable" {
				return ev
			}
		}
		return nil
	}
	sameName := func(x *Exec, st *State, t, want *Term) bool {
		t, want = t.strip(), want.strip()
		if t == want || x.Eval(st, x.E.T.bin("==", t, want, types.Typ[types.Bool])) == Yes {
			return true
		}
		// the name as it is stored in the object that was looked up under it
		for i := range st.trace {
			ev := &st.trace[i]
			if ev.Kind == "getmeta" {
				for j, f := range []string{"Name", "Bucket"} {
					if x.field(st, x.E.Res(ev.Call, 0), f).strip() == t && ev.Call.Args[1+j].strip() == want {
						return true
					}
				}
			}
		}
		return false
	}
	u.explore(func(x *Exec, st *State, kind string, ci *CallInfo, key string) {
		pos := ci.Site.Pos()
		switch kind {
		case "open", "commit", "record":
			k := key + " " + kind
			if kind == "record" {
				k = key + " " + u.meta(ci.Name)
			}
			b := bucketOf(x, st)
			if !c.Check(b != nil, "writable", k, pos, "%s on a path on which the bucket was not found to be writable", map[string]string{"open": "object data is stored", "commit": "object data is committed", "record": "a version is recorded"}[kind]) {
				return
			}
			if kind == "record" {
				var to *Term
				if u.meta(ci.Name) == "AddVersion" {
					to = ci.Args[2]
				} else {
					to = x.field(st, ci.Args[1], "Bucket")
				}
				c.Check(sameName(x, st, to, b.Args[1]), "same-bucket", k, pos, "the version is recorded in bucket %s, but the settings checked are those of %s", to.Pretty(), b.Args[1].Pretty())
				if v := u.version(x, st, ci); v != nil {
					if h := u.hashOf(x, st, x.field(st, v, "Hash").strip()); h != nil {
						c.Check(u.compressed(x, st, b, h), "compress", k, pos, "the bucket may force compression, but the data is not known to be compressed")
					}
				}
			} else if kind == "open" {
				for i := range st.trace {
					if h := &st.trace[i]; h.Kind == "UniqueHash" {
						c.Check(u.compressed(x, st, b, h), "compress", k, pos, "the bucket may force compression, but the data is not known to be compressed")
					}
				}
			}
		case "retain":
			u.checkRetain(x, st, ci, key, pos)
		}
	})
	c.Min("writable", 6)
	c.Min("same-bucket", 3)
	c.Min("compress", 3)
	c.Min("retention-after", 1)
	c.Min("retention-first", 1)
	c.Min("retention-allowed", 1)
}

func (u *uploads) checkRetain(x *Exec, st *State, ci *CallInfo, key string, pos token.Pos) {
	c := u.c
	rec := st.Last("record")
	okd := rec != nil && u.meta(rec.Call.Name) == "AddVersion" && x.nilness(st, lastRes(x, rec)) == Yes &&
		ci.Args[1].strip() == rec.Args[1].strip() && ci.Args[2].strip() == rec.Args[2].strip()
	c.Check(okd, "retention-after", key, pos, "an old version is removed although the new one was not recorded in the same object without error")
	g := st.Last("getmeta")
	var md *Term
	if g != nil {
		md = x.E.Res(g.Call, 0)
	}
	isMd := func(t *Term, f string) bool {
		return md != nil && t.strip().contains(md) && isFieldOf(t, f)
	}
	v := ci.Args[3].strip()
	c.Check(isMd(v, "FirstVersion"), "retention-first", key, pos, "the version that is removed (%s) is not the first one of the object as read", ci.Args[3].Pretty())
	allowed := false
	for f, val := range st.facts {
		if !val && isFieldOf(f, "Versioning") {
			allowed = true
		}
		if f.k == KBin && f.op == "<" && !val && isMd(f.a[0], "Total") && isFieldOf(f.a[1], "VersionRemains") {
			allowed = true
		}
		if f.k == KBin && f.op == "<" && val && isFieldOf(f.a[0], "VersionRemains") && isMd(f.a[1], "Total") {
			allowed = true
		}
	}
	c.Check(allowed, "retention-allowed", key, pos, "an old version is removed although the bucket may keep versions and may hold fewer than it may")
}
