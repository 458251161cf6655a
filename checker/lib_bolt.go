package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of the embedded store: which bucket a handle denotes, which keys and
// records an operation touches, and whether it ran in a committed transaction.

const boltDot = "go.etcd.io/bbolt."

// boltPath lists the names leading from the transaction to a bucket handle.
func boltPath(st *State, t *Term) []*Term {
	n, args := boltCall(st, t)
	if args == nil || len(args) < 2 {
		return nil
	}
	switch n {
	case "Tx.Bucket", "Tx.CreateBucket", "Tx.CreateBucketIfNotExists":
		return []*Term{args[1].strip()}
	case "Bucket.Bucket", "Bucket.CreateBucket", "Bucket.CreateBucketIfNotExists":
		p := boltPath(st, args[0])
		if p == nil {
			return nil
		}
		return append(append([]*Term(nil), p...), args[1].strip())
	}
	return nil
}

// boltCall is the store operation on this path that a value is the result of.
func boltCall(st *State, t *Term) (string, []*Term) {
	t = t.strip()
	if t == nil || t.k != KRes {
		return "", nil
	}
	for i := len(st.trace) - 1; i >= 0; i-- {
		ev := &st.trace[i]
		if strings.HasPrefix(ev.Kind, "bolt:") && ev.Sym == t.a[0] {
			return strings.TrimPrefix(ev.Kind, "bolt:"), ev.Args
		}
	}
	return "", nil
}

// boltOp is one store operation on a path.
type boltOp struct {
	name string // Put, Delete, DeleteBucket, ...
	path []*Term
	key  *Term
	val  *Term
	ev   *Event
}

// fields of a record snapshotted by the enc/dec events
func recFields(t types.Type) []string {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var fs []string
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i).Name())
	}
	return fs
}

// codec recognises msgp encoders and decoders.
func codec(ci *CallInfo) (enc, dec bool) {
	if ci.Obj == nil {
		return
	}
	switch ci.Obj.Name() {
	case "MarshalMsg":
		return true, false
	case "UnmarshalMsg":
		return false, true
	}
	return
}

// boltRule returns hooks that record store operations, encodings and decodings.
func boltHooks(r *Rule) {
	r.LoopEvents = true
	prev := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if strings.HasPrefix(ci.Name, boltDot) {
			st.Emit(Event{Kind: "bolt:" + strings.TrimPrefix(ci.Name, boltDot), Call: ci, Args: ci.Args, Pos: ci.Site.Pos()})
		}
		if enc, _ := codec(ci); enc && len(ci.Args) > 0 {
			rec := ci.Args[0].strip()
			ev := Event{Kind: "enc", Call: ci, Val: rec, Pos: ci.Site.Pos()}
			for _, f := range recFields(rec.typ) {
				ev.Args = append(ev.Args, x.field(st, rec, f))
			}
			st.Emit(ev)
			return ActOpaque
		}
		if _, dec := codec(ci); dec {
			return ActOpaque
		}
		if prev != nil {
			return prev(x, st, ci)
		}
		return ActDefault
	}
	prevA := r.AfterOpaque
	r.AfterOpaque = func(x *Exec, st *State, ci *CallInfo) []*State {
		if _, dec := codec(ci); dec && len(ci.Args) > 1 {
			rec := ci.Args[0].strip()
			ev := Event{Kind: "dec", Call: ci, Val: rec, Pos: ci.Site.Pos()}
			ev.Args = append(ev.Args, ci.Args[1])
			for _, f := range recFields(rec.typ) {
				ev.Args = append(ev.Args, x.field(st, rec, f))
			}
			st.Emit(ev)
		}
		if ci.Name == boltDot+"Tx.Writable" {
			for i := len(st.trace) - 1; i >= 0; i-- {
				k := st.trace[i].Kind
				if k == "bolt:DB.Update" || k == "bolt:DB.Batch" || k == "bolt:DB.View" {
					x.Assume(st, x.E.Res(ci, 0), k != "bolt:DB.View")
					break
				}
			}
		}
		if strings.HasSuffix(ci.Name, ".CreateBucketIfNotExists") && strings.HasPrefix(ci.Name, boltDot) && len(ci.Args) > 1 {
			// creating a bucket of a fixed name in a write transaction does not fail
			if k := ci.Args[1].strip(); k.k == KConst && k.cst != nil && k.op != `""` {
				x.Assume(st, x.E.T.bin("==", x.E.Res(ci, 0), x.E.T.Nil(), types.Typ[types.Bool]), false)
				x.Assume(st, x.E.T.bin("==", x.E.Res(ci, 1), x.E.T.Nil(), types.Typ[types.Bool]), true)
			}
		}
		if prevA != nil {
			return prevA(x, st, ci)
		}
		return nil
	}
}

func (ev *Event) field(name string) *Term {
	fs := recFields(ev.Val.typ)
	off := 0
	if ev.Kind == "dec" {
		off = 1
	}
	for i, f := range fs {
		if f == name && i+off < len(ev.Args) {
			return ev.Args[i+off]
		}
	}
	return nil
}

// boltOps extracts the store operations of a trace, in order.
func boltOps(st *State) []boltOp {
	var out []boltOp
	for i := range st.trace {
		ev := &st.trace[i]
		if !strings.HasPrefix(ev.Kind, "bolt:") {
			continue
		}
		n := strings.TrimPrefix(ev.Kind, "bolt:")
		op := boltOp{name: n, ev: ev}
		switch {
		case strings.HasPrefix(n, "Bucket."), strings.HasPrefix(n, "Tx."):
			op.name = n[strings.Index(n, ".")+1:]
			if strings.HasPrefix(n, "Bucket.") {
				op.path = boltPath(st, ev.Args[0])
			}
			if len(ev.Args) > 1 {
				op.key = ev.Args[1].strip()
			}
			if len(ev.Args) > 2 {
				op.val = ev.Args[2].strip()
			}
		}
		out = append(out, op)
	}
	return out
}

// encOf finds the encoding event behind bytes written to the store.
func encOf(st *State, v *Term) *Event {
	if v == nil {
		return nil
	}
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind == "enc" && v.contains(ev.Sym) {
			return ev
		}
	}
	return nil
}

// storedRecord finds the decoding of the record last read under path and key.
func storedRecord(st *State, path []*Term, key *Term) *Event {
	var out *Event
	for i := range st.trace {
		ev := &st.trace[i]
		if ev.Kind != "dec" {
			continue
		}
		if n, args := boltCall(st, ev.Args[0]); n == "Bucket.Get" && samePath(boltPath(st, args[0]), path) && args[1].strip() == key {
			out = ev
		}
	}
	return out
}

func samePath(a, b []*Term) bool {
	if len(a) != len(b) || a == nil {
		return false
	}
	for i := range a {
		if a[i].strip() != b[i].strip() {
			return false
		}
	}
	return true
}

func pathStr(p []*Term) string {
	var s []string
	for _, t := range p {
		s = append(s, t.Pretty())
	}
	return strings.Join(s, "/")
}

// storeMethods lists the methods of concrete types implementing the interface that write the store.
func (c *Ctx) storeMethods(iface string) []*ssa.Function {
	nt := c.P.TypeByName(iface)
	if nt == nil {
		return nil
	}
	it := nt.Underlying().(*types.Interface)
	w := c.writesDB()
	var out []*ssa.Function
	for _, t := range c.P.Implementers(it) {
		for i := 0; i < it.NumMethods(); i++ {
			fn := c.P.Method(t, it.Method(i).Name())
			if fn == nil {
				continue
			}
			if f := c.E.P.base(fn); w[f] {
				out = append(out, f)
			}
		}
	}
	sortFns(out)
	var uniq []*ssa.Function
	for i, f := range out {
		if i == 0 || out[i-1] != f {
			uniq = append(uniq, f)
		}
	}
	return uniq
}

// base resolves promoted-method wrappers to the declared method.
func (p *Prog) base(fn *ssa.Function) *ssa.Function {
	if fn.Synthetic != "" {
		if o, ok := fn.Object().(*types.Func); ok {
			if f := p.SSA.FuncValue(o); f != nil && f.Blocks != nil {
				return f
			}
		}
	}
	return fn
}

// resOf is the first result of the call an event stands for.
func resOf(x *Exec, ev *Event) *Term {
	t := x.E.Res(ev.Call, 0)
	if ev.Sym != ev.Call.Sym {
		t = x.E.T.subst(t, ev.Call.Sym, ev.Sym)
	}
	return t
}

// notBucketNotFound: an error that cannot be the store's "bucket not found",
// which only removing a bucket reports.
func notBucketNotFound(st *State, err *Term) bool {
	seen := map[*Term]bool{}
	var can func(t *Term) bool
	can = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		t = t.strip()
		if t.k == KConst || t.k == KFunc || t.k == KGlobal {
			return false
		}
		if t.k == KLoad && t.a[0].k == KGlobal {
			return strings.HasSuffix(t.a[0].op, ".ErrBucketNotFound")
		}
		if t.call == nil {
			return true
		}
		n := t.call.Name
		switch {
		case strings.HasPrefix(n, boltDot):
			return strings.HasSuffix(n, ".DeleteBucket") || strings.HasPrefix(n, boltDot+"DB.")
		case strings.HasSuffix(n, ".UnmarshalMsg"), strings.HasSuffix(n, ".MarshalMsg"):
			return false
		case n == "fmt.Errorf" || n == "errors.New":
			for _, a := range t.call.Args {
				hit := false
				a.walk(func(s *Term) {
					if s.k != KAlloc {
						return
					}
					for ad, v := range st.mem {
						if root(ad) == s && v.strip().typ != nil && can(v) {
							hit = true
						}
					}
				})
				if hit {
					return true
				}
			}
			return false
		}
		return true
	}
	return !can(err)
}

func root(a *Term) *Term {
	for a.k == KFAddr || a.k == KIAddr {
		a = a.a[0]
	}
	return a
}
