package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Lock states and accesses to memory of the whole workspace, by dataflow over the
// SSA form: every place is named by the root value it is reached from and the
// fields on the way, and is renamed at call sites on its way up to the functions
// that run concurrently.

type lockMode int

const (
	readLock  lockMode = 1
	writeLock lockMode = 2
)

// lockSet maps the place of a lock to how it is held.
type lockSet map[string]lockMode

func (s lockSet) String() string {
	var l []string
	for k, m := range s {
		l = append(l, fmt.Sprintf("%s:%d", k, m))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s lockSet) clone() lockSet {
	r := lockSet{}
	for k, m := range s {
		r[k] = m
	}
	return r
}

func meet(a, b lockSet) lockSet {
	r := lockSet{}
	for k, m := range a {
		if n, ok := b[k]; ok {
			if n < m {
				m = n
			}
			r[k] = m
		}
	}
	return r
}

// access is one read or write of memory, with the locks held while it happens.
type access struct {
	key   string // the place
	write bool
	held  lockSet
	async bool // happens in a goroutine started on the way
	at    ssa.Instruction
	here  ssa.Instruction // the instruction of the function at hand it happens in
}

func (a *access) id() string {
	return fmt.Sprintf("%s|%v|%v|%p|%p|%s", a.key, a.write, a.async, a.at, a.here, a.held)
}

// lockOp is one acquisition, with what is held at that time.
type lockOp struct {
	key   string
	mode  lockMode
	try   bool
	held  lockSet // may be held
	async bool
	at    ssa.Instruction
}

func (a *lockOp) id() string {
	return fmt.Sprintf("%s|%d|%v|%p|%s", a.key, a.mode, a.async, a.at, a.held)
}

type lockExit struct {
	held     lockSet
	released map[string]bool
	rets     map[int]bool // results known to be true or false
}

func (e *lockExit) id() string {
	var l []string
	for k := range e.released {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprint(e.held, l, e.rets)
}

type lockSum struct {
	exits    map[string]*lockExit
	accesses map[string]*access
	ops      map[string]*lockOp
	calls    map[string]*callback
	leaks    map[string]ssa.Instruction // lock still held at a return -> that return
	lost     map[string]ssa.Instruction // unlock of a lock that is not held there
}

// callback is a call of a function the caller passes as a parameter.
type callback struct {
	param int
	links []callLink // from the call itself outward
	held  lockSet
	may   lockSet
	async bool
}

type callLink struct {
	fn   *ssa.Function // what the call runs, nil for the function passed
	site ssa.CallInstruction
}

func (a *callback) id() string {
	s := fmt.Sprintf("%d|%v|%s|%s", a.param, a.async, a.held, a.may)
	for _, k := range a.links {
		s += fmt.Sprintf("|%p", k.site)
	}
	return s
}

// passes are the parameters that are functions which are only called, or passed on to be called,
// and which every caller gives as a literal: those calls are looked at where the literal is given.
func (l *locks) findPassed() {
	l.given = map[*ssa.Parameter]bool{}
	for _, fn := range l.fns {
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); ok && len(l.callers[fn]) > 0 {
				l.given[p] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for p := range l.given {
			if !l.onlyCalled(p) || !l.givenLiterally(p) {
				delete(l.given, p)
				changed = true
			}
		}
	}
}

func (l *locks) onlyCalled(p *ssa.Parameter) bool {
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			for i, a := range r.Common().Args {
				if a != p {
					continue
				}
				fs := l.callees[r]
				if r.Common().IsInvoke() || len(fs) == 0 {
					return false
				}
				for _, f := range fs {
					if i >= len(f.Params) || !l.given[f.Params[i]] {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// literal is the function a value is known to be.
func (l *locks) literal(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Function:
			if x.Blocks != nil && l.c.P.InRepo(x) {
				return x
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			if f.Blocks != nil && l.c.P.InRepo(f) && boundTarget(f) == nil {
				return f
			}
		}
		return nil
	}
}

func (l *locks) givenLiterally(p *ssa.Parameter) bool {
	fn, i := p.Parent(), paramIndex(p)
	for _, site := range l.callers[fn] {
		a := callArg(site, fn, i)
		if a == nil {
			return false
		}
		if q, ok := a.(*ssa.Parameter); ok && l.given[q] {
			continue
		}
		if c, ok := a.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		if l.literal(a) == nil {
			return false
		}
	}
	return true
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// callsGiven says that a call runs a function passed as such a parameter.
func (l *locks) callsGiven(site ssa.CallInstruction) (*ssa.Parameter, bool) {
	p, ok := site.Common().Value.(*ssa.Parameter)
	return p, ok && !site.Common().IsInvoke() && l.given[p]
}

type locks struct {
	relay     map[string][]string
	given     map[*ssa.Parameter]bool
	c         *Ctx
	callees   map[ssa.CallInstruction][]*ssa.Function
	callers   map[*ssa.Function][]ssa.CallInstruction
	mk        map[*ssa.Function][]*ssa.MakeClosure
	keys      map[ssa.Value]string
	busy      map[ssa.Value]bool
	sums      map[*ssa.Function]*lockSum
	fns       []*ssa.Function
	allocN    map[ssa.Value]int
	written   map[string]bool
	changed   bool
	over      map[*ssa.Function]bool
	sliceLike map[string]bool // places that hold a slice
	arrays    map[string]bool // contents of arrays
	reach     map[*ssa.Function]map[string]bool
}

const noKey = "?"

func newLocks(c *Ctx) *locks {
	l := &locks{c: c, callees: map[ssa.CallInstruction][]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		mk: map[*ssa.Function][]*ssa.MakeClosure{}, keys: map[ssa.Value]string{}, busy: map[ssa.Value]bool{},
		sums: map[*ssa.Function]*lockSum{}, allocN: map[ssa.Value]int{}, written: map[string]bool{}, over: map[*ssa.Function]bool{}, sliceLike: map[string]bool{}, arrays: map[string]bool{}}
	all := ssautil.AllFunctions(c.P.SSA)
	g := vta.CallGraph(all, cha.CallGraph(c.P.SSA))
	for fn, n := range g.Nodes {
		if fn == nil || !c.P.InRepo(fn) || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		for _, e := range n.Out {
			t := e.Callee.Func
			if e.Site == nil || t == nil || t.Blocks == nil || !c.P.InRepo(t) || isMockOrTest(pkgPathOf(t)) {
				continue
			}
			l.callees[e.Site] = append(l.callees[e.Site], t)
			l.callers[t] = append(l.callers[t], e.Site)
		}
	}
	for fn := range all {
		if fn.Blocks != nil && c.P.InRepo(fn) && !isMockOrTest(pkgPathOf(fn)) {
			l.fns = append(l.fns, fn)
		}
	}
	sortFns(l.fns)
	for _, fns := range l.callees {
		sortFns(fns)
	}
	for _, fn := range l.fns {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeClosure:
					f := v.Fn.(*ssa.Function)
					l.mk[f] = append(l.mk[f], v)
				}
				if v, ok := in.(ssa.Value); ok {
					l.allocN[v] = n
					n++
				}
			}
		}
	}
	return l
}

func rootOf(key string) string {
	if i := strings.IndexByte(key, '|'); i >= 0 {
		return key[:i]
	}
	return key
}

func compsOf(key string) []string {
	p := strings.Split(key, "|")
	return p[1:]
}

func grow(key, comp string) string {
	if key == noKey || key == "" {
		return noKey
	}
	if strings.Count(key, "|") > 8 {
		return noKey
	}
	return key + "|" + comp
}

func fieldComp(x ssa.Value, i int) string {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	name := "struct"
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = n.Obj().Pkg().Path() + "." + name
		}
	}
	st := t.Underlying().(*types.Struct)
	return name + "#" + st.Field(i).Name()
}

// key names the place v points to (for pointers, maps, slices) or was read from.
func (l *locks) key(v ssa.Value) string {
	if v == nil {
		return noKey
	}
	if k, ok := l.keys[v]; ok {
		return k
	}
	if l.busy[v] {
		return ""
	}
	l.busy[v] = true
	k := l.keyOf(v)
	delete(l.busy, v)
	if len(l.busy) == 0 || k != "" && k != noKey {
		if k == "" {
			k = noKey
		}
		l.keys[v] = k
	}
	return k
}

func fnID(fn *ssa.Function) string { return fn.String() }

// same joins the keys of alternatives: constants and unknown cycles do not count.
func same(ks []string) string {
	r := ""
	for _, k := range ks {
		if k == "" || k == "C" {
			continue
		}
		if r == "" || r == k {
			r = k
			continue
		}
		// a new object next to one reached from somewhere: the latter is what others may see
		switch {
		case strings.HasPrefix(r, "N:"):
			r = k
		case strings.HasPrefix(k, "N:"):
		default:
			return noKey
		}
	}
	return r
}

func (l *locks) keyOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return "C"
	case *ssa.Global:
		return "G:" + v.String()
	case *ssa.Function:
		return "F:" + v.String()
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return fmt.Sprintf("P:%s@%d", fnID(v.Parent()), i)
			}
		}
	case *ssa.FreeVar:
		fn := v.Parent()
		if mks := l.mk[fn]; len(mks) == 1 {
			for i, f := range fn.FreeVars {
				if f == v {
					return l.key(mks[0].Bindings[i])
				}
			}
		}
		return noKey
	case *ssa.Alloc:
		if s := l.onlyStore(v); s != nil {
			if k := l.key(s); k != noKey && k != "" && k != "C" && !isScalarType(s.Type()) {
				return "=" + strings.TrimPrefix(k, "=") // a cell holding a pointer that is set once
			}
		}
		return fmt.Sprintf("N:%s@%s", fnID(v.Parent()), l.allocName(v))
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return fmt.Sprintf("N:%s@%s", fnID(v.Parent()), l.allocName(v))
	case *ssa.FieldAddr:
		return grow(l.key(v.X), fieldComp(v.X, v.Field))
	case *ssa.Field:
		return grow(l.key(v.X), fieldComp(v.X, v.Field))
	case *ssa.IndexAddr:
		return grow(l.key(v.X), "[]")
	case *ssa.Index:
		return grow(l.key(v.X), "[]")
	case *ssa.Lookup:
		return grow(l.key(v.X), "{}")
	case *ssa.UnOp:
		if v.Op == token.MUL {
			k := l.key(v.X)
			return strings.TrimPrefix(k, "=")
		}
	case *ssa.Slice:
		return l.key(v.X)
	case *ssa.Convert:
		return l.key(v.X)
	case *ssa.ChangeType:
		return l.key(v.X)
	case *ssa.ChangeInterface:
		return l.key(v.X)
	case *ssa.MakeInterface:
		return l.key(v.X)
	case *ssa.TypeAssert:
		return l.key(v.X)
	case *ssa.MultiConvert:
		return l.key(v.X)
	case *ssa.SliceToArrayPointer:
		return l.key(v.X)
	case *ssa.Phi:
		var ks []string
		for _, e := range v.Edges {
			ks = append(ks, l.key(e))
		}
		return same(ks)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup, *ssa.TypeAssert:
			if v.Index == 0 {
				return l.key(t.(ssa.Value))
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && v.Index == 2 {
				return grow(l.key(r.X), "{}")
			}
		case *ssa.Call:
			return l.result(t, v.Index)
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "append" {
				return l.key(v.Call.Args[0])
			}
			return "N:"
		}
		return l.result(v, 0)
	case *ssa.MakeClosure:
		return "N:"
	case *ssa.BinOp:
		return "C"
	}
	return noKey
}

func (l *locks) allocName(v ssa.Value) string {
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" && a.Comment != "complit" && a.Comment != "new" {
		return fmt.Sprintf("%s.%d", a.Comment, l.allocN[v])
	}
	return fmt.Sprintf("#%d", l.allocN[v])
}

func isScalarType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// onlyStore is the value of the only store ever made to a local cell holding a pointer, map, slice or interface.
func (l *locks) onlyStore(a *ssa.Alloc) ssa.Value {
	el := a.Type().Underlying().(*types.Pointer).Elem()
	switch el.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan, *types.Signature:
	default:
		return nil
	}
	var val ssa.Value
	n := 0
	var scan func(addr ssa.Value) bool
	scan = func(addr ssa.Value) bool {
		refs := addr.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					n++
					val = r.Val
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == addr && !scan(f.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if scan(a) && n == 1 {
		return val
	}
	return nil
}

// result names what a call hands out.
func (l *locks) result(call *ssa.Call, idx int) string {
	fns := l.callees[call]
	if len(fns) == 0 {
		return noKey
	}
	var ks []string
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				k := l.key(r.Results[idx])
				if k == "" {
					continue
				}
				ks = append(ks, l.translate(strings.TrimPrefix(k, "="), fn, call))
			}
		}
	}
	return same(ks)
}

// arg is the value a call passes for parameter i of the callee.
func callArg(site ssa.CallInstruction, fn *ssa.Function, i int) ssa.Value {
	cc := site.Common()
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < len(cc.Args) {
		return cc.Args[i]
	}
	return nil
}

// translate renames a place of the callee into the caller's terms.
func (l *locks) translate(key string, fn *ssa.Function, site ssa.CallInstruction) string {
	pre := "P:" + fnID(fn) + "@"
	if !strings.HasPrefix(key, pre) {
		return key
	}
	root := rootOf(key)
	i := 0
	fmt.Sscanf(root[len(pre):], "%d", &i)
	a := callArg(site, fn, i)
	if a == nil {
		return noKey
	}
	k := l.key(a)
	if k == noKey || k == "" {
		return noKey
	}
	k = strings.TrimPrefix(k, "=")
	r := k + key[len(root):]
	if strings.Count(r, "|") > 8 {
		return noKey
	}
	return r
}

type mutexOp struct {
	kind string // Lock, RLock, TryLock, TryRLock, Unlock, RUnlock
	key  string
}

var mutexTypes = []string{"sync.Mutex.", "sync.RWMutex.", "sync.Locker."}

func mutexMethod(name string) string {
	for _, p := range mutexTypes {
		if strings.HasPrefix(name, p) {
			return name[len(p):]
		}
	}
	return ""
}

// mutexOf tells which operation on which lock a call performs.
func (l *locks) mutexOf(cc *ssa.CallCommon) *mutexOp {
	if m := mutexMethod(calleeName(cc)); m != "" {
		recv := cc.Value
		if !cc.IsInvoke() {
			if len(cc.Args) == 0 {
				return nil
			}
			recv = cc.Args[0]
		}
		return &mutexOp{m, strings.TrimPrefix(l.key(recv), "=")}
	}
	if cc.IsInvoke() {
		return nil
	}
	return l.boundOp(cc.Value, 0)
}

// boundOp resolves a value holding a method value of a lock (mu.Unlock), also when a call hands it out.
func (l *locks) boundOp(v ssa.Value, depth int) *mutexOp {
	if depth > 4 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.MakeClosure:
		if o := boundTarget(v.Fn.(*ssa.Function)); o != nil && len(v.Bindings) == 1 {
			if m := mutexMethod(FullName(o)); m != "" {
				return &mutexOp{m, strings.TrimPrefix(l.key(v.Bindings[0]), "=")}
			}
		}
	case *ssa.ChangeType:
		return l.boundOp(v.X, depth+1)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			if s := l.onlyStore(a); s != nil {
				return l.boundOp(s, depth+1)
			}
		}
	case *ssa.Call:
		fns := l.callees[v]
		if len(fns) != 1 {
			return nil
		}
		var op *mutexOp
		for _, b := range fns[0].Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				o := l.boundOp(r.Results[0], depth+1)
				if o == nil {
					return nil
				}
				op = &mutexOp{o.kind, l.translate(o.key, fns[0], v)}
			}
		}
		return op
	}
	return nil
}

// a library function calls the functions it is given while it runs, but for these
var runsLater = map[string]bool{
	"time.AfterFunc": true, "context.AfterFunc": true, "net/http.HandleFunc": true,
	"net/http.HandlerFunc": true,
}

func laterCall(n string) bool {
	return runsLater[n] || strings.HasPrefix(n, ginPkg+".") || strings.HasPrefix(n, "google.golang.org/grpc.") ||
		strings.HasPrefix(n, "golang.org/x/sync/errgroup.")
}

type targetFn struct {
	fn    *ssa.Function
	async bool
}

// targets are the in-repo functions a call runs, with whether they run in another goroutine.
func (l *locks) targets(site ssa.CallInstruction) []targetFn {
	var out []targetFn
	_, isGo := site.(*ssa.Go)
	if _, ok := l.callsGiven(site); ok {
		return nil
	}
	for _, f := range l.callees[site] {
		out = append(out, targetFn{f, isGo})
	}
	if len(out) > 0 {
		return out
	}
	n := calleeName(site.Common())
	for _, a := range site.Common().Args {
		for {
			if ct, ok := a.(*ssa.ChangeType); ok {
				a = ct.X
				continue
			}
			break
		}
		switch a := a.(type) {
		case *ssa.Function:
			if a.Blocks != nil && l.c.P.InRepo(a) {
				out = append(out, targetFn{a, isGo || laterCall(n)})
			}
		case *ssa.MakeClosure:
			f := a.Fn.(*ssa.Function)
			if f.Blocks != nil && l.c.P.InRepo(f) && boundTarget(f) == nil {
				out = append(out, targetFn{f, isGo || laterCall(n)})
			}
		}
	}
	return out
}

type lockState struct {
	held     lockSet
	released map[string]bool
	defers   []*ssa.Defer
	conds    map[ssa.Value]bool
}

func (s *lockState) id() string {
	var l []string
	for k := range s.released {
		l = append(l, k)
	}
	sort.Strings(l)
	var d []string
	for _, x := range s.defers {
		d = append(d, fmt.Sprintf("%p", x))
	}
	var cs []string
	for v, b := range s.conds {
		cs = append(cs, fmt.Sprintf("%p%v", v, b))
	}
	sort.Strings(cs)
	return s.held.String() + ";" + strings.Join(l, ",") + ";" + strings.Join(d, ",") + ";" + strings.Join(cs, ",")
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: s.held.clone(), released: map[string]bool{}, defers: append([]*ssa.Defer(nil), s.defers...), conds: map[ssa.Value]bool{}}
	for k := range s.released {
		n.released[k] = true
	}
	for k, v := range s.conds {
		n.conds[k] = v
	}
	return n
}

// op applies a lock operation.
func (l *locks) op(s *lockState, op *mutexOp, call ssa.Value, sum *lockSum, at ssa.Instruction) []*lockState {
	note := func(mode lockMode, try bool) {
		o := &lockOp{key: op.key, mode: mode, try: try, held: s.held.clone(), at: at}
		if sum.ops[o.id()] == nil {
			sum.ops[o.id()] = o
			l.changed = true
		}
	}
	switch op.kind {
	case "Lock", "RLock":
		m := writeLock
		if op.kind == "RLock" {
			m = readLock
		}
		note(m, false)
		n := s.clone()
		n.held[op.key] = m
		return []*lockState{n}
	case "TryLock", "TryRLock":
		m := writeLock
		if op.kind == "TryRLock" {
			m = readLock
		}
		note(m, true)
		yes, no := s.clone(), s.clone()
		yes.held[op.key] = m
		if call != nil {
			yes.conds[call], no.conds[call] = true, false
		}
		return []*lockState{yes, no}
	case "Unlock", "RUnlock":
		n := s.clone()
		if n.held[op.key] == 0 {
			n.released[op.key] = true
		}
		delete(n.held, op.key)
		return []*lockState{n}
	}
	return []*lockState{s}
}

func (l *locks) call(s *lockState, site ssa.CallInstruction, sum *lockSum) []*lockState {
	val := site.Value()
	if op := l.mutexOf(site.Common()); op != nil {
		var v ssa.Value
		if val != nil {
			v = val
		}
		return l.op(s, op, v, sum, site)
	}
	ts := l.targets(site)
	if len(ts) == 0 {
		return []*lockState{s}
	}
	out := map[string]*lockState{}
	plain := false
	for _, t := range ts {
		cs := l.sums[t.fn]
		if cs == nil || t.async {
			plain = true
			continue
		}
		for _, e := range cs.exits {
			n := s.clone()
			for k := range e.released {
				k = l.translate(k, t.fn, site)
				if n.held[k] == 0 {
					n.released[k] = true
				}
				delete(n.held, k)
			}
			for k, m := range e.held {
				n.held[l.translate(k, t.fn, site)] = m
			}
			if val != nil {
				for i, b := range e.rets {
					if t.fn.Signature.Results().Len() == 1 {
						n.conds[val] = b
					} else {
						for _, r := range *val.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
								n.conds[ex] = b
							}
						}
					}
				}
			}
			out[n.id()] = n
		}
	}
	if plain || len(out) == 0 {
		if plain {
			out[s.id()] = s
		}
	}
	var res []*lockState
	for _, k := range sortedKeys(out) {
		res = append(res, out[k])
	}
	return res
}

// value is what is known about a boolean in the state.
func boolIn(s *lockState, v ssa.Value) (bool, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := boolIn(s, x.X)
			return !b, ok
		}
	}
	b, ok := s.conds[v]
	return b, ok
}

// analyse computes the lock states of fn and what it and its callees access.
func (l *locks) analyse(fn *ssa.Function) {
	sum := l.sums[fn]
	if sum == nil {
		sum = &lockSum{exits: map[string]*lockExit{}, accesses: map[string]*access{}, ops: map[string]*lockOp{}, calls: map[string]*callback{},
			leaks: map[string]ssa.Instruction{}, lost: map[string]ssa.Instruction{}}
		l.sums[fn] = sum
		l.changed = true
	}
	in := map[*ssa.BasicBlock]map[string]*lockState{}
	at := map[ssa.Instruction][]*lockState{}
	type item struct {
		b *ssa.BasicBlock
		s *lockState
	}
	var work []item
	push := func(b *ssa.BasicBlock, s *lockState) {
		if in[b] == nil {
			in[b] = map[string]*lockState{}
		}
		k := s.id()
		if in[b][k] != nil {
			return
		}
		if len(in[b]) > 64 {
			l.over[fn] = true
			return
		}
		in[b][k] = s
		work = append(work, item{b, s})
	}
	push(fn.Blocks[0], &lockState{held: lockSet{}, released: map[string]bool{}, conds: map[ssa.Value]bool{}})
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []*lockState{it.s}
		for _, instr := range it.b.Instrs {
			at[instr] = append(at[instr], states...)
			switch x := instr.(type) {
			case *ssa.Defer:
				for i, s := range states {
					dup := false
					for _, d := range s.defers {
						dup = dup || d == x
					}
					if !dup {
						s = s.clone()
						s.defers = append(s.defers, x)
						states[i] = s
					}
				}
			case *ssa.RunDefers:
				var next []*lockState
				for _, s := range states {
					cur := []*lockState{s.clone()}
					cur[0].defers = nil
					for i := len(s.defers) - 1; i >= 0; i-- {
						var n []*lockState
						for _, c := range cur {
							at[s.defers[i]] = append(at[s.defers[i]], c)
							n = append(n, l.call(c, s.defers[i], sum)...)
						}
						cur = n
					}
					next = append(next, cur...)
				}
				states = next
			case *ssa.Go:
			case *ssa.Call:
				var next []*lockState
				for _, s := range states {
					next = append(next, l.call(s, x, sum)...)
				}
				states = next
			case *ssa.Return:
				for _, s := range states {
					e := &lockExit{held: s.held, released: s.released, rets: map[int]bool{}}
					for i, r := range x.Results {
						if b, ok := boolIn(s, r); ok {
							if t, isB := r.Type().Underlying().(*types.Basic); isB && t.Kind() == types.Bool {
								e.rets[i] = b
							}
						}
					}
					if sum.exits[e.id()] == nil {
						sum.exits[e.id()] = e
						l.changed = true
					}
					for k := range s.held {
						if sum.leaks[k] == nil {
							sum.leaks[k] = x
						}
					}
				}
			}
		}
		for i, b := range it.b.Succs {
			for _, s := range states {
				if cond, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
					if v, known := boolIn(s, cond.Cond); known && v != (i == 0) {
						continue
					}
				}
				n := s
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range b.Preds {
						if p == it.b {
							if v, known := boolIn(s, phi.Edges[j]); known {
								n = n.clone()
								n.conds[phi] = v
							} else if _, had := n.conds[phi]; had {
								n = n.clone()
								delete(n.conds, phi)
							}
						}
					}
				}
				push(b, n)
			}
		}
	}
	l.gather(fn, sum, at)
}

func (l *locks) must(states []*lockState) lockSet {
	var r lockSet
	for _, s := range states {
		if r == nil {
			r = s.held.clone()
		} else {
			r = meet(r, s.held)
		}
	}
	if r == nil {
		r = lockSet{}
	}
	return r
}

func (l *locks) add(sum *lockSum, a *access) {
	if a.key == noKey || a.key == "" || a.key == "C" {
		return
	}
	if t := tail(a.key); a.write && !l.written[t] {
		l.written[t] = true
		l.changed = true
	}
	if !l.interesting(a.key) {
		return
	}
	if k := a.id(); sum.accesses[k] == nil {
		sum.accesses[k] = a
		l.changed = true
	}
}

// tail is the last named part of a place: the variable or field it is kept in.
func tail(key string) string {
	cs := compsOf(key)
	i := len(cs)
	for i > 0 && (cs[i-1] == "[]" || cs[i-1] == "{}") {
		i--
	}
	suffix := strings.Join(cs[i:], "")
	if i == 0 {
		return rootOf(key) + suffix
	}
	return cs[i-1] + suffix
}

func (l *locks) interesting(key string) bool {
	t := tail(key)
	if strings.HasPrefix(t, "P:") || strings.HasPrefix(t, "N:") {
		return true
	}
	return l.written[t]
}

// own visits what one instruction accesses.
func (l *locks) own(in ssa.Instruction, visit func(key string, write bool)) {
	norm := func(k string) string { return strings.TrimPrefix(k, "=") }
	content := func(v ssa.Value) string { return grow(norm(l.key(v)), "{}") }
	elems := func(v ssa.Value) string {
		if _, ok := v.Type().Underlying().(*types.Map); ok {
			return content(v)
		}
		return grow(norm(l.key(v)), "[]")
	}
	switch x := in.(type) {
	case *ssa.Store:
		if k := l.key(x.Addr); !strings.HasPrefix(k, "=") {
			visit(k, true)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k := l.key(x.X); !strings.HasPrefix(k, "=") {
				visit(k, false)
			}
		}
	case *ssa.MapUpdate:
		visit(content(x.Map), true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			visit(content(x.X), false)
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			visit(content(r.X), false)
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "delete", "clear":
				visit(elems(cc.Args[0]), true)
			case "copy":
				visit(elems(cc.Args[0]), true)
				visit(elems(cc.Args[1]), false)
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					visit(content(cc.Args[0]), false)
				}
			}
			return
		}
		n := calleeName(cc)
		if strings.HasPrefix(n, "container/list.List.") && len(cc.Args) > 0 {
			switch n[len("container/list.List."):] {
			case "Front", "Back", "Len":
				visit(content(cc.Args[0]), false)
			default:
				visit(content(cc.Args[0]), true)
			}
			return
		}
		switch {
		case strings.HasPrefix(n, "sort.") && len(cc.Args) > 0, strings.HasPrefix(n, "slices.Sort") && len(cc.Args) > 0, n == "slices.Reverse":
			visit(elems(cc.Args[0]), true)
		case strings.HasPrefix(n, "maps.") && len(cc.Args) > 0:
			visit(content(cc.Args[0]), n == "maps.DeleteFunc" || n == "maps.Copy")
		}
	}
}

// atomicWord: the call reads or changes a plain variable atomically.
func (l *locks) atomicWord(cc *ssa.CallCommon) (key string, write, ok bool) {
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync/atomic" || f.Signature.Recv() != nil || len(cc.Args) == 0 {
		return "", false, false
	}
	k := l.key(cc.Args[0])
	if strings.HasPrefix(k, "=") {
		return "", false, false
	}
	return k, !strings.HasPrefix(f.Name(), "Load"), true
}

func (l *locks) gather(fn *ssa.Function, sum *lockSum, at map[ssa.Instruction][]*lockState) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if len(at[in]) == 0 {
				continue
			}
			held := l.must(at[in])
			if _, ok := in.(*ssa.Defer); !ok {
				l.own(in, func(k string, w bool) {
					l.add(sum, &access{key: k, write: w, held: held, at: in, here: in})
				})
			}
			site, ok := in.(ssa.CallInstruction)
			if !ok || l.mutexOf(site.Common()) != nil {
				continue
			}
			if k, w, ok := l.atomicWord(site.Common()); ok {
				// atomic accesses exclude each other, as if under a lock of their own
				h := lockSet{"G:atomic": writeLock}
				for lk, m := range held {
					h[lk] = m
				}
				l.add(sum, &access{key: k, write: w, held: h, at: in, here: in})
				continue
			}
			var may lockSet
			if _, ok := in.(*ssa.Defer); ok {
				// the states recorded at the defer statement itself do not count, those at its run do
				held = nil
			}
			states := at[in]
			if _, ok := in.(*ssa.Defer); ok {
				states = nil
				for _, s := range at[in] {
					had := false
					for _, d := range s.defers {
						had = had || d == in
					}
					_ = had
					states = append(states, s)
				}
				held = l.must(states)
			}
			may = lockSet{}
			for _, s := range states {
				for k, m := range s.held {
					if may[k] < m {
						may[k] = m
					}
				}
			}
			if p, ok := l.callsGiven(site); ok {
				_, isGo := in.(*ssa.Go)
				n := &callback{param: paramIndex(p), links: []callLink{{nil, site}}, held: held.clone(), may: may.clone(), async: isGo}
				if isGo {
					n.held, n.may = lockSet{}, lockSet{}
				}
				l.addCall(sum, n)
			}
			for _, t := range l.targets(site) {
				cs := l.sums[t.fn]
				if cs == nil {
					continue
				}
				l.back(sum, t, cs, site, held, may)
				var passed map[string]bool
				if t.async {
					passed = l.passed(t.fn)
				}
				for _, k := range sortedKeys(cs.accesses) {
					a := cs.accesses[k]
					// objects made on the way are nobody else's, unless a goroutine got hold of them
					if r := rootOf(a.key); strings.HasPrefix(r, "N:") && (t.async && !passed[r] && l.within(t.fn)[ownerOf(r)] || !t.async && !a.async) {
						continue
					}
					h := lockSet{}
					for lk, m := range a.held {
						h[l.translate(lk, t.fn, site)] = m
					}
					if !t.async && !a.async {
						for lk, m := range held {
							if h[lk] < m {
								h[lk] = m
							}
						}
					}
					delete(h, noKey)
					l.add(sum, &access{key: l.translate(a.key, t.fn, site), write: a.write, held: h, async: a.async || t.async, at: a.at, here: site})
				}
				for _, k := range sortedKeys(cs.ops) {
					o := cs.ops[k]
					h := lockSet{}
					for lk, m := range o.held {
						h[l.translate(lk, t.fn, site)] = m
					}
					if !t.async && !o.async {
						for lk, m := range may {
							h[lk] = m
						}
					}
					delete(h, noKey)
					n := &lockOp{key: l.translate(o.key, t.fn, site), mode: o.mode, try: o.try, held: h, async: o.async || t.async, at: o.at}
					if n.key != noKey && sum.ops[n.id()] == nil {
						sum.ops[n.id()] = n
						l.changed = true
					}
				}
			}
		}
	}
}

// literals are the functions a call gives to be called.
func (l *locks) literals(site ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range l.callees[site] {
		for i, p := range t.Params {
			if l.given[p] {
				if a := callArg(site, t, i); a != nil {
					if k := l.literal(a); k != nil {
						out = append(out, k)
					}
				}
			}
		}
	}
	return out
}

// merged is what is held in both terms.
func merged(a, b lockSet) lockSet {
	h := a.clone()
	for k, m := range b {
		if h[k] < m {
			h[k] = m
		}
	}
	return h
}

// back lifts the calls a callee makes of functions it was given.
func (l *locks) back(sum *lockSum, t targetFn, cs *lockSum, site ssa.CallInstruction, held, may lockSet) {
	for _, id := range sortedKeys(cs.calls) {
		cb := cs.calls[id]
		a := callArg(site, t.fn, cb.param)
		if a == nil || len(cb.links) > 4 {
			continue
		}
		n := &callback{links: append(append([]callLink(nil), cb.links...), callLink{t.fn, site}), held: lockSet{}, may: lockSet{}, async: cb.async || t.async}
		for lk, m := range cb.held {
			n.held[l.translate(lk, t.fn, site)] = m
		}
		for lk, m := range cb.may {
			n.may[l.translate(lk, t.fn, site)] = m
		}
		if !n.async {
			n.held, n.may = merged(n.held, held), merged(n.may, may)
		}
		delete(n.held, noKey)
		delete(n.may, noKey)
		if q, ok := a.(*ssa.Parameter); ok && l.given[q] {
			n.param = paramIndex(q)
			l.addCall(sum, n)
			continue
		}
		k := l.literal(a)
		if k == nil || l.sums[k] == nil {
			continue
		}
		ks := l.sums[k]
		name := func(key string) string {
			for i, li := range n.links {
				f := li.fn
				if i == 0 {
					f = k
				}
				key = l.translate(key, f, li.site)
			}
			return key
		}
		for _, id := range sortedKeys(ks.accesses) {
			a := ks.accesses[id]
			if r := rootOf(a.key); strings.HasPrefix(r, "N:") && (n.async && !l.passed(k)[r] && l.within(k)[ownerOf(r)] || !n.async && !a.async) {
				continue
			}
			h := lockSet{}
			for lk, m := range a.held {
				h[name(lk)] = m
			}
			if !a.async {
				h = merged(h, n.held)
			}
			delete(h, noKey)
			l.add(sum, &access{key: name(a.key), write: a.write, held: h, async: a.async || n.async, at: a.at, here: site})
		}
		for _, id := range sortedKeys(ks.ops) {
			o := ks.ops[id]
			h := lockSet{}
			for lk, m := range o.held {
				h[name(lk)] = m
			}
			if !o.async {
				h = merged(h, n.may)
			}
			delete(h, noKey)
			op := &lockOp{key: name(o.key), mode: o.mode, try: o.try, held: h, async: o.async || n.async, at: o.at}
			if op.key != noKey && sum.ops[op.id()] == nil {
				sum.ops[op.id()] = op
				l.changed = true
			}
		}
	}
}

func (l *locks) addCall(sum *lockSum, n *callback) {
	if sum.calls[n.id()] == nil && len(sum.calls) < 64 {
		sum.calls[n.id()] = n
		l.changed = true
	}
}

func ownerOf(r string) string {
	if i := strings.LastIndexByte(r, '@'); i > 2 {
		return r[2:i]
	}
	return ""
}

// within names the functions that run when fn runs.
func (l *locks) within(fn *ssa.Function) map[string]bool {
	if l.reach == nil {
		l.reach = map[*ssa.Function]map[string]bool{}
	}
	if m := l.reach[fn]; m != nil {
		return m
	}
	m := map[string]bool{"": true}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		m[fnID(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(ssa.CallInstruction); ok {
					for _, t := range l.targets(s) {
						visit(t.fn)
					}
					for _, k := range l.literals(s) {
						visit(k)
					}
				}
			}
		}
	}
	visit(fn)
	l.reach[fn] = m
	return m
}

// passed are the objects a function sees because it captured them.
func (l *locks) passed(fn *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for _, v := range fn.FreeVars {
		m[rootOf(strings.TrimPrefix(l.key(v), "="))] = true
	}
	return m
}

// run computes the summaries of every function.
func (l *locks) run() {
	l.findPassed()
	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(ssa.Value); ok {
					if p, ok := fa.Type().Underlying().(*types.Pointer); ok {
						k := tail(l.norm(fa))
						switch p.Elem().Underlying().(type) {
						case *types.Slice:
							l.sliceLike[k] = true
						case *types.Array:
							l.arrays[k+"[]"] = true
						}
					}
				}
				l.own(in, func(k string, w bool) {
					if w && k != noKey && k != "" {
						l.written[tail(k)] = true
					}
				})
			}
		}
	}
	// callees first
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(ssa.CallInstruction); ok {
					for _, t := range l.targets(s) {
						visit(t.fn)
					}
					for _, k := range l.literals(s) {
						visit(k)
					}
				}
			}
		}
		order = append(order, f)
	}
	for _, f := range l.fns {
		visit(f)
	}
	for i := 0; i < 12; i++ {
		l.changed = false
		for _, f := range order {
			l.analyse(f)
		}
		if !l.changed {
			return
		}
	}
	l.c.undecided = append(l.c.undecided, "lock states did not settle")
}
