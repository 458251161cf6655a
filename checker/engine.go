package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-sensitive abstract interpreter over SSA. It explores
// every control path of a root function, entering in-repo callees (so moving
// code into a helper changes nothing), with a finite abstract value domain:
// loops are cut by a visited set over abstract states.

// CallInfo describes one call site as seen on a path.
type CallInfo struct {
	Site    ssa.Instruction // *ssa.Call, *ssa.Defer or *ssa.Go
	Common  *ssa.CallCommon
	Obj     *types.Func   // resolved static callee or interface method; nil for dynamic calls
	Fn      *ssa.Function // static function if it has a body in the repo
	Args    []*Term       // receiver first
	Name    string        // full name
	Ctx     int
	Depth   int
	Caller  *ssa.Function
	Sym     *Term // the opaque result symbol
	Closure *Term // the called function literal, if any
}

// Res is the i-th result of the call when treated as opaque.
func (e *Engine) Res(c *CallInfo, i int) *Term {
	var rt types.Type
	sig := c.Common.Signature()
	if sig != nil && i < sig.Results().Len() {
		rt = sig.Results().At(i).Type()
	}
	return e.T.mk(Term{k: KRes, op: strconv.Itoa(i), a: []*Term{c.Sym}, typ: rt, call: c})
}

// ErrRes is the error result of the call, nil if it has none.
func (e *Engine) ErrRes(c *CallInfo) *Term {
	sig := c.Common.Signature()
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	return e.Res(c, n-1)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// Event is one entry of the path trace.
type Event struct {
	Kind string
	Call *CallInfo
	Val  *Term
	Args []*Term
	Pos  token.Pos
	Sym  *Term // the call's result symbol; an earlier loop iteration's event keeps the old one
	key  string
}

// State is the abstract machine state of a path.
type State struct {
	mem   map[*Term]*Term
	vol   map[*Term]bool
	facts map[*Term]bool
	trace []Event
	vars  map[string]string
	terms map[string]*Term // rule-owned terms, kept live
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, vol: map[*Term]bool{}, facts: map[*Term]bool{}, vars: map[string]string{}, terms: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)), vol: make(map[*Term]bool, len(s.vol)), facts: make(map[*Term]bool, len(s.facts)),
		vars: make(map[string]string, len(s.vars)), terms: make(map[string]*Term, len(s.terms))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.vol {
		n.vol[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.terms {
		n.terms[k] = v
	}
	n.trace = append([]Event(nil), s.trace...)
	return n
}

func (s *State) key() string {
	var b strings.Builder
	ks := make([]string, 0, len(s.mem))
	for k, v := range s.mem {
		ks = append(ks, k.key+"="+v.key)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	b.WriteString("#")
	ks = ks[:0]
	for k := range s.vol {
		ks = append(ks, k.key)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	b.WriteString("#")
	ks = ks[:0]
	for k, v := range s.facts {
		if v {
			ks = append(ks, "+"+k.key)
		} else {
			ks = append(ks, "-"+k.key)
		}
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	b.WriteString("#")
	for _, e := range s.trace {
		b.WriteString(e.key)
		b.WriteByte(';')
	}
	b.WriteString("#")
	ks = ks[:0]
	for k, v := range s.vars {
		ks = append(ks, k+"="+v)
	}
	for k, v := range s.terms {
		ks = append(ks, k+"~"+v.key)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	return b.String()
}

// Emit appends an event unless the same event (site, context, arguments) is already there.
func (s *State) Emit(ev Event) {
	if ev.Call != nil && ev.Sym == nil {
		ev.Sym = ev.Call.Sym
	}
	ev.setKey()
	for _, o := range s.trace {
		if o.key == ev.key {
			return
		}
	}
	s.trace = append(s.trace, ev)
}

func (ev *Event) setKey() {
	var b strings.Builder
	b.WriteString(ev.Kind)
	if ev.Sym != nil {
		fmt.Fprintf(&b, "@%d", ev.Sym.id)
	}
	if ev.Val != nil {
		b.WriteString("=" + ev.Val.key)
	}
	for _, a := range ev.Args {
		b.WriteString("," + a.key)
	}
	ev.key = b.String()
}

func (s *State) Has(kind string) bool {
	for _, e := range s.trace {
		if e.Kind == kind {
			return true
		}
	}
	return false
}

// Last is the latest event of a kind.
func (s *State) Last(kind string) *Event {
	for i := len(s.trace) - 1; i >= 0; i-- {
		if s.trace[i].Kind == kind {
			return &s.trace[i]
		}
	}
	return nil
}

// Drop removes the events of a kind.
func (s *State) Drop(kind string) {
	var keep []Event
	for _, e := range s.trace {
		if e.Kind != kind {
			keep = append(keep, e)
		}
	}
	s.trace = keep
}

// Index is the position of an event of the trace.
func (s *State) Index(ev *Event) int {
	for i := range s.trace {
		if &s.trace[i] == ev {
			return i
		}
	}
	return -1
}

func (s *State) Find(kind string) *Event {
	for i := range s.trace {
		if s.trace[i].Kind == kind {
			return &s.trace[i]
		}
	}
	return nil
}

// Tri is a three-valued truth.
type Tri int8

const (
	Unknown Tri = iota
	Yes
	No
)

func tri(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

// Action tells the engine what to do with a call.
type Action int

const (
	ActDefault Action = iota // enter if possible, else opaque
	ActOpaque                // do not enter
	ActPure                  // do not enter; the callee changes nothing it is given
	ActEnter                 // enter even if the size limits say no
)

// Outcome is a rule-provided result of a call.
type Outcome struct {
	St  *State
	Res []*Term
}

// Rule customises an exploration.
type Rule struct {
	// OnCall sees every call before it is entered. It may update st.
	OnCall func(x *Exec, st *State, c *CallInfo) Action
	// AfterOpaque sees an opaque call once its results exist; it may fork.
	AfterOpaque func(x *Exec, st *State, c *CallInfo) []*State
	// OnReturnFrom sees the results of an entered call.
	OnReturnFrom func(x *Exec, st *State, c *CallInfo, res []*Term)
	// OnCallback sees the results of a function literal a library call ran once.
	OnCallback func(x *Exec, st *State, c *CallInfo, res []*Term)
	OnStore    func(x *Exec, st *State, addr, val *Term, in ssa.Instruction)
	OnInstr    func(x *Exec, st *State, in ssa.Instruction)
	OnSend     func(x *Exec, st *State, ch, val *Term, in ssa.Instruction)
	// OnBranch sees the state after a condition was decided, before knowledge is forgotten.
	OnBranch func(x *Exec, st *State)
	// OnExit sees every return of the root.
	OnExit func(x *Exec, st *State, res []*Term, at ssa.Instruction)
	// OnGo: return true to execute the goroutine body in line.
	OnGo func(x *Exec, st *State, c *CallInfo) bool
	// LoopEvents keeps the events of earlier loop iterations apart from the current one's.
	LoopEvents bool
	// Elements keeps what was last stored at a computed index of a slice.
	Elements bool
	// OnAppend sees what is appended to a slice.
	OnAppend func(x *Exec, st *State, args []*Term, in ssa.Instruction)
	// Callback lists which argument of an opaque callee is invoked, once, and whether its error is returned.
	MaxDepth int
	MaxSteps int
	// Wide raises the number of states that may meet at a block before they are coarsened.
	Wide int
	// Unroll keeps apart that many iterations of loops that count from a constant.
	Unroll int
	// NoCallbacks stops function literals passed to unknown callees from being explored.
	NoCallbacks bool
	// Fork enters every in-repo implementation of an interface method.
	Fork bool
	// Params overrides the initial parameter terms.
	Params func(e *Engine, fn *ssa.Function) []*Term
	// Init prepares the initial state.
	Init func(e *Engine, st *State, params []*Term)
	// Bind gives the terms of free variables when the root is a function literal.
	Bind func(e *Engine, fn *ssa.Function) []*Term
	// Relevant limits which callees are entered (nil: all).
	Relevant func(c *CallInfo, fn *ssa.Function) bool
	// WithPanics makes OnExit also see explicit panics.
	OnPanic func(x *Exec, st *State, in ssa.Instruction)
}

// Engine holds shared analysis tables.
type Engine struct {
	P       *Prog
	T       *Terms
	insID   map[ssa.Instruction]int
	ctxID   map[string]int
	live    map[*ssa.Function]*liveness
	impls   map[string][]*ssa.Function
	conc    map[string]types.Type
	weights map[*ssa.Function]int
	fresh   map[any]bool // results that are never nil
}

func NewEngine(p *Prog) *Engine {
	return &Engine{P: p, T: &Terms{tab: map[string]*Term{}}, insID: map[ssa.Instruction]int{}, ctxID: map[string]int{},
		live: map[*ssa.Function]*liveness{}, impls: map[string][]*ssa.Function{}}
}

func (e *Engine) ins(i ssa.Instruction) int {
	if n, ok := e.insID[i]; ok {
		return n
	}
	n := len(e.insID) + 1
	e.insID[i] = n
	return n
}

func (e *Engine) ctx(parent int, i ssa.Instruction, extra string) int {
	k := fmt.Sprintf("%d/%d/%s", parent, e.ins(i), extra)
	if n, ok := e.ctxID[k]; ok {
		return n
	}
	n := len(e.ctxID) + 1
	e.ctxID[k] = n
	return n
}

// Exec is one exploration.
type Exec struct {
	E         *Engine
	R         *Rule
	Root      *ssa.Function
	Steps     int
	Overflow  bool
	Coarse    int
	Entered   map[*ssa.Function]bool
	OpaqueIn  map[string]bool // in-repo functions left opaque
	Exits     int
	callDepth int
	active    map[*ssa.Function]int
	visits    map[*ssa.Function]int
	exitKeys  []string
}

// Run explores root under rule.
func (e *Engine) Run(root *ssa.Function, r *Rule) *Exec {
	e.T.fold = r.Unroll > 0
	x := &Exec{E: e, R: r, Root: root, Entered: map[*ssa.Function]bool{}, OpaqueIn: map[string]bool{}, active: map[*ssa.Function]int{}, visits: map[*ssa.Function]int{}}
	if r.MaxDepth == 0 {
		r.MaxDepth = 10
	}
	if r.MaxSteps == 0 {
		r.MaxSteps = 1000000
	}
	var params []*Term
	if r.Params != nil {
		params = r.Params(e, root)
	}
	for i := len(params); i < len(root.Params); i++ {
		params = append(params, e.Param(root.Params[i].Name(), root.Params[i].Type()))
	}
	var binds []*Term
	if r.Bind != nil {
		binds = r.Bind(e, root)
	}
	for i := len(binds); i < len(root.FreeVars); i++ {
		binds = append(binds, e.Param("free:"+root.FreeVars[i].Name(), root.FreeVars[i].Type()))
	}
	st := newState()
	if r.Init != nil {
		r.Init(e, st, params)
	}
	outs := x.function(root, params, binds, st, 0, 0, nil)
	for _, o := range outs {
		x.Exits++
		if x.Exits%50 == 1 {
			x.exitKeys = append(x.exitKeys, o.st.key())
		}
		if r.OnExit != nil {
			r.OnExit(x, o.st, o.res, o.at)
		}
	}
	return x
}

// Param is the term of a root parameter.
func (e *Engine) Param(name string, typ types.Type) *Term {
	return e.T.mk(Term{k: KParam, op: name + "\x00" + types.TypeString(typ, nil), typ: typ})
}

type outcome struct {
	st  *State
	res []*Term
	at  ssa.Instruction
}

type frame struct {
	fn      *ssa.Function
	ctx     int
	depth   int
	binds   map[*ssa.FreeVar]*Term
	callPin map[int]bool
	pin     map[int]bool // symbols the callers still need
}

type deferred struct {
	site *ssa.Defer
	call *CallInfo
	clo  *Term
}

type point struct {
	b    *ssa.BasicBlock
	i    int
	env  map[ssa.Value]*Term
	st   *State
	defs []deferred
}

func (x *Exec) function(fn *ssa.Function, args, binds []*Term, st *State, ctx, depth int, pin map[int]bool) []outcome {
	x.Entered[fn] = true
	x.active[fn]++
	x.visits[fn]++
	defer func() { x.active[fn]-- }()
	fr := &frame{fn: fn, ctx: ctx, depth: depth, binds: map[*ssa.FreeVar]*Term{}, pin: map[int]bool{}}
	for s := range pin {
		fr.pin[s] = true
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			fr.binds[fv] = binds[i]
		} else {
			fr.binds[fv] = x.E.Param("free:"+fv.Name(), fv.Type())
		}
	}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = x.E.Param(p.Name(), p.Type())
		}
	}
	for _, t := range fr.binds {
		for _, s := range t.syms {
			fr.pin[s] = true
		}
	}
	lv := x.E.liveOf(fn)
	seen := map[string]bool{}
	nblk := map[int]int{}
	var outs []outcome
	outSeen := map[string]bool{}
	work := []point{{b: fn.Blocks[0], env: env, st: st.clone()}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if x.Steps > x.R.MaxSteps {
			x.Overflow = true
			return outs
		}
		if p.i == 0 {
			// prune and memoise at block entry
			nenv := make(map[ssa.Value]*Term, len(p.env))
			for v, t := range p.env {
				if lv.in[p.b.Index][v] {
					nenv[v] = t
				}
			}
			p.env = nenv
			x.prune(fr, &p)
			nblk[p.b.Index]++
			if n := nblk[p.b.Index]; n > 48*(x.R.Wide+1) {
				x.coarsen(p.st, n > 200*(x.R.Wide+1), p.env)
			}
			k := fmt.Sprintf("%d|%s|%s", p.b.Index, envKey(nenv, x.E), p.st.key())
			for _, d := range p.defs {
				k += fmt.Sprintf("|d%d:%v", x.E.ins(d.site), d.call.Args)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		nexts, rets := x.block(fr, &p)
		work = append(work, nexts...)
		for _, r := range rets {
			k := ""
			for _, t := range r.res {
				k += t.key + ","
			}
			if fr.depth > 0 {
				x.dropLocals(r.st, r.res, ctx)
			}
			k += "|" + r.st.key()
			if fr.depth == 0 {
				k += fmt.Sprintf("@%d", x.E.ins(r.at))
			}
			if !outSeen[k] {
				outSeen[k] = true
				outs = append(outs, r)
			}
		}
	}
	return outs
}

func envKey(env map[ssa.Value]*Term, e *Engine) string {
	ks := make([]string, 0, len(env))
	for v, t := range env {
		ks = append(ks, v.Name()+"="+t.key)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// prune forgets facts and memory nothing live can observe.
func (x *Exec) prune(fr *frame, p *point) {
	st := p.st
	keep := make(map[int]bool, len(fr.pin)+16)
	for s := range fr.pin {
		keep[s] = true
	}
	add := func(t *Term) {
		if t != nil {
			for _, s := range t.syms {
				keep[s] = true
			}
		}
	}
	for _, t := range p.env {
		add(t)
	}
	for _, d := range p.defs {
		for _, a := range d.call.Args {
			add(a)
		}
		add(d.clo)
	}
	st.addPinned(add)
	alive := func(t *Term) bool {
		for _, s := range t.syms {
			if !keep[s] {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			if len(v.syms) > 0 && alive(a) {
				for _, s := range v.syms {
					if !keep[s] {
						keep[s] = true
						changed = true
					}
				}
			}
		}
	}
	for a := range st.mem {
		if !alive(a) {
			delete(st.mem, a)
		}
	}
	for a := range st.vol {
		if !alive(a) {
			delete(st.vol, a)
		}
	}
	for f := range st.facts {
		if !alive(f) {
			delete(st.facts, f)
		}
	}
}

// coarsen drops branch facts when too many states meet at one block, which
// only adds paths.
func (x *Exec) coarsen(st *State, all bool, env map[ssa.Value]*Term) {
	keep := map[int]bool{}
	if !all {
		st.addPinned(func(t *Term) {
			if t != nil {
				for _, s := range t.syms {
					keep[s] = true
				}
			}
		})
	}
	x.Coarse++
	for f := range st.facts {
		k := false
		for _, s := range f.syms {
			if keep[s] {
				k = true
			}
		}
		// comparisons of an error that is still in use
		if !k && f.k == KBin && f.op == "==" {
			for v, t := range env {
				if t == f.a[0] && isErrorType(v.Type()) {
					k = true
				}
			}
		}
		if !k {
			delete(st.facts, f)
		}
	}
}

func (st *State) addPinned(add func(*Term)) {
	for _, ev := range st.trace {
		add(ev.Val)
		add(ev.Sym)
		for _, a := range ev.Args {
			add(a)
		}
	}
	for _, t := range st.terms {
		add(t)
	}
}

// dropLocals removes facts and memory about values created inside a callee
// that nothing can reach any more.
func (x *Exec) dropLocals(st *State, res []*Term, ctx int) {
	keep := map[int]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, s := range t.syms {
			keep[s] = true
		}
	}
	for _, t := range res {
		add(t)
	}
	for _, ev := range st.trace {
		add(ev.Val)
		add(ev.Sym)
		for _, a := range ev.Args {
			add(a)
		}
	}
	for _, t := range st.terms {
		add(t)
	}
	local := func(t *Term) bool { // every sym is created in ctx (or below) and not kept
		any := false
		t.walk(func(s *Term) {
			if (s.k == KSym || s.k == KAlloc) && x.E.under(s.ctx, ctx) && !keep[s.id] {
				any = true
			}
		})
		return any
	}
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			if !local(a) {
				for _, s := range v.syms {
					if !keep[s] {
						keep[s] = true
						changed = true
					}
				}
			}
		}
	}
	for a := range st.mem {
		if local(a) {
			delete(st.mem, a)
		}
	}
	for a := range st.vol {
		if local(a) {
			delete(st.vol, a)
		}
	}
	for f := range st.facts {
		if local(f) {
			delete(st.facts, f)
		}
	}
}

var ctxParent = map[int]int{}

func (e *Engine) under(c, anc int) bool {
	for c != 0 {
		if c == anc {
			return true
		}
		c = ctxParent[c]
	}
	return c == anc
}

func (e *Engine) sym(in ssa.Instruction, ctx int, tag string, typ types.Type) *Term {
	t := e.T.mk(Term{k: KSym, op: fmt.Sprintf("%s%d@%d", tag, e.ins(in), ctx), typ: typ, site: in, ctx: ctx})
	return t
}

// ---- facts ----

// Eval decides a boolean term on the path.
func (x *Exec) Eval(st *State, t *Term) Tri {
	if t == nil {
		return Unknown
	}
	switch t.k {
	case KConst:
		if t.op == "true" {
			return Yes
		}
		if t.op == "false" {
			return No
		}
		return Unknown
	case KNot:
		switch x.Eval(st, t.a[0]) {
		case Yes:
			return No
		case No:
			return Yes
		}
		return Unknown
	case KTypeIs:
		v := t.a[0]
		if v.k == KConst && v.op == "nil" {
			return No
		}
		if b, ok := st.facts[t]; ok {
			return tri(b)
		}
		return Unknown
	case KBin:
		if t.op == "<" && t.a[0].k == KConst && isLen(t.a[1]) {
			if n, ok := constInt(t.a[0].cst); ok {
				lo, exact := lenBounds(t.a[1].a[0])
				if lo > n {
					return Yes
				}
				if exact {
					return No
				}
			}
		}
		if t.op == "==" {
			a, b := t.a[0], t.a[1]
			if b.k == KConst && b.op == "nil" {
				switch x.nilness(st, a) {
				case Yes:
					return Yes
				case No:
					return No
				}
			}
			if f, ok := st.facts[t]; ok {
				return tri(f)
			}
			if b.k == KConst && b.cst != nil {
				for f, v := range st.facts {
					if v && f.k == KBin && f.op == "==" && f.a[0] == a && f.a[1].k == KConst && f.a[1].cst != nil && f.a[1] != b {
						return No
					}
				}
				if n, ok := constInt(b.cst); ok {
					if lo, hi := st.bounds(a); n < lo || n > hi {
						return No
					} else if lo == hi {
						return Yes
					}
				}
			}
			return Unknown
		}
	}
	if f, ok := st.facts[t]; ok {
		return tri(f)
	}
	if t.k == KBin && t.op == "<" {
		if n, ok := constInt(cstOf(t.a[0])); ok {
			if lo, hi := st.bounds(t.a[1]); n < lo {
				return Yes
			} else if n >= hi {
				return No
			}
		} else if n, ok := constInt(cstOf(t.a[1])); ok {
			if lo, hi := st.bounds(t.a[0]); hi < n {
				return Yes
			} else if lo >= n {
				return No
			}
		}
	}
	if t.k == KPure && t.op == "errors.Is" && len(t.a) == 2 {
		a, b := t.a[0].strip(), t.a[1].strip()
		if isSentinel(b) && x.wrapsNothing(a) {
			return No
		}
		if x.nilness(st, a) == Yes && isSentinel(b) {
			return No
		}
		if isSentinel(a) && isSentinel(b) {
			return tri(a == b)
		}
		if isSentinel(b) && strings.HasSuffix(b.a[0].op, "bbolt.ErrBucketNotFound") && notBucketNotFound(st, a) {
			return No
		}
		for f, v := range st.facts {
			if v && f.k == KBin && f.op == "==" && (f.a[0] == a && isSentinel(f.a[1]) || f.a[1] == a && isSentinel(f.a[0])) && isSentinel(b) {
				return tri(f.a[0] == b || f.a[1] == b)
			}
		}
	}
	return Unknown
}

// bounds: what the path's comparisons with integer constants say about a number.
func (st *State) bounds(t *Term) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	if t.typ == nil {
		return
	}
	if b, ok := t.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	if isLen(t) {
		lo = 0
	}
	if t.k == KSym && strings.Contains(t.op, "add+") {
		lo = 1
	}
	up := func(n int64) {
		if n < hi {
			hi = n
		}
	}
	down := func(n int64) {
		if n > lo {
			lo = n
		}
	}
	for f, v := range st.facts {
		if f.k != KBin {
			continue
		}
		switch {
		case f.op == "==" && v && f.a[0] == t:
			if n, ok := constInt(cstOf(f.a[1])); ok {
				up(n)
				down(n)
			}
		case f.op == "<" && f.a[0] == t:
			if n, ok := constInt(cstOf(f.a[1])); ok && v && n > math.MinInt64 {
				up(n - 1)
			} else if ok && !v {
				down(n)
			}
		case f.op == "<" && f.a[1] == t:
			if n, ok := constInt(cstOf(f.a[0])); ok && v && n < math.MaxInt64 {
				down(n + 1)
			} else if ok && !v {
				up(n)
			}
		}
	}
	return lo, hi
}

func isSentinel(t *Term) bool {
	return t.k == KLoad && t.a[0].k == KGlobal
}

// nilness: Yes = certainly nil, No = certainly not.
func (x *Exec) nilness(st *State, t *Term) Tri {
	switch t.k {
	case KConst:
		if t.op == "nil" {
			return Yes
		}
		return No
	case KAlloc, KFAddr, KIAddr, KClosure, KFunc, KIface, KGlobal:
		return No
	}
	if f, ok := st.facts[x.E.T.mk(Term{k: KBin, op: "==", a: []*Term{t, x.E.T.Nil()}, typ: types.Typ[types.Bool]})]; ok {
		return tri(f)
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		// something positively identified is not nil
		if f.k == KTypeIs && f.a[0] == t {
			return No
		}
		if f.k == KPure && (f.op == "errors.Is" || f.op == "errors.As" || strings.HasSuffix(f.op, "os.IsNotExist") || strings.HasSuffix(f.op, "os.IsExist")) && len(f.a) > 0 && f.a[0].strip() == t {
			return No
		}
		if f.k == KBin && f.op == "==" && (f.a[0] == t || f.a[1] == t) {
			o := f.a[0]
			if o == t {
				o = f.a[1]
			}
			if o.k == KLoad && o.a[0].k == KGlobal && isErrorType(o.typ) {
				return No
			}
		}
	}
	if t.k == KLoad && t.a[0].k == KGlobal && isErrorType(t.typ) {
		return No // sentinel error variables
	}
	if t.k == KRes && t.a[0].call != nil && t.a[0].call.Fn != nil {
		if i, err := strconv.Atoi(t.op); err == nil && x.E.neverNil(t.a[0].call.Fn, i) {
			return No
		}
	}
	return Unknown
}

// neverNil: every return of the function gives a new object for the i-th result.
func (e *Engine) neverNil(fn *ssa.Function, i int) bool {
	type key struct {
		fn *ssa.Function
		i  int
	}
	if e.fresh == nil {
		e.fresh = map[any]bool{}
	}
	if v, ok := e.fresh[key{fn, i}]; ok {
		return v
	}
	e.fresh[key{fn, i}] = false
	var made func(v ssa.Value) bool
	made = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan, *ssa.FieldAddr:
			return true
		case *ssa.MakeInterface:
			if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
				return made(v.X)
			}
			return true
		case *ssa.Call:
			f := v.Call.StaticCallee()
			return f != nil && v.Call.Signature().Results().Len() == 1 && e.neverNil(f, 0)
		}
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if i >= len(r.Results) || !made(r.Results[i]) {
				return false
			}
		}
	}
	e.fresh[key{fn, i}] = n > 0
	return n > 0
}

// IsNil decides nilness of a value on the path.
func (x *Exec) IsNil(st *State, t *Term) Tri {
	if t == nil {
		return Unknown
	}
	return x.nilness(st, t)
}

// Assume adds a branch fact; false means the path is infeasible.
func (x *Exec) Assume(st *State, t *Term, v bool) bool {
	switch x.Eval(st, t) {
	case Yes:
		return v
	case No:
		return !v
	}
	if t.k == KNot {
		return x.Assume(st, t.a[0], !v)
	}
	st.facts[t] = v
	// equality with a known value transfers nil-ness
	if v && t.k == KBin && t.op == "==" {
		a, b := t.a[0], t.a[1]
		nb, na := x.nilness(st, b), x.nilness(st, a)
		if b.k != KConst && nb == Yes && na == Unknown {
			st.facts[x.E.T.bin("==", a, x.E.T.Nil(), types.Typ[types.Bool])] = true
		}
	}
	return true
}

// ---- memory ----

func (x *Exec) addrUnder(a, base *Term) bool {
	for a != nil {
		if a == base {
			return true
		}
		if a.k == KFAddr || a.k == KIAddr {
			a = a.a[0]
			continue
		}
		return false
	}
	return false
}

func (x *Exec) isVol(st *State, a *Term) bool {
	if len(st.vol) == 0 {
		return false
	}
	for a != nil {
		if st.vol[a] {
			return true
		}
		if a.k == KFAddr || a.k == KIAddr {
			a = a.a[0]
			continue
		}
		return false
	}
	return false
}

func (x *Exec) load(st *State, addr *Term, typ types.Type, in ssa.Instruction, ctx int) *Term {
	if x.isVol(st, addr) {
		s := x.E.sym(in, ctx, "vol", typ)
		x.refresh(st, s)
		return s
	}
	if addr.k == KIAddr {
		// element contents are not tracked
		if v, ok := st.mem[addr]; ok {
			return v
		}
		if b := addr.a[0]; b.k == KOther && b.op == "slice" && len(b.a) == 4 && b.a[1].op == "_" && b.a[0].k == KAlloc {
			if v, ok := st.mem[x.E.T.mk(Term{k: KIAddr, op: "", a: []*Term{b.a[0], addr.a[1]}})]; ok {
				return v
			}
		}
		return x.E.T.mk(Term{k: KLoad, a: []*Term{addr}, typ: typ})
	}
	v := x.load0(st, addr, typ)
	// struct with overridden fields
	if _, ok := typ.Underlying().(*types.Struct); ok {
		var names []string
		vals := map[string]*Term{}
		for a, fv := range st.mem {
			if a.k == KFAddr && a.a[0] == addr {
				names = append(names, a.op)
				vals[a.op] = fv
			} else if a.k == KFAddr && a != addr && x.addrUnder(a, addr) {
				// nested: find the direct child
				c := a
				for c.a[0] != addr {
					c = c.a[0]
				}
				if vals[c.op] == nil && c.k == KFAddr {
					names = append(names, c.op)
					vals[c.op] = x.load(st, c, fieldType(typ, c.op), in, ctx)
				}
			}
		}
		if len(names) > 0 {
			sort.Strings(names)
			args := []*Term{v}
			var uniq []string
			for i, n := range names {
				if i > 0 && names[i-1] == n {
					continue
				}
				uniq = append(uniq, n)
				args = append(args, vals[n])
			}
			return x.E.T.mk(Term{k: KAgg, op: "|" + strings.Join(uniq, "|"), a: args, typ: typ})
		}
	}
	return v
}

func fieldType(t types.Type, name string) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}

func (x *Exec) load0(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if addr.k == KFAddr {
		base := addr.a[0]
		// does an enclosing object have a whole value?
		if x.covered(st, base) {
			bv := x.load0(st, base, nil)
			return x.E.T.fieldOf(bv, addr.op, typ)
		}
	}
	return x.E.T.mk(Term{k: KLoad, a: []*Term{addr}, typ: typ})
}

func (x *Exec) covered(st *State, a *Term) bool {
	for a != nil {
		if _, ok := st.mem[a]; ok {
			return true
		}
		if a.k == KFAddr {
			a = a.a[0]
			continue
		}
		return false
	}
	return false
}

func (x *Exec) store(st *State, addr, val *Term) {
	for a := range st.mem {
		if a != addr && x.addrUnder(a, addr) {
			delete(st.mem, a)
		}
	}
	// writing a loaded-unchanged value back keeps the structural view
	st.mem[addr] = val
}

// havoc forgets what a callee may have written through arguments.
func (x *Exec) havoc(st *State, roots []*Term, in ssa.Instruction, ctx int) {
	done := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || done[t] {
			return
		}
		done[t] = true
		switch t.k {
		case KClosure:
			for _, b := range t.a {
				if b.k == KAlloc && !writesBinding(t.fn, t, b) {
					// the variable keeps its value; what it points to may change
					for a, v := range st.mem {
						if x.addrUnder(a, b) {
							visit(v)
						}
					}
					continue
				}
				visit(b)
			}
			return
		case KIface, KAgg, KTuple:
			for _, s := range t.a {
				visit(s)
			}
			return
		}
		if t.k == KAlloc || isRepoPtr(x.E.P, t.typ) || t.k == KFAddr || t.k == KIAddr {
			if t.k == KGlobal {
				return
			}
			var under []*Term
			for a := range st.mem {
				if x.addrUnder(a, t) {
					under = append(under, a)
				}
			}
			for _, a := range under {
				visit(st.mem[a])
				delete(st.mem, a)
			}
			s := x.E.T.mk(Term{k: KSym, op: fmt.Sprintf("hv%d@%d:%s", x.E.ins(in), ctx, shortKey(t)), typ: elemOf(t.typ), site: in, ctx: ctx})
			x.refresh(st, s)
			st.mem[t] = s
		}
	}
	for _, r := range roots {
		visit(r)
	}
}

func shortKey(t *Term) string { return t.key }

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isRepoPtr(p *Prog, t types.Type) bool {
	if t == nil {
		return false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch n := pt.Elem().(type) {
	case *types.Named:
		return n.Obj().Pkg() != nil && p.inRep[n.Obj().Pkg()]
	}
	return false
}

// refresh forgets facts about a symbol that is produced anew (loop iteration);
// older copies held in memory become a separate "old" symbol.
func (x *Exec) refresh(st *State, s *Term) {
	used := false
	for f := range st.facts {
		if f.has(s.id) {
			used = true
			break
		}
	}
	if !used {
		for _, v := range st.mem {
			if v.has(s.id) {
				used = true
				break
			}
		}
	}
	if !used {
		for _, t := range st.terms {
			if t.has(s.id) {
				used = true
				break
			}
		}
	}
	if !used && x.R.LoopEvents {
		for i := range st.trace {
			if st.trace[i].mentions(s) {
				used = true
				break
			}
		}
	}
	if !used {
		return
	}
	old := x.E.T.mk(Term{k: KSym, op: "old:" + s.op, typ: s.typ, site: s.site, ctx: s.ctx, call: s.call})
	nf := map[*Term]bool{}
	for f, v := range st.facts {
		if f.has(old.id) {
			continue
		}
		if f.has(s.id) {
			nf[x.E.T.subst(f, s, old)] = v
		} else {
			nf[f] = v
		}
	}
	st.facts = nf
	nm := map[*Term]*Term{}
	for a, v := range st.mem {
		if a.has(s.id) {
			a = x.E.T.subst(a, s, old)
		}
		if v.has(s.id) {
			v = x.E.T.subst(v, s, old)
		}
		nm[a] = v
	}
	st.mem = nm
	for k, t := range st.terms {
		if t.has(s.id) {
			st.terms[k] = x.E.T.subst(t, s, old)
		}
	}
	if x.R.LoopEvents {
		var nt []Event
		seen := map[string]bool{}
		for _, ev := range st.trace {
			if ev.mentions(s) {
				if ev.Sym != nil {
					ev.Sym = x.E.T.subst(ev.Sym, s, old)
				}
				if ev.Val != nil {
					ev.Val = x.E.T.subst(ev.Val, s, old)
				}
				as := make([]*Term, len(ev.Args))
				for i, a := range ev.Args {
					as[i] = a
					if a != nil {
						as[i] = x.E.T.subst(a, s, old)
					}
				}
				ev.Args = as
				ev.setKey()
			}
			if !seen[ev.key] {
				seen[ev.key] = true
				nt = append(nt, ev)
			}
		}
		st.trace = nt
	}
}

func (ev *Event) mentions(s *Term) bool {
	if ev.Sym != nil && ev.Sym.has(s.id) || ev.Val != nil && ev.Val.has(s.id) {
		return true
	}
	for _, a := range ev.Args {
		if a != nil && a.has(s.id) {
			return true
		}
	}
	return false
}

func (ts *Terms) subst(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if !t.has(from.id) {
		return t
	}
	n := *t
	n.a = make([]*Term, len(t.a))
	for i, a := range t.a {
		n.a[i] = ts.subst(a, from, to)
	}
	if n.k == KSym || n.k == KAlloc {
		return t
	}
	n.key, n.syms = "", nil
	return ts.mk(n)
}

// ---- values ----

func (x *Exec) val(fr *frame, p *point, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.E.T.zero(v.Type())
		}
		return x.E.T.ConstVal(v.Value, v.Type())
	case *ssa.Function:
		return x.E.T.mk(Term{k: KFunc, op: v.String(), fn: v, typ: v.Type()})
	case *ssa.Global:
		return x.E.T.mk(Term{k: KGlobal, op: v.String(), typ: v.Type()})
	case *ssa.FreeVar:
		if t := fr.binds[v]; t != nil {
			return t
		}
	case *ssa.Builtin:
		return x.E.T.mk(Term{k: KOther, op: "builtin:" + v.Name()})
	}
	if t := p.env[v]; t != nil {
		return t
	}
	if in, ok := v.(ssa.Instruction); ok {
		return x.E.sym(in, fr.ctx, "u", v.Type())
	}
	return x.E.T.mk(Term{k: KOther, op: "?" + v.Name(), typ: v.Type()})
}

func structField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

var _ = constant.MakeBool

// wrapsNothing: a new error that wraps no other.
func (x *Exec) wrapsNothing(e *Term) bool {
	if e.k != KRes || e.call == nil {
		return false
	}
	switch e.call.Name {
	case "errors.New":
		return true
	case "fmt.Errorf":
		f := e.call.Args[0].strip()
		return f.cst != nil && f.cst.Kind() == constant.String && !strings.Contains(constant.StringVal(f.cst), "%w")
	}
	return false
}
