package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Bytes handed out by the embedded stores are tainted at their source and followed, flow-insensitively, through conversions, slicing, calls (summaries per function), closures and memory roots; they may not reach a variable, result, global, channel, goroutine or callback that outlives the transaction.", checkC08)
}

// labels: bit 0 marks bytes owned by a store, bit i+1 marks what parameter (or captured variable) i held.
type labels uint64

const ownBit labels = 1

func paramBit(i int) labels {
	if i > 61 {
		return 0
	}
	return 1 << (i + 1)
}

// escFn is the summary of one function. Captured variables count as parameters after the declared ones.
type escFn struct {
	fn   *ssa.Function
	vals map[ssa.Value]labels // what the value (or the memory it points to) may alias
	ret  []labels
	eff  []labels // what may be stored into memory reachable from parameter i
	esc  labels   // labels that reach a global, a channel or a goroutine
	ePos token.Pos
	eTo  string
}

type escape struct {
	c       *Ctx
	sum     map[*ssa.Function]*escFn
	inTx    map[*ssa.Function]bool
	taintIn map[*ssa.Function]labels // parameters that hold a store's bytes at some call
	clos    map[*ssa.Function][]*ssa.MakeClosure
	changed bool
	cbArgs  map[*ssa.Function]labels // parameters of literals given to a library, e.g. a value callback
	srcs    int
	calls   int
}

const badgerPkg = "github.com/dgraph-io/badger/v3."

// txHandle: a type whose values are only good inside a transaction.
func txHandle(t types.Type) bool {
	switch typeNameOf(deref(t)) {
	case boltDot + "Tx", boltDot + "Bucket", boltDot + "Cursor", badgerPkg + "Txn", badgerPkg + "Item", badgerPkg + "Iterator":
		return true
	}
	return false
}

// ownedResult: the call returns bytes that belong to the store.
func ownedResult(name string) bool {
	switch name {
	case boltDot + "Bucket.Get", boltDot + "Cursor.First", boltDot + "Cursor.Last", boltDot + "Cursor.Next", boltDot + "Cursor.Prev", boltDot + "Cursor.Seek",
		badgerPkg + "Item.Key":
		return true
	}
	return false
}

// ownedCallback: the call gives bytes that belong to the store to its callback.
func ownedCallback(name string) bool {
	switch name {
	case boltDot + "Bucket.ForEach", badgerPkg + "Item.Value":
		return true
	}
	return false
}

// carries: a value of the type can refer to memory.
func carries(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carries(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return carries(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carries(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Interface:
		return !isErrorType(t)
	case *types.Signature, *types.Chan:
		return false
	}
	return true
}

// aliases: what result i of a library call may share with its arguments.
func (e *escape) aliases(name string, rt types.Type, i int) bool {
	if !carries(rt) {
		return false
	}
	short := name[strings.LastIndex(name, "/")+1:]
	dot := strings.Index(short, ".")
	if dot < 0 {
		return false
	}
	pkg, fn := short[:dot], short[dot+1:]
	if strings.HasSuffix(name, "tinylib/msgp/msgp.ReadBytesBytes") && i == 0 {
		return false
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		// a string made from bytes is a copy, a part of a string is not
		return pkg == "strings" && fn != "Clone" && fn != "ToUpper" && fn != "ToLower" && fn != "Repeat" && fn != "Join"
	}
	switch pkg {
	case "bytes":
		switch fn {
		case "Clone", "ReplaceAll", "Replace", "ToUpper", "ToLower", "Join", "Repeat", "Map", "Title", "ToTitle":
			return false
		}
		return true
	case "bufio", "slices", "maps":
		return fn != "Clone"
	case "strings", "msgp", "reflect", "unsafe", "atomic":
		return true
	case "io":
		return fn != "ReadAll"
	}
	return false
}

func (e *escape) of(fn *ssa.Function) *escFn {
	s := e.sum[fn]
	if s == nil {
		n := len(fn.Params) + len(fn.FreeVars)
		s = &escFn{fn: fn, vals: map[ssa.Value]labels{}, eff: make([]labels, n), ret: make([]labels, fn.Signature.Results().Len())}
		for i, p := range fn.Params {
			if carries(p.Type()) {
				s.vals[p] = paramBit(i)
			}
		}
		for i, p := range fn.FreeVars {
			s.vals[p] = paramBit(len(fn.Params) + i)
		}
		e.sum[fn] = s
		e.changed = true
	}
	return s
}

func (e *escape) add(s *escFn, v ssa.Value, l labels) {
	if l&^s.vals[v] != 0 {
		s.vals[v] |= l
		e.changed = true
	}
}

// holder climbs from an address (or a value) to what owns the memory.
func holder(v ssa.Value) ssa.Value {
	for i := 0; i < 64; i++ {
		switch w := v.(type) {
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			v = w.X
		case *ssa.UnOp:
			if w.Op != token.MUL {
				return v
			}
			v = w.X
		case *ssa.ChangeType:
			v = w.X
		case *ssa.Convert:
			v = w.X
		case *ssa.Slice:
			v = w.X
		case *ssa.MakeInterface:
			v = w.X
		case *ssa.TypeAssert:
			v = w.X
		default:
			return v
		}
	}
	return v
}

// within: the address is a part of the fresh object itself, not of something it refers to.
func within(v, h ssa.Value) bool {
	if _, ok := h.(*ssa.Alloc); !ok {
		return false
	}
	for v != h {
		switch w := v.(type) {
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			v = w.X
		default:
			return false
		}
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			return false
		}
	}
	return true
}

// into records that memory reachable from v may now hold l.
func (e *escape) into(s *escFn, v ssa.Value, l labels, pos token.Pos) {
	if l == 0 {
		return
	}
	h := holder(v)
	if _, ok := h.(*ssa.Global); ok {
		e.out(s, l, pos, "a package variable")
		return
	}
	for i, p := range s.fn.Params {
		if p == h {
			e.effect(s, i, l)
		}
	}
	for i, p := range s.fn.FreeVars {
		if p == h {
			e.effect(s, len(s.fn.Params)+i, l)
		}
	}
	// a memory object that was itself taken from a parameter
	for i := 0; i < len(s.eff); i++ {
		if _, isCall := h.(*ssa.Call); isCall || within(v, h) {
			break
		}
		if s.vals[h]&paramBit(i) != 0 {
			e.effect(s, i, l)
		}
	}
	e.add(s, h, l)
	if v != h {
		e.add(s, v, l)
	}
}

func (e *escape) effect(s *escFn, i int, l labels) {
	l &^= paramBit(i)
	if i < len(s.eff) && l&^s.eff[i] != 0 {
		s.eff[i] |= l
		e.changed = true
	}
}

func (e *escape) out(s *escFn, l labels, pos token.Pos, to string) {
	if l&^s.esc != 0 {
		s.esc |= l
		s.ePos, s.eTo = pos, to
		e.changed = true
	}
}

// use maps labels of a callee to labels at a call.
func use(l labels, args []labels) labels {
	r := l & ownBit
	for i, a := range args {
		if l&paramBit(i) != 0 {
			r |= a
		}
	}
	return r
}

// callee applies the summary of one function that a call may enter.
func (e *escape) callee(s *escFn, g *ssa.Function, args []ssa.Value, pos token.Pos, goes bool) []labels {
	t := e.of(g)
	in := make([]labels, len(args))
	var conc labels
	for i, a := range args {
		in[i] = s.vals[a]
		if e.concrete(s, in[i]) {
			conc |= paramBit(i)
		}
	}
	if conc&^e.taintIn[g] != 0 {
		e.taintIn[g] |= conc
		e.changed = true
	}
	for i, l := range t.eff {
		if i < len(args) {
			e.into(s, args[i], use(l, in), pos)
		}
	}
	if l := use(t.esc, in) &^ ownBit; l != 0 {
		e.out(s, l, pos, "a callee that keeps it")
	}
	if goes {
		for _, l := range in {
			e.out(s, l, pos, "a goroutine")
		}
	}
	out := make([]labels, len(t.ret))
	for i, l := range t.ret {
		out[i] = use(l, in)
	}
	return out
}

// concrete: the labels stand for bytes of a store, in the function or at one of its calls.
func (e *escape) concrete(s *escFn, l labels) bool {
	return l&ownBit != 0 || l&e.taintIn[s.fn] != 0
}

func (e *escape) targets(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		return e.c.E.Implementations(cc.Value.Type(), cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Blocks == nil || !e.c.P.InRepo(f) {
			if o := f.Origin(); o != nil && o.Blocks != nil && e.c.P.InRepo(o) {
				return []*ssa.Function{f}
			}
			if !e.c.P.InRepo(f) {
				return nil
			}
		}
		if f.Blocks != nil {
			return []*ssa.Function{f}
		}
	}
	return nil
}

// literal finds the closure a value was made from.
func literal(v ssa.Value) (*ssa.Function, []ssa.Value) {
	switch w := v.(type) {
	case *ssa.MakeClosure:
		return w.Fn.(*ssa.Function), w.Bindings
	case *ssa.Function:
		return w, nil
	case *ssa.ChangeType:
		return literal(w.X)
	case *ssa.MakeInterface:
		return literal(w.X)
	}
	return nil, nil
}

func (e *escape) call(s *escFn, in ssa.CallInstruction) {
	cc := in.Common()
	v, _ := in.(ssa.Value)
	_, goes := in.(*ssa.Go)
	setRes := func(i int, l labels) {
		if v == nil || l == 0 {
			return
		}
		if tup, ok := v.Type().(*types.Tuple); ok {
			for _, r := range *v.Referrers() {
				if x, ok := r.(*ssa.Extract); ok && x.Index == i && carries(tup.At(i).Type()) {
					e.add(s, x, l)
				}
			}
			return
		}
		if carries(v.Type()) {
			e.add(s, v, l)
		}
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			l := s.vals[args[0]]
			if len(args) > 1 {
				if sl, ok := args[0].Type().Underlying().(*types.Slice); ok && carries(sl.Elem()) {
					l |= s.vals[args[1]]
				}
			}
			setRes(0, l)
		case "copy":
			if sl, ok := args[0].Type().Underlying().(*types.Slice); ok && carries(sl.Elem()) {
				e.into(s, args[0], s.vals[args[1]], in.Pos())
			}
		case "String", "StringData", "SliceData", "Slice", "Add", "min", "max":
			for _, a := range args {
				setRes(0, s.vals[a])
			}
		}
		return
	}
	name := calleeName(cc)
	fns := e.targets(cc)
	if fns != nil {
		for _, g := range fns {
			a := args
			if f, bind := literal(cc.Value); f == g && bind != nil {
				a = append(append([]ssa.Value{}, args...), bind...)
			}
			for i, l := range e.callee(s, g, a, in.Pos(), goes) {
				setRes(i, l)
			}
		}
		return
	}
	if ownedResult(name) {
		if v != nil {
			if _, ok := v.Type().(*types.Tuple); ok {
				setRes(0, ownBit)
				setRes(1, ownBit)
			} else {
				setRes(0, ownBit)
			}
		}
		return
	}
	if ownedCallback(name) {
		for _, a := range args {
			if f, _ := literal(a); f != nil && f.Signature.Params().Len() > 0 {
				all := labels(0)
				for i, p := range f.Params {
					if carries(p.Type()) {
						all |= paramBit(i)
					}
				}
				if all&^e.taintIn[f] != 0 {
					e.taintIn[f] |= all
					e.changed = true
				}
			}
		}
		return
	}
	if name == "" && !cc.IsInvoke() {
		// a function value: what it is given may be kept by whoever made it
		for i, g := range e.dynTargets(cc) {
			_ = i
			for j, l := range e.callee(s, g, args, in.Pos(), goes) {
				setRes(j, l)
			}
		}
		return
	}
	// library call
	if goes {
		for _, a := range args {
			e.out(s, s.vals[a], in.Pos(), "a goroutine")
		}
	}
	if v != nil {
		var rts []types.Type
		if tup, ok := v.Type().(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				rts = append(rts, tup.At(i).Type())
			}
		} else {
			rts = []types.Type{v.Type()}
		}
		for i, rt := range rts {
			if e.aliases(name, rt, i) {
				for _, a := range args {
					setRes(i, s.vals[a])
				}
			}
		}
	}
	// storing into an atomic or a synchronised map keeps the value
	if strings.HasPrefix(name, "sync") && (strings.Contains(name, ".Store") || strings.Contains(name, "Map.") || strings.Contains(name, "Swap")) && len(args) > 1 {
		for _, a := range args[1:] {
			e.into(s, args[0], s.vals[a], in.Pos())
		}
	}
	// a library buffer takes its own copy, a list keeps what it is given
	if strings.HasPrefix(name, "container/") && len(args) > 1 {
		for _, a := range args[1:] {
			e.into(s, args[0], s.vals[a], in.Pos())
		}
	}
}

// dynTargets: literals and functions of the same signature that are used as values.
func (e *escape) dynTargets(cc *ssa.CallCommon) []*ssa.Function {
	if f, _ := literal(cc.Value); f != nil {
		return []*ssa.Function{f}
	}
	sig := cc.Signature()
	key := sigKey(sig)
	return e.c.P.valueFns()[key]
}

// sigKey: the types of a signature, without the names of its parameters.
func sigKey(sig *types.Signature) string {
	k := ""
	for i := 0; i < sig.Params().Len(); i++ {
		k += types.TypeString(sig.Params().At(i).Type(), nil) + ","
	}
	k += ")"
	for i := 0; i < sig.Results().Len(); i++ {
		k += types.TypeString(sig.Results().At(i).Type(), nil) + ","
	}
	return k
}

// valueFns lists, per signature, in-repo functions that are used as values.
func (p *Prog) valueFns() map[string][]*ssa.Function {
	if p.valFns != nil {
		return p.valFns
	}
	p.valFns = map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var ops []*ssa.Value
	for _, fn := range p.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				callee := ssa.Value(nil)
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				ops = in.Operands(ops[:0])
				for i, o := range ops {
					f, ok := (*o).(*ssa.Function)
					if !ok || f.Blocks == nil || seen[f] || i == 0 && callee == ssa.Value(f) {
						continue
					}
					seen[f] = true
					k := sigKey(f.Signature)
					p.valFns[k] = append(p.valFns[k], f)
				}
			}
		}
	}
	return p.valFns
}

func (e *escape) scan(fn *ssa.Function) {
	s := e.of(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				for _, x := range v.Edges {
					e.add(s, v, s.vals[x])
				}
			case *ssa.Slice:
				e.add(s, v, s.vals[v.X])
			case *ssa.ChangeType:
				e.add(s, v, s.vals[v.X])
			case *ssa.ChangeInterface:
				e.add(s, v, s.vals[v.X])
			case *ssa.MakeInterface:
				e.add(s, v, s.vals[v.X])
			case *ssa.TypeAssert:
				if carries(v.AssertedType) {
					e.add(s, v, s.vals[v.X])
				}
			case *ssa.SliceToArrayPointer:
				e.add(s, v, s.vals[v.X])
			case *ssa.Extract:
				if carries(v.Type()) {
					if _, ok := v.Tuple.(*ssa.Call); !ok {
						e.add(s, v, s.vals[v.Tuple])
					}
				}
			case *ssa.Convert:
				// string([]byte) and []byte(string) copy, every other conversion keeps the memory
				_, fb := v.X.Type().Underlying().(*types.Slice)
				_, tb := v.Type().Underlying().(*types.Slice)
				if (fb || tb) && !types.Identical(v.X.Type().Underlying(), v.Type().Underlying()) {
					break
				}
				if carries(v.Type()) {
					e.add(s, v, s.vals[v.X])
				}
			case *ssa.FieldAddr:
				e.add(s, v, s.vals[v.X])
			case *ssa.IndexAddr:
				e.add(s, v, s.vals[v.X])
			case *ssa.Field:
				if carries(v.Type()) {
					e.add(s, v, s.vals[v.X])
				}
			case *ssa.Index:
				if carries(v.Type()) {
					e.add(s, v, s.vals[v.X])
				}
			case *ssa.Lookup:
				if carries(v.Type()) {
					e.add(s, v, s.vals[v.X])
				}
			case *ssa.Range:
				e.add(s, v, s.vals[v.X])
			case *ssa.Next:
				e.add(s, v, s.vals[v.Iter])
			case *ssa.UnOp:
				if v.Op == token.MUL && carries(v.Type()) {
					e.add(s, v, s.vals[v.X])
				}
			case *ssa.BinOp:
				// concatenating strings copies
			case *ssa.Store:
				if carries(v.Val.Type()) {
					e.into(s, v.Addr, s.vals[v.Val], v.Pos())
				}
			case *ssa.MapUpdate:
				if carries(v.Key.Type()) {
					e.into(s, v.Map, s.vals[v.Key], v.Pos())
				}
				if carries(v.Value.Type()) {
					e.into(s, v.Map, s.vals[v.Value], v.Pos())
				}
			case *ssa.Send:
				e.out(s, s.vals[v.X], v.Pos(), "a channel")
			case *ssa.Select:
				for _, st := range v.States {
					if st.Send != nil {
						e.out(s, s.vals[st.Send], v.Pos(), "a channel")
					}
				}
			case *ssa.MakeClosure:
				f := v.Fn.(*ssa.Function)
				t := e.of(f)
				var conc labels
				for i, bd := range v.Bindings {
					pi := len(f.Params) + i
					if e.concrete(s, s.vals[bd]) {
						conc |= paramBit(pi)
					}
					if pi < len(t.eff) {
						l := labels(0)
						// what the literal stores: bytes of a store, or what its own parameters hold when they are
						if t.eff[pi]&ownBit != 0 || t.eff[pi]&e.taintIn[f] != 0 {
							l |= ownBit
						}
						for j, b2 := range v.Bindings {
							if j != i && t.eff[pi]&paramBit(len(f.Params)+j) != 0 {
								l |= s.vals[b2]
							}
						}
						e.into(s, bd, l, v.Pos())
					}
				}
				if conc&^e.taintIn[f] != 0 {
					e.taintIn[f] |= conc
					e.changed = true
				}
			case *ssa.Return:
				for i, r := range v.Results {
					if l := s.vals[r]; l&^s.ret[i] != 0 && carries(r.Type()) {
						s.ret[i] |= l
						e.changed = true
					}
				}
			case ssa.CallInstruction:
				e.call(s, v)
			}
		}
	}
}

// within computes the functions that only run while a transaction is open.
func (e *escape) within() {
	e.inTx = map[*ssa.Function]bool{}
	for _, fn := range e.c.P.Fns {
		sig := fn.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if txHandle(sig.Params().At(i).Type()) {
				e.inTx[fn] = true
			}
		}
		if fn.Signature.Recv() != nil {
			if txHandle(sig.Recv().Type()) {
				e.inTx[fn] = true
			}
		}
		e.c.calls(fn, func(in ssa.CallInstruction, n string) {
			if ownedCallback(n) {
				for _, a := range in.Common().Args {
					if f, _ := literal(a); f != nil {
						e.inTx[f] = true
					}
				}
			}
		})
	}
	g := e.c.E.Graph()
	for again := true; again; {
		again = false
		for _, fn := range e.c.P.Fns {
			if e.inTx[fn] {
				continue
			}
			if fn.Parent() != nil {
				if e.inTx[fn.Parent()] {
					e.inTx[fn], again = true, true
				}
				continue
			}
			if o, ok := fn.Object().(*types.Func); !ok || o.Exported() || len(g.In[fn]) == 0 {
				continue
			}
			all := true
			for _, p := range g.In[fn] {
				if !e.inTx[p] {
					all = false
				}
			}
			if all {
				e.inTx[fn], again = true, true
			}
		}
	}
}

func checkC08(c *Ctx) {
	c.Rule("no-escape", "bytes owned by the embedded store do not reach memory, a result or a callback of code that runs outside the transaction")
	c.Rule("no-outlet", "bytes owned by the embedded store are not put into a package variable, a channel or a goroutine")
	c.Rule("no-scribble", "bytes owned by the embedded store are never written to: no element is assigned, nothing is appended to or copied into them")
	e := &escape{c: c, sum: map[*ssa.Function]*escFn{}, taintIn: map[*ssa.Function]labels{}}
	e.within()
	for i := 0; i < 40; i++ {
		e.changed = false
		for _, fn := range c.P.Fns {
			e.scan(fn)
		}
		if !e.changed {
			break
		}
	}
	if e.changed {
		c.undecided = append(c.undecided, "no fixed point after 40 rounds")
	}
	sources, touched := 0, 0
	for _, fn := range c.P.Fns {
		s := e.sum[fn]
		if s == nil {
			continue
		}
		key := stableKey(fn)
		holds := false
		for _, l := range s.vals {
			if e.concrete(s, l) {
				holds = true
			}
		}
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			if ownedResult(n) || ownedCallback(n) {
				sources++
			}
		})
		if !holds {
			continue
		}
		touched++
		c.fnsSeen[fn] = true
		if e.concrete(s, s.esc) {
			c.Bad("no-outlet", key, s.ePos, "bytes that belong to the store are given to %s and are used after the transaction that owns them ended", s.eTo)
		} else {
			c.Ok("no-outlet", key)
		}
		e.scribbles(s, key)
		if e.inTx[fn] {
			c.Ok("no-escape", key)
			continue
		}
		// outside: nothing that lives here may hold a store's own bytes
		bad := false
		for v, l := range s.vals {
			if l&ownBit == 0 {
				continue
			}
			bad = true
			c.Bad("no-escape", key, v.Pos(), "%s holds bytes (or a string over bytes) that belong to the store after the transaction ended: the page may be reused or unmapped, so the value changes or the process crashes", describe(v))
		}
		if !bad {
			c.Ok("no-escape", key)
		}
	}
	c.Count("sources", sources)
	c.Count("functions that hold store bytes", touched)
	c.Min("no-escape", 25)
	c.Min("no-outlet", 25)
	c.Min("no-scribble", 1)
}

func describe(v ssa.Value) string {
	switch w := v.(type) {
	case *ssa.Alloc:
		if w.Comment != "" {
			return "variable " + w.Comment
		}
	case *ssa.Parameter:
		return "what parameter " + w.Name() + " points to"
	case *ssa.FreeVar:
		return "captured variable " + w.Name()
	case *ssa.Call:
		return "the result of " + calleeName(w.Common())
	case *ssa.Extract:
		if cl, ok := w.Tuple.(*ssa.Call); ok {
			return "a result of " + calleeName(cl.Common())
		}
	}
	return "a value"
}

// scribbles: writes through store-owned slices.
func (e *escape) scribbles(s *escFn, key string) {
	c := e.c
	isBytes := func(v ssa.Value) bool {
		sl, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				if ia, ok := v.Addr.(*ssa.IndexAddr); ok && isBytes(ia.X) {
					c.Check(!e.concrete(s, s.vals[ia.X]), "no-scribble", key, v.Pos(), "a byte of the store's own memory is assigned")
				}
			case *ssa.Call:
				if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") && isBytes(v.Call.Args[0]) {
					full := false
					if sl, ok := v.Call.Args[0].(*ssa.Slice); ok && sl.Max != nil {
						full = true
					}
					c.Check(full || !e.concrete(s, s.vals[v.Call.Args[0]]), "no-scribble", key, v.Pos(), "%s writes into the store's own memory behind the value it read", bi.Name())
				}
			}
		}
	}
}
