package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// block runs the instructions of one basic block and returns the successor
// points and the function returns reached.
func (x *Exec) block(fr *frame, p *point) ([]point, []outcome) {
	T := x.E.T
	var nexts []point
	var rets []outcome
	env, st := p.env, p.st
	_ = st
	for i := p.i; i < len(p.b.Instrs); i++ {
		in := p.b.Instrs[i]
		x.Steps++
		if x.R.OnInstr != nil {
			x.R.OnInstr(x, p.st, in)
		}
		switch v := in.(type) {
		case *ssa.Phi:
			// evaluated on edges
		case *ssa.DebugRef:
		case *ssa.Alloc:
			a := T.mk(Term{k: KAlloc, op: fmt.Sprintf("al%d@%d", x.E.ins(in), fr.ctx), typ: v.Type(), site: in, ctx: fr.ctx})
			for k := 1; x.R.Unroll > 0 && k <= x.R.Unroll; k++ {
				if _, had := p.st.mem[a]; !had {
					break
				}
				a = T.mk(Term{k: KAlloc, op: fmt.Sprintf("al%d@%d#%d", x.E.ins(in), fr.ctx, k), typ: v.Type(), site: in, ctx: fr.ctx})
			}
			if _, had := p.st.mem[a]; had {
				x.refresh(p.st, a)
			}
			x.store(p.st, a, T.zero(v.Type().Underlying().(*types.Pointer).Elem()))
			env[v] = a
		case *ssa.BinOp:
			env[v] = x.widen(p.st, in, fr.ctx, T.bin(v.Op.String(), x.val(fr, p, v.X), x.val(fr, p, v.Y), v.Type()))
		case *ssa.UnOp:
			a := x.val(fr, p, v.X)
			switch v.Op {
			case token.MUL:
				t := x.load(p.st, a, v.Type(), in, fr.ctx)
				if t.k == KLoad && chased(t) > 3+x.R.Unroll {
					// a chain followed around a loop
					s := x.E.sym(in, fr.ctx, "acc", t.typ)
					x.refresh(p.st, s)
					t = s
				}
				env[v] = t
			case token.NOT:
				env[v] = T.not(a)
			case token.ARROW:
				s := x.E.sym(in, fr.ctx, "rcv", v.Type())
				x.refresh(p.st, s)
				if v.CommaOk {
					env[v] = T.mk(Term{k: KTuple, op: "tuple", a: []*Term{T.mk(Term{k: KRes, op: "0", a: []*Term{s}, typ: v.X.Type().Underlying().(*types.Chan).Elem()}), T.mk(Term{k: KRes, op: "1", a: []*Term{s}, typ: types.Typ[types.Bool]})}})
				} else {
					env[v] = s
				}
			default:
				env[v] = T.mk(Term{k: KOther, op: v.Op.String(), a: []*Term{a}, typ: v.Type()})
			}
		case *ssa.ChangeType:
			env[v] = x.val(fr, p, v.X)
		case *ssa.Convert:
			env[v] = x.val(fr, p, v.X)
		case *ssa.MultiConvert:
			env[v] = x.val(fr, p, v.X)
		case *ssa.SliceToArrayPointer:
			env[v] = x.val(fr, p, v.X)
		case *ssa.ChangeInterface:
			env[v] = x.val(fr, p, v.X)
		case *ssa.MakeInterface:
			env[v] = T.mk(Term{k: KIface, op: types.TypeString(v.X.Type(), nil), a: []*Term{x.val(fr, p, v.X)}, typ: v.X.Type()})
		case *ssa.MakeClosure:
			var bs []*Term
			for _, b := range v.Bindings {
				bs = append(bs, x.val(fr, p, b))
			}
			fn := v.Fn.(*ssa.Function)
			env[v] = T.mk(Term{k: KClosure, op: fn.String() + "@" + strconv.Itoa(x.E.ins(in)), a: bs, fn: fn, typ: v.Type(), site: in, ctx: fr.ctx})
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
			s := T.mk(Term{k: KAlloc, op: fmt.Sprintf("mk%d@%d", x.E.ins(in), fr.ctx), typ: in.(ssa.Value).Type(), site: in, ctx: fr.ctx})
			env[in.(ssa.Value)] = s
		case *ssa.FieldAddr:
			env[v] = T.mk(Term{k: KFAddr, op: structField(v.X.Type(), v.Field), a: []*Term{x.val(fr, p, v.X)}, typ: v.Type()})
		case *ssa.Field:
			env[v] = T.fieldOf(x.val(fr, p, v.X), structField(v.X.Type(), v.Field), v.Type())
		case *ssa.IndexAddr:
			env[v] = T.mk(Term{k: KIAddr, op: "", a: []*Term{x.val(fr, p, v.X), x.val(fr, p, v.Index)}, typ: v.Type()})
		case *ssa.Index:
			env[v] = T.mk(Term{k: KOther, op: "index", a: []*Term{x.val(fr, p, v.X), x.val(fr, p, v.Index)}, typ: v.Type()})
		case *ssa.Lookup:
			t := T.mk(Term{k: KLookup, op: "", a: []*Term{x.val(fr, p, v.X), x.val(fr, p, v.Index)}, typ: v.Type(), site: in, ctx: fr.ctx})
			if val, found, ok := x.constLookup(p.st, fr, p, t, v); ok {
				if v.CommaOk {
					f := T.False()
					if found {
						f = T.True()
					}
					env[v] = T.mk(Term{k: KTuple, op: "tuple", a: []*Term{val, f}})
				} else {
					env[v] = val
				}
				continue
			}
			if v.CommaOk {
				tt := v.Type().(*types.Tuple)
				env[v] = T.mk(Term{k: KTuple, op: "tuple", a: []*Term{
					T.mk(Term{k: KRes, op: "0", a: []*Term{t}, typ: tt.At(0).Type()}),
					T.mk(Term{k: KRes, op: "1", a: []*Term{t}, typ: tt.At(1).Type()})}})
			} else {
				env[v] = t
			}
		case *ssa.Slice:
			xv := x.val(fr, p, v.X)
			args := []*Term{xv}
			for _, o := range []ssa.Value{v.Low, v.High, v.Max} {
				if o != nil {
					args = append(args, x.val(fr, p, o))
				} else {
					args = append(args, T.mk(Term{k: KOther, op: "_"}))
				}
			}
			env[v] = x.widen(p.st, in, fr.ctx, T.mk(Term{k: KOther, op: "slice", a: args, typ: v.Type()}))
		case *ssa.Range:
			env[v] = T.mk(Term{k: KOther, op: fmt.Sprintf("range%d@%d", x.E.ins(in), fr.ctx), a: []*Term{x.val(fr, p, v.X)}})
		case *ssa.Next:
			s := x.E.sym(in, fr.ctx, "next", v.Type())
			x.refresh(p.st, s)
			tt := v.Type().(*types.Tuple)
			var parts []*Term
			for j := 0; j < tt.Len(); j++ {
				parts = append(parts, T.mk(Term{k: KRes, op: strconv.Itoa(j), a: []*Term{s}, typ: tt.At(j).Type()}))
			}
			env[v] = T.mk(Term{k: KTuple, op: "tuple", a: parts})
		case *ssa.TypeAssert:
			xv := x.val(fr, p, v.X)
			ok := x.typeTest(xv, v.AssertedType)
			val := xv
			if xv.k == KIface && !types.IsInterface(v.AssertedType) {
				val = xv.a[0]
			}
			if v.CommaOk {
				env[v] = T.mk(Term{k: KTuple, op: "tuple", a: []*Term{val, ok}})
			} else {
				env[v] = val
			}
		case *ssa.Extract:
			t := x.val(fr, p, v.Tuple)
			if t.k == KTuple && v.Index < len(t.a) {
				env[v] = t.a[v.Index]
			} else {
				env[v] = T.mk(Term{k: KRes, op: strconv.Itoa(v.Index), a: []*Term{t}, typ: v.Type()})
			}
		case *ssa.Select:
			s := x.E.sym(in, fr.ctx, "sel", v.Type())
			x.refresh(p.st, s)
			tt := v.Type().(*types.Tuple)
			var parts []*Term
			for j := 0; j < tt.Len(); j++ {
				parts = append(parts, T.mk(Term{k: KRes, op: strconv.Itoa(j), a: []*Term{s}, typ: tt.At(j).Type()}))
			}
			env[v] = T.mk(Term{k: KTuple, op: "tuple", a: parts, site: in})
		case *ssa.Store:
			a, val := x.val(fr, p, v.Addr), x.val(fr, p, v.Val)
			if x.R.OnStore != nil {
				x.R.OnStore(x, p.st, a, val, in)
			}
			if a.k == KIAddr && a.a[1].k != KConst {
				for m := range p.st.mem {
					if m.k == KIAddr && m.a[0] == a.a[0] {
						delete(p.st.mem, m)
					}
				}
				if x.R.Elements {
					x.store(p.st, a, val)
				}
			} else {
				x.store(p.st, a, val)
			}
		case *ssa.MapUpdate:
			if x.R.OnStore != nil {
				a := T.mk(Term{k: KLookup, op: "", a: []*Term{x.val(fr, p, v.Map), x.val(fr, p, v.Key)}})
				x.R.OnStore(x, p.st, a, x.val(fr, p, v.Value), in)
			}
		case *ssa.Send:
			if x.R.OnSend != nil {
				x.R.OnSend(x, p.st, x.val(fr, p, v.Chan), x.val(fr, p, v.X), in)
			}
		case *ssa.Defer:
			c, clo := x.callInfo(fr, p, &v.Call, in)
			p.defs = append(append([]deferred(nil), p.defs...), deferred{v, c, clo})
		case *ssa.Go:
			c, clo := x.callInfo(fr, p, &v.Call, in)
			inline := x.R.OnGo != nil && x.R.OnGo(x, p.st, c)
			if inline {
				fr.callPin = x.pinFor(fr, p, i)
				outs := x.invoke(fr, p.st, c, clo)
				return x.resume(fr, p, i, nil, outs)
			}
			// captured variables may now change at any time
			if clo != nil {
				for _, b := range clo.a {
					if b.k == KAlloc && writesBinding(clo.fn, clo, b) {
						p.st.vol[b] = true
					}
				}
			}
		case *ssa.RunDefers:
			if len(p.defs) > 0 {
				d := p.defs[len(p.defs)-1]
				p.defs = p.defs[: len(p.defs)-1 : len(p.defs)-1]
				// the arguments were evaluated at the defer statement
				fr.callPin = x.pinFor(fr, p, i)
				outs := x.invoke(fr, p.st, d.call, d.clo)
				return x.resume(fr, p, i-1, nil, outs) // run the next deferred call
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				env[v] = x.builtin(fr, p, b, v)
				continue
			}
			c, clo := x.callInfo(fr, p, &v.Call, in)
			fr.callPin = x.pinFor(fr, p, i)
			outs := x.invoke(fr, p.st, c, clo)
			return x.resume(fr, p, i, v, outs)
		case *ssa.Jump:
			x.edge(fr, p, p.b.Succs[0], p.st, &nexts)
		case *ssa.If:
			c := x.val(fr, p, v.Cond)
			r := x.Eval(p.st, c)
			if r != No {
				s := p.st
				if r == Unknown {
					s = p.st.clone()
				}
				if x.Assume(s, c, true) {
					x.branched(s)
					x.edge(fr, p, p.b.Succs[0], s, &nexts)
				}
			}
			if r != Yes {
				s := p.st
				if r == Unknown {
					s = p.st.clone()
				}
				if x.Assume(s, c, false) {
					x.branched(s)
					x.edge(fr, p, p.b.Succs[1], s, &nexts)
				}
			}
		case *ssa.Return:
			var res []*Term
			for _, r := range v.Results {
				res = append(res, x.val(fr, p, r))
			}
			rets = append(rets, outcome{p.st, res, in})
		case *ssa.Panic:
			if x.R.OnPanic != nil {
				x.R.OnPanic(x, p.st, in)
			}
		}
	}
	return nexts, rets
}

// pinFor collects the symbols needed after instruction i.
func (x *Exec) pinFor(fr *frame, p *point, i int) map[int]bool {
	pin := make(map[int]bool, len(fr.pin)+8)
	for s := range fr.pin {
		pin[s] = true
	}
	add := func(t *Term) {
		if t != nil {
			for _, s := range t.syms {
				pin[s] = true
			}
		}
	}
	lv := x.E.liveOf(fr.fn)
	for v, t := range p.env {
		if lv.out[p.b.Index][v] {
			add(t)
		}
	}
	var ops []*ssa.Value
	for j := i; j < len(p.b.Instrs); j++ {
		ops = p.b.Instrs[j].Operands(ops[:0])
		for _, o := range ops {
			if *o != nil {
				add(p.env[*o])
			}
		}
	}
	for _, d := range p.defs {
		for _, a := range d.call.Args {
			add(a)
		}
		add(d.clo)
	}
	return pin
}

// resume continues after instruction i for every outcome of a call.
func (x *Exec) resume(fr *frame, p *point, i int, v ssa.Value, outs []Outcome) ([]point, []outcome) {
	var nexts []point
	for _, o := range outs {
		env := make(map[ssa.Value]*Term, len(p.env)+1)
		for k, t := range p.env {
			env[k] = t
		}
		if v != nil {
			if len(o.Res) == 1 {
				env[v] = o.Res[0]
			} else {
				env[v] = x.E.T.mk(Term{k: KTuple, op: "tuple", a: o.Res})
			}
		}
		nexts = append(nexts, point{b: p.b, i: i + 1, env: env, st: o.St, defs: p.defs})
	}
	return nexts, nil
}

// edge transfers to a successor, evaluating phis.
func (x *Exec) edge(fr *frame, p *point, to *ssa.BasicBlock, st *State, nexts *[]point) {
	idx := -1
	for j, pr := range to.Preds {
		if pr == p.b {
			idx = j
			break
		}
	}
	st = st.clone()
	env := make(map[ssa.Value]*Term, len(p.env))
	for k, t := range p.env {
		env[k] = t
	}
	back := to.Dominates(p.b)
	if back && x.R.Unroll > 0 {
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if t := x.val(fr, p, ph.Edges[idx]); t.k == KConst && t.cst != nil && t.cst.Kind() == constant.Int && t != p.env[ph] {
				if n, ok := constant.Int64Val(t.cst); ok && n < int64(x.R.Unroll) {
					back = false
				}
			}
		}
	}
	type upd struct {
		v *ssa.Phi
		t *Term
	}
	var ups []upd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := x.val(fr, p, ph.Edges[idx])
		if back && (t.k != KConst || x.R.Unroll > 0) {
			cur := p.env[ph]
			if cur != t {
				s := x.E.sym(ph, fr.ctx, "phi", ph.Type())
				nil1 := x.nilness(st, t)
				b1 := x.Eval(st, t)
				if t != s {
					x.refresh(st, s)
					if nil1 != Unknown {
						x.Assume(st, x.E.T.bin("==", s, x.E.T.Nil(), types.Typ[types.Bool]), nil1 == Yes)
					} else if b1 != Unknown {
						x.Assume(st, s, b1 == Yes)
					}
					if t.k == KRes && isErrorType(ph.Type()) {
						x.renamed(st, t, s)
					}
				}
				t = s
			}
		}
		ups = append(ups, upd{ph, t})
	}
	for _, u := range ups {
		env[u.v] = u.t
	}
	*nexts = append(*nexts, point{b: to, env: env, st: st, defs: p.defs})
}

func (x *Exec) typeTest(v *Term, t types.Type) *Term {
	if v.k == KIface && v.typ != nil {
		if types.IsInterface(t) {
			if types.Implements(v.typ, t.Underlying().(*types.Interface)) {
				return x.E.T.True()
			}
			return x.E.T.False()
		}
		if types.Identical(v.typ, t) {
			return x.E.T.True()
		}
		return x.E.T.False()
	}
	return x.E.T.mk(Term{k: KTypeIs, op: types.TypeString(t, nil), a: []*Term{v}, typ: types.Typ[types.Bool]})
}

func (x *Exec) builtin(fr *frame, p *point, b *ssa.Builtin, v *ssa.Call) *Term {
	var args []*Term
	for _, a := range v.Call.Args {
		args = append(args, x.val(fr, p, a))
	}
	switch b.Name() {
	case "len", "cap":
		return x.E.T.mk(Term{k: KPure, op: b.Name(), a: args, typ: v.Type()})
	case "append":
		if x.R.OnAppend != nil {
			x.R.OnAppend(x, p.st, args, v)
		}
		return x.widen(p.st, v, fr.ctx, x.E.T.mk(Term{k: KOther, op: "append", a: args, typ: v.Type()}))
	}
	if x.R.OnCall != nil && (b.Name() == "close" || b.Name() == "delete" || b.Name() == "copy") {
		c := &CallInfo{Site: v, Common: &v.Call, Args: args, Name: "builtin." + b.Name(), Ctx: fr.ctx, Caller: fr.fn, Depth: fr.depth}
		c.Sym = x.E.sym(v, fr.ctx, "c", nil)
		x.R.OnCall(x, p.st, c)
	}
	return x.E.T.mk(Term{k: KOther, op: "builtin:" + b.Name(), a: args, typ: v.Type()})
}

// FullName gives "pkg/path.Func", "(pkg/path.Type).Method" with pointers and type arguments erased.
func FullName(f *types.Func) string {
	if f == nil {
		return ""
	}
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path() + "."
			}
			return pk + n.Obj().Name() + "." + f.Name()
		}
		pk := ""
		if f.Pkg() != nil {
			pk = f.Pkg().Path() + "."
		}
		return pk + "interface." + f.Name()
	}
	if f.Pkg() == nil {
		return f.Name()
	}
	return f.Pkg().Path() + "." + f.Name()
}

// callInfo resolves the callee and evaluates the arguments.
func (x *Exec) callInfo(fr *frame, p *point, cc *ssa.CallCommon, in ssa.Instruction) (*CallInfo, *Term) {
	c := &CallInfo{Site: in, Common: cc, Ctx: fr.ctx, Depth: fr.depth, Caller: fr.fn}
	var clo *Term
	if cc.IsInvoke() {
		c.Obj = cc.Method
		c.Args = append(c.Args, x.val(fr, p, cc.Value))
		for _, a := range cc.Args {
			c.Args = append(c.Args, x.val(fr, p, a))
		}
		c.Name = FullName(cc.Method)
		// a receiver of known dynamic type resolves the method
		if r := c.Args[0]; r.k == KIface && r.typ != nil {
			if fn := x.E.P.SSA.LookupMethod(r.typ, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				c.Fn = fn
				if o, ok := fn.Object().(*types.Func); ok {
					c.Name = FullName(o)
				}
				c.Args[0] = r.a[0]
			}
		}
	} else {
		for _, a := range cc.Args {
			c.Args = append(c.Args, x.val(fr, p, a))
		}
		switch f := cc.Value.(type) {
		case *ssa.Function:
			c.Fn = f
		case *ssa.Builtin:
			c.Name = "builtin." + f.Name()
		default:
			t := x.val(fr, p, cc.Value).strip()
			switch t.k {
			case KClosure:
				c.Fn, clo = t.fn, t
			case KFunc:
				c.Fn = t.fn
			default:
				c.Name = "dynamic:" + t.Pretty()
				clo = t
			}
		}
		if c.Fn != nil {
			if b := boundTarget(c.Fn); b != nil && clo != nil && len(clo.a) == 1 {
				// method value: call the method on the bound receiver
				recv := clo.a[0]
				c.Args = append([]*Term{recv}, c.Args...)
				clo = nil
				c.Fn = x.E.fnOf(b)
				c.Obj = b
				c.Name = FullName(b)
				if c.Fn == nil && types.IsInterface(b.Type().(*types.Signature).Recv().Type()) {
					if recv.k == KIface {
						if fn := x.E.P.SSA.LookupMethod(recv.typ, b.Pkg(), b.Name()); fn != nil {
							c.Fn = fn
							c.Args[0] = recv.a[0]
						}
					}
				}
			}
		}
		if c.Fn != nil && c.Obj == nil {
			f := c.Fn
			if f.Origin() != nil {
				f = f.Origin()
			}
			if o, ok := f.Object().(*types.Func); ok {
				c.Obj = o
				c.Name = FullName(o)
			} else {
				c.Name = f.String()
			}
		}
	}
	c.Closure = clo
	c.Sym = x.E.sym(in, fr.ctx, "c", nil)
	c.Sym.call = c
	return c, clo
}

func boundTarget(fn *ssa.Function) *types.Func {
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		if o, ok := fn.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

func (e *Engine) fnOf(o *types.Func) *ssa.Function {
	if f := e.P.SSA.FuncValue(o); f != nil && f.Blocks != nil {
		return f
	}
	return nil
}

// argument index of a callback that the external callee invokes exactly once
// synchronously, and whose error it returns.
var callbackOnce = map[string]int{
	"go.etcd.io/bbolt.DB.Update":               1,
	"go.etcd.io/bbolt.DB.View":                 1,
	"go.etcd.io/bbolt.DB.Batch":                1,
	"github.com/dgraph-io/badger/v3.DB.View":   1,
	"github.com/dgraph-io/badger/v3.DB.Update": 1,
	"github.com/dgraph-io/badger/v4.DB.View":   1,
	"github.com/dgraph-io/badger/v4.DB.Update": 1,
	"sync.Once.Do":                             1,
}

// external packages whose functions do not write through repo pointers they are given
func readsOnly(name string) bool {
	if strings.HasSuffix(name, ".MarshalMsg") || strings.HasSuffix(name, ".Msgsize") {
		return true
	}
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "time.", "github.com/sirupsen/logrus.", "path/filepath.", "net/url.", "sort.", "math.", "bytes.", "sync.", "sync/atomic.", "os.", "context."} {
		if strings.HasPrefix(name, p) {
			if strings.HasPrefix(name, "fmt.Sscan") || strings.HasPrefix(name, "errors.As") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "sort.") {
				return false
			}
			return true
		}
	}
	return false
}

// pure external functions: equal arguments give equal results
var pureFns = map[string]bool{
	"errors.Is": true, "os.IsNotExist": true, "os.IsExist": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"strings.Contains": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.TrimSpace": true,
	"path/filepath.Join": true, "path/filepath.Dir": true, "path/filepath.Base": true, "bytes.Equal": true,
	"fmt.Sprint": true, "fmt.Sprintf": true, "strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true,
	"math.Ceil": true, "math.Floor": true, "strings.Join": true, "net/url.PathEscape": true, "net/url.QueryEscape": true,
}

// zero-copy views of the same bytes
var identityFns = map[string]bool{"common/util.StrToBytes": true, "common/util.BytesToStr": true}

// external functions that call an argument any number of times and hand back its first error
var callbackEach = map[string]int{
	"go.etcd.io/bbolt.Bucket.ForEach":       1,
	"go.etcd.io/bbolt.Bucket.ForEachBucket": 1,
	"go.etcd.io/bbolt.Tx.ForEach":           1,
}

// results that are never nil
var neverNil = map[string]bool{"fmt.Errorf": true, "errors.New": true, "errors.Join": false}

func (x *Exec) fresh(st *State, c *CallInfo) []*Term {
	sig := c.Common.Signature()
	n := sig.Results().Len()
	if pureFns[c.Name] && n == 1 {
		args := c.Args
		if v := variadicArgs(x, st, c); v != nil {
			args = v
		}
		if c.Name == "os.IsExist" || c.Name == "os.IsNotExist" {
			if x.nilness(st, args[0].strip()) == Yes {
				return []*Term{x.E.T.ConstVal(constant.MakeBool(false), types.Typ[types.Bool])}
			}
			// an error that was made up is none of the system's: they do not look into it
			if o := args[0].strip(); o.k == KRes && o.a[0].call != nil && neverNil[o.a[0].call.Name] {
				return []*Term{x.E.T.ConstVal(constant.MakeBool(false), types.Typ[types.Bool])}
			}
		}
		if c.Name == "fmt.Sprint" {
			all, txt := true, ""
			for _, a := range args {
				a = a.strip()
				if a.k != KConst || a.cst == nil || a.cst.Kind() != constant.String {
					all = false
					break
				}
				txt += constant.StringVal(a.cst)
			}
			if all {
				return []*Term{x.E.T.ConstVal(constant.MakeString(txt), types.Typ[types.String])}
			}
		}
		return []*Term{x.widen(st, c.Site, c.Ctx, x.E.T.mk(Term{k: KPure, op: c.Name, a: args, typ: sig.Results().At(0).Type(), call: c}))}
	}
	var res []*Term
	for i := 0; i < n; i++ {
		res = append(res, x.E.Res(c, i))
	}
	if n == 1 && (neverNil[c.Name] || strings.HasPrefix(c.Name, "google.golang.org/grpc/status.Error")) {
		x.Assume(st, x.E.T.bin("==", res[0], x.E.T.Nil(), types.Typ[types.Bool]), false)
	}
	if c.Name == "errors.Join" && len(c.Args) == 1 {
		// collected errors are non-nil ones
		el := x.Elems(st, c.Args[0])
		if len(el) == 1 && el[0] == c.Args[0] {
			el = nil
		}
		nilp := x.E.T.bin("==", res[0], x.E.T.Nil(), types.Typ[types.Bool])
		all, some := len(el) > 0, false
		for _, e := range el {
			switch x.nilness(st, e) {
			case No:
				some = true
				all = false
			case Unknown:
				all = false
			}
		}
		if all {
			x.Assume(st, nilp, true)
		} else if some || len(el) == 0 && x.knownFull(st, c.Args[0]) {
			x.Assume(st, nilp, false)
		}
	}
	return res
}

// knownFull: the path saw the slice to have elements.
func (x *Exec) knownFull(st *State, s *Term) bool {
	if _, made := s.strip().site.(*ssa.MakeSlice); made {
		return false // of nil elements
	}
	if lo, _ := lenBounds(s); lo > 0 {
		return true
	}
	for f, v := range st.facts {
		if f.k != KBin {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := f.a[i], f.a[1-i]
			if !isLen(a) || a.a[0].strip() != s.strip() {
				continue
			}
			switch {
			case f.op == "==" && !v && isInt(b, 0):
				return true
			case f.op == "<" && i == 1 && v && isInt(b, 0):
				return true
			}
		}
	}
	return false
}

// variadicArgs expands the variadic slice built at the call site.
func variadicArgs(x *Exec, st *State, c *CallInfo) []*Term {
	sig := c.Common.Signature()
	if !sig.Variadic() || len(c.Args) == 0 {
		return nil
	}
	return append(append([]*Term(nil), c.Args[:len(c.Args)-1]...), x.Elems(st, c.Args[len(c.Args)-1])...)
}

// Elems lists the known elements of a slice literal.
func (x *Exec) Elems(st *State, s *Term) []*Term {
	if s.k == KOther && s.op == "slice" && s.a[0].k == KAlloc {
		base := s.a[0]
		var out []*Term
		for i := 0; i < 64; i++ {
			a := x.E.T.mk(Term{k: KIAddr, op: "", a: []*Term{base, x.E.T.ConstVal(constant.MakeInt64(int64(i)), types.Typ[types.Int])}})
			v, ok := st.mem[a]
			if !ok {
				break
			}
			out = append(out, v)
		}
		return out
	}
	if s.k == KConst {
		return nil
	}
	return []*Term{s}
}

// invoke performs a call and returns its outcomes.
func (x *Exec) invoke(fr *frame, st *State, c *CallInfo, clo *Term) []Outcome {
	act := ActDefault
	x.refresh(st, c.Sym)
	if x.R.OnCall != nil {
		act = x.R.OnCall(x, st, c)
	}
	if identityFns[c.Name] && len(c.Args) == 1 {
		return []Outcome{{st, []*Term{c.Args[0]}}}
	}
	if act == ActPure {
		return x.opaque(fr, st, c, true)
	}
	if act == ActDefault || act == ActOpaque {
		if o := x.atomic(fr, st, c); o != nil {
			return o
		}
	}
	if act != ActOpaque {
		if c.Fn != nil && x.enterable(c.Fn, c, act) {
			if isGenerated(x.E.P, c.Fn) && isGetter(c.Fn) && len(c.Args) == 1 {
				// messages are there
				x.Assume(st, x.E.T.bin("==", c.Args[0], x.E.T.Nil(), types.Typ[types.Bool]), false)
			}
			return x.enter(fr, st, c, c.Fn, c.Args, clo, "")
		}
		if c.Common.IsInvoke() && c.Fn == nil {
			fns := x.E.Implementations(c.Common.Value.Type(), c.Common.Method)
			if len(fns) == 1 || (x.R.Fork && len(fns) > 1) {
				var outs []Outcome
				ok := true
				for _, fn := range fns {
					if !x.enterable(fn, c, act) {
						ok = false
					}
				}
				if ok {
					for _, fn := range fns {
						outs = append(outs, x.enter(fr, st.clone(), c, fn, c.Args, nil, fn.String())...)
					}
					return outs
				}
			}
		}
	}
	return x.opaque(fr, st, c, false)
}

// atomic: loads, stores and additions of sync/atomic on a variable of the code that is explored are those of the variable.
func (x *Exec) atomic(fr *frame, st *State, c *CallInfo) []Outcome {
	if !strings.HasPrefix(c.Name, "sync/atomic.") || len(c.Args) == 0 {
		return nil
	}
	addr := c.Args[0].strip()
	if r := root(addr); r == nil || r.k != KAlloc || x.isVol(st, addr) {
		return nil
	}
	n := strings.TrimPrefix(c.Name, "sync/atomic.")
	if i := strings.Index(n, "."); i >= 0 {
		n = n[i+1:]
		addr = x.E.fieldAddr(addr, "v")
	}
	sig := c.Common.Signature()
	var res *types.Tuple = sig.Results()
	in := c.Site
	switch {
	case strings.HasPrefix(n, "Load") && res.Len() == 1:
		return []Outcome{{st, []*Term{x.load(st, addr, res.At(0).Type(), in, fr.ctx)}}}
	case strings.HasPrefix(n, "Store") && len(c.Args) == 2:
		x.store(st, addr, c.Args[1])
		return []Outcome{{st, nil}}
	case strings.HasPrefix(n, "Add") && len(c.Args) == 2 && res.Len() == 1:
		typ := res.At(0).Type()
		old := x.load(st, addr, typ, in, fr.ctx)
		d, ok := constInt(cstOf(c.Args[1].strip()))
		if o, k := constInt(cstOf(old.strip())); ok && k && d > 0 && o >= 0 && o+d < 3 {
			v := x.E.T.ConstVal(constant.MakeInt64(o+d), typ)
			x.store(st, addr, v)
			return []Outcome{{st, []*Term{v}}}
		}
		tag := "add"
		if ok && d > 0 && x.Eval(st, x.E.T.bin("<", old, x.E.T.ConstVal(constant.MakeInt64(0), typ), types.Typ[types.Bool])) == No {
			tag = "add+" // a positive number
		}
		v := x.E.sym(in, fr.ctx, tag, typ)
		x.refresh(st, v)
		x.store(st, addr, v)
		return []Outcome{{st, []*Term{v}}}
	}
	return nil
}

func (x *Exec) opaque(fr *frame, st *State, c *CallInfo, pure bool) []Outcome {
	name := c.Name
	if c.Fn != nil && x.E.P.InRepo(c.Fn) {
		x.OpaqueIn[name] = true
	}
	if !pure && !readsOnly(name) && !pureFns[name] {
		args := c.Args
		for _, m := range []map[string]int{callbackOnce, callbackEach} {
			if i, ok := m[name]; ok && i < len(args) && args[i].strip().k == KClosure {
				// what the callback does is explored below
				args = append(append([]*Term(nil), args[:i]...), args[i+1:]...)
			}
		}
		x.havoc(st, args, c.Site, c.Ctx)
	}
	// callbacks
	if i, ok := callbackOnce[name]; ok && i < len(c.Args) {
		cb := c.Args[i].strip()
		if cb.fn != nil && (cb.k == KClosure || cb.k == KFunc) && cb.fn.Blocks != nil {
			var outs []Outcome
			// the callback may not run at all (e.g. the transaction cannot be opened)
			if errRes := x.E.ErrRes(c); errRes != nil {
				s0 := st.clone()
				r := x.fresh(s0, c)
				if x.Assume(s0, x.E.T.bin("==", errRes, x.E.T.Nil(), types.Typ[types.Bool]), false) {
					outs = append(outs, x.after(s0, c, r)...)
				}
			}
			inner := x.callClosure(fr, st, c, cb, "cb")
			for _, o := range inner {
				s := o.St
				if x.R.OnCallback != nil {
					x.R.OnCallback(x, s, c, o.Res)
				}
				if errRes := x.E.ErrRes(c); errRes != nil && len(o.Res) == 1 {
					// the callback's error is handed back; a nil one may still turn into a commit failure
					switch x.nilness(s, o.Res[0]) {
					case No:
						outs = append(outs, x.after(s, c, []*Term{o.Res[0]})...)
					default:
						outs = append(outs, x.after(s.clone(), c, []*Term{o.Res[0]})...)
						if strings.HasSuffix(name, "Update") || strings.HasSuffix(name, "Batch") {
							r := x.fresh(s, c)
							if x.Assume(s, x.E.T.bin("==", errRes, x.E.T.Nil(), types.Typ[types.Bool]), false) {
								outs = append(outs, x.after(s, c, r)...)
							}
						}
					}
					continue
				}
				outs = append(outs, x.after(s, c, x.fresh(s, c))...)
			}
			return outs
		}
	}
	if i, ok := callbackEach[name]; ok && i < len(c.Args) {
		cb := c.Args[i].strip()
		if cb.fn != nil && (cb.k == KClosure || cb.k == KFunc) && cb.fn.Blocks != nil && x.active[cb.fn] == 0 {
			nilp := x.E.T.bin("==", x.E.ErrRes(c), x.E.T.Nil(), types.Typ[types.Bool])
			s0 := st.clone()
			var outs []Outcome
			r0 := x.fresh(s0, c)
			if x.Assume(s0, nilp, true) {
				outs = append(outs, x.after(s0, c, r0)...)
			}
			for _, o := range x.callClosure(fr, st, c, cb, "each") {
				s := o.St
				if len(o.Res) == 1 && x.nilness(s, o.Res[0]) == No {
					outs = append(outs, x.after(s, c, []*Term{o.Res[0]})...)
					continue
				}
				r := x.fresh(s, c)
				if len(o.Res) == 1 && x.nilness(s, o.Res[0]) == Unknown {
					r = []*Term{o.Res[0]}
				} else if !x.Assume(s, nilp, true) {
					continue
				}
				outs = append(outs, x.after(s, c, r)...)
			}
			return outs
		}
	}
	if !x.R.NoCallbacks && c.Name != "" {
		for i, a := range c.Args {
			cb := a.strip()
			if (cb.k == KClosure || (cb.k == KFunc && cb.fn != nil && x.E.P.InRepo(cb.fn))) && cb.fn != nil && cb.fn.Blocks != nil && x.active[cb.fn] == 0 && fr.depth < x.R.MaxDepth {
				// may or may not be invoked
				s0 := st.clone()
				outs := x.after(s0, c, x.fresh(s0, c))
				for _, o := range x.callClosure(fr, st, c, cb, "cb"+strconv.Itoa(i)) {
					s := o.St
					outs = append(outs, x.after(s, c, x.fresh(s, c))...)
				}
				return outs
			}
		}
	}
	if name == "errors.Join" && len(c.Args) == 1 {
		// nil exactly if all of the joined are
		if el := x.Elems(st, c.Args[0]); len(el) > 0 && el[0] != c.Args[0] {
			open := false
			for _, e := range el {
				if x.nilness(st, e) == No {
					open = false
					break
				}
				open = open || x.nilness(st, e) == Unknown
			}
			if open {
				nilp := func(e *Term) *Term { return x.E.T.bin("==", e, x.E.T.Nil(), types.Typ[types.Bool]) }
				var outs []Outcome
				s := st.clone()
				feasible := true
				for _, e := range el {
					feasible = feasible && x.Assume(s, nilp(e), true)
				}
				if r := x.fresh(s, c); feasible && x.Assume(s, nilp(r[0]), true) {
					outs = append(outs, x.after(s, c, r)...)
				}
				for i, e := range el {
					s := st.clone()
					feasible := true
					for _, b := range el[:i] {
						feasible = feasible && x.Assume(s, nilp(b), true)
					}
					if !feasible || !x.Assume(s, nilp(e), false) {
						continue
					}
					if r := x.fresh(s, c); x.Assume(s, nilp(r[0]), false) {
						outs = append(outs, x.after(s, c, r)...)
					}
				}
				return outs
			}
		}
	}
	return x.after(st, c, x.fresh(st, c))
}

func (x *Exec) callClosure(fr *frame, st *State, c *CallInfo, cb *Term, tag string) []Outcome {
	var args []*Term
	sig := cb.fn.Signature
	fn := cb.fn
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, x.E.Param(fmt.Sprintf("%s.%s", fn.Name(), sig.Params().At(i).Name()), sig.Params().At(i).Type()))
	}
	if b := boundTarget(fn); b != nil && len(cb.a) == 1 {
		f := x.E.fnOf(b)
		if f == nil {
			return []Outcome{{st, nil}}
		}
		fn = f
		args = append([]*Term{cb.a[0]}, args...)
		return x.enter(fr, st, c, fn, args, nil, tag)
	}
	return x.enter(fr, st, c, fn, args, cb, tag)
}

func (x *Exec) after(st *State, c *CallInfo, res []*Term) []Outcome {
	if x.R.AfterOpaque != nil {
		if ss := x.R.AfterOpaque(x, st, c); ss != nil {
			var o []Outcome
			for _, s := range ss {
				o = append(o, Outcome{s, res})
			}
			return o
		}
	}
	return []Outcome{{st, res}}
}

func (x *Exec) enterable(fn *ssa.Function, c *CallInfo, act Action) bool {
	if fn.Blocks == nil {
		return false
	}
	if !x.E.P.InRepo(fn) {
		// wrappers synthesised for in-repo methods
		if fn.Synthetic == "" {
			return false
		}
	}
	if x.active[fn] > 0 {
		return false // recursion
	}
	if act == ActEnter {
		return true
	}
	if boring(fn) {
		return false
	}
	if x.R.Relevant != nil && !x.R.Relevant(c, fn) {
		return false
	}
	if c.Depth >= x.R.MaxDepth {
		return false
	}
	if isGenerated(x.E.P, fn) && !isGetter(fn) || len(fn.Blocks) > 90 {
		return false
	}
	return true
}

// isGetter: a generated method that hands a field out.
func isGetter(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "Get") && fn.Signature.Recv() != nil && len(fn.Blocks) <= 3
}

func isGenerated(p *Prog, fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	n := p.SSA.Fset.Position(f.Pos()).Filename
	return strings.HasSuffix(n, "_gen.go") || strings.HasSuffix(n, ".pb.go")
}

func (x *Exec) enter(fr *frame, st *State, c *CallInfo, fn *ssa.Function, args []*Term, clo *Term, extra string) []Outcome {
	ctx := x.E.ctx(fr.ctx, c.Site, extra)
	ctxParent[ctx] = fr.ctx
	var binds []*Term
	if clo != nil && clo.k == KClosure {
		binds = clo.a
	}
	outs := x.function(fn, args, binds, st, ctx, fr.depth+1, fr.callPin)
	var res []Outcome
	for _, o := range outs {
		if x.R.OnReturnFrom != nil {
			x.R.OnReturnFrom(x, o.st, c, o.res)
		}
		res = append(res, Outcome{o.st, o.res})
	}
	return res
}

// Implementations lists in-repo methods that an interface call may reach.
func (e *Engine) Implementations(iface types.Type, m *types.Func) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if tp, ok := iface.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	key := types.TypeString(iface, nil) + "." + m.Name()
	if f, ok := e.impls[key]; ok {
		return f
	}
	var out []*ssa.Function
	if m.Pkg() != nil && e.P.inRep[m.Pkg()] {
		for _, pk := range e.P.Pkgs {
			if isMockOrTest(pk.PkgPath) {
				continue
			}
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				named, ok := tn.Type().(*types.Named)
				if !ok || named.TypeParams().Len() > 0 || types.IsInterface(named) {
					continue
				}
				if strings.HasPrefix(tn.Name(), "Unimplemented") {
					continue
				}
				var t types.Type = named
				if !types.Implements(t, it) {
					t = types.NewPointer(named)
					if !types.Implements(t, it) {
						continue
					}
				}
				if fn := e.P.SSA.LookupMethod(t, m.Pkg(), m.Name()); fn != nil && fn.Blocks != nil {
					out = append(out, fn)
				}
			}
		}
	}
	e.impls[key] = out
	return out
}

func isMockOrTest(p string) bool { return strings.Contains(p, "/mock") }

// writesBinding reports whether the closure (or a nested one) stores to the captured variable.
func writesBinding(fn *ssa.Function, clo, b *Term) bool {
	if fn == nil {
		return true
	}
	idx := -1
	for i, a := range clo.a {
		if a == b {
			idx = i
		}
	}
	if idx < 0 || idx >= len(fn.FreeVars) {
		return true
	}
	return fvWritten(fn, fn.FreeVars[idx], 0)
}

func fvWritten(fn *ssa.Function, fv ssa.Value, d int) bool {
	if d > 5 {
		return true
	}
	refs := fv.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			cf := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == fv && fvWritten(cf, cf.FreeVars[i], d+1) {
					return true
				}
			}
		case *ssa.FieldAddr:
			if fvWritten(fn, r, d+1) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// ---- liveness ----

type liveness struct {
	in, out []map[ssa.Value]bool
}

func (e *Engine) liveOf(fn *ssa.Function) *liveness {
	if l := e.live[fn]; l != nil {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n)}
	for i := range l.in {
		l.out[i] = map[ssa.Value]bool{}
		l.in[i] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// phi values are defined on the edge: live-in of s includes the phi itself
					for j, pr := range s.Preds {
						if pr == b {
							live[ph.Edges[j]] = true
						}
					}
				}
			}
			for v := range live {
				l.out[b.Index][v] = true
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if ph, ok := in.(*ssa.Phi); ok {
					// keep the phi itself live at entry (its value arrives on the edge)
					live[ph] = true
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil {
						switch (*o).(type) {
						case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.FreeVar:
						default:
							live[*o] = true
						}
					}
				}
			}
			for v := range live {
				if !l.in[b.Index][v] {
					l.in[b.Index][v] = true
					changed = true
				}
			}
		}
	}
	e.live[fn] = l
	return l
}

// boring: logging and stack printing never matter to a rule unless it asks.
func boring(fn *ssa.Function) bool {
	f := topFn(fn)
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	}
	if pk == "common/logs" {
		return true
	}
	if pk == "common/graceful" {
		switch f.Name() {
		case "PrintStacks", "GetStacks", "GetLimitStacks":
			return true
		}
	}
	return false
}

// widen collapses values that grow with every loop iteration.
func (x *Exec) widen(st *State, in ssa.Instruction, ctx int, t *Term) *Term {
	if t.k != KOther && t.k != KPure && t.k != KBin {
		return t
	}
	var depth func(q *Term) int
	depth = func(q *Term) int {
		d := 0
		for _, a := range q.a {
			if n := depth(a); n > d {
				d = n
			}
		}
		if q.k == t.k && q.op == t.op {
			d++
		}
		return d
	}
	most := 3 + x.R.Unroll
	if t.k == KBin && t.op == "+" && t.typ != nil && isString(t.typ) {
		most = 9 // texts are put together of many parts
	}
	if depth(t) < most {
		return t
	}
	s := x.E.sym(in, ctx, "acc", t.typ)
	x.refresh(st, s)
	return s
}

func (x *Exec) branched(st *State) {
	if x.R.OnBranch != nil {
		x.R.OnBranch(x, st)
	}
}

// renamed: an error goes on as the variable of a loop; what is known of it and noted with it does too.
func (x *Exec) renamed(st *State, t, s *Term) {
	for f, v := range st.facts {
		if f != t && f.contains(t) {
			if g := x.E.T.subst(f, t, s); g != f {
				st.facts[g] = v
			}
		}
	}
	hit := false
	for i := range st.trace {
		hit = hit || st.trace[i].Val == t
	}
	if !hit {
		return
	}
	var nt []Event
	seen := map[string]bool{}
	for _, ev := range st.trace {
		if ev.Val == t {
			ev.Val = s
			ev.setKey()
		}
		if !seen[ev.key] {
			seen[ev.key] = true
			nt = append(nt, ev)
		}
	}
	st.trace = nt
}

// chased counts how often a field is read through itself.
func chased(t *Term) int {
	if t.k != KLoad || t.a[0].k != KFAddr {
		return 0
	}
	n := 0
	t.walk(func(s *Term) {
		if s.k == KLoad && s.a[0].k == KFAddr && s.a[0].op == t.a[0].op && types.Identical(s.typ, t.typ) {
			n++
		}
	})
	return n
}
