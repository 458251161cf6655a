package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "The binary format each type writes is recovered from the code of its encoders (the constant bytes, structure by structure, and what is appended between them) and compared with what its decoders take from each key and where they put it, and with the fields of the type. Every function that makes one kind of record out of another is compared field by field; the two ends of every remote call are compared in the types they encode and decode; types that are encoded by reflection are checked to be encoded whole.", checkC28)
}

// item is what a codec does with one key.
type item struct {
	kinds  map[string]bool
	fields map[string]bool // the fields, from the value on
	pos    token.Pos
}

type codecFn struct {
	keys  map[string]*item
	bad   string
	pos   token.Pos
	parts bool // made of functions of its own, which are not followed
}

// inParts: a codec that leaves part of its work to another function.
func inParts(info *types.Info, fn *ast.FuncDecl) bool {
	found := false
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		call, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		var id *ast.Ident
		switch f := call.Fun.(type) {
		case *ast.Ident:
			id = f
		case *ast.SelectorExpr:
			id = f.Sel
		default:
			if _, lit := f.(*ast.FuncLit); lit {
				found = true
			}
			return true
		}
		switch id.Name {
		case "MarshalMsg", "EncodeMsg", "UnmarshalMsg", "DecodeMsg", "Msgsize":
			return true
		}
		if o, _ := info.ObjectOf(id).(*types.Func); o != nil && o.Pkg() != nil && o.Pkg() == info.ObjectOf(fn.Name).Pkg() {
			found = true
		}
		if o, _ := info.ObjectOf(id).(*types.Var); o != nil {
			found = true
		}
		return true
	})
	return found
}

func (f *codecFn) at(key string, pos token.Pos) *item {
	if f.keys[key] == nil {
		f.keys[key] = &item{map[string]bool{}, map[string]bool{}, pos}
	}
	return f.keys[key]
}

type codecs struct {
	c *Ctx
}

// chain is the path of fields from the receiver, "" if it is something else.
func chain(info *types.Info, e ast.Expr, recv types.Object) (string, bool) {
	switch u := e.(type) {
	case *ast.ParenExpr:
		return chain(info, u.X, recv)
	case *ast.StarExpr:
		return chain(info, u.X, recv)
	case *ast.IndexExpr:
		return chain(info, u.X, recv)
	case *ast.UnaryExpr:
		return chain(info, u.X, recv)
	case *ast.Ident:
		return "", recv != nil && info.ObjectOf(u) == recv
	case *ast.SelectorExpr:
		s, ok := chain(info, u.X, recv)
		if !ok {
			return "", false
		}
		if _, method := info.ObjectOf(u.Sel).(*types.Func); method {
			return s, true
		}
		if s != "" {
			s += "."
		}
		return s + u.Sel.Name, true
	}
	return "", false
}

// mentioned: the field paths of the receiver in an expression.
func mentioned(info *types.Info, e ast.Node, recv types.Object, alias map[types.Object]string) (out []string) {
	ast.Inspect(e, func(n ast.Node) bool {
		ex, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		if p, ok := chain(info, ex, recv); ok && p != "" {
			out = append(out, p)
			return false
		}
		if id, ok := ex.(*ast.Ident); ok && alias[info.ObjectOf(id)] != "" {
			out = append(out, alias[info.ObjectOf(id)])
		}
		return true
	})
	return
}

// kindOf: what a call to the msgp library writes or reads; "" if it is none.
func kindOf(info *types.Info, call *ast.CallExpr) string {
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	n := sel.Sel.Name
	switch n {
	case "MarshalMsg", "EncodeMsg", "UnmarshalMsg", "DecodeMsg":
		return "value of its own"
	}
	o, _ := info.ObjectOf(sel.Sel).(*types.Func)
	if o == nil || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), "tinylib/msgp/msgp") {
		return ""
	}
	for _, p := range []string{"Append", "Write", "Read"} {
		if strings.HasPrefix(n, p) && n != p {
			k := strings.TrimSuffix(n[len(p):], "Bytes")
			if k == "" {
				k = "Bytes"
			}
			switch k {
			case "Nil", "MapKeyPtr", "MapKeyZC", "MapKey", "Byte":
				return ""
			case "StringAsBytes", "StringZC":
				return "String"
			}
			return k
		}
	}
	return ""
}

// encoder recovers the format a function writes.
func (k *codecs) encoder(info *types.Info, fn *ast.FuncDecl) *codecFn {
	out := &codecFn{keys: map[string]*item{}, pos: fn.Pos()}
	recv := recvObj(info, fn)
	alias := map[types.Object]string{}
	type level struct {
		prefix string
		left   int
	}
	var open []level
	key := "" // of the value that comes next
	closeLevels := func() {
		for len(open) > 0 && open[len(open)-1].left == 0 {
			open = open[:len(open)-1]
		}
	}
	raw := func(bs []byte, pos token.Pos) {
		for i := 0; i < len(bs); {
			b := bs[i]
			n := 0
			switch {
			case b&0xf0 == 0x80:
				open = append(open, level{key, int(b & 0x0f)})
				i++
				continue
			case b == 0xde && i+2 < len(bs):
				open = append(open, level{key, int(bs[i+1])<<8 | int(bs[i+2])})
				i += 3
				continue
			case b&0xe0 == 0xa0:
				n = int(b & 0x1f)
				i++
			case b == 0xd9 && i+1 < len(bs):
				n = int(bs[i+1])
				i += 2
			default:
				out.bad = fmt.Sprintf("a byte %#x that begins neither a structure nor a name", b)
				return
			}
			if i+n > len(bs) {
				out.bad = "a name that is longer than its bytes"
				return
			}
			closeLevels()
			if len(open) == 0 {
				out.bad = fmt.Sprintf("more names than announced, at %q", bs[i:i+n])
				return
			}
			l := &open[len(open)-1]
			l.left--
			key = string(bs[i : i+n])
			if l.prefix != "" {
				key = l.prefix + "/" + key
			}
			out.at(key, pos)
			i += n
		}
	}
	ast.Inspect(fn.Body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.RangeStmt:
			if p, ok := chain(info, u.X, recv); ok && p != "" {
				for _, e := range []ast.Expr{u.Key, u.Value} {
					if id, ok := e.(*ast.Ident); ok {
						if o := info.ObjectOf(id); o != nil {
							alias[o] = p
						}
					}
				}
			}
		case *ast.CallExpr:
			var args []ast.Expr
			switch f := u.Fun.(type) {
			case *ast.Ident:
				if f.Name == "append" && len(u.Args) > 1 {
					args = u.Args[1:]
				}
			case *ast.SelectorExpr:
				if f.Sel.Name == "Append" {
					args = u.Args
				}
			}
			if args != nil {
				var bs []byte
				for _, a := range args {
					tv := info.Types[a]
					v, ok := constant.Int64Val(constant.ToInt(orUnknown(tv.Value)))
					if !ok {
						return true
					}
					bs = append(bs, byte(v))
				}
				raw(bs, u.Pos())
				return true
			}
			if kd := kindOf(info, u); kd != "" {
				it := out.at(key, u.Pos())
				if kd == "MapHeader" && len(mentioned(info, u, recv, alias)) == 0 {
					return true
				}
				it.kinds[kd] = true
				for _, f := range mentioned(info, u, recv, alias) {
					it.fields[f] = true
				}
			}
		}
		return true
	})
	closeLevels()
	if len(open) > 0 {
		out.bad = "fewer names than announced"
	}
	return out
}

func orUnknown(v constant.Value) constant.Value {
	if v == nil {
		return constant.MakeUnknown()
	}
	return v
}

func recvObj(info *types.Info, fn *ast.FuncDecl) types.Object {
	if fn.Recv == nil || len(fn.Recv.List) == 0 || len(fn.Recv.List[0].Names) == 0 {
		return nil
	}
	return info.ObjectOf(fn.Recv.List[0].Names[0])
}

// decoder recovers what a function takes from each key.
func (k *codecs) decoder(info *types.Info, fn *ast.FuncDecl) *codecFn {
	out := &codecFn{keys: map[string]*item{}, pos: fn.Pos()}
	recv := recvObj(info, fn)
	var visit func(n ast.Node, key string, alias map[types.Object]string)
	visit = func(n ast.Node, key string, alias map[types.Object]string) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch u := n.(type) {
			case *ast.SwitchStmt:
				byKey := false
				if call, ok := u.Tag.(*ast.CallExpr); ok {
					if sel, ok := call.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "UnsafeString" {
						byKey = true
					}
				} else if u.Tag != nil {
					if b, ok := info.TypeOf(u.Tag).Underlying().(*types.Basic); ok && b.Kind() == types.String {
						byKey = true
					}
				}
				if !byKey {
					return true
				}
				for _, s := range u.Body.List {
					cc := s.(*ast.CaseClause)
					for _, e := range cc.List {
						v := info.Types[e].Value
						if v == nil {
							continue
						}
						name := constant.StringVal(v)
						if key != "" {
							name = key + "/" + name
						}
						out.at(name, cc.Pos())
						for _, st := range cc.Body {
							visit(st, name, alias)
						}
					}
				}
				return false
			case *ast.RangeStmt:
				if p, ok := chain(info, u.X, recv); ok && p != "" {
					for _, e := range []ast.Expr{u.Key, u.Value} {
						if id, ok := e.(*ast.Ident); ok {
							if o := info.ObjectOf(id); o != nil {
								alias[o] = p
							}
						}
					}
				}
			case *ast.AssignStmt:
				for _, r := range u.Rhs {
					call, ok := r.(*ast.CallExpr)
					if !ok {
						continue
					}
					if kd := kindOf(info, call); kd != "" {
						if kd == "MapHeader" {
							continue
						}
						it := out.at(key, u.Pos())
						it.kinds[kd] = true
						for _, f := range mentioned(info, call.Fun, recv, alias) {
							it.fields[f] = true
						}
					}
				}
				for _, l := range u.Lhs {
					if p, ok := chain(info, l, recv); ok && p != "" {
						if id, isNil := u.Rhs[len(u.Rhs)-1].(*ast.Ident); isNil && id.Name == "nil" {
							continue
						}
						out.at(key, u.Pos()).fields[p] = true
					}
				}
			}
			return true
		})
	}
	visit(fn.Body, "", map[types.Object]string{})
	return out
}

func keySet(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func checkC28(c *Ctx) {
	k := &codecs{c}
	for _, pk := range c.P.Pkgs {
		if isMockOrTest(pk.PkgPath) {
			continue
		}
		k.pkg(pk)
	}
	k.conversions()
	k.calls()
	k.messages()
	k.reflected()
	k.failures()
	k.lists()
	c.Min("format", 150)
	c.Min("every field", 35)
	c.Min("conversion", 30)
	c.Min("both ends", 3)
	c.Min("encoded whole", 1)
}

func (k *codecs) pkg(pk *packages.Package) {
	c := k.c
	type set map[string]*ast.FuncDecl
	byType := map[string]set{}
	for _, f := range pk.Syntax {
		if strings.HasSuffix(c.P.SSA.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || fd.Body == nil {
				continue
			}
			switch fd.Name.Name {
			case "MarshalMsg", "UnmarshalMsg", "EncodeMsg", "DecodeMsg":
				o := recvObj(pk.TypesInfo, fd)
				if o == nil {
					continue
				}
				n := typeNameOf(deref(o.Type()))
				if byType[n] == nil {
					byType[n] = set{}
				}
				byType[n][fd.Name.Name] = fd
			}
		}
	}
	var names []string
	for n := range byType {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := byType[n]
		fns := map[string]*codecFn{}
		for m, fd := range s {
			if m == "MarshalMsg" || m == "EncodeMsg" {
				fns[m] = k.encoder(pk.TypesInfo, fd)
			} else {
				fns[m] = k.decoder(pk.TypesInfo, fd)
			}
			fns[m].parts = inParts(pk.TypesInfo, fd)
		}
		key := n[strings.LastIndexByte(n, '/')+1:]
		ref := fns["MarshalMsg"]
		if ref == nil || ref.parts {
			continue
		}
		for _, m := range []string{"MarshalMsg", "UnmarshalMsg", "EncodeMsg", "DecodeMsg"} {
			f := fns[m]
			if f == nil || f.parts {
				continue
			}
			c.Check(f.bad == "", "format", key+" "+m, f.pos, "%s.%s writes what can not be read again: %s", key, m, f.bad)
			all := map[string]bool{}
			for x := range ref.keys {
				all[x] = true
			}
			for x := range f.keys {
				all[x] = true
			}
			for _, x := range sortedKeys(all) {
				a, b := ref.keys[x], f.keys[x]
				if a != nil && len(a.kinds) == 0 && len(a.fields) == 0 && (b == nil || len(b.kinds) == 0) {
					continue
				}
				if a == nil || b == nil {
					c.Bad("format", key+" "+m+" "+x, f.pos, "%q of %s is known to only one of MarshalMsg and %s", x, key, m)
					continue
				}
				same := keySet(a.kinds) == keySet(b.kinds) && keySet(a.fields) == keySet(b.fields)
				c.Check(same, "format", key+" "+m+" "+x, b.pos, "%q of %s is %s of %s for MarshalMsg, %s of %s for %s", x, key, keySet(a.kinds), keySet(a.fields), keySet(b.kinds), keySet(b.fields), m)
			}
		}
		k.fields(pk, key, s["MarshalMsg"], ref)
	}
}

// fields: every field of the type is under its key.
func (k *codecs) fields(pk *packages.Package, key string, fd *ast.FuncDecl, f *codecFn) {
	t := deref(recvObj(pk.TypesInfo, fd).Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("msg")
		name := strings.Split(tag, ",")[0]
		if name == "-" || !v.Exported() {
			continue
		}
		if name == "" {
			name = v.Name()
		}
		hit := false
		for x, it := range f.keys {
			if x != name && !strings.HasPrefix(x, name+"/") {
				continue
			}
			for p := range it.fields {
				if p == v.Name() || strings.HasPrefix(p, v.Name()+".") {
					hit = true
				}
			}
		}
		k.c.Check(hit, "every field", key+"."+v.Name(), v.Pos(), "field %s of %s is not encoded under %q", v.Name(), key, name)
	}
}

// ---- records made out of others

// assigned: what a record's fields are set from, other records' fields.
type fromField struct {
	base  ssa.Value
	typ   *types.Named
	field string
	pos   token.Pos
	via   types.Type // a narrower number the value passes through
}

// narrowest number a value is converted to on its way from a field.
func narrowest(v ssa.Value) types.Type {
	var out types.Type
	for {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			if out == nil || width(v.Type()) < width(out) {
				out = v.Type()
			}
		}
		switch u := v.(type) {
		case *ssa.Convert:
			v = u.X
		case *ssa.ChangeType:
			v = u.X
		default:
			return out
		}
	}
}

func width(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 64
	}
	return 8 * types.SizesFor("gc", "amd64").Sizeof(b)
}

// loadOf: the value is (a conversion of) a field of a record.
func loadOf(v ssa.Value, depth int) (base ssa.Value, fld string, t *types.Named) {
	for depth > 0 {
		depth--
		switch u := v.(type) {
		case *ssa.Convert:
			v = u.X
			continue
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return nil, "", nil
			}
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				n, _ := deref(fa.X.Type()).(*types.Named)
				if n == nil {
					return nil, "", nil
				}
				return fa.X, n.Underlying().(*types.Struct).Field(fa.Field).Name(), n
			}
			return nil, "", nil
		case *ssa.Field:
			n, _ := u.X.Type().(*types.Named)
			if n == nil {
				return nil, "", nil
			}
			return u.X, n.Underlying().(*types.Struct).Field(u.Field).Name(), n
		case *ssa.Call:
			// a getter of a message
			f := u.Common().StaticCallee()
			if f != nil && strings.HasPrefix(f.Name(), "Get") && len(u.Call.Args) == 1 {
				if n, ok := deref(u.Call.Args[0].Type()).(*types.Named); ok {
					if _, st := n.Underlying().(*types.Struct); st {
						return u.Call.Args[0], f.Name()[3:], n
					}
				}
			}
			return nil, "", nil
		default:
			return nil, "", nil
		}
	}
	return nil, "", nil
}

func fieldNamed(n *types.Named, name string) *types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// given by the server that stores the record
var assignedLater = map[string]bool{"Ts": true, "Sequence": true, "CreateTime": true, "UpdateTime": true, "UniqueId": true, "Extra": true}

func (k *codecs) conversions() {
	c := k.c
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) || strings.Contains(pkgPathOf(fn), "/cmd/") {
			continue
		}
		sets := map[ssa.Value]map[string][]fromField{}
		other := map[ssa.Value]map[string]bool{} // set from something else
		typ := map[ssa.Value]*types.Named{}
		whole := map[ssa.Value]bool{}
		var order []ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if al, ok := s.Addr.(*ssa.Alloc); ok {
					if _, zero := s.Val.(*ssa.Const); !zero {
						whole[al] = true
					}
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				tn, _ := deref(fa.X.Type()).(*types.Named)
				if tn == nil || tn.Obj().Pkg() == nil || !c.P.inRep[tn.Obj().Pkg()] {
					continue
				}
				al := fa.X
				name := tn.Underlying().(*types.Struct).Field(fa.Field).Name()
				if sets[al] == nil {
					sets[al] = map[string][]fromField{}
					other[al] = map[string]bool{}
					typ[al] = tn
					order = append(order, al)
				}
				base, f, n := loadOf(s.Val, 6)
				if base == nil || n.Obj().Pkg() == nil || !c.P.inRep[n.Obj().Pkg()] {
					other[al][name] = true
					continue
				}
				sets[al][name] = append(sets[al][name], fromField{base, n, f, s.Pos(), narrowest(s.Val)})
			}
		}
		for _, al := range order {
			// from which record
			count := map[*types.Named]int{}
			for _, fs := range sets[al] {
				for _, f := range fs {
					if fieldNamed(typ[al], f.field) != nil {
						count[f.typ]++
					}
				}
			}
			for src, n := range count {
				if n < 3 || src == typ[al] {
					continue
				}
				k.conversion(fn, al, typ[al], src, sets[al], other[al], whole[al])
			}
		}
	}
}

func (k *codecs) conversion(fn *ssa.Function, al ssa.Value, dst, src *types.Named, set map[string][]fromField, other map[string]bool, whole bool) {
	c := k.c
	key := methodKey(fn) + " " + src.Obj().Name() + " to " + dst.Obj().Name()
	fresh, _ := al.(*ssa.Alloc)
	st := dst.Underlying().(*types.Struct)
	wire := strings.HasSuffix(pkgPathOf2(dst), "common/proto/msg")
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s := fieldNamed(src, f.Name())
		if s == nil || !f.Exported() {
			continue
		}
		for _, x := range set[f.Name()] {
			if x.typ != src {
				continue
			}
			if x.via != nil && width(x.via) < width(f.Type()) && width(x.via) < width(s.Type()) {
				c.Bad("conversion", key+" "+f.Name(), x.pos, "%s of the %s passes through a %s, which is too small for it", f.Name(), dst.Obj().Name(), x.via)
				continue
			}
			c.Check(x.field == f.Name(), "conversion", key+" "+f.Name(), x.pos, "%s of the %s is made of %s, although there is a field of that name", f.Name(), dst.Obj().Name(), x.field)
		}
		if len(set[f.Name()]) > 0 || other[f.Name()] || whole || fresh == nil {
			continue
		}
		if wire && assignedLater[f.Name()] && !(f.Name() == "Sequence" && strings.HasPrefix(fn.Name(), "Update")) {
			continue
		}
		if k.filled(al, dst, f.Name()) {
			continue
		}
		c.Check(false, "conversion", key+" "+f.Name(), fn.Pos(), "%s makes a %s of a %s without its %s", methodKey(fn), dst.Obj().Name(), src.Obj().Name(), f.Name())
	}
}

// filled: a function the record is handed to sets the field.
func (k *codecs) filled(al ssa.Value, dst *types.Named, field string) bool {
	refs := al.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if s, ok := r.(*ssa.Store); ok && s.Val == al {
			if _, kept := s.Addr.(*ssa.Alloc); kept {
				return true // a variable of a literal, which may set it
			}
		}
		call, ok := r.(ssa.CallInstruction)
		if !ok || call.Common().StaticCallee() == nil {
			continue
		}
		for _, b := range call.Common().StaticCallee().Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && deref(fa.X.Type()) == types.Type(dst) && dst.Underlying().(*types.Struct).Field(fa.Field).Name() == field {
						return true
					}
				}
			}
		}
	}
	return false
}

func pkgPathOf2(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// ---- both ends of a remote call

// coded: the types a function (and what it calls of its own package) encodes and decodes.
func (k *codecs) coded(fn *ssa.Function, depth int, enc, dec map[string]bool) {
	k.c.calls(fn, func(in ssa.CallInstruction, n string) {
		cc := in.Common()
		f := cc.StaticCallee()
		if f == nil {
			return
		}
		name := f.Name()
		if i := strings.IndexByte(name, '['); i > 0 {
			name = name[:i]
		}
		add := func(m map[string]bool, v ssa.Value, list string) {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			t := deref(v.Type())
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = deref(s.Elem())
			}
			if sg, ok := t.Underlying().(*types.Signature); ok && sg.Results().Len() == 1 {
				t = deref(sg.Results().At(0).Type())
			}
			if tn := typeNameOf(t); tn != "" && !types.IsInterface(t) {
				m[list+tn] = true
			}
		}
		switch name {
		case "EncodeMsgp":
			add(enc, cc.Args[0], "")
		case "DecodeMsgp":
			add(dec, cc.Args[0], "")
		case "EncodeArrayMsgp":
			add(enc, cc.Args[0], "list of ")
		case "DecodeArrayMsgp":
			add(dec, cc.Args[1], "list of ")
		default:
			if depth > 0 && f.Pkg != nil && f.Pkg == fn.Pkg && len(f.Blocks) > 0 {
				// a helper that decodes what it is given
				e2, d2 := map[string]bool{}, map[string]bool{}
				k.coded(f, depth-1, e2, d2)
				generic := false
				for _, b := range f.Blocks {
					for _, i2 := range b.Instrs {
						if c2, ok := i2.(ssa.CallInstruction); ok {
							g := c2.Common().StaticCallee()
							if g == nil || len(c2.Common().Args) == 0 || g.Name() != "DecodeMsgp" && g.Name() != "EncodeMsgp" {
								continue
							}
							a := c2.Common().Args[0]
							if ci, ok := a.(*ssa.ChangeInterface); ok {
								a = ci.X
							}
							for i, pr := range f.Params {
								if a == ssa.Value(pr) && i < len(cc.Args) {
									generic = true
									if g.Name() == "DecodeMsgp" {
										add(dec, cc.Args[i], "")
									} else {
										add(enc, cc.Args[i], "")
									}
								}
							}
						}
					}
				}
				if !generic {
					for t := range e2 {
						enc[t] = true
					}
					for t := range d2 {
						dec[t] = true
					}
				}
			}
		}
	})
}

func (k *codecs) calls() {
	c := k.c
	type end struct {
		fn       *ssa.Function
		enc, dec map[string]bool
	}
	serve := map[string]end{}
	for _, fn := range c.P.Fns {
		if fn.Signature.Recv() == nil || !strings.Contains(pkgPathOf(fn), "controller/grpc") || isGenerated(c.P, fn) {
			continue
		}
		e := end{fn, map[string]bool{}, map[string]bool{}}
		k.coded(fn, 2, e.enc, e.dec)
		if len(e.enc)+len(e.dec) > 0 {
			serve[fn.Name()] = e
		}
	}
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		var rpcs []string
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			cc := in.Common()
			if cc.IsInvoke() && strings.HasSuffix(typeNameOf(cc.Value.Type()), "Client") && strings.Contains(typeNameOf(cc.Value.Type()), "proto/pb.") {
				rpcs = append(rpcs, cc.Method.Name())
			}
		})
		if len(rpcs) != 1 {
			continue
		}
		s, ok := serve[rpcs[0]]
		if !ok {
			continue
		}
		enc, dec := map[string]bool{}, map[string]bool{}
		k.coded(fn, 1, enc, dec)
		key := methodKey(fn) + " " + rpcs[0]
		if len(enc) > 0 && len(s.dec) > 0 {
			c.Check(keySet(enc) == keySet(s.dec), "both ends", key+" request", fn.Pos(), "%s encodes %s for %s, which decodes %s", methodKey(fn), keySet(enc), rpcs[0], keySet(s.dec))
		}
		if len(dec) > 0 && len(s.enc) > 0 {
			c.Check(keySet(dec) == keySet(s.enc), "both ends", key+" answer", fn.Pos(), "%s decodes %s from %s, which answers with %s", methodKey(fn), keySet(dec), rpcs[0], keySet(s.enc))
		}
	}
}

// pbFields: what a function (and what it hands the message to) does with the fields of a message:
// reads them, or sets them.
func (k *codecs) pbFields(fn *ssa.Function, is func(ssa.Value) bool, depth int, path string, get, put map[string]token.Pos) {
	str := func(t types.Type, i int) string { return strings.TrimPrefix(path+"."+structField(t, i), ".") }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch u := in.(type) {
			case *ssa.FieldAddr:
				if !is(u.X) || u.Referrers() == nil {
					continue
				}
				name := str(u.X.Type(), u.Field)
				for _, r := range *u.Referrers() {
					switch w := r.(type) {
					case *ssa.Store:
						if k, zero := w.Val.(*ssa.Const); zero && isZero(k) {
							continue
						}
						if w.Addr == ssa.Value(u) {
							put[name] = u.Pos()
						}
					case *ssa.UnOp:
						get[name] = u.Pos()
					default:
						get[name], put[name] = u.Pos(), u.Pos()
					}
				}
			case ssa.CallInstruction:
				f := u.Common().StaticCallee()
				if f == nil || len(u.Common().Args) == 0 {
					continue
				}
				for i, a := range u.Common().Args {
					if !is(a) {
						continue
					}
					if i == 0 && f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Get") && isGenerated(k.c.P, f) {
						get[strings.TrimPrefix(path+"."+f.Name()[3:], ".")] = u.Pos()
					} else if depth > 0 && i < len(f.Params) && len(f.Blocks) > 0 && !isGenerated(k.c.P, f) {
						pr := f.Params[i]
						k.pbFields(f, func(v ssa.Value) bool { return v == ssa.Value(pr) }, depth-1, path, get, put)
					}
				}
			}
		}
	}
}

func isZero(k *ssa.Const) bool {
	if k.Value == nil {
		return true
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return false // may be meant
	case constant.String:
		return constant.StringVal(k.Value) == ""
	}
	return constant.Sign(k.Value) == 0
}

// messages: what a caller sets is what the handler needs, and the other way round with the answer.
func (k *codecs) messages() {
	c := k.c
	type handler struct {
		fn       *ssa.Function
		req, res types.Type
	}
	serve := map[string]handler{}
	for _, fn := range c.P.Fns {
		if fn.Signature.Recv() == nil || isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 2 {
			continue
		}
		req, res := fn.Signature.Params().At(1).Type(), fn.Signature.Results().At(0).Type()
		if strings.Contains(typeNameOf(deref(req)), "proto/pb.") && strings.Contains(typeNameOf(deref(res)), "proto/pb.") && len(fn.Params) == 3 {
			serve[fn.Name()+" "+req.String()+" "+res.String()] = handler{fn, req, res}
		}
	}
	for _, fn := range c.P.Fns {
		if isGenerated(c.P, fn) || isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			cc := in.Common()
			if !cc.IsInvoke() || !strings.Contains(typeNameOf(cc.Value.Type()), "proto/pb.") || len(cc.Args) < 2 {
				return
			}
			sg := cc.Signature()
			if sg.Results().Len() != 2 || sg.Params().Len() < 2 {
				return
			}
			h, ok := serve[cc.Method.Name()+" "+sg.Params().At(1).Type().String()+" "+sg.Results().At(0).Type().String()]
			if !ok {
				return
			}
			key := methodKey(fn) + " " + cc.Method.Name()
			// the request
			if al, ok := cc.Args[1].(*ssa.Alloc); ok {
				need, set := map[string]token.Pos{}, map[string]token.Pos{}
				k.pbFields(h.fn, func(v ssa.Value) bool { return v == ssa.Value(h.fn.Params[2]) }, 2, "", need, map[string]token.Pos{})
				k.pbFields(fn, func(v ssa.Value) bool { return v == ssa.Value(al) }, 2, "", map[string]token.Pos{}, set)
				st, _ := deref(al.Type()).Underlying().(*types.Struct)
				for _, f := range sortedKeys(need) {
					if v := fieldNamed(deref(al.Type()).(*types.Named), f); st != nil && v != nil {
						if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
							continue // false is as good a value
						}
					}
					_, has := set[f]
					c.Check(has, "request", key+" "+f, in.Pos(), "%s asks for %s without %s, which %s goes by", methodKey(fn), cc.Method.Name(), f, methodKey(h.fn))
				}
			}
			// the answer
			call, ok := in.(*ssa.Call)
			if !ok || call.Referrers() == nil {
				return
			}
			want := map[string]token.Pos{}
			for _, r := range *call.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
					k.pbFields(fn, func(v ssa.Value) bool { return v == ssa.Value(ex) }, 2, "", want, map[string]token.Pos{})
				}
			}
			given := map[string]token.Pos{}
			any := false
			for _, g := range append([]*ssa.Function{h.fn}, k.helpers(h.fn, 2)...) {
				k.pbFields(g, func(v ssa.Value) bool {
					al, ok := v.(*ssa.Alloc)
					return ok && types.Identical(al.Type(), h.res)
				}, 2, "", map[string]token.Pos{}, given)
				for _, b := range g.Blocks {
					for _, i2 := range b.Instrs {
						if al, ok := i2.(*ssa.Alloc); ok && types.Identical(al.Type(), h.res) {
							any = true
						}
					}
				}
			}
			if !any || k.handsOn(h.fn) {
				return
			}
			for _, f := range sortedKeys(want) {
				_, has := given[f]
				c.Check(has, "answer", key+" "+f, in.Pos(), "%s reads %s of the answer to %s, which %s does not set", methodKey(fn), f, cc.Method.Name(), methodKey(h.fn))
			}
		})
	}
	c.Min("request", 10)
	c.Min("answer", 5)
}

// handsOn: the handler answers with something it did not make itself.
func (k *codecs) handsOn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		vals := []ssa.Value{ret.Results[0]}
		for i := 0; i < len(vals) && i < 50; i++ {
			switch u := vals[i].(type) {
			case *ssa.Phi:
				vals = append(vals, u.Edges...)
			case *ssa.Alloc, *ssa.Const:
			case *ssa.Call:
				if f := u.Common().StaticCallee(); f == nil || f.Pkg != fn.Pkg {
					return true
				}
			default:
				return true
			}
		}
	}
	return false
}

// helpers: the functions of its own package that a function calls.
func (k *codecs) helpers(fn *ssa.Function, depth int) (out []*ssa.Function) {
	if depth == 0 {
		return nil
	}
	k.c.calls(fn, func(in ssa.CallInstruction, n string) {
		f := in.Common().StaticCallee()
		if f != nil && f.Pkg == fn.Pkg && len(f.Blocks) > 0 && f != fn {
			out = append(out, f)
			out = append(out, k.helpers(f, depth-1)...)
		}
	})
	return
}

// ---- encoded by reflection

func (k *codecs) reflected() {
	c := k.c
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) {
			continue
		}
		c.calls(fn, func(in ssa.CallInstruction, n string) {
			arg := -1
			switch {
			case strings.HasSuffix(n, "common/util.GobEncode"):
				arg = 0
			case strings.HasSuffix(n, "common/cache.Cache.SetGob"), strings.HasSuffix(n, "ICache.SetGob"):
				arg = len(in.Common().Args) - 1
			}
			if arg < 0 {
				return
			}
			v := in.Common().Args[arg]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			t, ok := deref(v.Type()).(*types.Named)
			if !ok {
				return
			}
			var lost []string
			k.hidden(t, "", map[types.Type]bool{}, &lost)
			c.Check(len(lost) == 0, "encoded whole", methodKey(fn)+" "+t.Obj().Name(), in.Pos(), "%s is encoded at %s without %s", t.Obj().Name(), c.Pos(in.Pos()), strings.Join(lost, ", "))
		})
	}
}

// failures: no failure to encode or decode is passed over.
func (k *codecs) failures() {
	c := k.c
	for _, fn := range c.P.Fns {
		if isMockOrTest(pkgPathOf(fn)) || strings.HasSuffix(pkgPathOf(fn), "proto/pb") || len(fn.TypeArgs()) > 0 {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if ok && callName(call) == "GobDecode" {
					c.Check(len(*call.Referrers()) > 0, "failure", methodKey(fn)+" GobDecode", call.Pos(), "%s goes on after GobDecode at %s whether or not it failed", methodKey(fn), c.Pos(call.Pos()))
				}
				if !ok || !encodes(call) {
					continue
				}
				n++
				var err ssa.Value
				sg := call.Common().Signature()
				last := sg.Results().Len() - 1
				if last < 0 || !types.Identical(sg.Results().At(last).Type(), types.Universe.Lookup("error").Type()) {
					continue
				}
				if last == 0 {
					err = call
				} else {
					for _, r := range *call.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == last {
							err = ex
						}
					}
				}
				c.Check(err != nil && errAsked(err, map[ssa.Value]bool{}), "failure", fmt.Sprintf("%s %s#%d", methodKey(fn), callName(call), n), call.Pos(), "%s goes on after %s at %s whether or not it failed", methodKey(fn), callName(call), c.Pos(call.Pos()))
				if err != nil {
					k.told(fn, call, err)
				}
				if res := fn.Signature.Results(); err != nil && res.Len() == 1 && types.Identical(res.At(0).Type(), types.Typ[types.Bool]) {
					k.yesno(fn, err)
				}
			}
		}
	}
	c.Min("failure", 200)
}

// told: where it was found to have failed, the caller is told of a failure.
func (k *codecs) told(fn *ssa.Function, call *ssa.Call, err ssa.Value) {
	res := fn.Signature.Results()
	last := res.Len() - 1
	if last < 0 || !types.Identical(res.At(last).Type(), types.Universe.Lookup("error").Type()) || err.Referrers() == nil {
		return
	}
	for _, r := range *err.Referrers() {
		op, ok := r.(*ssa.BinOp)
		if !ok || (op.Op != token.NEQ && op.Op != token.EQL) {
			continue
		}
		for _, r2 := range *op.Referrers() {
			br, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			from := br.Block()
			to := from.Succs[0]
			if op.Op == token.EQL {
				to = from.Succs[1]
			}
			silent := returnsNil(from, to, last, map[ssa.Value]ssa.Value{}, map[*ssa.BasicBlock]bool{})
			k.c.Check(!silent, "failure", methodKey(fn)+" "+callName(call)+" told", call.Pos(), "%s does not tell that %s at %s failed", methodKey(fn), callName(call), k.c.Pos(call.Pos()))
		}
	}
}

// returnsNil: there is a way on which the result is nil.
func returnsNil(from, to *ssa.BasicBlock, result int, phis map[ssa.Value]ssa.Value, seen map[*ssa.BasicBlock]bool) bool {
	if seen[to] {
		return false
	}
	seen[to] = true
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	now := map[ssa.Value]ssa.Value{}
	for k, v := range phis {
		now[k] = v
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ph.Edges[idx]
		if w, ok := phis[v]; ok {
			v = w
		}
		now[ph] = v
	}
	if ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok {
		v := ret.Results[result]
		if w, ok := now[v]; ok {
			v = w
		}
		k, ok := v.(*ssa.Const)
		return ok && k.Value == nil
	}
	for _, s := range to.Succs {
		if returnsNil(to, s, result, now, seen) {
			return true
		}
	}
	return false
}

// yesno: who answers with a bool says no after a failure and yes otherwise.
func (k *codecs) yesno(fn *ssa.Function, err ssa.Value) {
	for _, r := range *err.Referrers() {
		op, ok := r.(*ssa.BinOp)
		if !ok || (op.Op != token.NEQ && op.Op != token.EQL) {
			continue
		}
		for _, r2 := range *op.Referrers() {
			if ret, ok := r2.(*ssa.Return); ok {
				k.c.Check(op.Op == token.EQL, "failure", methodKey(fn)+" answer", ret.Pos(), "%s answers with yes if it failed", methodKey(fn))
			}
			br, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range br.Block().Succs {
				ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				v, ok := ret.Results[0].(*ssa.Const)
				if !ok || v.Value == nil {
					continue
				}
				failed := (i == 0) == (op.Op == token.NEQ)
				k.c.Check(constant.BoolVal(v.Value) != failed, "failure", fmt.Sprint(methodKey(fn), " answer ", failed), ret.Pos(), "%s answers with %v although its failure is %v", methodKey(fn), v.Value, failed)
			}
		}
	}
}

func callName(call *ssa.Call) string {
	if call.Common().IsInvoke() {
		return call.Common().Method.Name()
	}
	if f := call.Common().StaticCallee(); f != nil {
		return f.Name()
	}
	return "?"
}

func encodes(call *ssa.Call) bool {
	switch callName(call) {
	case "MarshalMsg", "UnmarshalMsg", "EncodeMsg", "DecodeMsg":
		return true
	}
	f := call.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch path := f.Pkg.Pkg.Path(); {
	case strings.HasSuffix(path, "common/util"):
		n := f.Name()
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		switch n {
		case "EncodeMsgp", "DecodeMsgp", "EncodeArrayMsgp", "DecodeArrayMsgp", "UnmarshalPtrFromIO", "UnmarshalFromIO":
			return true
		}
		return false
	case path == "encoding/json" && strings.HasPrefix(f.Name(), "Marshal"):
		return false // fails for types that can not be encoded only
	case strings.HasSuffix(path, "tinylib/msgp/msgp"):
		return f.Name() != "WrapError" && f.Name() != "NonNil"
	case path == "encoding/gob", path == "encoding/json", path == "encoding/base64", strings.Contains(path, "gopkg.in/yaml"):
		return true
	}
	return false
}

// asked: whether it failed is asked, or told to the caller.
func errAsked(err ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[err] || err.Referrers() == nil {
		return false
	}
	seen[err] = true
	for _, r := range *err.Referrers() {
		switch u := r.(type) {
		case *ssa.BinOp, *ssa.Return:
			return true
		case *ssa.Store:
			return true // into a variable that others see
		case *ssa.Phi:
			if errAsked(u, seen) {
				return true
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface:
			if errAsked(u.(ssa.Value), seen) {
				return true
			}
		}
	}
	return false
}

// lists: what is put in front of every record of a list is read in the same way, and each is encoded alone.
func (k *codecs) lists() {
	c := k.c
	pairs := [][2]string{{"EncodeArrayMsgp", "DecodeArrayMsgp"}, {"IntToBytes", "BytesToInt"}}
	byName := map[string]*ssa.Function{}
	for _, fn := range c.P.Fns {
		if strings.HasSuffix(pkgPathOf(fn), "common/util") && fn.Signature.Recv() == nil && fn.Parent() == nil {
			n := fn.Name()
			if i := strings.IndexByte(n, '['); i > 0 {
				n = n[:i]
			}
			if byName[n] == nil || len(fn.TypeArgs()) == 0 {
				byName[n] = fn
			}
		}
	}
	for _, p := range pairs {
		enc, dec := byName[p[0]], byName[p[1]]
		if enc == nil || dec == nil {
			continue
		}
		e, d := numbers(enc), numbers(dec)
		c.Check(keySet(e) == keySet(d), "list", p[0]+" numbers", enc.Pos(), "%s writes numbers as %s, %s reads them as %s", p[0], keySet(e), p[1], keySet(d))
		for _, b := range enc.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || callName(call) != "MarshalMsg" {
					continue
				}
				arg := call.Common().Args[len(call.Common().Args)-1]
				c.Check(empty(arg, map[ssa.Value]bool{}), "list", p[0]+" alone", call.Pos(), "%s encodes a record behind the one before it", p[0])
			}
		}
	}
}

// numbers: how a function writes or reads numbers.
func numbers(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := call.Common().StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "encoding/binary" {
				continue
			}
			n := f.Name()
			for _, p := range []string{"Put", "Append", "Read"} {
				n = strings.TrimPrefix(n, p)
			}
			if r := f.Signature.Recv(); r != nil {
				n = typeNameOf(deref(r.Type())) + "." + n
			}
			out[n] = true
		}
	}
	return out
}

// empty: a slice of length 0.
func empty(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	zero := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && (k.Value == nil || constant.Sign(k.Value) == 0)
	}
	switch u := v.(type) {
	case *ssa.Const:
		return u.Value == nil
	case *ssa.MakeSlice:
		return zero(u.Len)
	case *ssa.Slice:
		if u.High != nil {
			return zero(u.High)
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			a, ok := deref(al.Type()).Underlying().(*types.Array)
			return ok && a.Len() == 0
		}
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !empty(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// hidden: fields that the encoding leaves out.
func (k *codecs) hidden(t types.Type, path string, seen map[types.Type]bool, out *[]string) {
	t = deref(t)
	if seen[t] {
		return
	}
	seen[t] = true
	if ms := types.NewMethodSet(types.NewPointer(t)); ms.Lookup(nil, "GobEncode") != nil || ms.Lookup(nil, "MarshalBinary") != nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := strings.TrimPrefix(path+"."+f.Name(), ".")
			_, fun := f.Type().Underlying().(*types.Signature)
			_, ch := f.Type().Underlying().(*types.Chan)
			if !f.Exported() || fun || ch {
				*out = append(*out, name)
				continue
			}
			k.hidden(f.Type(), name, seen, out)
		}
	case *types.Slice:
		k.hidden(u.Elem(), path, seen, out)
	case *types.Map:
		k.hidden(u.Elem(), path, seen, out)
	}
}
