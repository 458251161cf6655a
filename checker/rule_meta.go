package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "Every repository method that adds or removes version records is explored on every path through its transaction; the store operations on each path are collected with the bucket they address, the key, and the record they encode or decode, and the index entries must match the record's own hash and unique id.", checkC04)
	register("C05", "Every repository method that adds or updates a record is explored on every path through its transaction; the record written is compared field by field with the stored record read under the same key, and the branch facts of the path must establish the duplicate and timestamp checks.", checkC05)
}

// storeRun explores a repository method and judges every transaction that may
// be committed, and every success that stored nothing.
func (c *Ctx) storeRun(root *ssa.Function, judge func(x *Exec, st *State, ops []boltOp, at ssa.Instruction)) *Exec {
	r := c.storeRule(judge)
	return c.Run(root, r)
}

func (c *Ctx) storeRule(judge func(x *Exec, st *State, ops []boltOp, at ssa.Instruction)) *Rule {
	r := &Rule{MaxDepth: 10}
	forget := func(st *State) {
		var keep []Event
		for _, ev := range st.trace {
			if !strings.HasPrefix(ev.Kind, "bolt:") && ev.Kind != "enc" && ev.Kind != "dec" {
				keep = append(keep, ev)
			}
		}
		st.trace = keep
	}
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if strings.HasPrefix(ci.Name, "common/logs.") || strings.HasPrefix(ci.Name, "common/graceful.") || strings.Contains(ci.Name, "IMetaCache.") || strings.Contains(ci.Name, "CacheRepo.") {
			return ActOpaque
		}
		return ActDefault
	}
	boltHooks(r)
	prev := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if isWriteTx(ci.Name) {
			forget(st)
		}
		return prev(x, st, ci)
	}
	r.OnCallback = func(x *Exec, st *State, ci *CallInfo, res []*Term) {
		switch {
		case ci.Name == boltDot+"DB.View":
			forget(st)
		case isWriteTx(ci.Name) && len(res) == 1 && x.nilness(st, res[0]) != No:
			judge(x, st, boltOps(st), ci.Site)
			st.vars["committed"] = "1"
			forget(st)
		}
	}
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if len(res) == 0 || x.nilness(st, res[len(res)-1]) == No || st.vars["committed"] != "" {
			return
		}
		judge(x, st, nil, at)
	}
	return r
}

func isWriteTx(name string) bool { return name == boltDot+"DB.Update" || name == boltDot+"DB.Batch" }

func paramTerm(x *Exec, i int) *Term {
	return x.E.Param(x.Root.Params[i].Name(), x.Root.Params[i].Type())
}

func checkC04(c *Ctx) {
	c.Rule("index-on-add", "on every path that commits a new version record, the same transaction puts the record's key under its own hash in the hash index and under its own unique id in the unique-id index")
	c.Rule("index-on-remove", "on every path that commits the removal of a version record, the same transaction removes its key from the entries of the stored record's hash and unique id")
	c.Rule("index-on-drop", "on every path that commits the removal of all versions of an object, the same transaction first walks them and removes the index entries of each stored record")
	c.Rule("unique-check", "a version is inserted only after its unique id was looked up in the unique-id index and nothing was found there, and a hit is refused")
	c.Rule("versions-with-object", "creating an object creates its version bucket in the same transaction; removing it removes that bucket")

	var hashRoot *Term // the index that lookups by hash read
	hashGet := func(fn *ssa.Function) {
		r := &Rule{MaxDepth: 8}
		boltHooks(r)
		r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
			for _, o := range boltOps(st) {
				if o.name == "Bucket" && o.path != nil && len(o.path) == 1 && o.key == paramTerm(x, 1) {
					hashRoot = o.path[0]
				}
			}
		}
		c.Run(fn, r)
	}
	if nt := c.P.TypeByName(msUsecase + ".IHashIndexRepo"); nt != nil {
		for _, t := range c.P.Implementers(nt.Underlying().(*types.Interface)) {
			if fn := c.P.Method(t, "FindAll"); fn != nil {
				hashGet(c.P.base(fn))
			}
		}
	}
	if hashRoot == nil {
		c.Bad("index-on-add", "lookup by hash", 0, "the index that lookups by hash read was not found")
		return
	}
	// the index consulted before inserting, per method
	var idRoot *Term
	methods := c.storeMethods(msUsecase + ".WritableRepo")
	type add struct {
		fn *ssa.Function
	}
	for _, fn := range methods {
		name := fn.Name()
		if name != "AddVersion" && name != "AddVersionFromRaft" {
			continue
		}
		key := methodKey(fn)
		refuses := false
		c.storeRunAll(fn, func(x *Exec, st *State, ops []boltOp, res *Term, at ssa.Instruction) {
			if res != nil {
				// some path refuses after the look-up
				if strings.HasSuffix(res.Pretty(), "ErrExists") {
					for _, o := range ops {
						if o.name == "Bucket" && len(o.path) == 1 && fieldOfParam(o.key, "UniqueId") {
							refuses = true
						}
					}
				}
				return
			}
			var rec *boltOp
			var enc *Event
			for i := range ops {
				if ops[i].name == "Put" {
					if e := encOf(st, ops[i].val); e != nil && strings.HasSuffix(typeNameOf(deref(e.Val.typ)), "msg.Version") {
						rec, enc = &ops[i], e
					}
				}
			}
			if !c.Check(rec != nil, "index-on-add", key+" record", at.Pos(), "a path reports success without storing the version record") {
				return
			}
			hash, uid := enc.field("Hash"), enc.field("UniqueId")
			// the look-up of the unique id precedes the insertion
			var look *boltOp
			for i := range ops {
				if ops[i].name == "Bucket" && len(ops[i].path) == 1 && ops[i].key == uid.strip() && ops[i].path[0] != hashRoot {
					look = &ops[i]
					idRoot = ops[i].path[0]
				}
				if &ops[i] == rec {
					break
				}
			}
			c.Check(look != nil, "unique-check", key, at.Pos(), "the version is inserted without looking its unique id up in the unique-id index first")
			hasIx := func(root, val *Term) bool {
				for _, o := range ops {
					if o.name == "Put" && len(o.path) == 2 && o.path[0] == root && o.path[1] == val.strip() && o.key == rec.key {
						return true
					}
				}
				return false
			}
			c.Check(hasIx(hashRoot, hash), "index-on-add", key+" hash", at.Pos(), "the new version is not entered in the hash index under its own hash, so it cannot be found or updated by hash")
			if idRoot != nil {
				c.Check(hasIx(idRoot, uid), "index-on-add", key+" unique id", at.Pos(), "the new version is not entered in the unique-id index under its own unique id, so the same version can be added twice")
			}
		})
		c.Check(refuses, "unique-check", key+" refuses", fn.Pos(), "a version whose unique id is already indexed is not refused")
	}
	for _, fn := range methods {
		key := methodKey(fn)
		switch fn.Name() {
		case "RemoveVersion":
			c.storeRun(fn, func(x *Exec, st *State, ops []boltOp, at ssa.Instruction) {
				for i := range ops {
					o := &ops[i]
					if o.name != "Delete" || len(o.path) != 2 || o.path[0] == hashRoot || o.path[0] == idRoot {
						continue
					}
					rec := storedRecord(st, o.path, o.key)
					if !c.Check(rec != nil, "index-on-remove", key+" stored", o.ev.Pos, "the record is deleted without reading what it is indexed under") {
						continue
					}
					for _, ix := range []struct {
						root *Term
						f    string
					}{{hashRoot, "Hash"}, {idRoot, "UniqueId"}} {
						ok := c.indexGone(x, st, ops, ix.root, rec.field(ix.f), o.key)
						c.Check(ok, "index-on-remove", key+" "+ix.f, o.ev.Pos, "the version is deleted but its key stays in the index entry of its %s", ix.f)
					}
				}
			})
		case "RemoveMetadata", "RemoveAllVersion":
			dropped := false
			c.storeRun(fn, func(x *Exec, st *State, ops []boltOp, at ssa.Instruction) {
				for i := range ops {
					o := &ops[i]
					if o.name != "DeleteBucket" {
						continue
					}
					dropped = true
					full := append(append([]*Term(nil), o.path...), o.key)
					walked := false
					for _, w := range ops[:i] {
						if (w.name == "ForEach" || w.name == "Cursor") && samePath(w.path, full) {
							walked = true
						}
					}
					// nothing to walk when the bucket does not exist
					if !walked {
						for _, w := range ops[:i] {
							if w.name == "Bucket" && samePath(append(append([]*Term(nil), w.path...), w.key), full) && x.nilness(st, resOf(x, w.ev)) == Yes {
								walked = true
							}
						}
						// ... nor when the bucket that would contain it does not
						if x.nilness(st, o.ev.Args[0]) == Yes {
							walked = true
						}
					}
					c.Check(walked, "index-on-drop", key+" walk", o.ev.Pos, "all versions are dropped without walking them, so their index entries stay behind: their unique ids are refused for ever and lookups by hash find records that are gone")
					for j := range st.trace {
						d := &st.trace[j]
						if d.Kind != "dec" || !strings.HasSuffix(typeNameOf(deref(d.Val.typ)), "msg.Version") {
							continue
						}
						for _, ix := range []struct {
							root *Term
							f    string
						}{{hashRoot, "Hash"}, {idRoot, "UniqueId"}} {
							ok := c.indexGone(x, st, ops[:i], ix.root, d.field(ix.f), nil)
							c.Check(ok, "index-on-drop", key+" "+ix.f, o.ev.Pos, "versions are dropped but their keys stay in the index entries of their %s", ix.f)
						}
					}
				}
				if fn.Name() == "RemoveMetadata" {
					// the record and its versions go together
					del, drop := false, false
					for _, o := range ops {
						if o.name == "Delete" && len(o.path) == 1 && o.key == paramTerm(x, 1) {
							del = true
						}
						if o.name == "DeleteBucket" && o.key == paramTerm(x, 1) {
							drop = true
						}
					}
					c.Check(del == drop, "versions-with-object", key, at.Pos(), "an object's record and its versions are not removed together")
				}
			})
			c.Check(dropped, "index-on-drop", key+" drops", fn.Pos(), "no path removes the versions")
		case "AddMetadata":
			c.storeRun(fn, func(x *Exec, st *State, ops []boltOp, at ssa.Instruction) {
				put, mk := false, false
				for _, o := range ops {
					if o.name == "Put" && o.key == paramTerm(x, 1) {
						put = true
					}
					if strings.HasPrefix(o.name, "CreateBucket") && o.key == paramTerm(x, 1) && len(o.path) == 1 {
						mk = true
					}
				}
				c.Check(put && mk, "versions-with-object", key, at.Pos(), "an object is added without the bucket that holds its versions, or the other way round")
			})
		}
	}
	c.Min("index-on-add", 6)
	c.Min("index-on-remove", 4)
	c.Min("index-on-drop", 4)
	c.Min("unique-check", 4)
	c.Min("versions-with-object", 2)
}

// indexGone: the key was deleted from the entry root/val on the path, or that entry does not exist.
func (c *Ctx) indexGone(x *Exec, st *State, ops []boltOp, root, val, key *Term) bool {
	if root == nil || val == nil {
		return false
	}
	for _, o := range ops {
		if o.name == "Delete" && len(o.path) == 2 && o.path[0] == root && o.path[1] == val.strip() && (key == nil || o.key == key) {
			return true
		}
		// dropping the whole entry is as good when nothing else can be in it is not assumed
		if o.name == "Bucket" && len(o.path) == 1 && o.path[0] == root && o.key == val.strip() && x.nilness(st, resOf(x, o.ev)) == Yes {
			return true
		}
	}
	return false
}

// fieldOfParam: the field f read through a parameter.
func fieldOfParam(t *Term, f string) bool {
	t = t.strip()
	return t != nil && t.k == KLoad && t.a[0].k == KFAddr && t.a[0].op == f
}

// storeRunAll is storeRun for the method's failing paths too.
func (c *Ctx) storeRunAll(root *ssa.Function, judge func(x *Exec, st *State, ops []boltOp, res *Term, at ssa.Instruction)) {
	r := c.storeRule(func(x *Exec, st *State, ops []boltOp, at ssa.Instruction) { judge(x, st, ops, nil, at) })
	prev := r.OnExit
	r.OnExit = func(x *Exec, st *State, res []*Term, at ssa.Instruction) {
		if e := res[len(res)-1]; x.nilness(st, e) == No && st.vars["committed"] == "" {
			judge(x, st, boltOps(st), e, at)
			return
		}
		prev(x, st, res, at)
	}
	c.Run(root, r)
}

func checkC05(c *Ctx) {
	c.Rule("no-overwrite", "a new record is put only under a key that was read and found empty in the same transaction")
	c.Rule("update-reads", "an update puts a record only under a key whose stored record was read in the same transaction")
	c.Rule("immutable", "the record an update puts carries the stored record's value of every field that must not change")
	c.Rule("newer", "an update is applied only if its timestamp is strictly newer than the stored one; the path's branch facts establish it")
	c.Rule("own-key", "records are put under the key of the object the operation names")
	immut := map[string][]string{
		"Metadata": {"Bucket", "CreateTime"},
		"Version":  {"UniqueId", "Sequence", "Hash"},
		"Bucket":   {"CreateTime"},
	}
	stamp := map[string]string{"Metadata": "UpdateTime", "Version": "Ts", "Bucket": "UpdateTime"}
	methods := append(c.storeMethods(msUsecase+".WritableRepo"), c.storeMethods(msUsecase+".BucketWritableRepo")...)
	if fs := c.storeMethods(msUsecase + ".IMetadataRepo"); fs != nil {
		for _, f := range fs {
			if strings.HasPrefix(f.Name(), "UpdateLocate") {
				methods = append(methods, f)
			}
		}
	}
	for _, fn := range methods {
		n := fn.Name()
		isAdd := strings.HasPrefix(n, "Add") || n == "Create"
		isUpd := strings.HasPrefix(n, "Update")
		if !isAdd && !isUpd {
			continue
		}
		key := methodKey(fn)
		c.storeRun(fn, func(x *Exec, st *State, ops []boltOp, at ssa.Instruction) {
			for i := range ops {
				o := &ops[i]
				if o.name != "Put" || o.ev.Sym != o.ev.Call.Sym {
					continue // an earlier iteration is judged on the path that ends with it
				}
				enc := encOf(st, o.val)
				if enc == nil {
					continue // index entry
				}
				kind := typeNameOf(deref(enc.Val.typ))
				kind = kind[strings.LastIndex(kind, ".")+1:]
				if immut[kind] == nil {
					continue
				}
				if strings.HasPrefix(n, "UpdateLocate") {
					// named by hash; the keys come out of the index
				} else {
					id := paramTerm(x, 1)
					own := o.key == id || (len(o.path) == 2 && o.path[1] == id && o.key.contains(id))
					if kind == "Bucket" {
						own = o.key == enc.field("Name").strip()
					}
					c.Check(own, "own-key", key, o.ev.Pos, "the record is stored under a key other than the one the operation names")
				}
				if isAdd {
					free := false
					for _, g := range ops[:i] {
						if g.name == "Get" && samePath(g.path, o.path) && g.key == o.key && x.nilness(st, resOf(x, g.ev)) == Yes {
							free = true
						}
					}
					c.Check(free, "no-overwrite", key, o.ev.Pos, "a %s record is put without the key having been found free, so an existing record can be overwritten", kind)
					continue
				}
				rec := storedRecord(st, o.path, o.key)
				if !c.Check(rec != nil, "update-reads", key, o.ev.Pos, "the %s record is replaced without the stored one having been read under the same key", kind) {
					continue
				}
				for _, f := range immut[kind] {
					c.Check(rec.field(f).strip() == enc.field(f).strip(), "immutable", key+" "+f, o.ev.Pos, "an update can change %s.%s: the stored value is not carried over", kind, f)
				}
				nw := x.E.T.bin("<", rec.field(stamp[kind]), enc.field(stamp[kind]), types.Typ[types.Bool])
				if strings.HasPrefix(n, "UpdateLocate") {
					continue // the time is stamped by the operation itself
				}
				c.Check(x.Eval(st, nw) == Yes, "newer", key, o.ev.Pos, "an update is applied although its %s may not be newer than the stored one", stamp[kind])
			}
		})
	}
	c.Min("no-overwrite", 4)
	c.Min("update-reads", 4)
	c.Min("immutable", 10)
	c.Min("newer", 4)
	c.Min("own-key", 7)
}
