package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "Every handler, remote method and background function of the four servers that reaches file operations is explored on every path; each path handed to a file operation is taken apart into its elements, and an element that comes from a request (path, query, header, body, message field or a record made from one) needs branch facts that it contains no separator and is not the parent directory.", checkC38)
}

// paths judges what the paths of file operations are made of.
type paths struct {
	*files
}

// sinks are the operations that take a path, with the arguments that are paths.
var sinks = map[string][]int{
	"os.Open": {0}, "os.OpenFile": {0}, "os.Create": {0}, "os.Stat": {0}, "os.Lstat": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Rename": {0, 1}, "os.Link": {0, 1}, "os.Symlink": {0, 1}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.ReadFile": {0}, "os.WriteFile": {0},
	"os.ReadDir": {0}, "os.Truncate": {0}, "os.Chmod": {0}, "os.CreateTemp": {0, 1}, "os.MkdirTemp": {0, 1},
	"io/ioutil.ReadFile": {0}, "io/ioutil.WriteFile": {0}, "io/ioutil.ReadDir": {0},
	"path/filepath.Walk": {0}, "path/filepath.WalkDir": {0}, "path/filepath.Glob": {0},
	"common/system/disk.OpenFileDirectIO": {0}, "go.etcd.io/bbolt.Open": {0}, "github.com/dgraph-io/badger/v3.Open": {0},
	ginCtx + "File": {1}, ginCtx + "FileAttachment": {1}, ginCtx + "SaveUploadedFile": {2}, "net/http.ServeFile": {2},
	objApp + "usecase/component.DriverManager.FindMountPath": {1}, objApp + "usecase/component.DriverManager.IsPathExist": {1},
}

func checkC38(c *Ctx) {
	c.Rule("inside", "a path given to a file operation contains no text of a request unless that is known to have no separator and not to be the parent directory")
	f := &paths{&files{c}}
	ops := c.callersOf(func(n string) bool { return sinks[n] != nil || n == "common/cache.ICache.SetGob" })
	n := 0
	for _, mod := range []string{"objectserver/", "metaserver/", "apiserver/", "adminserver/"} {
		for _, fn := range c.serverRoots(mod, ops) {
			f.explore(fn)
			n++
		}
	}
	c.Count("entry points", n)
	c.Min("inside", 36)
}

func (f *paths) explore(fn *ssa.Function) {
	c := f.c
	key := methodKey(fn)
	for _, m := range c.RPCs("") {
		if c.P.base(m.Fn) == fn {
			key = m.Service + " " + m.Name
		}
	}
	r := &Rule{}
	near := c.E.Focus(c.E.Reaching(func(n string) bool {
		return sinks[n] != nil || n == "common/cache.ICache.SetGob" || strings.HasPrefix(n, pathIdx) || strings.HasPrefix(n, ginCtx+"ShouldBind")
	}), 12)
	r.Relevant = near
	r.OnBranch = func(x *Exec, st *State) { f.learn(st) }
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		if c.onAnswer(x, st, ci) {
			return ActPure
		}
		switch {
		case ci.Name == "common/cache.ICache.SetGob" && len(ci.Args) == 3:
			f.record(x, st, ci, key, ci.Args[2])
			return ActPure
		case ci.Name == "common/util.GobEncode" && len(ci.Args) > 0:
			f.record(x, st, ci, key, ci.Args[0])
			return ActPure
		case strings.HasPrefix(ci.Name, getGob) && len(ci.Args) == 2, strings.HasPrefix(ci.Name, "common/cache.ICache."):
			return ActPure
		case ci.Name == "common/util.GobDecode":
			return ActOpaque
		}
		if ci.Name == "os.CreateTemp" || ci.Name == "os.MkdirTemp" {
			return ActDefault
		}
		for _, i := range sinks[ci.Name] {
			if i >= len(ci.Args) {
				continue
			}
			f.learn(st)
			at := key + " -> " + stableKey(ci.Caller) + " " + methodName2(ci.Name)
			clean := true
			for _, p := range f.parts(st, ci.Args[i]) {
				for _, s := range f.sources(p) {
					clean = false
					why := f.loose(st, p, s)
					c.Check(why == "", "inside", at+" "+shown(s), ci.Site.Pos(), "%s: a file operation gets a path with %s of a request, which %s", key, shown(s), why)
				}
			}
			if clean {
				c.Ok("inside", at)
			}
		}
		return ActDefault
	}
	f.hooks(r)
	r.LoopEvents = false
	hooked := r.OnCall
	r.OnCall = func(x *Exec, st *State, ci *CallInfo) Action {
		a := hooked(x, st, ci)
		// nothing of what happened to files matters
		keep := st.trace[:0:0]
		for _, ev := range st.trace {
			if ev.Kind == "create" || ev.Kind == "open" {
				keep = append(keep, ev)
			}
		}
		st.trace = keep
		return a
	}
	c.Run(fn, r)
}

// decided are the parts of a record that say where its file is.
var decided = []string{"FullPath", "MountPoint", "Id"}

// record: where the file of a record is, is nothing a request has said.
func (f *paths) record(x *Exec, st *State, ci *CallInfo, key string, rec *Term) {
	rec = rec.strip()
	if !strings.Contains(typeNameOf(rec.typ), "/entity.") {
		return
	}
	f.learn(st)
	for _, n := range decided {
		why := ""
		for _, p := range f.parts(st, x.field(st, rec, n)) {
			for _, s := range f.sources(p) {
				if w := f.loose(st, p, s); w != "" {
					why = shown(s) + " of a request, which " + w
				}
			}
		}
		f.c.Check(why == "", "inside", key+" records "+n, ci.Site.Pos(), "%s: %s of the record of an upload is made of %s", key, n, why)
	}
}

// shown names a source.
func shown(s *Term) string {
	if n := lastField(s); n != "" {
		return "the field " + n
	}
	if ci := callOf(s); ci != nil {
		return "the result of " + methodName2(ci.Name)
	}
	return "a part"
}

// sources are the texts of requests a term is made of.
func (f *paths) sources(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = t.strip()
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if f.source(t) {
			out = append(out, t)
			return
		}
		for _, a := range t.a {
			walk(a)
		}
		// what library functions make of a text may hold any part of it
		if ci := callOf(t); ci != nil && isText(t.typ) && (strings.HasPrefix(ci.Name, "strings.") || strings.HasPrefix(ci.Name, "path") || strings.HasPrefix(ci.Name, "net/url.") || strings.HasPrefix(ci.Name, "fmt.") || strings.HasPrefix(ci.Name, "common/util.")) {
			for _, a := range ci.Args {
				walk(a)
			}
		}
	}
	walk(t)
	return out
}

func isText(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

// source: the term is a text that comes with a request.
func (f *paths) source(t *Term) bool {
	if !isText(t.typ) {
		return false
	}
	if ci := callOf(t); ci != nil {
		switch {
		case strings.HasPrefix(ci.Name, ginCtx):
			switch strings.TrimPrefix(ci.Name, ginCtx) {
			case "Param", "Query", "DefaultQuery", "GetQuery", "GetHeader", "PostForm", "DefaultPostForm", "GetPostForm", "GetString", "Cookie", "FullPath":
				return true
			}
		case strings.HasPrefix(ci.Name, "net/http.Header.Get"), strings.HasPrefix(ci.Name, "net/http.Request."), strings.HasPrefix(ci.Name, "net/url.Values.Get"):
			return true
		}
	}
	a := t
	if a.k == KLoad {
		a = a.a[0]
	}
	if a.k != KFAddr && a.k != KField || len(a.a) == 0 {
		return false
	}
	n := typeNameOf(a.a[0].typ)
	switch {
	case strings.HasPrefix(n, "common/proto/pb."), n == "net/http.Request", n == "net/url.URL", n == "mime/multipart.FileHeader":
		return true
	}
	tag := fieldTag(a)
	for _, k := range []string{"uri:", "form:", "json:", "header:"} {
		if strings.Contains(tag, k) && !strings.Contains(tag, "yaml:") && !strings.Contains(tag, "env:") {
			return true
		}
	}
	if strings.Contains(n, "/entity.") && tag == "" {
		// records hold what requests said, but where their files are the server has decided
		for _, d := range decided {
			if a.op == d {
				return false
			}
		}
		return true
	}
	return false
}

// asCall: name and arguments of the call a term is the result of.
func asCall(t *Term) (string, []*Term) {
	t = t.strip()
	if t.k == KPure {
		return t.op, t.a
	}
	if ci := callOf(t); ci != nil {
		return ci.Name, ci.Args
	}
	return "", nil
}

// learn notes what the facts of a path say about texts.
func (f *paths) learn(st *State) {
	// kept as terms: those are renamed when a loop makes their parts anew
	note := func(k string, t *Term) {
		t = t.strip()
		k += t.key
		for i := 0; i < 2 && st.terms[k] != nil && st.terms[k] != t; i++ {
			k += "'"
		}
		st.terms[k] = t
	}
	for fa, v := range st.facts {
		n, as := asCall(fa)
		switch n {
		case "strings.ContainsAny", "strings.Contains":
			if len(as) != 2 || v {
				break
			}
			s := textOf(as[1])
			if s == "/" || n == "strings.ContainsAny" && strings.Contains(s, "/") {
				note("nosep:", as[0])
			}
			if n == "strings.Contains" && (s == ".." || s == ".") || n == "strings.ContainsAny" && strings.Contains(s, ".") {
				note("nodots:", as[0])
			}
		case "strings.ContainsRune":
			if !v && len(as) == 2 && isInt(as[1].strip(), '/') {
				note("nosep:", as[0])
			}
		case "strings.HasPrefix":
			if s := ""; len(as) == 2 {
				s = textOf(as[1])
				if !v && (s == "." || s == "..") || v && s != "" && !strings.HasPrefix(s, ".") {
					note("nodots:", as[0])
				}
			}
		case "path/filepath.IsLocal", "io/fs.ValidPath":
			if v && len(as) == 1 {
				note("nosep:", as[0])
				note("nodots:", as[0])
			}
		}
		if fa.k != KBin {
			continue
		}
		for i := range fa.a {
			n, as := asCall(fa.a[i])
			o := fa.a[1-i].strip()
			switch {
			case fa.op == "==" && n == "path/filepath.Base" || fa.op == "==" && n == "path.Base":
				if v && as[0].strip() == o {
					note("nosep:", o)
				}
			case strings.HasPrefix(n, "strings.Index") && len(as) == 2:
				s := textOf(as[1])
				if s != "/" && !(n == "strings.IndexAny" && strings.Contains(s, "/")) && !isInt(as[1].strip(), '/') {
					break
				}
				if fa.op == "<" && i == 0 && isInt(o, 0) && v || fa.op == "==" && isInt(o, -1) && v || fa.op == "<" && i == 1 && isInt(o, -1) && !v {
					note("nosep:", as[0])
				}
			}
			if fa.op == "==" && textOf(o) == ".." && !v {
				note("nodots:", fa.a[i])
			}
			if fa.op == "==" && v && textOf(o) != "" && !strings.Contains(textOf(o), "/") && textOf(o) != ".." {
				note("nosep:", fa.a[i])
				note("nodots:", fa.a[i])
			}
		}
	}
}

// loose: what is missing to know that the element of a path stays below its directory.
func (f *paths) loose(st *State, part, s *Term) string {
	part, s = part.strip(), s.strip()
	has := func(k string, t *Term) bool {
		for n, s := range st.terms {
			if s == t && strings.HasPrefix(n, k) {
				return true
			}
		}
		return false
	}
	n, _ := asCall(part)
	base := n == "path/filepath.Base" || n == "path.Base"
	if !has("nosep:", s) && !has("nosep:", part) && !base {
		return "may contain a separator"
	}
	if has("nodots:", s) && part == s || has("nodots:", part) {
		return ""
	}
	if part.k == KBin && part.op == "+" || part.k == KPure && strings.HasPrefix(part.op, "fmt.") {
		more, cut := false, false
		part.walk(func(x *Term) {
			if t := textOf(x); t != "" {
				more = more || strings.Trim(t, ".") != ""
				cut = cut || strings.Contains(t, "/")
			}
		})
		if more && !cut || has("nodots:", s) {
			return ""
		}
	}
	return "may be the parent directory"
}
