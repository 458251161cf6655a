package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked, SSA-lowered workspace under analysis.
type Prog struct {
	Root   string
	SSA    *ssa.Program
	Pkgs   []*packages.Package          // the in-repo packages
	ByPth  map[string]*packages.Package // import path -> package
	Fns    []*ssa.Function              // every in-repo source function (incl. closures, instances)
	inRep  map[*types.Package]bool
	graph  *Graph
	valFns map[string][]*ssa.Function
	ginit  map[string]*globalInit
}

var modules = []string{"adminserver", "apiserver", "common", "metaserver", "objectserver"}

// workspace writes a private go.work (absolute paths) so that nothing in the
// repository or in /opt/vp is touched while loading.
func workspace(root string) (string, func(), error) {
	dir, err := os.MkdirTemp("", "gfsverif-work-")
	if err != nil {
		return "", nil, err
	}
	clean := func() { os.RemoveAll(dir) }
	src, err := os.ReadFile(filepath.Join(root, "go.work"))
	if err != nil {
		clean()
		return "", nil, err
	}
	re := regexp.MustCompile(`(?m)^([ \t]*)(use[ \t]+)?(\./)?src/`)
	out := re.ReplaceAllString(string(src), "${1}${2}"+root+"/src/")
	if err = os.WriteFile(filepath.Join(dir, "go.work"), []byte(out), 0o644); err != nil {
		clean()
		return "", nil, err
	}
	lines := map[string]bool{}
	for _, f := range []string{"/opt/vp/gowork/base.sum", filepath.Join(root, "go.work.sum")} {
		b, e := os.ReadFile(f)
		if e != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) != "" {
				lines[l] = true
			}
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	if err = os.WriteFile(filepath.Join(dir, "go.work.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0o644); err != nil {
		clean()
		return "", nil, err
	}
	return filepath.Join(dir, "go.work"), clean, nil
}

func goEnv(gowork string) []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOPATH", "GOMODCACHE", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOWORK="+gowork, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
}

// Load type-checks every package of the workspace and lowers it to SSA.
func Load(root string) (*Prog, error) {
	if _, err := exec.LookPath("go"); err != nil {
		os.Setenv("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:"+os.Getenv("PATH"))
	}
	gw, clean, err := workspace(root)
	if err != nil {
		return nil, err
	}
	defer clean()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedExportFile | packages.NeedModule,
		Dir: root,
		Env: goEnv(gw),
	}
	var pats []string
	for _, m := range modules {
		pats = append(pats, "./src/"+m+"/...")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Prog{Root: root, ByPth: map[string]*packages.Package{}, inRep: map[*types.Package]bool{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		p.ByPth[pk.PkgPath] = pk
		p.inRep[pk.Types] = true
	}
	p.Pkgs = pkgs
	if len(pkgs) < 60 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
	}
	prog.Build()
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if p.InRepo(fn) {
			p.Fns = append(p.Fns, fn)
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool {
		a, b := p.Fns[i], p.Fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Prog) pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func (p *Prog) InRepo(fn *ssa.Function) bool {
	pk := p.pkgOf(fn)
	return pk != nil && p.inRep[pk]
}
