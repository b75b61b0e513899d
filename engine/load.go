package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code: /repo's current tree, the harness packages and
// the standard library, in SSA form.
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness *ssa.Package
	modPath string
	sizes   types.Sizes
}

const modPath = "github.com/go-latex/latex"

const goPath = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOPATH", "GOMODCACHE", "CGO_ENABLED", "GOCACHE", "HOME", "GOROOT", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	cache := os.Getenv("VERIF_GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	return append(env,
		"HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0",
		"PATH="+goPath,
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// overlayFiles maps the harness sources into /repo's module.
func overlayFiles(root string) (map[string]string, error) {
	ov := map[string]string{}
	h := filepath.Join(root, "harness")
	err := filepath.Walk(h, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(h, p)
		ov[filepath.Join(repoDir, "internal", rel)] = p
		return nil
	})
	return ov, err
}

var repoDir = "/repo"

// writeModfile writes a copy of /repo's go.mod with the stubbed modules
// replaced, and returns its path.
func writeModfile(root, scratch string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b) + fmt.Sprintf(`
replace golang.org/x/image => %[1]s/stubs/image
replace git.sr.ht/~sbinet/gg => %[1]s/stubs/gg
replace github.com/go-fonts/latin-modern => %[1]s/stubs/fonts-latin-modern
replace github.com/go-fonts/liberation => %[1]s/stubs/fonts-liberation
replace github.com/go-pdf/fpdf => %[1]s/stubs/fpdf
`, root)
	f := filepath.Join(scratch, "verif.mod")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	return f, os.WriteFile(filepath.Join(scratch, "verif.sum"), sum, 0o644)
}

func Load(root, modfile string, patterns []string, harnessPath string) (*Program, error) {
	files, err := overlayFiles(root)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Env:        goEnv(),
		BuildFlags: []string{"-modfile=" + modfile},
		Overlay:    ov,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, modPath: modPath, sizes: types.SizesFor("gc", "amd64")}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.harness = p.pkgs[harnessPath]
	if p.harness == nil {
		return nil, fmt.Errorf("no harness package %s", harnessPath)
	}
	return p, nil
}
