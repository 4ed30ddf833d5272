package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/samuel/go-dsp"
const ndPath = modPath + "/verifnd"

// Program is the SSA form of the code under test plus the harness, built
// from the current working tree on every run.
type Program struct {
	prog  *ssa.Program
	mu    sync.Mutex
	infos map[*ssa.Function]*fnInfo
	bin   *Binary
}

func (p *Program) pos(ps token.Pos, fn *ssa.Function) string {
	if !ps.IsValid() {
		return " in " + fn.String()
	}
	q := p.prog.Fset.Position(ps)
	return fmt.Sprintf(" at %s:%d (%s)", filepath.Base(q.Filename), q.Line, fn.Name())
}

func (p *Program) isModulePkg(k *ssa.Package) bool {
	return k != nil && strings.HasPrefix(k.Pkg.Path(), modPath)
}

func (p *Program) pkg(path string) *ssa.Package {
	for _, k := range p.prog.AllPackages() {
		if k.Pkg.Path() == path {
			return k
		}
	}
	return nil
}

func (p *Program) lookup(pkg, name string) *ssa.Function {
	k := p.pkg(pkg)
	if k == nil {
		return nil
	}
	return k.Func(name)
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GODEBUG=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "CGO_ENABLED=0", "GOAMD64=v1")
}

// LoadProgram builds SSA for the packages named in pats with the overlay.
func LoadProgram(repo string, overlay map[string]string, pats []string) (*Program, error) {
	ov := map[string][]byte{}
	for k, v := range overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return &Program{prog: prog, infos: map[*ssa.Function]*fnInfo{}}, nil
}
