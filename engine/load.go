package main

// Loading the code under test (with the harness overlay) and building SSA.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ElrondNetwork/arwen-wasm-vm/v1_3"
const ndPath = modPath + "/verifnd"

var noMerge = os.Getenv("GOSYM_NOMERGE") != ""

type Program struct {
	fset         *token.FileSet
	prog         *ssa.Program
	repo         string
	harnessDir   string
	pkgs         []*packages.Package
	runtimeError types.Type
	symAllocMax  int

	intr    sync.Map // *ssa.Function -> intrinsicFn or nil
	methods sync.Map
	impls   sync.Map

	fmtWrapError    types.Type
	errorsStringPtr types.Type
	rtype           types.Type
	stringT         types.Type
}

// overlayFiles maps /repo paths to harness files.
func overlayFiles(harnessDir, repo string) (map[string]string, []string, error) {
	m := map[string]string{}
	pk := map[string]bool{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harnessDir, p)
		m[filepath.Join(repo, rel)] = p
		pk["./"+filepath.Dir(rel)] = true
		return nil
	})
	var ps []string
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return m, ps, err
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1")
	return env
}

func loadProgram(repo, harnessDir string) (*Program, error) {
	files, pats, err := overlayFiles(harnessDir, repo)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not compile with the harnesses:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	p := &Program{fset: prog.Fset, prog: prog, repo: repo, harnessDir: harnessDir, pkgs: pkgs, symAllocMax: 64}
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("runtime package not loaded")
	}
	p.runtimeError = rt.Type("errorString").Type()
	if f := prog.ImportedPackage("fmt"); f != nil {
		p.fmtWrapError = types.NewPointer(f.Type("wrapError").Type())
	}
	if f := prog.ImportedPackage("errors"); f != nil {
		p.errorsStringPtr = types.NewPointer(f.Type("errorString").Type())
	}
	if f := prog.ImportedPackage("reflect"); f != nil {
		p.rtype = types.NewPointer(f.Type("rtype").Type())
	}
	p.stringT = types.Typ[types.String]
	return p, nil
}

func (p *Program) build(pkg *ssa.Package) { pkg.Build() }

func (p *Program) rel(f string) string {
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		return f[i+9:]
	}
	if i := strings.Index(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f, ok := p.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	var pk *types.Package
	if !m.Exported() {
		pk = m.Pkg()
	}
	f := p.prog.LookupMethod(t, pk, m.Name())
	p.methods.Store(k, f)
	return f
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := p.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	p.impls.Store(k, r)
	return r
}
