package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoRoot is where the code under analysis lives.
var repoRoot = "/repo"

// module is one of the three Go modules of the repository, type checked
// and lowered to SSA.
type module struct {
	name  string // v4, v5, v6
	pkgs  []*packages.Package
	prog  *ssa.Program
	std   map[*ssa.Package]bool   // library packages whose bodies are analysed
	byDir map[string]*ssa.Package // directory relative to the module root -> package
	fset  *token.FileSet
	files int
	funcs int
}

// interpretable lists library packages whose bodies are kept because
// the analysis looks inside them.
var interpretable = []string{"slices", "maps", "cmp", "sort", "iter"}

func keepBodies(filename string) bool {
	if strings.HasPrefix(filename, repoRoot+"/") {
		return true
	}
	for _, p := range interpretable {
		if strings.Contains(filename, "/src/"+p+"/") {
			return true
		}
	}
	if strings.Contains(filename, "/go-build/") || strings.Contains(filename, "_cgo_gotypes.go") || strings.Contains(filename, ".cgo1.go") {
		return true
	}
	return false
}

func moduleEnv(name string) ([]string, func(), error) {
	// Only v6 has C code of its own; the commands of v4 and v5 use a database
	// driver whose C code plays no role in the analysis.
	cgo := "0"
	if name == "v6" {
		cgo = "1"
	}
	env := append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED="+cgo)
	dir := filepath.Join(repoRoot, name)
	cleanup := func() {}
	if _, err := os.Stat(filepath.Join(dir, "go.sum")); err == nil {
		env = append(env, "GOFLAGS=-mod=readonly")
		return env, cleanup, nil
	}
	tmp, err := os.MkdirTemp("", "verif-mod-")
	if err != nil {
		return nil, nil, err
	}
	cleanup = func() { os.RemoveAll(tmp) }
	gm, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, cleanup, err
	}
	gs, err := os.ReadFile(filepath.Join("/opt/vp/gomod", name, "go.sum"))
	if err != nil {
		root := os.Getenv("VERIF_ROOT")
		if gs, err = os.ReadFile(filepath.Join(root, "checker", "gosum", name+".sum")); err != nil {
			return nil, cleanup, err
		}
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.mod"), gm, 0o644); err != nil {
		return nil, cleanup, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), gs, 0o644); err != nil {
		return nil, cleanup, err
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"))
	return env, cleanup, nil
}

// loadModule type-checks the given package patterns of one module, with the
// flags the real build uses, and builds SSA for the repository's functions.
func loadModule(name string, patterns ...string) (*module, error) {
	env, cleanup, err := moduleEnv(name)
	defer cleanup()
	if err != nil {
		return nil, err
	}
	m := &module{name: name, byDir: map[string]*ssa.Package{}, std: map[*ssa.Package]bool{}, fset: token.NewFileSet()}
	dir := filepath.Join(repoRoot, name)
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  env,
		Fset: m.fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			mode := parser.SkipObjectResolution
			f, err := parser.ParseFile(fset, filename, src, mode)
			if f != nil && !keepBodies(filename) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("%s: no packages match %v", name, patterns)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		inRepo := p.Module != nil && p.Module.Main
		for _, e := range p.Errors {
			if inRepo {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("%s does not type-check: %s", name, strings.Join(errs, "; "))
	}
	// Bodies of dependencies are stripped on purpose; the resulting soft errors
	// do not make their exported types unusable.
	packages.Visit(pkgs, nil, func(p *packages.Package) { p.IllTyped = p.Types == nil })
	m.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	m.prog = prog
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, n := range interpretable {
			if p.PkgPath == n {
				if sp := prog.Package(p.Types); sp != nil {
					sp.Build()
					m.std[sp] = true
				}
			}
		}
		if p.Module == nil || !p.Module.Main {
			return
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		sp.Build()
		if len(p.GoFiles) > 0 {
			rel, err := filepath.Rel(dir, filepath.Dir(p.GoFiles[0]))
			if err == nil {
				m.byDir[rel] = sp
			}
		}
		m.files += len(p.CompiledGoFiles)
	})
	return m, nil
}

func hashFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "unreadable"
	}
	h := sha256.Sum256(bytes.TrimSpace(b))
	return fmt.Sprintf("%x", h[:6])
}

// allFunctions gives the functions, methods and closures of one package.
func (m *module) allFunctions(dir string) map[*ssa.Function]bool {
	pkg := m.byDir[dir]
	out := map[*ssa.Function]bool{}
	if pkg == nil {
		return out
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, mem := range pkg.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := m.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := m.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pkg {
						add(f)
					}
				}
			}
		}
	}
	return out
}
