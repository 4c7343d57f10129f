package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goRoot = "/opt/vp/go1.18.10"

var repoDir = "/repo"

type intrinsicFn func(fr *frame, fn *ssa.Function, args []Value) Value

// Program is the loaded code under test with harnesses and models overlaid.
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	built   sync.Map // *ssa.Package -> *sync.Once
	intr    sync.Map // *ssa.Function -> intrinsicFn or nil
	meth    sync.Map
	impl    sync.Map
	replace map[string]*ssa.Function
	Skipped []string
}

// overlayFor maps every file below dir to the same relative path in the repo.
func overlayFor(dirs ...string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	paths := map[string]string{}
	for _, dir := range dirs {
		err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() || !strings.HasSuffix(path, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(dir, path)
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			dst := filepath.Join(repoDir, rel)
			ov[dst] = b
			paths[dst] = path
			return nil
		})
		if err != nil {
			return nil, nil, err
		}
	}
	return ov, paths, nil
}

// overlayMods adds the files below dir, which is laid out by import path, over
// packages of the module cache.
func overlayMods(dir string, ov map[string][]byte, paths map[string]string) error {
	if _, err := os.Stat(dir); err != nil {
		return nil
	}
	dirs := map[string]string{}
	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		imp := filepath.Dir(rel)
		d, ok := dirs[imp]
		if !ok {
			cmd := exec.Command(filepath.Join(goRoot, "bin", "go"), "list", "-find", "-f", "{{.Dir}}", imp)
			cmd.Dir = repoDir
			out, err := cmd.Output()
			if err != nil {
				return fmt.Errorf("go list %s: %w", imp, err)
			}
			d = strings.TrimSpace(string(out))
			dirs[imp] = d
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst := filepath.Join(d, filepath.Base(path))
		ov[dst] = b
		paths[dst] = path
		return nil
	})
}

func setGoEnv(verifDir string) {
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	os.Setenv("GOROOT", goRoot)
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOWORK", "off")
	os.Setenv("GOFLAGS", "-mod=readonly")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	os.Setenv("CGO_ENABLED", "0")
	if verifDir != "" {
		// The repository's own build cache is not ours to write.
		os.Setenv("GOCACHE", filepath.Join(verifDir, ".cache", "golist"))
	}
	if os.Getenv("GOMODCACHE") == "" {
		os.Setenv("GOMODCACHE", "/root/go/pkg/mod")
	}
}

func load(patterns []string, ov map[string][]byte) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: os.Environ(), Overlay: ov}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, replace: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, repoModule) {
			return
		}
		sp := pr.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//vsym:replace ") {
						target := strings.TrimSpace(strings.TrimPrefix(c.Text, "//vsym:replace "))
						pr.replace[target] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	return pr, nil
}

func (pr *Program) build(pkg *ssa.Package) {
	o, _ := pr.built.LoadOrStore(pkg, new(sync.Once))
	o.(*sync.Once).Do(func() { pkg.Build() })
}

// frozen packages are initialised once per worker: everything outside the
// module under test.
func (pr *Program) frozen(pkg *ssa.Package) bool {
	return !strings.HasPrefix(pkg.Pkg.Path(), repoModule)
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "os", "net", "net/http", "syscall", "internal/poll", "internal/cpu", "crypto/x509", "internal/godebug":
		return true
	}
	return false
}

func (pr *Program) intrinsic(fn *ssa.Function) intrinsicFn {
	if v, ok := pr.intr.Load(fn); ok {
		return v.(intrinsicFn)
	}
	in := pr.findIntrinsic(fn)
	pr.intr.Store(fn, in)
	return in
}

func (pr *Program) findIntrinsic(fn *ssa.Function) intrinsicFn {
	name := fn.String()
	if r := pr.replace[name]; r != nil {
		return func(fr *frame, _ *ssa.Function, args []Value) Value {
			return fr.p.callFn(fr, r, args, nil, fr.g)
		}
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if o := fn.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
	}
	if pk := fnPkg(fn); pk != nil {
		path := pk.Pkg.Path()
		for _, pre := range noopPkgs {
			if path == pre || strings.HasPrefix(path, pre+"/") {
				if fn.Synthetic == "package initializer" {
					return nil
				}
				return noop
			}
		}
		if fn.Name() == "init" && fn.Synthetic == "package initializer" {
			return nil
		}
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path := fn.Object().Pkg().Path()
		for _, pre := range noopPkgs {
			if path == pre || strings.HasPrefix(path, pre+"/") {
				return noop
			}
		}
	}
	return nil
}

type methKey struct {
	t    types.Type
	name string
}

func (pr *Program) method(t types.Type, m *types.Func) Value {
	k := methKey{t, m.Id()}
	if v, ok := pr.meth.Load(k); ok {
		return v
	}
	f := pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		return nil
	}
	pr.meth.Store(k, f)
	return f
}

func (pr *Program) methodByName(t types.Type, name string) Value {
	if t == nil {
		return nil
	}
	k := methKey{t, "." + name}
	if v, ok := pr.meth.Load(k); ok {
		if v == nil {
			return nil
		}
		f, _ := v.(*ssa.Function)
		if f == nil {
			return nil
		}
		return f
	}
	var f *ssa.Function
	ms := pr.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			f = pr.prog.MethodValue(s)
			break
		}
	}
	pr.meth.Store(k, f)
	if f == nil {
		return nil
	}
	return f
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (pr *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := pr.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	pr.impl.Store(k, r)
	return r
}

// typeOf finds a named type.
func (pr *Program) typeOf(pkg, name string) types.Type {
	p := pr.pkgs[pkg]
	if p == nil {
		return nil
	}
	m := p.Pkg.Scope().Lookup(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

func (pr *Program) panicOK(p *Path, e *goPanicVal) bool { return p.kv["allow-panic"] != nil }
