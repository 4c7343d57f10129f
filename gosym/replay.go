package main

// Native replay: the counterexample's inputs are fed to the same harness
// compiled by the Go toolchain against the real code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var replayScratch string

// replayDir prepares the scratch directory with a private copy of the build
// cache, once per run.
func replayDir() (string, error) {
	if replayScratch != "" {
		return replayScratch, nil
	}
	d, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return "", err
	}
	replayScratch = d
	if _, err := os.Stat("/opt/vp/gocache"); err == nil {
		exec.Command("cp", "-a", "/opt/vp/gocache", filepath.Join(d, "gocache")).Run()
	}
	os.MkdirAll(filepath.Join(d, "gocache"), 0o755)
	os.MkdirAll(filepath.Join(d, "tmp"), 0o755)
	return d, nil
}

func replayCleanup() {
	if replayScratch != "" {
		os.RemoveAll(replayScratch)
	}
}

const replayTest = `package %s

import (
	"fmt"
	"testing"

	vsymrt "` + vsymPkg + `"
)

func TestVsymReplay(t *testing.T) {
	defer func() {
		switch r := recover().(type) {
		case nil:
			fmt.Println("VSYM-HELD")
		case vsymrt.Failure:
			fmt.Println("VSYM-VIOLATION:", r.Msg)
		case vsymrt.Skip:
			fmt.Println("VSYM-SKIP:", r.Msg)
		default:
			fmt.Println("VSYM-PANIC:", r)
		}
	}()
	%s()
}
`

var replayBins = map[string]string{}

// buildReplay compiles the harness against the real code.
func buildReplay(h HarnessSpec, ov map[string]string) (string, string, error) {
	d, err := replayDir()
	if err != nil {
		return "", "", err
	}
	if bin := replayBins[h.Pkg+"."+h.Func]; bin != "" {
		return bin, "", nil
	}
	work, _ := os.MkdirTemp(d, "run-")
	rep := map[string]string{}
	for dst, src := range ov {
		rep[dst] = src
	}
	// time.Now and friends of the module under test become the solver's instants
	filepath.Walk(repoDir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && (info.Name() == ".git" || info.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if out, ok := rewriteTime(p); ok {
			dst := filepath.Join(work, fmt.Sprintf("f%d.go", len(rep)))
			os.WriteFile(dst, out, 0o644)
			rep[p] = dst
		}
		return nil
	})
	pkgDir := filepath.Join(repoDir, h.Pkg)
	pk := theProg.pkgs[repoModule+"/"+h.Pkg]
	tf := filepath.Join(work, "replay_test.go")
	os.WriteFile(tf, []byte(fmt.Sprintf(replayTest, pk.Pkg.Name(), h.Func)), 0o644)
	rep[filepath.Join(pkgDir, "zz_vsym_replay_test.go")] = tf
	// The package's own tests play no part in the replay.
	tests, _ := filepath.Glob(filepath.Join(pkgDir, "*_test.go"))
	for _, t := range tests {
		rep[t] = ""
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ojp := filepath.Join(work, "overlay.json")
	os.WriteFile(ojp, oj, 0o644)
	bin := filepath.Join(work, "replay.test")
	env := append(os.Environ(), "GOCACHE="+filepath.Join(d, "gocache"), "TMPDIR="+filepath.Join(d, "tmp"))
	build := exec.Command(filepath.Join(goRoot, "bin", "go"), "test", "-c", "-vet=off", "-overlay", ojp, "-o", bin, "./"+h.Pkg)
	build.Dir = repoDir
	build.Env = env
	if out, err := build.CombinedOutput(); err != nil {
		return "", string(out), fmt.Errorf("build")
	}
	replayBins[h.Pkg+"."+h.Func] = bin
	return bin, "", nil
}

// nativeReplay runs the counterexample in path; the answer is "reproduced",
// "not-reproduced" or "error: ...". A path on which the property held is
// reproduced if it holds natively as well.
//
// What the solver does not choose natively (the order of a map, of goroutines)
// may have to come out right, so that a run is repeated for a while.
func nativeReplay(h HarnessSpec, v *Violation, path string, ov map[string]string) (string, string) {
	start := time.Now()
	for i := 0; ; i++ {
		res, out := replayOnce(h, v, path, ov)
		if res != "not-reproduced" || v.Kind == "held" || i >= 30 || time.Since(start) > 40*time.Second {
			return res, out
		}
	}
}

func replayOnce(h HarnessSpec, v *Violation, path string, ov map[string]string) (string, string) {
	bin, out, err := buildReplay(h, ov)
	if err != nil {
		return "error: " + err.Error(), out
	}
	d := replayScratch
	env := append(os.Environ(), "GOCACHE="+filepath.Join(d, "gocache"), "TMPDIR="+filepath.Join(d, "tmp"), "VSYM_REPLAY="+path)
	run := exec.Command(bin, "-test.run", "^TestVsymReplay$", "-test.timeout", "20s", "-test.count", "1", "-test.v")
	run.Dir = filepath.Join(d, "tmp")
	run.Env = env
	var buf bytes.Buffer
	run.Stdout, run.Stderr = &buf, &buf
	t := time.AfterFunc(60*time.Second, func() {
		if run.Process != nil {
			run.Process.Kill()
		}
	})
	run.Run()
	t.Stop()
	out = buf.String()
	switch v.Kind {
	case "held":
		if strings.Contains(out, "VSYM-HELD") {
			return "reproduced", out
		}
	case "assert":
		if strings.Contains(out, "VSYM-VIOLATION:") {
			return "reproduced", out
		}
	case "panic":
		if strings.Contains(out, "VSYM-PANIC:") || strings.Contains(out, "\npanic: ") || strings.HasPrefix(out, "panic: ") {
			return "reproduced", out
		}
	case "deadlock":
		if strings.Contains(out, "panic: test timed out") || strings.Contains(out, "all goroutines are asleep") {
			return "reproduced", out
		}
	}
	return "not-reproduced", out
}

// rewriteTime redirects the clock reads of one file.
func rewriteTime(path string) ([]byte, bool) {
	src, err := os.ReadFile(path)
	if err != nil || !bytes.Contains(src, []byte("time.")) || strings.Contains(path, "/internal/vsym/") {
		return nil, false
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	name := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			name = "time"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" || name == "_" || name == "." {
		return nil, false
	}
	hit := false
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Name != name || id.Obj != nil {
			return true
		}
		switch se.Sel.Name {
		case "Now", "Since", "Until":
			id.Name = "vsymrt"
			hit = true
		}
		return true
	})
	if !hit {
		return nil, false
	}
	spec := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vsymrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vsymPkg)}}}}
	f.Decls = append([]ast.Decl{spec}, f.Decls...)
	var buf bytes.Buffer
	f.Comments = nil
	if err := printer.Fprint(&buf, token.NewFileSet(), f); err != nil {
		return nil, false
	}
	fmt.Fprintf(&buf, "\nvar _ = %s.Second\n", name)
	return buf.Bytes(), true
}
