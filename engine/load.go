package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jart/gosip"

type Loaded struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	hpkg     *ssa.Package
	hdir     string
	overlay  map[string]string // path -> path of replacement on disk
	fset     *token.FileSet
	errs     []string
	entries  []string
	bounds   []string
	degraded string
}

// fakes maps imports of repository packages to the environment stand-ins.
var fakes = map[string]string{
	"net":         "net",
	"crypto/rand": "crand",
	"math/rand":   "mrand",
	"math/big":    "big",
}

// the native replay alone also uses locks that block on channels
var replayFakes = map[string]string{"sync": "nsync"}

// packages whose imports are redirected
var rewritten = []string{"rtp", "dialog", "util"}

// buildOverlay writes every overlay file under dir and returns the mapping.
func buildOverlay(repo, verif, dir string, prop string, inPkg, yields bool) (map[string]string, []string, error) {
	ov := map[string]string{}
	os.MkdirAll(dir, 0o755)
	hroot := filepath.Join(verif, "harness")
	addDir := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || !inPkg && strings.HasSuffix(e.Name(), "_in.go") {
				continue
			}
			ov[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
		}
		return nil
	}
	for _, d := range []string{"v", "net", "crand", "mrand", "big", "model", "nsync"} {
		if err := addDir(filepath.Join(hroot, d), filepath.Join(repo, "zzv", d)); err != nil {
			return nil, nil, err
		}
	}
	ents, _ := os.ReadDir(filepath.Join(hroot, "lib"))
	for _, e := range ents {
		if e.IsDir() {
			addDir(filepath.Join(hroot, "lib", e.Name()), filepath.Join(repo, "zzv", e.Name()))
		}
	}
	lp := strings.ToLower(prop)
	if err := addDir(filepath.Join(hroot, lp), filepath.Join(repo, "zzv", lp)); err != nil {
		return nil, nil, err
	}
	// in-package additions needed by this property
	if ents, err := os.ReadDir(filepath.Join(hroot, lp, "in")); err == nil && inPkg {
		for _, e := range ents {
			addDir(filepath.Join(hroot, lp, "in", e.Name()), filepath.Join(repo, e.Name()))
		}
	}
	n := 0
	for _, p := range rewritten {
		fs, _ := filepath.Glob(filepath.Join(repo, p, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			out, changed := rewriteImports(f, src, yields)
			if yields {
				var y bool
				out, y = addYields(f, out)
				changed = changed || y
			}
			if changed {
				n++
				dst := filepath.Join(dir, fmt.Sprintf("rw%v_%s_%s", yields, p, filepath.Base(f)))
				if err := os.WriteFile(dst, out, 0o644); err != nil {
					return nil, nil, err
				}
				ov[f] = dst
			}
		}
	}
	// replay driver
	hsrc := filepath.Join(hroot, lp)
	entries, err := findEntries(hsrc, inPkg)
	if err != nil {
		return nil, nil, err
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package replay\n\nimport (\n\t\"testing\"\n\t\"testing/synctest\"\n\th \"%s/zzv/%s\"\n\t\"%s/zzv/v\"\n)\n\n", modPath, lp, modPath)
	b.WriteString("func TestReplay(t *testing.T) {\n\tv.RunAll(map[string]func(){\n")
	for _, e := range entries {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", e, e)
	}
	b.WriteString("\t}, func(f func()) { synctest.Test(t, func(t *testing.T) { f() }) }, synctest.Wait)\n}\n")
	rp := filepath.Join(dir, "replay_test.go")
	os.WriteFile(rp, b.Bytes(), 0o644)
	ov[filepath.Join(repo, "zzv", "replay", "replay_test.go")] = rp
	rd := filepath.Join(dir, "replay_doc.go")
	os.WriteFile(rd, []byte("// Package replay runs recorded counterexamples.\npackage replay\n"), 0o644)
	ov[filepath.Join(repo, "zzv", "replay", "doc.go")] = rd
	return ov, entries, nil
}

var importRe = regexp.MustCompile(`^\s*(import\s+)?("[^"]+")\s*(//.*)?$`)

func rewriteImports(name string, src []byte, native bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
	if err != nil {
		return src, false
	}
	type edit struct {
		at, end int
		text    string
	}
	var es []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		fk, ok := fakes[p]
		if !ok && native {
			fk, ok = replayFakes[p]
		}
		if !ok {
			continue
		}
		pos := fset.Position(im.Path.Pos()).Offset
		end := pos + len(im.Path.Value)
		txt := strconv.Quote(modPath + "/zzv/" + fk)
		if im.Name == nil {
			base := p[strings.LastIndex(p, "/")+1:]
			txt = base + " " + txt
		}
		es = append(es, edit{pos, end, txt})
	}
	if len(es) == 0 {
		return src, false
	}
	var out []byte
	last := 0
	for _, e := range es {
		out = append(out, src[last:e.at]...)
		out = append(out, e.text...)
		last = e.end
	}
	return append(out, src[last:]...), true
}

// addYields puts a call of v.Yield before every statement that communicates
// with another goroutine. Only the native replay uses this: it makes schedules
// other than the Go scheduler's favourite ones likely.
func addYields(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return src, false
	}
	var at []int
	block := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CommClause, *ast.CaseClause:
				continue
			}
			if communicates(s) {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		case *ast.CommClause:
			block(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, false
	}
	sort.Ints(at)
	var out []byte
	last := 0
	for _, p := range at {
		out = append(out, src[last:p]...)
		out = append(out, "zzyield.Yield(); "...)
		last = p
	}
	out = append(out, src[last:]...)
	p := fset.Position(f.Name.End()).Offset
	imp := "; import zzyield \"" + modPath + "/zzv/v\""
	return append(out[:p:p], append([]byte(imp), out[p:]...)...), true
}

// communicates reports whether a statement itself (not the blocks in it) sends,
// receives, selects, closes, starts a goroutine or uses a lock.
func communicates(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause:
			return false
		case *ast.SelectStmt, *ast.SendStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.Ident:
				if f.Name == "close" {
					found = true
				}
			case *ast.SelectorExpr:
				switch f.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Done", "Add", "Do", "Load", "Store", "CompareAndSwap", "Close":
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func findEntries(dir string, inPkg bool) ([]string, error) {
	fset := token.NewFileSet()
	pk, err := parser.ParseDir(fset, dir, nil, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, p := range pk {
		for name, f := range p.Files {
			if !inPkg && strings.HasSuffix(name, "_in.go") {
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H_") {
					out = append(out, fd.Name.Name)
				}
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.Index(e, "=")]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "CGO_ENABLED", "GOSUMDB", "PATH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1", "GOSUMDB=off",
		"PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
}

// load type-checks the repository with the harness. Entries that need helpers
// inside the repository's packages live in *_in.go files; when those no longer
// compile (internals renamed) the remaining entries are loaded without them.
func load(repo, verif, tmp, prop string) (*Loaded, error) {
	l, err := load1(repo, verif, tmp, prop, true)
	if err == nil && len(l.errs) > 0 {
		l2, err2 := load1(repo, verif, tmp, prop, false)
		if err2 == nil && len(l2.errs) == 0 && len(l2.entries) > 0 {
			l2.degraded = l.errs[0]
			return l2, nil
		}
	}
	return l, err
}

func load1(repo, verif, tmp, prop string, inPkg bool) (*Loaded, error) {
	ovp, entries, err := buildOverlay(repo, verif, tmp, prop, inPkg, false)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, f := range ovp {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	novp, _, err := buildOverlay(repo, verif, tmp, prop, inPkg, true)
	if err != nil {
		return nil, err
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": ovp})
	os.WriteFile(filepath.Join(tmp, "plain.json"), js, 0o644)
	js, _ = json.Marshal(map[string]interface{}{"Replace": novp})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), js, 0o644)
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Fset: fset, Overlay: ov, Env: goEnv(),
	}
	lp := strings.ToLower(prop)
	hp := modPath + "/zzv/" + lp
	mp := modPath + "/zzv/model"
	pk, err := packages.Load(cfg, hp, mp)
	if err != nil {
		return nil, err
	}
	l := &Loaded{overlay: ovp, fset: fset, pkgs: map[string]*ssa.Package{}, hdir: hp, entries: entries}
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				l.errs = append(l.errs, e.Error())
			}
		}
	})
	if len(l.errs) > 0 {
		return l, nil
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	l.prog = prog
	for _, p := range prog.AllPackages() {
		l.pkgs[p.Pkg.Path()] = p
	}
	l.hpkg = l.pkgs[hp]
	if l.hpkg == nil {
		return nil, fmt.Errorf("harness package %s not loaded", hp)
	}
	return l, nil
}
