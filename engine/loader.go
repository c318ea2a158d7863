package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// buildEnv is the overlay that adds the harnesses to the repository.
//
// harness/v              -> /repo/zzverif/v          run-time of the harnesses
// harness/PKG            -> /repo/zzverif/PKG        ordinary harness package
// harness/in_PKG         -> /repo/PKG                files added to a package of the repository
//
// A harness package named "in_PKG" is the repository's own (main) package with
// the harness files added.
type buildEnv struct {
	overlay map[string]string // virtual path -> real path
	ovFile  string
	modFile string
}

func newBuildEnv(pkgs []string) (*buildEnv, error) {
	b := &buildEnv{overlay: map[string]string{}}
	hd := filepath.Join(*verifDir, "harness")
	ents, err := os.ReadDir(hd)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		dst := filepath.Join(*repoDir, "zzverif", e.Name())
		if p, ok := strings.CutPrefix(e.Name(), "in_"); ok {
			// Only the main packages that are asked for: their harness
			// must not keep the others from compiling.
			use := false
			for _, q := range pkgs {
				use = use || q == e.Name()
			}
			if !use {
				continue
			}
			if p == "main" {
				p = "."
			}
			dst = filepath.Join(*repoDir, p)
		}
		if p, ok := strings.CutPrefix(e.Name(), "app_"); ok {
			use := false
			for _, q := range pkgs {
				use = use || q == e.Name()
			}
			if !use {
				continue
			}
			if err := b.copyMain(p, e.Name(), dst); err != nil {
				return nil, err
			}
		}
		fs, err := filepath.Glob(filepath.Join(hd, e.Name(), "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			b.overlay[filepath.Join(dst, filepath.Base(f))] = f
		}
	}
	b.modFile = filepath.Join(tmpDir, "go.mod")
	mod, err := os.ReadFile(filepath.Join(*repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(b.modFile, mod, 0o666); err != nil {
		return nil, err
	}
	lines := map[string]bool{}
	for _, f := range []string{filepath.Join(*repoDir, "go.sum"), filepath.Join(*verifDir, "extra.sum")} {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(data), "\n") {
			if l != "" {
				lines[l] = true
			}
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	if err := os.WriteFile(filepath.Join(tmpDir, "go.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0o666); err != nil {
		return nil, err
	}
	b.ovFile = filepath.Join(tmpDir, "overlay.json")
	data, _ := json.Marshal(map[string]any{"Replace": b.overlay})
	return b, os.WriteFile(b.ovFile, data, 0o666)
}

// shims are the packages that replace ones with effects on the system
// in the copies of main packages.
var shims = map[string]string{"os": "osshim", "fmt": "fmtshim", "html/template": "tmplshim"}

// copyMain adds the source of a main package of the repository, as it is
// but for its package clause and some imports, as an importable package.
func (b *buildEnv) copyMain(dir, name, dst string) error {
	if dir == "main" {
		dir = "."
	}
	fs, err := filepath.Glob(filepath.Join(*repoDir, dir, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		t, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		if t.Name.Name != "main" {
			continue
		}
		var out strings.Builder
		at := 0
		put := func(p token.Pos, n int, s string) {
			o := fset.Position(p).Offset
			out.Write(src[at:o])
			out.WriteString(s)
			at = o + n
		}
		put(t.Name.Pos(), len("main"), name)
		for _, im := range t.Imports {
			path := strings.Trim(im.Path.Value, "\"`")
			sh, ok := shims[path]
			if !ok {
				continue
			}
			as := ""
			if im.Name == nil {
				as = filepath.Base(path) + " "
			}
			put(im.Path.Pos(), len(im.Path.Value), fmt.Sprintf("%s%q", as, modPath+"/zzverif/"+sh))
		}
		out.Write(src[at:])
		g := filepath.Join(tmpDir, "app_"+name+"_"+filepath.Base(f))
		if err := os.WriteFile(g, []byte(out.String()), 0o666); err != nil {
			return err
		}
		b.overlay[filepath.Join(dst, "zz_"+filepath.Base(f))] = g
	}
	return nil
}

func (b *buildEnv) env() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+b.modFile)
}

func pkgPattern(p string) string {
	if q, ok := strings.CutPrefix(p, "in_"); ok {
		if q == "main" {
			return "."
		}
		return "./" + q
	}
	return "./zzverif/" + p
}

func pkgPath(p string) string {
	if q, ok := strings.CutPrefix(p, "in_"); ok {
		if q == "main" {
			return modPath
		}
		return modPath + "/" + q
	}
	return modPath + "/zzverif/" + p
}

func (b *buildEnv) load(pkgs []string) (*Prog, error) {
	ov := map[string][]byte{}
	for v, r := range b.overlay {
		data, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = data
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, pkgPattern(p))
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repoDir, Env: b.env(), Overlay: ov}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 6 {
			errs = errs[:6]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	sp, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{prog: sp, fns: map[*ssa.Function]*Fn{}, globs: map[*ssa.Global]int{}, pkgs: map[*ssa.Package]int{}}
	if rp := sp.ImportedPackage("runtime"); rp != nil {
		p.rtErr = rtOf(rp.Type("errorString").Type())
	}
	if ep := sp.ImportedPackage("errors"); ep != nil {
		p.errStr = rtOf(types.NewPointer(ep.Type("errorString").Type()))
	}
	for _, q := range sp.AllPackages() {
		if isRepoPkg(q.Pkg.Path()) {
			q.Build()
		}
	}
	return p, nil
}

func (p *Prog) engine(pkg, fn string) (*Engine, error) {
	sp := p.prog.ImportedPackage(pkgPath(pkg))
	if sp == nil {
		for _, q := range p.prog.AllPackages() {
			if q.Pkg.Path() == pkgPath(pkg) {
				sp = q
			}
		}
	}
	if sp == nil {
		return nil, fmt.Errorf("package %s not loaded", pkgPath(pkg))
	}
	f := sp.Func(fn)
	if f == nil {
		return nil, fmt.Errorf("no function %s in %s", fn, pkg)
	}
	return &Engine{prog: p, entry: p.fn(f), initFn: p.fn(sp.Func("init"))}, nil
}

// buildNative compiles the harness package into an ordinary executable, for replay.
func (b *buildEnv) buildNative(pkg string) *Native {
	n := &Native{bin: filepath.Join(tmpDir, "native_"+pkg), done: make(chan struct{})}
	pat := pkgPattern(pkg)
	ovFile := b.ovFile
	if !strings.HasPrefix(pkg, "in_") {
		// A generated main package that hands control to the harness package.
		pat = "./zzverif/run_" + pkg
		mf := filepath.Join(tmpDir, "run_"+pkg+".go")
		os.WriteFile(mf, []byte(fmt.Sprintf("package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() { v.Main(h.Harnesses) }\n", pkgPath(pkg), modPath+"/zzverif/v")), 0o666)
		ov := map[string]string{}
		for k, v := range b.overlay {
			ov[k] = v
		}
		ov[filepath.Join(*repoDir, "zzverif", "run_"+pkg, "main.go")] = mf
		data, _ := json.Marshal(map[string]any{"Replace": ov})
		ovFile = filepath.Join(tmpDir, "overlay_"+pkg+".json")
		os.WriteFile(ovFile, data, 0o666)
	}
	go func() {
		defer close(n.done)
		c := exec.Command("go", "build", "-overlay", ovFile, "-o", n.bin, pat)
		c.Dir = *repoDir
		c.Env = b.env()
		out, err := c.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("%v: %s", err, out)
		}
	}()
	return n
}
