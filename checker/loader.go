package main

// Loader: parses and type-checks every non-test package of /repo (including
// the packages the offline build leaves out), from source, with function
// bodies of dependencies ignored.  Missing third-party modules are replaced by
// the declaration-only stubs under checker/stubs (trusted base).

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modPath = "code.cloudfoundry.org/log-cache"

type Loader struct {
	Repo    string
	Stubs   string
	ctx     build.Context
	fset    *token.FileSet
	mods    []modDir // sorted by longest prefix first
	goroot  string
	mu      sync.Mutex
	pkgs    map[string]*loadedPkg
	errs    []string
	RepoPkg []string
}

type modDir struct{ prefix, dir string }

type loadedPkg struct {
	path  string
	dir   string
	repo  bool
	files []*ast.File
	deps  []string
	types *types.Package
	info  *types.Info
	once  sync.Once
	err   error
}

func escapeMod(p string) string {
	var b strings.Builder
	for _, r := range p {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			b.WriteRune(r + 32)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func NewLoader(repo, stubs string) (*Loader, error) {
	l := &Loader{Repo: repo, Stubs: stubs, fset: token.NewFileSet(), pkgs: map[string]*loadedPkg{}}
	l.ctx = build.Default
	l.ctx.CgoEnabled = false
	l.ctx.GOOS, l.ctx.GOARCH = "linux", "amd64"
	l.goroot = runtime.GOROOT()
	if v := os.Getenv("GOROOT"); v != "" {
		l.goroot = v
	}
	if _, err := os.Stat(filepath.Join(l.goroot, "src", "fmt")); err != nil {
		for _, c := range []string{"/usr/local/go", "/opt/veriftools/go1.27.3", "/usr/lib/go"} {
			if _, err := os.Stat(filepath.Join(c, "src", "fmt")); err == nil {
				l.goroot = c
				break
			}
		}
	}
	modcache := os.Getenv("GOMODCACHE")
	if modcache == "" {
		home := os.Getenv("HOME")
		if home == "" {
			home = "/root"
		}
		modcache = filepath.Join(home, "go", "pkg", "mod")
		if _, err := os.Stat(modcache); err != nil {
			modcache = "/root/go/pkg/mod"
		}
	}
	add := func(prefix, dir string) { l.mods = append(l.mods, modDir{prefix, dir}) }
	modFile := filepath.Join(repo, "go.mod")
	if _, err := os.Stat(modFile); err != nil {
		modFile = "/opt/vp/mod/go.mod"
	}
	f, err := os.Open(modFile)
	if err != nil {
		return nil, err
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fs := strings.Fields(strings.TrimPrefix(strings.TrimSpace(sc.Text()), "require "))
		if len(fs) >= 2 && strings.Contains(fs[0], ".") && strings.HasPrefix(fs[1], "v") {
			add(fs[0], filepath.Join(modcache, escapeMod(fs[0])+"@"+fs[1]))
		}
	}
	f.Close()
	// Modules of the real project that the offline go.mod omits but the cache has.
	add("code.cloudfoundry.org/go-batching", filepath.Join(modcache, "code.cloudfoundry.org/go-batching@v0.0.0-20171020220229-924d2a9b48ac"))
	add("code.cloudfoundry.org/go-diodes", filepath.Join(modcache, "code.cloudfoundry.org/go-diodes@v0.0.0-20231113191959-85adc333ee36"))
	add("code.cloudfoundry.org/tlsconfig", filepath.Join(modcache, "code.cloudfoundry.org/tlsconfig@v0.0.0-20200131000646-bbe0f8da39b3"))
	prom := filepath.Join(modcache, "github.com/prometheus/prometheus@v2.3.2+incompatible")
	add("github.com/prometheus/prometheus", prom)
	// Stubs win over everything else.
	var stubDirs []string
	filepath.Walk(stubs, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			if m, _ := filepath.Glob(filepath.Join(p, "*.go")); len(m) > 0 {
				stubDirs = append(stubDirs, p)
			}
		}
		return nil
	})
	for _, d := range stubDirs {
		rel, _ := filepath.Rel(stubs, d)
		add(filepath.ToSlash(rel), d)
	}
	add(modPath, repo)
	sort.SliceStable(l.mods, func(i, j int) bool { return len(l.mods[i].prefix) > len(l.mods[j].prefix) })
	return l, nil
}

func (l *Loader) dirOf(path string) (string, bool) {
	for _, m := range l.mods {
		if path == m.prefix || strings.HasPrefix(path, m.prefix+"/") {
			// stubs are exact per package
			d := filepath.Join(m.dir, strings.TrimPrefix(path, m.prefix))
			if strings.HasPrefix(m.dir, l.Stubs) && path != m.prefix {
				continue
			}
			return d, m.prefix == modPath
		}
	}
	d := filepath.Join(l.goroot, "src", path)
	if _, err := os.Stat(d); err == nil {
		return d, false
	}
	d = filepath.Join(l.goroot, "src", "vendor", path)
	if _, err := os.Stat(d); err == nil {
		return d, false
	}
	return "", false
}

func (l *Loader) errorf(f string, a ...interface{}) {
	l.mu.Lock()
	l.errs = append(l.errs, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

func (l *Loader) parse(path string) *loadedPkg {
	l.mu.Lock()
	p := l.pkgs[path]
	if p == nil {
		p = &loadedPkg{path: path}
		l.pkgs[path] = p
	}
	l.mu.Unlock()
	return p
}

// load parses + type-checks path and its dependencies (memoised, parallel).
func (l *Loader) load(path string) *loadedPkg {
	p := l.parse(path)
	p.once.Do(func() {
		if path == "unsafe" {
			p.types = types.Unsafe
			return
		}
		dir, repo := l.dirOf(path)
		if dir == "" {
			p.err = fmt.Errorf("no directory for %s", path)
			return
		}
		p.dir, p.repo = dir, repo
		ents, err := os.ReadDir(dir)
		if err != nil {
			p.err = err
			return
		}
		std := strings.HasPrefix(dir, l.goroot)
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := l.ctx.MatchFile(dir, n); err != nil || !ok {
				continue
			}
			mode := parser.SkipObjectResolution
			if repo {
				mode |= parser.ParseComments
			}
			f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, mode)
			if err != nil {
				if repo {
					l.errorf("parse: %v", err)
				}
				if f == nil {
					continue
				}
			}
			if f.Name.Name == "ignore" || (f.Name.Name == "main" && !repo) {
				continue
			}
			if !repo {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			p.files = append(p.files, f)
		}
		if len(p.files) == 0 {
			p.err = fmt.Errorf("no Go files in %s", dir)
			return
		}
		seen := map[string]bool{}
		for _, f := range p.files {
			for _, im := range f.Imports {
				ip := strings.Trim(im.Path.Value, `"`)
				if ip == "C" || seen[ip] {
					continue
				}
				seen[ip] = true
				p.deps = append(p.deps, ip)
			}
		}
		sort.Strings(p.deps)
		var wg sync.WaitGroup
		for _, d := range p.deps {
			d := l.resolveStd(d, std)
			wg.Add(1)
			go func() { defer wg.Done(); l.load(d) }()
		}
		wg.Wait()
		conf := types.Config{
			IgnoreFuncBodies: !repo,
			FakeImportC:      true,
			Sizes:            types.SizesFor("gc", "amd64"),
			Importer: importerFunc(func(ip string) (*types.Package, error) {
				q := l.load(l.resolveStd(ip, std))
				if q.types == nil {
					return nil, fmt.Errorf("cannot import %s: %v", ip, q.err)
				}
				return q.types, nil
			}),
			Error: func(err error) {
				if repo || strings.HasPrefix(dir, l.Stubs) {
					l.errorf("type: %v", err)
				}
			},
		}
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
		}
		info := p.info
		if !repo {
			info = nil
		} else {
			conf.GoVersion = "go1.20"
		}
		tp, err := conf.Check(path, l.fset, p.files, info)
		p.types = tp
		if !repo {
			p.files = nil
			p.info = nil
		}
		_ = err
	})
	return p
}

func (l *Loader) resolveStd(ip string, std bool) string {
	if std && strings.HasPrefix(ip, "golang.org/x/") {
		if _, err := os.Stat(filepath.Join(l.goroot, "src", "vendor", ip)); err == nil {
			return "vendor/" + ip
		}
	}
	return ip
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// LoadRepo loads all non-test packages of the repository and builds SSA.
func (l *Loader) LoadRepo() (*ssa.Program, map[string]*ssa.Package, error) {
	var paths []string
	err := filepath.Walk(l.Repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		n := fi.Name()
		if p != l.Repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata" || strings.HasPrefix(n, "_")) {
			return filepath.SkipDir
		}
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				rel, _ := filepath.Rel(l.Repo, p)
				if rel == "." {
					paths = append(paths, modPath)
				} else {
					paths = append(paths, modPath+"/"+filepath.ToSlash(rel))
				}
				break
			}
		}
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	// Test-support packages are not part of the product.
	var keep []string
	for _, p := range paths {
		if p == modPath+"/internal/testing" || p == modPath+"/internal/matchers" || p == modPath+"/internal/end2end" {
			continue
		}
		keep = append(keep, p)
	}
	sort.Strings(keep)
	l.RepoPkg = keep
	var wg sync.WaitGroup
	for _, p := range keep {
		p := p
		wg.Add(1)
		go func() { defer wg.Done(); l.load(p) }()
	}
	wg.Wait()
	if len(l.errs) > 0 {
		sort.Strings(l.errs)
		return nil, nil, fmt.Errorf("%d load errors:\n  %s", len(l.errs), strings.Join(l.errs, "\n  "))
	}
	prog := ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	out := map[string]*ssa.Package{}
	all := make([]string, 0, len(l.pkgs))
	for p := range l.pkgs {
		all = append(all, p)
	}
	sort.Strings(all)
	for _, path := range all {
		p := l.pkgs[path]
		if p.types == nil {
			continue
		}
		if p.repo {
			sp := prog.CreatePackage(p.types, p.files, p.info, true)
			out[path] = sp
		} else {
			prog.CreatePackage(p.types, nil, nil, true)
		}
	}
	for _, sp := range out {
		sp.Build()
	}
	return prog, out, nil
}
