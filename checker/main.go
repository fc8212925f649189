package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type Check struct {
	ID    string
	Title string
	Level string // evidence level
	Rule  string
	Run   func(c *C)
}

var checks = map[string]*Check{}

func register(id, title, rule string, run func(c *C)) {
	checks[id] = &Check{ID: id, Title: title, Level: "other", Rule: rule, Run: run}
}

type viol struct{ key, msg string }

// C is the context of one check run.
type C struct {
	chk   *Check
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	ld    *Loader
	xs    []*X
	obls  int
	good  int
	byR   map[string]int
	viols []viol
	samp  []string
	seen  map[string]bool
	notes []string
}

func (c *C) newX() *X {
	x := NewX(c.prog, c.pkgs)
	c.xs = append(c.xs, x)
	return x
}

// ob records one obligation; construct names the code it is about.
func (c *C) ob(ok bool, rule, construct, format string, a ...interface{}) bool {
	c.obls++
	c.byR[rule]++
	if ok {
		c.good++
		if len(c.samp) < 12 && c.byR[rule] <= 2 {
			c.samp = append(c.samp, rule+": "+construct)
		}
		return true
	}
	key := rule + "|" + construct
	if !c.seen[key] {
		c.seen[key] = true
		c.viols = append(c.viols, viol{key, fmt.Sprintf(format, a...)})
	}
	return false
}

// need requires a minimum number of analysed instances.
func (c *C) need(n, min int, rule, what string) {
	c.ob(n >= min, rule, what, "only %d instances of %q analysed, at least %d expected: the anchors of this rule are gone", n, what, min)
}

type known struct{ prop, key, desc string }

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key="..." description
		l = strings.TrimPrefix(l, "finding: ")
		var k known
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		l = strings.TrimPrefix(l, "property=")
		i := strings.IndexByte(l, ' ')
		k.prop = l[:i]
		l = strings.TrimSpace(l[i:])
		l = strings.TrimPrefix(l, "key=")
		q, err := strconv.QuotedPrefix(l)
		if err != nil {
			continue
		}
		k.key, _ = strconv.Unquote(q)
		k.desc = strings.TrimSpace(l[len(q):])
		out = append(out, k)
	}
	return out
}

func main() {
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	if exe, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(exe, "MANIFEST.json")); err == nil {
			verifDir = exe
		}
	}
	if pf := os.Getenv("CHK_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: chk list | run ID... | dump pkg recv fn")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Title)
		}
	case "dump":
		l, err := NewLoader(repoDir, filepath.Join(verifDir, "checker/stubs"))
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		prog, m, err := l.LoadRepo()
		if err != nil {
			fmt.Println(err)
		}
		x := NewX(prog, m)
		f := x.Fn(os.Args[2], os.Args[3], os.Args[4])
		dump(x, x.Root(f, nil, nil, nil))
	case "run":
		code := 0
		for _, id := range os.Args[2:] {
			if runCheck(id) != 0 {
				code = 1
			}
		}
		pprof.StopCPUProfile()
		os.Exit(code)
	case "all":
		code := 0
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			if runCheck(id) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	}
}

var (
	sharedLoad bool
	shProg     *ssa.Program
	shPkgs     map[string]*ssa.Package
	shLd       *Loader
	shErr      error
)

func runCheck(id string) (code int) {
	start := time.Now()
	chk := checks[id]
	report := filepath.Join(verifDir, "evidence", id+".report.txt")
	os.MkdirAll(filepath.Dir(report), 0o755)
	c := &C{chk: chk, byR: map[string]int{}, seen: map[string]bool{}}
	if chk == nil {
		fmt.Printf("no such check %s\n", id)
		return 1
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(780 * time.Second):
			fmt.Printf("VIOLATION property=%s replay=%s\nundecided: analysis ran out of time\n", id, report)
			os.WriteFile(report, []byte("undecided: analysis ran out of time\n"), 0o644)
			os.Exit(1)
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					c.viols = append(c.viols, viol{"undecided", "undecided: " + u.msg})
				} else {
					c.viols = append(c.viols, viol{"undecided", fmt.Sprintf("undecided: internal failure: %v\n%s", r, debug.Stack())})
				}
			}
		}()
		if !sharedLoad {
			sharedLoad = true
			shLd, shErr = NewLoader(repoDir, filepath.Join(verifDir, "checker", "stubs"))
			if shErr == nil {
				shProg, shPkgs, shErr = shLd.LoadRepo()
			}
		}
		if shErr != nil {
			c.viols = append(c.viols, viol{"load", "the repository does not load: " + shErr.Error()})
			return
		}
		c.ld, c.prog, c.pkgs = shLd, shProg, shPkgs
		chk.Run(c)
		for _, x := range c.xs {
			for fn, what := range x.sharedW {
				c.ob(false, "shared state", fn, "%s", what)
			}
		}
		if c.obls == 0 {
			c.viols = append(c.viols, viol{"vacuous", "no obligation was analysed"})
		}
	}()
	close(done)
	var open []viol
	for _, v := range c.viols {
		matched := false
		for _, k := range loadKnown() {
			if k.prop == id && k.key == v.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.desc)
				matched = true
			}
		}
		if !matched {
			open = append(open, v)
		}
	}
	fns := map[string]bool{}
	paths, steps := 0, 0
	for _, x := range c.xs {
		for f := range x.fnsSeen {
			if inRepoFn(f) {
				fns[fnName(f)] = true
			}
		}
		paths += x.nPaths
		steps += x.steps
	}
	var fl []string
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	rules := []string{}
	for r, n := range c.byR {
		rules = append(rules, fmt.Sprintf("%s: %d", r, n))
	}
	sort.Strings(rules)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(), "violations": len(open),
		"coverage": map[string]interface{}{
			"explanation":         chk.Rule,
			"obligations":         c.obls,
			"discharged":          c.good,
			"obligations_by_rule": rules,
			"functions_analysed":  fl,
			"abstract_paths":      paths,
			"abstract_steps":      steps,
			"samples":             c.samp,
		},
		"assumptions": []string{
			"third-party packages behave as their documented API (modelled in checker/intrinsics.go)",
			"type-checked source of /repo is what is built (go/types, go/ssa from golang.org/x/tools)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644)
	if len(open) == 0 {
		os.Remove(report)
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d (%.1fs)\n", id, c.obls, len(fl), paths, time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n", id, chk.Title)
	for _, v := range open {
		fmt.Fprintf(&sb, "- [%s] %s\n", v.key, v.msg)
	}
	os.WriteFile(report, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	return 1
}

func dumpEvs(x *X, evs []*Event, ind string) {
	for _, e := range evs {
		var as []string
		for _, a := range e.args {
			as = append(as, a.String())
		}
		var rs []string
		for _, a := range e.res {
			rs = append(rs, a.String())
		}
		extra := ""
		if e.inl {
			extra = " inl"
		}
		if e.addr != nil {
			extra += " addr=" + e.addr.String()
		}
		if e.val != nil {
			extra += " val=" + e.val.String()
		}
		fmt.Printf("%s%s %s(%s) -> %s%s @%s\n", ind, evNames[e.kind], e.name, strings.Join(as, ", "), strings.Join(rs, ","), extra, x.posStr(e.pos))
		if e.kind == EvLoop {
			for i, it := range e.loop.iters {
				fmt.Printf("%s  iter %d [%s]\n", ind, i, it.facts)
				dumpEvs(x, it.events, ind+"    ")
				for k, v := range it.next {
					fmt.Printf("%s    next %s := %s\n", ind, k, v)
				}
			}
		}
		for i, o := range e.sub {
			fmt.Printf("%s  go-path %d\n", ind, i)
			dumpEvs(x, o.evs, ind+"    ")
		}
	}
}

func dump(x *X, outs []*Outcome) {
	for i, o := range outs {
		fmt.Printf("== path %d panic=%v %v\n  facts %s\n", i, o.Panic, o.Vals, o.St.facts)
		dumpEvs(x, o.evs, "  ")
	}
	fmt.Println(len(outs), "paths", x.steps, "steps")
}
