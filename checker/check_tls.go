package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Mutual TLS configurations are complete, or not produced at all",
		"Path-partitioned dataflow over NewMutualTLSConfig, NewTLSCredentials, TLS.Credentials and NewBaseTLSConfig with arbitrary arguments: on every path that yields a configuration or credential, the object's floor version, cipher suites, verification, peer name, certificate and CA pool are those of the arguments and every step that produced them succeeded; on every path on which a step failed nothing is yielded.", checkC17)
	register("C18", "Certificate verification is on unless the operator turned it off",
		"Def-use query over the SSA of every function of the repository (examples and test helpers excluded): every store to tls.Config's InsecureSkipVerify, MinVersion and MaxVersion, every store into process-wide HTTP state and every plaintext dial option is enumerated; a verification-disabling value must be, through phis, branches, calls and fields, a boolean setting of the operator.", checkC18)
}

func checkC17(c *C) {
	const rule = "mutual-tls"
	str := types.Typ[types.String]
	// base configuration
	x := c.newX()
	base := x.Fn("internal/tls", "", "NewBaseTLSConfig")
	for _, o := range c.rets(x, x.Root(base, nil, nil, nil), rule, "NewBaseTLSConfig") {
		cfg := stripIface(o.Vals[0])
		if !c.ob(cfg.op == "alloc", rule, "NewBaseTLSConfig fresh", "NewBaseTLSConfig hands out a shared configuration (%s): one caller's changes reach the others", cfg) {
			continue
		}
		c.ob(!storesGlobal(o.evs, cfg), rule, "NewBaseTLSConfig fresh", "NewBaseTLSConfig keeps the configuration it hands out: %s", x.pathStr(o))
		c.tlsBase(x, o.St.mem, cfg, rule, "NewBaseTLSConfig")
	}
	// the mutual configuration and its credentials
	type tc struct{ fn, recv string }
	for _, t := range []tc{{"NewMutualTLSConfig", ""}, {"NewTLSCredentials", ""}, {"Credentials", "TLS"}} {
		x := c.newX()
		st := x.newState()
		f := x.Fn("internal/tls", t.recv, t.fn)
		var ca, cert, key, cn *Term
		var args []*Term
		pred := func(w **Term) func(*Term) bool { return func(t *Term) bool { return stripConv(t) == *w } }
		if t.recv == "" {
			ca, cert, key, cn = x.symOf("caPath", str), x.symOf("certPath", str), x.symOf("keyPath", str), x.symOf("cn", str)
			args = []*Term{ca, cert, key, cn}
		} else {
			args = x.params(f)
			tt := x.NamedType(modPath+"/internal/tls", "TLS")
			fld := func(n string) *Term { return x.FieldVal(args[0], tt, n) }
			ca, cert, key, cn = fld("CAPath"), fld("CertPath"), fld("KeyPath"), args[1]
		}
		what := t.fn
		outs := x.Root(f, st, args, nil)
		good, bad := 0, 0
		for _, o := range outs {
			if o.Panic {
				c.ob(t.recv != "" && o.PKind == "exit", rule, what+" failure", "%s panics: %s", what, x.pathStr(o))
				bad++
				c.ob(len(x.failures(o.evs, o.St.facts)) > 0 || x.poolFailed(o), rule, what+" needless failure", "%s gives up although every step succeeded: %s", what, x.pathStr(o))
				continue
			}
			if t.recv == "" && x.isNil(o.St.facts, o.Vals[1]) != 1 {
				bad++
				c.ob(x.isNil(o.St.facts, o.Vals[1]) == -1 && o.Vals[0].IsNil(), rule, what+" failure", "%s returns %s together with error %s: %s", what, o.Vals[0], o.Vals[1], x.pathStr(o))
				c.ob(len(x.failures(o.evs, o.St.facts)) > 0 || x.poolFailed(o), rule, what+" needless failure", "%s fails although every step succeeded: %s", what, x.pathStr(o))
				continue
			}
			good++
			cfg, e := stripIface(o.Vals[0]), &Event{mem: o.St.mem}
			if t.fn != "NewMutualTLSConfig" {
				cfg, e = tlsCreds(o.Vals[0])
				if !c.ob(e != nil, rule, what+" credentials", "%s yields %s, not TLS credentials", what, o.Vals[0]) {
					continue
				}
			}
			c.tlsConfig(x, o, cfg, e, rule, what, pred(&cn), pred(&ca), pred(&cert), pred(&key))
			c.ob(!storesGlobal(o.evs, cfg), rule, what+" fresh", "%s keeps the configuration it hands out", what)
		}
		c.need(good, 1, rule, what+" success paths")
		c.need(bad, 3, rule, what+" failure paths")
	}
}

// storesGlobal: is v stored into package-level state?
func storesGlobal(evs []*Event, v *Term) bool {
	bad := false
	allEvents(evs, func(e *Event) {
		if e.kind == EvStore && e.val != nil && e.addr != nil && stripIface(e.val) == v && rootOf(e.addr).op == "global" {
			bad = true
		}
	})
	return bad
}

// poolFailed: the path knows that a CA certificate was not accepted.
func (x *X) poolFailed(o *Outcome) bool {
	bad := false
	allEvents(o.evs, func(e *Event) {
		if isExtCall(e) && strings.HasSuffix(e.name, "CertPool).AppendCertsFromPEM") && o.St.facts.Eval(e.res[0]) == -1 {
			bad = true
		}
	})
	return bad
}

// tlsBase: floor version, suites and verification of a configuration.
func (c *C) tlsBase(x *X, m *Mem, cfg *Term, rule, what string) {
	ct := x.NamedType("crypto/tls", "Config")
	get := func(f string) *Term { return x.LoadField(m, cfg, ct, f) }
	v, ok := get("MinVersion").IntVal()
	c.ob(ok && v >= 0x0303, rule, what+" minimum version", "%s: TLS minimum version is %s, below 1.2", what, get("MinVersion"))
	mv, ok := get("MaxVersion").IntVal()
	c.ob(ok && (mv == 0 || mv >= 0x0303), rule, what+" maximum version", "%s: TLS maximum version is %s", what, get("MaxVersion"))
	b, ok := get("InsecureSkipVerify").BoolVal()
	c.ob(ok && !b, rule, what+" verification", "%s: certificate verification is disabled", what)
	suites, ok := x.elemsInit(m, get("CipherSuites"))
	c.ob(ok && approvedSuites(suites), rule, what+" cipher suites", "%s: cipher suites %v are not exactly the two ECDHE-RSA AES-GCM ones", what, suites)
}

// ---------------------------------------------------------------- C18

func isTLSField(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	name := ""
	if st := structOf(pt.Elem()); st != nil {
		name = st.Field(fa.Field).Name()
	}
	switch t := pt.Elem().String(); {
	case t == "crypto/tls.Config", t == "net/http.Transport" && name == "TLSClientConfig", t == "net/http.Client" && name == "Transport":
		return name
	}
	return ""
}

// skipQuery follows a boolean backwards to decide whether it can be true
// without an operator's setting being true.
type skipQuery struct {
	x    *X
	seen map[ssa.Value]bool
	why  string
	from []string

	depth int
}

// onlyIfSetting: v is true only when some boolean setting is true.
func (q *skipQuery) onlyIfSetting(v ssa.Value, at *ssa.BasicBlock) bool {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.Bool || !constant.BoolVal(v.Value) {
			return true
		}
		// a constant true: control must depend on a setting being true
		if q.guarded(at) {
			return true
		}
		q.why = "verification is disabled unconditionally"
		return false
	case *ssa.Phi:
		if q.seen[v] {
			return true
		}
		q.seen[v] = true
		for i, e := range v.Edges {
			p := v.Block().Preds[i]
			if cst, ok := e.(*ssa.Const); ok && cst.Value != nil && constant.BoolVal(cst.Value) {
				if !q.guarded(p) && !q.edgeGuard(p, v.Block()) {
					q.why = "a branch disables verification without consulting a setting"
					return false
				}
				continue
			}
			if !q.onlyIfSetting(e, p) && !q.guarded(p) {
				return false
			}
		}
		return true
	}
	if q.guarded(at) {
		return true
	}
	return q.setting(v, at)
}

// setting: v itself is a setting of the operator (a parameter or a field).
func (q *skipQuery) setting(v ssa.Value, at *ssa.BasicBlock) bool {
	if q.seen[v] {
		return true
	}
	q.seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.Phi:
		return q.onlyIfSetting(v, at)
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == v {
				idx = i
			}
		}
		n := 0
		for _, ci := range q.x.sitesOf(f) {
			n++
			if !q.onlyIfSetting(ci.Common().Args[idx], ci.Block()) {
				return false
			}
		}
		if n == 0 && !token.IsExported(f.Name()) {
			q.why = "the disabling value comes from " + fnName(f) + ", whose callers are unknown"
			return false
		}
		q.from = append(q.from, "parameter "+v.Name()+" of "+shortFn(f))
		return true
	case *ssa.FreeVar:
		f := v.Parent()
		idx := -1
		for i, p := range f.FreeVars {
			if p == v {
				idx = i
			}
		}
		for _, r := range referrersTo(f) {
			if mc, ok := r.(*ssa.MakeClosure); ok && !q.onlyIfSetting(mc.Bindings[idx], mc.Block()) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			q.why = "verification is disabled when a setting is off"
			return false
		}
		return q.cell(v.X, at)
	case *ssa.Field:
		q.from = append(q.from, "field "+structOf(v.X.Type()).Field(v.Field).Name())
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && inRepoFn(f) {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !q.onlyIfSetting(r.Results[0], b) {
					return false
				}
			}
			return true
		}
	}
	q.why = "the disabling value " + v.String() + " is not a setting"
	return false
}

// cell: a boolean read from memory.
func (q *skipQuery) cell(a ssa.Value, at *ssa.BasicBlock) bool {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		st := structOf(derefType(a.X.Type()))
		q.from = append(q.from, "field "+st.Field(a.Field).Name())
		// what the program itself ever puts there
		for f := range q.x.allFns() {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if ok && fa.Field == a.Field && types.Identical(fa.X.Type(), a.X.Type()) && !q.onlyIfSetting(s.Val, b) {
						return false
					}
				}
			}
		}
		return true
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		for _, s := range q.x.storesInto(a) {
			if !q.onlyIfSetting(s.Val, s.Block()) {
				return false
			}
		}
		if fv, ok := a.(*ssa.FreeVar); ok {
			// the cell of the enclosing function
			f := fv.Parent()
			for i, p := range f.FreeVars {
				if p != fv {
					continue
				}
				for _, r := range referrersTo(f) {
					if mc, ok := r.(*ssa.MakeClosure); ok && !q.cell(mc.Bindings[i], mc.Block()) {
						return false
					}
				}
			}
			return true
		}
		return true
	case *ssa.Parameter:
		return q.setting(a, at)
	}
	return q.setting(a, at)
}

// guarded: every way into block b passes a branch taken because a setting is
// true (a dominating If on the true side).
func (q *skipQuery) guarded(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			return q.calledGuarded(d.Parent())
		}
		if len(d.Preds) == 1 && d.Preds[0] == id && q.edgeGuard(id, d) {
			return true
		}
	}
	return false
}

// calledGuarded: f is a helper that is only ever called, and each of its
// calls is guarded (or, for a function literal, its creation is).
func (q *skipQuery) calledGuarded(f *ssa.Function) bool {
	if q.depth > 4 || f.Parent() == nil && token.IsExported(f.Name()) || f.Signature.Recv() != nil {
		return false
	}
	q.depth++
	defer func() { q.depth-- }()
	if f.Parent() != nil {
		rs := referrersTo(f)
		made := len(rs) > 0
		for _, r := range rs {
			made = made && q.guarded(r.Block())
		}
		if made {
			return true
		}
	}
	sites := q.x.sitesOf(f)
	uses := 0
	for g := range q.x.allFns() {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(f) {
						uses++
					}
				}
			}
		}
	}
	for _, r := range referrersTo(f) {
		uses += len(*r.(ssa.Value).Referrers()) - 1
	}
	if len(sites) == 0 || uses != len(sites) {
		return false
	}
	for _, ci := range sites {
		if !q.guarded(ci.Block()) {
			return false
		}
	}
	return true
}

func (q *skipQuery) edgeGuard(from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	cond, pos := iff.Cond, from.Succs[0] == to
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, pos = u.X, !pos
	}
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) != (bo.Op == token.EQL) {
				pos = !pos
			}
			cond = bo.X
		}
	}
	if !pos {
		return false
	}
	if _, ok := cond.(*ssa.Const); ok {
		return false
	}
	sub := &skipQuery{x: q.x, seen: map[ssa.Value]bool{}, depth: q.depth}
	for k := range q.seen {
		sub.seen[k] = true
	}
	switch cond.(type) {
	case *ssa.Parameter, *ssa.UnOp, *ssa.Field, *ssa.Call, *ssa.FreeVar, *ssa.Phi:
	default:
		return false
	}
	if sub.setting(cond, from) {
		q.from = append(q.from, sub.from...)
		return true
	}
	return false
}

// sitesOf lists the static call sites of f (including go and defer).
func (x *X) sitesOf(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for g := range x.allFns() {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					out = append(out, ci)
				}
			}
		}
	}
	return out
}

func referrersTo(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				out = append(out, mc)
			}
		}
	}
	return out
}

func (x *X) storesInto(a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	if _, ok := a.(*ssa.Global); ok {
		for g := range x.allFns() {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == a {
						out = append(out, s)
					}
				}
			}
		}
		return out
	}
	if rs := a.Referrers(); rs != nil {
		for _, r := range *rs {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a {
				out = append(out, s)
			}
		}
	}
	return out
}

func product(f *ssa.Function) bool {
	p := f
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg == nil {
		return false
	}
	path := p.Pkg.Pkg.Path()
	return strings.HasPrefix(path, modPath) && !strings.Contains(path, "/examples/") && !strings.HasSuffix(path, "/internal/testing") && !strings.HasSuffix(path, "/internal/end2end")
}

func (x *X) sortedFns() []*ssa.Function {
	var fs []*ssa.Function
	for f := range x.allFns() {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	return fs
}

// httpGlobal: does address a lie in net/http's process-wide client or transport?
func httpGlobal(x *X, a ssa.Value) string {
	return globalRoot(x, a, func(g *ssa.Global) bool {
		n := g.String()
		return n == "net/http.DefaultClient" || n == "net/http.DefaultTransport"
	}, map[ssa.Value]bool{})
}

// anyGlobal: may address a lie in an object a package variable refers to?
func anyGlobal(x *X, a ssa.Value) string {
	return globalRoot(x, a, func(g *ssa.Global) bool { return true }, map[ssa.Value]bool{})
}

func globalRoot(x *X, a ssa.Value, pred func(*ssa.Global) bool, seen map[ssa.Value]bool) string {
	if a == nil || seen[a] {
		return ""
	}
	seen[a] = true
	var next []ssa.Value
	switch v := a.(type) {
	case *ssa.Global:
		if pred(v) {
			return v.String()
		}
	case *ssa.Parameter:
		f := v.Parent()
		for i, p := range f.Params {
			if p == v && len(seen) < 200 {
				for _, s := range x.sitesOf(f) {
					if as := s.Common().Args; i < len(as) {
						next = append(next, as[i])
					}
				}
			}
		}
	case *ssa.FieldAddr:
		next = []ssa.Value{v.X}
	case *ssa.UnOp:
		next = []ssa.Value{v.X}
	case *ssa.TypeAssert:
		next = []ssa.Value{v.X}
	case *ssa.ChangeType:
		next = []ssa.Value{v.X}
	case *ssa.Extract:
		next = []ssa.Value{v.Tuple}
	case *ssa.MakeInterface:
		next = []ssa.Value{v.X}
	case *ssa.Phi:
		next = v.Edges
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				// a pointer kept in a local variable, not a copied struct
				if _, ok := s.Val.Type().Underlying().(*types.Struct); !ok {
					next = append(next, s.Val)
				}
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && inRepoFn(f) {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					next = append(next, r.Results...)
				}
			}
		}
	}
	for _, n := range next {
		if g := globalRoot(x, n, pred, seen); g != "" {
			return g
		}
	}
	return ""
}

func checkC18(c *C) {
	const rule = "verification"
	x := c.newX()
	stores, fns, dials := 0, 0, 0
	for _, f := range x.sortedFns() {
		if !product(f) {
			continue
		}
		fns++
		x.fnsSeen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					where := shortFn(f)
					if n := httpGlobal(x, ins.Addr); n != "" {
						c.ob(false, rule, where+" "+n, "%s (%s) changes %s, which every other HTTP client of the process shares", where, x.posStr(ins.Pos()), n)
					}
					switch isTLSField(ins.Addr) {
					case "InsecureSkipVerify":
						stores++
						q := &skipQuery{x: x, seen: map[ssa.Value]bool{}}
						ok := q.onlyIfSetting(ins.Val, b)
						if k, isC := ins.Val.(*ssa.Const); !isC || constant.BoolVal(k.Value) {
							g := anyGlobal(x, ins.Addr)
							c.ob(g == "", rule, where+" shared configuration", "%s (%s) switches verification off in an object that %s shares with every other user", where, x.posStr(ins.Pos()), g)
						}
						c.ob(ok, rule, where+" InsecureSkipVerify", "%s (%s): %s", where, x.posStr(ins.Pos()), q.why)
					case "TLSClientConfig", "Transport":
						if f.Name() != "init" || f.Synthetic == "" {
							g := anyGlobal(x, ins.Addr)
							c.ob(g == "", rule, where+" shared transport", "%s (%s) changes the TLS settings of a client that %s shares with every other user", where, x.posStr(ins.Pos()), g)
						}
					case "MinVersion", "MaxVersion":
						n, isC := ins.Val.(*ssa.Const)
						v := int64(0)
						if isC && n.Value != nil {
							v, _ = constant.Int64Val(n.Value)
						}
						c.ob(!isC || v == 0 || v >= 0x0303, rule, where+" protocol version", "%s (%s) allows TLS versions below 1.2", where, x.posStr(ins.Pos()))
					}
				case ssa.CallInstruction:
					if st := ins.Common().StaticCallee(); st != nil && fnName(st) == "google.golang.org/grpc.WithInsecure" {
						dials++
					}
				}
			}
		}
	}
	c.need(fns, 300, rule, "functions")
	c.need(stores, 3, rule, "stores of InsecureSkipVerify")
	_ = dials
}

// FieldVal is field name of struct value v.
func (x *X) FieldVal(v *Term, t types.Type, name string) *Term {
	fa := x.FieldNamed(v, t, name)
	if v.op == "struct" {
		if i := fieldIndex(fa); i < len(v.args) {
			return v.args[i]
		}
	}
	return x.T.mk("field", fa.sym, derefType(fa.typ), v)
}

// ---------------------------------------------------------------- C19

func init() {
	register("C19", "Components reach log cache only over verified mutual TLS",
		"Whole-command dataflow (main and every goroutine it starts) for log-cache, nozzle, scheduler, syslog-server, blackbox and gateway: every gRPC dial, listener, server and plaintext endpoint on every abstract path is compared with the configuration variable it must come from and with the mutual-TLS obligations; invalid configuration must end the process first.", checkC19)
}

type cmdSpec struct {
	cmd    string
	addr   map[string]bool // single-valued variables that may be dialled
	elem   map[string]bool // list variables whose elements may be dialled
	listen string          // variable the listener address comes from
	dials  int
	health bool
}

func set(ss ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return m
}

func checkC19(c *C) {
	const rule = "transport"
	for _, k := range []cmdSpec{
		{"log-cache", set("ADDR"), set("NODE_ADDRS"), "ADDR", 2, true},
		{"nozzle", set("LOG_CACHE_ADDR"), nil, "", 1, true},
		{"scheduler", nil, set("NODE_ADDRS"), "", 1, true},
		{"syslog-server", set("LOG_CACHE_ADDR"), nil, "SYSLOG_PORT", 1, true},
		{"blackbox", set("DATA_SOURCE_GRPC_ADDR"), nil, "", 2, false},
		{"gateway", set("LOG_CACHE_ADDR"), nil, "ADDR", 1, true},
	} {
		s := c.newMain(k.cmd)
		x := s.x
		s.mainRules(c, rule)
		if s.load == nil {
			continue
		}
		dials := map[string]bool{}
		health, listens := 0, 0
		for _, o := range s.outs {
			if x.isNil(o.St.facts, s.load.res[0]) != 1 {
				continue
			}
			all := map[*Term]*Event{} // listeners
			allEvents(o.evs, func(e *Event) {
				if isListen(e) {
					all[e.res[0]] = e
				}
			})
			allEvents(o.evs, func(e *Event) {
				switch {
				case isDial(e):
					a := settled(o.evs, e.args[0])
					good := k.addr[s.envName(a)] || k.elem[s.envElem(a)]
					if !good && a.op == "ret" && a.ev != nil && a.ev.name == "(net.Addr).String" {
						if l := a.ev.args[0]; l.ev != nil && l.ev.name == "(net.Listener).Addr" && all[settled(o.evs, l.ev.args[0])] != nil {
							good = true // its own listener
						}
					}
					dials[x.posStr(e.pos)+e.name] = true
					c.ob(good, rule, k.cmd+" dial address", "%s dials %s (%s), which is not a configured log cache address", k.cmd, a, x.where(e))
					c.checkDialCreds(s, o, e, rule, k.cmd, "log-cache")
				case isListen(e):
					listens++
					c.ob(k.listen != "" && derivesEnv(s, settled(o.evs, e.args[1]), k.listen), rule, k.cmd+" listen address", "%s listens on %s, want %s", k.cmd, e.args[1], k.listen)
				case isExtCall(e) && strings.HasPrefix(e.name, "google.golang.org/grpc.NewServer"):
					c.serverCreds(s, o, e, rule, k.cmd)
				case isExtCall(e) && e.name == "google.golang.org/grpc.WithInsecure":
				case isServe(e) && !strings.HasSuffix(e.name, "ServeTLS") && !strings.HasSuffix(e.name, "ListenAndServe"):
					if strings.Contains(e.name, "net/http") {
						c.ob(false, rule, k.cmd+" plaintext", "%s serves with %s at %s", k.cmd, e.name, x.where(e))
					}
				}
			})
			c.healthOnLocalhost(s, o, rule, &health)
			consulted := func(so *Outcome) {
				for _, e := range so.evs {
					if isDial(e) && !so.Panic {
						c.ob(x.isNil(so.St.facts, e.res[1]) != 0, rule, k.cmd+" dial failure", "%s goes on without looking at the error of its dial at %s", k.cmd, x.where(e))
					}
				}
			}
			consulted(o)
			subPaths(o.evs, consulted)
		}
		c.need(len(dials), 1, rule, k.cmd+" dials")
		if k.listen != "" {
			c.need(listens, 1, rule, k.cmd+" listeners")
		} else {
			c.ob(listens == 0, rule, k.cmd+" listeners", "%s opens %d listeners", k.cmd, listens)
		}
		if k.health {
			c.need(health, 1, rule, k.cmd+" health endpoints")
		}
	}
}

// serverCreds: a gRPC server of a command is created with mutual TLS
// credentials made from its configured certificate.
func (c *C) serverCreds(s *mainScn, o *Outcome, e *Event, rule, what string) {
	x := s.x
	opts, ok := x.variadic(e, 0)
	if !c.ob(ok, rule, what+" server options", "%s: the gRPC server options are not statically known", what) {
		return
	}
	n := 0
	for _, d := range opts {
		d = stripIface(d)
		if d.ev == nil || d.ev.name != "google.golang.org/grpc.Creds" {
			continue
		}
		n++
		cfg, ce := tlsCreds(d.ev.args[0])
		if !c.ob(ce != nil, rule, what+" server credentials", "%s: the gRPC server's credentials are not TLS credentials", what) {
			continue
		}
		c.tlsConfig(x, o, cfg, ce, rule, what+" server",
			func(t *Term) bool { return true },
			func(t *Term) bool { return s.envName(t) == "CA_PATH" },
			func(t *Term) bool { return s.envName(t) == "CERT_PATH" },
			func(t *Term) bool { return s.envName(t) == "KEY_PATH" })
	}
	c.ob(n == 1, rule, what+" server credentials", "%s serves gRPC with %d transport credentials", what, n)
}
