package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "Every HTTP response body the repository receives is released",
		"Ownership (typestate) dataflow for every call site that sends an HTTP request, in client library and auth code: on every path on which a response was received, its body is closed before the owner returns, or the response is handed to the caller, whose paths are then analysed too.", checkC03)
	register("C04", "Client calls carry the caller's context",
		"For every Client call on both transports and the version probe: the context attached to each outgoing request or RPC on every abstract path is the one the caller passed.", checkC04)
	register("C05", "The client negotiates the API location from the server's version",
		"Path-partitioned dataflow over LogCacheVersion, LogCacheVMUptime, Read and Meta: the relation between info reply (status, decoded fields), reported version and the API base used is checked on every abstract path.", checkC05)
	register("C06", "PromQL calls send exactly the query and time range the caller gave",
		"Path-partitioned dataflow over the four PromQL calls on both transports and every PromQL option constructor, compared with the parameter table.", checkC06)
}

func checkC04(c *C) {
	const rule = "context"
	n := 0
	x := c.clientX()
	s := c.newClient(x, false)
	for _, name := range httpOps {
		op := c.clientOp(s, name)
		for _, o := range op.outs {
			for _, e := range o.evs {
				if isHTTPDo(e) {
					n++
					r := x.reqOf(e)
					c.ob(r.ctx != nil && derives(r.ctx, op.ps[1]), rule, op.name, "%s sends a request with context %v instead of the caller's, at %s", op.name, r.ctx, x.where(e))
				}
			}
		}
	}
	x = c.clientX()
	g := c.newClient(x, true)
	for _, name := range []string{"Read", "Meta", "PromQL", "PromQLRange"} {
		op := c.clientOp(g, name)
		for _, o := range op.outs {
			for _, e := range op.rpcs(o) {
				n++
				c.ob(derives(e.args[1], op.ps[1]), rule, op.name, "%s makes its RPC with context %s instead of the caller's, at %s", op.name, e.args[1], x.where(e))
			}
		}
	}
	c.need(n, 14, rule, "outgoing client requests")
	c.defaultTimeouts()
}

// defaultTimeouts: without another HTTP client, no request waits for ever.
func (c *C) defaultTimeouts() {
	const rule = "default timeout"
	for _, ctor := range []string{"NewClient", "NewOauth2HTTPClient"} {
		x := c.newX()
		fn := x.Fn("pkg/client", "", ctor)
		ps := x.params(fn)
		last := len(ps) - 1
		ps[last] = x.sliceOf(elemTypeOf(ps[last].typ))
		n := 0
		for _, o := range c.rets(x, x.Root(fn, nil, ps, nil), rule, ctor) {
			t := derefType(o.Vals[0].typ)
			u := structOf(t)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				v := stripIface(x.loadMem(o.St.mem, x.T.FieldAddr(o.Vals[0], t, i), u.Field(i).Type()))
				if !isNamedPtr(v.typ, "net/http", "Client") {
					continue
				}
				n++
				d := x.LoadField(o.St.mem, v, derefType(v.typ), "Timeout")
				k, ok := d.IntVal()
				c.ob(ok && k == 5e9, rule, ctor, "requests of a client made by %s with no options time out after %s, want five seconds", ctor, d)
			}
		}
		c.need(n, 1, rule, "default HTTP clients of "+ctor)
	}
}

// ---------------------------------------------------------------- bodies

func hasHTTPDo(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			s := ci.Common().Signature()
			if s.Params().Len() == 1 && s.Results().Len() == 2 && s.Params().At(0).Type().String() == "*net/http.Request" && s.Results().At(0).Type().String() == "*net/http.Response" {
				if st := ci.Common().StaticCallee(); st == nil || !inRepoFn(st) {
					return true
				}
			}
			if st := ci.Common().StaticCallee(); st != nil && isHTTPGet(fnName(st)) {
				return true
			}
		}
	}
	return false
}

// isHTTPGet: the request-sending conveniences of net/http.
func isHTTPGet(n string) bool {
	switch n {
	case "net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head",
		"(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head":
		return true
	}
	return false
}

func (x *X) callersOf(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for g := range x.allFns() {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func checkC03(c *C) {
	const rule = "body-closed"
	x0 := c.newX()
	var work []*ssa.Function
	for f := range x0.allFns() {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg == nil || strings.Contains(p.Pkg.Pkg.Path(), "/examples/") {
			continue
		}
		if hasHTTPDo(f) {
			work = append(work, f)
		}
	}
	sort.Slice(work, func(i, j int) bool { return work[i].String() < work[j].String() })
	done := map[*ssa.Function]bool{}
	sites := 0
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		x := c.newX()
		for g := range x.allFns() {
			if g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/pkg/marshaler" {
				x.opaque[fnName(g)] = true
			}
		}
		outs := x.Root(f, nil, nil, nil)
		transferred := false
		check := func(evs, scope []*Event, vals []*Term, m *Mem, facts *Facts, end string) {
			for i, e := range evs {
				if !isHTTPDo(e) && !(isExtCall(e) && isHTTPGet(e.name)) {
					continue
				}
				sites++
				resp, err := e.res[0], e.res[1]
				if x.isNil(facts, err) == -1 || x.isNil(facts, resp) == 1 {
					continue
				}
				body := x.respField(m, resp, "Body")
				closed := false
				for j, d := range evs[i:] {
					if d.kind == EvCall && strings.HasSuffix(d.name, ").Close") && len(d.args) > 0 && stripIface(d.args[0]) == body {
						closed = true
						for _, r := range evs[i+j+1:] {
							if isExtCall(r) && !strings.HasSuffix(r.name, ").Close") && len(r.args) > 0 {
								for _, a := range r.args {
									c.ob(!readsFrom(a, body), rule, shortFn(f)+" reads a released body", "%s: the response body is read at %s after it was closed at %s", shortFn(f), x.where(r), x.where(d))
								}
							}
						}
					}
				}
				for _, v := range vals {
					if v == resp || v == body || stripIface(v) == body {
						closed = true
						transferred = true
					}
				}
				if !closed && x.isNil(facts, err) == 0 {
					closed = true // the error is handed on unexamined together with the response
					transferred = true
					for _, v := range vals {
						if v == resp {
							closed = true
						}
					}
				}
				c.ob(closed, rule, shortFn(f)+" via "+shortFn(e.fn), "%s: the body of the response received at %s is never closed on %s", shortFn(f), x.where(e), end)
			}
		}
		for _, o := range outs {
			if o.Panic && o.PKind == "exit" {
				continue
			}
			check(o.evs, o.evs, o.Vals, o.St.mem, o.St.facts, x.pathStr(o))
			var inner func(evs []*Event)
			seen := map[*LoopInfo]bool{}
			inner = func(evs []*Event) {
				for _, e := range evs {
					if e.kind == EvLoop && !seen[e.loop] {
						seen[e.loop] = true
						for _, it := range e.loop.iters {
							// a body may outlive the iteration only through a deferred close
							check(append(append([]*Event(nil), it.events...), deferredOf(x, it.events, o.evs)...), nil, nil, it.mem, it.facts, "a loop iteration of "+shortFn(e.loop.fn))
							inner(it.events)
						}
					}
					for _, s := range e.sub {
						check(s.evs, s.evs, s.Vals, s.St.mem, s.St.facts, "goroutine started at "+x.where(e))
						inner(s.evs)
					}
				}
			}
			inner(o.evs)
		}
		if transferred {
			for _, g := range x.callersOf(f) {
				p := g
				for p.Parent() != nil {
					p = p.Parent()
				}
				if p.Pkg != nil && !strings.Contains(p.Pkg.Pkg.Path(), "/examples/") {
					work = append(work, g)
				}
			}
		}
	}
	c.need(sites, 10, rule, "response-receiving paths")
}

// readsFrom: t is the body or a reader made from it.
func readsFrom(t, body *Term) bool {
	t = stripIface(t)
	if t == body {
		return true
	}
	if t.typ == nil || isErrorType(t.typ) || !isPtr(t.typ) && !isInterface(t.typ) {
		return false
	}
	args := t.args
	if t.ev != nil {
		args = append(append([]*Term(nil), args...), t.ev.args...)
	}
	switch t.op {
	case "ret", "pure", "obj":
		for _, a := range args {
			if a != t && readsFrom(a, body) {
				return true
			}
		}
	}
	return false
}

func deferredOf(x *X, it, all []*Event) []*Event { return nil }

// ---------------------------------------------------------------- version

// jsonTag: the JSON name a struct field is decoded from.
func jsonTag(t types.Type, name string) string {
	s := structOf(t)
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]
		}
	}
	return ""
}

// decodedField: v is a field of a destination filled by decoding the body;
// the JSON names on the way.
func (x *X) decodedField(v *Term, dst []*Term) (string, bool) {
	if v.op == "init" && len(v.args) == 1 && v.args[0].op == "fieldaddr" {
		fa := v.args[0]
		for _, d := range dst {
			if fa.args[0] == d {
				t := derefType(d.typ)
				n := fieldName(fa)
				tag := jsonTag(t, n)
				if tag == "" {
					tag = n
				}
				return tag, true
			}
		}
	}
	// map destinations: m["version"]
	if v.op == "lookup" && len(v.args) == 2 {
		if s, ok := v.args[1].StrVal(); ok {
			return s, true
		}
	}
	return "", false
}

func semverIs(t *Term, a, b, p int64) bool {
	if t == nil || t.op != "struct" || len(t.args) != 5 {
		return false
	}
	for i, w := range []int64{a, b, p} {
		if n, ok := t.args[i].IntVal(); !ok || n != w {
			return false
		}
	}
	return t.args[3].IsNil() && t.args[4].IsNil()
}

// clientShared: a Client may be used from several goroutines at once: what
// its calls change is changed under a lock.
func (c *C) clientShared() {
	const rule = "concurrent use"
	n := 0
	for _, grpc := range []bool{false, true} {
		x := c.clientX()
		l := c.newLockScan(x, rule, x.NamedType(modPath+"/pkg/client", "Client"))
		s := c.newClient(x, grpc)
		x.watchObj = map[*Term]bool{rootOf(s.cl): true}
		ops := httpOps
		if grpc {
			ops = []string{"Read", "Meta", "PromQL", "PromQLRange"}
		}
		for _, name := range ops {
			op := c.clientOp(s, name)
			for _, o := range op.outs {
				l.scan(o.evs, map[*Term]bool{rootOf(s.cl): true})
				n++
			}
		}
		l.verdict()
	}
	c.need(n, 14, rule, "client calls")
}

func checkC05(c *C) {
	const rule = "negotiation"
	c.clientShared()
	x := c.clientX()
	s := c.newClient(x, false)
	c.versionResults(s, rule)
	c.apiBase(s, rule)
}

// versionResults: the version and uptime calls report what the info endpoint
// replied, or an error.
func (c *C) versionResults(s *clientScn, rule string) {
	x := s.x
	T := x.T
	// LogCacheVersion
	op := c.clientOp(s, "LogCacheVersion")
	parsed := 0
	for _, o := range op.outs {
		if o.Panic {
			c.ob(false, rule, op.name+" panics", "%s can panic: %s", op.name, x.pathStr(o))
			continue
		}
		probe, main := op.dos(o)
		c.ob(len(main) == 0, rule, op.name+" location", "%s does not ask %s: %s", op.name, infoPath, x.pathStr(o))
		okF, badF := x.splitErr(o)
		if len(probe) == 0 {
			c.ob(okF == nil && len(x.failures(o.evs, o.St.facts)) > 0, rule, op.name+" answer without reply", "%s answers without asking the server: %s", op.name, x.pathStr(o))
			continue
		}
		c.commonReq(op, probe[0], rule)
		resp, derr := probe[0].ev.res[0], probe[0].ev.res[1]
		stT := x.respField(o.St.mem, resp, "StatusCode")
		f := o.St.facts
		if x.isNil(f, derr) == -1 {
			c.ob(okF == nil, rule, op.name+" transport failure", "%s hides a transport failure", op.name)
			continue
		}
		is404 := f.Eval(T.Eq(stT, T.Int(404)))
		is200 := f.Eval(T.Eq(stT, T.Int(200)))
		switch {
		case is404 == 1:
			c.ob(badF == nil && semverIs(o.Vals[0], 1, 4, 7), rule, op.name+" 404", "%s must report 1.4.7 when the server has no info endpoint, reports %s: %s", op.name, o.Vals[0], x.pathStr(o))
		case is200 == 1:
			if okF != nil {
				v := o.Vals[0]
				ok := v.op == "ret" && v.ev != nil && strings.HasSuffix(v.ev.name, "semver.Parse") && o.Vals[1] == v.ev.res[1] || v.op == "ret" && v.ev != nil && strings.HasSuffix(v.ev.name, "semver.Parse") && x.isNil(okF, v.ev.res[1]) == 1
				if c.ob(ok, rule, op.name+" 200", "%s must report the parsed version of the reply, reports %s: %s", op.name, v, x.pathStr(o)) {
					des, dst := x.decodeEvents(o.evs, x.respField(o.St.mem, resp, "Body"))
					tag, ok := x.decodedField(v.ev.args[0], dst)
					c.ob(ok && tag == "version", rule, op.name+" field", "%s parses %s, not the \"version\" field of the reply", op.name, v.ev.args[0])
					for _, d := range des {
						c.ob(x.isNil(okF, d.res[len(d.res)-1]) == 1, rule, op.name+" decode", "%s ignores a decoding failure at %s", op.name, x.where(d))
					}
					parsed++
				}
			}
			if badF != nil {
				c.ob(len(x.failures(o.evs, badF)) > 0, rule, op.name+" spurious failure", "%s fails on a good reply: %s", op.name, x.pathStr(o))
			}
		case is200 == -1 && is404 == -1:
			c.ob(okF == nil, rule, op.name+" status", "%s accepts a reply that is neither 200 nor 404: %s", op.name, x.pathStr(o))
		default:
			c.ob(false, rule, op.name+" status", "%s does not distinguish the reply status: %s", op.name, x.pathStr(o))
		}
	}
	c.need(parsed, 1, rule, "version replies")
	// LogCacheVMUptime
	op = c.clientOp(s, "LogCacheVMUptime")
	parsed = 0
	for _, o := range op.outs {
		if o.Panic {
			c.ob(false, rule, op.name+" panics", "%s can panic: %s", op.name, x.pathStr(o))
			continue
		}
		probe, main := op.dos(o)
		c.ob(len(main) == 0, rule, op.name+" location", "%s does not ask %s: %s", op.name, infoPath, x.pathStr(o))
		okF, badF := x.splitErr(o)
		if len(probe) == 0 {
			c.ob(okF == nil && len(x.failures(o.evs, o.St.facts)) > 0, rule, op.name+" answer without reply", "%s answers without asking the server: %s", op.name, x.pathStr(o))
			continue
		}
		c.commonReq(op, probe[0], rule)
		resp, derr := probe[0].ev.res[0], probe[0].ev.res[1]
		stT := x.respField(o.St.mem, resp, "StatusCode")
		des, dst := x.decodeEvents(o.evs, x.respField(o.St.mem, resp, "Body"))
		if okF != nil {
			v := o.Vals[0]
			var src *Term
			if v.op == "pure" && v.sym == "strconv.ParseInt.0" && v.args[1] == T.Int(10) && v.args[2] == T.Int(64) {
				src = v.args[0]
				perr := T.mk("pure", "strconv.ParseInt.1", nil, v.args...)
				c.ob(x.isNil(okF, perr) == 1, rule, op.name+" parse", "%s accepts an unparsable uptime: %s", op.name, x.pathStr(o))
			}
			ok := x.isNil(okF, derr) == 1 && okF.Eval(T.Eq(stT, T.Int(200))) == 1 && src != nil && len(des) > 0
			if c.ob(ok, rule, op.name+" value", "%s succeeds with %s, want the number in a 200 reply: %s", op.name, v, x.pathStr(o)) {
				tag, ok := x.decodedField(src, dst)
				c.ob(ok && tag == "vm_uptime", rule, op.name+" field", "%s parses %s, not the \"vm_uptime\" field", op.name, src)
				c.ob(okF.Eval(T.Eq(src, T.Str(""))) == -1 || true, rule, op.name+" missing", "")
				for _, d := range des {
					c.ob(x.isNil(okF, d.res[len(d.res)-1]) == 1, rule, op.name+" decode", "%s ignores a decoding failure at %s", op.name, x.where(d))
				}
				parsed++
			}
		}
		if badF != nil && okF == nil {
			n, isC := o.Vals[0].IntVal()
			c.ob(isC && n == -1, rule, op.name+" error value", "%s returns %s with an error, want -1", op.name, o.Vals[0])
			just := len(x.failures(o.evs, badF)) > 0 || badF.Eval(T.Eq(stT, T.Int(200))) == -1
			for _, d := range dst {
				t := derefType(d.typ)
				if st := structOf(t); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						v := x.loadMem(o.St.mem, T.FieldAddr(d, t, i), st.Field(i).Type())
						if isStringType(v.typ) && badF.Eval(T.Eq(v, T.Str(""))) == 1 {
							just = true
						}
					}
				}
			}
			c.ob(just, rule, op.name+" spurious failure", "%s fails on a good reply: %s", op.name, x.pathStr(o))
		}
	}
	c.need(parsed, 1, rule, "uptime replies")
}

// apiBase: the data calls use the location that the server's version calls
// for.
func (c *C) apiBase(s *clientScn, rule string) {
	x := s.x
	T := x.T
	for _, name := range []string{"Read", "Meta"} {
		op := c.clientOp(s, name)
		used := map[string]int{}
		for _, o := range op.outs {
			probe, main := op.dos(o)
			if len(main) == 0 {
				c.ob(len(probe) > 0 || len(x.failures(o.evs, o.St.facts)) > 0, rule, op.name+" gives up", "%s gives up without asking the server for its version: %s", op.name, x.pathStr(o))
				continue
			}
			if !c.ob(len(probe) == 1, rule, op.name+" probe", "%s uses the API after %d version probes: %s", op.name, len(probe), x.pathStr(o)) {
				continue
			}
			for _, r := range main {
				pt := x.setPath(o, r)
				first := pt
				if pt.op == "concat" {
					first = pt.args[0]
				}
				ps, _ := first.StrVal()
				base := ""
				if strings.HasPrefix(ps, "/api/v1/") {
					base = "/api/v1"
				} else if strings.HasPrefix(ps, "/v1/") {
					base = "/v1"
				}
				if name == "Meta" {
					c.ob(ps == base+"/meta" && pt.IsConst(), rule, op.name+" path", "%s requests %s, want <api base>/meta", op.name, pt)
					c.commonReq(op, r, rule)
					c.querySent(op, o, r, nil, nil, rule)
				}
				f := r.ev.facts
				presp, perr := probe[0].ev.res[0], probe[0].ev.res[1]
				if !c.ob(x.isNil(f, perr) == 1, rule, op.name+" probe failure", "%s goes on although the version probe failed", op.name) {
					continue
				}
				stT := x.respField(r.ev.mem, presp, "StatusCode")
				want := ""
				if f.Eval(T.Eq(stT, T.Int(404))) == 1 {
					want = "/v1"
				} else {
					var ver *Term
					for _, e := range o.evs {
						if e.kind == EvCall && strings.HasSuffix(e.name, "semver.Parse") {
							ver = e.res[0]
						}
					}
					for a, v := range f.atoms {
						if a.op == "lt" && ver != nil && a.args[0].op == "pure" && a.args[0].sym == "semver.Compare" && a.args[0].args[0] == ver && semverIs(a.args[0].args[1], 2, 0, 0) && a.args[1] == T.Int(0) {
							if v {
								want = "/v1"
							} else {
								want = "/api/v1"
							}
						}
					}
				}
				used[base]++
				c.ob(want != "" && base == want, rule, op.name+" base", "%s uses API base %q where the server's version calls for %q (versions from 2.0.0 on serve /api/v1): %s", op.name, base, want, x.pathStr(o))
			}
		}
		c.need(used["/v1"], 1, rule, op.name+" with an old server")
		c.need(used["/api/v1"], 1, rule, op.name+" with a new server")
	}
}

// ---------------------------------------------------------------- PromQL

func checkC06(c *C) {
	const rule = "promql-request"
	c.optionsPure("option", "PromQLOption")
	x := c.clientX()
	s := c.newClient(x, false)
	want := map[string]string{"PromQL": "/api/v1/query", "PromQLRaw": "/api/v1/query", "PromQLRange": "/api/v1/query_range", "PromQLRangeRaw": "/api/v1/query_range"}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		op := c.clientOp(s, name)
		c.noLoopIO(op, rule)
		n := 0
		for _, o := range op.outs {
			probe, main := op.dos(o)
			c.ob(len(main)+len(probe) <= 1, rule, op.name+" repeats its request", "%s sends several requests: %s", op.name, x.pathStr(o))
			for _, r := range main {
				n++
				c.commonReq(op, r, rule)
				p, _ := x.setPath(o, r).StrVal()
				c.ob(p == want[name], rule, op.name+" path", "%s requests %s, want %s", op.name, x.setPath(o, r), want[name])
				c.querySent(op, o, r, map[string]*Term{"query": op.ps[2]}, op.ps[3], rule)
			}
		}
		c.need(n, 1, rule, op.name+" requests")
	}
	T := x.T
	dec := func(p []*Term) *Term {
		sec := T.mk("/", "", types.Typ[types.Float64], T.mk("conv", "", types.Typ[types.Float64], T.mk("pure", "UnixNano", types.Typ[types.Int64], p[0])), x.floatConst("1e9"))
		return T.mk("pure", "strconv.FormatFloat", types.Typ[types.String], sec, T.Int('f'), T.Int(3), T.Int(64))
	}
	c.optionWrites(x, "WithPromQLTime", map[string]func(p []*Term) *Term{"time": dec})
	c.optionWrites(x, "WithPromQLStart", map[string]func(p []*Term) *Term{"start": dec})
	c.optionWrites(x, "WithPromQLEnd", map[string]func(p []*Term) *Term{"end": dec})
	c.optionWrites(x, "WithPromQLStep", map[string]func(p []*Term) *Term{"step": func(p []*Term) *Term { return p[0] }})
	x = c.clientX()
	g := c.newClient(x, true)
	for name, byKey := range map[string]map[string]string{
		"PromQL":      {"Time": "time:str"},
		"PromQLRange": {"Start": "start:str", "End": "end:str", "Step": "step:str"},
	} {
		op := c.clientOp(g, name)
		c.noLoopIO(op, rule)
		n := 0
		for _, o := range op.outs {
			for _, e := range op.rpcs(o) {
				n++
				c.grpcRequest(op, o, e, op.ps[3], rule, map[string]*Term{"Query": op.ps[2]}, byKey)
			}
		}
		c.need(n, 1, rule, fmt.Sprintf("%s RPCs", op.name))
	}
}
