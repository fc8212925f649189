package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const lcv1 = "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"

// clientX prepares an interpreter for pkg/client: the marshaler and the
// generated RPC constructors are boundaries.
func (c *C) clientX() *X {
	x := c.newX()
	x.opaque[lcv1+".NewEgressClient"] = true
	x.opaque[lcv1+".NewPromQLQuerierClient"] = true
	for f := range x.allFns() {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/pkg/marshaler" {
			x.opaque[fnName(f)] = true
		}
	}
	return x
}

type clientScn struct {
	x    *X
	name string // http or grpc
	cl   *Term
	st   *State
	http *Term // the caller's HTTP client
	addr *Term
	egr  *Term
	pql  *Term
	conn *Term
	// states that earlier calls leave behind
	hist     []*State
	histDone bool
}

// newClient builds a client through the public constructor and options.
func (c *C) newClient(x *X, grpc bool) *clientScn {
	T := x.T
	s := &clientScn{x: x, name: "http"}
	s.addr = x.symOf("addr", types.Typ[types.String])
	hc := x.NamedType(modPath+"/pkg/client", "HTTPClient")
	ot := x.NamedType(modPath+"/pkg/client", "ClientOption")
	s.http = x.symOf("httpClient", hc)
	st := x.newState()
	st.facts.Assume(T.Eq(s.http, T.Nil()), false)
	o1 := x.single(x.Root(x.Fn("pkg/client", "", "WithHTTPClient"), st, []*Term{s.http}, nil), "WithHTTPClient")
	opts := []*Term{o1.Vals[0]}
	st = o1.St
	if grpc {
		s.name = "grpc"
		o2 := x.single(x.Root(x.Fn("pkg/client", "", "WithViaGRPC"), st, []*Term{T.Nil()}, nil), "WithViaGRPC")
		opts = append(opts, o2.Vals[0])
		st = o2.St
	}
	o := x.single(x.Root(x.Fn("pkg/client", "", "NewClient"), st, []*Term{s.addr, x.sliceOf(ot, opts...)}, nil), "NewClient")
	s.cl = o.Vals[0]
	s.st = o.St
	for _, e := range o.evs {
		if e.kind == EvCall && e.name == lcv1+".NewEgressClient" {
			s.egr = e.res[0]
			s.conn = e.args[0]
			s.st.wfacts().Assume(T.Eq(s.egr, T.Nil()), false)
		}
		if e.kind == EvCall && e.name == lcv1+".NewPromQLQuerierClient" {
			s.pql = e.res[0]
			s.st.wfacts().Assume(T.Eq(s.pql, T.Nil()), false)
		}
	}
	if grpc && (s.egr == nil || s.pql == nil) {
		x.giveUp("WithViaGRPC does not create the egress and PromQL stubs")
	}
	s.st.trace = nil
	return s
}

type clientOp struct {
	name string
	outs []*Outcome
	ps   []*Term
	scn  *clientScn
}

func (c *C) clientOp(s *clientScn, name string) *clientOp {
	fn := s.x.Fn("pkg/client", "*Client", name)
	ps := s.x.params(fn)
	ps[0] = s.cl
	op := &clientOp{name: "Client." + name + " over " + s.name, ps: ps, scn: s}
	op.outs = s.x.Root(fn, s.st.clone(), ps, nil)
	// after earlier calls on the same client
	if !s.histDone {
		s.histDone = true
		ops := httpOps
		if s.name == "grpc" {
			ops = grpcOps
		}
		var calls []func(st *State) []*Outcome
		for _, n := range ops {
			calls = append(calls, s.x.earlierCall(s.x.Fn("pkg/client", "*Client", n), s.cl))
		}
		s.hist = s.x.laterStates(s.st, calls...)
	}
	same := s.x.laterStates(s.st, func(st *State) []*Outcome { return s.x.Root(fn, st, ps, nil) })
	for _, st := range append(same, s.hist...) {
		op.outs = append(op.outs, s.x.Root(fn, st.clone(), ps, nil)...)
	}
	return op
}

// noPanic: a call answers with an error where it cannot answer, whatever
// fails.
func (c *C) noPanic(op *clientOp, rule string) {
	c.noMay(op.scn.x, op.outs, rule, op.name, "unchecked", "nilmap", "typeassert", "divzero")
	c.replyNil(op.scn.x, op.outs, rule, op.name)
	for _, o := range op.outs {
		c.ob(!o.Panic, rule, op.name+" panics", "%s may panic: %s", op.name, op.scn.x.pathStr(o))
	}
}

// replyNil reports dereferences of messages inside a reply, which a server may
// leave out.
func (c *C) replyNil(x *X, outs []*Outcome, rule, what string) {
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind != EvMay || e.name != "nil" && e.name != "unchecked" || e.val == nil || e.val.op != "init" || e.val.args[0].op != "fieldaddr" {
				return
			}
			in := e.val.args[0].args[0]
			if k := typeKey(derefType(in.typ)); (strings.Contains(k, "logcache_v1.") || strings.Contains(k, "loggregator_v2.")) && !x.hasElems(e) {
				c.ob(false, rule, what+" missing "+fieldName(e.val.args[0]), "%s dereferences %s, which a reply may leave out, in %s", what, e.val, x.where(e))
			}
		})
	}
	c.ob(true, rule, what+" missing fields", "")
}

const infoPath = "/api/v1/info"

// mainDo splits a path's outgoing requests into the version probe and others.
func (op *clientOp) dos(o *Outcome) (probe, main []*reqInfo) {
	for _, e := range o.evs {
		if isHTTPDo(e) {
			r := op.scn.x.reqOf(e)
			if s, ok := op.scn.x.setPath(o, r).StrVal(); ok && s == infoPath {
				probe = append(probe, r)
			} else {
				main = append(main, r)
			}
		}
	}
	return
}

func (op *clientOp) rpcs(o *Outcome) []*Event {
	var r []*Event
	for _, e := range o.evs {
		if isExtCall(e) && e.method != nil && len(e.args) > 0 && (e.args[0] == op.scn.egr || e.args[0] == op.scn.pql) && op.scn.egr != nil {
			r = append(r, e)
		}
	}
	return r
}

// noIterDo: requests must not be issued from inside loops.
func (c *C) noLoopIO(op *clientOp, rule string) {
	for _, o := range op.outs {
		for _, e := range o.evs {
			if e.kind != EvLoop {
				continue
			}
			for _, it := range e.loop.iters {
				allEvents(it.events, func(q *Event) {
					if isHTTPDo(q) || isExtCall(q) && q.method != nil && len(q.args) > 0 && (q.args[0] == op.scn.egr || q.args[0] == op.scn.pql) && op.scn.egr != nil {
						c.ob(false, rule, op.name+" repeats its request", "%s issues requests from a loop at %s", op.name, op.scn.x.where(q))
					}
				})
			}
		}
	}
}

// commonReq checks method, target host and body of a request.
func (c *C) commonReq(op *clientOp, r *reqInfo, rule string) {
	x := op.scn.x
	if s, ok := r.method.StrVal(); true {
		c.ob(ok && s == "GET", rule, op.name+" method", "%s sends method %s at %s", op.name, r.method, x.where(r.ev))
	}
	c.ob(r.base != nil && stripIface(r.base) == op.scn.addr, rule, op.name+" target", "%s sends its request to %v, not to the configured address, at %s", op.name, r.base, x.where(r.ev))
	for _, f := range []string{"Scheme", "Host", "Opaque"} {
		ut := x.NamedType("net/url", "URL")
		_, over := r.um.m[x.FieldNamed(r.url, ut, f)]
		c.ob(!over, rule, op.name+" target", "%s overrides the %s of the configured address at %s", op.name, f, x.where(r.ev))
	}
	c.ob(r.client == nil || r.client == op.scn.http, rule, op.name+" client", "%s does not use the configured HTTP client at %s", op.name, x.where(r.ev))
	c.ob(r.body.IsNil() || strings.Contains(r.body.String(), "net/http.NoBody"), rule, op.name+" body", "%s sends a body at %s", op.name, x.where(r.ev))
}

// querySent checks the query string: the fixed keys plus every caller option.
func (c *C) querySent(op *clientOp, o *Outcome, r *reqInfo, fixed map[string]*Term, opts *Term, rule string) {
	x := op.scn.x
	if r.query == nil {
		if s, ok := r.rawQ.StrVal(); fixed == nil && (ok && s == "" || r.rawQ.op == "init") {
			c.ob(true, rule, op.name+" query", "")
			return
		}
		c.ob(false, rule, op.name+" query", "%s does not send the encoded query parameters (RawQuery is %s) at %s", op.name, r.rawQ, x.where(r.ev))
		return
	}
	q := r.query
	set := map[string][]*Term{}
	enc := r.rawQ.ev
	applied, afterEnc := false, false
	for _, e := range o.evs {
		if e == enc {
			break
		}
		key := func() string {
			if s, ok := e.args[1].StrVal(); ok {
				return s
			}
			return "?" + e.args[1].String()
		}
		switch {
		case e.kind == EvCall && strings.HasPrefix(e.name, "(net/url.Values).") && e.args[0] == q:
			switch e.name {
			case "(net/url.Values).Set":
				set[key()] = []*Term{e.args[2]}
			case "(net/url.Values).Add":
				set[key()] = append(set[key()], e.args[2])
			case "(net/url.Values).Del":
				delete(set, key())
			}
		case e.kind == EvMapUpdate && e.addr == q:
			if e.name == "delete" {
				delete(set, key())
			} else if els, ok := x.elems(e.mem, e.val); ok {
				set[key()] = els
			} else {
				set[key()] = []*Term{e.val}
			}
		case e.kind == EvLoop && opts != nil:
			uses := false
			for _, it := range e.loop.iters {
				allEvents(it.events, func(q2 *Event) {
					for _, a := range q2.args {
						if a == q {
							uses = true
						}
					}
				})
			}
			if uses {
				if msg := x.appliesAll(e.loop, opts, loopExits([]*Outcome{o}), r.url, q); msg != "" {
					c.ob(false, rule, op.name+" options", "%s does not apply every option once, in order: %s (loop at %s)", op.name, msg, x.posStr(e.pos))
				}
				applied = true
			}
		}
	}
	_ = afterEnc
	if opts != nil {
		c.ob(applied, rule, op.name+" options", "%s sends the query without applying the caller's options first: %s", op.name, x.where(enc))
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w := fixed[k]
		if w == nil {
			c.ob(false, rule, op.name+" extra "+k, "%s sends an unrequested query parameter %q = %s at %s", op.name, k, set[k], x.where(r.ev))
			continue
		}
		c.ob(len(set[k]) == 1 && x.same(o.St.facts, set[k][0], w), rule, op.name+" "+k, "%s sends %q = %s, want %s, at %s", op.name, k, set[k], w, x.where(r.ev))
	}
	for k := range fixed {
		c.ob(set[k] != nil, rule, op.name+" "+k, "%s omits the query parameter %q at %s", op.name, k, x.where(r.ev))
	}
}

// appliesAll: each iteration applies exactly element i of opts to (u, q).
func (x *X) appliesAll(l *LoopInfo, opts *Term, exits []*Event, u, q *Term) string {
	cv, why := x.covers(l, opts, exits)
	if cv == nil {
		return why
	}
	for _, it := range l.iters {
		n := 0
		for _, e := range it.events {
			switch e.kind {
			case EvCall:
				if e.name == "dynamic" && e.args[0] == x.elemAt(it.mem, opts, cv.idx) && len(e.args) == 3 && (u == nil || e.args[1] == u) && e.args[2] == q {
					n++
				} else {
					for _, a := range e.args {
						if a == q {
							return "the loop also calls " + e.name
						}
					}
				}
			case EvMapUpdate:
				if e.addr == q {
					return "the loop also writes the query"
				}
			}
		}
		if n != 1 {
			return fmt.Sprintf("an iteration applies the option %d times", n)
		}
	}
	return ""
}

// ---------------------------------------------------------------- results

// resultSpec describes what a successful call returns.
type resultSpec struct {
	okStatus []int64
	data     func(o *Outcome, dst *Term, resp *Term) *Term // expected first result
	zero     func(v *Term) bool
}

func (x *X) respField(m *Mem, resp *Term, f string) *Term {
	return x.LoadField(m, resp, x.NamedType("net/http", "Response"), f)
}

// decodeEvents: external calls that consume body (directly or through a
// reader built on it) and fill a destination object.
func (x *X) decodeEvents(evs []*Event, body *Term) (out []*Event, dst []*Term) {
	for _, e := range evs {
		if e.kind != EvCall || e.inl && !x.opaque[e.name] {
			continue
		}
		src := -1
		var d *Term
		for i, a := range e.args {
			a0 := stripIface(a)
			if a0.op == "alloc" && (src >= 0 || i > 0) {
				d = a0
			} else if derives(a, body) && partOf(a, body) == nil {
				src = i
			}
		}
		if src >= 0 && d != nil && len(e.res) > 0 && isErrorType(e.res[len(e.res)-1].typ) {
			out = append(out, e)
			dst = append(dst, d)
		}
	}
	return
}

func isZeroTerm(x *X, v *Term) bool {
	if v.IsNil() || v.op == "zero" {
		return true
	}
	if v.op == "struct" {
		for _, a := range v.args {
			if !isZeroTerm(x, a) {
				return false
			}
		}
		return true
	}
	if i, ok := v.IntVal(); ok {
		return i == 0
	}
	if s, ok := v.StrVal(); ok {
		return s == ""
	}
	return false
}

// splitErr gives the feasible (success, failure) refinements of a path.
func (x *X) splitErr(o *Outcome) (okF, badF *Facts) {
	e := o.Vals[len(o.Vals)-1]
	eq := x.T.Eq(e, x.T.Nil())
	if x.isNil(o.St.facts, e) != -1 {
		if f, ok := x.with(o.St.facts, eq, true); ok {
			okF = f
		}
	}
	if x.isNil(o.St.facts, e) != 1 {
		if f, ok := x.with(o.St.facts, eq, false); ok {
			badF = f
		}
	}
	return
}

func (c *C) httpResults(op *clientOp, sp resultSpec, rule string) {
	x := op.scn.x
	T := x.T
	for _, o := range op.outs {
		if o.Panic {
			c.ob(false, rule, op.name+" panics", "%s can panic: %s", op.name, x.pathStr(o))
			continue
		}
		probe, main := op.dos(o)
		if len(main) == 0 && sp.okStatus != nil && len(probe) == 1 && strings.Contains(op.name, "LogCacheV") {
			main = probe
		}
		okF, badF := x.splitErr(o)
		if okF != nil {
			for _, ev := range o.evs {
				for _, r := range ev.res {
					if !ev.inl && ev.kind != EvLeave && isErrorType(r.typ) && (r.op == "ret" || r.op == "pure") && x.isNil(okF, r) != 1 && ev.name != "(io.Closer).Close" && !strings.HasPrefix(ev.name, "(io.ReadCloser)") {
						c.ob(false, rule, op.name+" swallows "+shortName(ev.name), "%s can return success although %s at %s failed: %s", op.name, ev.name, x.where(ev), x.pathStr(o))
					}
				}
			}
			if len(main) != 1 {
				c.ob(false, rule, op.name+" success without reply", "%s returns success after %d data requests: %s", op.name, len(main), x.pathStr(o))
				continue
			}
			resp := main[0].ev.res[0]
			stT := x.respField(o.St.mem, resp, "StatusCode")
			good := false
			for _, s := range sp.okStatus {
				if okF.Eval(T.Eq(stT, T.Int(s))) == 1 {
					good = true
				}
			}
			c.ob(good, rule, op.name+" status", "%s can return success for a reply whose status is not %v: %s", op.name, sp.okStatus, x.pathStr(o))
			body := x.respField(o.St.mem, resp, "Body")
			des, dst := x.decodeEvents(o.evs, body)
			if len(des) == 0 {
				c.ob(false, rule, op.name+" decode", "%s returns success without decoding the reply body: %s", op.name, x.pathStr(o))
				continue
			}
			if want := sp.data(o, dst[len(dst)-1], resp); want != nil {
				c.ob(x.same(okF, o.Vals[0], want), rule, op.name+" result", "%s returns %s, want %s decoded from the reply: %s", op.name, o.Vals[0], want, x.pathStr(o))
				how := x.tampered(o, dst[len(dst)-1], des[len(des)-1])
				c.ob(how == "", rule, op.name+" alters the reply", "%s returns the decoded reply but %s: %s", op.name, how, x.pathStr(o))
			}
		}
		if badF != nil {
			just := len(x.failures(o.evs, badF)) > 0
			if !just && len(main) == 1 {
				resp := main[0].ev.res[0]
				stT := x.respField(o.St.mem, resp, "StatusCode")
				all := true
				for _, s := range sp.okStatus {
					if badF.Eval(T.Eq(stT, T.Int(s))) != -1 {
						all = false
					}
				}
				just = all
			}
			if !just && len(probe) > 0 && len(main) == 0 {
				just = true // decided by the version-negotiation property
			}
			c.ob(just, rule, op.name+" spurious failure", "%s reports an error although every step succeeded: %s", op.name, x.pathStr(o))
			if okF == nil {
				c.ob(sp.zero(o.Vals[0]), rule, op.name+" data with error", "%s returns data %s together with an error: %s", op.name, o.Vals[0], x.pathStr(o))
			}
		}
	}
}

func (c *C) grpcResults(op *clientOp, method string, stub *Term, data func(m *Mem, f *Facts, resp *Term) *Term, rule string) {
	x := op.scn.x
	for _, o := range op.outs {
		if o.Panic {
			c.ob(false, rule, op.name+" panics", "%s can panic: %s", op.name, x.pathStr(o))
			continue
		}
		rp := op.rpcs(o)
		for _, e := range o.evs {
			c.ob(!isHTTPDo(e), rule, op.name+" transport", "%s issues an HTTP request at %s", op.name, x.where(e))
		}
		if !c.ob(len(rp) == 1 && rp[0].method.Name() == method && rp[0].args[0] == stub, rule, op.name+" rpc", "%s makes %d RPCs (want one %s): %s", op.name, len(rp), method, x.pathStr(o)) {
			continue
		}
		resp, err := rp[0].res[0], rp[0].res[1]
		okF, badF := x.splitErr(o)
		if okF != nil {
			c.ob(x.isNil(okF, err) == 1, rule, op.name+" swallowed error", "%s can return success although the RPC failed: %s", op.name, x.pathStr(o))
			w := data(o.St.mem, okF, resp)
			c.ob(x.same(okF, o.Vals[0], w) || x.isNil(okF, o.Vals[0]) == 1 && x.isNil(okF, resp) == 1, rule, op.name+" result", "%s returns %s, want %s", op.name, o.Vals[0], w)
			how := x.tampered(o, resp, rp[0])
			c.ob(how == "", rule, op.name+" alters the reply", "%s returns the reply but %s: %s", op.name, how, x.pathStr(o))
		}
		if badF != nil {
			c.ob(x.isNil(badF, err) == -1, rule, op.name+" spurious failure", "%s reports an error although the RPC succeeded: %s", op.name, x.pathStr(o))
			if okF == nil {
				c.ob(isZeroTerm(x, o.Vals[0]), rule, op.name+" data with error", "%s returns data with an error: %s", op.name, x.pathStr(o))
			}
		}
	}
}

var httpOps = []string{"Read", "Meta", "PromQL", "PromQLRange", "PromQLRaw", "PromQLRangeRaw", "LogCacheVersion", "LogCacheVMUptime"}

var grpcOps = []string{"Read", "Meta", "PromQL", "PromQLRange"}

func init() {
	register("C01", "Read asks for exactly what the caller selected, over both transports",
		"Path-partitioned dataflow over Client.Read (HTTP and gRPC construction) and every ReadOption constructor: request path, method, target, each query parameter / request field and its guard, and full in-order application of the options are compared with the option table on every abstract path; a nil error implies transport, status and decode success and the reply's own batch, a non-nil error a failed step and no data.", checkC01)
	register("C02", "A failed client call never looks like an answer", "Path-partitioned dataflow over Meta, the PromQL calls and the version and uptime calls on each transport: on every abstract path a nil error implies transport, status and decode success and the decoded object is returned; a non-nil error implies a failed step and no data.", checkC02)
}

func checkC01(c *C) {
	const rule = "request"
	c.optionsPure("option", "ReadOption")
	c.optionsPure("option", "ClientOption")
	x := c.clientX()
	T := x.T
	// ---- HTTP
	s := c.newClient(x, false)
	op := c.clientOp(s, "Read")
	c.noPanic(op, "crash")
	c.noLoopIO(op, rule)
	src, start, opts := op.ps[2], op.ps[3], op.ps[4]
	nano := T.mk("pure", "UnixNano", types.Typ[types.Int64], start)
	n := 0
	for _, o := range op.outs {
		_, main := op.dos(o)
		c.ob(len(main) <= 1, rule, op.name+" repeats its request", "%s sends several read requests: %s", op.name, x.pathStr(o))
		for _, r := range main {
			n++
			c.commonReq(op, r, rule)
			pt := x.setPath(o, r)
			okp := pt.op == "concat" && len(pt.args) >= 2 && pt.args[len(pt.args)-1] == src
			var pre *Term
			if okp {
				pre = T.Concat(pt.args[:len(pt.args)-1]...)
			}
			okp = okp && (pre == T.Str("/api/v1/read/") || pre == T.Str("/v1/read/") || pre.op == "concat" && len(pre.args) == 2 && pre.args[1] == T.Str("/read/"))
			c.ob(okp, rule, op.name+" path", "%s requests path %s, want <api base>/read/<source id>, at %s", op.name, pt, x.where(r.ev))
			c.querySent(op, o, r, map[string]*Term{"start_time": x.itoa(nano)}, opts, rule)
		}
	}
	c.need(n, 1, rule, "HTTP read requests")
	// ---- options
	c.optionWrites(x, "WithEndTime", map[string]func(p []*Term) *Term{"end_time": func(p []*Term) *Term {
		return x.itoa(T.mk("pure", "UnixNano", types.Typ[types.Int64], p[0]))
	}})
	c.optionWrites(x, "WithLimit", map[string]func(p []*Term) *Term{"limit": func(p []*Term) *Term { return x.itoa(p[0]) }})
	c.optionWrites(x, "WithDescending", map[string]func(p []*Term) *Term{"descending": func(p []*Term) *Term { return T.Str("true") }})
	c.optionWrites(x, "WithNameFilter", map[string]func(p []*Term) *Term{"name_filter": func(p []*Term) *Term { return p[0] }})
	c.optEnvelopeTypes(x)
	// ---- gRPC
	x = c.clientX()
	T = x.T
	g := c.newClient(x, true)
	op = c.clientOp(g, "Read")
	c.noPanic(op, "crash")
	c.noLoopIO(op, rule)
	src, start, opts = op.ps[2], op.ps[3], op.ps[4]
	nano = T.mk("pure", "UnixNano", types.Typ[types.Int64], start)
	n = 0
	for _, o := range op.outs {
		for _, e := range op.rpcs(o) {
			n++
			c.grpcRequest(op, o, e, opts, rule, map[string]*Term{"SourceId": src, "StartTime": nano}, map[string]string{"Limit": "limit:int", "EndTime": "end_time:int", "EnvelopeTypes": "envelope_types:enum", "NameFilter": "name_filter:str", "Descending": "descending:flag"})
		}
	}
	c.need(n, 1, rule, "gRPC read requests")
	c.readResults("result")
}

// optionWrites runs an option constructor and applies the option to an empty
// query: exactly the given keys, each with one value, must result.
func (c *C) optionWrites(x *X, ctor string, want map[string]func(p []*Term) *Term) {
	const rule = "option"
	T := x.T
	fn := x.Fn("pkg/client", "", ctor)
	ps := x.params(fn)
	for _, o := range c.rets(x, x.Root(fn, nil, ps, nil), rule, ctor) {
		q := T.fresh("makemap", "query", x.NamedType("net/url", "Values"))
		u := x.symOf("url", types.NewPointer(x.NamedType("net/url", "URL")))
		for _, r := range c.rets(x, x.CallTerm(o.Vals[0], []*Term{u, q}, o.St), rule, ctor) {
			keys := x.mapKeys(r.St.mem, q)
			c.ob(len(keys) == len(want), rule, ctor, "%s sets the query parameters %v", ctor, keys)
			for k, w := range want {
				vs, ok := x.qval(r.St.mem, q, k)
				c.ob(ok && len(vs) == 1 && x.same(r.St.facts, vs[0], w(ps)), rule, ctor+" "+k, "%s sets %q to %v, want %s", ctor, k, vs, w(ps))
			}
			// given once more, the later one holds
			ps2 := make([]*Term, len(ps))
			for i, p := range ps {
				ps2[i] = x.symOf("later", p.typ)
			}
			o2 := x.single(x.Root(fn, r.St.clone(), ps2, nil), ctor)
			for _, r2 := range c.rets(x, x.CallTerm(o2.Vals[0], []*Term{u, q}, o2.St), rule, ctor) {
				for k, w := range want {
					vs, ok := x.qval(r2.St.mem, q, k)
					c.ob(ok && len(vs) == 1 && x.same(r2.St.facts, vs[0], w(ps2)), rule, ctor+" "+k+" again", "given twice, %s sets %q to %v, want the later %s alone", ctor, k, vs, w(ps2))
				}
			}
		}
	}
}

func (c *C) optEnvelopeTypes(x *X) {
	const rule = "option"
	T := x.T
	ctor := "WithEnvelopeTypes"
	fn := x.Fn("pkg/client", "", ctor)
	ps := x.params(fn)
	for _, o := range c.rets(x, x.Root(fn, nil, ps, nil), rule, ctor) {
		q := x.symOf("query", x.NamedType("net/url", "Values"))
		st := o.St
		st.facts.Assume(T.Eq(q, T.Nil()), false)
		u := x.symOf("url", types.NewPointer(x.NamedType("net/url", "URL")))
		outs := c.rets(x, x.CallTerm(o.Vals[0], []*Term{u, q}, st), rule, ctor)
		for _, r := range outs {
			done := false
			for _, e := range r.evs {
				if e.kind != EvLoop {
					continue
				}
				cv, why := x.covers(e.loop, ps[0], loopExits(outs))
				if cv == nil {
					c.ob(false, rule, ctor, "%s does not send every selected type: %s", ctor, why)
					continue
				}
				for _, it := range e.loop.iters {
					el := x.elemAt(it.mem, ps[0], cv.idx)
					sfn := x.Fn("pkg/rpc/logcache_v1", "EnvelopeType", "String")
					want := x.single(x.Root(sfn, x.newState(), []*Term{el}, nil), "EnvelopeType.String").Vals[0]
					k := T.mk("mapelem", "", nil, q, T.Str("envelope_types"))
					v := it.mem.m[k]
					okv := v != nil && v.op == "append" && v.args[len(v.args)-1] == want && len(v.args) == 2
					c.ob(okv, rule, ctor, "%s adds %s per selected type, want %s appended to envelope_types", ctor, v, want)
				}
				done = true
			}
			c.ob(done, rule, ctor, "%s does not iterate over the selected types", ctor)
		}
	}
}

// grpcRequest compares the fields of a request message with the option table:
// present key -> parsed value, absent key -> zero value.
func (c *C) grpcRequest(op *clientOp, o *Outcome, e *Event, opts *Term, rule string, fixed map[string]*Term, byKey map[string]string) {
	x := op.scn.x
	T := x.T
	req := e.args[2]
	rt := derefType(req.typ)
	f := e.facts
	for k, w := range fixed {
		v := x.LoadField(e.mem, req, rt, k)
		c.ob(x.same(f, v, w), rule, op.name+" "+k, "%s sends %s = %s, want %s, at %s", op.name, k, v, w, x.where(e))
	}
	// the query the options were applied to
	var q *Term
	for _, ev := range o.evs {
		if ev.kind == EvLoop {
			for _, it := range ev.loop.iters {
				for _, d := range it.events {
					if d.kind == EvCall && d.name == "dynamic" && len(d.args) == 3 {
						q = d.args[2]
					}
				}
			}
			if q != nil {
				if msg := x.appliesAll(ev.loop, opts, loopExits([]*Outcome{o}), nil, q); msg != "" {
					c.ob(false, rule, op.name+" options", "%s does not apply every option once, in order: %s", op.name, msg)
				}
				break
			}
		}
	}
	if !c.ob(q != nil, rule, op.name+" options", "%s does not apply the caller's options", op.name) {
		return
	}
	mt := q.typ.Underlying().(*types.Map)
	var fields []string
	for k := range byKey {
		fields = append(fields, k)
	}
	sort.Strings(fields)
	for _, fl := range fields {
		kk := strings.SplitN(byKey[fl], ":", 2)
		key, kind := kk[0], kk[1]
		v := x.LoadField(e.mem, req, rt, fl)
		val, has := x.lookup(e.mem, q, T.Str(key), mt)
		cons := op.name + " " + fl
		first := x.loadMem(e.mem, T.IndexAddr(val, T.Int(0), types.Typ[types.String]), types.Typ[types.String])
		switch kind {
		case "enum":
			msg := "not derived from the option"
			if v.loop != nil {
				g := T.mk("global", lcv1+".EnvelopeType_value", nil)
				for _, p := range x.pkgs[lcv1].Members {
					if p.Name() == "EnvelopeType_value" {
						g = T.mk("global", lcv1+".EnvelopeType_value", p.Type())
					}
				}
				gm := x.loadMem(e.mem, g, derefType(g.typ))
				msg = x.perElem(v, val, loopExits([]*Outcome{o}), func(m *Mem, el *Term) *Term {
					l, _ := x.lookup(m, gm, el, gm.typ.Underlying().(*types.Map))
					return l
				})
			}
			c.ob(msg == "", rule, cons, "%s fills %s with %s, want each %q option value mapped to its type, in order: %s (%s)", op.name, fl, v, key, msg, x.where(e))
			continue
		}
		var want, zero *Term
		switch kind {
		case "int":
			want = T.mk("pure", "strconv.ParseInt.0", types.Typ[types.Int64], first, T.Int(10), T.Int(64))
			zero = T.Int(0)
		case "str":
			want, zero = first, T.Str("")
		case "flag":
			want, zero = T.Bool(true), T.Bool(false)
		}
		given := f.Eval(has)
		if given == 0 {
			// an option without values is as good as none
			given = f.Eval(T.Lt(T.Int(0), T.Len(val)))
		}
		switch given {
		case 1:
			c.ob(x.same(f, v, want) || f.Eval(T.Eq(first, T.Str(""))) == 1 && x.same(f, v, zero), rule, cons, "%s sends %s = %s when %q is given, want %s (%s)", op.name, fl, v, key, want, x.where(e))
		case -1:
			c.ob(x.same(f, v, zero), rule, cons, "%s sends %s = %s when %q is not given (%s)", op.name, fl, v, key, x.where(e))
		default:
			c.ob(kind == "flag" && v == has, rule, cons, "%s sends %s = %s whether or not %q is given (%s)", op.name, fl, v, key, x.where(e))
		}
	}
}

// readReply names the batch that a ReadResponse holds.
func (x *X) readReply(m *Mem, f *Facts, resp *Term) *Term {
	env := x.LoadField(m, resp, x.NamedType(lcv1, "ReadResponse"), "Envelopes")
	if x.isNil(f, env) == 1 {
		return x.T.Nil()
	}
	return x.LoadField(m, env, x.NamedType("code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2", "EnvelopeBatch"), "Batch")
}

func nilZero(v *Term) bool { return v.IsNil() }

// readResults: Read returns the batch of a successful reply, or an error.
func (c *C) readResults(rule string) {
	x := c.clientX()
	op := c.clientOp(c.newClient(x, false), "Read")
	c.httpResults(op, resultSpec{[]int64{200}, func(o *Outcome, d, _ *Term) *Term {
		if !strings.HasSuffix(typeKey(d.typ), "logcache_v1.ReadResponse") {
			return x.T.Str("a decoded ReadResponse")
		}
		return x.readReply(o.St.mem, o.St.facts, d)
	}, nilZero}, rule)
	xg := c.clientX()
	g := c.newClient(xg, true)
	c.grpcResults(c.clientOp(g, "Read"), "Read", g.egr, xg.readReply, rule)
}

func checkC02(c *C) {
	const rule = "result"
	x := c.clientX()
	s := c.newClient(x, false)
	ptr := func(o *Outcome, dst, resp *Term) *Term { return dst }
	specs := map[string]resultSpec{
		"Meta": {[]int64{200}, func(o *Outcome, d, _ *Term) *Term {
			if !strings.HasSuffix(typeKey(d.typ), "logcache_v1.MetaResponse") {
				return x.T.Str("a decoded MetaResponse")
			}
			return x.LoadField(o.St.mem, d, derefType(d.typ), "Meta")
		}, nilZero},
		"PromQL":         {[]int64{200}, ptr, nilZero},
		"PromQLRange":    {[]int64{200}, ptr, nilZero},
		"PromQLRaw":      {[]int64{200, 400, 500}, ptr, nilZero},
		"PromQLRangeRaw": {[]int64{200, 400, 500}, ptr, nilZero},
	}
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		op := c.clientOp(s, n)
		c.noPanic(op, "crash")
		c.noLoopIO(op, rule)
		c.httpResults(op, specs[n], rule)
	}
	c.versionResults(s, "version reply")
	xg := c.clientX()
	g := c.newClient(xg, true)
	lt := func(n string) types.Type { return xg.NamedType(lcv1, n) }
	op := c.clientOp(g, "Meta")
	c.noPanic(op, "crash")
	c.grpcResults(op, "Meta", g.egr, func(m *Mem, f *Facts, resp *Term) *Term { return xg.LoadField(m, resp, lt("MetaResponse"), "Meta") }, rule)
	op = c.clientOp(g, "PromQL")
	c.noPanic(op, "crash")
	c.grpcResults(op, "InstantQuery", g.pql, func(m *Mem, f *Facts, resp *Term) *Term { return resp }, rule)
	op = c.clientOp(g, "PromQLRange")
	c.noPanic(op, "crash")
	c.grpcResults(op, "RangeQuery", g.pql, func(m *Mem, f *Facts, resp *Term) *Term { return resp }, rule)
}
