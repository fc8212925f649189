package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C14", "Gateway reports failed queries as Prometheus error documents with the mapped status",
		"Path-partitioned dataflow over the handler installed as the gateway's error handler, for an arbitrary path, error and marshaler: which handler answers, the abstract JSON document, the status, and that exactly one status and one body are written after the headers.", checkC14)
	register("C15", "Each REST route calls its RPC once with the request's parameters and context",
		"Path-partitioned dataflow over every handler registered on the gateway mux: route pattern, verb, RPC name, parameter transfer, context derivation, and exactly one answer (forwarded reply or error) per abstract path; info document compared with its template.", checkC15)
	register("C16", "Gateway serves only over TLS and only from the configured log cache",
		"Dataflow over NewGateway, its options, Start and the serving goroutine plus cmd/gateway main: listener address, certificate, dial target and options, marshaler configuration, route registration and the configuration-to-gateway wiring are traced to their sources.", checkC16)
}

// strWrites: status and body writes to the response writer w.
type respWrite struct {
	status *Term // nil: body
	body   *Term
	ev     *Event
}

func (x *X) respWrites(evs []*Event, w *Term) (ws []respWrite, hdrAfter bool) {
	for _, e := range evs {
		if e.kind == EvLoop {
			bad := false
			allEvents([]*Event{e}, func(d *Event) {
				if isExtCall(d) && len(d.args) > 0 && stripIface(d.args[0]) == w && (methodIs(d, "WriteHeader") || methodIs(d, "Write")) {
					bad = true
				}
			})
			if bad {
				ws = append(ws, respWrite{ev: e})
			}
			continue
		}
		if !isExtCall(e) || len(e.args) == 0 {
			continue
		}
		a0 := stripIface(e.args[0])
		switch {
		case methodIs(e, "WriteHeader") && a0 == w:
			ws = append(ws, respWrite{status: e.args[1], ev: e})
		case methodIs(e, "Write") && a0 == w:
			ws = append(ws, respWrite{body: e.args[1], ev: e})
		case e.name == "io.WriteString" && a0 == w:
			ws = append(ws, respWrite{body: e.args[1], ev: e})
		case (e.name == "fmt.Fprintf" || e.name == "fmt.Fprint" || e.name == "fmt.Fprintln") && a0 == w:
			b := x.T.mk("fprint", "", nil, e.args[1:]...)
			if f, ok := e.args[1].StrVal(); ok && e.name == "fmt.Fprintf" {
				var as []*Term
				if len(e.args) > 2 {
					if es, ok := x.elems(e.mem, e.args[2]); ok {
						as = es
					}
				}
				if t := x.concatFmt(f, as); t != nil {
					b = t
				}
			}
			ws = append(ws, respWrite{body: b, ev: e})
		case e.name == "net/http.Error" && a0 == w:
			ws = append(ws, respWrite{status: e.args[2], ev: e}, respWrite{body: e.args[1], ev: e})
		case strings.HasPrefix(e.name, "(net/http.Header).") && (strings.HasSuffix(e.name, "Set") || strings.HasSuffix(e.name, "Add")) && len(ws) > 0:
			if h := e.args[0]; h.op == "ret" && h.ev != nil && methodIs(h.ev, "Header") && stripIface(h.ev.args[0]) == w {
				hdrAfter = true
			}
		case e.name == "(*encoding/json.Encoder).Encode":
			if derives(e.args[0], w) {
				ws = append(ws, respWrite{body: e.args[1], ev: e})
			}
		}
	}
	return
}

// headerSet: the value last given to response header key before event until.
func (x *X) respHeader(evs []*Event, w *Term, key string, until *Event) *Term {
	var v *Term
	for _, e := range evs {
		if e == until {
			break
		}
		if isExtCall(e) && e.name == "(net/http.Header).Set" && len(e.args) == 3 {
			h := e.args[0]
			if k, ok := e.args[1].StrVal(); ok && canonicalHeader(k) == key && h.op == "ret" && h.ev != nil && methodIs(h.ev, "Header") && stripIface(h.ev.args[0]) == w {
				v = e.args[2]
			}
		}
		if e.kind == EvMapUpdate && len(e.args) > 1 {
			h := e.args[0]
			if k, ok := e.args[1].StrVal(); ok && k == key && h.op == "ret" && h.ev != nil && methodIs(h.ev, "Header") {
				v = e.val
			}
		}
	}
	return v
}

// gatewayScn is a gateway built through its constructor, up to serving.
type gatewayScn struct {
	x     *X
	g     *Term
	ctor  []*Term
	start *Outcome   // Start with blocking, serving path
	fails []*Outcome // paths that stop before
	outs  []*Outcome
	st0   *State
	pre   []*Event // what the constructor did
}

func isFatal(e *Event) bool {
	return e.kind == EvCall && (strings.HasPrefix(e.name, "(*log.Logger).Fatal") || strings.HasPrefix(e.name, "log.Fatal") || e.name == "os.Exit" || strings.HasPrefix(e.name, "(*log.Logger).Panic") || strings.HasPrefix(e.name, "log.Panic"))
}

func (c *C) newGateway(opts ...func(x *X, st *State) (*Term, *State)) *gatewayScn {
	x := c.newX()
	s := &gatewayScn{x: x}
	st := x.newState()
	var os []*Term
	for _, f := range opts {
		var o *Term
		o, st = f(x, st)
		os = append(os, o)
	}
	fn := x.Fn("internal/gateway", "", "NewGateway")
	s.ctor = x.params(fn)
	args := append([]*Term(nil), s.ctor...)
	args[4] = x.sliceOf(x.NamedType(modPath+"/internal/gateway", "GatewayOption"), os...)
	o := x.single(x.Root(fn, st, args, nil), "NewGateway")
	s.g = o.Vals[0]
	s.pre = o.evs
	o.St.trace = nil
	s.st0 = o.St
	return s
}

func (s *gatewayScn) run() {
	s.outs = s.x.CallMethod(s.g, "Start", nil, s.st0)
}

func gwOpt(fn string, args func(x *X) []*Term) func(x *X, st *State) (*Term, *State) {
	return func(x *X, st *State) (*Term, *State) {
		o := x.single(x.Root(x.Fn("internal/gateway", "", fn), st, args(x), nil), fn)
		return o.Vals[0], o.St
	}
}

func noArgs(x *X) []*Term { return []*Term{} }

func isServe(e *Event) bool {
	return isExtCall(e) && (strings.Contains(e.name, "net/http.Server).") && (strings.HasSuffix(e.name, "ServeTLS") || strings.HasSuffix(e.name, "Serve") || strings.HasSuffix(e.name, "ListenAndServe") || strings.HasSuffix(e.name, "ListenAndServeTLS")) ||
		e.name == "net/http.Serve" || e.name == "net/http.ServeTLS" || e.name == "net/http.ListenAndServe" || e.name == "net/http.ListenAndServeTLS")
}

// servedMux: the handler of the serving event.
func (x *X) servedHandler(e *Event) *Term {
	if strings.Contains(e.name, "Server).") {
		return stripIface(x.LoadField(e.mem, e.args[0], x.NamedType("net/http", "Server"), "Handler"))
	}
	for _, a := range e.args {
		if a.typ != nil && isInterface(a.typ) || a.op == "mkiface" {
			return stripIface(a)
		}
	}
	return nil
}

func checkC14(c *C) {
	const rule = "query errors"
	s := c.newGateway(gwOpt("WithGatewayBlock", noArgs))
	x := s.x
	T := x.T
	s.run()
	var handler *Term
	var hst *State
	for _, o := range s.outs {
		serve := false
		for _, e := range o.evs {
			if isServe(e) {
				serve = true
			}
		}
		if !serve {
			continue
		}
		var h *Term
		for _, e := range o.evs {
			if e.kind == EvStore && e.addr.op == "global" && strings.HasSuffix(e.addr.sym, "grpc-gateway/runtime.HTTPError") {
				h = e.val
			}
			if isServe(e) && h == nil {
				c.ob(false, rule, "handler installed", "the gateway serves before its error handler is installed: %s", x.pathStr(o))
			}
		}
		if h != nil {
			handler, hst = h, o.St
		}
	}
	if handler == nil {
		c.ob(false, rule, "handler installed", "the gateway never installs an error handler")
		return
	}
	handler = stripIface(handler)
	for handler.op == "conv" {
		handler = handler.args[0]
	}
	hst = hst.clone()
	hst.trace = nil
	var names = []string{"ctx", "mux", "marshaler", "w", "r", "err"}
	sig := handler.fn.Signature
	var ps []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		n := fmt.Sprint("p", i)
		if i < len(names) {
			n = names[i]
		}
		ps = append(ps, x.symOf(n, sig.Params().At(i).Type()))
	}
	if len(ps) != 6 {
		x.giveUp("the error handler has %d parameters", len(ps))
	}
	for _, p := range ps {
		hst.wfacts().Assume(T.Eq(p, T.Nil()), false)
	}
	mar, w, r, err := ps[2], ps[3], ps[4], ps[5]
	url := x.LoadField(hst.mem, r, x.NamedType("net/http", "Request"), "URL")
	hst.wfacts().Assume(T.Eq(url, T.Nil()), false)
	path := x.LoadField(hst.mem, url, x.NamedType("net/url", "URL"), "Path")
	seen := map[string]int{}
	for _, o := range c.rets(x, x.CallTerm(handler, ps, hst), rule, "error handler") {
		f := o.St.facts
		q := ""
		undecided := false
		for _, p := range []string{"/api/v1/query", "/api/v1/query_range"} {
			switch f.Eval(T.Eq(path, T.Str(p))) {
			case 1:
				q = p
			case 0:
				undecided = true
			}
		}
		var defs []*Event
		for _, e := range o.evs {
			if isExtCall(e) && strings.HasSuffix(e.name, "grpc-gateway/runtime.DefaultHTTPError") {
				defs = append(defs, e)
			}
		}
		ws, late := x.respWrites(o.evs, w)
		if q == "" {
			if undecided {
				c.ob(len(defs) == 0, rule, "path separation", "requests for the query endpoints and others share a path that answers with the default error: %s", x.pathStr(o))
				continue
			}
			good := len(defs) == 1 && len(ws) == 0
			if good {
				for i, a := range defs[0].args {
					if i < len(ps) && stripIface(a) != ps[i] {
						good = false
					}
				}
			}
			seen["other"]++
			c.ob(good, rule, "other paths", "an error outside the query endpoints is not answered by the default handler alone: %s", x.pathStr(o))
			continue
		}
		seen[q]++
		c.ob(len(defs) == 0, rule, q+" default", "a %s error is answered by the default handler: %s", q, x.pathStr(o))
		if !c.ob(len(ws) == 2 && ws[0].status != nil && ws[1].body != nil && !late, rule, q+" one answer", "a %s error is not answered with one status followed by one body after the headers: %s", q, x.pathStr(o)) {
			continue
		}
		ct := x.respHeader(o.evs, w, "Content-Type", ws[0].ev)
		okCT := false
		if ct != nil {
			if ct.op == "ret" && ct.ev != nil && methodIs(ct.ev, "ContentType") && stripIface(ct.ev.args[0]) == mar {
				okCT = true
			}
			if v, ok := ct.StrVal(); ok && strings.HasPrefix(v, "application/json") {
				okCT = true
			}
		}
		c.ob(okCT, rule, q+" content type", "a %s error is sent without the marshaler's content type: %s", q, x.pathStr(o))
		var doc *Term
		var dev *Event
		for _, e := range o.evs {
			if methodIs(e, "Marshal") && stripIface(e.args[0]) == mar || isExtCall(e) && e.name == "encoding/json.Marshal" {
				dev = e
				doc = e.args[len(e.args)-1]
			}
		}
		if dev == nil {
			c.ob(false, rule, q+" document", "a %s error is sent without marshalling it: %s", q, x.pathStr(o))
			continue
		}
		j := x.jsonOf(dev.mem, dev.facts, doc)
		str := func(k string) string {
			v := j.key(k)
			if v == nil || v.v == nil {
				return ""
			}
			s, _ := v.v.StrVal()
			return s
		}
		c.ob(str("status") == "error", rule, q+" status member", "a %s error document has status %q", q, str("status"))
		c.ob(str("errorType") == "internal", rule, q+" errorType member", "a %s error document has errorType %q", q, str("errorType"))
		em := j.key("error")
		c.ob(em != nil && em.v != nil && !em.omit && x.grpcDesc(em.v, err), rule, q+" error member", "a %s error document does not carry the error's description", q)
		switch x.isNil(f, dev.res[1]) {
		case -1:
			st, _ := ws[0].status.IntVal()
			b, isStr := stripConv(ws[1].body).StrVal()
			var v map[string]interface{}
			okJ := isStr && json.Unmarshal([]byte(b), &v) == nil && v["error"] != nil
			c.ob(st == 500 && okJ, rule, q+" fallback", "a %s error that cannot be marshalled is not answered with 500 and a fixed JSON error: %s", q, x.pathStr(o))
		case 1:
			body := stripConv(ws[1].body)
			if body.op == "append" && body.args[0] == dev.res[0] {
				body = dev.res[0]
			}
			c.ob(body == dev.res[0], rule, q+" body", "a %s error body is not the marshalled document: %s", q, x.pathStr(o))
			c.ob(x.mappedStatus(ws[0].status, err), rule, q+" status", "a %s error is sent with status %s instead of the one mapped from the gRPC code: %s", q, ws[0].status, x.pathStr(o))
		default:
			c.ob(false, rule, q+" marshal error", "a %s error is sent without looking at the marshalling error: %s", q, x.pathStr(o))
		}
	}
	c.need(seen["/api/v1/query"], 1, rule, "query path")
	c.need(seen["/api/v1/query_range"], 1, rule, "query_range path")
	c.need(seen["other"], 1, rule, "other path")
}

func stripConv(t *Term) *Term {
	t = stripIface(t)
	for t.op == "conv" {
		t = stripIface(t.args[0])
	}
	return t
}

// grpcDesc: t is the description of err.
func (x *X) grpcDesc(t, err *Term) bool {
	if t.op != "ret" && t.op != "pure" {
		return false
	}
	if t.ev == nil {
		return strings.HasSuffix(t.sym, "grpc.ErrorDesc") && t.args[0] == err
	}
	switch t.ev.name {
	case "google.golang.org/grpc.ErrorDesc":
		return stripIface(t.ev.args[0]) == err
	case "(*google.golang.org/grpc/internal/status.Status).Message", "(*google.golang.org/grpc/status.Status).Message":
		s := t.ev.args[0]
		return s.op == "ret" && s.ev != nil && (s.ev.name == "google.golang.org/grpc/status.Convert" || s.ev.name == "google.golang.org/grpc/status.FromError") && stripIface(s.ev.args[0]) == err
	}
	return false
}

func (x *X) mappedStatus(t, err *Term) bool {
	if t.op != "ret" || t.ev == nil || !strings.HasSuffix(t.ev.name, "grpc-gateway/runtime.HTTPStatusFromCode") {
		return false
	}
	k := t.ev.args[0]
	if k.op != "ret" || k.ev == nil {
		return false
	}
	switch k.ev.name {
	case "google.golang.org/grpc.Code", "google.golang.org/grpc/status.Code":
		return stripIface(k.ev.args[0]) == err
	}
	if strings.HasSuffix(k.ev.name, "status.Status).Code") {
		s := k.ev.args[0]
		return s.op == "ret" && s.ev != nil && (s.ev.name == "google.golang.org/grpc/status.Convert" || s.ev.name == "google.golang.org/grpc/status.FromError") && stripIface(s.ev.args[0]) == err
	}
	return false
}

// ------------------------------------------------------------------ routes

type route struct {
	verb, pattern, rpc string
	params             []string // path parameters
	field              map[string]string
}

var gwRoutes = []route{
	{"GET", "/api/v1/read/{source_id=**}", "/logcache.v1.Egress/Read", []string{"source_id"}, map[string]string{"source_id": "SourceId"}},
	{"GET", "/api/v1/meta", "/logcache.v1.Egress/Meta", nil, nil},
	{"GET", "/api/v1/query", "/logcache.v1.PromQLQuerier/InstantQuery", nil, nil},
	{"GET", "/api/v1/query_range", "/logcache.v1.PromQLQuerier/RangeQuery", nil, nil},
}

// patternText decodes a grpc-gateway pattern program.
func patternText(ops []int64, pool []string) string {
	var stk []string
	at := func(i int64) string {
		if i < 0 || int(i) >= len(pool) {
			return "?"
		}
		return pool[i]
	}
	for i := 0; i+1 < len(ops); i += 2 {
		a := ops[i+1]
		switch ops[i] {
		case 1:
			stk = append(stk, "*")
		case 2:
			stk = append(stk, at(a))
		case 3:
			stk = append(stk, "**")
		case 4:
			n := int(a)
			if n < 0 || n > len(stk) {
				return "?"
			}
			s := strings.Join(stk[len(stk)-n:], "/")
			stk = append(stk[:len(stk)-n:len(stk)-n], s)
		case 5:
			if len(stk) == 0 {
				return "?"
			}
			stk[len(stk)-1] = "{" + at(a) + "=" + stk[len(stk)-1] + "}"
		}
	}
	return "/" + strings.Join(stk, "/")
}

// pkgGlobals evaluates a package's initialisers: global -> value, memory.
func (x *X) pkgGlobals(pkg string) (map[string]*Term, *Mem) {
	p := x.pkgs[modPath+"/"+pkg]
	if p == nil {
		x.giveUp("package %s not found", pkg)
	}
	was := x.inInit
	x.inInit = true
	defer func() { x.inInit = was }()
	o := x.single(x.Root(p.Func("init"), x.newState(), nil, nil), "init of "+pkg)
	out := map[string]*Term{}
	for _, e := range o.evs {
		if e.kind == EvStore && e.addr.op == "global" {
			out[e.addr.sym] = e.val
		}
	}
	return out, o.St.mem
}

func (x *X) patternOf(v *Term, globs map[string]*Term, m *Mem) (string, string) {
	for i := 0; i < 4 && v != nil; i++ {
		if v.op == "init" && v.args[0].op == "global" {
			v = globs[v.args[0].sym]
			continue
		}
		if v.op == "ret" && v.ev != nil && strings.HasSuffix(v.ev.name, "runtime.MustPattern") {
			v = v.ev.args[0]
			continue
		}
		break
	}
	if v == nil || v.op != "ret" || v.ev == nil || !strings.HasSuffix(v.ev.name, "runtime.NewPattern") {
		return "", ""
	}
	var ops []int64
	var pool []string
	es, ok := x.elems(v.ev.mem, v.ev.args[1])
	if !ok {
		return "", ""
	}
	for _, e := range es {
		i, ok := e.IntVal()
		if !ok {
			return "", ""
		}
		ops = append(ops, i)
	}
	es, ok = x.elems(v.ev.mem, v.ev.args[2])
	if !ok {
		return "", ""
	}
	for _, e := range es {
		s, ok := e.StrVal()
		if !ok {
			return "", ""
		}
		pool = append(pool, s)
	}
	verb, _ := v.ev.args[3].StrVal()
	if n, ok := v.ev.args[0].IntVal(); !ok || n != 1 || len(ops)%2 != 0 {
		return "", "" // no version the gateway library accepts
	}
	return patternText(ops, pool), verb
}

func checkC15(c *C) {
	const rule = "routes"
	s := c.newGateway(gwOpt("WithGatewayBlock", noArgs))
	x := s.x
	T := x.T
	s.run()
	globs, gm := x.pkgGlobals("pkg/rpc/logcache_v1")
	var serving *Outcome
	for _, o := range s.outs {
		for _, e := range o.evs {
			if isServe(e) && (serving == nil || len(o.evs) < len(serving.evs)) {
				serving = o
			}
		}
	}
	if serving == nil {
		c.ob(false, rule, "serving", "the gateway never serves")
		return
	}
	// sub-handlers of the served mux
	var top *Term
	for _, e := range serving.evs {
		if isServe(e) {
			top = x.servedHandler(e)
		}
	}
	var info, gwmux *Term
	for _, e := range serving.evs {
		if !isExtCall(e) || len(e.args) < 3 || stripIface(e.args[0]) != top {
			continue
		}
		if p, ok := e.args[1].StrVal(); ok && strings.HasPrefix(e.name, "(*net/http.ServeMux).Handle") {
			switch p {
			case "/api/v1/info":
				info = stripConv(e.args[2])
			case "/":
				gwmux = stripIface(e.args[2])
			default:
				c.ob(!strings.HasPrefix(p, "/api/v1/"), rule, "route "+p, "route %s shadows the gateway", p)
			}
		}
	}
	if top != nil && gwmux == nil && top.op == "errval" {
		gwmux = top
	}
	if !c.ob(gwmux != nil, rule, "gateway mux", "no handler serves /") {
		return
	}
	for _, e := range serving.evs {
		if e.kind == EvStore && e.addr.op == "global" && strings.HasSuffix(e.addr.sym, "grpc-gateway/runtime.HTTPError") {
			if h := stripConv(e.val); h.fn != nil {
				x.errHandler = h.fn
				x.opaque[fnName(h.fn)] = true
			}
		}
	}
	// the marshaler
	c.gatewayMarshaler(x, gwmux, rule)
	found := map[string]int{}
	for _, e := range serving.evs {
		if !isExtCall(e) || !strings.HasSuffix(e.name, "runtime.ServeMux).Handle") || stripIface(e.args[0]) != gwmux {
			continue
		}
		verb, _ := e.args[1].StrVal()
		pat, pv := x.patternOf(e.args[2], globs, gm)
		var rt *route
		for i := range gwRoutes {
			if gwRoutes[i].pattern == pat && gwRoutes[i].verb == verb && pv == "" {
				rt = &gwRoutes[i]
			}
		}
		if rt == nil {
			// an additional route is not this property's business
			continue
		}
		found[rt.pattern]++
		c.routeHandler(x, T, rt, stripConv(e.args[3]), serving.St, rule)
	}
	for _, rt := range gwRoutes {
		c.ob(found[rt.pattern] == 1, rule, "route "+rt.pattern, "%s %s is registered %d times", rt.verb, rt.pattern, found[rt.pattern])
	}
	if c.ob(info != nil, rule, "info route", "no handler serves /api/v1/info") {
		c.infoDoc(x, s, info, serving.St, rule)
	}
}

func (c *C) gatewayMarshaler(x *X, mux *Term, rule string) {
	var opt *Event
	for _, a := range mux.args {
		if a.op == "ret" && a.ev != nil && strings.HasSuffix(a.ev.name, "runtime.WithMarshalerOption") {
			if k, ok := a.ev.args[0].StrVal(); ok && k == "*" {
				opt = a.ev
			}
		}
	}
	if !c.ob(opt != nil, rule, "marshaler for every MIME type", "the gateway mux has no marshaler for every MIME type") {
		return
	}
	m := stripIface(opt.args[1])
	ok := m.op == "alloc" && typeKey(derefType(m.typ)) == modPath+"/pkg/marshaler.PromqlMarshaler"
	if !c.ob(ok, rule, "PromQL marshaler", "the gateway mux does not use the PromQL marshaler") {
		return
	}
	fb := stripIface(x.LoadField(opt.mem, m, derefType(m.typ), "fallback"))
	t := x.NamedType("github.com/grpc-ecosystem/grpc-gateway/runtime", "JSONPb")
	for _, f := range []string{"OrigName", "EmitDefaults"} {
		good := false
		if fb.op == "alloc" {
			v, _ := x.LoadField(opt.mem, fb, t, f).BoolVal()
			good = v
		}
		c.ob(good, rule, "marshaler "+f, "the fallback marshaler is not set up with %s", f)
	}
}

func (c *C) routeHandler(x *X, T *Terms, rt *route, h *Term, st *State, rule string) {
	st = st.clone()
	st.trace = nil
	sig := h.fn.Signature
	var ps []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		p := x.symOf([]string{"w", "req", "pathParams", "p3"}[i%4], sig.Params().At(i).Type())
		ps = append(ps, p)
		if i < 2 {
			st.wfacts().Assume(T.Eq(p, T.Nil()), false)
		}
	}
	w, req, pp := ps[0], ps[1], ps[2]
	// the route's pattern matched: its parameters are there
	for _, name := range rt.params {
		st.wfacts().Assume(T.mk("has", "", types.Typ[types.Bool], pp, T.Str(name)), true)
	}
	okPaths, errPaths := 0, 0
	for _, o := range c.rets(x, x.CallTerm(h, ps, st), rule, rt.pattern) {
		what := rt.pattern
		f := o.St.facts
		var rpcs, fwds, errs, anns []*Event
		var pops []*Event
		for _, e := range o.evs {
			if !isExtCall(e) {
				continue
			}
			switch {
			case strings.HasSuffix(e.name, "grpc.ClientConn).Invoke"):
				rpcs = append(rpcs, e)
			case strings.HasSuffix(e.name, "runtime.ForwardResponseMessage") || e.name == "dynamic" && len(e.args) > 5 && strings.Contains(e.args[0].String(), "forward_"):
				fwds = append(fwds, e)
			case e.callee != nil && e.callee == x.errHandler || strings.HasSuffix(e.name, "runtime.HTTPError") || strings.HasSuffix(e.name, "runtime.DefaultHTTPError"):
				errs = append(errs, e)
			case strings.HasSuffix(e.name, "runtime.AnnotateContext"):
				anns = append(anns, e)
			case strings.HasSuffix(e.name, "runtime.PopulateQueryParameters"):
				pops = append(pops, e)
			}
		}
		_ = anns
		// answers: inlined error handler counts through its writes
		ws, _ := x.respWrites(o.evs, w)
		errAnswers := len(errs)
		c.ob(len(ws) == 0, rule, what+" direct answer", "%s writes an answer of its own: %s", what, x.pathStr(o))
		for _, e := range rpcs {
			conn := e.args[0]
			c.ob(conn.op == "ret" && conn.ev != nil && isDial(conn.ev), rule, what+" connection", "%s issues its RPC on %s, not on the connection to the log cache", what, conn)
			c.ob(x.reqCtx(e.args[1], req), rule, what+" context", "%s issues its RPC under a context that is not the request's: %s", what, x.pathStr(o))
			if n, ok := e.args[2].StrVal(); !c.ob(ok && n == rt.rpc, rule, what+" rpc", "%s calls %s, want %s", what, e.args[2], rt.rpc) {
				continue
			}
			in := stripIface(e.args[3])
			good := len(pops) == 1 && stripIface(pops[0].args[0]) == in
			if c.ob(good, rule, what+" query parameters", "%s does not take its parameters from the query string: %s", what, x.pathStr(o)) {
				p := pops[0]
				url := x.LoadField(p.mem, req, x.NamedType("net/http", "Request"), "URL")
				qok := p.args[1].op == "makemap" && len(p.args[1].args) == 1 && p.args[1].args[0] == url
				c.ob(qok, rule, what+" query source", "%s takes its parameters from %s", what, p.args[1])
				c.ob(x.isNil(f, p.res[0]) == 1, rule, what+" parameter error", "%s issues its RPC although its parameters are invalid: %s", what, x.pathStr(o))
				var keys []string
				if enc := x.filterKeys(p); enc != nil {
					keys = enc
				}
				sort.Strings(keys)
				c.ob(strings.Join(keys, ",") == strings.Join(rt.params, ","), rule, what+" parameter filter", "%s excludes %v from the query parameters, want %v", what, keys, rt.params)
				for _, name := range rt.params {
					v := x.LoadField(p.mem, in, derefType(in.typ), rt.field[name])
					lk := T.mk("lookup", "", types.Typ[types.String], pp, T.Str(name))
					okP := v.op == "ret" && v.ev != nil && strings.HasSuffix(v.ev.name, "runtime.String") && v.ev.args[0] == lk || v == lk
					c.ob(okP, rule, what+" path parameter "+name, "%s sends %s as %s", what, v, name)
					if okP && v != lk {
						c.ob(x.isNil(f, v.ev.res[1]) == 1, rule, what+" path parameter "+name, "%s issues its RPC although %s is invalid: %s", what, name, x.pathStr(o))
					}
				}
				after := false
				for _, d := range o.evs {
					if d == p {
						after = true
					}
					if d == e {
						break
					}
					if after && d.kind == EvStore && rootOf(d.addr) == in {
						c.ob(false, rule, what+" parameters kept", "%s overwrites a parameter after reading it: %s", what, x.where(d))
					}
				}
			}
		}
		c.ob(len(rpcs) <= 1, rule, what+" one rpc", "%s issues %d RPCs for one request", what, len(rpcs))
		if len(rpcs) == 0 {
			why := pick(o.evs, func(e *Event) bool {
				n := len(e.res)
				return n > 0 && isErrorType(e.res[n-1].typ) && x.isNil(f, e.res[n-1]) == -1
			})
			c.ob(len(why) > 0, rule, what+" refused", "%s refuses a request nothing is wrong with: %s", what, x.pathStr(o))
		}
		for _, e := range anns {
			c.ob(len(rpcs) == 0 || x.isNil(f, e.res[1]) == 1, rule, what+" annotation error", "%s issues its RPC although its request could not be annotated: %s", what, x.pathStr(o))
		}
		if len(rpcs) == 1 && x.isNil(f, rpcs[0].res[0]) == 1 {
			okPaths++
			good := len(fwds) == 1 && errAnswers == 0
			if good {
				out := stripIface(rpcs[0].args[4])
				has := false
				for _, a := range fwds[0].args {
					if stripIface(a) == out {
						has = true
					}
				}
				good = has
			}
			c.ob(good, rule, what+" reply", "%s does not forward the RPC's reply exactly once: %s", what, x.pathStr(o))
			continue
		}
		errPaths++
		c.ob(len(fwds) == 0 && errAnswers == 1, rule, what+" error", "%s does not answer a failed request with exactly one error (%d errors, %d replies): %s", what, errAnswers, len(fwds), x.pathStr(o))
	}
	c.need(okPaths, 1, rule, rt.pattern+" success paths")
	c.need(errPaths, 2, rule, rt.pattern+" failure paths")
}

// reqCtx: t is derived from req.Context().
func (x *X) reqCtx(t, req *Term) bool {
	for i := 0; i < 12 && t != nil; i++ {
		t = stripIface(t)
		if t.op == "ret" && t.ev != nil && t.ev.name == "(*net/http.Request).Context" {
			return t.ev.args[0] == req
		}
		if t.op == "ctxof" {
			return t.args[0] == req
		}
		if t.op == "ret" && t.ev != nil {
			var n *Term
			for _, a := range t.ev.args {
				if a.op == "ctxof" || a.typ != nil && strings.HasSuffix(typeKey(a.typ), "context.Context") {
					n = a
					break
				}
			}
			t = n
			continue
		}
		if len(t.args) > 0 && (strings.HasPrefix(t.op, "ctx") || t.op == "pure" || t.op == "errval" || t.op == "newobj") {
			t = t.args[0]
			continue
		}
		return false
	}
	return false
}

// filterKeys: the parameters a filter keeps from being read off the query
// string, by the library's own reading of its double array.
func (x *X) filterKeys(p *Event) []string {
	fl := stripIface(p.args[2])
	t := x.NamedType("github.com/grpc-ecosystem/grpc-gateway/utilities", "DoubleArray")
	ms := []*Mem{p.mem}
	for _, gi := range x.globCache {
		if gi.mem != nil {
			ms = append(ms, gi.mem)
		}
	}
	was := x.initMut[fl]
	delete(x.initMut, fl)
	defer func() {
		if was {
			x.initMut[fl] = true
		}
	}()
	for _, m := range ms {
		enc := x.LoadField(m, fl, t, "Encoding")
		if enc.op != "makemap" {
			continue
		}
		wm := x.initMut[enc]
		delete(x.initMut, enc)
		ks := x.mapKeys(m, enc)
		code := map[string]int64{}
		for _, k := range ks {
			v, ok := m.m[x.T.mk("mapelem", "", types.Typ[types.Int], enc, x.T.Str(k))]
			if !ok {
				for kk, e := range m.m {
					if kk.op == "mapelem" && kk.args[0] == enc && kk.args[1] == x.T.Str(k) {
						v, ok = e, true
					}
				}
			}
			n, isInt := int64(0), false
			if ok {
				n, isInt = v.IntVal()
			}
			if !isInt {
				return []string{"?"}
			}
			code[k] = n
		}
		if wm {
			x.initMut[enc] = true
		}
		ints := func(name string) ([]int64, bool) {
			v := x.LoadField(m, fl, t, name)
			if v.IsNil() || v.op == "zero" {
				return nil, true
			}
			root := rootOf(v)
			wr := x.initMut[root]
			delete(x.initMut, root)
			es, ok := x.elems(m, v)
			if wr {
				x.initMut[root] = true
			}
			var r []int64
			for _, e := range es {
				n, isInt := e.IntVal()
				ok = ok && isInt
				r = append(r, n)
			}
			return r, ok
		}
		base, ok1 := ints("Base")
		check, ok2 := ints("Check")
		if !ok1 || !ok2 {
			return []string{"?"}
		}
		var out []string
		for _, k := range ks {
			switch hasCommonPrefix(code, base, check, []string{k}) {
			case 1:
				out = append(out, k)
			case -1:
				return []string{"a panic"}
			}
		}
		switch hasCommonPrefix(code, base, check, []string{"any other"}) {
		case 1:
			return []string{"everything"}
		case -1:
			return []string{"a panic"}
		}
		return out
	}
	return []string{"?"}
}

// hasCommonPrefix is utilities.DoubleArray's; -1 where it would panic.
func hasCommonPrefix(code map[string]int64, base, check []int64, seq []string) int {
	if len(base) == 0 {
		return 0
	}
	i := int64(0)
	for _, t := range seq {
		n, ok := code[t]
		if !ok {
			break
		}
		if i >= int64(len(base)) {
			return -1
		}
		j := base[i] + n
		if j < 0 {
			return -1
		}
		if int64(len(check)) <= j || check[j] != i+1 {
			break
		}
		i = j
	}
	if i >= int64(len(base)) {
		return -1
	}
	j := base[i] + int64(len(code))
	if j < 0 {
		return -1
	}
	if int64(len(check)) <= j || check[j] != i+1 {
		return 0
	}
	return 1
}

// infoDoc: {"version":"<version>","vm_uptime":"<seconds>"}, for the gateway
// as it starts and for a given uptime function.
func (c *C) infoDoc(x *X, s *gatewayScn, h *Term, st *State, rule string) {
	gt := x.NamedType(modPath+"/internal/gateway", "Gateway")
	run := func(what string, st *State, isUp func(t *Term) bool) {
		st = st.clone()
		st.trace = nil
		sig := h.fn.Signature
		w, r := x.symOf("w", sig.Params().At(0).Type()), x.symOf("r", sig.Params().At(1).Type())
		ver := x.LoadField(st.mem, s.g, gt, "logCacheVersion")
		n := 0
		for _, o := range x.CallTerm(h, []*Term{w, r}, st) {
			if !c.ob(!o.Panic, rule, "info panic", "the info endpoint panics (%s): %s", what, x.pathStr(o)) {
				continue
			}
			if len(pick(o.evs, func(e *Event) bool { return e.name == "encoding/json.Marshal" && x.isNil(o.St.facts, e.res[1]) == -1 })) > 0 {
				continue // strings and numbers can be marshalled
			}
			n++
			ws, _ := x.respWrites(o.evs, w)
			var body *Term
			for _, e := range ws {
				if e.status != nil {
					v, _ := e.status.IntVal()
					c.ob(v == 200, rule, "info status", "the info endpoint answers with status %s", e.status)
					continue
				}
				c.ob(body == nil, rule, "info body once", "the info endpoint writes more than one body")
				body = e.body
			}
			if !c.ob(body != nil, rule, "info body", "the info endpoint writes nothing") {
				continue
			}
			why := x.infoText(stripConv(body), ver, isUp)
			c.ob(why == "", rule, "info document", "info endpoint (%s): %s", what, why)
		}
		c.need(n, 1, rule, "info paths ("+what+")")
	}
	// by default, what the machine reports, as it is
	def := x.LoadField(s.st0.mem, s.g, gt, "uptimeFn")
	if c.ob(def.op == "closure" || def.op == "func", rule, "default uptime", "the uptime function is %s unless one is given", def) {
		for _, o := range x.CallTerm(def, nil, s.st0.clone()) {
			t := x.T.Nil()
			if len(o.Vals) == 1 {
				t = stripConv(o.Vals[0])
			}
			if t.op == "init" && fieldName(t.args[0]) == "Uptime" {
				t = t.args[0].args[0]
			}
			c.ob(t.op == "ret" && strings.Contains(t.ev.name, "gopsutil"), rule, "default uptime", "the uptime is %v, want what the machine reports: %s", o.Vals, x.pathStr(o))
		}
	}
	up := x.FieldNamed(s.g, gt, "uptimeFn")
	st2 := st.clone()
	f := x.symOf("uptimeFn", derefType(up.typ))
	st2.wfacts().Assume(x.T.Eq(f, x.T.Nil()), false)
	x.storeMem(st2.wmem(), up, f, f.typ)
	run("given uptime function", st2, func(t *Term) bool {
		return t.op == "ret" && t.ev.name == "dynamic" && t.ev.args[0] == f
	})
	// the options set what is reported
	for _, opt := range []struct{ name, field string }{{"WithGatewayVersion", "logCacheVersion"}, {"WithGatewayVMUptimeFn", "uptimeFn"}, {"WithGatewayLogger", "log"}} {
		var arg *Term
		g := c.newGateway(gwOpt(opt.name, func(x *X) []*Term {
			ps := x.params(x.Fn("internal/gateway", "", opt.name))
			arg = ps[0]
			return ps
		}))
		v := g.x.LoadField(g.st0.mem, g.g, g.x.NamedType(modPath+"/internal/gateway", "Gateway"), opt.field)
		c.ob(v == arg, rule, "option "+opt.name, "%s leaves %s = %s", opt.name, opt.field, v)
	}
}

// decimalOf: the decimal digits of a number is accepts.
func decimalOf(t *Term, is func(t *Term) bool) bool {
	if len(t.args) == 0 {
		return false
	}
	switch t.op {
	case "itoa":
		return is(stripConv(t.args[0]))
	case "pure":
		if t.sym == "strconv.FormatInt" || t.sym == "strconv.FormatUint" {
			k, ok := t.args[1].IntVal()
			return ok && k == 10 && is(stripConv(t.args[0]))
		}
		return t.sym == "fmt.Sprint" && len(t.args) == 1 && is(stripConv(stripIface(t.args[0])))
	}
	return false
}

func (x *X) infoText(b, ver *Term, isUp func(t *Term) bool) string {
	if a, m, f, ok := x.marshalled(b); ok {
		j := x.jsonOf(m, f, a)
		v, u := j.key("version"), j.key("vm_uptime")
		if v == nil || v.v != ver {
			return "no version member with the configured version"
		}
		if u == nil || u.v == nil || !isStringType(u.v.typ) {
			return "no vm_uptime string"
		}
		if !decimalOf(u.v, isUp) {
			return "vm_uptime is " + u.v.String()
		}
		return ""
	}
	parts := []*Term{b}
	if b.op == "concat" {
		parts = b.args
	}
	// replace symbolic parts by digits and check the JSON text
	var sb strings.Builder
	var syms []*Term
	for _, p := range parts {
		if s, ok := p.StrVal(); ok {
			sb.WriteString(s)
		} else {
			sb.WriteString(fmt.Sprintf("SYM%dSYM", len(syms)))
			syms = append(syms, p)
		}
	}
	var doc map[string]interface{}
	if err := json.Unmarshal([]byte(sb.String()), &doc); err != nil {
		return "not a JSON document: " + sb.String()
	}
	is := func(k string, p func(t *Term) bool) bool {
		v, ok := doc[k].(string)
		if !ok {
			return false
		}
		for i, t := range syms {
			if v == fmt.Sprintf("SYM%dSYM", i) {
				return p(t)
			}
		}
		return false
	}
	if !is("version", func(t *Term) bool { return t == ver }) {
		return "the version member is not the configured version: " + sb.String()
	}
	if !is("vm_uptime", func(t *Term) bool { return decimalOf(t, isUp) }) {
		return "vm_uptime is not the uptime: " + sb.String()
	}
	return ""
}
