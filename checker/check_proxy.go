package main

import (
	"fmt"
	"go/types"
	"strings"
	"text/template/parse"
)

func init() {
	register("C29", "Everything the proxy serves passes its authorisation, over verified TLS",
		"Path-partitioned dataflow over cmd/cf-auth-proxy as a whole: every serving call site, the handler it serves (executed for an arbitrary request), the components the authorisation is built from, and the TLS settings of every client, followed back to the configuration.", checkC29)
	register("C30", "Every proxied request is logged once, on one line, before it is handled",
		"Path-partitioned dataflow over the access middleware for an arbitrary request and log state: number and order of writes, provenance of every recorded value, and the record's template read from the source.", checkC30)
}

// caPool: pool holds exactly the certificates of the file named by env.
func (s *mainScn) caPool(o *Outcome, pool *Term, env string) bool {
	return s.x.poolOf(o, pool, func(t *Term) bool { return s.envName(t) == env })
}

// poolOf: pool is a fresh one that holds exactly the certificates of the file.
func (x *X) poolOf(o *Outcome, pool *Term, file func(*Term) bool) bool {
	if pool == nil || pool.op != "alloc" && (pool.ev == nil || pool.ev.name != "crypto/x509.NewCertPool") {
		return false
	}
	good, bad := false, false
	allEvents(o.evs, func(d *Event) {
		if !isExtCall(d) || len(d.args) < 2 || d.args[0] != pool || !strings.Contains(d.name, "CertPool).A") {
			return
		}
		b := d.args[1]
		if strings.HasSuffix(d.name, "AppendCertsFromPEM") && b.op == "ret" && b.ev != nil && (b.ev.name == "io/ioutil.ReadFile" || b.ev.name == "os.ReadFile") && file(b.ev.args[0]) &&
			x.isNil(o.St.facts, b.ev.res[1]) == 1 && o.St.facts.Eval(d.res[0]) == 1 {
			good = true
			return
		}
		bad = true
	})
	return good && !bad
}

// transport: the TLS settings of an HTTP transport.
func (s *mainScn) transport(c *C, o *Outcome, m *Mem, t *Term, rule, what, ca, name string) {
	x := s.x
	t = stripIface(t)
	if !c.ob(t.op == "alloc" && derefType(t.typ).String() == "net/http.Transport", rule, what+" transport", "%s: requests go through %s, not through a transport of its own", what, t) {
		return
	}
	cfg := stripIface(x.LoadField(m, t, x.NamedType("net/http", "Transport"), "TLSClientConfig"))
	if !c.ob(cfg.op == "alloc", rule, what+" TLS", "%s: the transport's TLS settings are %s", what, cfg) {
		return
	}
	ct := x.NamedType("crypto/tls", "Config")
	c.ob(s.caPool(o, x.LoadField(m, cfg, ct, "RootCAs"), ca), rule, what+" CA", "%s: peers are not verified against the certificates of %s: %s", what, ca, x.pathStr(o))
	sn := x.LoadField(m, cfg, ct, "ServerName")
	if name == "" {
		n, ok := sn.StrVal()
		c.ob(ok && n == "", rule, what+" peer name", "%s: the peer is expected to be %s", what, sn)
	} else {
		c.ob(s.envName(sn) == name, rule, what+" peer name", "%s: the peer is expected to be %s, not %s", what, sn, name)
	}
	c.ob(x.tlsFloor(m, cfg), rule, what+" minimum version", "%s: TLS below 1.2 is accepted", what)
	for _, f := range []string{"DialTLS", "DialTLSContext"} {
		c.ob(x.LoadField(m, t, x.NamedType("net/http", "Transport"), f).IsNil(), rule, what+" TLS", "%s: the transport replaces the TLS handshake", what)
	}
}

// httpClient: an HTTP client with its own verified transport.
func (s *mainScn) httpClient(c *C, o *Outcome, m *Mem, cl *Term, rule, what, ca, name string) {
	x := s.x
	cl = stripIface(cl)
	if !c.ob(cl.op == "alloc" && derefType(cl.typ).String() == "net/http.Client", rule, what+" client", "%s: requests go through %s", what, cl) {
		return
	}
	ht := x.NamedType("net/http", "Client")
	n, ok := x.LoadField(m, cl, ht, "Timeout").IntVal()
	c.ob(ok && n > 0, rule, what+" timeout", "%s: requests are not bounded in time", what)
	tr := x.LoadField(m, cl, ht, "Transport")
	s.transport(c, o, m, tr, rule, what, ca, name)
	if what != "meta" {
		c.ob(x.skips(o, m, tr, func(t *Term) bool { return s.envName(settled(o.evs, t)) == "SKIP_CERT_VERIFY" }), rule, what+" verification", "%s: whether its certificate is verified is not what SKIP_CERT_VERIFY says: %s", what, x.pathStr(o))
	}
}

// skips: the HTTP transport tr leaves verification out exactly when the
// setting says so.
func (x *X) skips(o *Outcome, m *Mem, tr *Term, setting func(t *Term) bool) bool {
	b := x.T.Bool(false)
	if tr = stripIface(tr); tr.op == "alloc" && derefType(tr.typ).String() == "net/http.Transport" {
		if cfg := stripIface(x.LoadField(m, tr, x.NamedType("net/http", "Transport"), "TLSClientConfig")); cfg.op == "alloc" {
			b = x.LoadField(m, cfg, x.NamedType("crypto/tls", "Config"), "InsecureSkipVerify")
		}
	}
	if setting(b) {
		return true
	}
	v, ok := b.BoolVal()
	found := false
	o.St.facts.each(func(t *Term, w bool) {
		found = found || setting(t) && v == w
	})
	return ok && found
}

// gatewayURL: t is the configured gateway's address with the https scheme.
func (s *mainScn) gatewayAddr(t *Term, depth int) bool {
	x := s.x
	t = stripIface(t)
	ut := x.NamedType("net/url", "URL")
	if depth > 4 {
		return false
	}
	if t.ev != nil && t.ev.name == "(*net/url.URL).String" {
		u := t.ev.args[0]
		sc, _ := x.LoadField(t.ev.mem, u, ut, "Scheme").StrVal()
		if u.op != "newobj" || len(u.args) != 1 {
			return false
		}
		for _, f := range []string{"Host", "Path", "RawQuery"} {
			if v := x.LoadField(t.ev.mem, u, ut, f); v.op != "init" {
				return false
			}
		}
		return sc == "https" && s.envName(u.args[0]) == "LOG_CACHE_GATEWAY_ADDR" || s.gatewayAddr(u.args[0], depth+1)
	}
	if t.op == "newobj" && len(t.args) == 1 && t.ev != nil && t.ev.name == "net/url.Parse" {
		return s.gatewayAddr(t.args[0], depth+1)
	}
	return false
}

func checkC29(c *C) {
	const rule = "proxy wiring"
	mw := "(" + authPkg + ".CFAuthMiddlewareProvider).Middleware"
	refresh := "(*" + authPkg + ".UAAClient).RefreshTokenKeys"
	s := c.newMainWith("cf-auth-proxy", mw, refresh)
	x := s.x
	s.mainRules(c, rule)
	if s.load == nil {
		return
	}
	serves, listens, health, logged, unlogged, refused := 0, 0, 0, 0, 0, 0
	for _, o := range s.outs {
		if x.isNil(o.St.facts, s.load.res[0]) != 1 {
			continue
		}
		var rf *Event
		allEvents(o.evs, func(e *Event) {
			if isExtCall(e) && e.name == refresh && rf == nil {
				rf = e
			}
		})
		if rf != nil && x.isNil(o.St.facts, rf.res[0]) == -1 {
			refused++
			bad := ""
			allEvents(o.evs, func(e *Event) {
				if isServe(e) || isListen(e) {
					bad = x.where(e)
				}
			})
			c.ob(o.Panic && bad == "", rule, "no keys", "the proxy carries on without the keys of its UAA (%s): %s", bad, x.pathStr(o))
			continue
		}
		lis := map[*Term]bool{}
		allEvents(o.evs, func(e *Event) {
			if isListen(e) {
				listens++
				lis[e.res[0]] = true
				c.ob(s.envName(settled(o.evs, e.args[1])) == "ADDR", rule, "listen address", "the proxy listens on %s, want the configured ADDR", e.args[1])
				c.ob(rf != nil && x.isNil(e.facts, rf.res[0]) == 1, rule, "no keys", "the proxy listens before it has the keys of its UAA, in %s", x.where(e))
			}
		})
		judge := func(so *Outcome) {
			for _, e := range so.evs {
				if !isServe(e) || strings.HasSuffix(e.name, "ListenAndServe") && (strings.HasPrefix(e.name, "net/http.") && stripIface(e.args[1]).IsNil()) {
					continue
				}
				serves++
				if !c.ob(strings.HasSuffix(e.name, "Server).ServeTLS"), rule, "plaintext", "the proxy serves with %s in %s", e.name, x.where(e)) {
					continue
				}
				c.ob(lis[settled(o.evs, e.args[1])], rule, "listener", "the proxy serves on %s", e.args[1])
				c.ob(s.envName(settled(o.evs, e.args[2])) == "EXTERNAL_CERT" && s.envName(settled(o.evs, e.args[3])) == "EXTERNAL_KEY", rule, "server certificate", "the proxy serves with certificate %s and key %s", e.args[2], e.args[3])
				st := x.NamedType("net/http", "Server")
				cfg := stripIface(x.LoadField(e.mem, e.args[0], st, "TLSConfig"))
				c.ob(x.tlsFloor(e.mem, cfg), rule, "server TLS", "the proxy serves TLS below 1.2: %s", cfg)
				if b, ok := x.proxied(s, c, o, so, e, rf, mw, rule); ok {
					if b {
						logged++
					} else {
						unlogged++
					}
				}
			}
		}
		judge(o)
		subPaths(o.evs, judge)
		c.endsWithServer(x, o, rule, "the proxy")
		subPaths(o.evs, func(so *Outcome) { c.endsWithServer(x, so, rule, "the proxy") })
		c.healthOnLocalhost(s, o, rule, &health)
	}
	c.need(serves, 2, rule, "serving paths")
	c.need(listens, 1, rule, "listeners")
	c.need(health, 1, rule, "health endpoints")
	c.need(refused, 1, rule, "paths without keys")
	c.need(logged, 1, rule, "serving paths with an access log")
	c.need(unlogged, 1, rule, "serving paths without an access log")
}

// proxied judges the handler of a serving call; it reports whether requests
// are logged.
func (x *X) proxied(s *mainScn, c *C, o, so *Outcome, e, rf *Event, mw, rule string) (logged, ok bool) {
	h := x.LoadField(e.mem, e.args[0], x.NamedType("net/http", "Server"), "Handler")
	st := so.St.clone()
	st.trace = nil
	if stripIface(h).typ == nil {
		return false, c.ob(false, rule, "handler", "the served handler is %s", h)
	}
	var mwEv *Event
	allEvents(o.evs, func(d *Event) {
		if isExtCall(d) && d.name == mw {
			mwEv = d
		}
	})
	if !c.ob(mwEv != nil, rule, "authorisation", "the proxy serves without its authorisation: %s", x.pathStr(o)) {
		return false, false
	}
	w := x.symOf("rw", x.NamedType("net/http", "ResponseWriter"))
	r := x.symOf("req", types.NewPointer(x.NamedType("net/http", "Request")))
	st.wfacts().Assume(x.T.Eq(r, x.T.Nil()), false)
	st.wfacts().Assume(x.T.Eq(w, x.T.Nil()), false)
	var outs []*Outcome
	if stripIface(h) == mwEv.res[0] {
		outs = []*Outcome{{St: st}}
	} else {
		outs = x.CallMethod(h, "ServeHTTP", []*Term{w, r}, st)
	}
	// whether this path configured the log
	env := -1
	so.St.facts.each(func(t *Term, v bool) {
		if t.op == "eq" && derivesEnv(s, t, "SECURITY_EVENT_LOG") && !v {
			env = 1
		}
	})
	n := 0
	for _, ho := range outs {
		if ho.Panic {
			c.ob(ho.PKind != "exit", rule, "exit", "a request can end the process: %s", x.pathStr(ho))
			continue
		}
		n++
		fwd := 0
		writes := 0
		if stripIface(h) == mwEv.res[0] {
			fwd = 1
		}
		for _, d := range ho.evs {
			if methodIs(d, "ServeHTTP") && isExtCall(d) {
				fwd++
				c.ob(stripIface(d.args[0]) == mwEv.res[0], rule, "bypass", "a request is handled by %s, not by the authorisation, in %s", d.args[0], x.where(d))
				c.ob(d.args[1] == w && d.args[2] == r, rule, "request", "the authorisation gets another request than the one received, in %s", x.where(d))
			}
			for _, a := range d.args {
				a = stripIface(a)
				if !isExtCall(d) || a.ev == nil || a.ev.name != "os.OpenFile" {
					continue
				}
				if ws, _ := x.respWrites([]*Event{d}, a); len(ws) > 0 || strings.Contains(d.name, ").Write") {
					writes++
					of := a.ev
					fl, fok := of.args[1].IntVal()
					// O_APPEND, not read-only, no O_TRUNC
					c.ob(s.envName(of.args[0]) == "SECURITY_EVENT_LOG" && fok && fl&0x400 != 0 && fl&3 != 0 && fl&0x200 == 0 && fl&0x40 != 0, rule, "log file", "the access log is %s with flags %#x, want the configured file, appended", of.args[0], fl)
					c.ob(fwd == 0, rule, "order", "a request is logged after it was handled, in %s", x.where(d))
				}
			}
		}
		c.ob(fwd == 1, rule, "handled once", "a request reaches the authorisation %d times: %s", fwd, x.pathStr(ho))
		c.ob(writes == 1 || env != 1, rule, "logged", "a request is logged %d times although an access log is configured: %s", writes, x.pathStr(ho))
		logged = logged || writes > 0
	}
	c.ob(n > 0, rule, "handled", "no request is handled")
	// what the authorisation is built from
	pt := x.NamedType(authPkg, "CFAuthMiddlewareProvider")
	p := mwEv.args[0]
	tr, la, mf, ex, tl := stripIface(x.FieldVal(p, pt, "oauth2Reader")), stripIface(x.FieldVal(p, pt, "logAuthorizer")), stripIface(x.FieldVal(p, pt, "metaFetcher")), stripIface(x.FieldVal(p, pt, "promQLSourceIdExtractor")), stripIface(x.FieldVal(p, pt, "appNameTranslator"))
	c.ob(tr.op == "alloc" && tr == rf.args[0], rule, "token reader", "tokens are validated by %s, not by the UAA client that fetched its keys", tr)
	c.ob(la.op == "alloc" && la == tl, rule, "authorizer", "source ids are authorised by %s and translated by %s", la, tl)
	c.ob(ex.fn != nil && fnName(ex.fn) == modPath+"/internal/promql.ExtractSourceIds", rule, "extractor", "source ids are extracted by %s", ex)
	ut := x.NamedType(authPkg, "UAAClient")
	if tr.op == "alloc" {
		s.httpClient(c, o, rf.mem, x.LoadField(rf.mem, tr, ut, "httpClient"), rule, "UAA", "UAA_CA_PATH", "")
		u := x.LoadField(rf.mem, tr, ut, "uaa")
		c.ob(u.op == "newobj" && len(u.args) == 1 && s.envName(u.args[0]) == "UAA_ADDR", rule, "UAA address", "the UAA is %s", u)
	}
	if la.op == "alloc" {
		ct := x.NamedType(authPkg, "CAPIClient")
		s.httpClient(c, o, mwEv.mem, x.LoadField(mwEv.mem, la, ct, "client"), rule, "CAPI", "CAPI_CA_PATH", "CAPI_COMMON_NAME")
		for f, env := range map[string]string{"addr": "CAPI_ADDR", "tokenPruningInterval": "TOKEN_PRUNING_INTERVAL", "cacheExpirationInterval": "CACHE_EXPIRATION_INTERVAL"} {
			v := x.LoadField(mwEv.mem, la, ct, f)
			c.ob(s.envName(settled(o.evs, v)) == env, rule, "CAPI "+f, "the CAPI client's %s is %s, not the configured %s", f, v, env)
		}
	}
	if c.ob(mf.op == "alloc", rule, "meta fetcher", "meta is fetched by %s", mf) {
		ct := x.NamedType(modPath+"/pkg/client", "Client")
		s.httpClient(c, o, mwEv.mem, x.LoadField(mwEv.mem, mf, ct, "httpClient"), rule, "meta", "PROXY_CA_PATH", "")
		a := x.LoadField(mwEv.mem, mf, ct, "addr")
		c.ob(s.gatewayAddr(a, 0), rule, "meta address", "meta is fetched from %s, not from the configured gateway over https", a)
	}
	// what is proxied
	rp := stripIface(mwEv.args[1])
	if c.ob(rp.ev != nil && rp.ev.name == "net/http/httputil.NewSingleHostReverseProxy", rule, "proxied", "authorised requests are handled by %s", rp) {
		c.ob(s.gatewayAddr(rp.ev.args[0], 0), rule, "gateway address", "requests are proxied to %s, not to the configured gateway over https", rp.ev.args[0])
		rt := x.NamedType("net/http/httputil", "ReverseProxy")
		s.transport(c, o, mwEv.mem, x.LoadField(mwEv.mem, rp, rt, "Transport"), rule, "gateway", "PROXY_CA_PATH", "")
		for _, f := range []string{"Director", "Rewrite", "ModifyResponse", "ErrorHandler"} {
			v := x.LoadField(mwEv.mem, rp, rt, f)
			c.ob(v.op == "init" || v.IsNil(), rule, "proxied", "the reverse proxy's %s is replaced by %s", f, v)
		}
	}
	return logged, true
}

// foldText: the text of a constant expression over known slices, or "".
func (x *X) foldText(m *Mem, t *Term) (string, bool) {
	t = stripConv(t)
	if s, ok := t.StrVal(); ok {
		return s, true
	}
	switch {
	case t.op == "concat":
		out := ""
		for _, a := range t.args {
			s, ok := x.foldText(m, a)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	case t.op == "pure" && t.sym == "strings.Join" && len(t.args) == 2:
		es, ok := x.elems(m, t.args[0])
		sep, ok2 := x.foldText(m, t.args[1])
		if !ok || !ok2 {
			return "", false
		}
		var ss []string
		for _, e := range es {
			s, ok := x.foldText(m, e)
			if !ok {
				return "", false
			}
			ss = append(ss, s)
		}
		return strings.Join(ss, sep), true
	}
	return "", false
}

// rendered expands executions of known templates within a text.
func (x *X) rendered(t *Term, globs map[string]*Term, gm *Mem) []*Term {
	t = stripConv(t)
	switch {
	case t.op == "concat":
		var out []*Term
		for _, a := range t.args {
			out = append(out, x.rendered(a, globs, gm)...)
		}
		return out
	case t.op == "append": // bytes appended to a text
		out := x.rendered(t.args[0], globs, gm)
		for _, a := range t.args[1:] {
			n, ok := a.IntVal()
			if !ok || n < 0 || n > 127 {
				return []*Term{t}
			}
			out = append(out, x.T.Str(string(rune(n))))
		}
		return out
	case t.op == "appendall":
		return append(x.rendered(t.args[0], globs, gm), x.rendered(t.args[1], globs, gm)...)
	case t.op == "written" && strings.HasSuffix(t.sym, "/template.Template).Execute") && len(t.args) == 3:
		tm := t.args[0]
		if tm.op == "init" && tm.args[0].op == "global" {
			tm = globs[tm.args[0].sym]
		}
		for i := 0; i < 3 && tm != nil && tm.ev != nil && strings.HasSuffix(tm.ev.name, "template.Must"); i++ {
			tm = tm.ev.args[0]
		}
		if tm == nil || tm.ev == nil || !strings.HasSuffix(tm.ev.name, "/template.Template).Parse") {
			return []*Term{t}
		}
		src, ok := x.foldText(tm.ev.mem, tm.ev.args[1])
		if !ok {
			return []*Term{t}
		}
		data := stripIface(t.args[2])
		tr, err := parse.Parse("t", src, "", "", nil)
		if err != nil || tr["t"] == nil {
			return []*Term{t}
		}
		var out []*Term
		for _, n := range tr["t"].Root.Nodes {
			switch n := n.(type) {
			case *parse.TextNode:
				out = append(out, x.T.Str(string(n.Text)))
			case *parse.ActionNode:
				var v *Term
				if len(n.Pipe.Cmds) == 1 && len(n.Pipe.Decl) == 0 && len(n.Pipe.Cmds[0].Args) == 1 {
					if f, ok := n.Pipe.Cmds[0].Args[0].(*parse.FieldNode); ok && len(f.Ident) == 1 && data.typ != nil && structOf(data.typ) != nil {
						v = x.FieldVal(data, data.typ, f.Ident[0])
					}
				}
				if v == nil {
					return []*Term{t}
				}
				out = append(out, x.rendered(v, globs, gm)...)
			default:
				return []*Term{t}
			}
		}
		return out
	}
	return []*Term{t}
}

func checkC30(c *C) {
	const rule = "access log"
	x := c.newX()
	T := x.T
	globs, gm := x.pkgGlobals("internal/auth")
	st := x.newState()
	al := x.Fn("internal/auth", "", "NewAccessLogger")
	mwf := x.Fn("internal/auth", "", "NewAccessMiddleware")
	wr := x.symOf("writer", al.Params[0].Type())
	host, port := x.symOf("host", types.Typ[types.String]), x.symOf("port", types.Typ[types.String])
	hd := x.symOf("handler", x.NamedType("net/http", "Handler"))
	w := x.symOf("rw", x.NamedType("net/http", "ResponseWriter"))
	r := x.symOf("req", types.NewPointer(x.NamedType("net/http", "Request")))
	rt := x.NamedType("net/http", "Request")
	ut := x.NamedType("net/url", "URL")
	for _, t := range []*Term{wr, hd, w, r, x.LoadField(st.mem, r, rt, "URL"), x.LoadField(st.mem, r, rt, "Header")} {
		st.wfacts().Assume(T.Eq(t, T.Nil()), false)
	}
	for g, v := range globs { // templates that parsed
		if v != nil && v.ev != nil && strings.Contains(v.ev.name, "/template.") {
			st.wfacts().Assume(T.Eq(x.loadMem(st.mem, T.mk("global", g, types.NewPointer(v.typ)), v.typ), T.Nil()), false)
		}
	}
	o1 := x.single(x.Root(al, st, []*Term{wr}, nil), "NewAccessLogger")
	lg := x.iface(o1.Vals[0], al.Signature.Results().At(0).Type())
	o2 := x.single(x.Root(mwf, o1.St, []*Term{lg, host, port}, nil), "NewAccessMiddleware")
	o3 := x.single(x.CallTerm(o2.Vals[0], []*Term{hd}, o2.St), "the access middleware")
	url := x.LoadField(st.mem, r, rt, "URL")
	raw := x.LoadField(st.mem, url, ut, "RawQuery")
	hdr := x.LoadField(st.mem, r, rt, "Header")
	method := x.LoadField(st.mem, r, rt, "Method")
	remote := x.LoadField(st.mem, r, rt, "RemoteAddr")
	uri := x.LoadField(st.mem, r, rt, "RequestURI")
	fst := o3.St.clone()
	fst.trace = nil
	n, withQ, noQ, fwdFor, direct := 0, 0, 0, 0, 0
	for _, o := range x.CallMethod(o3.Vals[0], "ServeHTTP", []*Term{w, r}, fst) {
		f := o.St.facts
		c.ob(!o.Panic, rule, "crash", "logging a request can end its handling: %s", x.pathStr(o))
		if o.Panic {
			continue
		}
		for _, e := range o.evs {
			if e.kind == EvMay {
				c.ob(false, rule, "crash", "logging a request can crash (%s of %s in %s)", e.name, e.val, x.where(e))
			}
		}
		ws, _ := x.respWrites(o.evs, wr)
		served := 0
		last := -1
		for i, e := range o.evs {
			if isExtCall(e) && methodIs(e, "ServeHTTP") {
				served++
				c.ob(e.args[0] == hd && e.args[1] == w && e.args[2] == r, rule, "handled", "the request is not handed on as it came, in %s", x.where(e))
				last = i
			}
		}
		c.ob(served == 1, rule, "handled", "a request is handled %d times: %s", served, x.pathStr(o))
		if !c.ob(len(ws) == 1 && ws[0].body != nil, rule, "logged once", "a request is logged in %d writes: %s", len(ws), x.pathStr(o)) {
			continue
		}
		for i, e := range o.evs {
			if e == ws[0].ev {
				c.ob(i < last, rule, "order", "a request is logged after it was handled: %s", x.pathStr(o))
			}
		}
		// a record that could not be rendered
		lost := false
		for _, e := range o.evs {
			if isExtCall(e) && strings.HasSuffix(e.name, "/template.Template).Execute") && x.isNil(f, e.res[0]) == -1 {
				lost = true
			}
		}
		if lost {
			continue
		}
		n++
		parts := x.T.Concat(x.rendered(ws[0].body, globs, gm)...)
		var ps []*Term
		if parts.op == "concat" {
			ps = parts.args
		} else {
			ps = []*Term{parts}
		}
		// expected values
		q := f.Eval(T.Eq(T.Len(raw), T.Int(0)))
		isPath := func(t []*Term) int { // number of parts consumed
			if len(t) == 0 {
				return 0
			}
			if t[0] == uri || t[0].op == "ret" && t[0].ev != nil && t[0].ev.name == "(*net/url.URL).RequestURI" && t[0].ev.args[0] == url {
				return 1
			}
			esc := t[0].op == "ret" && t[0].ev != nil && t[0].ev.name == "(*net/url.URL).EscapedPath" && t[0].ev.args[0] == url
			if !esc {
				return 0
			}
			if q == 1 {
				noQ++
				return 1
			}
			if len(t) >= 3 && q == -1 && t[2] == raw {
				if s, _ := t[1].StrVal(); s == "?" {
					withQ++
					return 3
				}
			}
			return 0
		}
		one := func(ok func(*Term) bool) func(t []*Term) int {
			return func(t []*Term) int {
				if len(t) > 0 && ok(t[0]) {
					return 1
				}
				return 0
			}
		}
		is := func(v *Term) func(t []*Term) int { return one(func(t *Term) bool { return t == v }) }
		rid := func(t *Term) bool { return headerVal(t, hdr, "X-Vcap-Request-Id") }
		wantHost, wantPort := x.clientAddr(o, f, hdr, remote, &fwdFor, &direct)
		type field struct {
			label string
			val   func(t []*Term) int
			empty bool
		}
		want := []field{
			{"CEF:0|cloud_foundry|log_cache|1.0|", is(method), false},
			{" ", isPath, false},
			{"|", is(method), false},
			{" ", isPath, false},
			{"|0|rt=", one(func(t *Term) bool {
				return (t.op == "/" && len(t.args) == 2 && t.args[0].op == "pure" && strings.HasSuffix(t.args[0].sym, "UnixNano") && isNow(t.args[0].args[0]) && isMillion(t.args[1])) ||
					t.op == "pure" && strings.HasSuffix(t.sym, "UnixMilli") && isNow(t.args[0])
			}), false},
			{" cs1Label=userAuthenticationMechanism cs1=oauth-access-token cs2Label=vcapRequestId cs2=", one(rid), x.hasHeader(f, hdr, "X-Vcap-Request-Id") == -1},
			{" request=", isPath, false},
			{" requestMethod=", is(method), false},
			{" src=", one(wantHost), wantHost(T.Str(""))},
			{" spt=", one(wantPort), wantPort(T.Str(""))},
			{" dst=", is(host), false},
			{" dpt=", is(port), false},
		}
		pend := "" // expected text not yet matched
		text := ""
		bad := ""
		pos := 0
		take := func() { // collect constant text
			for pos < len(ps) {
				s, ok := ps[pos].StrVal()
				if !ok {
					return
				}
				text += s
				pos++
			}
		}
		for _, fl := range want {
			pend += fl.label
			take()
			if fl.empty && strings.HasPrefix(text, pend) && (pos >= len(ps) || len(text) > len(pend)) {
				continue // no value to record
			}
			if text != pend {
				bad = "instead of " + fmt.Sprintf("%q", pend) + " stands " + fmt.Sprintf("%q", text)
				break
			}
			text, pend = "", ""
			k := fl.val(ps[pos:])
			if k == 0 {
				v := "nothing"
				if pos < len(ps) {
					v = ps[pos].String()
				}
				bad = fmt.Sprintf("after %q stands %s", fl.label, v)
				break
			}
			pos += k
		}
		if bad == "" {
			take()
			if pos != len(ps) || text != pend+"\n" {
				bad = fmt.Sprintf("it ends in %q", text)
			}
		}
		c.ob(bad == "", rule, "record", "the record of a request is not the one expected: %s (%s)", bad, x.pathStr(o))
	}
	c.need(n, 8, rule, "paths that log a request")
	c.need(withQ, 1, rule, "records of requests with a query")
	c.need(noQ, 1, rule, "records of requests without a query")
	c.need(fwdFor, 1, rule, "records of forwarded requests")
	c.need(direct, 1, rule, "records of direct requests")
}

func isMillion(t *Term) bool { n, ok := t.IntVal(); return ok && n == 1000000 }

func isEmptyStr(t *Term) bool { s, ok := t.StrVal(); return ok && s == "" }

// headerVal: t is the first value of a request header.
func headerVal(t, hdr *Term, key string) bool {
	if t.op == "init" && t.args[0].op == "indexaddr" {
		n, ok := t.args[0].args[1].IntVal()
		l := t.args[0].args[0]
		if ok && n == 0 && l.op == "lookup" && l.args[0] == hdr {
			s, _ := l.args[1].StrVal()
			return s == key
		}
	}
	return false
}

func (x *X) hasHeader(f *Facts, hdr *Term, key string) int {
	v := 0
	f.each(func(t *Term, b bool) {
		if t.op == "has" && t.args[0] == hdr {
			if s, _ := t.args[1].StrVal(); s == key {
				v = -1
				if b {
					v = 1
				}
			}
		}
	})
	return v
}

// clientAddr: the values allowed as the client's host and port on a path:
// the parts of the first forwarded address, or else of the peer's.
func (x *X) clientAddr(o *Outcome, f *Facts, hdr, remote *Term, fwd, direct *int) (host, port func(*Term) bool) {
	const key = "X-Forwarded-For"
	T := x.T
	var sp []*Event
	for _, e := range o.evs {
		if isExtCall(e) && e.name == "net.SplitHostPort" {
			sp = append(sp, e)
		}
	}
	no := func(*Term) bool { return false }
	if len(sp) != 1 {
		return no, no
	}
	base := sp[0].args[0]
	if base.op == "concat" && len(base.args) == 2 {
		if s, _ := base.args[1].StrVal(); s == ":" && f.Eval(T.mk("pure", "strings.Contains", types.Typ[types.Bool], base.args[0], T.Str(":"))) == -1 {
			base = base.args[0]
		}
	}
	// what the path knows of the forwarded header
	comma := 0 // -1 none, 1 some
	first0 := false
	f.each(func(t *Term, b bool) {
		t.any(func(y *Term) bool {
			if y.op == "pure" && (y.sym == "strings.Index" || y.sym == "strings.IndexByte") && headerVal(y.args[0], hdr, key) {
				g := f.clone()
				switch {
				case f.Eval(T.Lt(T.Int(-1), y)) == 1 || f.Eval(T.Lt(y, T.Int(0))) == -1:
					comma = 1
				case f.Eval(T.Lt(T.Int(-1), y)) == -1 || f.Eval(T.Lt(y, T.Int(0))) == 1 || g.Eval(T.Eq(y, T.Int(-1))) == 1:
					comma = -1
				}
				if f.Eval(T.Eq(y, T.Int(0))) == 1 {
					first0 = true
				}
			}
			if y.op == "pure" && y.sym == "strings.Contains" && headerVal(y.args[0], hdr, key) {
				if s, _ := y.args[1].StrVal(); s == "," && f.Eval(y) == -1 {
					comma = -1
				}
			}
			if y.op == "len" && b && t.op == "eq" && y.args[0].any(func(z *Term) bool { return headerVal(z, hdr, key) }) && f.Eval(T.Eq(y, T.Int(0))) == 1 {
				first0 = true
			}
			return false
		})
		if t.op == "eq" && b && (headerVal(t.args[0], hdr, key) && isEmptyStr(t.args[1]) || headerVal(t.args[1], hdr, key) && isEmptyStr(t.args[0])) {
			first0 = true
		}
	})
	good := false
	switch {
	case base == remote:
		good = x.hasHeader(f, hdr, key) == -1 || first0
		*direct++
	case headerVal(base, hdr, key):
		good = comma == -1
		*fwd++
	case base.op == "slice" && headerVal(base.args[0], hdr, key):
		lo := len(base.args) < 2 || base.args[1].IsNil()
		if !lo {
			n, ok := base.args[1].IntVal()
			lo = ok && n == 0
		}
		hi := base.args[len(base.args)-1]
		if len(base.args) > 2 {
			hi = base.args[2]
		}
		good = lo && hi.op == "pure" && hi.sym == "strings.Index" && hi.args[0] == base.args[0] && !first0
		*fwd++
	default:
		// the first piece of the header split at commas
		t := base
		if t.op == "pure" && t.sym == "strings.TrimSpace" {
			t = t.args[0]
		}
		good = t.any(func(y *Term) bool {
			if y.op != "pure" && y.op != "ret" || len(y.args) < 2 && y.ev == nil {
				return false
			}
			n, as := y.sym, y.args
			if y.ev != nil {
				n, as = y.ev.name, y.ev.args
			}
			if !strings.HasPrefix(n, "strings.Split") && !strings.HasPrefix(n, "strings.Cut") || len(as) < 2 {
				return false
			}
			sep, _ := as[1].StrVal()
			return sep == "," && headerVal(as[0], hdr, key)
		})
		*fwd++
	}
	if !good {
		return no, no
	}
	if x.isNil(f, sp[0].res[2]) == -1 {
		return isEmptyStr, isEmptyStr
	}
	return func(t *Term) bool { return t == sp[0].res[0] }, func(t *Term) bool { return t == sp[0].res[1] }
}
