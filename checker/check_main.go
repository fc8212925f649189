package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// mainScn is one command's main function analysed whole, together with the
// goroutines it starts.
type mainScn struct {
	x     *X
	cmd   string
	outs  []*Outcome
	load  *Event // the configuration being read from the environment
	conf  *Term  // the configuration object
	loads int
}

func (c *C) newMain(cmd string) *mainScn { return c.newMainWith(cmd) }

// newMainWith keeps the named functions opaque.
func (c *C) newMainWith(cmd string, opaque ...string) *mainScn {
	x := c.newX()
	x.nonNilRes = map[string]bool{}
	for _, f := range opaque {
		x.opaque[f] = true
		if strings.Contains(f, ".New") {
			x.nonNilRes[f] = true // constructors end the process when they fail
		}
	}
	x.watch = true
	x.unwrap = true
	s := &mainScn{x: x, cmd: cmd}
	s.outs = x.Root(x.Fn("cmd/"+cmd, "", "main"), x.newState(), nil, nil)
	c.noMay(x, s.outs, "start-up", cmd, "unchecked", "nilmap")
	s.findLoad()
	return s
}

func (s *mainScn) findLoad() {
	seen := map[*Event]bool{}
	for _, o := range s.outs {
		allEvents(o.evs, func(e *Event) {
			if isExtCall(e) && strings.HasSuffix(e.name, "go-envstruct.Load") && !seen[e] {
				seen[e] = true
				t := stripIface(e.args[0])
				if s.conf == nil || s.conf != t {
					s.loads++
				}
				s.load, s.conf = e, t
			}
		})
	}
}

// envName: the environment variable whose value t is, "" if none.
func (s *mainScn) envName(t *Term) string {
	t = stripConv(t)
	if s.conf == nil || t.op != "init" {
		return ""
	}
	return s.envAddr(t.args[0])
}

func (s *mainScn) envAddr(a *Term) string {
	var path []int
	for a != s.conf {
		if a.op != "fieldaddr" {
			return ""
		}
		path = append([]int{fieldIndex(a)}, path...)
		a = a.args[0]
	}
	t := derefType(s.conf.typ)
	name := ""
	for _, i := range path {
		st := structOf(t)
		if st == nil || i >= st.NumFields() {
			return ""
		}
		name = envTag(st, i)
		t = st.Field(i).Type()
	}
	return name
}

func envTag(st *types.Struct, i int) string {
	return strings.TrimSpace(strings.Split(reflect.StructTag(st.Tag(i)).Get("env"), ",")[0])
}

func fieldIndex(a *Term) int {
	var i int
	fmt.Sscanf(a.sym[strings.LastIndex(a.sym, "/")+1:], "%d", &i)
	return i
}

// settled resolves a value re-read from memory other goroutines can see to
// the only value the path ever stores there.
func settled(evs []*Event, t *Term) *Term {
	t = stripIface(t)
	if t.op != "init" || strings.HasPrefix(t.sym, "f") {
		return t // known, or filled in by a callee
	}
	var v *Term
	n := 0
	allEvents(evs, func(e *Event) {
		if e.kind == EvStore && e.addr == t.args[0] && e.val != v {
			v = e.val
			n++
		}
	})
	if n == 1 {
		return stripIface(v)
	}
	return t
}

// mainRules: what every command owes its operator: an invalid configuration
// stops the process before anything is dialled or served.
func (s *mainScn) mainRules(c *C, rule string) {
	x := s.x
	if !c.ob(s.load != nil && s.loads == 1, rule, s.cmd+" configuration", "%s does not read its configuration from the environment once", s.cmd) {
		return
	}
	n := 0
	for _, o := range s.outs {
		if x.isNil(o.St.facts, s.load.res[0]) == 1 {
			continue
		}
		n++
		bad := ""
		allEvents(o.evs, func(e *Event) {
			if isServe(e) || isListen(e) || isDial(e) {
				bad = x.where(e)
			}
		})
		c.ob(o.Panic && bad == "", rule, s.cmd+" invalid configuration", "%s carries on with an invalid configuration (%s): %s", s.cmd, bad, x.pathStr(o))
	}
	c.need(n, 1, rule, s.cmd+" configuration failure paths")
}

func isListen(e *Event) bool {
	return isExtCall(e) && (e.name == "net.Listen" || e.name == "crypto/tls.Listen" || e.name == "net.ListenTCP")
}

func isDial(e *Event) bool {
	return isExtCall(e) && strings.HasPrefix(e.name, "google.golang.org/grpc.Dial")
}

// localAddr: t is a loopback host:port with the given port.
func localAddr(t *Term, port func(t *Term) bool) bool {
	t = stripConv(t)
	var parts []*Term
	switch t.op {
	case "concat":
		parts = t.args
	default:
		if s, ok := t.StrVal(); ok {
			return strings.HasPrefix(s, "localhost:") || strings.HasPrefix(s, "127.0.0.1:")
		}
		if strings.HasSuffix(t.sym, "net.JoinHostPort") && len(t.args) == 2 {
			h, _ := t.args[0].StrVal()
			return (h == "localhost" || h == "127.0.0.1") && (port == nil || port(t.args[1]))
		}
		return false
	}
	h, ok := parts[0].StrVal()
	if !ok || h != "localhost:" && h != "127.0.0.1:" {
		return false
	}
	return port == nil || len(parts) == 2 && port(parts[1])
}

// dialOptions: the elements of the variadic option list of a dial.
func (x *X) variadic(e *Event, i int) ([]*Term, bool) {
	if len(e.args) <= i {
		return nil, true
	}
	return x.elems(e.mem, e.args[i])
}

// tlsCreds: the tls.Config a transport credential was made from.
func tlsCreds(t *Term) (*Term, *Event) {
	t = stripIface(t)
	if t.op == "ret" || t.op == "errval" {
		if t.ev != nil && t.ev.name == "google.golang.org/grpc/credentials.NewTLS" {
			return stripIface(t.ev.args[0]), t.ev
		}
	}
	return nil, nil
}

// tlsConfig checks a TLS client configuration object: floor version, cipher
// suites, verification on, server name, own certificate and CA pool.
func (c *C) tlsConfig(x *X, o *Outcome, cfg *Term, e *Event, rule, what string, cn, ca, cert, key func(t *Term) bool) {
	if !c.ob(cfg != nil && cfg.op == "alloc", rule, what+" config", "%s: the TLS configuration is not built here", what) {
		return
	}
	ct := x.NamedType("crypto/tls", "Config")
	get := func(f string) *Term { return x.LoadField(e.mem, cfg, ct, f) }
	v, ok := get("MinVersion").IntVal()
	c.ob(ok && v >= 0x0303, rule, what+" minimum version", "%s: TLS minimum version is %s, below 1.2", what, get("MinVersion"))
	mv, ok := get("MaxVersion").IntVal()
	c.ob(ok && (mv == 0 || mv >= 0x0303), rule, what+" maximum version", "%s: TLS maximum version is %s", what, get("MaxVersion"))
	b, ok := get("InsecureSkipVerify").BoolVal()
	c.ob(ok && !b, rule, what+" verification", "%s: certificate verification is disabled", what)
	suites, ok := x.elemsInit(e.mem, get("CipherSuites"))
	good := ok && approvedSuites(suites)
	c.ob(good, rule, what+" cipher suites", "%s: cipher suites %v are not exactly the two ECDHE-RSA AES-GCM ones", what, suites)
	c.ob(cn(get("ServerName")), rule, what+" server name", "%s: the peer name is %s", what, get("ServerName"))
	certs, ok := x.elems(e.mem, get("Certificates"))
	good = ok && len(certs) == 1
	if good {
		t := certs[0]
		good = t.op == "ret" && t.ev != nil && t.ev.name == "crypto/tls.LoadX509KeyPair" && cert(t.ev.args[0]) && key(t.ev.args[1]) && x.isNil(o.St.facts, t.ev.res[1]) == 1
	}
	c.ob(good, rule, what+" certificate", "%s: the certificate is not the configured key pair", what)
	good = x.poolOf(o, get("RootCAs"), ca)
	c.ob(good, rule, what+" CA pool", "%s: peers are not verified against the configured CA: %s", what, x.pathStr(o))
}

// approvedSuites: exactly ECDHE-RSA with AES-128-GCM and AES-256-GCM.
func approvedSuites(suites []*Term) bool {
	seen := map[int64]bool{}
	for _, s := range suites {
		n, ok := s.IntVal()
		if !ok || n != 0xc02f && n != 0xc030 {
			return false
		}
		seen[n] = true
	}
	return len(seen) == 2
}

// elemsInit: elements of a slice, also one initialised with its package.
func (x *X) elemsInit(m *Mem, s *Term) ([]*Term, bool) {
	if es, ok := x.elems(m, s); ok {
		all := true
		for _, e := range es {
			if !e.IsConst() {
				all = false
			}
		}
		if all {
			return es, true
		}
	}
	r := rootOf(s)
	if s.op == "slice" {
		r = rootOf(s.args[0])
	}
	if x.initMut[r] {
		delete(x.initMut, r)
		defer func() { x.initMut[r] = true }()
	}
	for _, gi := range x.globCache {
		if gi.mem == nil {
			continue
		}
		has := false
		for a := range gi.mem.m {
			if a != r && rootOf(a) == r {
				has = true
			}
		}
		if has {
			if es, ok := x.elems(gi.mem, s); ok {
				return es, ok
			}
		}
	}
	return nil, false
}

// envElem: the environment variable that lists t, "" if none.
func (s *mainScn) envElem(t *Term) string {
	t = stripConv(t)
	if t.op == "init" && t.args[0].op == "indexaddr" {
		return s.envName(t.args[0].args[0])
	}
	if t.op == "init" && t.args[0].op == "elemaddr" {
		return s.envName(t.args[0].args[0])
	}
	return ""
}

func (c *C) checkDial(s *mainScn, o *Outcome, e *Event, rule, what, addrEnv, cn string) {
	c.ob(s.envName(settled(o.evs, e.args[0])) == addrEnv, rule, what+" address", "%s dials %s, want the configured %s", what, e.args[0], addrEnv)
	c.checkDialCreds(s, o, e, rule, what, cn)
}

func (c *C) checkDialCreds(s *mainScn, o *Outcome, e *Event, rule, what, cn string) {
	x := s.x
	opts, ok := x.variadic(e, 1)
	if !c.ob(ok, rule, what+" options", "%s: the dial options are not statically known", what) {
		return
	}
	n := 0
	for _, d := range opts {
		d = stripIface(d)
		if d.ev == nil {
			continue
		}
		switch d.ev.name {
		case "google.golang.org/grpc.WithInsecure":
			c.ob(false, rule, what+" insecure", "%s dials without TLS", what)
		case "google.golang.org/grpc.WithTransportCredentials":
			n++
			cfg, ce := tlsCreds(d.ev.args[0])
			if ce == nil {
				c.ob(false, rule, what+" credentials", "%s: the transport credentials are not TLS credentials", what)
				continue
			}
			c.tlsConfig(x, o, cfg, ce, rule, what,
				func(t *Term) bool { v, ok := t.StrVal(); return ok && v == cn },
				func(t *Term) bool { return s.envName(t) == "CA_PATH" },
				func(t *Term) bool { return s.envName(t) == "CERT_PATH" },
				func(t *Term) bool { return s.envName(t) == "KEY_PATH" })
		}
	}
	c.ob(n == 1, rule, what+" transport credentials", "%s is dialled with %d transport credentials", what, n)
}

// healthOnLocalhost: every plaintext listener of a command is on loopback.
func (c *C) healthOnLocalhost(s *mainScn, o *Outcome, rule string, n *int) {
	allEvents(o.evs, func(e *Event) {
		if isExtCall(e) && (e.name == "net/http.ListenAndServe" || strings.HasSuffix(e.name, "net/http.Server).ListenAndServe")) {
			*n++
			addr := e.args[0]
			if strings.HasPrefix(e.name, "(") {
				addr = s.x.LoadField(e.mem, e.args[0], s.x.NamedType("net/http", "Server"), "Addr")
			}
			c.ob(localAddr(addr, func(t *Term) bool { return derivesEnv(s, t, "HEALTH_PORT") }), rule, s.cmd+" health endpoint", "%s serves plaintext on %s, want loopback and the configured health port", s.cmd, addr)
		}
	})
}

func derivesEnv(s *mainScn, t *Term, env string) bool {
	return t.any(func(y *Term) bool { return y.op == "init" && s.envName(y) == env })
}

// checkC16: the gateway.
func checkC16(c *C) {
	const rule = "serving"
	for _, block := range []bool{true, false} {
		what := "Start (goroutine)"
		var opts []func(x *X, st *State) (*Term, *State)
		var dopts *Term
		opts = append(opts, gwOpt("WithGatewayLogCacheDialOpts", func(x *X) []*Term {
			ps := x.params(x.Fn("internal/gateway", "", "WithGatewayLogCacheDialOpts"))
			dopts = ps[0]
			return ps
		}))
		if block {
			what = "Start (blocking)"
			opts = append(opts, gwOpt("WithGatewayBlock", noArgs))
		}
		s := c.newGateway(opts...)
		x := s.x
		s.run()
		served, failed := 0, 0
		for _, o := range s.outs {
			serves := false
			all := append(append([]*Event(nil), s.pre...), o.evs...)
			for _, e := range o.evs {
				if isServe(e) {
					serves = true
				}
			}
			var lis *Event
			nl := 0
			allEvents(o.evs, func(e *Event) {
				if isListen(e) {
					lis = e
					nl++
				}
			})
			if !c.ob(nl == 1 && lis.name == "net.Listen", rule, what+" listener", "%s: %d listeners are opened", what, nl) {
				continue
			}
			nw, _ := lis.args[0].StrVal()
			c.ob(nw == "tcp" && lis.args[1] == s.ctor[1], rule, what+" address", "%s listens on %s %s, want the gateway address", what, lis.args[0], lis.args[1])
			if x.isNil(o.St.facts, lis.res[1]) != 1 {
				failed++
				c.ob(o.Panic && !serves, rule, what+" listen failure", "%s goes on after it failed to listen: %s", what, x.pathStr(o))
				continue
			}
			if !o.Panic {
				c.ob(serves == block, rule, what+" blocking", "%s: serving in the calling goroutine is %v", what, serves)
			}
			allEvents(o.evs, func(e *Event) {
				if isDial(e) {
					c.ob(e.args[0] == s.ctor[0] || settled(all, e.args[0]) == s.ctor[0], rule, what+" dial address", "%s dials %s, want the log cache address", what, e.args[0])
					es, _ := x.variadic(e, 1)
					c.ob(e.args[1] == dopts || len(es) == 1 && es[0].op == "spread" && es[0].args[0] == dopts || settled(all, e.args[1]) == dopts, rule, what+" dial options", "%s does not dial with the configured options: %s", what, e.args[1])
				}
			})
			one := func(evs []*Event, p bool) {
				for _, e := range evs {
					if !isServe(e) {
						continue
					}
					served++
					tls := strings.HasSuffix(e.name, "Server).ServeTLS")
					if !c.ob(tls, rule, what+" TLS", "%s serves with %s instead of TLS on its listener", what, e.name) {
						continue
					}
					c.ob(settled(all, e.args[1]) == lis.res[0], rule, what+" served listener", "%s serves %s", what, e.args[1])
					c.ob(settled(all, e.args[2]) == s.ctor[2] && settled(all, e.args[3]) == s.ctor[3], rule, what+" certificate", "%s serves with certificate %s and key %s", what, e.args[2], e.args[3])
					h := x.servedHandler(e)
					c.ob(h != nil && !h.IsNil() && !(h.op == "init" && h.args[0].op == "global"), rule, what+" handler", "%s serves the default mux, which carries the diagnostic handlers", what)
					st := x.LoadField(e.mem, e.args[0], x.NamedType("net/http", "Server"), "TLSConfig")
					c.ob(st.IsNil() || x.tlsFloor(e.mem, st), rule, what+" TLS floor", "%s serves with a weakened TLS configuration", what)
				}
			}
			one(o.evs, true)
			c.endsWithServer(x, o, rule, what)
			subPaths(o.evs, func(so *Outcome) {
				one(so.evs, false)
				c.endsWithServer(x, so, rule, what)
				var d *Event
				sv := false
				for _, e := range so.evs {
					if isDial(e) {
						d = e
					}
					if isServe(e) {
						sv = true
					}
				}
				if d != nil && x.isNil(so.St.facts, d.res[1]) != 1 {
					c.ob(!sv, rule, what+" dial failure", "%s serves without a connection to the log cache: %s", what, x.pathStr(so))
				}
			})
			for _, e := range o.evs {
				if isDial(e) && x.isNil(o.St.facts, e.res[1]) != 1 {
					c.ob(!serves, rule, what+" dial failure", "%s serves without a connection to the log cache: %s", what, x.pathStr(o))
				}
			}
		}
		c.need(served, 1, rule, what+" serving paths")
		c.need(failed, 1, rule, what+" listen failure paths")
	}
	c.gatewayMain()
}

// endsWithServer: a path on which a server stopped with an error, such as a
// key pair that cannot be loaded, ends the process.
func (c *C) endsWithServer(x *X, o *Outcome, rule, what string) {
	for _, e := range o.evs {
		if !isServe(e) || strings.HasSuffix(e.name, "ListenAndServe") || x.isNil(o.St.facts, e.res[0]) == 1 {
			continue
		}
		closed := false
		o.St.facts.each(func(t *Term, v bool) {
			closed = closed || v && t.op == "eq" && t.any(func(y *Term) bool { return y == e.res[0] }) &&
				t.any(func(y *Term) bool { return y.op == "global" && strings.HasSuffix(y.sym, "http.ErrServerClosed") })
		})
		c.ob(closed || o.Panic && o.PKind == "exit", rule, what+" serving failure", "%s lives on after its server failed: %s", what, x.pathStr(o))
	}
}

// subPaths visits the paths of goroutines started on evs.
func subPaths(evs []*Event, f func(o *Outcome)) {
	for _, e := range evs {
		for _, o := range e.sub {
			f(o)
			subPaths(o.evs, f)
		}
	}
}

// tlsFloor: a TLS configuration that does not fall below TLS 1.2.
func (x *X) tlsFloor(m *Mem, cfg *Term) bool {
	cfg = stripIface(cfg)
	if cfg.op != "alloc" {
		return false
	}
	ct := x.NamedType("crypto/tls", "Config")
	v, ok := x.LoadField(m, cfg, ct, "MinVersion").IntVal()
	return ok && (v == 0 || v >= 0x0303)
}

func (c *C) gatewayMain() {
	const rule = "wiring"
	s := c.newMain("gateway")
	x := s.x
	s.mainRules(c, rule)
	if s.load == nil {
		return
	}
	lis, dial, serve, health := 0, 0, 0, 0
	for _, o := range s.outs {
		if x.isNil(o.St.facts, s.load.res[0]) != 1 {
			continue
		}
		allEvents(o.evs, func(e *Event) {
			switch {
			case isListen(e):
				lis++
				c.ob(s.envName(settled(o.evs, e.args[1])) == "ADDR", rule, "listen address", "the gateway listens on %s, want the configured ADDR", e.args[1])
			case isDial(e):
				dial++
				c.checkDial(s, o, e, rule, "gateway", "LOG_CACHE_ADDR", "log-cache")
			case isServe(e) && strings.HasSuffix(e.name, "ServeTLS"):
				serve++
				c.ob(s.envName(settled(o.evs, e.args[2])) == "PROXY_CERT_PATH" && s.envName(settled(o.evs, e.args[3])) == "PROXY_KEY_PATH", rule, "server certificate", "the gateway serves with certificate %s and key %s", e.args[2], e.args[3])
			case isServe(e) && !strings.HasSuffix(e.name, "ListenAndServe"):
				c.ob(false, rule, "plaintext", "the gateway serves with %s", e.name)
			}
		})
		c.healthOnLocalhost(s, o, rule, &health)
		// the version document
		subPaths(o.evs, func(so *Outcome) {
			for _, e := range so.evs {
				if !isServe(e) {
					continue
				}
				top := x.servedHandler(e)
				for _, d := range so.evs {
					if isExtCall(d) && strings.HasPrefix(d.name, "(*net/http.ServeMux).Handle") && stripIface(d.args[0]) == top {
						if p, _ := d.args[1].StrVal(); p == "/api/v1/info" {
							c.infoVersion(s, so, stripConv(d.args[2]), rule)
						}
					}
				}
			}
		})
	}
	c.need(lis, 1, rule, "listeners")
	c.need(dial, 1, rule, "dials")
	c.need(serve, 1, rule, "TLS servers")
	c.need(health, 1, rule, "health endpoints")
}

// infoVersion: the info handler reports the version built into the binary.
func (c *C) infoVersion(s *mainScn, o *Outcome, h *Term, rule string) {
	x := s.x
	st := o.St.clone()
	st.trace = nil
	if h.fn == nil {
		return
	}
	sig := h.fn.Signature
	w, r := x.symOf("w", sig.Params().At(0).Type()), x.symOf("r", sig.Params().At(1).Type())
	for _, ho := range x.CallTerm(h, []*Term{w, r}, st) {
		if ho.Panic {
			continue
		}
		ws, _ := x.respWrites(ho.evs, w)
		for _, e := range ws {
			if e.body == nil {
				continue
			}
			good := e.body.any(func(y *Term) bool {
				y = settledAll(s.outs, y)
				return y.any(func(z *Term) bool {
					return z.op == "global" && strings.HasSuffix(z.sym, "cmd/gateway.buildVersion")
				})
			})
			c.ob(good, rule, "version", "the info endpoint does not report the build version")
		}
	}
}

func settledAll(outs []*Outcome, t *Term) *Term {
	if t.op != "init" {
		return t
	}
	var v *Term
	for _, o := range outs {
		if !o.Panic {
			v = settled(o.evs, t)
		}
	}
	if v == nil {
		return t
	}
	return v
}
