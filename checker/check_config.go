package main

import (
	"go/types"
	"reflect"
	"strings"
)

func init() {
	register("C48", "Every component runs with the settings it is given, and keeps its secrets",
		"Per command: the struct that is loaded from the environment is compared with the table of documented settings (name, type, default in memory at the load, required, reported); every value that reaches a component's constructors and options on any path of main is traced back to the setting it is; every argument of a logging call or report, of any path, is searched for secrets. The overflow callback and the uptime gauge are evaluated on their own.", checkC48)
}

type envSpec struct {
	name, def string // def: its constant, as source text; "" for the zero value
	req       bool
	secret    bool
}

type wireSpec struct {
	fn    string         // the constructor or option
	env   map[int]string // argument -> setting; ending in "..." for a variadic one
	start string         // the method that starts what it makes
}

type confSpec struct {
	cmd   string
	envs  []envSpec
	wires []wireSpec
	with  map[string][]string // constructor -> the options it is made with
}

const loggPkg = "code.cloudfoundry.org/go-loggregator"

func confSpecs() []confSpec {
	in := func(p string) string { return modPath + "/internal/" + p }
	mtls := []envSpec{{name: "CA_PATH", req: true}, {name: "CERT_PATH", req: true}, {name: "KEY_PATH", req: true}}
	cat := func(a []envSpec, b []envSpec) []envSpec { return append(append([]envSpec{}, a...), b...) }
	return []confSpec{
		{cmd: "log-cache", envs: cat([]envSpec{
			{name: "ADDR", def: `":8080"`, req: true}, {name: "HEALTH_PORT", def: "6060"},
			{name: "QUERY_TIMEOUT", def: "10000000000"}, {name: "MEMORY_LIMIT_PERCENT", def: "50"},
			{name: "MAX_PER_SOURCE", def: "100000"}, {name: "NODE_INDEX"}, {name: "NODE_ADDRS"}}, mtls),
			wires: []wireSpec{
				{fn: in("cache.New"), start: "(*" + in("cache.LogCache).Start")},
				{fn: in("cache.WithAddr"), env: map[int]string{0: "ADDR"}},
				{fn: in("cache.WithMemoryLimit"), env: map[int]string{0: "MEMORY_LIMIT_PERCENT"}},
				{fn: in("cache.WithMaxPerSource"), env: map[int]string{0: "MAX_PER_SOURCE"}},
				{fn: in("cache.WithQueryTimeout"), env: map[int]string{0: "QUERY_TIMEOUT"}},
				{fn: in("cache.WithClustered"), env: map[int]string{0: "NODE_INDEX", 1: "NODE_ADDRS"}},
				{fn: in("cache.WithServerOpts")},
			},
			with: map[string][]string{in("cache.New"): {in("cache.WithAddr"), in("cache.WithMemoryLimit"), in("cache.WithMaxPerSource"), in("cache.WithQueryTimeout"), in("cache.WithClustered"), in("cache.WithServerOpts")}}},
		{cmd: "nozzle", envs: cat([]envSpec{
			{name: "LOGS_PROVIDER_ADDR", req: true}, {name: "LOG_CACHE_ADDR", def: `":8080"`, req: true}, {name: "HEALTH_PORT", def: "6061"},
			{name: "SHARD_ID", def: `"log-cache"`, req: true}, {name: "SELECTORS", def: `"log","gauge","counter","timer","event"`, req: true},
			{name: "LOGS_PROVIDER_CA_FILE_PATH", req: true}, {name: "LOGS_PROVIDER_CERT_FILE_PATH", req: true}, {name: "LOGS_PROVIDER_KEY_FILE_PATH", req: true}}, mtls),
			wires: []wireSpec{
				{fn: loggPkg + ".NewEgressTLSConfig", env: map[int]string{0: "LOGS_PROVIDER_CA_FILE_PATH", 1: "LOGS_PROVIDER_CERT_FILE_PATH", 2: "LOGS_PROVIDER_KEY_FILE_PATH"}},
				{fn: loggPkg + ".NewEnvelopeStreamConnector", env: map[int]string{0: "LOGS_PROVIDER_ADDR", 1: "=" + loggPkg + ".NewEgressTLSConfig"}},
				{fn: loggPkg + ".WithEnvelopeStreamBuffer"},
				{fn: in("nozzle.NewNozzle"), env: map[int]string{0: "=" + loggPkg + ".NewEnvelopeStreamConnector", 1: "LOG_CACHE_ADDR", 2: "SHARD_ID"}, start: "(*" + in("nozzle.Nozzle).Start")},
				{fn: in("nozzle.WithDialOpts")},
				{fn: in("nozzle.WithSelectors"), env: map[int]string{0: "SELECTORS..."}},
			},
			with: map[string][]string{in("nozzle.NewNozzle"): {in("nozzle.WithDialOpts"), in("nozzle.WithSelectors")},
				loggPkg + ".NewEnvelopeStreamConnector": {loggPkg + ".WithEnvelopeStreamBuffer"}}},
		{cmd: "syslog-server", envs: cat([]envSpec{
			{name: "LOG_CACHE_ADDR", def: `":8080"`, req: true}, {name: "SYSLOG_PORT", def: "8888", req: true}, {name: "HEALTH_PORT", def: "6061"},
			{name: "SYSLOG_TLS_CERT_PATH", req: true}, {name: "SYSLOG_TLS_KEY_PATH", req: true}, {name: "SYSLOG_IDLE_TIMEOUT", def: "120000000000"}}, mtls),
			wires: []wireSpec{
				{fn: "google.golang.org/grpc.Dial", env: map[int]string{0: "LOG_CACHE_ADDR"}},
				{fn: modPath + "/pkg/rpc/logcache_v1.NewIngressClient", env: map[int]string{0: "=google.golang.org/grpc.Dial"}},
				{fn: in("routing.NewBatchedIngressClient"), env: map[int]string{2: "=" + modPath + "/pkg/rpc/logcache_v1.NewIngressClient"}},
				{fn: in("routing.WithRouting")},
				{fn: in("syslog.NewServer"), env: map[int]string{1: "=" + in("routing.NewBatchedIngressClient"), 3: "SYSLOG_TLS_CERT_PATH", 4: "SYSLOG_TLS_KEY_PATH"}, start: "(*" + in("syslog.Server).Start")},
				{fn: in("syslog.WithServerPort"), env: map[int]string{0: "SYSLOG_PORT"}},
				{fn: in("syslog.WithIdleTimeout"), env: map[int]string{0: "SYSLOG_IDLE_TIMEOUT"}},
			},
			with: map[string][]string{in("syslog.NewServer"): {in("syslog.WithServerPort"), in("syslog.WithIdleTimeout")},
				in("routing.NewBatchedIngressClient"): {in("routing.WithRouting")}}},
		{cmd: "scheduler", envs: cat([]envSpec{
			{name: "HEALTH_PORT", def: "6064"}, {name: "INTERVAL", def: "60000000000"}, {name: "COUNT", def: "100"}, {name: "REPLICATION_FACTOR", def: "1"},
			{name: "NODE_ADDRS"}, {name: "LEADER_ELECTION_ENDPOINT"}}, mtls)},
		{cmd: "gateway", envs: cat([]envSpec{
			{name: "ADDR", def: `":8081"`, req: true}, {name: "HEALTH_PORT", def: "6063"}, {name: "LOG_CACHE_ADDR", def: `"localhost:8080"`, req: true},
			{name: "PROXY_CERT_PATH", req: true}, {name: "PROXY_KEY_PATH", req: true}}, mtls),
			wires: []wireSpec{
				{fn: in("gateway.NewGateway"), env: map[int]string{0: "LOG_CACHE_ADDR", 1: "ADDR", 2: "PROXY_CERT_PATH", 3: "PROXY_KEY_PATH"}, start: "(*" + in("gateway.Gateway).Start")},
				{fn: in("gateway.WithGatewayVersion")},
				{fn: in("gateway.WithGatewayLogCacheDialOpts")},
			},
			with: map[string][]string{in("gateway.NewGateway"): {in("gateway.WithGatewayVersion"), in("gateway.WithGatewayLogCacheDialOpts")}}},
		{cmd: "blackbox", envs: cat([]envSpec{
			{name: "EMISSION_INTERVAL", req: true}, {name: "SAMPLE_INTERVAL", req: true}, {name: "WINDOW_INTERVAL", req: true}, {name: "WINDOW_LAG", req: true}, {name: "SOURCE_ID", req: true},
			{name: "CF_BLACKBOX_ENABLED"}, {name: "DATA_SOURCE_HTTP_ADDR"}, {name: "UAA_ADDR"}, {name: "CLIENT_ID"}, {name: "CLIENT_SECRET", secret: true}, {name: "SKIP_TLS_VERIFY"},
			{name: "DATA_SOURCE_GRPC_ADDR", def: `"localhost:8080"`}}, mtls),
			wires: []wireSpec{
				{fn: in("blackbox.NewIngressClient"), env: map[int]string{0: "DATA_SOURCE_GRPC_ADDR"}},
				{fn: in("blackbox.NewGrpcEgressClient"), env: map[int]string{0: "DATA_SOURCE_GRPC_ADDR"}},
			}},
		{cmd: "cf-auth-proxy", envs: []envSpec{
			{name: "LOG_CACHE_GATEWAY_ADDR", def: `"localhost:8081"`, req: true}, {name: "ADDR", def: `":8083"`, req: true}, {name: "INTERNAL_IP", def: `"0.0.0.0"`}, {name: "HEALTH_PORT", def: "6065"},
			{name: "EXTERNAL_CERT", req: true}, {name: "EXTERNAL_KEY", req: true}, {name: "SKIP_CERT_VERIFY"}, {name: "PROXY_CA_PATH", req: true}, {name: "SECURITY_EVENT_LOG"},
			{name: "TOKEN_PRUNING_INTERVAL", def: "60000000000"}, {name: "CACHE_EXPIRATION_INTERVAL", def: "60000000000"},
			{name: "CAPI_ADDR", req: true}, {name: "CAPI_CA_PATH", req: true}, {name: "CAPI_COMMON_NAME", req: true},
			{name: "UAA_CLIENT_ID", req: true, secret: true}, {name: "UAA_CLIENT_SECRET", req: true, secret: true}, {name: "UAA_ADDR", req: true}, {name: "UAA_CA_PATH", req: true}}},
	}
}

func checkC48(c *C) {
	for _, k := range confSpecs() {
		c.confCmd(k)
	}
	c.accessAddr()
}

func (c *C) confCmd(k confSpec) {
	const rule = "settings"
	var opaque []string
	for _, w := range k.wires {
		if strings.HasPrefix(w.fn, modPath) {
			opaque = append(opaque, w.fn)
		}
		if w.start != "" {
			opaque = append(opaque, w.start)
		}
	}
	refresh := "(*" + authPkg + ".UAAClient).RefreshTokenKeys"
	opaque = append(opaque, refresh, modPath+"/internal/blackbox.EmitMeasuredMetrics", "("+modPath+"/internal/blackbox.ReliabilityCalculator).Calculate")
	s := c.newMainWith(k.cmd, opaque...)
	x := s.x
	if !c.ob(s.load != nil && s.loads == 1, rule, k.cmd+" load", "%s does not read its settings from the environment once", k.cmd) {
		return
	}
	c.confTable(s, k)
	for _, o := range s.outs {
		c.noSecrets(s, k, o)
		if x.isNil(o.St.facts, s.load.res[0]) == 1 && !o.Panic {
			c.confWires(s, k, o)
		}
	}
}

// confTable: the settings, their defaults, which are required and which are
// reported.
func (c *C) confTable(s *mainScn, k confSpec) {
	const rule = "settings"
	x := s.x
	want := map[string]envSpec{}
	for _, e := range k.envs {
		want[e.name] = e
	}
	seen := map[string]int{}
	var walk func(addr *Term, t types.Type)
	walk = func(addr *Term, t types.Type) {
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			fa := x.T.FieldAddr(addr, t, i)
			ft := st.Field(i).Type()
			tag, has := reflect.StructTag(st.Tag(i)).Lookup("env")
			if !has {
				if structOf(ft) != nil {
					walk(fa, ft)
				}
				continue
			}
			name := envTag(st, i)
			if name == "-" || name == "" {
				continue
			}
			seen[name]++
			req, rep := false, false
			for _, p := range strings.Split(tag, ",")[1:] {
				req = req || strings.TrimSpace(p) == "required"
				rep = rep || strings.TrimSpace(p) == "report"
			}
			low := strings.ToUpper(name)
			secret := strings.Contains(low, "SECRET") || strings.Contains(low, "PASSWORD") || want[name].secret
			c.ob(!(secret && rep), "secrets", k.cmd+" report", "%s writes its secret %s to its log when it starts", k.cmd, name)
			w, ok := want[name]
			if !ok {
				continue // a setting of its own
			}
			c.ob(req == w.req, rule, k.cmd+" required", "%s: setting %s is required: %v, want %v", k.cmd, name, req, w.req)
			v := x.loadMem(s.load.mem, fa, ft)
			got := constText(v)
			if es, isS := x.elems(s.load.mem, v); isS {
				var ts []string
				for _, e := range es {
					ts = append(ts, constText(e))
				}
				got = strings.Join(ts, ",")
			}
			switch got {
			case "0", `""`, "false":
				got = ""
			}
			if v.IsNil() {
				got = ""
			}
			c.ob(got == w.def && (got != "" || v.cv != nil || v.IsNil()), rule, k.cmd+" default", "%s: without %s it is %s, want %s", k.cmd, name, v, w.def)
		}
	}
	walk(s.conf, derefType(s.conf.typ))
	for _, e := range k.envs {
		c.ob(seen[e.name] == 1, rule, k.cmd+" names", "%s reads %d settings named %s", k.cmd, seen[e.name], e.name)
	}
}

// confWires: what is configured is what is set.
func (c *C) confWires(s *mainScn, k confSpec, o *Outcome) {
	const rule = "wiring"
	x := s.x
	path := func() string { return x.pathStr(o) }
	calls := map[string][]*Event{}
	started := map[string][]*Event{}
	allEvents(o.evs, func(e *Event) {
		if e.kind == EvCall {
			calls[e.name] = append(calls[e.name], e)
		}
		if e.kind == EvCall {
			started[e.name] = append(started[e.name], e)
		}
	})
	made := func(t *Term, fn string) bool {
		t = stripIface(settled(o.evs, stripIface(t)))
		return len(calls[fn]) > 0 && len(calls[fn][0].res) > 0 && stripIface(calls[fn][0].res[0]) == t
	}
	for _, w := range k.wires {
		short := w.fn[strings.LastIndex(w.fn, "/")+1:]
		es := calls[w.fn]
		if !c.ob(len(es) == 1, rule, k.cmd+" "+short, "%s calls %s %d times: %s", k.cmd, short, len(es), path()) {
			continue
		}
		e := es[0]
		for i, env := range w.env {
			a := e.args[i]
			switch {
			case strings.HasPrefix(env, "="):
				c.ob(made(a, env[1:]), rule, k.cmd+" "+short, "%s: argument %d of %s is %s, want what %s made: %s", k.cmd, i, short, a, env[1:], path())
			case strings.HasSuffix(env, "..."):
				c.ob(s.envName(settled(o.evs, a)) == strings.TrimSuffix(env, "..."), rule, k.cmd+" "+short, "%s: %s is given %s, want %s: %s", k.cmd, short, a, env, path())
			default:
				c.ob(s.envName(settled(o.evs, a)) == env, rule, k.cmd+" "+short, "%s: argument %d of %s is %s, want the setting %s: %s", k.cmd, i, short, a, env, path())
			}
		}
		if opts, ok := k.with[w.fn]; ok {
			vs, isS := x.elems(e.mem, e.args[len(e.args)-1])
			if c.ob(isS, rule, k.cmd+" options", "%s: %s is given the options %s: %s", k.cmd, short, e.args[len(e.args)-1], path()) {
				for _, on := range opts {
					n := 0
					for _, v := range vs {
						v = stripIface(v)
						if v.ev != nil && v.ev.name == on {
							n++
						}
					}
					c.ob(n == 1, rule, k.cmd+" options", "%s: %s is given the option %s %d times: %s", k.cmd, short, on, n, path())
				}
			}
		}
		if w.start != "" {
			n := 0
			for _, st := range started[w.start] {
				if len(st.args) > 0 && stripIface(settled(o.evs, st.args[0])) == stripIface(e.res[0]) {
					n++
				}
			}
			c.ob(n == 1, rule, k.cmd+" start", "%s starts what %s makes %d times: %s", k.cmd, short, n, path())
		}
		switch {
		case strings.HasSuffix(w.fn, ".WithEnvelopeStreamBuffer"):
			n, ok := e.args[0].IntVal()
			c.ob(ok && n > 0, rule, k.cmd+" buffer", "%s buffers %s envelopes of the stream: %s", k.cmd, e.args[0], path())
			var ctr *Term
			allEvents(o.evs, func(d *Event) {
				if isExtCall(d) && strings.HasSuffix(d.name, ".NewCounter") {
					if nm, _ := x.T.strArg(d.args); nm == "nozzle_dropped" {
						ctr = d.res[0]
					}
				}
			})
			if c.ob(ctr != nil, rule, k.cmd+" dropped", "%s has no counter of dropped envelopes: %s", k.cmd, path()) {
				st := x.newState()
				st.mem, st.facts = e.mem, e.facts
				st.mem.shared, st.fShare = true, true
				st.wfacts()
				c.countsDropped(x, e.args[1], st, ctr, rule, k.cmd+" dropped")
			}
		}
	}
	if k.cmd == "log-cache" {
		c.uptime(s, o)
	}
	if k.cmd == "gateway" {
		e := calls[modPath+"/internal/gateway.WithGatewayVersion"]
		if len(e) == 1 {
			v := settled(o.evs, e[0].args[0])
			c.ob(v.op == "init" && v.args[0].op == "global" && strings.HasSuffix(v.args[0].String(), "buildVersion"), rule, "gateway version", "the gateway reports the version %s, want the one it was built with: %s", v, path())
		}
	}
}

// uptime: the gauge is set to the seconds since the start, every second.
func (c *C) uptime(s *mainScn, o *Outcome) {
	const rule = "uptime"
	x := s.x
	var g *Term
	allEvents(o.evs, func(d *Event) {
		if isExtCall(d) && strings.HasSuffix(d.name, ".NewGauge") {
			if nm, _ := x.T.strArg(d.args); nm == "log_cache_uptime" {
				g = d.res[0]
			}
		}
	})
	if !c.ob(g != nil, rule, "gauge", "there is no gauge of the uptime: %s", x.pathStr(o)) {
		return
	}
	n := 0
	for _, ge := range x.goEvents(o.evs) {
		for _, so := range ge.sub {
			for _, l := range loopsIn(so.evs) {
				for _, it := range l.iters {
					for _, e := range it.events {
						if e.kind != EvCall || len(e.args) != 2 || stripIface(e.args[0]) != stripIface(g) {
							continue
						}
						n++
						ok := strings.HasSuffix(e.name, ".Set") && e.args[1].any(func(t *Term) bool {
							since := t
							if t.op == "/" && len(t.args) == 2 {
								if d, isK := t.args[1].IntVal(); isK && d == 1e9 {
									since = stripConv(t.args[0])
								}
							} else if t.op == "pure" && t.sym == "(time.Duration).Seconds" {
								since = t.args[0]
							}
							if since == t || since.op != "pure" || since.sym != "(time.Time).Sub" || !nowRet(since.args[0]) || !nowRet(since.args[1]) {
								return false
							}
							in := func(evs []*Event, v *Term) bool {
								for _, d := range evs {
									if d == v.ev {
										return true
									}
								}
								return false
							}
							return in(it.events, since.args[0]) && in(o.evs, since.args[1])
						})
						c.ob(ok, rule, "gauge", "the uptime is set by %s to %s", e.name, e.args[1])
					}
				}
			}
		}
	}
	c.need(n, 1, rule, "settings of the uptime")
}

// noSecrets: no secret is logged.
func (c *C) noSecrets(s *mainScn, k confSpec, o *Outcome) {
	secret := map[string]bool{}
	for _, e := range k.envs {
		secret[e.name] = secret[e.name] || e.secret
	}
	n := 0
	allEvents(o.evs, func(e *Event) {
		if e.kind != EvCall || !logs(e.name) {
			return
		}
		n++
		for _, a := range e.args {
			vs, ok := s.x.elems(e.mem, a)
			if !ok {
				vs = []*Term{a}
			}
			for _, v := range vs {
				v = stripIface(v)
				bad := ""
				walkTerm(v, func(t *Term) {
					if t.op == "init" && secret[s.envName(t)] {
						bad = s.envName(t)
					}
				})
				c.ob(bad == "", "secrets", k.cmd+" log", "%s logs its secret %s at %s", k.cmd, bad, s.x.where(e))
				c.ob(v != s.conf && !s.within(v, secret), "secrets", k.cmd+" log", "%s logs all its settings at %s", k.cmd, s.x.where(e))
			}
		}
	})
	c.ob(true, "secrets", k.cmd, "")
}

// within: v is a struct of settings, or the address of one, that has a secret.
func (s *mainScn) within(v *Term, secret map[string]bool) bool {
	t := v.typ
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if _, ok := reflect.StructTag(st.Tag(i)).Lookup("env"); ok && secret[envTag(st, i)] {
			return true
		}
		if structOf(st.Field(i).Type()) != nil && s.within(s.x.T.Zero(st.Field(i).Type()), secret) {
			return true
		}
	}
	return false
}

// logs: name is a function whose arguments end up in a log.
func logs(n string) bool {
	for _, p := range []string{"log.", "(*log.Logger).", "fmt.Print", "fmt.Fprint"} {
		if strings.HasPrefix(n, p) && n != "log.New" && n != "log.SetOutput" {
			return true
		}
	}
	return false
}

// accessAddr: the access log's own address is the configured one.
func (c *C) accessAddr() {
	const rule = "access log address"
	mk := authPkg + ".NewAccessMiddleware"
	s := c.newMainWith("cf-auth-proxy", "(*"+authPkg+".UAAClient).RefreshTokenKeys", "(*"+modPath+"/internal/cfauthproxy.CFAuthProxy).Start", mk)
	n := 0
	for _, o := range s.outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind != EvCall || e.name != mk {
				return
			}
			n++
			c.ob(s.envName(settled(o.evs, e.args[1])) == "INTERNAL_IP", rule, "ip", "the access log names %s as the proxy's address, want INTERNAL_IP", e.args[1])
			p := settled(o.evs, e.args[2])
			c.ob(p.ev != nil && p.ev.name == "net.SplitHostPort" && s.envName(p.ev.args[0]) == "ADDR" && stripIface(p) == p.ev.res[1], rule, "port", "the access log names %s as the proxy's port, want that of ADDR", p)
		})
	}
	c.need(n, 1, rule, "access logs")
}

// strArg: the first constant text among args.
func (T *Terms) strArg(args []*Term) (string, bool) {
	for _, a := range args {
		if s, ok := a.StrVal(); ok {
			return s, true
		}
	}
	return "", false
}

// nowRet: the time at a call of time.Now, or of time.Since.
func nowRet(t *Term) bool { return t.op == "ret" && strings.HasPrefix(t.sym, "time.Now") }
