package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C43", "The syslog server forwards every valid message once, converted faithfully",
		"Path-partitioned dataflow over the server made by NewServer: its accept loop, what each accepted connection is handled with, and what the listener given to the syslog parser does with an arbitrary result.", checkC43)
}

const (
	syslogPkg = "github.com/influxdata/go-syslog"
	tlscPkg   = "code.cloudfoundry.org/tlsconfig"
)

type syslogScn struct {
	*X
	ps   []*Term
	port *Term
	idle *Term // nil: the default
	srv  *Term
	st   *State
	outs []*Outcome
	ctr  map[string]*Term
}

func (c *C) syslogServer(rule string, opts bool) *syslogScn {
	s := &syslogScn{X: c.newX(), ctr: map[string]*Term{}}
	x := s.X
	x.nonNilRes = map[string]bool{syslogPkg + "/octetcounting.NewParser": true}
	st := x.newState()
	fn := x.Fn("internal/syslog", "", "NewServer")
	s.ps = x.params(fn)
	var ots []*Term
	if opts {
		for _, w := range []string{"WithServerPort", "WithIdleTimeout"} {
			of := x.Fn("internal/syslog", "", w)
			ops := x.params(of)
			if w == "WithServerPort" {
				s.port = ops[0]
			} else {
				s.idle = ops[0]
			}
			o := x.single(x.Root(of, st, ops, nil), w)
			st = o.St
			ots = append(ots, o.Vals[0])
		}
	}
	last := len(s.ps) - 1
	s.ps[last] = x.sliceOf(elemTypeOf(s.ps[last].typ), ots...)
	for _, i := range []int{0, 1, 2} {
		st.wfacts().Assume(x.T.Eq(s.ps[i], x.T.Nil()), false)
	}
	outs := c.rets(x, x.Root(fn, st, s.ps, nil), rule, "NewServer")
	if !c.ob(len(outs) == 1, rule, "construction", "NewServer has %d outcomes", len(outs)) {
		return nil
	}
	allEvents(outs[0].evs, func(e *Event) {
		if methodIs(e, "NewCounter") && len(e.res) > 0 && e.args[0] == s.ps[2] {
			n, _ := e.args[1].StrVal()
			if s.ctr[n] != nil {
				c.ob(false, rule, "counters", "the counter %q is made twice", n)
			}
			s.ctr[n] = e.res[0]
		}
	})
	s.srv = outs[0].Vals[0]
	s.st = outs[0].St.clone()
	s.st.trace = nil
	for _, k := range s.ctr {
		s.st.wfacts().Assume(x.T.Eq(k, x.T.Nil()), false)
	}
	s.outs = x.CallMethod(s.srv, "Start", nil, s.st.clone())
	c.messagesKept(x, s.outs, "conversion", "Start")
	return s
}

func checkC43(c *C) {
	for _, opts := range []bool{true, false} {
		rule := "configured"
		if !opts {
			rule = "by default"
		}
		s := c.syslogServer(rule, opts)
		if s != nil {
			c.syslogRuns(s, rule)
		}
	}
	const rule = "locks"
	y := c.newX()
	l := c.newLockScan(y, rule, y.NamedType(modPath+"/internal/syslog", "Server"))
	n := c.lockOps(y, l, y.NamedType(modPath+"/internal/syslog", "Server"))
	l.verdict()
	c.need(n, 3, rule, "operations")
	c.need(l.nLocks, 3, rule, "acquisitions")
}

func (c *C) syslogRuns(s *syslogScn, rule string) {
	x, T := s.X, s.T
	port := s.port
	if port == nil {
		port = T.Int(0)
	}
	idle := func(d *Term) bool {
		if s.idle != nil {
			return d == s.idle
		}
		n, ok := d.IntVal()
		return ok && n == 120e9
	}
	c.noMay(x, s.outs, rule, "Start", hardMay...)
	run, fatal := 0, 0
	for _, o := range s.outs {
		path := func() string { return x.pathStr(o) }
		var ls []*Event
		for _, e := range o.evs {
			if isExtCall(e) && e.name == "crypto/tls.Listen" {
				ls = append(ls, e)
			}
			c.ob(!(isExtCall(e) && (e.name == "net.Listen" || strings.HasPrefix(e.name, "(*net.ListenConfig).Listen"))), rule, "tls", "the server listens without TLS: %s", path())
		}
		if o.Panic {
			bad := len(ls) == 1 && x.isNil(o.St.facts, ls[0].res[1]) == -1
			for _, e := range o.evs {
				if isExtCall(e) && e.name == "("+tlscPkg+".Config).Server" && len(ls) == 0 {
					bad = bad || x.isNil(o.St.facts, e.res[1]) == -1
				}
			}
			c.ob(bad, rule, "gives up", "the server gives up although it could listen: %s", path())
			fatal++
			continue
		}
		if !c.ob(len(ls) == 1, rule, "one listener", "%d listeners are made: %s", len(ls), path()) {
			continue
		}
		l := ls[0]
		if !c.ob(x.isNil(o.St.facts, l.res[1]) == 1, rule, "one listener", "the server goes on without a listener: %s", path()) {
			continue
		}
		net, _ := l.args[0].StrVal()
		c.ob(net == "tcp", rule, "address", "the server listens on network %s: %s", l.args[0], path())
		c.ob(l.args[1] == T.mk("concat", "", T.Str("").typ, T.Str(":"), T.mk("itoa", "", T.Str("").typ, port)) || addrOfPort(T, l.args[1], port), rule, "address", "the server listens on %s, want port %s: %s", l.args[1], port, path())
		c.syslogTLS(s, o, l.args[2], rule)
		var loop *LoopInfo
		for _, e := range o.evs {
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					allEvents(it.events, func(y *Event) {
						if methodIs(y, "Accept") {
							loop = e.loop
						}
					})
				}
			}
		}
		if !c.ob(loop != nil, rule, "accepts", "the server does not accept connections: %s", path()) {
			continue
		}
		run++
		if !o.Endless {
			var acc, tmp *Event
			for _, e := range o.evs {
				if methodIs(e, "Accept") {
					acc = e
				}
				if methodIs(e, "Temporary") {
					tmp = e
				}
			}
			c.ob(acc != nil && x.isNil(o.St.facts, acc.res[1]) == -1, rule, "stops", "the server stops although it can accept: %s", path())
			over := tmp != nil && o.St.facts.Eval(tmp.res[0]) == -1
			o.St.facts.each(func(t *Term, v bool) {
				if acc == nil || len(t.args) == 0 || stripIface(t.args[0]) != acc.res[1] {
					return
				}
				over = over || t.op == "istype" && !v || t.op == "pure" && strings.HasSuffix(t.sym, "errors.Is") && v
			})
			c.ob(over, rule, "stops", "the server stops accepting for good after a temporary failure: %s", path())
		}
		again := 0
		for _, it := range loop.iters {
			var acc, gos []*Event
			slept := false
			allEvents(it.events, func(e *Event) {
				switch {
				case methodIs(e, "Accept"):
					acc = append(acc, e)
				case e.kind == EvGo:
					gos = append(gos, e)
				case isExtCall(e) && e.name == "time.Sleep":
					d, ok := e.args[0].IntVal()
					c.ob(ok && d > 0 && d <= 5e9, rule, "back off", "the server does not accept for %s: %s", e.args[0], it.facts)
					slept = true
				case e.kind == EvRecv || e.kind == EvSend || e.kind == EvSelect && e.blocking:
					c.ob(false, rule, "accepts", "the server waits for %v before it accepts the next connection: %s", e.args, it.facts)
				}
			})
			if !c.ob(len(acc) == 1 && acc[0].args[0] == l.res[0], rule, "accepts", "%d connections are accepted at a time: %s", len(acc), it.facts) {
				continue
			}
			if x.isNil(it.facts, acc[0].res[1]) == -1 {
				again++
				c.ob(slept, rule, "back off", "the server spins while it cannot accept: %s", it.facts)
				c.ob(len(gos) == 0, rule, "accepts", "a connection that was not accepted is handled: %s", it.facts)
				continue
			}
			c.ob(x.isNil(it.facts, acc[0].res[1]) == 1, rule, "accepts", "whether accepting failed is not looked at: %s", it.facts)
			if !c.ob(len(gos) == 1, rule, "one handler", "%d goroutines are started for a connection: %s", len(gos), it.facts) {
				continue
			}
			conn := acc[0].res[0]
			dl := false
			for _, e := range it.events {
				if isExtCall(e) && e != acc[0] && e.kind == EvCall {
					for _, a := range e.args {
						if stripIface(a) == conn {
							set := strings.HasSuffix(e.name, ".SetReadDeadline")
							dl = dl || set && deadlineIn(x, it.events, e, idle)
							c.ob(set || strings.HasSuffix(e.name, "Addr"), rule, "accepts", "%s keeps the next connection waiting: %s", e.name, it.facts)
						}
					}
				}
			}
			for _, so := range gos[0].sub {
				c.syslogConn(s, so, conn, dl, idle, rule)
			}
			c.need(len(gos[0].sub), 1, rule, "paths of a connection")
		}
		c.ob(again > 0, rule, "temporary failures", "no failure to accept is survived")
	}
	c.need(run, 1, rule, "running servers")
	c.need(fatal, 1, rule, "failures to listen")
}

// addrOfPort: ":"+port however it is put together.
func addrOfPort(T *Terms, t, port *Term) bool {
	s := t.String()
	return derives(t, port) && (strings.HasPrefix(s, `concat(":", `) || strings.HasPrefix(s, `pure:net.JoinHostPort("", `)) || port.op == "const" && t == T.Str(":"+port.String())
}

func (c *C) syslogTLS(s *syslogScn, o *Outcome, cfg *Term, rule string) {
	x := s.X
	path := func() string { return x.pathStr(o) }
	if !c.ob(cfg.op == "ret" && cfg.ev.name == "("+tlscPkg+".Config).Server" && x.isNil(o.St.facts, cfg.ev.res[1]) == 1, rule, "tls", "the server listens with %s: %s", cfg, path()) {
		return
	}
	b := cfg.ev.args[0]
	if !c.ob(b.op == "ret" && b.ev.name == tlscPkg+".Build", rule, "tls", "the server listens with %s: %s", b, path()) {
		return
	}
	es, ok := x.elems(b.ev.mem, b.ev.args[0])
	if !c.ob(ok, rule, "tls", "the server listens with %s: %s", b.ev.args[0], path()) {
		return
	}
	def, id := false, false
	for _, e := range es {
		if e.op == "ret" {
			def = def || e.ev.name == tlscPkg+".WithInternalServiceDefaults"
			id = id || e.ev.name == tlscPkg+".WithIdentityFromFile" && e.ev.args[0] == s.ps[3] && e.ev.args[1] == s.ps[4]
		}
	}
	c.ob(def, rule, "tls", "the TLS settings are not the internal service defaults: %s", path())
	c.ob(id, rule, "tls", "the server does not present the given certificate: %s", path())
}

// deadlineIn: e sets the read deadline to now plus the idle timeout, and now
// is looked up among evs.
func deadlineIn(x *X, evs []*Event, e *Event, idle func(*Term) bool) bool {
	t := e.args[1]
	if t.op != "pure" || !strings.HasSuffix(t.sym, "(time.Time).Add") || !idle(t.args[1]) {
		return false
	}
	now := t.args[0]
	if now.op != "ret" || now.ev.name != "time.Now" {
		return false
	}
	hit := false
	allEvents(evs, func(y *Event) { hit = hit || y == now.ev })
	return hit
}

// syslogConn: what is done with an accepted connection.
func (c *C) syslogConn(s *syslogScn, o *Outcome, conn *Term, dl bool, idle func(*Term) bool, rule string) {
	x := s.X
	path := func() string { return x.pathStr(o) }
	if !c.ob(!o.Panic && !o.Endless, rule, "connection", "a connection is never given up, or takes the server with it: %s", path()) {
		return
	}
	var parse, listen, closed []*Event
	allEvents(o.evs, func(e *Event) {
		switch {
		case methodIs(e, "Parse") && len(e.args) == 2 && stripIface(e.args[1]) == conn:
			parse = append(parse, e)
			c.ob(dl, rule, "deadline", "a connection is read without a deadline: %s", path())
		case methodIs(e, "WithListener"):
			listen = append(listen, e)
			c.ob(len(parse) == 0, rule, "listener", "a connection is read before there is anything to tell: %s", path())
		case methodIs(e, "SetReadDeadline") && e.args[0] == conn:
			c.ob(deadlineIn(x, o.evs, e, idle), rule, "deadline", "the read deadline is %s, want the idle timeout from now: %s", e.args[1], path())
			dl = true
		case methodIs(e, "Close") && e.args[0] == conn:
			closed = append(closed, e)
			c.ob(len(parse) == 1, rule, "closed", "the connection is closed before it is read: %s", path())
		}
	})
	if !c.ob(len(parse) == 1 && len(listen) == 1 && listen[0].args[0] == parse[0].args[0], rule, "parser", "%d parsers read the connection with %d listeners: %s", len(parse), len(listen), path()) {
		return
	}
	p := parse[0].args[0]
	if c.ob(p.op == "ret" && p.ev.name == syslogPkg+"/octetcounting.NewParser", rule, "parser", "the connection is read by %s: %s", p, path()) {
		own := false
		allEvents(o.evs, func(e *Event) { own = own || e == p.ev })
		c.ob(own, rule, "parser", "connections share a parser: %s", path())
	}
	c.ob(len(closed) > 0, rule, "closed", "the connection is not closed: %s", path())
	c.syslogListener(s, listen[0], conn, idle, rule)
}

func (c *C) syslogListener(s *syslogScn, le *Event, conn *Term, idle func(*Term) bool, rule string) {
	x, T := s.X, s.T
	rT := x.NamedType(syslogPkg, "Result")
	mT := x.NamedType(syslogPkg, "Message")
	sent, rejected := map[string]int{}, map[string]int{}
	for _, valid := range []bool{true, false} {
		what := "invalid message"
		if valid {
			what = "valid message"
		}
		st := x.newState()
		st.mem, st.facts = le.mem, le.facts
		st.mem.shared, st.fShare = true, true
		st.wfacts().Assume(T.Eq(conn, T.Nil()), false)
		res := x.symOf("result", types.NewPointer(rT))
		st.wfacts().Assume(T.Eq(res, T.Nil()), false)
		rerr := x.LoadField(st.mem, res, rT, "Error")
		msg := x.LoadField(st.mem, res, rT, "Message")
		st.wfacts().Assume(T.Eq(rerr, T.Nil()), valid)
		st.wfacts().Assume(T.Eq(msg, T.Nil()), !valid)
		get := func(n string) *Term {
			obj, _, _ := types.LookupFieldOrMethod(mT, false, nil, n)
			f, ok := obj.(*types.Func)
			if !ok {
				panic("no method " + n)
			}
			return T.mk("pure", "("+syslogPkg+".Message)."+n, f.Type().(*types.Signature).Results().At(0).Type(), msg)
		}
		if valid {
			st.wfacts().Assume(T.Eq(get("Priority"), T.Nil()), false)
		}
		outs := x.CallTerm(le.args[1], []*Term{res}, st)
		c.noMay(x, outs, rule, what, append([]string{"nil"}, hardMay...)...)
		for _, o := range outs {
			path := func() string { return x.pathStr(o) }
			if !c.ob(!o.Panic && !o.Endless, rule, what, "a message takes the server with it: %s", path()) {
				continue
			}
			dls := 0
			var sends []*Event
			adds := map[string][]*Event{}
			allEvents(o.evs, func(e *Event) {
				switch {
				case methodIs(e, "SetReadDeadline") && e.args[0] == conn:
					c.ob(deadlineIn(x, o.evs, e, idle), rule, "deadline", "the read deadline is %s, want the idle timeout from now: %s", e.args[1], path())
					dls++
				case methodIs(e, "Send") && e.args[0] == s.ps[1]:
					sends = append(sends, e)
				case methodIs(e, "Add") && len(e.args) == 2:
					for n, k := range s.ctr {
						if k == e.args[0] {
							adds[n] = append(adds[n], e)
							f, ok := e.args[1].FloatVal()
							c.ob(ok && f == 1, rule, "counters", "%s is moved by %s: %s", n, e.args[1], path())
						}
					}
				case methodIs(e, "Close") && e.args[0] == conn:
					c.ob(false, rule, "one message", "a message closes its connection: %s", path())
				case e.kind == EvGo:
					c.ob(false, rule, "one message", "messages may be overtaken by later ones: %s", path())
				}
			})
			c.ob(dls > 0, rule, "deadline", "the read deadline is not moved on after a message: %s", path())
			ing, bad := len(adds["ingress"]), len(adds["invalid_ingress"])
			if !valid {
				rejected["error"]++
				c.ob(len(sends) == 0, rule, what, "a message that could not be parsed is forwarded: %s", path())
				c.ob(ing == 0 && bad == 1, rule, what, "a message that could not be parsed is counted as %d valid, %d invalid: %s", ing, bad, path())
				continue
			}
			env := c.syslogWant(s, o, get, path)
			if !c.ob(env != nil, rule, what, "what kind of message there is is not looked at: %s", path()) {
				continue
			}
			if env.kind == "" {
				rejected[env.why]++
				c.ob(len(sends) == 0, rule, what, "a message with %s is forwarded: %s", env.why, path())
				c.ob(ing == 0 && bad == 1, rule, what, "a message with %s is counted as %d valid, %d invalid: %s", env.why, ing, bad, path())
				continue
			}
			sent[env.kind]++
			if !c.ob(len(sends) == 1, rule, what, "a valid message (%s) is forwarded %d times: %s", env.kind, len(sends), path()) {
				continue
			}
			e := sends[0]
			switch x.isNil(o.St.facts, e.res[1]) {
			case 1:
				c.ob(ing == 1 && bad == 0, rule, "counters", "a forwarded message is counted as %d valid, %d invalid: %s", ing, bad, path())
			case -1:
				c.ob(ing == 0 && bad == 0, rule, "counters", "a dropped message is counted as %d valid, %d invalid: %s", ing, bad, path())
			default:
				c.ob(false, rule, "counters", "whether a message was forwarded is not looked at: %s", path())
			}
			c.syslogSent(s, e, env, rule, path)
		}
	}
	for _, k := range []string{"log", "counter", "gauge", "event", "timer"} {
		c.need(sent[k], 2, rule, k+" messages forwarded")
	}
	for _, k := range []string{"error", "no app name", "no process id", "no timestamp", "an unknown kind", "a bad delta", "a bad total", "no unit", "a bad value", "a bad start", "a bad stop"} {
		c.need(rejected[k], 1, rule, "messages with "+k)
	}
}

type syslogEnv struct {
	kind, why string
	get       func(string) *Term
	data      *Term // the parameters of the structured data
}

var syslogKinds = []string{"counter", "gauge", "event", "timer"}

// syslogWant: what the message is, going by the facts of the path; nil: they
// do not tell.
func (c *C) syslogWant(s *syslogScn, o *Outcome, get func(string) *Term, path func() string) *syslogEnv {
	x, T := s.X, s.T
	f := o.St.facts
	for _, r := range [][2]string{{"Appname", "no app name"}, {"ProcID", "no process id"}, {"Timestamp", "no timestamp"}} {
		if x.isNil(f, get(r[0])) == 1 {
			return &syslogEnv{why: r[1]}
		}
	}
	for _, n := range []string{"Appname", "ProcID", "Timestamp"} {
		if x.isNil(f, get(n)) != -1 {
			return nil
		}
	}
	w := &syslogEnv{get: get}
	sdp := get("StructuredData")
	if x.isNil(f, sdp) == 1 {
		w.kind = "log"
		return w
	}
	if x.isNil(f, sdp) != -1 {
		return nil
	}
	sd := x.loadMem(o.St.mem, sdp, derefType(sdp.typ))
	// the structured data looked at
	var key *Term
	f.each(func(t *Term, v bool) {
		walkTerm(t, func(y *Term) {
			if isKeyOf(y, sd) && (key == nil || y.id > key.id) {
				key = y
			}
		})
	})
	prefix := func(k string) int {
		return f.Eval(T.mk("pure", "strings.HasPrefix", T.Bool(true).typ, key, T.Str(k)))
	}
	if key == nil {
		w.kind = "log"
		return w
	}
	unknown := true
	for _, k := range syslogKinds {
		v := prefix(k)
		if v == 1 {
			w.kind = k
		}
		unknown = unknown && v == -1
	}
	if w.kind == "" {
		if unknown {
			return &syslogEnv{why: "an unknown kind"}
		}
		return nil
	}
	allEvents(o.evs, func(e *Event) {
		for _, a := range append(append([]*Term{}, e.args...), e.val) {
			if a != nil {
				walkTerm(a, func(y *Term) {
					if isValOf(y, sd) || y.op == "lookup" && y.args[0] == sd && y.args[1] == key {
						w.data = y
					}
				})
			}
		}
	})
	if w.data == nil {
		return nil
	}
	failed := ""
	check := func(fn, name, why string) {
		f.each(func(t *Term, v bool) {
			if t.op == "eq" && !v {
				for i := range t.args {
					if p := t.args[i]; p.op == "pure" && p.sym == fn+".1" && w.param(p.args[0], name) && t.args[1-i].IsNil() {
						failed = why
					}
				}
			}
		})
	}
	switch w.kind {
	case "counter":
		check("strconv.ParseUint", "delta", "a bad delta")
		check("strconv.ParseUint", "total", "a bad total")
	case "timer":
		check("strconv.ParseInt", "start", "a bad start")
		check("strconv.ParseInt", "stop", "a bad stop")
	case "gauge":
		check("strconv.ParseFloat", "value", "a bad value")
		f.each(func(t *Term, v bool) {
			if t.op == "has" && t.args[0] == w.data && t.args[1] == T.Str("unit") && !v {
				failed = "no unit"
			}
		})
	}
	if failed != "" {
		return &syslogEnv{why: failed}
	}
	return w
}

func (w *syslogEnv) param(t *Term, name string) bool {
	if t.op != "lookup" || t.args[0] != w.data {
		return false
	}
	s, ok := t.args[1].StrVal()
	return ok && s == name
}

// syslogSent: the request made for a valid message.
func (c *C) syslogSent(s *syslogScn, e *Event, w *syslogEnv, rule string, path func() string) {
	x, T := s.X, s.T
	f := e.facts
	ctx := e.args[1]
	c.ob(ctx.op == "ret" && (strings.HasSuffix(ctx.ev.name, "context.Background") || strings.Contains(ctx.ev.name, "context.WithTimeout") || strings.HasSuffix(ctx.ev.name, "context.TODO")), rule, "context", "the message is forwarded under %s: %s", ctx, path())
	req := e.args[2]
	if !c.ob(isFreshObj(req), rule, "request", "the request is %s: %s", req, path()) {
		return
	}
	rT := derefType(req.typ)
	lo, ok := x.LoadField(e.mem, req, rT, "LocalOnly").BoolVal()
	c.ob(ok && !lo, rule, "request", "the message is kept on the node it is sent to: %s", path())
	b := x.LoadField(e.mem, req, rT, "Envelopes")
	if !c.ob(isFreshObj(b), rule, "request", "the batch is %s: %s", b, path()) {
		return
	}
	es, ok := x.elems(e.mem, x.LoadField(e.mem, b, derefType(b.typ), "Batch"))
	if !c.ob(ok && len(es) == 1 && isFreshObj(es[0]), rule, "request", "the batch does not hold just the message: %s", path()) {
		return
	}
	env := es[0]
	eT := derefType(env.typ)
	deref := func(n string) *Term {
		p := w.get(n)
		return x.loadMem(e.mem, p, derefType(p.typ))
	}
	field := func(n string) *Term { return x.LoadField(e.mem, env, eT, n) }
	c.ob(field("SourceId") == deref("Appname"), rule, "source id", "the source id is %s, want the app name: %s", field("SourceId"), path())
	ts := field("Timestamp")
	c.ob(ts.op == "pure" && strings.HasSuffix(ts.sym, "UnixNano") && ts.args[0] == deref("Timestamp"), rule, "timestamp", "the timestamp is %s, want the message's: %s", ts, path())
	str := T.Str("").typ
	toks := func(t *Term) bool {
		return t.op == "pure" && t.sym == "strings.Split" && isStr(t.args[1], "/") && t.args[0] == T.mk("pure", "strings.Trim", str, deref("ProcID"), T.Str("[]"))
	}
	elem := func(t *Term, last bool) bool {
		hit := false
		walkTerm(t, func(sl *Term) {
			if toks(sl) {
				i := T.Int(0)
				if last {
					i = T.plus(T.Len(sl), -1, i.typ)
				}
				hit = hit || t == x.elemAt(e.mem, sl, i)
			}
		})
		return hit
	}
	entries := func(m *Term) (r [][2]*Term) {
		for k, v := range e.mem.m {
			if k.op == "mapelem" && k.args[0] == m {
				r = append(r, [2]*Term{k.args[1], v})
			}
		}
		return r
	}
	c.ob(elem(field("InstanceId"), true), rule, "instance id", "the instance id is %s, want the last part of the process id: %s", field("InstanceId"), path())
	m := stripIface(field("Message"))
	if !c.ob(isFreshObj(m), rule, "message", "the message is %s: %s", m, path()) {
		return
	}
	wrap := map[string]string{"log": "Log", "counter": "Counter", "gauge": "Gauge", "event": "Event", "timer": "Timer"}[w.kind]
	if !c.ob(isNamedPtr(m.typ, lgrpc, "Envelope_"+wrap), rule, "kind", "a %s becomes a %s: %s", w.kind, m.typ, path()) {
		return
	}
	v := x.LoadField(e.mem, m, derefType(m.typ), wrap)
	if !c.ob(isFreshObj(v), rule, "kind", "the %s is %s: %s", w.kind, v, path()) {
		return
	}
	vf := func(n string) *Term { return x.LoadField(e.mem, v, derefType(v.typ), n) }
	param := func(n, key string) {
		c.ob(w.param(vf(n), key), rule, w.kind, "the %s of a %s is %s, want the parameter %q: %s", n, w.kind, vf(n), key, path())
	}
	parsed := func(t *Term, fn, key string, base int64) {
		ok := t.op == "pure" && t.sym == fn+".0" && w.param(t.args[0], key)
		if ok && base != 0 {
			n, k := t.args[1].IntVal()
			ok = k && n == base
		}
		if ok {
			n, k := t.args[len(t.args)-1].IntVal()
			ok = k && n == 64
		}
		if ok {
			ok = x.isNil(f, T.mk("pure", fn+".1", types.Universe.Lookup("error").Type(), t.args...)) == 1
		}
		c.ob(ok, rule, w.kind, "the parameter %q of a %s becomes %s: %s", key, w.kind, t, path())
	}
	switch w.kind {
	case "log":
		p := stripConv(vf("Payload"))
		msgp := w.get("Message")
		var text *Term
		switch x.isNil(f, msgp) {
		case 1:
			text = T.Str("")
		case -1:
			text = x.loadMem(e.mem, msgp, derefType(msgp.typ))
		}
		ok := text != nil
		if ok {
			want := T.mk("pure", "strings.TrimSpace", str, text)
			ok = p == want || text.op == "const" && (isStr(p, "") || p.IsNil() || p == text)
		}
		c.ob(ok, rule, "payload", "the payload is %s, want the message without the space around it: %s", p, path())
		pr := deref("Priority")
		ty, k := vf("Type").IntVal()
		eleven := 0
		f.each(func(t *Term, v bool) {
			if t.op == "eq" {
				for i := range t.args {
					n, ok := t.args[1-i].IntVal()
					if stripConv(t.args[i]) == pr && ok {
						switch {
						case v && n == 11:
							eleven = 1
						case v || n == 11:
							eleven = -1
						}
					}
				}
			}
		})
		c.ob(k && eleven != 0 && (ty == 1) == (eleven == 1) && (ty == 0 || ty == 1), rule, "log type", "the log type is %s with priority 11 %v: %s", vf("Type"), eleven, path())
		tags := field("Tags")
		var st *Term
		for _, u := range entries(tags) {
			if isStr(u[0], "source_type") {
				st = u[1]
			}
		}
		c.ob(st != nil && elem(st, false), rule, "source type", "the source type is %s, want the first part of the process id: %s", st, path())
	case "counter":
		param("Name", "name")
		parsed(vf("Delta"), "strconv.ParseUint", "delta", 10)
		parsed(vf("Total"), "strconv.ParseUint", "total", 10)
	case "timer":
		param("Name", "name")
		parsed(vf("Start"), "strconv.ParseInt", "start", 10)
		parsed(vf("Stop"), "strconv.ParseInt", "stop", 10)
	case "event":
		param("Title", "title")
		param("Body", "body")
	case "gauge":
		n := 0
		ms := vf("Metrics")
		for _, u := range entries(ms) {
			n++
			c.ob(w.param(u[0], "name"), rule, "gauge", "the metric is named %s: %s", u[0], path())
			if c.ob(isFreshObj(u[1]), rule, "gauge", "the metric is %s: %s", u[1], path()) {
				gT := derefType(u[1].typ)
				un := x.LoadField(e.mem, u[1], gT, "Unit")
				c.ob(w.param(un, "unit"), rule, "gauge", "the unit is %s: %s", un, path())
				parsed(x.LoadField(e.mem, u[1], gT, "Value"), "strconv.ParseFloat", "value", 0)
			}
		}
		c.ob(n == 1, rule, "gauge", "a gauge has %d metrics: %s", n, path())
	}
}

func isStr(t *Term, s string) bool {
	v, ok := t.StrVal()
	return ok && v == s
}
