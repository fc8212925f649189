package main

import (
	"strings"
)

func init() {
	register("C39", "The blackbox keeps emitting and sampling until it is stopped",
		"Path-partitioned dataflow over the emitter, the command's main function and the constructors of its clients: a path that leaves either loop, waits for anything but the configured ticks, runs one loop inside the other's way, makes a request without a bound, or uses a connection that was not made is reported.", checkC39)
}

// paced: each iteration of l waits exactly once, for the ticks of iv, and for
// nothing else.
func (c *C) paced(x *X, o *Outcome, l *LoopInfo, rule, what string, iv func(t *Term) bool) {
	for _, it := range l.iters {
		n := 0
		allEvents(it.events, func(e *Event) {
			switch e.kind {
			case EvRecv, EvSend, EvSelect:
				n++
				ok := e.kind == EvRecv && tickOf(e.args[0], iv)
				c.ob(ok, rule, what+" waits", "%s waits for %s %v: %s", what, e.name, e.args, it.facts)
			case EvGo:
				c.ob(false, rule, what+" goroutines", "%s starts another goroutine each time: %s", what, it.facts)
			case EvCall:
				if e.name == "(*time.Ticker).Stop" {
					c.ob(false, rule, what+" ticker", "%s stops its ticker: %s", what, it.facts)
				}
			}
		})
		c.ob(n == 1, rule, what+" waits", "%s waits %d times, want one tick: %s", what, n, it.facts)
	}
}

func tickOf(ch *Term, iv func(t *Term) bool) bool {
	if ch.ev != nil && ch.ev.name == "time.Tick" {
		return iv(ch.ev.args[0])
	}
	if ch.op != "init" || fieldName(ch.args[0]) != "C" {
		return false
	}
	b := ch.args[0].args[0]
	return b.op == "ret" && b.ev.name == "time.NewTicker" && iv(b.ev.args[0])
}

// waits: what the iterations of l wait for.
func waits(l *LoopInfo) []*Event {
	var r []*Event
	for _, it := range l.iters {
		allEvents(it.events, func(e *Event) {
			if e.kind == EvRecv || e.kind == EvSelect {
				r = append(r, e)
			}
		})
	}
	return r
}

// lastLoop: the loop an endless path ends in.
func lastLoop(o *Outcome) *LoopInfo {
	if !o.Endless || len(o.evs) == 0 {
		return nil
	}
	e := o.evs[len(o.evs)-1]
	return e.loop
}

func checkC39(c *C) {
	// the emitter
	{
		const rule = "emitting"
		x := c.newX()
		fn := x.Fn("internal/blackbox", "", "StartEmittingTestMetrics")
		ps := x.params(fn)
		st := x.newState()
		st.wfacts().Assume(x.T.Eq(ps[2], x.T.Nil()), false)
		outs := x.Root(fn, st, ps, nil)
		c.noMay(x, outs, rule, "emitting", append([]string{"nil"}, hardMay...)...)
		n := 0
		for _, o := range outs {
			if !c.ob(o.Endless, rule, "endless", "test metrics stop being emitted: %s", x.pathStr(o)) {
				continue
			}
			n++
			c.paced(x, o, lastLoop(o), rule, "emitting", func(t *Term) bool { return t == ps[1] })
		}
		c.need(n, 1, rule, "endless paths")
	}
	c.blackboxRuns()
	// the connection test metrics are written to
	{
		const rule = "ingress client"
		x := c.newX()
		x.unwrap = true
		fn := x.Fn("internal/blackbox", "", "NewIngressClient")
		ps := x.params(fn)
		good, bad := 0, 0
		outs := x.Root(fn, x.newState(), ps, nil)
		for _, o := range outs {
			path := func() string { return x.pathStr(o) }
			var dials []*Event
			again := false
			allEvents(o.evs, func(e *Event) {
				if isExtCall(e) && strings.HasPrefix(e.name, "google.golang.org/grpc.Dial") {
					dials = append(dials, e)
				}
			})
			for _, l := range loopsIn(o.evs) {
				if x.infeasibleExit(l, &IterPath{facts: o.St.facts}) {
					again = true
				}
				for _, it := range l.iters {
					for _, e := range it.events {
						if isExtCall(e) && strings.HasPrefix(e.name, "google.golang.org/grpc.Dial") {
							c.ob(x.isNil(it.facts, e.res[1]) == -1, rule, "dials again", "the log cache may be dialed again after it was reached, leaking a connection: %s", it.facts)
						}
					}
				}
			}
			if again {
				continue // cannot happen
			}
			if !c.ob(!o.Endless, rule, "endless", "dialing never ends: %s", path()) {
				continue
			}
			if !c.ob(len(dials) > 0, rule, "dial", "the log cache is not dialed: %s", path()) {
				continue
			}
			for _, d := range dials {
				es, ok := x.elems(d.mem, d.args[len(d.args)-1])
				ok = ok && len(es) == 1 && es[0].op == "spread" && es[0].args[0] == ps[1] || d.args[len(d.args)-1] == ps[1]
				c.ob(d.args[len(d.args)-2] == ps[0] && ok, rule, "dial", "%s is dialed with %s, want the given address and options: %s", d.args[0], d.args[len(d.args)-1], path())
			}
			if o.Panic {
				bad++
				continue
			}
			var conn *Term
			if v := stripIface(o.Vals[0]); isFreshObj(v) {
				conn = stripIface(x.LoadField(o.St.mem, v, derefType(v.typ), "cc"))
			}
			if c.ob(conn != nil && conn.op == "ret" && strings.HasPrefix(conn.ev.name, "google.golang.org/grpc.Dial") && x.isNil(o.St.facts, conn.ev.res[1]) == 1, rule, "connection", "the blackbox may write through %s, which is no established connection: %s", conn, path()) {
				good++
			}
		}
		c.need(good, 1, rule, "connections")
		c.need(bad, 1, rule, "failures to dial")
	}
	// the HTTP client reliability is measured through
	{
		const rule = "http client"
		x := c.newX()
		fn := x.Fn("internal/blackbox", "", "NewHttpEgressClient")
		ps := x.params(fn)
		n := 0
		for _, o := range c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, "NewHttpEgressClient") {
			path := func() string { return x.pathStr(o) }
			m := o.St.mem
			cl := stripIface(o.Vals[0])
			if !c.ob(isFreshObj(cl) && isNamedPtr(cl.typ, clientPkg, "Client"), rule, "client", "reliability is measured through %s", cl) {
				continue
			}
			get := func(p *Term, f string) *Term {
				return stripIface(settled(o.evs, x.LoadField(m, p, derefType(p.typ), f)))
			}
			c.ob(get(cl, "addr") == ps[0], rule, "address", "the log cache is asked at %s: %s", get(cl, "addr"), path())
			oa := get(cl, "httpClient")
			if !c.ob(isFreshObj(oa) && isNamedPtr(oa.typ, clientPkg, "Oauth2HTTPClient"), rule, "authentication", "the log cache is asked through %s: %s", oa, path()) {
				continue
			}
			c.ob(get(oa, "oauth2Addr") == ps[1] && get(oa, "client") == ps[2] && get(oa, "clientSecret") == ps[3], rule, "identity", "tokens are asked from %s as %s: %s", get(oa, "oauth2Addr"), get(oa, "client"), path())
			hc := get(oa, "c")
			if !c.ob(isFreshObj(hc) && isNamedPtr(hc.typ, "net/http", "Client"), rule, "http client", "requests are sent through %s: %s", hc, path()) {
				continue
			}
			d, ok := get(hc, "Timeout").IntVal()
			c.ob(ok && d > 0, rule, "bounded requests", "an HTTP request may take forever (timeout %s): %s", get(hc, "Timeout"), path())
			c.ob(x.skips(o, m, get(hc, "Transport"), func(t *Term) bool { return t == ps[4] }), rule, "verification", "whether the log cache's certificate is verified is not what was asked for: %s", path())
			n++
		}
		c.need(n, 1, rule, "HTTP clients")
	}
}

const clientPkg = modPath + "/pkg/client"

// blackboxRuns: main emits and samples side by side, forever.
func (c *C) blackboxRuns() {
	const rule = "sampling"
	pk := modPath + "/internal/blackbox"
	s := c.newMainWith("blackbox", pk+".EmitMeasuredMetrics", "("+pk+".ReliabilityCalculator).Calculate",
		pk+".NewIngressClient", pk+".NewGrpcEgressClient", pk+".NewHttpEgressClient", pk+".StartEmittingTestMetrics")
	x := s.x
	if s.load == nil {
		c.ob(false, rule, "configuration", "the blackbox does not load its configuration")
		return
	}
	n, https := 0, 0
	for _, o := range s.outs {
		path := func() string { return x.pathStr(o) }
		var emitter *Event
		direct := false
		look := func(evs []*Event, inGo bool) {
			allEvents(evs, func(e *Event) {
				if e.kind == EvCall && strings.HasSuffix(e.name, ".StartEmittingTestMetrics") {
					emitter = e
					direct = direct || !inGo
				}
			})
		}
		gos := 0
		for _, e := range o.evs {
			if e.kind == EvGo {
				var evs []*Event
				for _, sub := range e.sub {
					evs = append(evs, sub.evs...)
				}
				was := emitter
				look(evs, true)
				if emitter != was {
					gos++
				}
				continue
			}
			look([]*Event{e}, false)
		}
		c.ob(!direct, rule, "emitter", "emitting test metrics, which never ends, keeps the blackbox from sampling: %s", path())
		ticked := false
		for _, e := range o.evs {
			ticked = ticked || e.kind == EvRecv || e.kind == EvLoop && len(waits(e.loop)) > 0
		}
		if o.Panic && !ticked {
			continue // a failed start
		}
		if x.isNil(o.St.facts, s.load.res[0]) != 1 {
			continue
		}
		c.ob(gos == 1, rule, "emitter", "%d emitters are started: %s", gos, path())
		if !c.ob(o.Endless && !o.Panic, rule, "endless", "the blackbox stops sampling: %s", path()) {
			continue
		}
		l := lastLoop(o)
		n++
		c.paced(x, o, l, rule, "sampling", func(t *Term) bool { return s.envName(settled(o.evs, t)) == "SAMPLE_INTERVAL" })
		calc := 0
		for _, it := range l.iters {
			k := 0
			allEvents(it.events, func(e *Event) {
				if e.kind == EvCall && strings.HasSuffix(e.name, ".Calculate") {
					k++
				}
			})
			c.ob(k > 0, rule, "samples", "a tick passes without a sample: %s", it.facts)
			calc += k
		}
		c.need(calc, 1, rule, "samples")
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvCall && strings.HasSuffix(e.name, ".NewHttpEgressClient") {
				https++
				for i, env := range []string{"DATA_SOURCE_HTTP_ADDR", "UAA_ADDR", "CLIENT_ID", "CLIENT_SECRET", "SKIP_TLS_VERIFY"} {
					c.ob(s.envName(settled(o.evs, e.args[i])) == env, rule, "http client", "the HTTP client gets %s for %s: %s", e.args[i], env, path())
				}
			}
		})
	}
	c.need(n, 2, rule, "endless paths")
	c.need(https, 1, rule, "HTTP clients")
}
