package main

import (
	"go/constant"
	"go/types"
	"strings"
)

func init() {
	register("C22", "Blackbox reports measured reliability, never an invented one",
		"Path-partitioned dataflow over the reliability calculation, both emitters and the blackbox command: the query asked, the ratio formed from its answer, and the envelopes sent are compared, on every abstract path, with the measurement they claim to report.", checkC22)
}

const logrV2 = "code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"

// logr reads a field of a loggregator message.
func (x *X) logr(m *Mem, msg *Term, typ, f string) *Term {
	msg = stripIface(msg)
	t := x.NamedType(logrV2, typ)
	fa := x.FieldNamed(msg, t, f)
	if fa == nil {
		return nil
	}
	return x.loadMem(m, fa, derefType(fa.typ))
}

// bounded: ctx is made among evs, with the given deadline in nanoseconds.
func boundedCtx(evs []*Event, ctx *Term, ns int64) bool {
	made := false
	allEvents(evs, func(e *Event) { made = made || e == ctx.ev })
	if !made {
		return false
	}
	if ctx.op != "ret" || ctx.ev == nil || ctx.ev.name != "context.WithTimeout" {
		return false
	}
	d, ok := ctx.ev.args[1].IntVal()
	return ok && d == ns
}

// gaugeEnvelope: the metrics map of the only envelope of a SendRequest.
func (x *X) gaugeEnvelopes(m *Mem, req *Term) ([]*Term, string) {
	b := x.get(m, stripIface(req), "SendRequest", "Envelopes")
	if b == nil || b.IsNil() {
		return nil, "no batch"
	}
	els, ok := x.elems(m, x.envBatch(m, b))
	if !ok {
		return nil, "an unknown batch " + x.envBatch(m, b).String()
	}
	return els, ""
}

func (x *X) gaugeMap(m *Mem, env *Term) *Term {
	msg := stripIface(x.logr(m, env, "Envelope", "Message"))
	if msg.typ == nil || !strings.HasSuffix(derefType(msg.typ).String(), "Envelope_Gauge") {
		return nil
	}
	g := x.logr(m, msg, "Envelope_Gauge", "Gauge")
	if g == nil || g.IsNil() {
		return nil
	}
	return x.logr(m, g, "Gauge", "Metrics")
}

func logged(evs []*Event, after *Event) bool {
	ok, on := false, after == nil
	allEvents(evs, func(e *Event) {
		if e == after {
			on = true
		}
		if on && e.kind == EvCall && (strings.HasPrefix(e.name, "log.") || strings.HasPrefix(e.name, "(*log.Logger).")) {
			ok = true
		}
	})
	return ok
}

func checkC22(c *C) {
	const calc, emit = "calculation", "emission"
	// the metric names
	names := func(x *X) []string {
		o := x.single(x.Root(x.Fn("internal/blackbox", "", "MagicMetricNames"), nil, nil, nil), "MagicMetricNames")
		els, ok := x.elems(o.St.mem, o.Vals[0])
		var r []string
		for _, e := range els {
			s, k := e.StrVal()
			ok = ok && k
			r = append(r, s)
		}
		if !ok || len(r) == 0 {
			x.giveUp("the test metric names are not static")
		}
		return r
	}
	isProm := func(client *Term) func(e *Event) bool {
		return func(e *Event) bool { return methodIs(e, "PromQL") && !e.inl && e.args[0] == client }
	}
	// Calculate
	{
		x := c.newX()
		T := x.T
		ns := names(x)
		fn := x.Fn("internal/blackbox", "ReliabilityCalculator", "Calculate")
		ps := x.params(fn)
		rt := ps[0].typ
		rc, client := ps[0], ps[1]
		fld := func(n string) *Term { return x.FieldVal(rc, rt, n) }
		st := x.newState()
		for _, f := range []string{"InfoLogger", "ErrorLogger"} {
			st.wfacts().Assume(T.Eq(fld(f), T.Nil()), false)
		}
		secs := func(f string) *Term {
			return T.mk("pure", "(time.Duration).Seconds", types.Typ[types.Float64], fld(f))
		}
		ratio := func(t *Term) bool {
			t = stripConv(t)
			for t.op == "pure" && (t.sym == "math.Floor" || t.sym == "math.Trunc") {
				t = stripConv(t.args[0])
			}
			return t.op == "/" && (t.args[0] == secs("WindowInterval") && t.args[1] == secs("EmissionInterval") ||
				stripConv(t.args[0]) == fld("WindowInterval") && stripConv(t.args[1]) == fld("EmissionInterval"))
		}
		good, bad, nomatrix := 0, 0, 0
		for _, o := range c.rets(x, x.Root(fn, st, ps, nil), calc, "Calculate") {
			f := o.St.facts
			var qs []*Event
			loopy := false
			is := isProm(client)
			for _, e := range o.evs {
				if is(e) {
					qs = append(qs, e)
				}
				if e.kind == EvLoop {
					for _, it := range e.loop.iters {
						for _, d := range it.events {
							loopy = loopy || is(d)
						}
					}
				}
			}
			if !c.ob(!loopy, calc, "queries", "Calculate may ask for a metric any number of times: %s", x.pathStr(o)) {
				continue
			}
			asked := map[string]bool{}
			for _, q := range qs {
				want := func(n string) *Term {
					return T.Concat(T.Str(n+"{source_id=\""), fld("SourceId"), T.Str("\"}["),
						T.mk("pure", "strconv.FormatFloat", types.Typ[types.String], secs("WindowInterval"), T.Int('f'), T.Int(0), T.Int(64)), T.Str("s]"))
				}
				hit := false
				for _, n := range ns {
					if q.args[2] == want(n) {
						hit = true
						asked[n] = true
					}
				}
				c.ob(hit, calc, "query text", "Calculate asks for %s, want every test metric of the configured source over the configured window", q.args[2])
				c.ob(boundedCtx(o.evs, q.args[1], 10e9), calc, "query deadline", "Calculate queries under %s, want a 10s deadline", q.args[1])
				els, ok := x.elems(q.mem, q.args[3])
				if !c.ob(ok && len(els) == 1, calc, "query options", "Calculate queries with options %s", q.args[3]) {
					continue
				}
				// the only option sets the evaluation time
				s1 := x.newState()
				s1.mem, s1.facts = q.mem.clone(), q.facts.clone()
				u := x.symOf("u", types.NewPointer(x.NamedType("net/url", "URL")))
				vals := x.symOf("q", x.NamedType("net/url", "Values"))
				got := x.single(x.CallTerm(els[0], []*Term{u, vals}, s1), "query option")
				var ts *Term
				for _, e := range o.evs {
					if e.kind == EvCall && e.name == "time.Now" && e.mem != nil {
						tt := x.NamedType("time", "Time")
						cand := T.mk("pure", "(time.Time).Truncate", tt, T.mk("pure", "(time.Time).Add", tt, e.res[0], T.mk("neg", "", fld("WindowLag").typ, fld("WindowLag"))), fld("SampleInterval"))
						o2, s2 := x.optVal("WithPromQLTime", x.newState(), cand)
						w := x.single(x.CallTerm(o2, []*Term{u, vals}, s2), "query option")
						g, gok := x.qval(got.St.mem, vals, "time")
						wv, wok := x.qval(w.St.mem, vals, "time")
						if gok && wok && len(g) == 1 && len(wv) == 1 && g[0] == wv[0] {
							ts = cand
						}
					}
				}
				c.ob(ts != nil, calc, "query time", "Calculate does not query at the sample time that lies the configured lag in the past: %s", x.pathStr(o))
			}
			switch x.isNil(f, o.Vals[1]) {
			case -1:
				bad++
				k, ok := o.Vals[0].FloatVal()
				c.ob(ok && k == 0, calc, "value on error", "Calculate returns %s next to an error: %s", o.Vals[0], x.pathStr(o))
				if len(qs) == 0 {
					c.ob(false, calc, "needless error", "Calculate fails without asking: %s", x.pathStr(o))
					continue
				}
				q := qs[len(qs)-1]
				if x.isNil(f, q.res[1]) == -1 {
					c.ob(derives(o.Vals[1], q.res[1]), calc, "error cause", "Calculate hides the query's error: %s", o.Vals[1])
				} else {
					nomatrix++
					c.ob(x.noSeries(f, q), calc, "needless error", "Calculate fails although the answer has a series: %s", x.pathStr(o))
				}
			case 1:
				good++
				c.ob(len(asked) == len(ns) && len(qs) == len(ns), calc, "all metrics", "Calculate asks for %d of %d test metrics: %s", len(asked), len(ns), x.pathStr(o))
				v := o.Vals[0]
				if !c.ob(v.op == "/", calc, "ratio", "Calculate returns %s, want a ratio", v) {
					continue
				}
				// numerator: the points received
				left := map[*Term]bool{}
				for _, q := range qs {
					c.ob(x.isNil(f, q.res[1]) == 1, calc, "failed query", "Calculate returns a value although a query failed: %s", x.pathStr(o))
					left[q.res[0]] = true
				}
				okN := true
				for _, p := range addends(v.args[0]) {
					res := x.firstSeriesPoints(p)
					if res == nil || !left[res] {
						okN = false
						continue
					}
					delete(left, res)
				}
				c.ob(okN && len(left) == 0, calc, "received points", "Calculate counts %s, want the points of the first series of each answer", v.args[0])
				n, r, other := int64(1), 0, false
				for _, p := range factors(v.args[1]) {
					if k, ok := p.IntVal(); ok {
						n *= k
					} else if ratio(p) {
						r++
					} else {
						other = true
					}
				}
				c.ob(!other && r == 1 && n == int64(len(ns)), calc, "expected points", "Calculate expects %s points, want window/emission interval for each test metric", v.args[1])
			default:
				c.ob(false, calc, "error", "Calculate returns (%s, %s) without looking at the error", o.Vals[0], o.Vals[1])
			}
		}
		c.need(good, 1, calc, "measurements")
		c.need(bad, 2, calc, "failing paths")
		c.need(nomatrix, 1, calc, "answers without series")
	}
	// EmitMeasuredMetrics
	{
		x := c.newX()
		T := x.T
		fn := x.Fn("internal/blackbox", "", "EmitMeasuredMetrics")
		ps := x.params(fn)
		src, ing, lc, metrics := ps[0], ps[1], ps[2], ps[3]
		st := x.newState()
		st.wfacts().Assume(T.Eq(ing, T.Nil()), false)
		sent, quiet := 0, 0
		emptyIn := func(f *Facts) int {
			r := 0
			f.each(func(t *Term, v bool) {
				for _, a := range t.args {
					if a.op == "len" && a.args[0] == metrics && r == 0 {
						r = f.Eval(T.Eq(a, T.Int(0)))
					}
				}
			})
			return r
		}
		for _, o := range c.rets(x, x.Root(fn, st, ps, nil), emit, "EmitMeasuredMetrics") {
			f := o.St.facts
			var up *Event
			var ss []*Event
			loops := map[*LoopInfo]bool{}
			for _, e := range o.evs {
				if methodIs(e, "LogCacheVMUptime") && !e.inl && e.args[0] == lc {
					up = e
				}
			}
			allEvents(o.evs, func(e *Event) {
				if methodIs(e, "Send") && !e.inl && e.args[0] == ing {
					ss = append(ss, e)
				}
				if e.kind == EvLoop {
					loops[e.loop] = true
				}
			})
			young := func() int { // 1 yes, -1 no, 0 unknown
				if up == nil {
					return -1
				}
				lo := f.Eval(T.Lt(up.res[0], T.Int(0)))
				hi := f.Eval(T.Lt(up.res[0], T.Int(600)))
				if lo == 1 || hi == -1 {
					return -1
				}
				if lo == -1 && hi == 1 {
					return 1
				}
				return 0
			}
			c.ob(len(ss) <= 1, emit, "sends once", "EmitMeasuredMetrics sends %d times: %s", len(ss), x.pathStr(o))
			if up != nil {
				c.ob(x.isNil(up.facts, lc) == -1, emit, "no HTTP client", "EmitMeasuredMetrics asks a client that may be nil for the uptime: %s", x.pathStr(o))
			} else {
				c.ob(x.isNil(f, lc) == 1 || emptyIn(f) == 1, emit, "uptime", "EmitMeasuredMetrics does not ask how long the log cache has been up: %s", x.pathStr(o))
			}
			if len(ss) == 0 {
				quiet++
				c.ob(emptyIn(f) == 1 || young() == 1, emit, "measured but not sent", "EmitMeasuredMetrics drops the measurement although the log cache is not known to be young: %s", x.pathStr(o))
				continue
			}
			if len(ss) != 1 {
				continue
			}
			sent++
			s := ss[0]
			c.ob(emptyIn(f) == -1, emit, "nothing measured", "EmitMeasuredMetrics sends although nothing was measured: %s", x.pathStr(o))
			c.ob(young() == -1 || up != nil && x.isNil(f, up.res[1]) == -1, emit, "young log cache", "EmitMeasuredMetrics reports on a log cache that may be up for less than ten minutes: %s", x.pathStr(o))
			envs, why := x.gaugeEnvelopes(s.mem, s.args[2])
			if !c.ob(why == "" && len(envs) == 1, emit, "envelope", "EmitMeasuredMetrics sends %d envelopes %s", len(envs), why) {
				continue
			}
			c.ob(boundedCtx(o.evs, s.args[1], 10e9), emit, "deadline", "EmitMeasuredMetrics sends under %s, want a 10s deadline", s.args[1])
			c.ob(x.logr(s.mem, envs[0], "Envelope", "SourceId") == src, emit, "source", "EmitMeasuredMetrics sends for source %s", x.logr(s.mem, envs[0], "Envelope", "SourceId"))
			ts := x.logr(s.mem, envs[0], "Envelope", "Timestamp")
			c.ob(ts.op == "pure" && ts.sym == "UnixNano" && ts.args[0].op == "ret" && ts.args[0].ev.name == "time.Now", emit, "timestamp", "EmitMeasuredMetrics stamps the measurement %s, want now", ts)
			c.metricCopy(x, o, s, x.gaugeMap(s.mem, envs[0]), metrics, loops)
			if x.isNil(f, s.res[1]) != 1 {
				c.ob(logged(o.evs, s), emit, "failure reported", "EmitMeasuredMetrics does not report a measurement it could not write: %s", x.pathStr(o))
			}
		}
		c.need(sent, 2, emit, "measurements sent")
		c.need(quiet, 2, emit, "measurements withheld")
	}
	// test metrics
	{
		x := c.newX()
		T := x.T
		ns := names(x)
		fn := x.Fn("internal/blackbox", "", "StartEmittingTestMetrics")
		ps := x.params(fn)
		src, iv, ing := ps[0], ps[1], ps[2]
		st := x.newState()
		st.wfacts().Assume(T.Eq(ing, T.Nil()), false)
		n, fails := 0, 0
		for _, o := range x.Root(fn, st, ps, nil) {
			var tick *Event
			for _, e := range o.evs {
				if isExtCall(e) && (e.name == "time.NewTicker" || e.name == "time.Tick") {
					tick = e
				}
			}
			if !c.ob(tick != nil && tick.args[0] == iv, emit, "ticker", "test metrics are not emitted at the configured interval: %s", x.pathStr(o)) {
				continue
			}
			for _, e := range o.evs {
				if e.kind != EvLoop {
					continue
				}
				for _, it := range e.loop.iters {
					n++
					c.testMetric(x, T, it, ns, src, iv, ing, &fails)
				}
			}
		}
		c.need(n, 2, emit, "test metric emissions")
		c.need(fails, 1, emit, "failed test metric emissions")
	}
	c.blackboxMain()
}

// addends of a sum, converted or not, without zeros.
func addends(t *Term) []*Term {
	t = stripConv(t)
	if t.op == "+" || t.op == "sum" {
		var r []*Term
		for _, a := range t.args {
			r = append(r, addends(a)...)
		}
		return r
	}
	if k, ok := t.IntVal(); ok && k == 0 {
		return nil
	}
	return []*Term{t}
}

func factors(t *Term) []*Term {
	t = stripConv(t)
	if t.op == "*" {
		var r []*Term
		for _, a := range t.args {
			r = append(r, factors(a)...)
		}
		return r
	}
	return []*Term{t}
}

// firstSeriesPoints: t is the number of points of the first series of a query
// result; returns that result.
func (x *X) firstSeriesPoints(t *Term) *Term {
	if t.op != "len" {
		return nil
	}
	fieldOf := func(t *Term, name string) *Term {
		if t.op == "init" && t.args[0].op == "fieldaddr" && strings.Contains(t.args[0].sym, name) {
			return t.args[0].args[0]
		}
		return nil
	}
	s := fieldOf(t.args[0], "Points")
	if s == nil {
		return nil
	}
	if s.op != "init" || s.args[0].op != "indexaddr" {
		return nil
	}
	if k, ok := s.args[0].args[1].IntVal(); !ok || k != 0 {
		return nil
	}
	return x.matrixSeries(s.args[0].args[0])
}

// matrixSeries: t is the series list of the matrix of a query result.
func (x *X) matrixSeries(t *Term) *Term {
	for i, f := range []string{"Series", "Matrix"} {
		_ = i
		if t.op != "init" || t.args[0].op != "fieldaddr" || !strings.Contains(t.args[0].sym, f) {
			return nil
		}
		t = t.args[0].args[0]
	}
	if t.op != "assert" {
		return nil
	}
	t = t.args[0]
	if t.op != "init" || t.args[0].op != "fieldaddr" || !strings.Contains(t.args[0].sym, "Result") {
		return nil
	}
	return t.args[0].args[0]
}

// noSeries: the facts say that query q's answer holds no series.
func (x *X) noSeries(f *Facts, q *Event) bool {
	if x.isNil(f, q.res[0]) == 1 {
		return true
	}
	ok := false
	f.each(func(t *Term, v bool) {
		if !v && t.op == "istype" && derives(t, q.res[0]) {
			ok = true
		}
		for i, a := range t.args {
			if a.op == "+" {
				a = a.args[0]
			}
			if a.op == "len" && x.matrixSeries(a.args[0]) == q.res[0] && f.Eval(x.T.Eq(a, x.T.Int(0))) == 1 {
				ok = true
			}
			if v && t.op == "eq" && t.args[1-i].IsNil() && (x.matrixSeries(a) == q.res[0] || a.op == "assert" && derives(a, q.res[0]) ||
				a.op == "init" && derives(a, q.res[0])) {
				ok = true
			}
		}
	})
	return ok
}

// metricCopy: the gauge sent holds exactly the measured metrics, as percent.
func (c *C) metricCopy(x *X, o *Outcome, s *Event, mp, metrics *Term, loops map[*LoopInfo]bool) {
	const rule = "emission"
	if !c.ob(mp != nil, rule, "gauge", "EmitMeasuredMetrics does not send a gauge") {
		return
	}
	c.ob(mp.op == "makemap", rule, "metrics made anew", "EmitMeasuredMetrics adds the measured metrics to %s, which may still hold others", mp)
	n := 0
	for l := range loops {
		for _, it := range l.iters {
			up := 0
			for _, e := range it.events {
				if e.kind != EvMapUpdate || e.args[0] != mp {
					continue
				}
				up++
				n++
				k, v := e.args[1], e.args[2]
				c.ob(k.op == "rangekey" && k.args[0] == metrics, rule, "metric name", "EmitMeasuredMetrics sends a metric named %s", k)
				val, unit := x.logr(it.mem, v, "GaugeValue", "Value"), x.logr(it.mem, v, "GaugeValue", "Unit")
				c.ob((val.op == "rangeval" || val.op == "lookup") && val.args[0] == metrics && len(val.args) > 1 && val.args[1] == k, rule, "metric value", "EmitMeasuredMetrics sends %s for metric %s", val, k)
				u, ok := unit.StrVal()
				c.ob(ok && u == "%", rule, "metric unit", "EmitMeasuredMetrics sends the unit %s", unit)
			}
			if up > 0 {
				continue
			}
			ranged := false
			it.facts.each(func(t *Term, v bool) {
				if v && t.op == "rangeok" && t.args[0] == metrics {
					ranged = true
				}
			})
			c.ob(!ranged, rule, "metric skipped", "EmitMeasuredMetrics leaves out a measured metric: %s", it.facts)
		}
	}
	c.ob(n > 0, rule, "metrics", "EmitMeasuredMetrics sends none of the measured metrics: %s", x.pathStr(o))
	done := false
	o.St.facts.each(func(t *Term, v bool) {
		if !v && t.op == "rangeok" && t.args[0] == metrics {
			done = true
		}
	})
	c.ob(done, rule, "all metrics", "EmitMeasuredMetrics sends before every metric was copied: %s", x.pathStr(o))
	for _, e := range o.evs {
		if e.kind == EvMapUpdate && e.args[0] == mp {
			c.ob(false, rule, "invented metric", "EmitMeasuredMetrics adds %s to the measured metrics", e.args[1])
		}
	}
}

// testMetric: one tick's emission.
func (c *C) testMetric(x *X, T *Terms, it *IterPath, ns []string, src, iv, ing *Term, fails *int) {
	const rule = "emission"
	isSend := func(e *Event) bool { return methodIs(e, "Send") && !e.inl && e.args[0] == ing }
	var sends []*Event
	var retry *LoopInfo
	direct := 0
	for _, e := range it.events {
		if isSend(e) {
			sends = append(sends, e)
			direct++
		}
		if e.kind == EvLoop {
			for _, i2 := range e.loop.iters {
				for _, d := range i2.events {
					if isSend(d) {
						retry = e.loop
						sends = append(sends, d)
					}
				}
			}
		}
	}
	where := it.facts.String()
	if !c.ob(len(sends) > 0, rule, "test metric", "a tick passes without a test metric: %s", where) {
		return
	}
	var now *Event
	for _, e := range it.events {
		if isExtCall(e) && e.name == "time.Now" {
			now = e
		}
	}
	for _, s := range sends {
		envs, why := x.gaugeEnvelopes(s.mem, s.args[2])
		if !c.ob(why == "" && len(envs) == len(ns), rule, "test envelopes", "a tick sends %d envelopes %s, want one per test metric", len(envs), why) {
			continue
		}
		seen := map[string]bool{}
		for _, e := range envs {
			c.ob(x.logr(s.mem, e, "Envelope", "SourceId") == src, rule, "test source", "a test metric is sent for source %s", x.logr(s.mem, e, "Envelope", "SourceId"))
			ts := x.logr(s.mem, e, "Envelope", "Timestamp")
			good := ts.op == "pure" && ts.sym == "UnixNano" && ts.args[0].op == "pure" && ts.args[0].sym == "(time.Time).Truncate" && ts.args[0].args[1] == iv &&
				now != nil && ts.args[0].args[0] == now.res[0]
			c.ob(good, rule, "test timestamp", "a test metric is stamped %s, want the tick truncated to the emission interval", ts)
			mp := x.gaugeMap(s.mem, e)
			if !c.ob(mp != nil, rule, "test gauge", "a test metric is not a gauge") {
				continue
			}
			ks := x.mapKeys(s.mem, mp)
			if !c.ob(len(ks) == 1, rule, "test metric names", "a test envelope holds the metrics %v, want one", ks) {
				continue
			}
			seen[ks[0]] = true
			gv, _ := x.qval(s.mem, mp, ks[0])
			if len(gv) == 1 {
				v, ok := x.logr(s.mem, gv[0], "GaugeValue", "Value").FloatVal()
				u, ok2 := x.logr(s.mem, gv[0], "GaugeValue", "Unit").StrVal()
				c.ob(ok && ok2 && v == 10 && u == "ms", rule, "test value", "a test metric is %s %s", x.logr(s.mem, gv[0], "GaugeValue", "Value"), x.logr(s.mem, gv[0], "GaugeValue", "Unit"))
			}
		}
		for _, n := range ns {
			c.ob(seen[n], rule, "test metric names", "a tick does not send %s", n)
		}
		c.ob(boundedCtx(it.events, s.args[1], 10e9), rule, "test deadline", "a test metric is sent under %s, want a 10s deadline", s.args[1])
	}
	// retries: never after a success, at least until one or five failures
	okSent := false
	for _, e := range it.events {
		if isSend(e) && x.isNil(it.facts, e.res[1]) == 1 {
			okSent = true
		}
	}
	if retry == nil {
		ok := 0
		for i, s := range sends {
			v := x.isNil(it.facts, s.res[1])
			if v == 1 {
				ok++
				c.ob(i == len(sends)-1, rule, "duplicate", "a test metric is sent again after it was accepted: %s", where)
			}
		}
		if ok == 0 {
			*fails++
			c.ob(len(sends) == 5, rule, "attempts", "a test metric is given up after %d attempts, want 5: %s", len(sends), where)
			c.ob(logged(it.events, sends[len(sends)-1]), rule, "loss reported", "a lost test metric is not reported: %s", where)
		}
		return
	}
	for _, i2 := range retry.iters {
		for _, d := range i2.events {
			if isSend(d) {
				c.ob(x.isNil(i2.facts, d.res[1]) == -1, rule, "duplicate", "a test metric may be sent again after it was accepted: %s", i2.facts)
			}
		}
	}
	c.ob(direct <= 1, rule, "duplicate", "a test metric is sent %d times beyond its retries: %s", direct, where)
	// the attempts are bounded by a counter
	bound := x.tripCount(retry)
	c.ob(bound == 5, rule, "attempts", "a test metric is attempted %d times, want 5", bound)
	if okSent {
		return
	}
	if x.infeasibleExit(retry, it) {
		return
	}
	*fails++
	c.ob(logged(it.events, nil), rule, "loss reported", "a lost test metric may go unreported: %s", where)
	// given up only when the counter ran out
	out := false
	for _, e := range it.events {
		if e.kind == EvLoopExit && e.loop == retry {
			_, out = x.counterDone(retry, e.facts)
		}
	}
	c.ob(out, rule, "attempts exhausted", "a test metric is given up before its attempts ran out: %s", where)
}

// tripCount: how often a counting loop can run, -1 when it does not count.
func (x *X) tripCount(l *LoopInfo) int64 {
	for _, p := range x.locals(l) {
		if !isIntType(p.sym.typ) || p.init == nil {
			continue
		}
		k0, ok := p.init.IntVal()
		if !ok {
			continue
		}
		for _, d := range []int64{1, -1} {
			good := len(l.iters) > 0
			for _, it := range l.iters {
				if it.next[p.sym] != x.T.plus(p.sym, d, p.sym.typ) {
					good = false
				}
			}
			if !good {
				continue
			}
			// smallest n such that the counter's value after n steps cannot iterate
			for n := int64(0); n <= 64; n++ {
				can := false
				for _, it := range l.iters {
					if _, ok := x.with(it.facts, x.T.Eq(p.sym, x.T.Const(constant.MakeInt64(k0+d*n), p.sym.typ)), true); ok {
						can = true
					}
				}
				if !can {
					return n
				}
			}
		}
	}
	return -1
}

// infeasibleExit: the facts contradict every way the loop can be left: its
// first test (the initial values) and any later one (the values some
// iteration leaves behind).
func (x *X) infeasibleExit(l *LoopInfo, path *IterPath) bool {
	phis := x.loopVars(l, nil)
	feasible := func(val func(p *LoopPhi) *Term, under *Facts) bool {
		f := path.facts.clone()
		if under != nil {
			for t, v := range under.atoms {
				own := false
				for _, p := range phis {
					own = own || t.contains(p.sym)
				}
				if !own {
					if e := f.Eval(t); e == 1 && !v || e == -1 && v {
						return true // the same call of another iteration
					}
					f.Assume(t, v)
				}
			}
		}
		for _, p := range phis {
			v := val(p)
			if v == nil || v.contains(p.sym) {
				continue
			}
			f.atoms[x.T.Eq(p.sym, v)] = true
			for t, b := range path.facts.atoms {
				if t.op == "eq" && (t.args[0] == p.sym || t.args[1] == p.sym) {
					o := t.args[0]
					if o == p.sym {
						o = t.args[1]
					}
					f.Assume(x.T.Eq(v, o), b)
				}
				if t.op == "lt" && (t.args[0] == p.sym || t.args[1] == p.sym) {
					a, c := t.args[0], t.args[1]
					if a == p.sym {
						a = v
					}
					if c == p.sym {
						c = v
					}
					f.Assume(x.T.Lt(a, c), b)
				}
			}
		}
		f.recheck()
		return !f.bad
	}
	if feasible(func(p *LoopPhi) *Term { return p.init }, nil) {
		return false
	}
	for _, it := range l.iters {
		if feasible(func(p *LoopPhi) *Term { return it.next[p.sym] }, it.facts) {
			return false
		}
	}
	return true
}

// counterDone: at an exit, the loop's counter can no longer iterate.
func (x *X) counterDone(l *LoopInfo, f *Facts) (*Term, bool) {
	for _, p := range x.locals(l) {
		if !isIntType(p.sym.typ) || p.init == nil {
			continue
		}
		k0, ok := p.init.IntVal()
		if !ok {
			continue
		}
		n := x.tripCount(l)
		if n < 0 {
			continue
		}
		for _, d := range []int64{1, -1} {
			hit := true
			for _, it := range l.iters {
				if it.next[p.sym] != x.T.plus(p.sym, d, p.sym.typ) {
					hit = false
				}
			}
			if !hit {
				continue
			}
			// values before the last cannot be at this exit
			for i := int64(0); i < n; i++ {
				if _, can := x.with(f, x.T.Eq(p.sym, x.T.Const(constant.MakeInt64(k0+d*i), p.sym.typ)), true); can {
					return p.sym, false
				}
			}
			return p.sym, true
		}
	}
	return nil, false
}

// blackboxMain: what the command reports is what it measured.
func (c *C) blackboxMain() {
	const rule = "reporting"
	s := c.newMainWith("blackbox", modPath+"/internal/blackbox.EmitMeasuredMetrics", "("+modPath+"/internal/blackbox.ReliabilityCalculator).Calculate",
		modPath+"/internal/blackbox.NewIngressClient", modPath+"/internal/blackbox.NewGrpcEgressClient", modPath+"/internal/blackbox.NewHttpEgressClient", modPath+"/internal/blackbox.StartEmittingTestMetrics")
	x := s.x
	if s.load == nil {
		c.ob(false, rule, "configuration", "the blackbox does not load its configuration")
		return
	}
	is := func(e *Event, n string) bool {
		return e.kind == EvCall && strings.HasSuffix(e.name, n) && strings.Contains(e.name, "internal/blackbox")
	}
	emits, both, onlyG := 0, 0, 0
	seen := map[*LoopInfo]bool{}
	for _, o := range s.outs {
		if x.isNil(o.St.facts, s.load.res[0]) != 1 {
			continue
		}
		var start *Event
		allEvents(o.evs, func(e *Event) {
			if is(e, ".StartEmittingTestMetrics") {
				start = e
			}
		})
		if o.Panic && start == nil {
			continue
		}
		if c.ob(start != nil, rule, "test metrics", "the blackbox does not emit test metrics: %s", x.pathStr(o)) {
			c.ob(s.envName(settled(o.evs, start.args[0])) == "SOURCE_ID" && s.envName(settled(o.evs, start.args[1])) == "EMISSION_INTERVAL", rule, "test metrics", "test metrics are emitted for (%s, %s), want the configured source and interval", start.args[0], start.args[1])
			in := settled(o.evs, start.args[2])
			c.ob(in.op == "ret" && is(in.ev, ".NewIngressClient"), rule, "test metrics client", "test metrics are sent to %s", in)
		}
		for _, l := range o.evs {
			if l.kind != EvLoop || seen[l.loop] {
				continue
			}
			seen[l.loop] = true
			for _, it := range l.loop.iters {
				var em *Event
				n := 0
				var calcs []*Event
				for _, e := range it.events {
					if is(e, ".EmitMeasuredMetrics") {
						em, n = e, n+1
					}
					if is(e, ".Calculate") {
						calcs = append(calcs, e)
					}
				}
				if n == 0 && len(calcs) == 0 {
					continue
				}
				if !c.ob(n == 1, rule, "one report", "a sample is reported %d times: %s", n, it.facts) {
					continue
				}
				emits++
				c.ob(s.envName(settled(o.evs, em.args[0])) == "SOURCE_ID", rule, "report source", "a sample is reported for %s", em.args[0])
				in := settled(o.evs, em.args[1])
				c.ob(in.op == "ret" && is(in.ev, ".NewIngressClient"), rule, "report client", "a sample is sent to %s", in)
				c.ob(stripConv(em.args[3]).id >= l.loop.startT, rule, "stale metrics", "a sample's report may carry values of earlier samples")
				keys := map[string]bool{}
				for _, k := range x.mapKeys(em.mem, em.args[3]) {
					keys[k] = true
				}
				cf := 0
				it.facts.each(func(t *Term, v bool) {
					if s.envName(t) == "CF_BLACKBOX_ENABLED" {
						if v {
							cf = 1
						} else {
							cf = -1
						}
					}
				})
				want := map[string]bool{}
				got := map[string]bool{}
				for _, k := range calcs {
					cl := settled(o.evs, k.args[1])
					name := ""
					if cl.op == "ret" && is(cl.ev, ".NewGrpcEgressClient") {
						name = "blackbox.grpc_reliability"
					} else if cl.op == "ret" && is(cl.ev, ".NewHttpEgressClient") || cf == 1 && x.httpClient(o, cl) {
						name = "blackbox.http_reliability"
					} else {
						c.ob(false, rule, "measured client", "reliability is measured through %s", cl)
						continue
					}
					got[name] = true
					c.calcConfig(s, o, k, rule)
					switch x.isNil(it.facts, k.res[1]) {
					case 1:
						want[name] = true
						v, _ := x.qval(em.mem, em.args[3], name)
						c.ob(len(v) == 1 && v[0] == k.res[0], rule, "value of "+name, "%s is reported as %v, want the measured value: %s", name, v, it.facts)
					case -1:
					default:
						c.ob(false, rule, "error of "+name, "a measurement of %s is used without looking at its error", name)
					}
				}
				c.ob(got["blackbox.grpc_reliability"], rule, "gRPC measured", "a sample does not measure gRPC reliability: %s", it.facts)
				if cf != 0 {
					c.ob(got["blackbox.http_reliability"] == (cf == 1), rule, "HTTP measured", "HTTP reliability measured: %v, want it exactly when the CF blackbox is enabled: %s", got["blackbox.http_reliability"], it.facts)
				} else {
					c.ob(false, rule, "HTTP measured", "whether HTTP reliability is measured does not depend on CF_BLACKBOX_ENABLED: %s", it.facts)
				}
				if cf == 1 {
					both++
				} else {
					onlyG++
				}
				for k := range keys {
					c.ob(want[k], rule, "invented "+k, "%s is reported although it was not measured: %s", k, it.facts)
				}
				for k := range want {
					c.ob(keys[k], rule, "missing "+k, "%s was measured but is not reported: %s", k, it.facts)
				}
			}
		}
	}
	c.need(emits, 6, rule, "samples")
	c.need(both, 4, rule, "samples with the CF blackbox")
	c.need(onlyG, 2, rule, "samples without the CF blackbox")
}

// httpClient: t is a client variable only ever given the HTTP client.
func (x *X) httpClient(o *Outcome, t *Term) bool {
	ok := false
	t.any(func(y *Term) bool {
		if y.op == "ret" && y.ev != nil && strings.HasSuffix(y.ev.name, ".NewHttpEgressClient") {
			ok = true
		}
		return ok
	})
	return ok
}

// calcConfig: the calculator measures what the operator configured.
func (c *C) calcConfig(s *mainScn, o *Outcome, k *Event, rule string) {
	x := s.x
	rc := k.args[0]
	t := rc.typ
	if t == nil {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for f, env := range map[string]string{"SampleInterval": "SAMPLE_INTERVAL", "WindowInterval": "WINDOW_INTERVAL", "WindowLag": "WINDOW_LAG", "EmissionInterval": "EMISSION_INTERVAL", "SourceId": "SOURCE_ID"} {
		v := x.FieldVal(rc, t, f)
		c.ob(s.envName(settled(o.evs, v)) == env, rule, "configured "+f, "reliability is calculated with %s = %s, want the configured %s", f, v, env)
	}
}
