package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C41", "The nozzle asks for what it is told to and ships every envelope once, in batches",
		"Path-partitioned dataflow over the nozzle made by NewNozzle: the request its Start makes for arbitrary selectors, and one arbitrary iteration of the reader, of the batcher and of each writer.", checkC41)
}

const lgrpc = "code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"

var selectorKinds = []struct{ name, wrap, field, msg string }{
	{"log", "Selector_Log", "Log", "LogSelector"},
	{"gauge", "Selector_Gauge", "Gauge", "GaugeSelector"},
	{"counter", "Selector_Counter", "Counter", "CounterSelector"},
	{"timer", "Selector_Timer", "Timer", "TimerSelector"},
	{"event", "Selector_Event", "Event", "EventSelector"},
}

type nozzleScn struct {
	*X
	ps        []*Term
	sels      *Term // the selectors given
	dopts     *Term
	new       *Outcome
	n, diode  *Term
	outs      []*Outcome
	logger    *Term
	connector *Term
}

// nozzle: a nozzle made with the given selectors, started.
func (c *C) nozzle(rule string, sels func(x *X, t types.Type) *Term) *nozzleScn {
	s := &nozzleScn{X: c.newX()}
	x := s.X
	st := x.newState()
	fn := x.Fn("internal/nozzle", "", "NewNozzle")
	s.ps = x.params(fn)
	var opts []*Term
	for _, w := range []string{"WithDialOpts", "WithSelectors"} {
		of := x.Fn("internal/nozzle", "", w)
		ops := x.params(of)
		if w == "WithSelectors" {
			ops[0] = sels(x, ops[0].typ)
			s.sels = ops[0]
		} else {
			s.dopts = ops[0]
		}
		o := x.single(x.Root(of, st, ops, nil), w)
		st = o.St
		opts = append(opts, o.Vals[0])
	}
	last := len(s.ps) - 1
	s.ps[last] = x.sliceOf(elemTypeOf(s.ps[last].typ), opts...)
	for _, i := range []int{0, 3, 4} {
		st.wfacts().Assume(x.T.Eq(s.ps[i], x.T.Nil()), false)
	}
	s.connector, s.logger = s.ps[0], s.ps[4]
	outs := c.rets(x, x.Root(fn, st, s.ps, nil), rule, "NewNozzle")
	if !c.ob(len(outs) == 1, rule, "construction", "NewNozzle has %d outcomes", len(outs)) {
		return nil
	}
	o := outs[0]
	s.new, s.n = o, o.Vals[0]
	k := 0
	allEvents(o.evs, func(e *Event) {
		if isExtCall(e) && strings.HasPrefix(e.name, diodePkg+".New") {
			s.diode = e.res[0]
			k++
		}
	})
	if !c.ob(k == 1, rule, "buffer", "%d buffers are made", k) {
		return nil
	}
	base := o.St.clone()
	base.trace = nil
	s.outs = x.CallMethod(s.n, "Start", nil, base)
	c.messagesKept(x, s.outs, "delivery", "Start")
	return s
}

func checkC41(c *C) {
	const rule = "nozzle"
	s := c.nozzle(rule, func(x *X, t types.Type) *Term { return x.symOf("selectors", t) })
	if s == nil {
		return
	}
	x, T := s.X, s.T
	d := s.diode.ev
	k, ok := d.args[0].IntVal()
	c.ob(ok && k >= 1, rule, "buffer size", "the buffer is made for %s envelopes", d.args[0])
	c.noMay(x, s.outs, rule, "Start", hardMay...)
	exits := exitsAll(s.outs)
	run, dialFailed := 0, 0
	for _, o := range s.outs {
		path := func() string { return x.pathStr(o) }
		var dials, streams []*Event
		allEvents(o.evs, func(e *Event) {
			switch {
			case isExtCall(e) && strings.HasPrefix(e.name, "google.golang.org/grpc.Dial"):
				dials = append(dials, e)
			case methodIs(e, "Stream") && len(e.args) > 0 && e.args[0] == s.connector:
				streams = append(streams, e)
			}
		})
		for _, d := range dials {
			es, ok := x.elems(d.mem, d.args[len(d.args)-1])
			ok = ok && len(es) == 1 && es[0].op == "spread" && es[0].args[0] == s.dopts || d.args[len(d.args)-1] == s.dopts
			c.ob(d.args[len(d.args)-2] == s.ps[1] && ok, rule, "dial", "%s is dialed with %s, want the given address and options", d.args[len(d.args)-2], d.args[len(d.args)-1])
		}
		if o.Panic {
			if len(dials) == 0 {
				continue // a selector nobody knows: below
			}
			failed := len(dials) == 1 && x.isNil(o.St.facts, dials[0].res[1]) == -1
			c.ob(failed, rule, "stops", "the nozzle gives up although the log cache was dialed: %s", path())
			dialFailed++
			continue
		}
		if !c.ob(o.Endless, rule, "endless", "the nozzle stops: %s", path()) {
			continue
		}
		run++
		if !c.ob(len(dials) == 1 && x.isNil(o.St.facts, dials[0].res[1]) == 1, rule, "dial", "the nozzle goes on without a connection to the log cache (%d dialed): %s", len(dials), path()) ||
			!c.ob(len(streams) == 1, rule, "one stream", "%d streams are opened: %s", len(streams), path()) {
			continue
		}
		c.nozzleRequest(s, o, streams[0], exits)
		c.nozzleRuns(s, o, streams[0].res[0], dials[0].res[0], exits)
	}
	c.need(run, 1, rule, "running nozzles")
	c.need(dialFailed, 1, rule, "failures to dial")
	_ = T
	c.nozzleKinds()
}

// nozzleRequest: the logs provider is asked for the configured kinds.
func (c *C) nozzleRequest(s *nozzleScn, o *Outcome, e *Event, exits []*Event) {
	const rule = "request"
	x := s.X
	path := func() string { return x.pathStr(o) }
	ctx := e.args[1]
	c.ob(ctx.op == "ret" && strings.HasSuffix(ctx.ev.name, "context.Background"), rule, "context", "the stream is opened under %s, with which it ends: %s", ctx, path())
	req := e.args[2]
	if !c.ob(isFreshObj(req), rule, "request", "the logs provider is asked %s: %s", req, path()) {
		return
	}
	rT := derefType(req.typ)
	shard := x.LoadField(e.mem, req, rT, "ShardId")
	c.ob(shard == s.ps[2], rule, "shard", "the shard asked for is %s, want the given one: %s", shard, path())
	pref := x.LoadField(e.mem, req, rT, "UsePreferredTags")
	b, ok := pref.BoolVal()
	c.ob(ok && b, rule, "tags", "preferred tags are asked for: %s: %s", pref, path())
	sel := x.LoadField(e.mem, req, rT, "Selectors")
	if sel.IsNil() && o.St.facts.Eval(x.T.Eq(x.T.Len(s.sels), x.T.Int(0))) == 1 {
		return
	}
	for _, l := range loopsIn(o.evs) {
		for _, it := range l.iters {
			for _, v := range it.next {
				if v.op == "append" && isNamedPtr(elemTypeOf(v.typ), lgrpc, "Selector") {
					c.ob(x.isNil(it.facts, v.args[len(v.args)-1]) == -1 || knownKey(it.facts, v.args[len(v.args)-1]), rule, "no nil", "a selector of an unknown name is asked for as a missing selector, which cannot be sent: %s", it.facts)
				}
			}
		}
	}
	why := x.perElemOK(o, sel, s.sels, exits, func(got, el *Term) bool { return true })
	c.ob(why == "", rule, "selectors", "not exactly the given selectors are asked for, in order: %s: %s", why, path())
}

// knownKey: a value looked up under a key known to be there.
func knownKey(f *Facts, v *Term) bool {
	if v.op != "lookup" {
		return false
	}
	return f.Eval(f.T.mk("has", v.sym, types.Typ[types.Bool], v.args[0], v.args[1])) == 1
}

// nozzleKinds: each name asks for its own kind.
func (c *C) nozzleKinds() {
	const rule = "kinds"
	s := c.nozzle(rule, func(x *X, t types.Type) *Term {
		var ns []*Term
		for _, k := range selectorKinds {
			ns = append(ns, x.T.Str(k.name))
		}
		return x.sliceOf(types.Typ[types.String], ns...)
	})
	if s == nil {
		return
	}
	x := s.X
	n := 0
	for _, o := range s.outs {
		for _, e := range o.evs {
			if !methodIs(e, "Stream") || e.args[0] != s.connector || !isFreshObj(e.args[2]) {
				continue
			}
			sel := x.LoadField(e.mem, e.args[2], derefType(e.args[2].typ), "Selectors")
			es, ok := x.elems(e.mem, sel)
			if !c.ob(ok && len(es) == len(selectorKinds), rule, "selectors", "%d selectors are asked for as %s: %s", len(selectorKinds), sel, x.pathStr(o)) {
				continue
			}
			for i, k := range selectorKinds {
				n++
				got := es[i]
				if !c.ob(isNamedPtr(got.typ, lgrpc, "Selector") && isFreshObj(got), rule, k.name, "%q is asked for as %s", k.name, got) {
					continue
				}
				m := stripIface(x.LoadField(e.mem, got, derefType(got.typ), "Message"))
				if !c.ob(isNamedPtr(m.typ, lgrpc, k.wrap) && isFreshObj(m), rule, k.name, "%q asks for %s", k.name, m.typ) {
					continue
				}
				v := x.LoadField(e.mem, m, derefType(m.typ), k.field)
				if c.ob(isFreshObj(v), rule, k.name, "the selector of %q is %s", k.name, v) && k.name == "gauge" {
					ns := x.LoadField(e.mem, v, derefType(v.typ), "Names")
					c.ob(ns.IsNil(), rule, k.name, "only the gauges %s are asked for", ns)
				}
				if k.name == "counter" && isFreshObj(v) {
					nm := x.LoadField(e.mem, v, derefType(v.typ), "Name")
					str, ok := nm.StrVal()
					c.ob(ok && str == "", rule, k.name, "only the counter %s is asked for", nm)
				}
			}
		}
	}
	c.need(n, len(selectorKinds), rule, "selectors")
}

func (c *C) nozzleRuns(s *nozzleScn, o *Outcome, rx, conn *Term, exits []*Event) {
	const rule = "shipping"
	x, T := s.X, s.T
	path := func() string { return x.pathStr(o) }
	is := func(t, want *Term) bool { return t == want || settled(o.evs, t) == want }
	counter := func(t *Term) string {
		if t = lastSet(o.evs, t); t.op == "ret" && methodIs(t.ev, "NewCounter") {
			str, _ := t.ev.args[1].StrVal()
			return str
		}
		return ""
	}
	var readers, writers []*Event
	top := map[*Event]bool{}
	for _, e := range o.evs {
		top[e] = true
	}
	loopOf := map[*Event]*LoopInfo{}
	for _, l := range loopsIn(o.evs) {
		for _, it := range l.iters {
			for _, e := range it.events {
				if e.kind == EvGo {
					loopOf[e] = l
				}
			}
		}
	}
	touches := func(e *Event, pred func(*Event) bool) bool {
		hit := false
		for _, so := range e.sub {
			allEvents(so.evs, func(y *Event) { hit = hit || pred(y) })
		}
		return hit
	}
	var ch *Term
	allEvents(o.evs, func(e *Event) {
		if e.kind != EvGo {
			return
		}
		r := touches(e, func(y *Event) bool { return y.kind == EvCall && y.name == "dynamic" && is(y.args[0], rx) })
		w := touches(e, func(y *Event) bool { return isInvoke(y) })
		switch {
		case r && !w:
			readers = append(readers, e)
		case w && !r:
			writers = append(writers, e)
		default:
			c.ob(false, rule, "goroutines", "a goroutine neither reads nor ships: %s", path())
		}
	})
	if c.ob(len(readers) == 1 && top[readers[0]] || len(readers) > 0 && strings.Contains(s.diode.ev.name, "ManyToOne"), rule, "one reader", "%d goroutines read into a buffer made for one: %s", len(readers), path()) {
		for _, r := range readers {
			c.nozzleReader(s, r, rx, is, counter, exits)
		}
	}
	if c.ob(len(writers) > 0, rule, "writers", "nothing ships the batches: %s", path()) {
		sure := false
		for _, w := range writers {
			sure = sure || top[w] || loopOf[w] != nil && runsOnce(x, loopOf[w])
			ch = c.nozzleWriter(s, w, conn, is, counter)
		}
		c.ob(sure, rule, "writers", "there may be no goroutine to ship the batches: %s", path())
	}
	if ch == nil {
		return
	}
	// the batcher
	l := lastLoop(o)
	if !c.ob(l != nil, rule, "batcher", "nothing batches the envelopes: %s", path()) {
		return
	}
	batchT := ch.typ.Underlying().(*types.Chan).Elem()
	var cur *Term
	for _, p := range x.locals(l) {
		if types.Identical(p.sym.typ, batchT) {
			if cur != nil {
				cur = nil
				break
			}
			cur = p.sym
		}
	}
	if !c.ob(cur != nil, rule, "batcher", "the batcher does not gather one batch at a time: %s", path()) {
		return
	}
	in := x.initOf(cur)
	c.ob(in != nil && (in.IsNil() || x.isEmptyFresh(in)), rule, "first batch", "the first batch starts with %s", in)
	kinds := map[string]int{}
	for _, it := range l.iters {
		var next, send, tick []*Event
		attempted, polled, reset, sleeps := false, false, false, false
		allEvents(it.events, func(e *Event) {
			switch {
			case e.kind == EvCall && len(e.args) > 0 && s.fromDiode(o, e.args[0], is) && strings.HasSuffix(e.name, "Next"):
				next = append(next, e)
				c.ob(strings.HasSuffix(e.name, ".TryNext"), rule, "batcher waits", "the batcher waits for envelopes, while those it has wait too")
			case e.kind == EvCall && e.name == "(*time.Timer).Reset":
				d, ok := e.args[1].IntVal()
				reset = reset || ok && d > 0 && d <= 10e9
			case e.kind == EvCall && e.name == "time.Sleep":
				d, ok := e.args[0].IntVal()
				c.ob(ok && d > 0 && d <= 1e9, rule, "sleep", "the batcher sleeps for %s", e.args[0])
				sleeps = true
			case e.kind == EvSelect:
				c.ob(!e.blocking || e.name == "select-recv", rule, "batcher waits", "the batcher waits for %v: %s", e.chans, it.facts)
				for _, q := range e.chans {
					if is(q, ch) {
						attempted = true
					} else if timerOf(q) {
						polled = true
					} else {
						c.ob(false, rule, "batcher waits", "the batcher waits for %s: %s", q, it.facts)
					}
				}
				if e.name == "select-send" && is(e.args[0], ch) {
					send = append(send, e)
				}
				if e.name == "select-recv" && timerOf(e.args[0]) {
					tick = append(tick, e)
				}
			case e.kind == EvSend || e.kind == EvRecv:
				c.ob(false, rule, "batcher waits", "the batcher waits for %s of %v: %s", e.name, e.args, it.facts)
			}
		})
		if !c.ob(len(next) == 1, rule, "one envelope", "%d envelopes are taken at a time: %s", len(next), it.facts) {
			continue
		}
		want := cur
		if len(next[0].res) < 2 {
			continue
		}
		found := it.facts.Eval(next[0].res[1])
		if !c.ob(found != 0, rule, "one envelope", "whether there is an envelope is not looked at: %s", it.facts) {
			continue
		}
		// the batch with the envelope found
		after := func(t *Term) bool { return t == want }
		if found == 1 {
			after = func(t *Term) bool {
				return t.op == "append" && len(t.args) == 2 && t.args[0] == cur && stripConv(t.args[1]) == next[0].res[0] && isNamedPtr(t.args[1].typ, lgrpc, "Envelope")
			}
		}
		var ln *Term
		if found == 1 {
			ln = T.plus(T.Len(cur), 1, types.Typ[types.Int])
		} else {
			ln = T.Len(cur)
		}
		nx := it.next[cur]
		switch {
		case len(send) > 0:
			kinds["shipped"]++
			c.ob(len(send) == 1 && after(send[0].val), rule, "batch", "the batch handed to the writers is %s, after %s with found %d: %s", evVals(send), cur, found, it.facts)
			fresh := nx.IsNil() || x.isEmptyFresh(nx) && rootObj(nx).id >= l.startT
			c.ob(fresh, rule, "handed over", "a batch handed to the writers is written to again: the next one is %s: %s", nx, it.facts)
		case attempted:
			kinds["full"]++
			c.ob(nx.IsNil() || emptyOf(nx, after) || x.isEmptyFresh(nx) || after(nx), rule, "dropped batch", "a batch that finds the queue full becomes %s: %s", nx, it.facts)
		default:
			kinds["waiting"]++
			c.ob(after(nx), rule, "batch", "the batch becomes %s, want %s and the envelope found (%d): %s", nx, cur, found, it.facts)
			f := it.facts.clone()
			if len(tick) > 0 {
				c.ob(f.entLE(ln, T.Int(0), 0), rule, "flush", "a batch is not shipped although the interval is over: %s", it.facts)
			} else {
				c.ob(f.entLE(ln, T.Int(0), 10000), rule, "bound", "a batch grows without bound: %s", it.facts)
			}
		}
		c.ob(polled || attempted && reset, rule, "interval", "whether the interval is over is not looked at: %s", it.facts)
		for _, t := range tick {
			c.ob(reset || tickOf(t.args[0], func(d *Term) bool { _, ok := d.IntVal(); return ok }), rule, "interval", "after an interval no other is started: %s", it.facts)
		}
		if found == -1 && len(tick) == 0 {
			c.ob(sleeps, rule, "idle", "the batcher spins while there is nothing to do: %s", it.facts)
		}
	}
	c.need(kinds["shipped"], 2, rule, "iterations that ship")
	c.need(kinds["full"], 1, rule, "iterations that find the queue full")
	c.need(kinds["waiting"], 2, rule, "iterations that wait")
	mk := ch
	if mk.op == "makechan" && len(mk.args) > 0 {
		n, ok := mk.args[0].IntVal()
		c.ob(ok && n >= 1, rule, "queue", "the queue to the writers holds %s batches", mk.args[0])
	}
}

func evVals(evs []*Event) []*Term {
	var r []*Term
	for _, e := range evs {
		r = append(r, e.val)
	}
	return r
}

// emptyOf: the empty prefix of a slice accepted by of.
func emptyOf(t *Term, of func(*Term) bool) bool {
	if t.op != "slice" || !of(t.args[0]) {
		return false
	}
	h, ok := t.args[2].IntVal()
	return ok && h == 0
}

func rootObj(t *Term) *Term {
	for t.op == "slice" {
		t = t.args[0]
	}
	return t
}

// timerOf: the channel of a timer or ticker with a constant, positive interval.
func timerOf(ch *Term) bool {
	pos := func(d *Term) bool { n, ok := d.IntVal(); return ok && n > 0 && n <= 10e9 }
	if tickOf(ch, pos) {
		return true
	}
	if ch.op != "init" || fieldName(ch.args[0]) != "C" {
		return false
	}
	b := ch.args[0].args[0]
	return b.op == "ret" && b.ev.name == "time.NewTimer" && pos(b.ev.args[0])
}

// fromDiode: the nozzle's buffer, or a poller of it.
func (s *nozzleScn) fromDiode(o *Outcome, t *Term, is func(a, b *Term) bool) bool {
	t = stripIface(t)
	if is(t, s.diode) {
		return true
	}
	if t.op == "init" && fieldName(t.args[0]) == "Diode" {
		t = t.args[0].args[0]
	}
	return t.op == "ret" && strings.HasPrefix(t.ev.name, diodePkg+".New") && len(t.ev.args) > 0 && is(stripIface(t.ev.args[0]), s.diode)
}

func isInvoke(e *Event) bool {
	return e.kind == EvCall && e.name == "(*google.golang.org/grpc.ClientConn).Invoke"
}

// runsOnce: the loop counts from 0 to a product of positive numbers.
func runsOnce(x *X, l *LoopInfo) bool {
	// least: the smallest value t can have, if t is a number of processors
	least := func(t *Term) (int64, bool) {
		good, min := true, int64(1)
		var w func(t *Term)
		w = func(t *Term) {
			if n, ok := t.IntVal(); ok {
				good = good && n >= 1
				min *= n
			} else if t.op == "*" {
				for _, y := range t.args {
					w(y)
				}
			} else if t.op != "ret" || t.ev.name != "runtime.NumCPU" && t.ev.name != "runtime.GOMAXPROCS" {
				good = false
			}
		}
		w(t)
		return min, good
	}
	for _, p := range x.locals(l) {
		if p.init == nil {
			continue
		}
		k, up := p.init.IntVal()
		m, down := least(p.init)
		for _, it := range l.iters {
			hit := false
			it.facts.each(func(a *Term, v bool) {
				if !v || a.op != "lt" {
					return
				}
				if up && a.args[0] == p.sym && (k == 0 || k == 1) {
					min, good := least(a.args[1])
					hit = hit || good && min > k
				}
				if z, ok := a.args[0].IntVal(); down && ok && a.args[1] == p.sym {
					hit = hit || z < m
				}
			})
			if hit {
				return true
			}
		}
	}
	return false
}

// nozzleReader: every envelope read is queued once, in order, and counted.
func (c *C) nozzleReader(s *nozzleScn, g *Event, rx *Term, is func(a, b *Term) bool, counter func(*Term) string, exits []*Event) {
	const rule = "reading"
	x, T := s.X, s.T
	n := 0
	for _, o := range g.sub {
		l := lastLoop(o)
		if !c.ob(o.Endless && l != nil, rule, "endless", "reading stops: %s", x.pathStr(o)) {
			continue
		}
		ex := append(exitsAll(g.sub), exits...)
		for _, it := range l.iters {
			n++
			var reads []*Event
			for _, e := range it.events {
				if e.kind == EvCall && e.name == "dynamic" && is(e.args[0], rx) {
					reads = append(reads, e)
				}
			}
			if !c.ob(len(reads) == 1, rule, "one batch", "%d batches are read at a time: %s", len(reads), it.facts) {
				continue
			}
			batch := reads[0].res[0]
			seen, sum := 0, 0
			for _, e := range it.events {
				if e.kind == EvCall && len(e.args) > 0 && is(e.args[0], s.diode) {
					c.ob(false, rule, "queued", "%v is queued outside the loop over the batch: %s", e.args[1:], it.facts)
				}
				if methodIs(e, "Add") && counter(e.args[0]) == "nozzle_ingress" {
					sum++
					c.ob(stripConv(e.args[1]) == T.Len(batch), rule, "count", "%s is counted for a batch read: %s", e.args[1], it.facts)
				}
			}
			for _, il := range loopsIn(it.events) {
				cv, why := x.covers(il, batch, ex)
				if !c.ob(cv != nil, rule, "every envelope", "not every envelope read is queued: %s", why) {
					continue
				}
				seen++
				for _, jt := range il.iters {
					sets, adds := 0, 0
					for _, e := range jt.events {
						if e.kind == EvCall && len(e.args) > 1 && is(e.args[0], s.diode) {
							sets++
							ok := strings.HasSuffix(e.name, ").Set") && stripConv(e.args[1]) == x.elemAt(jt.mem, batch, cv.idx)
							c.ob(ok, rule, "every envelope", "an envelope read is queued as %s: %s", e.args[1], jt.facts)
						}
						if methodIs(e, "Add") && counter(e.args[0]) == "nozzle_ingress" {
							adds++
							v := stripConv(e.args[1]).String()
							c.ob(v == "1", rule, "count", "%s is counted for an envelope read: %s", v, jt.facts)
						}
					}
					c.ob(sets == 1, rule, "every envelope", "an envelope read is queued %d times: %s", sets, jt.facts)
					c.ob(adds+sum == 1, rule, "count", "an envelope read is counted %d times: %s", adds+sum, jt.facts)
				}
			}
			c.ob(seen == 1, rule, "every envelope", "the envelopes read are visited %d times: %s", seen, it.facts)
		}
	}
	c.need(n, 1, rule, "iterations")
}

// nozzleWriter: each batch is sent once, with a deadline, to be routed by the
// receiver, and counted. It returns the queue of batches.
func (c *C) nozzleWriter(s *nozzleScn, g *Event, conn *Term, is func(a, b *Term) bool, counter func(*Term) string) *Term {
	const rule = "writing"
	x, T := s.X, s.T
	var ch *Term
	good, bad := 0, 0
	for _, o := range g.sub {
		l := lastLoop(o)
		if !c.ob(o.Endless && l != nil, rule, "endless", "a writer stops: %s", x.pathStr(o)) {
			continue
		}
		for _, it := range l.iters {
			var recv, sends []*Event
			counts := map[string][]*Term{}
			allEvents(it.events, func(e *Event) {
				switch {
				case e.kind == EvRecv:
					recv = append(recv, e)
				case e.kind == EvSelect || e.kind == EvSend:
					c.ob(false, rule, "waits", "a writer waits for %v: %s", e.chans, it.facts)
				case isInvoke(e):
					sends = append(sends, e)
				case methodIs(e, "Add"):
					n := counter(e.args[0])
					counts[n] = append(counts[n], stripConv(e.args[1]))
				}
			})
			if !c.ob(len(recv) == 1, rule, "one batch", "a writer takes %d batches at a time: %s", len(recv), it.facts) {
				continue
			}
			ch = recv[0].args[0]
			batch := recv[0].res[0]
			if !c.ob(len(sends) == 1 && is(sends[0].args[0], conn), rule, "one request", "a batch is sent by %d requests: %s", len(sends), it.facts) {
				continue
			}
			e := sends[0]
			m, _ := e.args[2].StrVal()
			c.ob(m == "/logcache.v1.Ingress/Send", rule, "request", "a batch is sent to %s", e.args[2])
			c.ob(deadlineCtx(it.events, e.args[1]), rule, "deadline", "a batch is sent under %s, which has no deadline: %s", e.args[1], it.facts)
			c.ob(!cancelledBefore(it.events, e.args[1], e), rule, "deadline", "a batch is sent under a context that is cancelled: %s", it.facts)
			req := stripIface(e.args[3])
			rT := derefType(req.typ)
			lo := x.LoadField(e.mem, req, rT, "LocalOnly")
			b, ok := lo.BoolVal()
			c.ob(ok && !b, rule, "routed", "a batch is sent with LocalOnly %s: %s", lo, it.facts)
			got := x.wireBatch(e.mem, req)
			c.ob(isFreshObj(req) && got == batch, rule, "whole batch", "a batch is sent as %s: %s", got, it.facts)
			one := func(ts []*Term, want string) bool { return len(ts) == 1 && ts[0].String() == want }
			err := e.res[len(e.res)-1]
			switch x.isNil(it.facts, err) {
			case 1:
				good++
				ts := counts["nozzle_egress"]
				c.ob(len(ts) == 1 && ts[0] == T.Len(batch), rule, "egress count", "a batch sent counts %v: %s", ts, it.facts)
				c.ob(len(counts["nozzle_err"]) == 0, rule, "error count", "a batch sent is counted as an error: %s", it.facts)
			case -1:
				bad++
				c.ob(one(counts["nozzle_err"], "1"), rule, "error count", "a batch that was not sent counts %v errors: %s", counts["nozzle_err"], it.facts)
				c.ob(len(counts["nozzle_egress"]) == 0, rule, "egress count", "a batch that was not sent is counted as sent: %s", it.facts)
			default:
				c.ob(false, rule, "error", "the result of sending is not looked at: %s", it.facts)
			}
		}
	}
	c.need(good, 1, rule, "batches sent")
	c.need(bad, 1, rule, "failures")
	return ch
}
