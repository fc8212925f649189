package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C40", "Envelopes sent through a batching client are shipped in order, or counted",
		"Path-partitioned dataflow over the batching ingress client: what Send queues, what one arbitrary iteration of its background loop does, what the batch writer ships for an arbitrary batch, and what the overflow callback counts.", checkC40)
}

const diodePkg = "code.cloudfoundry.org/go-diodes"

// sliceMapped: the batch sent is want(element) for every element of s, in order.
func (x *X) goEvents(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		if e.kind == EvGo {
			r = append(r, e)
		}
	}
	return r
}

// deadlineCtx: a context with a timeout made among evs, by the x/net wrapper
// or the standard library.
func deadlineCtx(evs []*Event, ctx *Term) bool {
	made := false
	allEvents(evs, func(e *Event) { made = made || e == ctx.ev })
	if !made {
		return false
	}
	if ctx.op != "ret" || ctx.ev == nil || !strings.HasSuffix(ctx.ev.name, "context.WithTimeout") {
		return false
	}
	d, ok := ctx.ev.args[1].IntVal()
	return ok && d > 0 && ctx.ev.args[0].op == "ret" && strings.HasSuffix(ctx.ev.args[0].ev.name, "context.Background")
}

// cancelled: the context's cancel function runs before e.
func cancelledBefore(evs []*Event, ctx *Term, e *Event) bool {
	if ctx.ev == nil || len(ctx.ev.res) < 2 {
		return false
	}
	for _, y := range evs {
		if y == e {
			return false
		}
		if y.kind == EvCall && y.name == "dynamic" && len(y.args) > 0 && y.args[0] == ctx.ev.res[1] {
			return true
		}
	}
	return false
}

// countsDropped: the overflow callback adds the given number to a counter of
// the component, exactly once, and does nothing else to it.
func (c *C) countsDropped(x *X, cb *Term, st *State, ctr *Term, rule, what string) {
	cb = stripConv(stripIface(cb))
	if !c.ob(cb.op == "closure" || cb.op == "func", rule, what+" callback", "%s: overflow is told to %s", what, cb) {
		return
	}
	n := x.symOf("missed", types.Typ[types.Int])
	outs := x.CallTerm(cb, []*Term{n}, st.clone())
	c.noMay(x, outs, rule, what+" callback", hardMay...)
	for _, o := range outs {
		if !c.ob(!o.Panic && !o.Endless, rule, what+" callback", "%s: the overflow callback does not return: %s", what, x.pathStr(o)) {
			continue
		}
		k := 0
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvCall && len(e.args) > 0 && e.args[0] == ctr {
				k++
				ok := strings.HasSuffix(e.name, ".Add") && stripConv(e.args[1]) == n
				c.ob(ok, rule, what+" count", "%s: %d dropped envelopes are counted by %s %v", what, 1, e.name, e.args[1:])
			}
		})
		c.ob(k == 1, rule, what+" count", "%s: dropped envelopes are counted %d times: %s", what, k, x.pathStr(o))
	}
}

func checkC40(c *C) {
	for _, routed := range []bool{false, true} {
		c.batchClient(routed)
	}
}

func (c *C) batchClient(routed bool) {
	x := c.newX()
	T := x.T
	rule := "batching"
	if routed {
		rule = "batching with routing"
	}
	st := x.newState()
	fn := x.Fn("internal/routing", "", "NewBatchedIngressClient")
	ps := x.params(fn)
	optT := ps[5].typ
	var opts []*Term
	if routed {
		of := x.Fn("internal/routing", "", "WithRouting")
		o := x.single(x.Root(of, st, nil, nil), "WithRouting")
		st = o.St
		opts = append(opts, o.Vals[0])
	}
	ps[5] = x.sliceOf(elemTypeOf(optT), opts...)
	for _, i := range []int{2, 3, 4} {
		st.wfacts().Assume(T.Eq(ps[i], T.Nil()), false)
	}
	size, interval, client, dropped := ps[0], ps[1], ps[2], ps[3]
	outs := c.rets(x, x.Root(fn, st, ps, nil), rule, "NewBatchedIngressClient")
	if len(outs) != 1 {
		c.ob(false, rule, "construction", "NewBatchedIngressClient has %d outcomes", len(outs))
		return
	}
	o := outs[0]
	first := o
	b := o.Vals[0]
	if !c.ob(isFreshObj(b), rule, "construction", "NewBatchedIngressClient returns %s", b) {
		return
	}
	gos := x.goEvents(o.evs)
	if !c.ob(len(gos) == 1, rule, "one shipper", "%d goroutines ship the envelopes, want one", len(gos)) {
		return
	}
	// the buffer
	var diode *Event
	n := 0
	allEvents(o.evs, func(e *Event) {
		if isExtCall(e) && strings.HasPrefix(e.name, diodePkg+".New") {
			diode = e
			n++
		}
	})
	if !c.ob(n == 1, rule, "buffer", "%d buffers are made", n) {
		return
	}
	c.ob(strings.HasSuffix(diode.name, ".NewManyToOne"), rule, "buffer", "several goroutines send through one client, but its buffer is made by %s, for one sender", diode.name)
	k, ok := diode.args[0].IntVal()
	c.ob(ok && k >= 1, rule, "buffer size", "the buffer is made for %s envelopes", diode.args[0])
	c.countsDropped(x, diode.args[1], o.St, dropped, rule, "overflow")
	buf := diode.res[0]
	is := func(t, want *Term) bool { return t == want || settled(o.evs, t) == want }
	base := o.St.clone()
	base.trace = nil
	// Send
	{
		sf := x.Fn("internal/routing", "*BatchedIngressClient", "Send")
		sp := x.params(sf)
		in := sp[2]
		st := base.clone()
		st.wfacts().Assume(T.Eq(in, T.Nil()), false)
		outs := c.rets(x, x.CallMethod(b, "Send", sp[1:], st), rule, "Send")
		c.wireNil(x, outs, rule, "Send", in)
		c.noMay(x, outs, rule, "Send", hardMay...)
		batch := x.wireBatch(base.mem, in)
		for _, o := range outs {
			path := func() string { return x.pathStr(o) }
			c.ob(o.Vals[1].IsNil() && !o.Vals[0].IsNil(), rule, "Send answer", "Send answers (%s, %s): %s", o.Vals[0], o.Vals[1], path())
			seen := 0
			for _, e := range o.evs {
				if e.kind == EvCall && len(e.args) > 0 && is(e.args[0], buf) {
					c.ob(false, rule, "queued", "Send queues %v outside the loop over the batch: %s", e.args[1:], path())
				}
			}
			for _, l := range loopsIn(o.evs) {
				cv, why := x.covers(l, batch, exitsOf(outs, l))
				if !c.ob(cv != nil, rule, "every envelope", "Send does not visit every envelope: %s", why) {
					continue
				}
				seen++
				for _, it := range l.iters {
					sets := pick(it.events, func(e *Event) bool { return len(e.args) > 0 && is(e.args[0], buf) })
					ok := len(sets) == 1 && strings.HasSuffix(sets[0].name, ").Set") && x.same(it.facts, stripConv(sets[0].args[1]), x.elemAt(it.mem, batch, cv.idx))
					c.ob(ok, rule, "every envelope", "an envelope is queued by %v: %s", sets, it.facts)
				}
			}
			none := x.sentEmpty(o.St.facts, base.mem, in)
			c.ob(seen == 1 || seen == 0 && none, rule, "every envelope", "Send visits the envelopes %d times: %s", seen, path())
		}
		c.need(len(outs), 1, rule, "Send paths")
	}
	// the background loop
	g := gos[0]
	if g.fnv == nil {
		x.giveUp("the goroutine at %s is not recognised", x.where(g))
	}
	var writer *Term
	loops := 0
	louts := x.CallTerm(g.fnv, g.args, base.clone())
	c.noMay(x, louts, rule, "shipping", hardMay...)
	for _, o := range louts {
		path := func() string { return x.pathStr(o) }
		if !c.ob(o.Endless, rule, "endless", "shipping stops: %s", path()) {
			continue
		}
		loops++
		var batcher *Event
		for _, e := range o.evs {
			if isExtCall(e) && strings.HasSuffix(e.name, "go-batching.NewBatcher") {
				batcher = e
			}
		}
		if !c.ob(batcher != nil && is(batcher.args[0], size) && is(batcher.args[1], interval), rule, "batcher", "envelopes are not batched by the given size and interval: %s", path()) {
			continue
		}
		writer = stripConv(stripIface(batcher.args[2]))
		bt := batcher.res[0]
		l := lastLoop(o)
		kinds := map[string]int{}
		for _, it := range l.iters {
			var next, write, flush, sleep []*Event
			allEvents(it.events, func(e *Event) {
				switch {
				case e.kind == EvCall && len(e.args) > 0 && is(e.args[0], buf):
					next = append(next, e)
				case e.kind == EvCall && len(e.args) > 0 && e.args[0] == bt && strings.HasSuffix(e.name, ").Write"):
					write = append(write, e)
				case e.kind == EvCall && len(e.args) > 0 && e.args[0] == bt:
					flush = append(flush, e)
				case e.kind == EvCall && e.name == "time.Sleep":
					sleep = append(sleep, e)
				case e.kind == EvRecv || e.kind == EvSend || e.kind == EvSelect:
					c.ob(false, rule, "waits", "shipping waits for %s: %s", e, it.facts)
				}
			})
			if !c.ob(len(next) == 1 && strings.HasSuffix(next[0].name, ").TryNext"), rule, "one envelope", "shipping takes %d envelopes at a time: %s", len(next), it.facts) {
				continue
			}
			switch it.facts.Eval(next[0].res[1]) {
			case 1:
				kinds["write"]++
				ok := len(write) == 1 && stripConv(stripIface(write[0].args[1])) == next[0].res[0]
				c.ob(ok, rule, "every envelope", "a queued envelope is batched %d times, as %v: %s", len(write), evArgs(write), it.facts)
				if ok {
					c.ob(isNamedPtr(stripIface(write[0].args[1]).typ, "code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2", "Envelope"), rule, "batched type", "a %s is batched", stripIface(write[0].args[1]).typ)
				}
			case -1:
				kinds["idle"]++
				c.ob(len(write) == 0, rule, "nothing queued", "%v is batched although nothing was queued: %s", evArgs(write), it.facts)
				c.ob(len(flush) == 1 && strings.HasSuffix(flush[0].name, "Flush"), rule, "flush", "waiting envelopes are not flushed while nothing new arrives: %s", it.facts)
				d := int64(0)
				if len(sleep) == 1 {
					d, _ = sleep[0].args[0].IntVal()
				}
				c.ob(d > 0, rule, "idle", "shipping spins while nothing is queued: %s", it.facts)
			default:
				c.ob(false, rule, "one envelope", "whether there is an envelope is not looked at: %s", it.facts)
			}
		}
		c.need(kinds["write"], 1, rule, "iterations that batch")
		c.need(kinds["idle"], 1, rule, "idle iterations")
	}
	c.need(loops, 1, rule, "shipping loops")
	if writer == nil {
		return
	}
	// the writer
	bs := x.symOf("batch", types.NewSlice(types.NewInterfaceType(nil, nil)))
	var wouts []*Outcome
	if writer.op == "closure" || writer.op == "func" {
		wouts = x.CallTerm(writer, []*Term{bs}, base.clone())
	} else {
		wouts = x.CallMethod(writer, "Write", []*Term{bs}, base.clone())
	}
	wouts = c.rets(x, wouts, rule, "writer")
	c.noMay(x, wouts, rule, "writer", "nil", "unchecked", "index", "slicebounds", "nilmap", "divzero")
	for _, o := range wouts {
		path := func() string { return x.pathStr(o) }
		var sends []*Event
		allEvents(o.evs, func(e *Event) {
			if methodIs(e, "Send") && is(e.args[0], client) {
				sends = append(sends, e)
			}
		})
		if len(sends) == 0 && o.St.facts.Eval(T.Eq(T.Len(bs), T.Int(0))) == 1 {
			continue // nothing to ship
		}
		if !c.ob(len(sends) == 1, rule, "one request", "a batch is shipped by %d requests: %s", len(sends), path()) {
			continue
		}
		s := sends[0]
		c.ob(deadlineCtx(o.evs, s.args[1]), rule, "deadline", "a batch is shipped under %s, which has no deadline: %s", s.args[1], path())
		c.ob(!cancelledBefore(o.evs, s.args[1], s), rule, "deadline", "a batch is shipped under a context that is cancelled: %s", path())
		req := s.args[2]
		rT := derefType(req.typ)
		lo := x.LoadField(s.mem, req, rT, "LocalOnly")
		lo = lastSet(first.evs, lo)
		bv, ok := lo.BoolVal()
		c.ob(ok && bv == !routed, rule, "local only", "a batch is shipped with LocalOnly %s: %s", lo, path())
		eb := x.LoadField(s.mem, req, rT, "Envelopes")
		if !c.ob(isFreshObj(eb), rule, "envelopes", "a batch is shipped as %s: %s", eb, path()) {
			continue
		}
		sent := x.LoadField(s.mem, eb, derefType(eb.typ), "Batch")
		why := ""
		if sent.IsNil() || x.isEmptyFresh(sent) {
			if o.St.facts.Eval(T.Eq(T.Len(bs), T.Int(0))) != 1 {
				why = "no envelopes are sent"
			}
		} else {
			why = x.perElemOK(o, sent, bs, exitsAll(wouts), func(got, el *Term) bool {
				return got.op == "assert" && stripIface(got.args[0]) == el && isNamedPtr(got.typ, "code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2", "Envelope")
			})
		}
		c.ob(why == "", rule, "every envelope", "a batch is not shipped whole and in order: %s: %s", why, path())
	}
	c.need(len(wouts), 2, rule, "writer paths")
}

// lastSet resolves a value re-read from memory to the last value stored there.
func lastSet(evs []*Event, t *Term) *Term {
	t = stripIface(t)
	if t.op != "init" {
		return t
	}
	v := t
	allEvents(evs, func(e *Event) {
		if e.kind == EvStore && e.addr == t.args[0] {
			v = e.val
		}
	})
	return v
}

func evArgs(evs []*Event) []*Term {
	var r []*Term
	for _, e := range evs {
		r = append(r, e.args...)
	}
	return r
}

// wireBatch: the envelopes of a send request.
func (x *X) wireBatch(m *Mem, in *Term) *Term {
	b := x.LoadField(m, in, derefType(in.typ), "Envelopes")
	return x.LoadField(m, b, derefType(b.typ), "Batch")
}

// sentEmpty: the request is known to have no envelopes.
func (x *X) sentEmpty(f *Facts, m *Mem, in *Term) bool {
	b := x.LoadField(m, in, derefType(in.typ), "Envelopes")
	return x.isNil(f, b) == 1 || f.Eval(x.T.Eq(x.T.Len(x.wireBatch(m, in)), x.T.Int(0))) == 1
}

// perElemOK: sym accumulates one value accepted by ok for every element of s,
// in order, starting empty.
func (x *X) perElemOK(o *Outcome, sym, s *Term, exits []*Event, ok func(got, el *Term) bool) string {
	if sym.op == "mkslice" && len(sym.args) > 0 && sym.args[0] == x.T.Len(s) {
		return x.filled(o, sym, s, exits, ok)
	}
	if sym.loop == nil {
		return "not accumulated by a loop: " + sym.String()
	}
	cv, why := x.covers(sym.loop, s, exits)
	if cv == nil {
		return why
	}
	in := x.initOf(sym)
	if in == nil || !(in.IsNil() || x.isEmptyFresh(in)) {
		return "does not start empty"
	}
	for _, it := range sym.loop.iters {
		n := it.next[sym]
		if n.op != "append" || len(n.args) != 2 || n.args[0] != sym || !ok(n.args[1], x.elemAt(it.mem, s, cv.idx)) {
			return "an iteration yields " + n.String()
		}
	}
	return ""
}

// filled: a slice as long as s, each element of which is set from that of s.
func (x *X) filled(o *Outcome, sl, s *Term, exits []*Event, ok func(got, el *Term) bool) string {
	n := 0
	for _, l := range loopsIn(o.evs) {
		writes := false
		allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) {
			writes = writes || e.kind == EvStore && e.addr.op == "indexaddr" && e.addr.args[0] == sl
		})
		if !writes {
			continue
		}
		n++
		cv, why := x.covers(l, s, exits)
		if cv == nil {
			return why
		}
		for _, it := range l.iters {
			k := 0
			for _, e := range it.events {
				if e.kind == EvStore && e.addr.op == "indexaddr" && e.addr.args[0] == sl {
					k++
					if e.addr.args[1] != cv.idx || !ok(e.val, x.elemAt(it.mem, s, cv.idx)) {
						return "an iteration sets " + e.addr.String() + " to " + e.val.String()
					}
				}
			}
			if k != 1 {
				return "an iteration leaves an element out"
			}
		}
	}
	if n != 1 {
		return "not filled by one loop"
	}
	return ""
}
