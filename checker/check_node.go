package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C42", "A node serves every request with the store and the routes it was configured with",
		"Path-partitioned dataflow over New, every option, and Start of the node with the constructors of its parts left abstract: what each part is made from, one arbitrary iteration over the node addresses, the functions handed on (hash, local ingress), and what is registered before the node serves.", checkC42)
}

const (
	routingPkg = modPath + "/internal/routing"
)

type nodeScn struct {
	*X
	opt  map[string][]*Term // the arguments of each option given
	ps   []*Term            // those of New
	node *Term
	outs []*Outcome

	closing string // the field asked when serving ends
}

// atomicField: the field an atomic operation works on.
func atomicField(e *Event) string {
	if e.kind == EvCall && (strings.HasPrefix(e.name, "sync/atomic.") || strings.HasPrefix(e.name, "(*sync/atomic.")) && len(e.args) > 0 && e.args[0].op == "fieldaddr" {
		return fieldName(e.args[0])
	}
	return ""
}

// node: a node made with the named options, started.
func (c *C) node(rule string, opts []string, assume func(x *X, s *nodeScn, st *State)) *nodeScn {
	s := &nodeScn{X: c.newX(), opt: map[string][]*Term{}, closing: c.nodeClose()}
	x := s.X
	x.nonNilRes = map[string]bool{}
	for _, f := range []string{
		storePkg + ".NewStore", storePkg + ".NewPruneConsultant", "(*" + storePkg + ".Store).Put",
		routingPkg + ".NewRoutingTable", routingPkg + ".NewOrchestratorAgent", routingPkg + ".NewLocalStoreReader",
		routingPkg + ".NewBatchedIngressClient", routingPkg + ".NewIngressReverseProxy", routingPkg + ".NewEgressReverseProxy",
		modPath + "/internal/promql.New", modPath + "/internal/promql/data_reader.NewWalkingDataReader",
		modPath + "/pkg/client.NewClient", modPath + "/pkg/client.WithViaGRPC", modPath + "/internal/cache.NewMemoryAnalyzer",
		lcv1 + ".NewIngressClient", lcv1 + ".NewEgressClient",
		lcv1 + ".RegisterIngressServer", lcv1 + ".RegisterEgressServer", lcv1 + ".RegisterOrchestrationServer", lcv1 + ".RegisterPromQLQuerierServer",
	} {
		x.opaque[f] = true
		x.nonNilRes[f] = true
	}
	st := x.newState()
	fn := x.Fn("internal/cache", "", "New")
	s.ps = x.params(fn)
	var ots []*Term
	for _, w := range opts {
		of := x.Fn("internal/cache", "", w)
		s.opt[w] = x.params(of)
		o := x.single(x.Root(of, st, s.opt[w], nil), w)
		st = o.St
		ots = append(ots, o.Vals[0])
	}
	last := len(s.ps) - 1
	s.ps[last] = x.sliceOf(elemTypeOf(s.ps[last].typ), ots...)
	for _, p := range s.ps[:last] {
		st.wfacts().Assume(x.T.Eq(p, x.T.Nil()), false)
	}
	if assume != nil {
		assume(x, s, st)
	}
	outs := c.rets(x, x.Root(fn, st, s.ps, nil), rule, "New")
	c.need(len(outs), 1, rule, "outcomes of New")
	for _, o := range outs {
		base := o.St.clone()
		base.trace = nil
		s.node = o.Vals[0]
		// Close may be called at any time
		if T := derefType(s.node.typ); s.closing != "" {
			a := x.FieldNamed(s.node, T, s.closing)
			x.storeMem(base.wmem(), a, x.symOf("closing", derefType(a.typ)), derefType(a.typ))
		}
		s.outs = append(s.outs, x.CallMethod(s.node, "Start", nil, base)...)
	}
	return s
}

func checkC42(c *C) {
	all := []string{"WithMaxPerSource", "WithAddr", "WithServerOpts", "WithMemoryLimit", "WithQueryTimeout", "WithClustered", "WithExternalAddr"}
	s := c.node("configured", all, func(x *X, s *nodeScn, st *State) {
		T := x.T
		idx, addrs := s.opt["WithClustered"][0], s.opt["WithClustered"][1]
		f := st.wfacts()
		f.Assume(T.Lt(idx, T.Int(0)), false)
		f.Assume(T.Lt(idx, T.Len(addrs)), true)
	})
	c.nodeRuns(s, "configured", nodeWant{
		max: s.opt["WithMaxPerSource"][0], addr: s.opt["WithAddr"][0], limit: s.opt["WithMemoryLimit"][0], timeout: s.opt["WithQueryTimeout"][0],
		idx: s.opt["WithClustered"][0], addrs: s.opt["WithClustered"][1], dopts: s.opt["WithClustered"][2], sopts: s.opt["WithServerOpts"][0],
	})
	d := c.node("by default", nil, nil)
	T := d.T
	c.nodeRuns(d, "by default", nodeWant{max: T.Int(100000), addr: T.Str(":8080"), limit: d.floatConst("50"), timeout: T.Int(10e9), idx: T.Int(0)})
	e := c.node("alone", []string{"WithClustered", "WithAddr"}, func(x *X, s *nodeScn, st *State) {
		st.wfacts().Assume(x.T.Eq(s.opt["WithClustered"][0], x.T.Int(0)), true)
		st.wfacts().Assume(x.T.Eq(x.T.Len(s.opt["WithClustered"][1]), x.T.Int(0)), true)
	})
	c.nodeRuns(e, "alone", nodeWant{max: e.T.Int(100000), addr: e.opt["WithAddr"][0], limit: e.floatConst("50"), timeout: e.T.Int(10e9), idx: e.T.Int(0), dopts: e.opt["WithClustered"][2]})
	c.nodeMemory()
}

// nodeMemory: what pruning is told about memory, and the gauges report.
func (c *C) nodeMemory() {
	const rule = "memory"
	x := c.newX()
	ctor := x.Fn("internal/cache", "", "NewMemoryAnalyzer")
	ps := x.params(ctor)
	st := x.newState()
	st.wfacts().Assume(x.T.Eq(ps[0], x.T.Nil()), false)
	o := x.single(c.rets(x, x.Root(ctor, st, ps, nil), rule, "NewMemoryAnalyzer"), "NewMemoryAnalyzer")
	base := o.St.clone()
	base.trace = nil
	outs := c.rets(x, x.CallMethod(o.Vals[0], "Memory", nil, base), rule, "Memory")
	c.need(len(outs), 1, rule, "Memory paths")
	for _, mo := range outs {
		path := func() string { return x.pathStr(mo) }
		src := func(t *Term, field, reader string) bool {
			t = stripConv(t)
			if t.op != "init" || fieldName(t.args[0]) != field {
				return false
			}
			obj := t.args[0].args[0]
			for _, e := range mo.evs {
				if isExtCall(e) && e.name == reader && len(e.args) == 1 && e.args[0] == obj {
					return true
				}
			}
			return false
		}
		const sig = "(*github.com/cloudfoundry/gosigar.Mem).Get"
		c.ob(len(mo.Vals) == 3 && src(mo.Vals[0], "HeapInuse", "runtime.ReadMemStats"), rule, "heap", "the heap in use is reported as %s: %s", mo.Vals[0], path())
		c.ob(len(mo.Vals) == 3 && src(mo.Vals[1], "ActualFree", sig), rule, "available", "the available memory is reported as %s: %s", mo.Vals[1], path())
		c.ob(len(mo.Vals) == 3 && src(mo.Vals[2], "Total", sig), rule, "total", "the total memory is reported as %s: %s", mo.Vals[2], path())
		for i, g := range []string{"log_cache_heap_in_use_memory", "log_cache_available_system_memory", "log_cache_total_system_memory"} {
			n := 0
			for _, e := range mo.evs {
				if methodIs(e, "Set") && e.args[0].op == "ret" && methodIs(e.args[0].ev, "NewGauge") {
					if nm, _ := e.args[0].ev.args[1].StrVal(); nm == g && stripConv(e.args[1]) == stripConv(mo.Vals[i]) {
						n++
					}
				}
			}
			c.ob(n == 1, rule, g, "the gauge %s is set %d times to what is reported: %s", g, n, path())
		}
	}
}

// nodeClose: closing is flagged before the server stops, and it does stop.
func (c *C) nodeClose() (flag string) {
	const rule = "close"
	x := c.newX()
	fn := x.Fn("internal/cache", "*LogCache", "Close")
	outs := c.rets(x, x.Root(fn, x.newState(), nil, nil), rule, "Close")
	c.need(len(outs), 1, rule, "Close paths")
	for _, o := range outs {
		stopped := 0
		for _, e := range o.evs {
			if e.kind != EvCall {
				continue
			}
			switch {
			case atomicField(e) != "" && e.name != "sync/atomic.LoadInt64":
				flag = atomicField(e)
			case strings.HasPrefix(e.name, "(*google.golang.org/grpc.Server).") && strings.HasSuffix(e.name, "Stop"):
				stopped++
				c.ob(flag != "", rule, "close", "the server stops before the node is marked as closing, which ends the process: %s", x.pathStr(o))
			}
		}
		c.ob(stopped == 1, rule, "close", "Close stops the server %d times: %s", stopped, x.pathStr(o))
	}
	return flag
}

type nodeWant struct {
	max, addr, limit, timeout, idx *Term
	addrs                          *Term // nil: this node alone
	dopts, sopts                   *Term
}

func (c *C) nodeRuns(s *nodeScn, rule string, w nodeWant) {
	x := s.X
	c.noMay(x, s.outs, rule, "Start", hardMay...)
	ran, refused := 0, 0
	for _, o := range s.outs {
		path := func() string { return x.pathStr(o) }
		if o.Panic {
			ok := false
			allEvents(o.evs, func(e *Event) {
				if e.kind == EvCall && (e.name == "net.Listen" || strings.HasPrefix(e.name, "google.golang.org/grpc.Dial")) {
					ok = ok || x.isNil(o.St.facts, e.res[1]) == -1
				}
			})
			c.ob(ok, rule, "stops", "a node does not start although it can listen and reach the others: %s", path())
			refused++
			continue
		}
		if !c.ob(!o.Endless, rule, "returns", "Start does not return: %s", path()) {
			continue
		}
		ran++
		c.nodeParts(s, o, rule, w)
	}
	c.need(ran, 1, rule, "started nodes")
	c.need(refused, 1, rule, "failures to start")
}

// made: the one call that makes a part.
func (c *C) made(evs []*Event, fn, rule, what string) *Event {
	var r []*Event
	allEvents(evs, func(e *Event) {
		if e.kind == EvCall && e.name == fn {
			r = append(r, e)
		}
	})
	if !c.ob(len(r) == 1, rule, what, "%d calls make the %s, want one", len(r), what) {
		return nil
	}
	return r[0]
}

// boundMethod: t is the method of that name of recv.
func boundMethod(t, recv *Term, name string) bool {
	t = stripConv(stripIface(t))
	return t.op == "closure" && t.fn != nil && strings.HasPrefix(t.fn.Name(), name) && len(t.args) == 1 && stripIface(t.args[0]) == recv
}

// spreads: a variadic argument that passes on the given slice as it is.
func (x *X) spreads(e *Event, i int, s *Term) bool {
	a := e.args[i]
	if s == nil {
		es, ok := x.elems(e.mem, a)
		return a.IsNil() || ok && len(es) == 0
	}
	if a == s {
		return true
	}
	es, ok := x.elems(e.mem, a)
	return ok && len(es) == 1 && es[0].op == "spread" && es[0].args[0] == s
}

func (c *C) nodeParts(s *nodeScn, o *Outcome, rule string, w nodeWant) {
	x, T := s.X, s.T
	path := func() string { return x.pathStr(o) }
	get := func(fn, what string) *Event { return c.made(o.evs, fn, rule, what) }
	is := func(t, want *Term) bool { return t == want || settled(o.evs, t) == want }
	m, logger := s.ps[0], s.ps[1]

	// the store
	st := get(storePkg+".NewStore", "store")
	pc := get(storePkg+".NewPruneConsultant", "prune consultant")
	ma := get(modPath+"/internal/cache.NewMemoryAnalyzer", "memory analyzer")
	if st == nil || pc == nil || ma == nil {
		return
	}
	c.ob(st.args[0] == w.max, rule, "store size", "the store keeps %s envelopes of a source, want %s", st.args[0], w.max)
	c.ob(stripIface(st.args[1]) == pc.res[0], rule, "store pruning", "the store is pruned by %s", st.args[1])
	c.ob(pc.args[1] == w.limit, rule, "memory limit", "the store is pruned at %s percent of memory, want %s", pc.args[1], w.limit)
	k, ok := pc.args[0].IntVal()
	c.ob(ok && k >= 1, rule, "prune step", "the store is pruned in steps of %s", pc.args[0])
	c.ob(stripIface(pc.args[2]) == ma.res[0], rule, "memory", "pruning reads the memory of %s", pc.args[2])

	// the listener
	lis := get("net.Listen", "listener")
	if lis == nil {
		return
	}
	net, _ := lis.args[0].StrVal()
	c.ob(net == "tcp" && lis.args[1] == w.addr, rule, "address", "the node listens on %s %s, want %s", lis.args[0], lis.args[1], w.addr)
	c.ob(x.isNil(o.St.facts, lis.res[1]) == 1, rule, "address", "the node goes on without listening: %s", path())

	// routing
	rt := get(routingPkg+".NewRoutingTable", "routing table")
	ag := get(routingPkg+".NewOrchestratorAgent", "orchestrator agent")
	lr := get(routingPkg+".NewLocalStoreReader", "local reader")
	in := get(routingPkg+".NewIngressReverseProxy", "ingress proxy")
	eg := get(routingPkg+".NewEgressReverseProxy", "egress proxy")
	pq := get(modPath+"/internal/promql.New", "PromQL querier")
	wr := get(modPath+"/internal/promql/data_reader.NewWalkingDataReader", "data reader")
	cl := get(modPath+"/pkg/client.NewClient", "PromQL client")
	sv := get("google.golang.org/grpc.NewServer", "server")
	for _, e := range []*Event{rt, ag, lr, in, eg, pq, wr, cl, sv} {
		if e == nil {
			return
		}
	}
	if w.addrs != nil {
		c.ob(rt.args[0] == w.addrs, rule, "nodes", "the routing table is made for %s, want the configured nodes", rt.args[0])
	} else {
		es, ok := x.elems(rt.mem, rt.args[0])
		c.ob(ok && len(es) == 1, rule, "nodes", "the routing table of a node alone is made for %s", rt.args[0])
	}
	c.nodeHash(s, o, rt.args[1], rule)
	c.ob(stripIface(ag.args[0]) == rt.res[0], rule, "orchestrated table", "the scheduler sets the ranges of %s, not of the node's routing table", ag.args[0])
	c.ob(stripIface(lr.args[0]) == st.res[0], rule, "local reader", "local reads are answered from %s, not from the node's store", lr.args[0])
	for _, p := range []*Event{in, eg} {
		n := p.name[strings.LastIndex(p.name, ".")+1:]
		c.ob(boundMethod(p.args[0], rt.res[0], "Lookup"), rule, n+" routes", "%s routes by %s, not by the node's routing table", n, p.args[0])
	}
	c.nodeClients(s, o, in, eg, st.res[0], lr.res[0], rule, w)

	// PromQL
	c.ob(stripIface(pq.args[0]) == wr.res[0], rule, "PromQL reads", "PromQL reads through %s", pq.args[0])
	c.ob(pq.args[3] == w.timeout, rule, "query timeout", "a query may take %s, want %s", pq.args[3], w.timeout)
	c.ob(stripIface(pq.args[1]) == m && pq.args[2] == logger, rule, "PromQL metrics", "PromQL reports to %s and %s", pq.args[1], pq.args[2])
	c.ob(boundMethod(wr.args[0], cl.res[0], "Read"), rule, "PromQL reads", "PromQL reads with %s, not with a client of the node", wr.args[0])
	a := cl.args[0]
	okA := a.op == "ret" && methodIs(a.ev, "String") && a.ev.args[0].op == "ret" && methodIs(a.ev.args[0].ev, "Addr") && is(a.ev.args[0].ev.args[0], lis.res[0])
	c.ob(okA, rule, "PromQL reads", "PromQL reads from %s, not from the address the node listens on", a)
	co, ok := x.elems(cl.mem, cl.args[1])
	vg := c.made(o.evs, modPath+"/pkg/client.WithViaGRPC", rule, "PromQL client option")
	c.ob(vg != nil && ok && len(co) == 1 && co[0] == vg.res[0], rule, "PromQL client", "the PromQL client is made with %s", cl.args[1])
	if vg != nil && w.dopts != nil {
		c.ob(x.spreads(vg, 0, w.dopts), rule, "PromQL client", "the PromQL client dials with %s, want the configured options", vg.args[0])
	}

	// the server
	c.ob(x.spreads(sv, 0, w.sopts), rule, "server options", "the server is made with %s, want the configured options", sv.args[0])
	want := []struct {
		fn   string
		impl *Term
	}{{"Ingress", in.res[0]}, {"Egress", eg.res[0]}, {"Orchestration", ag.res[0]}, {"PromQLQuerier", pq.res[0]}}
	serves := 0
	serve := func(evs []*Event, after map[string]bool, done *Outcome) {
		reg := map[string]bool{}
		for k := range after {
			reg[k] = true
		}
		for _, e := range evs {
			if e.kind != EvCall {
				continue
			}
			for _, q := range want {
				if e.name == lcv1+".Register"+q.fn+"Server" {
					c.ob(is(e.args[0], sv.res[0]) && stripIface(e.args[1]) == q.impl, rule, q.fn, "%s requests are served by %s", q.fn, e.args[1])
					c.ob(!reg[q.fn], rule, q.fn, "%s is registered twice, which ends the process", q.fn)
					reg[q.fn] = true
				}
			}
			if e.name == "(*google.golang.org/grpc.Server).Serve" {
				serves++
				c.ob(is(e.args[0], sv.res[0]) && is(e.args[1], lis.res[0]), rule, "serve", "the node serves %s on %s", e.args[0], e.args[1])
				for _, q := range want {
					c.ob(reg[q.fn], rule, q.fn, "the node serves before %s is registered, which ends the process: %s", q.fn, path())
				}
				if x.isNil(done.St.facts, e.res[0]) == -1 && !done.Panic {
					closing := false
					for _, y := range evs {
						if atomicField(y) == s.closing && len(y.res) == 1 {
							closing = closing || done.St.facts.Eval(T.Eq(y.res[0], T.Int(0))) == -1 || done.St.facts.Eval(y.res[0]) == 1
						}
					}
					c.ob(closing, rule, "serve", "the node goes on when it can no longer serve: %s", x.pathStr(done))
				}
				if x.isNil(done.St.facts, e.res[0]) != -1 {
					c.ob(!done.Panic, rule, "serve", "the node ends the process after it was closed: %s", x.pathStr(done))
				}
			}
		}
	}
	before := map[string]bool{}
	for _, e := range o.evs {
		if e.kind == EvCall {
			for _, q := range want {
				if e.name == lcv1+".Register"+q.fn+"Server" {
					c.ob(is(e.args[0], sv.res[0]) && stripIface(e.args[1]) == q.impl, rule, q.fn, "%s requests are served by %s", q.fn, e.args[1])
					before[q.fn] = true
				}
			}
		}
		if e.kind == EvGo {
			for _, so := range e.sub {
				serve(so.evs, before, so)
			}
		}
		c.ob(e.kind != EvCall || e.name != "(*google.golang.org/grpc.Server).Serve", rule, "serve", "Start blocks: %s", path())
	}
	c.need(serves, 2, rule, "outcomes of serving")
}

// nodeHash: sources are hashed as the scheduler's ranges assume.
func (c *C) nodeHash(s *nodeScn, o *Outcome, h *Term, rule string) {
	x := s.X
	h = stripConv(stripIface(h))
	id := x.symOf("sourceID", types.Typ[types.String])
	outs := c.rets(x, x.CallTerm(h, []*Term{id}, o.St.clone()), rule, "hash")
	c.ob(len(outs) == 1, rule, "hash", "the hash has %d outcomes", len(outs))
	for _, ho := range outs {
		v := ho.Vals[0]
		ok := v.op == "ret" && v.ev.name == "hash/crc64.Checksum" && stripConv(v.ev.args[0]) == id
		if ok {
			t := settled(o.evs, v.ev.args[1])
			ok = t.op == "ret" && t.ev.name == "hash/crc64.MakeTable" && strings.Contains(t.ev.args[0].String(), "14514072000185962306")
		}
		c.ob(ok, rule, "hash", "a source is hashed to %s, want its CRC-64 (ECMA)", v)
	}
}

// nodeClients: one client of each kind per node, in order, the one at the
// node's own index being local.
func (c *C) nodeClients(s *nodeScn, o *Outcome, in, eg *Event, store, reader *Term, rule string, w nodeWant) {
	x, T := s.X, s.T
	path := func() string { return x.pathStr(o) }
	ins, egs := in.args[1], eg.args[1]
	if w.addrs == nil {
		ie, ok1 := x.elems(in.mem, ins)
		ee, ok2 := x.elems(eg.mem, egs)
		if !c.ob(ok1 && ok2 && len(ie) == 1 && len(ee) == 1, rule, "clients", "a node alone has the clients %s and %s", ins, egs) {
			return
		}
		c.nodeLocal(s, o.St, ie[0], store, rule)
		c.ob(stripIface(ee[0]) == reader, rule, "local reads", "local reads are answered by %s", ee[0])
		for _, p := range []*Event{in, eg} {
			k, ok := p.args[2].IntVal()
			c.ob(ok && k == 0 || x.same(o.St.facts, p.args[2], T.Int(0)), rule, "local index", "the local index of a node alone is %s", p.args[2])
		}
		return
	}
	fi, why1 := x.perNode(o, ins, w.addrs, exitsOf)
	fe, why2 := x.perNode(o, egs, w.addrs, exitsOf)
	if !c.ob(fi != nil, rule, "clients", "not every node gets an ingress client, in order: %s", why1) || !c.ob(fe != nil, rule, "clients", "not every node gets an egress client, in order: %s", why2) ||
		!c.ob(fi.l == fe.l, rule, "clients", "the clients are made in different loops: %s", path()) {
		return
	}
	l, cv := fi.l, fi.cv
	for _, p := range []*Event{in, eg} {
		li := p.args[2]
		c.ob(li == w.idx || li.loop == l && !li.IsConst(), rule, "local index", "the local index is %s, want the node's own: %s", li, path())
	}
	local, remote := 0, 0
	for _, it := range l.iters {
		ic, ec := fi.at(it), fe.at(it)
		c.ob(ic != nil && ec != nil, rule, "clients", "a node adds not just one to the clients: %s", it.facts)
		if ic == nil || ec == nil {
			continue
		}
		own := it.facts.Eval(T.Eq(cv.idx, w.idx))
		for _, p := range []*Event{in, eg} {
			li := p.args[2]
			if li == w.idx || li.loop != l {
				continue
			}
			n := it.next[li]
			if own == 1 {
				// as many clients as nodes before
				count := n.op == "len" && (n.args[0] == ins || n.args[0] == egs) && n.args[0].loop == l
				c.ob(count || x.same(it.facts, n, w.idx), rule, "local index", "at the node's own index the local index becomes %s: %s", n, it.facts)
			} else {
				c.ob(n == li, rule, "local index", "at another node's index the local index becomes %s: %s", n, it.facts)
			}
		}
		switch own {
		case 1:
			local++
			at := o.St.clone()
			at.mem = it.mem
			c.nodeLocal(s, at, ic, store, rule)
			c.ob(ec == reader, rule, "local reads", "local reads are answered by %s", ec)
			for _, e := range it.events {
				c.ob(!strings.HasPrefix(e.name, "google.golang.org/grpc.Dial"), rule, "local", "the node dials itself: %s", it.facts)
			}
		case -1:
			remote++
			var dials []*Event
			for _, e := range it.events {
				if isExtCall(e) && strings.HasPrefix(e.name, "google.golang.org/grpc.Dial") {
					dials = append(dials, e)
				}
			}
			if !c.ob(len(dials) == 1 && x.isNil(it.facts, dials[0].res[1]) == 1, rule, "dial", "a node is dialed %d times, or its clients are made although that failed: %s", len(dials), it.facts) {
				continue
			}
			d := dials[0]
			n := len(d.args)
			c.ob(x.same(it.facts, d.args[n-2], x.elemAt(d.mem, w.addrs, cv.idx)) && x.spreads(d, n-1, w.dopts), rule, "dial", "a node is dialed as %s with %s, want its own address and the configured options", d.args[n-2], d.args[n-1])
			isClient := func(t *Term, mk string) bool {
				t = stripIface(t)
				return t.op == "ret" && t.ev.name == lcv1+"."+mk && stripIface(t.ev.args[0]) == d.res[0]
			}
			c.ob(isClient(ec, "NewEgressClient"), rule, "remote reads", "another node is read through %s", ec)
			if c.ob(ic.op == "ret" && ic.ev.name == routingPkg+".NewBatchedIngressClient", rule, "remote ingress", "another node is written to through %s", ic) {
				b := ic.ev
				c.ob(isClient(b.args[2], "NewIngressClient"), rule, "remote ingress", "another node is written to through %s", b.args[2])
				sz, ok1 := b.args[0].IntVal()
				iv, ok2 := b.args[1].IntVal()
				c.ob(ok1 && sz >= 1 && ok2 && iv > 0, rule, "batches", "another node is written to in batches of %s every %s", b.args[0], b.args[1])
				es, ok := x.elems(b.mem, b.args[5])
				c.ob(b.args[5].IsNil() || ok && len(es) == 0, rule, "local only", "what is sent to the node it belongs to may be routed on: %s", b.args[5])
				ctr := stripIface(b.args[3])
				if c.ob(ctr.op == "ret" && methodIs(ctr.ev, "NewCounter") && stripIface(ctr.ev.args[0]) == s.ps[0], rule, "dropped", "envelopes dropped on their way to another node are counted in %s", ctr) {
					nm, _ := ctr.ev.args[1].StrVal()
					c.ob(nm == "ingress_dropped", rule, "dropped", "envelopes dropped on their way to another node are counted as %q", nm)
					c.ob(derives(ctr.ev.args[2], cv.idx) || c.tagged(x, ctr.ev, cv.idx), rule, "dropped", "the drops of different nodes are counted in one counter")
				}
			}
		default:
			c.ob(false, rule, "clients", "a client is made without asking whether the node is this one: %s", it.facts)
		}
	}
	c.need(local, 1, rule, "local clients")
	c.need(remote, 1, rule, "remote clients")
}

// tagged: an option of the metric made by e carries a tag made from v.
func (c *C) tagged(x *X, e *Event, v *Term) bool {
	es, ok := x.elems(e.mem, e.args[2])
	if !ok {
		return false
	}
	for _, t := range es {
		if t.op != "ret" || !strings.HasSuffix(t.ev.name, "WithMetricTags") {
			continue
		}
		m := t.ev.args[0]
		for k, val := range t.ev.mem.m {
			if k.op == "mapelem" && k.args[0] == m && derives(val, v) {
				return true
			}
		}
	}
	return false
}

// nodeLocal: what is sent to this node goes into its store, every envelope
// under its own source.
func (c *C) nodeLocal(s *nodeScn, at *State, cl, store *Term, rule string) {
	x := s.X
	cl = stripConv(stripIface(cl))
	base := at.clone()
	base.trace = nil
	sf := x.Fn("internal/routing", "IngressClientFunc", "Send")
	sp := x.params(sf)
	in := sp[2]
	var outs []*Outcome
	if cl.op == "closure" || cl.op == "func" {
		outs = x.CallTerm(cl, sp[1:], base)
	} else {
		outs = x.CallMethod(cl, "Send", sp[1:], base)
	}
	outs = c.rets(x, outs, rule, "local ingress")
	c.wireNil(x, outs, rule, "local ingress", in)
	c.noMay(x, outs, rule, "local ingress", hardMay...)
	batch := x.wireBatch(at.mem, in)
	for _, lo := range outs {
		path := func() string { return x.pathStr(lo) }
		c.ob(lo.Vals[1].IsNil() && !lo.Vals[0].IsNil(), rule, "local ingress", "local ingress answers (%s, %s): %s", lo.Vals[0], lo.Vals[1], path())
		seen := 0
		for _, e := range lo.evs {
			c.ob(e.kind != EvCall || e.name != "(*"+storePkg+".Store).Put", rule, "local ingress", "an envelope is put outside the loop over the batch: %s", path())
		}
		for _, l := range loopsIn(lo.evs) {
			cv, why := x.covers(l, batch, exitsOf(outs, l))
			if !c.ob(cv != nil, rule, "local ingress", "not every envelope is put: %s", why) {
				continue
			}
			seen++
			for _, it := range l.iters {
				puts := pick(it.events, func(e *Event) bool { return e.name == "(*"+storePkg+".Store).Put" })
				if !c.ob(len(puts) == 1, rule, "local ingress", "an envelope is put %d times: %s", len(puts), it.facts) {
					continue
				}
				p := puts[0]
				el := x.elemAt(p.mem, batch, cv.idx)
				sid := x.LoadField(p.mem, el, derefType(el.typ), "SourceId")
				okSid := x.same(it.facts, p.args[2], sid) || x.isNil(it.facts, el) == 1 && p.args[2].String() == `""`
				c.ob(p.args[0] == store && x.same(it.facts, p.args[1], el) && okSid, rule, "local ingress", "the store %s is given %s under %s, want the envelope under its own source: %s", p.args[0], p.args[1], p.args[2], it.facts)
			}
		}
		c.ob(seen == 1 || seen == 0 && x.sentEmpty(lo.St.facts, at.mem, in), rule, "local ingress", "the envelopes are visited %d times: %s", seen, path())
	}
	c.need(len(outs), 1, rule, "local ingress paths")
}

// filler: a slice that gets one element for each of those of another.
type filler struct {
	l  *LoopInfo
	cv *cover
	at func(it *IterPath) *Term // what an iteration adds; nil if not just one
}

// perNode: t gets one element for each of s, in order, and starts empty.
func (x *X) perNode(o *Outcome, t, s *Term, exits func([]*Outcome, *LoopInfo) []*Event) (*filler, string) {
	outs := []*Outcome{o}
	if l := t.loop; l != nil {
		cv, why := x.covers(l, s, exits(outs, l))
		if cv == nil {
			return nil, why
		}
		if i := x.initOf(t); i == nil || !i.IsNil() && !x.isEmptyFresh(i) {
			return nil, "it does not start empty"
		}
		return &filler{l, cv, func(it *IterPath) *Term {
			if n := it.next[t]; n.op == "append" && len(n.args) == 2 && n.args[0] == t {
				return stripIface(n.args[1])
			}
			return nil
		}}, ""
	}
	if t.op != "mkslice" || t.args[0] != x.T.Len(s) {
		return nil, "it is " + t.String()
	}
	for _, l := range loopsIn(o.evs) {
		cv, why := x.covers(l, s, exits(outs, l))
		if cv == nil {
			if why != "" && !storesInto(l, t) {
				continue
			}
			return nil, why
		}
		if !storesInto(l, t) {
			continue
		}
		return &filler{l, cv, func(it *IterPath) *Term {
			var v *Term
			for _, e := range it.events {
				if e.kind == EvStore && e.addr.op == "indexaddr" && e.addr.args[0] == t {
					if v != nil || e.addr.args[1] != cv.idx {
						return nil
					}
					v = stripIface(e.val)
				}
			}
			return v
		}}, ""
	}
	return nil, "nothing fills it"
}

func storesInto(l *LoopInfo, t *Term) bool {
	hit := false
	allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) {
		hit = hit || e.kind == EvStore && e.addr.op == "indexaddr" && e.addr.args[0] == t
	})
	return hit
}
