package main

import (
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register("C47", "The scheduler splits all hashes among nodes, and only a leader changes them",
		"Path-partitioned dataflow over NewScheduler with every option, Start and the goroutine it starts, and the List, Add and Remove the orchestrator calls: the ranges are followed by the linear form of their bounds over an arbitrary iteration; the loop of terms, the tables sent and each call to a node are compared per path with what the leader's answer allows. The command's options are traced to the configuration.", checkC47)
}

const (
	schedPkg = "internal/scheduler"
	orchPkg  = "code.cloudfoundry.org/go-orchestrator"
)

// lin: t as a sum of terms; the constant under nil.
func (x *X) lin(t *Term) map[*Term]*big.Int {
	r := map[*Term]*big.Int{}
	var add func(t *Term, f int64)
	add = func(t *Term, f int64) {
		t = stripConv(t)
		k := t
		v := big.NewInt(f)
		if n, ok := new(big.Int).SetString(constText(t), 10); ok {
			k = nil
			v.Mul(v, n)
		} else if t.op == "+" || t.op == "sum" {
			for _, a := range t.args {
				add(a, f)
			}
			return
		} else if len(t.args) == 1 && t.op == "neg" {
			add(t.args[0], -f)
			return
		} else if len(t.args) == 2 && (t.op == "-" || t.op == "diff") {
			add(t.args[0], f)
			add(t.args[1], -f)
			return
		}
		if o := r[k]; o != nil {
			v.Add(v, o)
		}
		r[k] = v
	}
	add(t, 1)
	return r
}

func constText(t *Term) string {
	if t.cv == nil {
		return ""
	}
	return t.cv.ExactString()
}

// minus: a - b as a sum.
func (x *X) minus(a, b *Term) map[*Term]*big.Int {
	r := x.lin(a)
	for k, v := range x.lin(b) {
		if r[k] == nil {
			r[k] = new(big.Int)
		}
		r[k].Sub(r[k], v)
	}
	for k, v := range r {
		if v.Sign() == 0 {
			delete(r, k)
		}
	}
	return r
}

type schedScn struct {
	*X
	opt    map[string][]*Term
	addrs  *Term
	outs   []*Outcome // of Start
	exits  []*Event
	comm   *Term
	made   *State // after NewScheduler
	client types.Type
	task   types.Type
	leader *Term
	worker types.Type
}

func (c *C) newScheduler(rule string) *schedScn {
	s := &schedScn{X: c.newX(), opt: map[string][]*Term{}}
	x := s.X
	x.nonNilRes = map[string]bool{lcv1 + ".NewOrchestrationClient": true, orchPkg + ".New": true}
	x.opaque[lcv1+".NewOrchestrationClient"] = true
	st := x.newState()
	fn := x.Fn(schedPkg, "", "NewScheduler")
	ps := x.params(fn)
	s.addrs = ps[0]
	var ots []*Term
	for _, w := range []string{"WithSchedulerLogger", "WithSchedulerInterval", "WithSchedulerCount", "WithSchedulerReplicationFactor", "WithSchedulerDialOpts", "WithSchedulerLeadership"} {
		of := x.Fn(schedPkg, "", w)
		s.opt[w] = x.params(of)
		o := x.single(x.Root(of, st, s.opt[w], nil), w)
		st = o.St
		ots = append(ots, o.Vals[0])
	}
	f := st.wfacts()
	f.Assume(x.T.Eq(s.opt["WithSchedulerLogger"][0], x.T.Nil()), false)
	f.Assume(x.T.Eq(s.opt["WithSchedulerLeadership"][0], x.T.Nil()), false)
	f.Assume(x.T.Lt(s.opt["WithSchedulerCount"][0], x.T.Int(1)), false)
	s.leader = s.opt["WithSchedulerLeadership"][0]
	ps[1] = x.sliceOf(elemTypeOf(ps[1].typ), ots...)
	n := 0
	for _, o := range x.Root(fn, st, ps, nil) {
		if o.Panic {
			ok := false
			allEvents(o.evs, func(e *Event) {
				ok = ok || isDial(e) && x.isNil(o.St.facts, e.res[1]) == -1
			})
			c.ob(ok, rule, "stops", "no scheduler is made although every node can be dialed: %s", x.pathStr(o))
			continue
		}
		n++
		s.comm = nil
		for _, e := range o.evs {
			if isExtCall(e) && e.name == orchPkg+".New" {
				s.comm = stripIface(e.args[0])
			}
		}
		c.ob(s.comm != nil, rule, "orchestrator", "the scheduler has no orchestrator: %s", x.pathStr(o))
		s.made = o.St.clone()
		s.made.trace = nil
		c.schedClients(s, o, rule)
		base := o.St.clone()
		base.trace = nil
		s.outs = append(s.outs, x.CallMethod(o.Vals[0], "Start", nil, base)...)
	}
	c.need(n, 1, rule, "schedulers made")
	s.exits = exitsAll(s.outs)
	return s
}

// schedClients: one client for each address, of the connection to it.
func (c *C) schedClients(s *schedScn, o *Outcome, rule string) {
	x := s.X
	n := 0
	for _, l := range loopsIn(o.evs) {
		dials := false
		allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) { dials = dials || isDial(e) })
		if !dials {
			continue
		}
		n++
		cv, why := x.covers(l, s.addrs, exitsOf([]*Outcome{o}, l))
		if !c.ob(cv != nil, rule, "nodes", "not every node is dialed: %s", why) {
			continue
		}
		for _, it := range l.iters {
			var d *Event
			for _, e := range it.events {
				if isDial(e) {
					d = e
				}
			}
			if !c.ob(d != nil, rule, "nodes", "a node is not dialed: %s", it.facts) {
				continue
			}
			addr := x.elemAt(it.mem, s.addrs, cv.idx)
			c.ob(d.args[0] == addr, rule, "nodes", "%s is dialed for a node", d.args[0])
			c.ob(x.spreads(d, len(d.args)-1, s.opt["WithSchedulerDialOpts"][0]), rule, "dial options", "a node is dialed with %s", d.args[len(d.args)-1])
			ok := false
			for sym, v := range it.next {
				if v.op != "append" || len(v.args) != 2 || v.args[0] != sym {
					continue
				}
				cl, ad := false, false
				w := v.args[1]
				if st := structOf(w.typ); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						fv := stripIface(x.valField(w, i))
						cl = cl || fv.op == "ret" && fv.ev.name == lcv1+".NewOrchestrationClient" && stripIface(fv.ev.args[0]) == stripIface(d.res[0])
						ad = ad || fv == addr
					}
				}
				if cl && ad {
					ok = true
					s.worker = w.typ
				}
			}
			c.ob(ok && x.isNil(it.facts, d.res[1]) == 1, rule, "nodes", "a node is not kept with the client of its connection and its address: %s", it.facts)
		}
	}
	c.need(n, 1, rule, "loops over the addresses")
}

func (s *schedScn) clientOf(w *Term) (client, addr *Term) {
	st := structOf(w.typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if isStringType(st.Field(i).Type()) {
			addr = s.valField(w, i)
		} else if isInterface(st.Field(i).Type()) {
			client = s.valField(w, i)
		}
	}
	return
}

func checkC47(c *C) {
	const rule = "scheduler"
	s := c.newScheduler(rule)
	if s.worker == nil {
		return
	}
	x := s.X
	n := 0
	for _, o := range s.outs {
		if !c.ob(!o.Panic && !o.Endless, rule, "starts", "Start may panic, or not return: %s", x.pathStr(o)) {
			continue
		}
		n++
		c.schedStart(s, o)
	}
	c.need(n, 1, rule, "started schedulers")
	if s.task != nil {
		c.schedComm(s)
	}
	c.schedMain()
}

// clientsOf: the loop in evs that calls what on every element of the list of
// clients.
func (s *schedScn) clientLoop(evs []*Event, is func(*Event) bool) (*LoopInfo, *Term, *cover) {
	for _, l := range loopsIn(evs) {
		hit := false
		allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) { hit = hit || is(e) })
		if !hit {
			continue
		}
		for _, it := range l.iters {
			for _, e := range it.events {
				if !is(e) {
					continue
				}
				var list *Term
				for _, a := range e.args {
					walkTerm(a, func(t *Term) {
						if t.op == "indexaddr" && s.worker != nil && types.Identical(derefType(t.typ), s.worker) {
							list = t.args[0]
						}
					})
				}
				if list == nil {
					continue
				}
				if cv, _ := s.covers(l, list, s.exits); cv != nil {
					return l, list, cv
				}
			}
		}
		return l, nil, nil
	}
	return nil, nil, nil
}

func (c *C) schedStart(s *schedScn, o *Outcome) {
	const rule = "start"
	x := s.X
	path := func() string { return x.pathStr(o) }
	orch := func(name string) func(*Event) bool {
		return func(e *Event) bool { return isExtCall(e) && e.name == "(*"+orchPkg+".Orchestrator)."+name }
	}
	// workers
	l, list, cv := s.clientLoop(o.evs, orch("AddWorker"))
	if c.ob(l != nil && list != nil, rule, "workers", "not every node is given to the orchestrator: %s", path()) {
		for _, it := range l.iters {
			k := 0
			for _, e := range it.events {
				if orch("AddWorker")(e) {
					k++
					w := e.args[1]
					c.ob(w.op == "mkiface" && types.Identical(w.typ, s.worker) && x.same(e.facts, w, x.elemAt(e.mem, list, cv.idx)), rule, "workers", "%s is given to the orchestrator", w)
				}
			}
			c.ob(k == 1, rule, "workers", "a node is given to the orchestrator %d times", k)
		}
	}
	c.schedRanges(s, o, orch("AddTask"))
	// terms
	n := 0
	for _, g := range x.goEvents(o.evs) {
		for _, so := range g.sub {
			l := lastLoop(so)
			if !c.ob(so.Endless && l != nil, rule, "terms", "the scheduling may end: %s", x.pathStr(so)) {
				continue
			}
			n++
			c.schedTerm(s, so, l, orch)
		}
	}
	c.need(n, 1, rule, "loops of terms")
}

// schedRanges: the ranges are even and together all hashes, without overlap.
func (c *C) schedRanges(s *schedScn, o *Outcome, isTask func(*Event) bool) {
	const rule = "ranges"
	x, T := s.X, s.T
	path := func() string { return x.pathStr(o) }
	count := s.opt["WithSchedulerCount"][0]
	factor := s.opt["WithSchedulerReplicationFactor"][0]
	max, _ := new(big.Int).SetString("18446744073709551615", 10)
	isMax := func(t *Term) bool { return constText(t) == max.String() }
	var taskAt func(e *Event) (start, end *Term)
	taskAt = func(e *Event) (*Term, *Term) {
		t := e.args[1]
		v := stripIface(t)
		if !c.ob(t.op == "mkiface" && structOf(t.typ) != nil && isNamedT(routingPkg, "Range")(t.typ), rule, "task", "the orchestrator is given the task %s", t) {
			return nil, nil
		}
		s.task = t.typ
		es, ok := x.elems(e.mem, e.args[2])
		c.ob(ok && len(es) == 1 && es[0].op == "ret" && es[0].ev.name == orchPkg+".WithTaskInstances" && es[0].ev.args[0] == factor, rule, "replication", "a range is kept on %v nodes, want as many as configured", es)
		return x.structVal(v, "Start"), x.structVal(v, "End")
	}
	// step: the size of a share.
	step := func(t *Term) bool {
		d := x.lin(t)
		if len(d) != 2 || d[nil] == nil || d[nil].Cmp(big.NewInt(1)) != 0 {
			return false
		}
		for k, v := range d {
			if k != nil && !(v.Cmp(big.NewInt(1)) == 0 && k.op == "/" && isMax(stripConv(k.args[0])) && stripConv(k.args[1]) == count) {
				return false
			}
		}
		return true
	}
	even := func(start, end *Term) string {
		d := x.minus(end, start)
		if len(d) == 1 {
			for k, v := range d {
				if k != nil && v.IsInt64() && v.Int64() == 1 && k.op == "/" && isMax(stripConv(k.args[0])) && stripConv(k.args[1]) == count {
					return ""
				}
			}
		}
		return "from " + start.String() + " to " + end.String()
	}
	var after []*Event
	var loop *LoopInfo
	for _, e := range o.evs {
		switch {
		case isTask(e):
			after = append(after, e)
		case e.kind == EvLoop:
			hit := false
			allEvents([]*Event{e}, func(d *Event) { hit = hit || isTask(d) })
			if hit && c.ob(loop == nil && len(after) == 0, rule, "ranges", "the ranges are made in several loops: %s", path()) {
				loop = e.loop
			}
		}
	}
	if !c.ob(loop != nil, rule, "ranges", "no ranges are made: %s", path()) {
		return
	}
	// the iterations
	var start *Term
	zero := func(t *Term) bool { return constText(t) == "0" }
	last := 0
	for _, it := range loop.iters {
		var ev *Event
		k := 0
		for _, e := range it.events {
			if isTask(e) {
				ev = e
				k++
			}
		}
		if !c.ob(k == 1, rule, "ranges", "an iteration makes %d ranges", k) {
			return
		}
		a, b := taskAt(ev)
		if a == nil {
			return
		}
		closed := false
		for _, r := range x.rounds(loop, count) {
			closed = closed || r.times(a, step)
		}
		if !c.ob((closed || a.loop == loop) && (start == nil || start == a), rule, "ranges", "a range starts at %s", a) {
			return
		}
		start = a
		if isMax(b) {
			last++
			ok := false
			for _, r := range x.rounds(loop, count) {
				ok = ok || r.least(it.facts.clone(), -1)
			}
			c.ob(ok, rule, "ranges", "a range that is not the last may end at the highest hash: %s", it.facts)
			continue
		}
		why := even(a, b)
		c.ob(why == "", rule, "even", "a range goes %s, want its share of all hashes", why)
		if closed {
			continue
		}
		d := x.minus(it.next[a], b)
		c.ob(len(d) == 1 && d[nil] != nil && d[nil].IsInt64() && d[nil].Int64() == 1, rule, "adjacent", "after a range to %s the next starts at %s", b, it.next[a])
	}
	if start.loop == loop {
		c.ob(zero(x.initOf(start)), rule, "first", "the first range starts at %s", x.initOf(start))
	}
	want := int64(-1) // iterations less the count
	if last > 0 {
		want = 0
		c.ob(len(after) == 0, rule, "last", "there are ranges after the last: %s", path())
	} else if c.ob(len(after) == 1, rule, "last", "%d ranges follow the others, want one that ends at the highest hash: %s", len(after), path()) {
		a, b := taskAt(after[0])
		c.ob(b != nil && (start.loop == loop && a == start || x.product(a, T.plus(count, -1, count.typ), step)) && isMax(b), rule, "last", "the last range goes from %s to %s: %s", a, b, path())
	}
	// how many
	ok := false
	why := ""
	for _, r := range x.rounds(loop, count) {
		good := true
		for _, it := range loop.iters {
			if !r.most(it.facts.clone(), want-1) {
				good = false
				why = "an iteration with " + it.facts.String()
			}
		}
		n := 0
		for _, e := range exitsOf([]*Outcome{o}, loop) {
			n++
			if !r.least(e.facts.clone(), want) {
				good = false
				why = "the loop ends with " + e.facts.String()
			}
		}
		ok = ok || good && n > 0
	}
	c.ob(ok, rule, "count", "there are not as many ranges as configured: %s", why)
}

// round: an induction variable of a loop, as the number of iterations done.
type round struct {
	x     *X
	sym   *Term
	down  bool
	k     int64 // up: rounds = sym - k; down: rounds = count + k - sym
	count *Term
}

func (x *X) rounds(l *LoopInfo, count *Term) []round {
	var rs []round
	for _, p := range x.locals(l) {
		if p.init == nil || !isIntType(p.sym.typ) {
			continue
		}
		up, down := len(l.iters) > 0, len(l.iters) > 0
		for _, it := range l.iters {
			n := it.next[p.sym]
			up = up && n == x.T.plus(p.sym, 1, p.sym.typ)
			down = down && n == x.T.plus(p.sym, -1, p.sym.typ)
		}
		if k, ok := p.init.IntVal(); ok && up {
			rs = append(rs, round{x, p.sym, false, k, count})
		}
		if base, k := x.T.linear(p.init); down && base == count {
			rs = append(rs, round{x, p.sym, true, k, count})
		}
	}
	return rs
}

// least: there were at least count+d rounds.
func (r round) least(f *Facts, d int64) bool {
	if r.down {
		return f.entLE(r.sym, r.x.T.Int(0), r.k-d)
	}
	return f.entLE(r.count, r.sym, -r.k-d)
}

// most: there were at most count+d rounds.
func (r round) most(f *Facts, d int64) bool {
	if r.down {
		return f.entLE(r.x.T.Int(0), r.sym, d-r.k)
	}
	return f.entLE(r.sym, r.count, r.k+d)
}

// times: t is the number of rounds times what is.
func (r round) times(t *Term, is func(*Term) bool) bool {
	return !r.down && r.x.product(t, r.x.T.plus(r.sym, -r.k, r.sym.typ), is)
}

// product: t is n times what is.
func (x *X) product(t, n *Term, is func(*Term) bool) bool {
	t = stripConv(t)
	if t.op != "*" || len(t.args) != 2 {
		return false
	}
	for i := range t.args {
		if len(x.minus(t.args[i], n)) == 0 && is(t.args[1-i]) {
			return true
		}
	}
	return false
}

// schedTerm: one term.
func (c *C) schedTerm(s *schedScn, o *Outcome, l *LoopInfo, orch func(string) func(*Event) bool) {
	const rule = "term"
	x := s.X
	iv := s.opt["WithSchedulerInterval"][0]
	c.paced(x, o, l, rule, "scheduling", func(t *Term) bool { return t == iv })
	led, not := 0, 0
	for _, it := range l.iters {
		where := func() string { return it.facts.String() }
		terms, waited := 0, false
		var actual, lead *Event
		var sends []*Event
		for _, e := range it.events {
			switch {
			case orch("NextTerm")(e):
				terms++
				c.ob(!waited, rule, "first term", "a term waits for its tick first: nothing is scheduled until then")
				c.ob(e.args[1].op == "ret", rule, "context", "a term is run under %s", e.args[1])
			case orch("LastActual")(e):
				actual = e
				c.ob(terms >= 2, rule, "fresh", "the tables are made of what was listed before the term's changes")
			case dynCallOf(s.leader)(e):
				lead = e
			case e.kind == EvRecv:
				waited = true
			case e.kind == EvLoop:
				allEvents([]*Event{e}, func(d *Event) {
					if methodIs(d, "SetRanges") {
						sends = append(sends, e)
					}
				})
			case methodIs(e, "SetRanges"):
				sends = append(sends, e)
			}
		}
		c.ob(terms >= 1, rule, "terms", "a round without a term: %s", where())
		leads := 0
		if lead != nil {
			leads = it.facts.Eval(lead.res[0])
		}
		if len(sends) == 0 {
			not++
			c.ob(leads == -1, rule, "leader", "the leader may not send the tables: %s", where())
			continue
		}
		led++
		c.ob(leads == 1, rule, "leader", "the tables may be sent without being the leader: %s", where())
		sl, list, cv := s.clientLoop(it.events, func(e *Event) bool { return methodIs(e, "SetRanges") })
		if !c.ob(list != nil && actual != nil, rule, "every node", "the tables are not sent to every node: %s", where()) {
			continue
		}
		for _, si := range sl.iters {
			k := 0
			for _, e := range si.events {
				if !methodIs(e, "SetRanges") {
					continue
				}
				k++
				cl, _ := s.clientOf(x.elemAt(e.mem, list, cv.idx))
				c.ob(e.args[0] == cl, rule, "every node", "the tables are sent to %s", e.args[0])
				c.ob(x.deadlined(si.events, it.events, e.args[1]), rule, "deadline", "a node that does not answer holds up the scheduling: the tables are sent under %s", e.args[1])
				req := e.args[2]
				m := x.LoadField(e.mem, req, derefType(req.typ), "Ranges")
				c.schedTables(s, it, m, actual, where)
			}
			c.ob(k == 1, rule, "every node", "a node is sent the tables %d times", k)
		}
	}
	c.need(led, 1, rule, "terms of the leader")
	c.need(not, 1, rule, "terms of another")
}

// deadlined: ctx is a context with a timeout made in any of evs.
func (x *X) deadlined(a, b []*Event, ctx *Term) bool {
	return deadlineCtx(a, ctx) || deadlineCtx(b, ctx)
}

// schedTables: the table has every node's ranges.
func (c *C) schedTables(s *schedScn, it *IterPath, m *Term, actual *Event, where func() string) {
	const rule = "tables"
	x := s.X
	ws := actual.res[0]
	if !c.ob(m.op == "makemap", rule, "made", "the tables sent are %s", m) {
		return
	}
	n := 0
	for _, l := range loopsIn(it.events) {
		hit := false
		allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) { hit = hit || e.kind == EvMapUpdate && e.args[0] == m })
		if !hit {
			continue
		}
		n++
		cv, why := x.covers(l, ws, s.exits)
		if !c.ob(cv != nil, rule, "every node", "the tables leave out a node: %s", why) {
			continue
		}
		for _, wi := range l.iters {
			k := 0
			for _, e := range wi.events {
				if e.kind != EvMapUpdate || e.args[0] != m {
					continue
				}
				k++
				w := x.elemAt(e.mem, ws, cv.idx)
				name := x.T.mk("assert", "", s.worker, x.structVal(w, "Name"))
				_, addr := s.clientOf(name)
				c.ob(e.name != "delete" && e.args[1] == addr, rule, "address", "a node's ranges are filed under %s, want %s", e.args[1], addr)
				rs := stripIface(e.val)
				if !c.ob(isFreshObj(rs) && isNamedPtr(rs.typ, lcv1, "Ranges"), rule, "ranges", "a node's ranges are %s", rs) {
					continue
				}
				list := x.LoadField(e.mem, rs, derefType(rs.typ), "Ranges")
				why := x.perElemAt(wi.events, list, x.structVal(w, "Tasks"), s.exits, func(l *LoopInfo, ri *IterPath, got, at *Term) string {
					t := x.T.mk("assert", "", s.task, x.loadMem(ri.mem, at, derefType(at.typ)))
					got = stripIface(got)
					if !isFreshObj(got) || !isNamedPtr(got.typ, lcv1, "Range") {
						return "a range is " + got.String()
					}
					for _, f := range []string{"Start", "End"} {
						if v := x.LoadField(ri.mem, got, derefType(got.typ), f); v != x.structVal(t, f) {
							return "a range has " + f + " " + v.String()
						}
					}
					return ""
				})
				c.ob(why == "", rule, "ranges", "a node's ranges are not all it has: %s", why)
			}
			c.ob(k == 1, rule, "every node", "a node is filed %d times: %s", k, wi.facts)
		}
	}
	c.need(n, 1, rule, "loops over the nodes")
}

// schedComm: what the orchestrator's questions and orders become.
func (c *C) schedComm(s *schedScn) {
	x, T := s.X, s.T
	n := map[string]int{}
	for _, m := range []string{"List", "Add", "Remove"} {
		rule := strings.ToLower(m)
		st := s.made.clone()
		fn := x.methodOf(s.comm, m)
		if !c.ob(fn != nil, rule, "method", "the orchestrator is given %s", s.comm) {
			continue
		}
		ps := x.params(fn)
		ctx := ps[1]
		st.wfacts().Assume(T.Eq(ctx, T.Nil()), false)
		w := x.symOf("worker", s.worker)
		client, _ := s.clientOf(w)
		st.wfacts().Assume(T.Eq(client, T.Nil()), false)
		args := []*Term{ctx, x.iface(w, s.worker)}
		task := x.symOf("task", s.task)
		if m != "List" {
			args = append(args, x.iface(task, s.task))
		}
		outs := x.CallMethod(s.comm, m, args, st)
		exits := exitsAll(outs)
		c.noMay(x, outs, rule, m, "unchecked", "nilmap", "slicebounds", "divzero", "typeassert")
		rpc := map[string]string{"List": "ListRanges", "Add": "AddRange", "Remove": "RemoveRange"}[m]
		for _, o := range outs {
			f := o.St.facts
			path := func() string { return x.pathStr(o) }
			if !c.ob(!o.Panic && !o.Endless, rule, "answers", "%s may panic or not return: %s", m, path()) {
				continue
			}
			for k, v := range o.St.locks {
				c.ob(v == 0, rule, "unlocks", "%s returns holding %s: %s", m, k, path())
			}
			err := o.Vals[len(o.Vals)-1]
			leads := 0
			var call *Event
			calls := 0
			allEvents(o.evs, func(e *Event) {
				switch {
				case dynCallOf(s.leader)(e):
					if calls == 0 {
						leads = f.Eval(e.res[0])
					}
				case isExtCall(e) && e.method != nil && len(e.args) > 0 && e.args[0] == client:
					calls++
					call = e
				}
			})
			if m != "List" && leads == -1 {
				n[m+" not leader"]++
				c.ob(calls == 0, rule, "leader", "%s changes a node's ranges without being the leader: %s", m, path())
				continue
			}
			if !c.ob(calls == 1 && methodIs(call, rpc), rule, "call", "%s makes %d calls, want one of %s: %s", m, calls, rpc, path()) {
				continue
			}
			if m != "List" {
				c.ob(leads == 1, rule, "leader", "%s may change a node's ranges without being the leader: %s", m, path())
				req := call.args[2]
				r := x.LoadField(call.mem, req, derefType(req.typ), "Range")
				ok := isFreshObj(stripIface(r))
				for _, fl := range []string{"Start", "End"} {
					ok = ok && x.LoadField(call.mem, r, derefType(r.typ), fl) == x.structVal(task, fl)
				}
				c.ob(ok, rule, "range", "%s sends the range %s, want the task's: %s", m, r, path())
			}
			a := call.args[1]
			d, isK := int64(0), false
			if a.op == "ret" && strings.HasSuffix(a.ev.name, "context.WithTimeout") && a.ev.args[0] == ctx {
				d, isK = a.ev.args[1].IntVal()
			}
			c.ob(isK && d > 0, rule, "deadline", "a node that does not answer holds up the scheduling: %s calls it under %s: %s", m, a, path())
			failed := x.isNil(f, call.res[1])
			switch failed {
			case -1:
				n[m+" failed"]++
				c.ob(x.isNil(f, err) == -1, rule, "failed", "%s hides that the call failed: %s", m, path())
				continue
			case 0:
				if m != "List" && err == call.res[1] {
					n[m+" failed"]++
					n[m+" done"]++
					continue
				}
				c.ob(false, rule, "failed", "%s does not look whether the call failed: %s", m, path())
				continue
			}
			n[m+" done"]++
			c.ob(err.IsNil() || x.isNil(f, err) == 1, rule, "done", "%s fails although the call did not: %s", m, path())
			if m == "List" {
				resp := call.res[0]
				rs := x.LoadField(call.mem, resp, derefType(resp.typ), "Ranges")
				why := x.perElemAt(o.evs, o.Vals[0], rs, exits, func(l *LoopInfo, it *IterPath, got, at *Term) string {
					if got.op != "mkiface" || !types.Identical(got.typ, s.task) {
						return "a range is listed as " + got.String() + ", which never equals a task"
					}
					r := x.loadMem(it.mem, at, derefType(at.typ))
					for _, fl := range []string{"Start", "End"} {
						if v := x.structVal(stripIface(got), fl); v != x.LoadField(it.mem, r, derefType(r.typ), fl) {
							return "a range is listed with " + fl + " " + v.String()
						}
					}
					return ""
				})
				c.ob(why == "", rule, "ranges", "a node's ranges are not all listed as they are: %s: %s", why, path())
			}
		}
	}
	for _, k := range []string{"List failed", "List done", "Add not leader", "Add failed", "Add done", "Remove not leader", "Remove failed", "Remove done"} {
		c.need(n[k], 1, "calls", k)
	}
}

// schedMain: the command hands its configuration on.
func (c *C) schedMain() {
	const rule = "command"
	sp := modPath + "/" + schedPkg
	opts := map[string]string{"WithSchedulerInterval": "INTERVAL", "WithSchedulerCount": "COUNT", "WithSchedulerReplicationFactor": "REPLICATION_FACTOR"}
	opaque := []string{sp + ".NewScheduler", "(*" + sp + ".Scheduler).Start", sp + ".WithSchedulerLogger", sp + ".WithSchedulerDialOpts", sp + ".WithSchedulerLeadership"}
	for k := range opts {
		opaque = append(opaque, sp+"."+k)
	}
	s := c.newMainWith("scheduler", opaque...)
	x := s.x
	if !c.ob(s.load != nil, rule, "configuration", "the scheduler does not read its configuration") {
		return
	}
	alone, led := 0, 0
	for _, o := range s.outs {
		f := o.St.facts
		if x.isNil(f, s.load.res[0]) != 1 {
			continue
		}
		path := func() string { return x.pathStr(o) }
		var mk, start *Event
		allEvents(o.evs, func(e *Event) {
			switch {
			case e.kind == EvCall && e.name == sp+".NewScheduler":
				mk = e
			case e.kind == EvCall && e.name == "(*"+sp+".Scheduler).Start":
				start = e
			}
		})
		if mk == nil && o.Panic {
			failed := false
			allEvents(o.evs, func(e *Event) {
				for _, r := range e.res {
					failed = failed || isErrorType(r.typ) && x.isNil(f, r) == -1
				}
			})
			c.ob(failed, rule, "stops", "the scheduler does not start although nothing failed: %s", path())
			continue
		}
		if !c.ob(mk != nil && start != nil && start.args[0] == mk.res[0], rule, "started", "no scheduler is started: %s", path()) {
			continue
		}
		c.ob(s.envName(mk.args[0]) == "NODE_ADDRS", rule, "nodes", "the scheduler is made for %s: %s", mk.args[0], path())
		es, ok := x.elems(mk.mem, mk.args[1])
		if !c.ob(ok, rule, "options", "the scheduler is made with %s: %s", mk.args[1], path()) {
			continue
		}
		got := map[string]int{}
		var lead *Term
		var leadEv *Event
		for _, e := range es {
			if e.op != "ret" {
				c.ob(false, rule, "options", "the scheduler is made with %s", e)
				continue
			}
			k := strings.TrimPrefix(e.ev.name, sp+".")
			got[k]++
			if env := opts[k]; env != "" {
				c.ob(s.envName(e.ev.args[0]) == env, rule, "options", "%s is given %s, want %s", k, e.ev.args[0], env)
			}
			if k == "WithSchedulerLeadership" {
				lead, leadEv = e.ev.args[0], e.ev
			}
		}
		for k := range opts {
			c.ob(got[k] == 1, rule, "options", "%s is given %d times: %s", k, got[k], path())
		}
		c.ob(got["WithSchedulerDialOpts"] == 1, rule, "options", "the nodes are dialed without options: %s", path())
		// is there an election?
		el := 0
		f.each(func(t *Term, b bool) {
			if t.op != "eq" {
				return
			}
			for i := 0; i < 2; i++ {
				q, r := t.args[i], t.args[1-i]
				if q.op == "len" {
					q = q.args[0]
				}
				str, isS := r.StrVal()
				k, isK := r.IntVal()
				if s.envName(q) == "LEADER_ELECTION_ENDPOINT" && (isS && str == "" || isK && k == 0) {
					el = map[bool]int{true: -1, false: 1}[b]
				}
			}
		})
		switch el {
		case -1:
			alone++
			c.ob(lead == nil, rule, "alone", "without an election the scheduler asks %s: %s", lead, path())
		case 1:
			if c.ob(lead != nil, rule, "election", "the scheduler does not take part in the election: %s", path()) {
				led++
				c.election(s, lead, leadEv)
			}
		default:
			c.ob(lead != nil && false, rule, "election", "the scheduler may act as the leader although there is an election: %s", path())
		}
	}
	c.need(alone, 1, rule, "commands without an election")
	c.need(led, 1, rule, "commands with an election")
}

// election: the scheduler is the leader exactly if the endpoint says so.
func (c *C) election(s *mainScn, lead *Term, at *Event) {
	const rule = "election"
	x := s.x
	st := x.newState()
	st.mem, st.facts = at.mem, at.facts
	st.mem.shared, st.fShare = true, true
	st.wfacts()
	n := map[string]int{}
	for _, lo := range x.CallTerm(lead, nil, st) {
		path := func() string { return x.pathStr(lo) }
		if !c.ob(!lo.Panic && !lo.Endless, rule, "answers", "asking for the leader may panic or not return: %s", path()) {
			continue
		}
		f := lo.St.facts
		var do *Event
		k := 0
		for _, e := range lo.evs {
			if isHTTPDo(e) || isExtCall(e) && isHTTPGet(e.name) {
				do = e
				k++
			}
		}
		if k == 0 {
			n["cannot ask"]++
			b, isB := lo.Vals[0].BoolVal()
			c.ob(isB && !b, rule, "not asked", "without asking the scheduler takes itself for the leader: %s", path())
			continue
		}
		if !c.ob(k == 1, rule, "asks", "the endpoint is asked %d times: %s", k, path()) {
			continue
		}
		c.ob(x.httpTimeout(lo, do), rule, "deadline", "an endpoint that does not answer stops the scheduling for good: it is asked without a time limit at %s", x.where(do))
		lead := f.Eval(lo.Vals[0])
		if b, isB := lo.Vals[0].BoolVal(); isB {
			lead = map[bool]int{true: 1, false: -1}[b]
		}
		if x.isNil(f, do.res[1]) == -1 {
			n["unreachable"]++
			c.ob(lead == -1, rule, "unreachable", "an endpoint that can not be reached makes the scheduler the leader: %s", path())
			continue
		}
		resp := do.res[0]
		code := x.LoadField(do.mem, resp, derefType(resp.typ), "StatusCode")
		n["answered"]++
		c.ob(x.isNil(f, do.res[1]) == 1 && x.agrees(f, lo.Vals[0], x.T.Eq(code, x.T.Int(200))), rule, "status", "the scheduler is the leader if %s, want if the endpoint answers 200: %s", lo.Vals[0], path())
	}
	c.need(n["unreachable"], 1, rule, "unreachable endpoints")
	c.need(n["answered"], 1, rule, "answers")
}

// httpTimeout: the request can not take forever: its client, or the request's
// context, has a limit.
func (x *X) httpTimeout(o *Outcome, e *Event) bool {
	for _, a := range e.args {
		a = stripIface(a)
		switch {
		case isNamedPtr(a.typ, "net/http", "Client"):
			if d, ok := x.LoadField(e.mem, a, derefType(a.typ), "Timeout").IntVal(); ok && d > 0 {
				return true
			}
		case isNamedPtr(a.typ, "net/http", "Request"):
			walk := func(t *Term) bool {
				r := t.ev
				if r == nil {
					return false
				}
				for _, b := range r.args {
					if deadlineCtx(o.evs, stripIface(b)) {
						return true
					}
				}
				return false
			}
			if walk(a) {
				return true
			}
		}
	}
	return false
}
