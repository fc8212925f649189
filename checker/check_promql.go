package main

import (
	"go/constant"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C45", "A PromQL query is evaluated as asked, reported whole, or refused",
		"Path-partitioned dataflow over PromQL.InstantQuery and RangeQuery of the value New makes, for an arbitrary request and an arbitrary result of the engine: the engine, time, range and step the query is made with, what is done about an error the data source reported, and every element of the answer; and the time and step parsers.", checkC45)
}

const (
	promPkg  = "internal/promql"
	promEng  = "github.com/prometheus/prometheus/promql"
	promLbls = "github.com/prometheus/prometheus/pkg/labels"
)

type promScn struct {
	*X
	ps                              []*Term
	reader, metrics, timeout, queue *Term
	new                             *Outcome
	q                               *Term
}

type promRun struct {
	req, ctx *Term
	outs     []*Outcome
	exits    []*Event
}

func (c *C) newPromQL() *promScn {
	s := &promScn{X: c.newX()}
	x := s.X
	for _, n := range []string{"ParseTime", "ParseStep"} {
		x.opaque[fnName(x.Fn(promPkg, "", n))] = true
	}
	st := x.newState()
	fn := x.Fn(promPkg, "", "New")
	s.ps = x.params(fn)
	s.reader, s.metrics, s.timeout = s.ps[0], s.ps[1], s.ps[3]
	for _, i := range []int{0, 1, 2} {
		st.wfacts().Assume(x.T.Eq(s.ps[i], x.T.Nil()), false)
	}
	s.new = x.single(x.Root(fn, st, s.ps, nil), "New")
	s.q = s.new.Vals[0]
	return s
}

// run: one query.
func (s *promScn) run(m string) *promRun {
	x := s.X
	ps := x.params(x.Fn(promPkg, "*PromQL", m))
	st := s.new.St.clone()
	st.trace = nil
	r := &promRun{ctx: ps[1], req: ps[2]}
	st.wfacts().Assume(x.T.Eq(r.req, x.T.Nil()), false)
	st.wfacts().Assume(x.T.Eq(r.ctx, x.T.Nil()), false)
	r.outs = x.CallMethod(s.q, m, []*Term{r.ctx, r.req}, st)
	r.exits = exitsAll(r.outs)
	return r
}

// metric: the name of the metric t was made as.
func (s *promScn) metric(t *Term) string {
	if t = lastSet(s.new.evs, t); t.op != "ret" || t.ev == nil || len(t.ev.args) < 2 || t.ev.args[0] != s.metrics {
		return ""
	}
	n, _ := t.ev.args[1].StrVal()
	return n
}

// evalOf: the queries made and evaluated on a path.
func promEvents(evs []*Event) (made, execs []*Event) {
	allEvents(evs, func(e *Event) {
		switch {
		case isExtCall(e) && strings.HasPrefix(e.name, "(*"+promEng+".Engine).New"):
			made = append(made, e)
		case methodIs(e, "Exec") && isExtCall(e) && strings.Contains(e.name, promEng+".Query"):
			execs = append(execs, e)
		}
	})
	return
}

// errCell: where an error the data source reports during evaluation is kept.
func (c *C) errCell(s *promScn, made *Event, rule string) *Term {
	x := s.X
	st := x.newState()
	st.mem, st.facts = made.mem, made.facts
	st.mem.shared, st.fShare = true, true
	st.wfacts()
	sel := c.selectOn(s, made.args[1], st, x.T.Nil(), nil, rule)
	if sel == nil {
		return nil
	}
	var cell *Term
	for _, o := range sel.outs {
		if o.Panic || x.isNil(o.St.facts, o.Vals[1]) != -1 {
			continue
		}
		for a, v := range o.St.mem.m {
			if w, old := made.mem.m[a]; v == o.Vals[1] && (!old || w != v) && cellRoot(a).id < made.res[0].id {
				cell = a
			}
		}
	}
	c.ob(cell != nil, rule, "error cell", "an error of the data source is not kept for the query to return")
	return cell
}

type selRun struct {
	lcq, querier, ctx, mint, maxt *Term
	ll                            *Term
	outs                          []*Outcome
	exits                         []*Event
}

// selectOn: what Select of a querier of the given queryable does; ll nil means
// arbitrary matchers.
func (c *C) selectOn(s *promScn, lcq *Term, st *State, ll *Term, pre func(r *selRun, st *State), rule string) *selRun {
	x := s.X
	lcq = stripIface(lcq)
	r := &selRun{lcq: lcq}
	qf := x.methodOf(lcq, "Querier")
	if !c.ob(qf != nil, rule, "querier", "%s has no Querier", lcq) {
		return nil
	}
	qp := x.params(qf)
	r.ctx, r.mint, r.maxt = qp[1], qp[2], qp[3]
	st.wfacts().Assume(x.T.Eq(r.ctx, x.T.Nil()), false)
	var qo *Outcome
	for _, o := range c.rets(x, x.CallMethod(lcq, "Querier", qp[1:], st), rule, "Querier") {
		c.ob(o.Vals[1].IsNil() && qo == nil, rule, "querier", "Querier may fail, or answers in more than one way: %s", x.pathStr(o))
		qo = o
	}
	if qo == nil {
		return nil
	}
	r.querier = stripIface(qo.Vals[0])
	sf := x.methodOf(r.querier, "Select")
	if !c.ob(sf != nil, rule, "querier", "%s has no Select", r.querier) {
		return nil
	}
	sp := x.params(sf)
	r.ll = sp[len(sp)-1]
	if ll != nil {
		r.ll = ll
		sp[len(sp)-1] = ll
	}
	st2 := qo.St.clone()
	st2.trace = nil
	if pre != nil {
		pre(r, st2)
	}
	r.outs = x.CallMethod(r.querier, "Select", sp[1:], st2)
	r.exits = exitsAll(r.outs)
	return r
}

func checkC45(c *C) {
	s := c.newPromQL()
	x := s.X
	for _, m := range []string{"InstantQuery", "RangeQuery"} {
		rule := strings.ToLower(strings.TrimSuffix(m, "Query"))
		r := s.run(m)
		c.wireNil(x, r.outs, rule, m, r.req)
		c.noMay(x, r.outs, rule, m, "unchecked", "index", "nilmap", "slicebounds", "divzero")
		n := map[string]int{}
		for _, o := range r.outs {
			c.promPath(s, r, m, rule, o, n)
		}
		kinds := []string{"matrix"}
		if m == "InstantQuery" {
			kinds = append(kinds, "scalar", "vector", "now")
		}
		for _, k := range append(kinds, "bad time", "bad query", "reported", "result error", "evaluated", "unknown") {
			c.need(n[k], 1, rule, k)
		}
	}
	c.promParsers()
}

func (c *C) promPath(s *promScn, r *promRun, m, rule string, o *Outcome, n map[string]int) {
	x, T := s.X, s.T
	f := o.St.facts
	path := func() string { return x.pathStr(o) }
	if !c.ob(!o.Panic && !o.Endless, rule, "answers", "%s may panic or never answer: %s", m, path()) {
		return
	}
	failed := x.isNil(f, o.Vals[1]) == -1
	if !c.ob(failed || o.Vals[1].IsNil(), rule, "error", "it is open whether %s fails: %s", m, path()) {
		return
	}
	if failed {
		c.ob(o.Vals[0].IsNil(), rule, "error", "%s fails and answers %s: %s", m, o.Vals[0], path())
	}
	made, execs := promEvents(o.evs)
	// what was parsed, and whether that worked
	bad := false
	parsed := map[string]*Term{}
	for _, e := range o.evs {
		if e.kind != EvCall || e.callee == nil || len(e.res) != 2 {
			continue
		}
		switch e.callee.Name() {
		case "ParseTime", "ParseStep":
			if x.isNil(f, e.res[1]) != 1 {
				bad = true
			}
			for _, fl := range []string{"Time", "Start", "End", "Step"} {
				if x.hasField(r.req, fl) && e.args[0] == x.LoadField(e.mem, r.req, derefType(r.req.typ), fl) {
					parsed[e.callee.Name()+fl] = e.res[0]
				}
			}
		}
	}
	if len(made) == 0 {
		n["bad time"]++
		limited := false
		if m == "RangeQuery" {
			limited = true // a step or range to refuse: that those are refused is judged below
		}
		c.ob(failed && (bad || limited), rule, "refused", "%s answers without making a query: %s", m, path())
		return
	}
	if !c.ob(len(made) == 1 && !bad, rule, "one query", "%d queries are made (a time or step that does not parse: %v): %s", len(made), bad, path()) {
		return
	}
	q := made[0]
	want := "New" + m
	eng := q.args[0]
	okEng := eng.op == "ret" && strings.HasSuffix(eng.ev.name, promEng+".NewEngine")
	if okEng {
		okEng = eng.ev.args[3] == s.timeout
		k, isK := eng.ev.args[2].IntVal()
		c.ob(isK && k >= 1, rule, "engine", "the engine evaluates %s queries at a time: %s", eng.ev.args[2], path())
	}
	c.ob(okEng, rule, "engine", "the query is made by %s, want an engine with the configured timeout: %s", eng, path())
	reqF := func(fl string) *Term { return x.LoadField(q.mem, r.req, derefType(r.req.typ), fl) }
	c.ob(strings.HasSuffix(q.name, "."+want) && x.same(q.facts, q.args[2], reqF("Query")), rule, "expression", "the query made is %s %s: %s", q.name, q.args[2], path())
	if m == "InstantQuery" {
		tm := reqF("Time")
		empty := q.facts.Eval(T.Eq(T.Len(tm), T.Int(0)))
		switch {
		case empty == 1:
			n["now"]++
			c.ob(aboutNow(q.args[3]), rule, "time", "without a time the query is for %s, want now: %s", q.args[3], path())
		default:
			c.ob(parsed["ParseTimeTime"] != nil && q.args[3] == parsed["ParseTimeTime"], rule, "time", "the query is for %s, want the time asked for: %s", q.args[3], path())
		}
	} else {
		st, en, sp := parsed["ParseTimeStart"], parsed["ParseTimeEnd"], parsed["ParseStepStep"]
		c.ob(st != nil && q.args[3] == st, rule, "start", "the query starts at %s: %s", q.args[3], path())
		c.ob(en != nil && q.args[4] == en, rule, "end", "the query ends at %s: %s", q.args[4], path())
		if c.ob(sp != nil && q.args[5] == sp, rule, "step", "the query has step %s: %s", q.args[5], path()) {
			g := q.facts.clone()
			c.ob(g.entLE(T.Int(1), sp, 0), rule, "positive step", "a query with a step of zero or less may be evaluated, which never ends: %s", path())
			if st != nil && en != nil {
				c.ob(stepsBounded(q.facts, st, en, sp), rule, "steps", "the number of steps evaluated, each of which takes memory, is not bounded: %s", path())
			}
		}
	}
	if x.isNil(f, q.res[1]) != 1 {
		n["bad query"]++
		c.ob(failed && len(execs) == 0, rule, "bad query", "a query that does not parse is evaluated or not refused: %s", path())
		return
	}
	if !c.ob(len(execs) == 1 && execs[0].args[0] == q.res[0], rule, "one evaluation", "%d evaluations: %s", len(execs), path()) {
		return
	}
	n["evaluated"]++
	ex := execs[0]
	c.ob(ctxFrom(ex.args[1], r.ctx), rule, "context", "the query is evaluated under %s, not the request's context: %s", ex.args[1], path())
	// an error the data source reported
	cell := c.errCell(s, q, rule)
	if cell == nil {
		return
	}
	rep := x.loadMem(o.St.mem, cell, derefType(cell.typ))
	adds := 0
	gauges := map[string]int{}
	allEvents(o.evs, func(e *Event) {
		switch {
		case methodIs(e, "Add") && s.metric(e.args[0]) == "log_cache_promql_timeout":
			k := 0
			if v, ok := e.args[1].IntVal(); ok && v == 1 || e.args[1] == x.floatConst("1") {
				k = 1
			}
			c.ob(k == 1, rule, "failures", "the failure counter goes up by %s: %s", e.args[1], path())
			adds++
		case methodIs(e, "Set") && len(e.args) == 2:
			if g := s.metric(e.args[0]); g != "" {
				gauges[g]++
			}
		}
	})
	own, other := "log_cache_promql_instant_query_time", "log_cache_promql_range_query_time"
	if m == "RangeQuery" {
		own, other = other, own
	}
	c.ob(gauges[own] == 1 && gauges[other] == 0, rule, "duration", "the evaluation's duration is reported as %v: %s", gauges, path())
	switch x.isNil(f, rep) {
	case -1:
		n["reported"]++
		c.ob(failed && x.same(f, o.Vals[1], rep), rule, "reported", "an error of the data source is answered with %s: %s", o.Vals[1], path())
		c.ob(adds == 1, rule, "failures", "a failed query is counted %d times: %s", adds, path())
		return
	case 0:
		c.ob(false, rule, "reported", "an error of the data source does not make the query fail: %s", path())
		return
	}
	c.ob(adds == 0, rule, "failures", "a query is counted as failed that is not: %s", path())
	// the result
	res := ex.res[0]
	rT := derefType(res.typ)
	rErr, val := x.LoadField(o.St.mem, res, rT, "Err"), x.LoadField(o.St.mem, res, rT, "Value")
	switch x.isNil(f, rErr) {
	case -1:
		n["result error"]++
		c.ob(failed && derives(o.Vals[1], rErr), rule, "result error", "the engine's error is answered with %s: %s", o.Vals[1], path())
		return
	case 0:
		c.ob(false, rule, "result error", "a result is used although the engine may have failed: %s", path())
		return
	}
	kind := ""
	unknown := true
	for _, k := range []string{"scalar", "vector", "matrix"} {
		is := valueIs(x, o.evs, f, val, k)
		if is == 1 {
			kind = k
		}
		if is != -1 && (m == "InstantQuery" || k == "matrix") {
			unknown = false
		}
	}
	allEvents(o.evs, func(e *Event) {
		if e.kind == EvMay && e.name == "typeassert" {
			ok := false
			for _, k := range []string{"scalar", "vector", "matrix"} {
				ok = ok || e.val == val && valueIs(x, o.evs, e.facts, val, k) == 1 && isNamedT(promEng, strings.ToUpper(k[:1])+k[1:])(e.args[0].typ)
			}
			c.ob(ok, rule, "assertion", "the type assertion on %s may panic in %s", e.val, x.where(e))
		}
	})
	if failed {
		n["unknown"]++
		c.ob(unknown, rule, "result kind", "a result that can be reported is answered with an error: %s", path())
		return
	}
	if !c.ob(kind != "" && (m == "InstantQuery" || kind == "matrix"), rule, "result kind", "a result of another kind is reported: %s", path()) {
		return
	}
	n[kind]++
	c.promAnswer(s, r, m, rule, kind, o, val)
}

// valueIs: is the engine's result v of that kind?
func valueIs(x *X, evs []*Event, f *Facts, v *Term, kind string) int {
	T := x.T
	named := isNamedT(promEng, strings.ToUpper(kind[:1])+kind[1:])
	r := 0
	f.each(func(t *Term, b bool) {
		if t.op == "istype" && t.args[0] == v {
			switch {
			case named(t.typ) && b:
				r = 1
			case named(t.typ) || b:
				r = -1
			}
		}
	})
	allEvents(evs, func(e *Event) {
		if methodIs(e, "Type") && e.args[0] == v && r == 0 {
			r = f.Eval(T.Eq(e.res[0], T.Const(constant.MakeString(kind), e.res[0].typ)))
		}
	})
	return r
}

// aboutNow: the current time, at most rounded to seconds.
func aboutNow(t *Term) bool {
	for t.op == "pure" && (t.sym == "(time.Time).Truncate" || t.sym == "(time.Time).Round" || t.sym == "(time.Time).UTC" || t.sym == "(time.Time).Local") {
		if len(t.args) == 2 {
			if d, ok := t.args[1].IntVal(); !ok || d > 1e9 {
				return false
			}
		}
		t = t.args[0]
	}
	return t.op == "ret" && strings.HasPrefix(t.ev.name, "time.Now")
}

// ctxFrom: ctx itself or a context made from it.
func ctxFrom(t, ctx *Term) bool {
	for t != ctx {
		if t.op != "ret" || t.ev == nil || !strings.HasPrefix(t.ev.name, "context.With") || len(t.ev.args) == 0 || t.ev.name == "context.WithoutCancel" {
			return false
		}
		t = t.ev.args[0]
	}
	return true
}

// stepsBounded: the facts bound (end-start)/step.
func stepsBounded(f *Facts, st, en, sp *Term) bool {
	const most = 1000000
	isRange := func(t *Term) bool {
		t = stripConv(t)
		return t.op == "pure" && t.sym == "(time.Time).Sub" && t.args[0] == en && t.args[1] == st
	}
	ok := false
	f.each(func(t *Term, b bool) {
		if t.op != "lt" {
			return
		}
		walkTerm(t, func(q *Term) {
			if q.op == "/" && isRange(q.args[0]) && stripConv(q.args[1]) == sp {
				for _, side := range t.args {
					if stripConv(side) == q && f.clone().entLE(side, f.T.Int(most), 0) {
						ok = true
					}
				}
			}
		})
		// !(k*step < end-start)
		if !b && isRange(t.args[1]) && t.args[0].op == "*" {
			a, k := t.args[0].args[0], t.args[0].args[1]
			if v, isK := a.IntVal(); isK && v <= most && k == sp {
				ok = true
			}
			if v, isK := k.IntVal(); isK && v <= most && a == sp {
				ok = true
			}
		}
	})
	if !ok {
		for _, t := range f.ids {
			if q := stripConv(t); q.op == "/" && isRange(q.args[0]) && stripConv(q.args[1]) == sp && f.clone().entLE(t, f.T.Int(most), 0) {
				ok = true
			}
		}
	}
	return ok
}

// hasField: the object p points to has such a field.
func (x *X) hasField(p *Term, name string) bool {
	st := structOf(derefType(p.typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// cellRoot: the object a cell is part of.
func cellRoot(a *Term) *Term {
	for (a.op == "fieldaddr" || a.op == "indexaddr") && len(a.args) > 0 {
		a = a.args[0]
	}
	return a
}

// madeIn: t is made anew by each iteration of l.
func madeIn(l *LoopInfo, t *Term) bool {
	t = stripIface(t)
	for _, p := range l.phis {
		if t.id < p.sym.id {
			return false
		}
	}
	return len(l.phis) > 0
}

// methodOf: the method of v's dynamic type.
func (x *X) methodOf(v *Term, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(v.typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// perElemAt: sl has one element for every element of s, in order, accepted by
// ok, which is given the address of the element of s and the iteration.
func (x *X) perElemAt(evs []*Event, sl, s *Term, exits []*Event, ok func(l *LoopInfo, it *IterPath, got, at *Term) string) string {
	el := elemTypeOf(s.typ)
	if el == nil {
		return "no elements in " + s.String()
	}
	if sl.op == "mkslice" && len(sl.args) > 0 && sl.args[0] == x.T.Len(s) {
		n := 0
		for _, l := range loopsIn(evs) {
			writes := false
			allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) {
				writes = writes || e.kind == EvStore && e.addr.op == "indexaddr" && e.addr.args[0] == sl
			})
			if !writes {
				continue
			}
			n++
			cv, why := x.covers(l, s, exits)
			if cv == nil {
				return why
			}
			for _, it := range l.iters {
				k := 0
				for _, e := range it.events {
					if e.kind == EvStore && e.addr.op == "indexaddr" && e.addr.args[0] == sl {
						k++
						if e.addr.args[1] != cv.idx {
							return "an iteration sets " + e.addr.String()
						}
						if why := ok(l, it, e.val, x.T.IndexAddr(s, cv.idx, el)); why != "" {
							return why
						}
					}
				}
				if k != 1 {
					return "an iteration leaves an element out"
				}
			}
		}
		if n != 1 {
			return "not filled by one loop"
		}
		return ""
	}
	if sl.loop == nil {
		return "not accumulated by a loop: " + sl.String()
	}
	cv, why := x.covers(sl.loop, s, exits)
	if cv == nil {
		return why
	}
	if in := x.initOf(sl); !x.startsEmpty(in) {
		return "does not start empty"
	}
	for _, it := range sl.loop.iters {
		n := it.next[sl]
		if n.op != "append" || len(n.args) != 2 || n.args[0] != sl {
			return "an iteration yields " + n.String()
		}
		if why := ok(sl.loop, it, n.args[1], x.T.IndexAddr(s, cv.idx, el)); why != "" {
			return why
		}
	}
	return ""
}

func (x *X) startsEmpty(in *Term) bool {
	return in != nil && (in.IsNil() || x.isEmptyFresh(in) || in.op == "mkslice" && x.T.Len(in) == x.T.Int(0))
}

// mapFrom: mp, made here, has exactly the entries ent gives for the elements of s.
func (x *X) mapFrom(evs []*Event, mp, s *Term, exits []*Event, ent func(m *Mem, at *Term) (k, v *Term)) string {
	if mp.op != "makemap" {
		return mp.String() + " is not made for it"
	}
	el := elemTypeOf(s.typ)
	n := 0
	for _, e := range evs {
		switch e.kind {
		case EvMapUpdate:
			if e.args[0] == mp {
				return "an entry is set at " + x.where(e)
			}
		case EvLoop:
			writes := false
			allEvents([]*Event{e}, func(d *Event) { writes = writes || d.kind == EvMapUpdate && d.args[0] == mp })
			if !writes {
				continue
			}
			n++
			cv, why := x.covers(e.loop, s, exits)
			if cv == nil {
				return why
			}
			for _, it := range e.loop.iters {
				k := 0
				for _, d := range it.events {
					if d.kind == EvMapUpdate && d.args[0] == mp {
						k++
						wk, wv := ent(d.mem, x.T.IndexAddr(s, cv.idx, el))
						if d.name == "delete" || !x.same(d.facts, d.args[1], wk) || !x.same(d.facts, d.val, wv) {
							return "an entry is set at " + x.where(d) + " that is not the visited element's"
						}
					}
				}
				if k != 1 {
					return "an element is left out"
				}
			}
		}
	}
	if n != 1 {
		return "not filled by one loop"
	}
	return ""
}

// promObj: v is a value of that protobuf type made on the path.
func promObj(v *Term, name string) bool {
	v = stripIface(v)
	return isFreshObj(v) && isNamedPtr(v.typ, lcv1, name)
}

// promAnswer: the answer has everything the result has.
func (c *C) promAnswer(s *promScn, r *promRun, m, rule, kind string, o *Outcome, val *Term) {
	x := s.X
	path := func() string { return x.pathStr(o) }
	K := strings.ToUpper(kind[:1]) + kind[1:]
	base := "PromQL_" + m + "Result"
	fld := func(mem *Mem, p *Term, f string) *Term {
		p = stripIface(p)
		return x.LoadField(mem, p, derefType(p.typ), f)
	}
	ans := o.Vals[0]
	if !c.ob(promObj(ans, base), rule, "answer", "the answer is %s: %s", ans, path()) {
		return
	}
	w := fld(o.St.mem, ans, "Result")
	if !c.ob(promObj(w, base+"_"+K), rule, "answer", "a %s is answered with %s: %s", kind, w, path()) {
		return
	}
	v := fld(o.St.mem, w, K)
	if !c.ob(promObj(v, "PromQL_"+K), rule, "answer", "a %s is answered with %s: %s", kind, v, path()) {
		return
	}
	res := x.T.mk("assert", "", x.NamedType(promEng, K), val)
	isTime := func(t, ms *Term) bool {
		if t.op != "pure" || t.sym != "strconv.FormatFloat" || len(t.args) != 4 {
			return false
		}
		for i, k := range []int64{'f', 3, 64} {
			if got, ok := t.args[i+1].IntVal(); !ok || got != k {
				return false
			}
		}
		d := t.args[0]
		if d.op != "/" || stripConv(d.args[0]) != ms || !isFloat64(d.typ) {
			return false
		}
		k, ok := d.args[1].IntVal()
		return ok && k == 1000 || d.args[1] == x.floatConst("1000")
	}
	metric := func(l *LoopInfo, it *IterPath, got, at *Term) string {
		if !madeIn(l, got) {
			return "shared between answers"
		}
		st := derefType(at.typ)
		ls := x.LoadField(it.mem, at, st, "Metric")
		return x.mapFrom(it.events, got, ls, r.exits, func(m *Mem, l *Term) (*Term, *Term) {
			return x.LoadField(m, l, derefType(l.typ), "Name"), x.LoadField(m, l, derefType(l.typ), "Value")
		})
	}
	point := func(l *LoopInfo, it *IterPath, got, at *Term) string {
		if !promObj(got, "PromQL_Point") || !madeIn(l, got) {
			return "a point is " + got.String()
		}
		t, pv := fld(it.mem, got, "Time"), fld(it.mem, got, "Value")
		if !isTime(t, x.LoadField(it.mem, at, derefType(at.typ), "T")) {
			return "a point's time is " + t.String()
		}
		if !x.same(it.facts, pv, x.LoadField(it.mem, at, derefType(at.typ), "V")) {
			return "a point's value is " + pv.String()
		}
		return ""
	}
	why := ""
	switch kind {
	case "scalar":
		t, sv := fld(o.St.mem, v, "Time"), fld(o.St.mem, v, "Value")
		if !isTime(t, x.structVal(res, "T")) {
			why = "the time is " + t.String()
		} else if sv != x.structVal(res, "V") {
			why = "the value is " + sv.String()
		}
	case "vector":
		why = x.perElemAt(o.evs, fld(o.St.mem, v, "Samples"), res, r.exits, func(l *LoopInfo, it *IterPath, got, at *Term) string {
			if !promObj(got, "PromQL_Sample") || !madeIn(l, got) {
				return "a sample is " + got.String()
			}
			if why := metric(l, it, fld(it.mem, got, "Metric"), at); why != "" {
				return "the labels: " + why
			}
			return point(l, it, fld(it.mem, got, "Point"), x.FieldNamed(at, derefType(at.typ), "Point"))
		})
	case "matrix":
		why = x.perElemAt(o.evs, fld(o.St.mem, v, "Series"), res, r.exits, func(l *LoopInfo, it *IterPath, got, at *Term) string {
			if !promObj(got, "PromQL_Series") || !madeIn(l, got) {
				return "a series is " + got.String()
			}
			if why := metric(l, it, fld(it.mem, got, "Metric"), at); why != "" {
				return "the labels: " + why
			}
			pts := fld(it.mem, got, "Points")
			return x.perElemAt(it.events, pts, x.LoadField(it.mem, at, derefType(at.typ), "Points"), r.exits, point)
		})
	}
	c.ob(why == "", rule, kind, "a %s is not answered whole: %s: %s", kind, why, path())
}

// structVal: a field of a struct value.
func (x *X) structVal(v *Term, name string) *Term {
	st := structOf(v.typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.valField(v, i)
		}
	}
	return nil
}

func isFloat64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat)
}

// promParsers: what a time and a step mean.
func (c *C) promParsers() {
	x := c.newX()
	T := x.T
	for _, name := range []string{"ParseTime", "ParseStep"} {
		rule := name
		fn := x.Fn(promPkg, "", name)
		ps := x.params(fn)
		in := ps[0]
		outs := c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, name)
		c.noMay(x, outs, rule, name, append([]string{"nil"}, hardMay...)...)
		n := map[string]int{}
		for _, o := range outs {
			path := func() string { return x.pathStr(o) }
			f := o.St.facts
			var num, numErr, alt, altErr *Term
			for _, e := range o.evs {
				if !isExtCall(e) || len(e.res) != 2 {
					continue
				}
				switch e.name {
				case "strconv.ParseFloat":
					if b, ok := e.args[1].IntVal(); ok && b == 64 && e.args[0] == in {
						num, numErr = e.res[0], e.res[1]
					}
				case "time.Parse":
					l, _ := e.args[0].StrVal()
					if (l == time.RFC3339Nano || l == time.RFC3339) && e.args[1] == in && name == "ParseTime" {
						alt, altErr = e.res[0], e.res[1]
					}
				case "github.com/prometheus/common/model.ParseDuration":
					if e.args[0] == in && name == "ParseStep" {
						alt, altErr = e.res[0], e.res[1]
					}
				}
			}
			isNum := numErr != nil && x.isNil(f, numErr) == 1
			notNum := numErr != nil && x.isNil(f, numErr) == -1
			isAlt := altErr != nil && x.isNil(f, altErr) == 1
			notAlt := altErr != nil && x.isNil(f, altErr) == -1
			secs := func(t *Term) bool { // num * 1e9
				t = stripConv(t)
				if t.op != "*" {
					return false
				}
				for i := 0; i < 2; i++ {
					k, ok := t.args[1-i].IntVal()
					if t.args[i] == num && (ok && k == 1e9 || t.args[1-i] == x.floatConst("1000000000")) {
						return true
					}
				}
				return false
			}
			over := 0
			f.each(func(t *Term, b bool) {
				if t.op != "lt" {
					return
				}
				// too big or too small for int64
				big := secs(t.args[1]) && floatAt(t.args[0], 1)
				small := secs(t.args[0]) && floatAt(t.args[1], -1)
				switch {
				case big && b || small && b:
					over = 1
				case big && over != 1:
					over--
				case small && over != 1:
					over--
				}
			})
			fits := name == "ParseTime" || over <= -2
			switch {
			case x.isNil(f, o.Vals[1]) == -1:
				n["refused"]++
				c.ob(notNum && notAlt || isNum && over == 1 && name == "ParseStep", rule, "refused", "a text that is a number or %s may be refused: %s", map[string]string{"ParseTime": "an RFC 3339 time", "ParseStep": "a duration"}[name], path())
			case !c.ob(o.Vals[1].IsNil(), rule, "error", "it is open whether the text is refused: %s", path()):
			case isNum:
				n["number"]++
				got := o.Vals[0]
				ok := false
				if name == "ParseTime" {
					ok = got.op == "pure" && got.sym == "time.Unix" && got.args[0] == T.Int(0) && secs(got.args[1])
				} else {
					ok = secs(got)
				}
				c.ob(ok, rule, "number", "a number of seconds means %s: %s", got, path())
				c.ob(fits, rule, "overflow", "a number of seconds that does not fit is taken: %s", path())
			case isAlt:
				n["other"]++
				c.ob(notNum && stripConv(o.Vals[0]) == alt, rule, "text", "the text means %s: %s", o.Vals[0], path())
			default:
				c.ob(false, rule, "text", "a text is accepted that is neither: %s", path())
			}
		}
		for _, k := range []string{"refused", "number", "other"} {
			c.need(n[k], 1, rule, k)
		}
	}
}

// floatAt: a constant near the largest (or smallest) int64.
func floatAt(t *Term, sign int) bool {
	t = stripConv(t)
	if t.op != "const" || t.cv == nil {
		return false
	}
	v := constant.ToFloat(t.cv)
	if v.Kind() != constant.Float {
		return false
	}
	g, _ := constant.Float64Val(v)
	g *= float64(sign)
	return g > 9.2e18 && g <= 9223372036854775808.0
}
