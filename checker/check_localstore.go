package main

import (
	"go/constant"
	"strings"
)

func init() {
	register("C38", "A read request means the same to every node: defaults, limits, filters",
		"Path-partitioned dataflow over the reader of the local store for an arbitrary request: for every abstract path, whether the request is one to refuse, and each argument the store is asked with; and how Meta copies what the store reports.", checkC38)
}

// filtered: sym collects, in order, exactly the elements of s that keep accepts.
func (x *X) filtered(sym, s *Term, exits []*Event, drop func(f *Facts, el *Term) int) string {
	if sym.loop == nil {
		return "not collected by a loop: " + sym.String()
	}
	cv, why := x.covers(sym.loop, s, exits)
	if cv == nil {
		return why
	}
	in := x.initOf(sym)
	if in == nil || !(in.IsNil() || x.isEmptyFresh(in) || in.op == "mkslice" && in.args[0].op == "const" && x.T.Len(in) == x.T.Int(0)) {
		return "starts as " + in.String()
	}
	for _, it := range sym.loop.iters {
		el := x.elemAt(it.mem, s, cv.idx)
		n := it.next[sym]
		switch drop(it.facts, el) {
		case 1:
			if n != sym {
				return "an element to leave out turns it into " + n.String()
			}
		case -1:
			if !(n.op == "append" && len(n.args) == 2 && n.args[0] == sym && x.same(it.facts, n.args[1], el)) {
				return "an element to keep turns it into " + n.String()
			}
		default:
			return "an element is kept or left out for another reason"
		}
	}
	return ""
}

func checkC38(c *C) {
	x := c.newX()
	T := x.T
	rT := x.NamedType(routePkg, "LocalStoreReader")
	fn := x.Fn("internal/routing", "*LocalStoreReader", "Read")
	ps := x.params(fn)
	r, req := ps[0], ps[2]
	st := x.newState()
	f0 := st.wfacts()
	f0.Assume(T.Eq(r, T.Nil()), false)
	f0.Assume(T.Eq(req, T.Nil()), false)
	store := x.fieldT(st.mem, r, rT, "the store", isNamedT(routePkg, "StoreReader"))
	f0.Assume(T.Eq(store, T.Nil()), false)
	reqT := derefType(req.typ)
	fld := func(n string) *Term { return x.LoadField(st.mem, req, reqT, n) }
	sid, start, end, limit := fld("SourceId"), fld("StartTime"), fld("EndTime"), fld("Limit")
	filter, etypes, desc := fld("NameFilter"), fld("EnvelopeTypes"), fld("Descending")
	outs := c.rets(x, x.Root(fn, st.clone(), ps, nil), "read", "Read")
	c.wireNil(x, outs, "read", "Read", req)
	c.noMay(x, outs, "read", "Read", append([]string{"nil"}, hardMay...)...)
	i64 := end.typ
	zero := T.Const(constInt(0), i64)
	noEnd, noFilter := T.Eq(end, zero), T.Eq(T.Len(filter), T.Int(0))
	refused, kinds := 0, map[string]int{}
	for _, o := range outs {
		const rule = "read"
		path := func() string { return x.pathStr(o) }
		f := o.St.facts
		gets := pick(o.evs, func(e *Event) bool { return methodIs(e, "Get") && e.args[0] == store })
		// the name filter
		var re, reErr *Term
		for _, e := range pick(o.evs, func(e *Event) bool { return e.name == "regexp.Compile" && e.args[0] == filter }) {
			re, reErr = e.res[0], e.res[1]
		}
		order := T.Lt(end, start) // end before start
		badOrder := f.Eval(noEnd) == -1 && f.Eval(order) == 1
		badLimit := f.Eval(T.Lt(T.Const(constInt(1000), limit.typ), limit)) == 1 || f.Eval(T.Lt(limit, T.Const(constInt(0), limit.typ))) == 1
		badFilter := f.Eval(noFilter) == -1 && reErr != nil && x.isNil(f, reErr) == -1
		if x.isNil(f, o.Vals[1]) == -1 {
			refused++
			for k, b := range map[string]bool{"order": badOrder, "limit": badLimit, "filter": badFilter} {
				if b {
					kinds[k]++
				}
			}
			c.ob(badOrder || badLimit || badFilter, rule, "refused", "a request may be refused although its times, limit and name filter are fine: %s", path())
			c.ob(len(gets) == 0 && o.Vals[0].IsNil(), rule, "refused", "a refused request is answered with %s: %s", o.Vals[0], path())
			continue
		}
		if !c.ob(o.Vals[1].IsNil(), rule, "error", "the error is %s: %s", o.Vals[1], path()) {
			continue
		}
		g := f.clone()
		okOrder := f.Eval(noEnd) == 1 || f.Eval(order) == -1
		c.ob(okOrder, rule, "order", "a request that ends before it starts may be read: %s", path())
		c.ob(g.entLE(limit, T.Int(1000), 0) && g.entLE(T.Int(0), limit, 0), rule, "limit", "a request with a limit outside of 0 to 1000 may be read: %s", path())
		if !c.ob(len(gets) == 1, rule, "store", "the store is read %d times: %s", len(gets), path()) {
			continue
		}
		a := gets[0].args[1:]
		c.ob(x.same(f, a[0], sid), rule, "source", "the store is asked for source %s: %s", a[0], path())
		unix := func(t, want *Term) bool {
			return t.op == "pure" && t.sym == "time.Unix" && len(t.args) == 2 && t.args[0] == T.Int(0) && x.same(f, t.args[1], want)
		}
		c.ob(unix(a[1], start), rule, "start", "the store is asked from %s: %s", a[1], path())
		if f.Eval(noEnd) == 1 {
			kinds["default end"]++
			now := func(t *Term) bool { return t.op == "ret" && strings.HasPrefix(t.sym, "time.Now") }
			ok := now(a[2])
			if a[2].op == "pure" && a[2].sym == "time.Unix" && a[2].args[0] == T.Int(0) {
				q := a[2].args[1]
				ok = q.op == "pure" && q.sym == "UnixNano" && now(q.args[0])
			}
			c.ob(ok, rule, "default end", "without an end the store is asked until %s, want now: %s", a[2], path())
		} else {
			c.ob(f.Eval(noEnd) == -1 && unix(a[2], end), rule, "end", "the store is asked until %s: %s", a[2], path())
		}
		why := x.filtered(a[3], etypes, exitsAll(outs), func(g *Facts, el *Term) int {
			return g.Eval(T.Eq(el, T.Const(constInt(0), el.typ)))
		})
		if why != "" && a[3] == etypes && f.Eval(T.Eq(T.Len(etypes), T.Int(0))) == 1 {
			why = "" // no types asked for
		}
		c.ob(why == "", rule, "envelope types", "the store is not asked for the requested types without ANY: %s: %s", why, path())
		switch f.Eval(noFilter) {
		case 1:
			c.ob(a[4].IsNil(), rule, "no name filter", "without a name filter the store is asked with %s: %s", a[4], path())
		case -1:
			kinds["name filter"]++
			c.ob(re != nil && a[4] == re && x.isNil(f, reErr) == 1, rule, "name filter", "the store is asked with name filter %s, want the one of the request: %s", a[4], path())
		default:
			c.ob(false, rule, "name filter", "the name filter is not looked at: %s", path())
		}
		lim := stripConv(a[5])
		zl := f.Eval(T.Eq(limit, T.Const(constInt(0), limit.typ)))
		if zl == 1 {
			kinds["default limit"]++
			k, ok := lim.IntVal()
			c.ob(ok && k == 100, rule, "default limit", "without a limit the store is asked for %s, want 100: %s", a[5], path())
		} else {
			c.ob(zl == -1 && x.same(f, lim, limit), rule, "limit", "the store is asked for %s: %s", a[5], path())
		}
		c.ob(x.same(f, a[6], desc), rule, "direction", "the store is asked in direction %s: %s", a[6], path())
		ans := o.Vals[0]
		ok := isFreshObj(ans)
		if ok {
			eb := x.LoadField(o.St.mem, ans, derefType(ans.typ), "Envelopes")
			ok = isFreshObj(eb) && x.LoadField(o.St.mem, eb, derefType(eb.typ), "Batch") == gets[0].res[0]
		}
		c.ob(ok, rule, "answer", "the answer is not what the store returned: %s", path())
	}
	for _, k := range []string{"order", "limit", "filter", "default end", "default limit", "name filter"} {
		c.need(kinds[k], 1, "read", "paths: "+k)
	}
	// meta
	const rule = "meta"
	fn = x.Fn("internal/routing", "*LocalStoreReader", "Meta")
	ps = x.params(fn)
	ps[0] = r
	outs = c.rets(x, x.Root(fn, st.clone(), ps, nil), rule, "Meta")
	c.noMay(x, outs, rule, "Meta", append([]string{"nil"}, hardMay...)...)
	for _, o := range outs {
		path := func() string { return x.pathStr(o) }
		ms := pick(o.evs, func(e *Event) bool { return methodIs(e, "Meta") && e.args[0] == store })
		if !c.ob(len(ms) == 1 && o.Vals[1].IsNil() && isFreshObj(o.Vals[0]), rule, "answer", "Meta answers (%s, %s): %s", o.Vals[0], o.Vals[1], path()) {
			continue
		}
		src := ms[0].res[0]
		into := x.LoadField(o.St.mem, o.Vals[0], derefType(o.Vals[0].typ), "Meta")
		c.ob(into.op == "makemap", rule, "own answer", "sources are answered in %s, which may hold those of an earlier answer: %s", into, path())
		n := 0
		for _, l := range loopsIn(o.evs) {
			if why := x.overMap(l, src, exitsOf(outs, l)); why != "" {
				c.ob(false, rule, "every source", "%s: %s", why, path())
				continue
			}
			for _, it := range l.iters {
				k := 0
				for _, e := range it.events {
					if e.kind != EvMapUpdate {
						continue
					}
					k++
					// each source gets a figure of its own
					own := isFreshObj(e.val) && e.val.id >= l.startT && isValOf(x.loadMem(e.mem, e.val, derefType(e.val.typ)), src)
					if isFreshObj(e.val) && !own {
						own = e.val.id >= l.startT && x.copiesFields(e.mem, e.val, src)
					}
					c.ob(e.addr == into && isKeyOf(e.args[1], src) && own, rule, "copied", "the answer gets %s for %s: %s", e.val, e.args[1], path())
				}
				c.ob(k == 1, rule, "copied", "a source is answered %d times: %s", k, path())
				n++
			}
		}
		c.need(n, 1, rule, "sources copied")
	}
	// the reader uses the store it is given
	ctor := x.Fn("internal/routing", "", "NewLocalStoreReader")
	cp := x.params(ctor)
	for _, o := range c.rets(x, x.Root(ctor, x.newState(), cp, nil), "construction", "NewLocalStoreReader") {
		ok := isFreshObj(o.Vals[0]) && x.fieldT(o.St.mem, o.Vals[0], rT, "the store", isNamedT(routePkg, "StoreReader")) == cp[0]
		c.ob(ok, "construction", "store", "the reader does not read the given store")
	}
}

func exitsAll(outs []*Outcome) []*Event {
	var r []*Event
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvLoopExit {
				r = append(r, e)
			}
		})
	}
	return r
}

// copiesFields: every exported field of *p is that of the visited entry of m.
func (x *X) copiesFields(m *Mem, p, src *Term) bool {
	t := derefType(p.typ)
	st := structOf(t)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() || strings.HasPrefix(st.Field(i).Name(), "XXX_") {
			continue
		}
		v := x.loadMem(m, x.T.FieldAddr(p, t, i), st.Field(i).Type())
		ok := false
		switch {
		case v == nil:
		case v.op == "field":
			ok = isValOf(v.args[0], src) && strings.HasSuffix(v.sym, "."+st.Field(i).Name())
		case v.op == "init" && v.args[0].op == "fieldaddr":
			ok = derivesVal(v.args[0].args[0], src) && fieldName(v.args[0]) == st.Field(i).Name()
		}
		if !ok {
			return false
		}
	}
	return true
}

func constInt(k int64) constant.Value { return constant.MakeInt64(k) }
