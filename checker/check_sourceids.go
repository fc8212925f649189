package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C46", "The source ids taken from a query are exactly those evaluating it would read",
		"Path-partitioned dataflow over ExtractSourceIds and ReplaceSourceIdSets for an arbitrary query, and over the visitor each of them sends through the parsed query, for an arbitrary vector selector, matrix selector and other node: one arbitrary iteration of the loops over its matchers, the parts of an alternative and the ids found.", checkC46)
}

// walked: the walk over the parsed query, and what its visitor does with a
// node of each kind.
type walked struct {
	ev, parse *Event
	visit     func(kind string) (node, matchers *Term, outs []*Outcome, exits []*Event)
}

func (c *C) walkOf(x *X, o *Outcome, query *Term, rule, what string) *walked {
	w := &walked{}
	n := 0
	for _, e := range o.evs {
		if !isExtCall(e) {
			continue
		}
		switch e.name {
		case promEng + ".ParseExpr":
			w.parse = e
		case promEng + ".Walk", promEng + ".Inspect":
			w.ev = e
			n++
		}
	}
	if !c.ob(n <= 1, rule, "walk", "%s goes over the query %d times", what, n) {
		return nil
	}
	if !c.ob(w.parse != nil && w.parse.args[0] == query, rule, "parsed", "%s does not parse the query", what) {
		return nil
	}
	if w.ev == nil {
		return w
	}
	inspect := strings.HasSuffix(w.ev.name, "Inspect")
	node, visitor := w.ev.args[1], w.ev.args[0]
	if inspect {
		node, visitor = w.ev.args[0], w.ev.args[1]
	}
	if !c.ob(stripIface(node) == stripIface(w.parse.res[0]), rule, "walk", "%s goes over %s, not the parsed query", what, node) {
		return nil
	}
	w.visit = func(kind string) (*Term, *Term, []*Outcome, []*Event) {
		st := x.newState()
		st.mem, st.facts = w.ev.mem, w.ev.facts
		st.mem.shared, st.fShare = true, true
		st.wfacts()
		st = st.clone()
		nodeT := x.NamedType(promEng, "Node")
		var n, ms *Term
		if kind != "" {
			T := x.NamedType(promEng, kind)
			p := x.symOf("selector", types.NewPointer(T))
			st.wfacts().Assume(x.T.Eq(p, x.T.Nil()), false)
			ms = x.LoadField(st.mem, p, T, "LabelMatchers")
			n = x.iface(p, p.typ)
		} else {
			n = x.symOf("node", nodeT)
			st.wfacts().Assume(x.T.Eq(n, x.T.Nil()), false)
		}
		var outs []*Outcome
		if inspect {
			outs = x.CallTerm(visitor, []*Term{n, x.T.Nil()}, st)
		} else {
			outs = x.CallMethod(stripIface(visitor), "Visit", []*Term{n, x.T.Nil()}, st)
		}
		for _, o := range outs {
			if !c.ob(!o.Panic && !o.Endless, rule, "visits", "the visitor may panic: %s", x.pathStr(o)) {
				continue
			}
			err := o.Vals[len(o.Vals)-1]
			c.ob(err.IsNil(), rule, "visits on", "the visitor stops with %s: %s", err, x.pathStr(o))
			if !inspect {
				c.ob(o.Vals[0] == visitor || stripIface(o.Vals[0]) == stripIface(visitor), rule, "visits on", "the visitor leaves what is below a node to %s: %s", o.Vals[0], x.pathStr(o))
			}
		}
		return n, ms, outs, exitsAll(outs)
	}
	return w
}

// parsedOr: the query that does not parse is refused with the reason.
func (c *C) parsedOr(x *X, o *Outcome, w *walked, rule, what string) bool {
	f := o.St.facts
	err := o.Vals[1]
	switch x.isNil(f, w.parse.res[1]) {
	case -1:
		c.ob(x.same(f, err, w.parse.res[1]) || x.isNil(f, err) == -1 && derives(err, w.parse.res[1]), rule, "refused", "%s answers a query that does not parse: %s", what, x.pathStr(o))
		return false
	case 0:
		c.ob(false, rule, "refused", "%s does not look whether the query parses: %s", what, x.pathStr(o))
		return false
	}
	return c.ob(err.IsNil() && w.ev != nil, rule, "answered", "%s refuses a query that parses, or does not go over it: %s", what, x.pathStr(o))
}

func checkC46(c *C) {
	x := c.newX()
	n := map[string]int{}
	// extraction
	{
		const rule = "extract"
		fn := x.Fn(promPkg, "", "ExtractSourceIds")
		ps := x.params(fn)
		outs := c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, "ExtractSourceIds")
		exits := exitsAll(outs)
		c.noMay(x, outs, rule, "ExtractSourceIds", hardMay...)
		for _, o := range outs {
			w := c.walkOf(x, o, ps[0], rule, "ExtractSourceIds")
			if w == nil || !c.parsedOr(x, o, w, rule, "ExtractSourceIds") {
				n["refused"]++
				continue
			}
			n["extracted"]++
			list := o.Vals[0]
			ids, why := x.keysOf(o, w.ev, list, exits)
			if !c.ob(ids != nil, rule, "every id", "the answer is %s, not every source id found: %s: %s", list, why, x.pathStr(o)) {
				continue
			}
			for _, kind := range []string{"VectorSelector", "MatrixSelector"} {
				_, ms, vo, vx := w.visit(kind)
				for _, v := range vo {
					if v.Panic {
						continue
					}
					c.noMay(x, []*Outcome{v}, rule, "the visitor", hardMay...)
					var l *LoopInfo
					why := "no loop"
					for _, q := range loopsIn(v.evs) {
						if cv, y := x.covers(q, ms, vx); cv != nil {
							l = q
						} else {
							why = y
						}
					}
					for _, e := range v.evs {
						c.ob(e.kind != EvMapUpdate || e.args[0] != ids, rule, "no other id", "an id is added apart from the matchers at %s", x.where(e))
					}
					if !c.ob(l != nil, rule, "every matcher", "not every matcher of a %s is looked at: %s", kind, why) {
						continue
					}
					cv, _ := x.covers(l, ms, vx)
					k := map[string]int{}
					for _, it := range l.iters {
						c.idMatcher(x, it, x.elemAt(it.mem, ms, cv.idx), ids, vx, rule, k)
					}
					for _, q := range []string{"equal", "regexp", "other"} {
						c.need(k[q], 1, rule, kind+" "+q)
					}
					n[kind]++
				}
			}
			_, _, vo, _ := w.visit("")
			for _, v := range vo {
				f := v.St.facts
				sel := false
				f.each(func(t *Term, b bool) { sel = sel || t.op == "istype" && b })
				if sel {
					continue
				}
				allEvents(v.evs, func(e *Event) {
					c.ob(e.kind != EvMapUpdate || e.args[0] != ids, rule, "no other id", "a node that is no selector adds an id at %s", x.where(e))
				})
			}
		}
	}
	c.need(n["refused"], 1, "extract", "refused")
	c.need(n["extracted"], 1, "extract", "extracted")
	c.replaceIDs(x, n)
	for _, k := range []string{"VectorSelector", "MatrixSelector", "replaced VectorSelector", "replaced MatrixSelector"} {
		c.need(n[k], 1, "selectors", k)
	}
}

// keysOf: list has every key of a map, filled after walk; the map.
func (x *X) keysOf(o *Outcome, walk *Event, list *Term, exits []*Event) (*Term, string) {
	if list.loop == nil {
		return nil, "not filled by a loop"
	}
	after := false
	for _, e := range o.evs {
		if e == walk {
			after = true
		}
		if e.kind == EvLoop && e.loop == list.loop && !after {
			return nil, "filled before the query was gone over"
		}
	}
	if !x.startsEmpty(x.initOf(list)) {
		return nil, "it does not start empty"
	}
	var m *Term
	for _, it := range list.loop.iters {
		v := it.next[list]
		if v.op != "append" || len(v.args) != 2 || v.args[0] != list || v.args[1].op != "rangekey" || m != nil && v.args[1].args[0] != m {
			return nil, "an id becomes " + v.String()
		}
		m = v.args[1].args[0]
	}
	if m == nil {
		return nil, "no map is gone over"
	}
	return m, x.overMapOr(list.loop, m, exits, &m)
}

func (x *X) overMapOr(l *LoopInfo, m *Term, exits []*Event, clear **Term) string {
	why := x.overMap(l, m, exits)
	if why != "" {
		*clear = nil
	}
	return why
}

func (c *C) replaceIDs(x *X, n map[string]int) {
	const rule = "replace"
	T := x.T
	fn := x.Fn(promPkg, "", "ReplaceSourceIdSets")
	ps := x.params(fn)
	outs := c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, "ReplaceSourceIdSets")
	c.noMay(x, outs, rule, "ReplaceSourceIdSets", hardMay...)
	sets := ps[1]
	for _, o := range outs {
		w := c.walkOf(x, o, ps[0], rule, "ReplaceSourceIdSets")
		if w == nil || !c.parsedOr(x, o, w, rule, "ReplaceSourceIdSets") {
			n["kept"]++
			continue
		}
		var str *Event
		after := false
		for _, e := range o.evs {
			after = after || e == w.ev
			if after && methodIs(e, "String") && isExtCall(e) && stripIface(e.args[0]) == stripIface(w.parse.res[0]) {
				str = e
			}
		}
		c.ob(str != nil && o.Vals[0] == str.res[0], rule, "rendered", "the answer is %s, not the query with its ids replaced: %s", o.Vals[0], x.pathStr(o))
		for _, kind := range []string{"VectorSelector", "MatrixSelector"} {
			_, ms, vo, vx := w.visit(kind)
			for _, v := range vo {
				if v.Panic {
					continue
				}
				c.noMay(x, []*Outcome{v}, rule, "the visitor", hardMay...)
				var l *LoopInfo
				why := "no loop"
				for _, q := range loopsIn(v.evs) {
					if cv, y := x.covers(q, ms, vx); cv != nil {
						l = q
					} else {
						why = y
					}
				}
				if !c.ob(l != nil, rule, "every matcher", "not every matcher of a %s is looked at: %s", kind, why) {
					continue
				}
				n["replaced "+kind]++
				cv, _ := x.covers(l, ms, vx)
				k := map[string]int{}
				for _, it := range l.iters {
					c.replaced(x, l, it, x.elemAt(l.pre, ms, cv.idx), sets, vx, k)
				}
				for _, q := range []string{"equal", "unknown", "regexp", "other"} {
					c.need(k[q], 1, rule, kind+" "+q)
				}
			}
		}
	}
	_ = T
}

// replaced: what becomes of one matcher.
func (c *C) replaced(x *X, l *LoopInfo, it *IterPath, el, sets *Term, exits []*Event, n map[string]int) {
	const rule = "replace"
	T := x.T
	f := it.facts
	old := func(n string) *Term { return x.LoadField(l.pre, el, derefType(el.typ), n) }
	now := func(n string) *Term { return x.LoadField(it.mem, el, derefType(el.typ), n) }
	eq, re := c.labelType(x, "MatchEqual"), c.labelType(x, "MatchRegexp")
	val, typ := old("Value"), old("Type")
	isID := f.Eval(T.Eq(old("Name"), T.Str("source_id")))
	isEq, isRe := f.Eval(T.Eq(typ, eq)), f.Eval(T.Eq(typ, re))
	if isEq == 1 {
		isRe = -1
	}
	if isRe == 1 {
		isEq = -1
	}
	c.ob(now("Name") == old("Name"), rule, "name", "a matcher's label becomes %s", now("Name"))
	untouched := func() bool { return now("Value") == val && now("Type") == typ }
	// join: the matcher's value is the alternative of list
	join := func() *Term {
		v := now("Value")
		if v.op != "pure" || v.sym != "strings.Join" || v.args[1] != T.Str("|") {
			return nil
		}
		return v.args[0]
	}
	many := func(list *Term) bool {
		nt := now("Type")
		isR := nt == re || nt == typ && isRe == 1
		isE := nt == eq || nt == typ && isEq == 1
		return isR || isE && f.clone().entLE(T.Len(list), T.Int(1), 0)
	}
	switch {
	case isID == -1 || isEq == -1 && isRe == -1:
		n["other"]++
		c.ob(untouched(), rule, "other", "a matcher that gives no source id becomes %s of type %s: %s", now("Value"), now("Type"), f)
	case isID == 1 && isEq == 1:
		known := 0
		var exp *Term
		f.each(func(t *Term, b bool) {
			if t.op == "has" && t.args[0] == sets && x.same(f, t.args[1], val) {
				known = map[bool]int{true: 1, false: -1}[b]
			}
		})
		if known == -1 {
			n["unknown"]++
			c.ob(untouched(), rule, "unknown", "a source id without a replacement becomes %s: %s", now("Value"), f)
			return
		}
		n["equal"]++
		exp = join()
		ok := exp != nil && exp.op == "lookup" && exp.args[0] == sets && exp.args[1] == val
		c.ob(known == 1 && ok, rule, "equal", "a source id becomes %s, want all of its replacements: %s", now("Value"), f)
		c.ob(!ok || many(exp), rule, "several", "several source ids are matched with type %s: %s", now("Type"), f)
	case isID == 1 && isRe == 1:
		n["regexp"]++
		acc := join()
		sp := T.mk("pure", "strings.Split", types.NewSlice(types.Typ[types.String]), val, T.Str("|"))
		why := "not built by a loop"
		if acc != nil && acc.loop != nil {
			cv, y := x.covers(acc.loop, sp, exits)
			why = y
			if cv != nil {
				why = ""
				if !x.startsEmpty(x.initOf(acc)) {
					why = "it does not start empty"
				}
				for _, pi := range acc.loop.iters {
					v := pi.next[acc]
					part := x.elemAt(pi.mem, sp, cv.idx)
					all := v.op == "appendall" && v.args[0] == acc && v.args[1].op == "lookup" && v.args[1].args[0] == sets && v.args[1].args[1] == part
					none := false
					pi.facts.each(func(t *Term, b bool) {
						none = none || t.op == "has" && !b && t.args[0] == sets && t.args[1] == part
					})
					if !all && !(none && (v == acc || v.op == "append" && len(v.args) == 2 && v.args[0] == acc && v.args[1] == part)) {
						why = "an alternative makes it " + v.String()
					}
				}
			}
		}
		c.ob(why == "", rule, "regexp", "alternative source ids become %s, want the replacements of each: %s: %s", now("Value"), why, f)
		c.ob(why != "" || many(acc), rule, "several", "several source ids are matched with type %s: %s", now("Type"), f)
	default:
		c.ob(false, rule, "open", "it is open whether a matcher is replaced: %s", f)
	}
}
