package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

func init() {
	register("C44", "A PromQL selector gets every point of its source ids that matches, and no other",
		"Path-partitioned dataflow over Select of the querier a query hands to the engine, for arbitrary matchers and an arbitrary answer of the data source: one arbitrary iteration of the loops over the matchers, the source ids, the envelopes and the series; and the methods of the series set, series and iterators it answers with.", checkC44)
}

type selScn struct {
	*promScn
	*selRun
	c        *C
	matchers *Term // label matchers a point has to satisfy
	metric   *Term // the metric's name
	ids      *Term // map of the source ids to read
	data     *Term // map of the series
	valT     types.Type
}

func (c *C) labelType(x *X, name string) *Term {
	k, ok := x.prog.ImportedPackage(promLbls).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		x.giveUp("no %s", name)
	}
	return x.T.Const(k.Val(), k.Type())
}

func checkC44(c *C) {
	const rule = "select"
	p := c.newPromQL()
	for _, m := range []string{"InstantQuery", "RangeQuery"} {
		r := p.run(m)
		var q *Event
		for _, o := range r.outs {
			if made, _ := promEvents(o.evs); len(made) == 1 {
				q = made[0]
			}
		}
		if !c.ob(q != nil, rule, m, "%s makes no query", m) {
			continue
		}
		s := &selScn{promScn: p, c: c}
		st := p.newState()
		st.mem, st.facts = q.mem, q.facts
		st.mem.shared, st.fShare = true, true
		s.selRun = c.selectOn(p, q.args[1], st, nil, nil, rule)
		if s.selRun == nil {
			continue
		}
		c.noMay(p.X, s.selRun.outs, rule, "Select", hardMay...)
		s.check(q)
	}
	c.sanitizer()
}

func (s *selScn) nameOf(m *Mem, el *Term) *Term { return s.LoadField(m, el, derefType(el.typ), "Name") }

// mapReads: the loops of a path in which the data source is read.
func (s *selScn) reads(evs []*Event) []*Event {
	var r []*Event
	allEvents(evs, func(e *Event) {
		if methodIs(e, "Read") && isExtCall(e) && e.args[0] == s.reader {
			r = append(r, e)
		}
	})
	return r
}

func emptyMap(f *Facts, m *Term) int {
	r := 0
	f.each(func(t *Term, b bool) {
		switch t.op {
		case "eq":
			for i := 0; i < 2; i++ {
				k, ok := t.args[1-i].IntVal()
				if q := t.args[i]; ok && k == 0 && q.op == "len" && q.args[0] == m {
					r = map[bool]int{true: 1, false: -1}[b]
				}
			}
		}
	})
	if r == 0 {
		for _, t := range f.ids {
			if t.op == "len" && t.args[0] == m {
				if f.clone().entLE(f.T.Int(1), t, 0) {
					return -1
				}
				if f.clone().entLE(t, f.T.Int(0), 0) {
					return 1
				}
			}
		}
	}
	return r
}

func (s *selScn) check(q *Event) {
	const rule = "select"
	c, x := s.c, s.X
	// the map of source ids: the one whose entries are read
	for _, o := range s.selRun.outs {
		for _, l := range loopsIn(o.evs) {
			for _, it := range l.iters {
				if rs := s.reads(it.events); len(rs) > 0 {
					it.facts.each(func(t *Term, b bool) {
						if t.op == "rangeok" && b && s.ids == nil {
							s.ids = t.args[0]
						}
					})
				}
			}
		}
	}
	if !c.ob(s.ids != nil && s.ids.op == "makemap", rule, "source ids", "the data source is not read for each of a set of source ids") {
		return
	}
	n := map[string]int{}
	done := map[*LoopInfo]bool{}
	for _, o := range s.selRun.outs {
		path := func() string { return x.pathStr(o) }
		f := o.St.facts
		if !c.ob(!o.Panic && !o.Endless, rule, "answers", "Select may panic or never answer: %s", path()) {
			continue
		}
		// the matchers
		var sel *LoopInfo
		for _, l := range loopsIn(o.evs) {
			if cv, _ := x.covers(l, s.ll, s.selRun.exits); cv != nil && sel == nil {
				sel = l
			}
		}
		if !c.ob(sel != nil, rule, "matchers", "not every matcher is looked at: %s", path()) {
			continue
		}
		if !done[sel] {
			done[sel] = true
			s.selectors(sel, path)
		}
		if s.metric == nil || s.matchers == nil {
			return
		}
		var rl *LoopInfo
		for _, l := range loopsIn(o.evs) {
			for _, it := range l.iters {
				if len(s.reads(it.events)) > 0 {
					rl = l
				}
			}
		}
		failed := x.isNil(f, o.Vals[1]) == -1
		if !c.ob(failed || o.Vals[1].IsNil(), rule, "error", "it is open whether Select fails: %s", path()) {
			continue
		}
		none := emptyMap(f, s.ids)
		if failed {
			c.ob(o.Vals[0].IsNil(), rule, "error", "Select fails and answers %s: %s", o.Vals[0], path())
			readFailed := false
			for _, e := range s.reads(o.evs) {
				readFailed = readFailed || x.isNil(f, e.res[1]) == -1 && x.same(f, o.Vals[1], e.res[1])
			}
			if none == 1 {
				n["no source"]++
			} else if readFailed {
				n["read error"]++
			}
			c.ob(none == 1 || readFailed, rule, "error", "Select fails although there are source ids and no read failed: %s", path())
			told := false
			for a, v := range o.St.mem.m {
				told = told || v == o.Vals[1] && cellRoot(a).id < q.res[0].id
			}
			c.ob(told, rule, "reported", "the query is not told of the error %s, which the engine drops: %s", o.Vals[1], path())
			continue
		}
		n["answered"]++
		c.ob(none == -1, rule, "source ids", "a selector without source ids is answered: %s", path())
		if !c.ob(rl != nil, rule, "reads", "nothing is read: %s", path()) {
			continue
		}
		why := x.overMap(rl, s.ids, exitsAll([]*Outcome{o}))
		c.ob(why == "", rule, "reads", "not every source id is read: %s: %s", why, path())
		for _, it := range rl.iters {
			s.read(rl, it, n)
		}
		s.series(o, path)
	}
	for _, k := range []string{"no source", "read error", "answered", "read", "COUNTER", "GAUGE", "TIMER", "unmatched", "misnamed", "other kind"} {
		c.need(n[k], 1, rule, k)
	}
}

// selectors: one matcher.
func (s *selScn) selectors(l *LoopInfo, path func() string) {
	const rule = "matchers"
	c, x, T := s.c, s.X, s.T
	cv, _ := x.covers(l, s.ll, s.selRun.exits)
	eq, re := c.labelType(x, "MatchEqual"), c.labelType(x, "MatchRegexp")
	// where the name and the matchers are kept
	for _, it := range l.iters {
		el := x.elemAt(it.mem, s.ll, cv.idx)
		val := x.LoadField(it.mem, el, derefType(el.typ), "Value")
		for sym, v := range it.next {
			if v == val {
				s.metric = sym
			}
			if v.op == "append" && v.args[0] == sym && v.args[len(v.args)-1] == el {
				s.matchers = sym
			}
		}
	}
	if !c.ob(s.metric != nil && s.matchers != nil, rule, "name", "the metric's name or the other matchers are not kept: %s", path()) {
		return
	}
	if in := x.initOf(s.matchers); !c.ob(x.startsEmpty(in), rule, "start", "the matchers start as %s", in) {
		return
	}
	n := map[string]int{}
	for _, it := range l.iters {
		f := it.facts
		el := x.elemAt(it.mem, s.ll, cv.idx)
		name := s.nameOf(it.mem, el)
		val := x.LoadField(it.mem, el, derefType(el.typ), "Value")
		typ := x.LoadField(it.mem, el, derefType(el.typ), "Type")
		isName := f.Eval(T.Eq(name, T.Str("__name__")))
		isID := f.Eval(T.Eq(name, T.Str("source_id")))
		isEq, isRe := f.Eval(T.Eq(typ, eq)), f.Eval(T.Eq(typ, re))
		if isName == 1 {
			isID = -1
		}
		if isID == 1 {
			isName = -1
		}
		if isEq == 1 {
			isRe = -1
		}
		if isRe == 1 {
			isEq = -1
		}
		// the metric's name
		c.ob(isName == 1 && it.next[s.metric] == val || isName == -1 && it.next[s.metric] == s.metric, rule, "name", "a matcher for %s makes the metric's name %s", name, it.next[s.metric])
		c.idMatcher(x, it, el, s.ids, s.selRun.exits, rule, n)
		// the others
		kept := it.next[s.matchers]
		is := kept.op == "append" && len(kept.args) == 2 && kept.args[0] == s.matchers && kept.args[1] == el
		not := kept == s.matchers
		switch {
		case isName == 1:
			c.ob(not, rule, "kept", "the matcher of the metric's name is kept as %s", kept)
		case isName == -1 && isID == 1 && (isEq == 1 || isRe == 1):
			c.ob(is || not, rule, "kept", "a matcher leads to %s", kept)
		default:
			c.ob(is, rule, "kept", "a matcher is not kept to be applied (%s): %s", kept, f)
		}
	}
	for _, k := range []string{"equal", "regexp", "other"} {
		c.need(n[k], 1, rule, k)
	}
}

// idMatcher: a matcher adds to the source ids exactly those that are read for
// it.
func (c *C) idMatcher(x *X, it *IterPath, el, ids *Term, exits []*Event, rule string, n map[string]int) {
	T := x.T
	f := it.facts
	ld := func(n string) *Term { return x.LoadField(it.mem, el, derefType(el.typ), n) }
	val, typ := ld("Value"), ld("Type")
	isID := f.Eval(T.Eq(ld("Name"), T.Str("source_id")))
	isEq, isRe := f.Eval(T.Eq(typ, c.labelType(x, "MatchEqual"))), f.Eval(T.Eq(typ, c.labelType(x, "MatchRegexp")))
	if f.Eval(T.Eq(ld("Name"), T.Str("__name__"))) == 1 {
		isID = -1
	}
	if isEq == 1 {
		isRe = -1
	}
	if isRe == 1 {
		isEq = -1
	}
	// the source ids
	var ups []*Event
	parts := ""
	for _, e := range it.events {
		switch e.kind {
		case EvMapUpdate:
			if e.args[0] == ids {
				ups = append(ups, e)
			}
		case EvLoop:
			hit := false
			allEvents([]*Event{e}, func(d *Event) { hit = hit || d.kind == EvMapUpdate && d.args[0] == ids })
			if !hit {
				continue
			}
			sp := x.T.mk("pure", "strings.Split", types.NewSlice(types.Typ[types.String]), val, T.Str("|"))
			parts = "every part"
			pc, why := x.covers(e.loop, sp, exits)
			if pc == nil {
				parts = "not every part: " + why
				continue
			}
			for _, pit := range e.loop.iters {
				k := 0
				for _, d := range pit.events {
					if d.kind == EvMapUpdate && d.args[0] == ids {
						k++
						if d.name == "delete" || d.args[1] != x.elemAt(d.mem, sp, pc.idx) {
							parts = "the id " + d.args[1].String()
						}
					}
				}
				if k != 1 {
					parts = "some parts"
				}
			}
		}
	}
	switch {
	case isID == 1 && isEq == 1:
		n["equal"]++
		c.ob(len(ups) == 1 && parts == "" && ups[0].name != "delete" && x.same(f, ups[0].args[1], val), rule, "equal", "a source_id that is to be equal does not add just its value to the source ids: %s", f)
	case isID == 1 && isRe == 1:
		n["regexp"]++
		c.ob(len(ups) == 0 && parts == "every part", rule, "regexp", "a source_id that is to match adds %s to the source ids, want every part: %s", parts, f)
	case isID == -1 || isEq == -1 && isRe == -1:
		n["other"]++
		c.ob(len(ups) == 0 && parts == "", rule, "other", "a matcher for something else adds a source id: %s", f)
	default:
		c.ob(false, rule, "source ids", "it is open whether a matcher adds a source id: %s", f)
	}
}

// read: what is read for one source id, and what becomes of it.
func (s *selScn) read(rl *LoopInfo, it *IterPath, n map[string]int) {
	const rule = "read"
	c, x, T := s.c, s.X, s.T
	where := func() string { return it.facts.String() }
	rs := s.reads(it.events)
	if !c.ob(len(rs) == 1, rule, "reads", "a source id is read %d times: %s", len(rs), where()) {
		return
	}
	n["read"]++
	e := rs[0]
	c.ob(ctxFrom(e.args[1], s.selRun.ctx), rule, "context", "the data source is read under %s, not the query's context", e.args[1])
	if t := e.args[1]; t.op == "ret" && len(t.ev.res) == 2 {
		freed := false
		allEvents(it.events, func(d *Event) {
			freed = freed || d.kind == EvCall && d.name == "dynamic" && len(d.args) > 0 && d.args[0] == t.ev.res[1] || d.kind == EvDefer && d.fnv == t.ev.res[1]
		})
		c.ob(freed, rule, "context", "the context made for a read is never cancelled")
	}
	req := e.args[2]
	if !c.ob(isFreshObj(req) && madeIn2(rl, req), rule, "request", "the request %s may be shared", req) {
		return
	}
	rT := derefType(req.typ)
	fld := func(name string) *Term { return x.LoadField(e.mem, req, rT, name) }
	c.ob(isKeyOf(fld("SourceId"), s.ids), rule, "source id", "source id %s is read", fld("SourceId"))
	ms := func(t, want *Term) (int64, bool) {
		b, k := T.linear(t)
		if b == nil || b.op != "*" || len(b.args) != 2 {
			return 0, false
		}
		for i := 0; i < 2; i++ {
			if v, ok := b.args[i].IntVal(); ok && v == 1000000 && stripConv(b.args[1-i]) == want {
				return k, true
			}
		}
		return 0, false
	}
	k, ok := ms(fld("StartTime"), s.mint)
	c.ob(ok && k <= 0, rule, "start", "the source is read from %s, after the start of the query", fld("StartTime"))
	k, ok = ms(fld("EndTime"), s.maxt)
	c.ob(ok && k >= 0, rule, "end", "the source is read until %s, before the end of the query", fld("EndTime"))
	if ts := fld("EnvelopeTypes"); !ts.IsNil() {
		es, ok := x.elems(e.mem, ts)
		got := map[string]bool{}
		v := &visit{s: &storeScn{x: x, T: T}}
		for _, t := range es {
			for _, name := range envKinds {
				if t == v.kindConst(name) {
					got[name] = true
				}
			}
			if t == v.kindConst("ANY") {
				got["COUNTER"], got["GAUGE"], got["TIMER"] = true, true, true
			}
		}
		c.ob(ok && got["COUNTER"] && got["GAUGE"] && got["TIMER"], rule, "types", "only the envelopes of types %v are read", es)
	}
	z, isK := fld("Limit").IntVal()
	c.ob(isK && z == 0, rule, "limit", "at most %s envelopes are read", fld("Limit"))
	str, isS := fld("NameFilter").StrVal()
	c.ob(isS && str == "", rule, "filter", "only envelopes named %s are read", fld("NameFilter"))
	b, isB := fld("Descending").BoolVal()
	c.ob(isB && !b, rule, "order", "envelopes are read newest first, but points have to be in order")
	if !c.ob(x.isNil(it.facts, e.res[1]) == 1, rule, "failed", "a source id whose read failed is passed over: %s", where()) {
		return
	}
	// every envelope
	resp := e.res[0]
	env := x.LoadField(e.mem, resp, derefType(resp.typ), "Envelopes")
	batch := x.LoadField(e.mem, env, derefType(env.typ), "Batch")
	var bl *LoopInfo
	why := "no loop"
	for _, l := range loopsIn(it.events) {
		if cv, w := x.covers(l, batch, s.selRun.exits); cv != nil {
			bl = l
		} else if bl == nil {
			why = w
		}
	}
	if bl == nil {
		f := it.facts
		c.ob(x.isNil(f, resp) == 1 || x.isNil(f, env) == 1 || f.Eval(T.Eq(T.Len(batch), T.Int(0))) == 1, rule, "envelopes", "not every envelope read is looked at: %s: %s", why, where())
		return
	}
	cv, _ := x.covers(bl, batch, s.selRun.exits)
	for _, eit := range bl.iters {
		s.envelope(rl, bl, eit, x.elemAt(eit.mem, batch, cv.idx), n)
	}
}

// madeIn2: t is made by each iteration of a loop that may have no phis.
func madeIn2(l *LoopInfo, t *Term) bool {
	for _, p := range l.phis {
		if stripIface(t).id < p.sym.id {
			return false
		}
	}
	return true
}

// payload: p is what an envelope of that kind carries.
func (s *selScn) payload(p, e *Term, kind string) bool {
	camel := kind[:1] + strings.ToLower(kind[1:])
	if p.op == "oneof" && p.sym == camel && p.args[0] == e {
		return true
	}
	msg := s.LoadField(newMem(), e, derefType(e.typ), "Message")
	return p.op == "init" && p.args[0].op == "fieldaddr" && fieldName(p.args[0]) == camel && p.args[0].args[0].op == "assert" && p.args[0].args[0].args[0] == msg
}

func (s *selScn) payloadField(t, e *Term, kind, field string) bool {
	return t.op == "init" && t.args[0].op == "fieldaddr" && fieldName(t.args[0]) == field && s.payload(t.args[0].args[0], e, kind)
}

// named: does the path establish that the payload's name is the metric's?
func (s *selScn) named(f *Facts, e *Term, kind string) int {
	r := 0
	f.each(func(t *Term, b bool) {
		if t.op != "eq" || t.args[0] != s.metric && t.args[1] != s.metric {
			return
		}
		q := t.args[0]
		if q == s.metric {
			q = t.args[1]
		}
		if nm := s.sanitized(q); nm != nil && s.payloadField(nm, e, kind, "Name") {
			r = map[bool]int{true: 1, false: -1}[b]
		}
	})
	return r
}

// sanitized: the name that t is the sanitized form of.
func (s *selScn) sanitized(t *Term) *Term {
	if t.op != "pure" || !strings.HasSuffix(t.sym, "Regexp).ReplaceAllString") {
		return nil
	}
	return t.args[1]
}

// envelope: what becomes of one envelope.
func (s *selScn) envelope(rl, bl *LoopInfo, it *IterPath, e *Term, n map[string]int) {
	const rule = "envelope"
	c, x, T := s.c, s.X, s.T
	f := it.facts
	where := func() string { return f.String() }
	fld := func(name string) *Term { return x.LoadField(bl.pre, e, derefType(e.typ), name) }
	// what the tags are
	var tags *Term
	var ups []*Event // updates of the series
	for _, d := range it.events {
		if d.kind == EvMapUpdate && d.args[1] == T.Str("source_id") {
			tags = d.args[0]
		}
	}
	updates := false // an envelope that is passed over needs no labels
	allEvents(it.events, func(d *Event) { updates = updates || d.kind == EvMapUpdate })
	if (tags != nil || updates) && !c.ob(tags != nil && tags.op == "makemap" && madeIn(bl, tags), rule, "tags", "the labels of an envelope are no map made for it with its source_id: %s", where()) {
		return
	}
	copied, id, inst := false, false, false
	allMatch, matchedOut := false, false
	for _, d := range it.events {
		switch d.kind {
		case EvMapUpdate:
			switch {
			case d.args[0] != tags:
				ups = append(ups, d)
			case d.name != "delete" && d.args[1] == T.Str("source_id"):
				id = true
				c.ob(copied && x.same(d.facts, d.val, fld("SourceId")), rule, "source_id", "the source_id label is %s, or a tag may override it: %s", d.val, where())
			case d.name != "delete" && d.args[1] == T.Str("instance_id"):
				inst = true
				c.ob(copied && x.same(d.facts, d.val, fld("InstanceId")), rule, "instance_id", "the instance_id label is %s, or a tag may override it: %s", d.val, where())
			default:
				c.ob(false, rule, "tags", "a label %s is set at %s", d.args[1], x.where(d))
			}
		case EvLoop:
			writes := false
			allEvents([]*Event{d}, func(y *Event) { writes = writes || y.kind == EvMapUpdate && y.args[0] == tags })
			if writes {
				src := fld("Tags")
				why := x.overMap(d.loop, src, s.selRun.exits)
				for _, ti := range d.loop.iters {
					k := 0
					for _, y := range ti.events {
						if y.kind == EvMapUpdate && y.args[0] == tags {
							k++
							if y.name == "delete" || !isKeyOf(y.args[1], src) || !isValOf(y.val, src) {
								why = "a label is set at " + x.where(y)
							}
						}
					}
					if k != 1 {
						why = "a tag is left out"
					}
				}
				copied = why == ""
				c.ob(copied && !id && !inst, rule, "tags", "the labels are not the envelope's tags with its ids on top: %s", why)
				continue
			}
			// the matchers
			cv, _ := s.coversMatch(d.loop)
			if cv == nil {
				continue
			}
			good := len(d.loop.iters) > 0 || true
			matches := func(g *Facts, m *Mem) int {
				el := x.elemAt(m, s.matchers, cv.idx)
				r := 0
				g.each(func(t *Term, b bool) {
					if t.op == "pure" && strings.HasSuffix(t.sym, "labels.Matcher).Matches") && t.args[0] == el {
						a := t.args[1]
						if a.op == "lookup" && a.args[0] == tags && a.args[1] == s.nameOf(m, el) {
							r = map[bool]int{true: 1, false: -1}[b]
						}
					}
				})
				return r
			}
			for _, mi := range d.loop.iters {
				good = good && matches(mi.facts, mi.mem) == 1
			}
			c.ob(id && copied, rule, "matched", "the matchers are applied before the labels are complete: %s", where())
			switch {
			case f.clone().entLE(T.Len(s.matchers), cv.idx, 0):
				allMatch = good
			case matches(f, it.mem) == -1:
				matchedOut = true
			}
		}
	}
	_ = inst
	empty := f.Eval(T.Eq(fld("InstanceId"), T.Str("")))
	if empty == 0 {
		empty = f.Eval(T.Eq(T.Len(fld("InstanceId")), T.Int(0)))
	}
	c.ob(tags == nil || inst == (empty == -1), rule, "instance_id", "the instance_id label is set (%v) for an instance id that is empty (%d): %s", inst, empty, where())
	if f.Eval(T.Eq(T.Len(s.matchers), T.Int(0))) == 1 {
		allMatch = true
	}
	v := &visit{s: &storeScn{x: x, T: T, env: derefType(e.typ)}, e: e}
	kind := ""
	others := true
	for _, k := range []string{"COUNTER", "GAUGE", "TIMER"} {
		switch v.isKind(f, k) {
		case 1:
			kind = k
			others = false
		case 0:
			if kind == "" {
				others = false
			}
		}
	}
	if kind != "" {
		others = false
	}
	misnamed := kind != "" && kind != "GAUGE" && s.named(f, e, kind) == -1
	var gv *Term
	if kind == "GAUGE" {
		gv, misnamed = s.gauge(it, e)
	}
	if len(ups) == 0 {
		switch {
		case matchedOut:
			n["unmatched"]++
		case others:
			n["other kind"]++
		case misnamed:
			n["misnamed"]++
		}
		c.ob(matchedOut || others || misnamed, rule, "dropped", "an envelope may be passed over although it has the metric and satisfies the matchers: %s", where())
		return
	}
	n[kind]++
	c.ob(allMatch, rule, "matched", "a point may be returned that does not satisfy every matcher: %s", where())
	if !c.ob(kind != "", rule, "kind", "an envelope without a value makes a point: %s", where()) {
		return
	}
	named := kind == "GAUGE" && gv != nil || kind != "GAUGE" && s.named(f, e, kind) == 1
	c.ob(named, rule, "name", "a point of another metric may be returned: %s", where())
	s.point(bl, it, e, kind, gv, tags, ups)
}

// coversMatch: the loop that applies the matchers; leaving it early is judged
// by its caller.
func (s *selScn) coversMatch(l *LoopInfo) (*cover, string) {
	for _, p := range s.locals(l) {
		if !isIntType(p.sym.typ) || p.init == nil {
			continue
		}
		k0, ok := p.init.IntVal()
		if !ok || k0 != 0 && k0 != -1 {
			continue
		}
		idx := s.T.plus(p.sym, -k0, p.sym.typ)
		el := s.elemAt(l.pre, s.matchers, idx)
		hit := false
		allEvents([]*Event{{kind: EvLoop, loop: l}}, func(e *Event) {
			hit = hit || methodIs(e, "Matches") && e.args[0] == el || isExtCall(e) && strings.HasSuffix(e.name, "labels.Matcher).Matches") && e.args[0] == el
		})
		good := len(l.iters) > 0
		for _, it := range l.iters {
			good = good && it.next[p.sym] == s.T.plus(p.sym, 1, p.sym.typ)
		}
		if hit && good {
			return &cover{l, idx}, ""
		}
	}
	return nil, ""
}

// gauge: the value of the metric among those of a gauge, or that it has none.
func (s *selScn) gauge(it *IterPath, e *Term) (*Term, bool) {
	x, T := s.X, s.T
	isMetrics := func(m *Term) bool { return s.payloadField(m, e, "GAUGE", "Metrics") }
	named := func(f *Facts, m *Term) (*Term, int) {
		var key *Term
		r := 0
		f.each(func(t *Term, b bool) {
			if t.op != "eq" || t.args[0] != s.metric && t.args[1] != s.metric {
				return
			}
			q := t.args[0]
			if q == s.metric {
				q = t.args[1]
			}
			if nm := s.sanitized(q); nm != nil && isKeyOf(nm, m) {
				key = nm
				if b {
					r = 1
				} else {
					r = -1
				}
			}
		})
		return key, r
	}
	for _, l := range loopsIn(it.events) {
		var m *Term
		for _, f := range append(iterFacts(l), it.facts) {
			f.each(func(t *Term, b bool) {
				if t.op == "rangeok" && isMetrics(t.args[0]) {
					m = t.args[0]
				}
			})
		}
		if m == nil {
			continue
		}
		all := len(l.iters) > 0
		for _, gi := range l.iters {
			key, r := named(gi.facts, m)
			void := false // a metric without a value
			gi.facts.each(func(t *Term, b bool) {
				if t.op == "eq" && b && (t.args[0].IsNil() || t.args[1].IsNil()) {
					q := t.args[0]
					if q.IsNil() {
						q = t.args[1]
					}
					void = void || isValOf(q, m) || q.op == "lookup" && q.args[0] == m && q.args[1] == key
				}
			})
			if r != -1 && !void {
				all = false
			}
		}
		over := false
		it.facts.each(func(t *Term, b bool) { over = over || t.op == "rangeok" && t.args[0] == m && !b })
		if over && all {
			return nil, true
		}
		if key, r := named(it.facts, m); r == 1 && !over {
			var val *Term
			it.facts.each(func(t *Term, b bool) {
				walkTerm(t, func(q *Term) {
					if q.op == "rangeval" && q.args[0] == m && q.args[1] == key || q.op == "lookup" && q.args[0] == m && q.args[1] == key {
						val = q
					}
				})
			})
			if val != nil && x.isNil(it.facts, val) == 1 {
				return nil, true // a metric without a value
			}
			for _, d := range it.events {
				if d.val != nil {
					walkTerm(d.val, func(q *Term) {
						if q.op == "rangeval" && q.args[0] == m && q.args[1] == key || q.op == "lookup" && q.args[0] == m && q.args[1] == key {
							val = q
						}
					})
				}
			}
			return val, false
		}
	}
	// no metrics at all
	one := false
	it.facts.each(func(t *Term, b bool) {
		if t.op == "eq" && b && (t.args[0].IsNil() || t.args[1].IsNil()) {
			q := t.args[0]
			if q.IsNil() {
				q = t.args[1]
			}
			one = one || s.payload(q, e, "GAUGE") || isMetrics(q)
		}
	})
	_ = T
	return nil, one
}

func iterFacts(l *LoopInfo) []*Facts {
	var r []*Facts
	for _, it := range l.iters {
		r = append(r, it.facts)
	}
	return r
}

// byType: the fields of struct type t of the given type.
func byType(t types.Type, ok func(types.Type) bool) []int {
	var r []int
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			r = append(r, i)
		}
	}
	return r
}

func isStrMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key()) && isStringType(m.Elem())
}

func isSliceType(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// point: one point is added to the series of its labels.
func (s *selScn) point(bl *LoopInfo, it *IterPath, e *Term, kind string, gv, tags *Term, ups []*Event) {
	const rule = "point"
	c, x := s.c, s.X
	f := it.facts
	where := func() string { return f.String() }
	last := ups[len(ups)-1]
	D, id, v := last.args[0], last.args[1], last.val
	ok := D.op == "makemap" && !madeIn(bl, D) && (s.data == nil || s.data == D)
	for _, u := range ups {
		ok = ok && u.args[0] == D && u.args[1] == id && u.name != "delete"
	}
	if !c.ob(ok, rule, "series", "a point is added to more than one series, or to one that is not kept: %s", where()) {
		return
	}
	s.data = D
	s.valT = v.typ
	ms, ps := byType(v.typ, isStrMap), byType(v.typ, isSliceType)
	if !c.ob(len(ms) == 1 && len(ps) == 1, rule, "series", "a series is kept as %s", shortT(v.typ)) {
		return
	}
	old := func(t *Term) bool { return t.op == "lookup" && t.args[0] == D && t.args[1] == id }
	labels, pts := x.valField(v, ms[0]), x.valField(v, ps[0])
	if !c.ob(pts.op == "append" && len(pts.args) == 2, rule, "one point", "the points of a series become %s, want one more: %s", pts, where()) {
		return
	}
	known := 0
	f.each(func(t *Term, b bool) {
		if t.op == "has" && t.args[0] == D && t.args[1] == id {
			known = map[bool]int{true: 1, false: -1}[b]
		}
	})
	base := pts.args[0]
	isOld := func(t *Term, i int) bool {
		return t.op == "field" && old(t.args[0]) && t == x.valField(t.args[0], i)
	}
	// equal keys are equal labels
	switch {
	case isOld(base, ps[0]):
		c.ob(labels == tags || isOld(labels, ms[0]) && (known == 1 || x.isNil(f, labels) == -1), rule, "labels", "a series' labels become %s: %s", labels, where())
	case x.startsEmpty(base):
		c.ob(known == -1 && labels == tags, rule, "labels", "the points of a series are thrown away, or its labels are %s: %s", labels, where())
	default:
		c.ob(false, rule, "one point", "a series' points start as %s: %s", base, where())
	}
	// the point
	pt := pts.args[1]
	ti, vi := byType(pt.typ, isInt64), byType(pt.typ, isFloat64)
	if c.ob(len(ti) == 1 && len(vi) == 1, rule, "point", "a point is %s", pt) {
		t, val := x.valField(pt, ti[0]), x.valField(pt, vi[0])
		for ; val.op == "conv" && types.Identical(val.typ.Underlying(), types.Typ[types.Float64]); val = val.args[0] {
		}
		ts := x.LoadField(bl.pre, e, derefType(e.typ), "Timestamp")
		c.ob(isMillis(t, ts), rule, "time", "the point's time is %s, want the envelope's", t)
		ok := false
		switch kind {
		case "COUNTER":
			ok = s.payloadField(val, e, "COUNTER", "Total")
		case "GAUGE":
			ok = val.op == "init" && fieldName(val.args[0]) == "Value" && val.args[0].args[0] == gv
		case "TIMER":
			ok = (val.op == "diff" || val.op == "-") && len(val.args) == 2 && s.payloadField(val.args[0], e, "TIMER", "Stop") && s.payloadField(val.args[1], e, "TIMER", "Start")
		}
		c.ob(ok, rule, kind, "the value of a %s is %s", kind, val)
	}
	s.seriesID(it, id, tags)
}

// isMillis: t is ts in milliseconds, whole seconds.
func isMillis(t, ts *Term) bool {
	if t.op == "/" {
		if k, ok := t.args[1].IntVal(); !ok || k != 1000000 || t.args[0].op != "pure" || !strings.HasSuffix(t.args[0].sym, "UnixNano") {
			return false
		}
		t = t.args[0].args[0]
	} else if t.op == "pure" && strings.HasSuffix(t.sym, "UnixMilli") {
		t = t.args[0]
	} else {
		return false
	}
	if t.op != "pure" || t.sym != "(time.Time).Truncate" {
		return false
	}
	if k, ok := t.args[1].IntVal(); !ok || k != 1e9 {
		return false
	}
	t = t.args[0]
	if t.op != "pure" || t.sym != "time.Unix" {
		return false
	}
	z, ok := t.args[0].IntVal()
	return ok && z == 0 && t.args[1] == ts
}

// seriesID: different labels give different keys.
func (s *selScn) seriesID(it *IterPath, id, tags *Term) {
	const rule = "series key"
	c, x := s.c, s.X
	if !c.ob(id.loop != nil, rule, "built", "a series is kept under %s", id) {
		return
	}
	in := x.initOf(id)
	str, isS := in.StrVal()
	c.ob(isS && str == "", rule, "built", "the key starts as %s", in)
	// the sorted names
	var keys *Term
	var srt *Event
	for _, e := range it.events {
		if isExtCall(e) && (e.name == "sort.Strings" || strings.HasPrefix(e.name, "slices.Sort")) {
			srt, keys = e, stripIface(e.args[0])
		}
	}
	if !c.ob(srt != nil && keys.loop != nil, rule, "sorted", "the label names are not sorted: the same labels give different keys") {
		return
	}
	order := true
	for _, e := range it.events {
		if e == srt {
			order = false
		}
		if e.kind == EvLoop && e.loop == id.loop {
			order = !order
		}
	}
	why := x.overMap(keys.loop, tags, s.selRun.exits)
	for _, ki := range keys.loop.iters {
		k := ki.next[keys]
		if k.op != "append" || k.args[0] != keys || len(k.args) != 2 || !isKeyOf(k.args[1], tags) {
			why = "a name becomes " + k.String()
		}
	}
	c.ob(order && why == "" && x.startsEmpty(x.initOf(keys)), rule, "names", "the key is not made of every label name: %s", why)
	cv, why := x.covers(id.loop, keys, s.selRun.exits)
	if !c.ob(cv != nil, rule, "names", "the key leaves out a label: %s", why) {
		return
	}
	for _, ki := range id.loop.iters {
		el := x.elemAt(ki.mem, keys, cv.idx)
		v := ki.next[id]
		q := func(t *Term, what func(*Term) bool) bool {
			return t.op == "pure" && t.sym == "strconv.Quote" && what(t.args[0])
		}
		ok := v.op == "concat" && len(v.args) >= 3 && v.args[0] == id
		var parts []*Term
		if ok {
			for _, a := range v.args[1:] {
				if _, isC := a.StrVal(); !isC {
					parts = append(parts, a)
				}
			}
		}
		ok = ok && len(parts) == 2 && q(parts[0], func(t *Term) bool { return t == el }) && q(parts[1], func(t *Term) bool {
			return t.op == "lookup" && t.args[0] == tags && t.args[1] == el
		})
		c.ob(ok, rule, "unambiguous", "the key grows by %s, want the quoted name and value: different labels may give one key", v)
	}
}

// series: every series is answered, with its labels and points.
func (s *selScn) series(o *Outcome, path func() string) {
	const rule = "series"
	c, x := s.c, s.X
	if s.data == nil {
		return
	}
	set := stripIface(o.Vals[0])
	if !c.ob(isFreshObj(set) && set.typ != nil && isPtr(set.typ), rule, "set", "the answer is %s: %s", set, path()) {
		return
	}
	sT := derefType(set.typ)
	sf := byType(sT, isSliceType)
	if !c.ob(len(sf) == 1, rule, "set", "the answer is a %s", shortT(sT)) {
		return
	}
	fa := x.T.FieldAddr(set, sT, sf[0])
	list := x.loadMem(o.St.mem, fa, derefType(fa.typ))
	if !c.ob(list.loop != nil && x.overMap(list.loop, s.data, s.selRun.exits) == "" && x.startsEmpty(x.initOf(list)), rule, "every series", "not every series is answered (%s): %s", list, path()) {
		return
	}
	ms, ps := byType(s.valT, isStrMap), byType(s.valT, isSliceType)
	var serT types.Type
	for _, it := range list.loop.iters {
		v := it.next[list]
		if !c.ob(v.op == "append" && len(v.args) == 2 && v.args[0] == list, rule, "every series", "a series makes the list %s", v) {
			continue
		}
		ser := stripIface(v.args[1])
		if !c.ob(isFreshObj(ser) && isPtr(ser.typ) && ser.id > list.id, rule, "series", "a series is answered as %s", ser) {
			continue
		}
		serT = derefType(ser.typ)
		var lab, pts *Term
		for i := 0; i < structOf(serT).NumFields(); i++ {
			a := x.T.FieldAddr(ser, serT, i)
			v := x.loadMem(it.mem, a, derefType(a.typ))
			switch {
			case isNamedT(promLbls, "Label")(elemOr(derefType(a.typ))):
				lab = v
			case isSliceType(derefType(a.typ)):
				pts = v
			}
		}
		ent := func(t *Term, i int) bool {
			return t != nil && t.op == "field" && isValOf(t.args[0], s.data) && t == x.valField(t.args[0], i)
		}
		c.ob(ent(pts, ps[0]), rule, "points", "a series is answered with the points %s", pts)
		if !c.ob(lab != nil && lab.loop != nil && x.startsEmpty(x.initOf(lab)), rule, "labels", "a series is answered with the labels %s", lab) {
			continue
		}
		var tags *Term
		for _, li := range lab.loop.iters {
			li.facts.each(func(t *Term, b bool) {
				if t.op == "rangeok" && b && ent(t.args[0], ms[0]) {
					tags = t.args[0]
				}
			})
		}
		if !c.ob(tags != nil && x.overMap(lab.loop, tags, s.selRun.exits) == "", rule, "labels", "a series is not answered with every label it was kept under") {
			continue
		}
		for _, li := range lab.loop.iters {
			v := li.next[lab]
			ok := v.op == "append" && len(v.args) == 2 && v.args[0] == lab
			if ok {
				l := v.args[1]
				ok = isKeyOf(x.structVal(l, "Name"), tags) && isValOf(x.structVal(l, "Value"), tags)
			}
			c.ob(ok, rule, "labels", "a label becomes %s", v)
		}
	}
	if serT != nil {
		s.setMethods(set, list, o)
		s.seriesMethods(serT)
	}
}

func elemOr(t types.Type) types.Type {
	if e := elemTypeOf(t); e != nil {
		return e
	}
	return types.Typ[types.Invalid]
}

// cursor: Next steps through sl from its first element, and at is the element
// it stands on. start is the position it is made with.
func (s *selScn) cursor(rule string, obj *Term, T types.Type, sl func(st *State) *Term, start *Term, read func(o *Outcome, el *Term) string) {
	c, x := s.c, s.X
	ci := byType(T, isIntType)
	if !c.ob(len(ci) == 1, rule, "position", "%s has %d positions", shortT(T), len(ci)) {
		return
	}
	c0, ok := start.IntVal()
	if !c.ob(ok, rule, "position", "%s starts at %s", shortT(T), start) {
		return
	}
	// Next
	st := x.newState()
	st.wfacts().Assume(x.T.Eq(obj, x.T.Nil()), false)
	ca := x.T.FieldAddr(obj, T, ci[0])
	cur := x.loadMem(st.mem, ca, derefType(ca.typ))
	list := sl(st)
	pos := x.T.plus(cur, -c0, cur.typ) // the element Next moves to
	for _, o := range c.rets(x, x.CallMethod(obj, "Next", nil, st.clone()), rule, "Next") {
		now := x.loadMem(o.St.mem, ca, derefType(ca.typ))
		c.ob(now == x.T.plus(cur, 1, cur.typ), rule, "Next", "Next moves from %s to %s", cur, now)
		want := x.T.Lt(pos, x.T.Len(list))
		f := o.St.facts
		c.ob(x.agrees(f, o.Vals[0], want), rule, "Next", "Next says %s, want whether there is another element", o.Vals[0])
	}
	// At
	for _, o := range x.CallMethod(obj, "At", nil, st.clone()) {
		if o.Panic {
			continue
		}
		el := x.T.IndexAddr(list, x.T.plus(cur, -c0-1, cur.typ), elemTypeOf(list.typ))
		why := read(o, el)
		c.ob(why == "", rule, "At", "At answers another element than Next moved to: %s", why)
	}
	for _, o := range c.rets(x, x.CallMethod(obj, "Err", nil, st.clone()), rule, "Err") {
		c.ob(o.Vals[0].IsNil(), rule, "Err", "Err is %s", o.Vals[0])
	}
}

// agrees: v is want under f.
func (x *X) agrees(f *Facts, v, want *Term) bool {
	if v == want {
		return true
	}
	both := true
	for _, side := range []bool{true, false} {
		g := f.clone()
		if f.Eval(v) == 0 {
			g.Assume(v, side)
		}
		both = both && (g.Eval(v) != 0 && g.Eval(v) == g.Eval(want))
	}
	if both {
		return true
	}
	a, b := f.Eval(v), f.Eval(want)
	if bv, ok := v.BoolVal(); ok {
		a = map[bool]int{true: 1, false: -1}[bv]
	}
	return a != 0 && a == b
}

func (s *selScn) setMethods(set, list *Term, o *Outcome) {
	x := s.X
	T := derefType(set.typ)
	ci := byType(T, isIntType)
	if len(ci) == 0 {
		s.c.ob(false, "series set", "position", "%s has no position", shortT(T))
		return
	}
	ca := x.T.FieldAddr(set, T, ci[0])
	start := x.loadMem(o.St.mem, ca, derefType(ca.typ))
	obj := x.symOf("set", set.typ)
	sf := byType(T, isSliceType)
	s.cursor("series set", obj, T, func(st *State) *Term {
		fa := x.T.FieldAddr(obj, T, sf[0])
		return x.loadMem(st.mem, fa, derefType(fa.typ))
	}, start, func(o *Outcome, el *Term) string {
		if o.Vals[0] != x.loadMem(o.St.mem, el, derefType(el.typ)) {
			return o.Vals[0].String()
		}
		return ""
	})
}

// seriesMethods: the labels in order, and iterators of their own.
func (s *selScn) seriesMethods(T types.Type) {
	const rule = "iterator"
	c, x := s.c, s.X
	ser := x.symOf("series", types.NewPointer(T))
	st := x.newState()
	st.wfacts().Assume(x.T.Eq(ser, x.T.Nil()), false)
	var lab, pts *Term
	for i := 0; i < structOf(T).NumFields(); i++ {
		a := x.T.FieldAddr(ser, T, i)
		v := x.loadMem(st.mem, a, derefType(a.typ))
		if isNamedT(promLbls, "Label")(elemOr(derefType(a.typ))) {
			lab = v
		} else if isSliceType(derefType(a.typ)) {
			pts = v
		}
	}
	for _, o := range c.rets(x, x.CallMethod(ser, "Labels", nil, st.clone()), rule, "Labels") {
		v := o.Vals[0]
		ok := v.op == "ret" && v.ev.name == promLbls+".New"
		if ok {
			a := v.ev.args[len(v.ev.args)-1]
			es, isE := x.elems(v.ev.mem, a)
			ok = a == lab || isE && len(es) == 1 && es[0].op == "spread" && es[0].args[0] == lab
		}
		c.ob(ok, rule, "labels", "a series' labels are %s, want them sorted", v)
	}
	for _, o := range c.rets(x, x.CallMethod(ser, "Iterator", nil, st.clone()), rule, "Iterator") {
		it := stripIface(o.Vals[0])
		if !c.ob(isFreshObj(it) && isPtr(it.typ), rule, "own iterator", "a series' iterator is %s, want a new one", it) {
			continue
		}
		iT := derefType(it.typ)
		ci := byType(iT, isIntType)
		if !c.ob(len(ci) == 1, rule, "position", "%s has %d positions", shortT(iT), len(ci)) {
			continue
		}
		ca := x.T.FieldAddr(it, iT, ci[0])
		start := x.loadMem(o.St.mem, ca, derefType(ca.typ))
		// where the iterator finds the points
		find := func(base *Term, m *Mem) (*Term, string) {
			for i := 0; i < structOf(iT).NumFields(); i++ {
				a := x.T.FieldAddr(base, iT, i)
				ft := derefType(a.typ)
				v := x.loadMem(m, a, ft)
				if isSliceType(ft) {
					return v, "slice"
				}
				if isPtr(ft) && types.Identical(derefType(ft), T) {
					for j := 0; j < structOf(T).NumFields(); j++ {
						b := x.T.FieldAddr(v, T, j)
						if isSliceType(derefType(b.typ)) && !isNamedT(promLbls, "Label")(elemOr(derefType(b.typ))) {
							return x.loadMem(m, b, derefType(b.typ)), "series"
						}
					}
				}
			}
			return nil, ""
		}
		got, _ := find(it, o.St.mem)
		c.ob(got == pts, rule, "points", "an iterator goes over %s, want the series' points", got)
		obj := x.symOf("iterator", it.typ)
		list := func(st *State) *Term {
			for i := 0; i < structOf(iT).NumFields(); i++ {
				a := x.T.FieldAddr(obj, iT, i)
				if ft := derefType(a.typ); isPtr(ft) {
					st.wfacts().Assume(x.T.Eq(x.loadMem(st.mem, a, ft), x.T.Nil()), false)
				}
			}
			l, _ := find(obj, st.mem)
			return l
		}
		pfld := func(st *Mem, el *Term, ok func(types.Type) bool) *Term {
			pT := derefType(el.typ)
			a := x.T.FieldAddr(el, pT, byType(pT, ok)[0])
			return x.loadMem(st, a, derefType(a.typ))
		}
		s.cursor(rule, obj, iT, list, start, func(o *Outcome, el *Term) string {
			if o.Vals[0] != pfld(o.St.mem, el, isInt64) || o.Vals[1] != pfld(o.St.mem, el, isFloat64) {
				return fmt.Sprint(o.Vals)
			}
			return ""
		})
		s.seek(obj, iT, ci[0], list, start, pfld)
	}
}

// seek: Seek moves to the first point at or after a time.
func (s *selScn) seek(obj *Term, iT types.Type, ci int, list func(*State) *Term, start *Term, pfld func(*Mem, *Term, func(types.Type) bool) *Term) {
	const rule = "Seek"
	c, x := s.c, s.X
	st := x.newState()
	st.wfacts().Assume(x.T.Eq(obj, x.T.Nil()), false)
	l := list(st)
	t := x.symOf("t", types.Typ[types.Int64])
	ca := x.T.FieldAddr(obj, iT, ci)
	c0, _ := start.IntVal()
	n := 0
	for _, o := range c.rets(x, x.CallMethod(obj, "Seek", []*Term{t}, st), rule, "Seek") {
		var sr *Event
		for _, e := range o.evs {
			if isExtCall(e) && e.name == "sort.Search" {
				sr = e
			}
		}
		if !c.ob(sr != nil && sr.args[0] == x.T.Len(l), rule, "search", "Seek does not search all points") {
			continue
		}
		n++
		now := x.loadMem(o.St.mem, ca, derefType(ca.typ))
		at := x.T.plus(sr.res[0], c0+1, now.typ)
		c.ob(now == at, rule, "position", "Seek moves to %s", now)
		c.ob(x.agrees(o.St.facts, o.Vals[0], x.T.Lt(sr.res[0], x.T.Len(l))), rule, "found", "Seek says %s, want whether there is a point", o.Vals[0])
		i := x.symOf("i", types.Typ[types.Int])
		q := x.newState()
		q.mem, q.facts = sr.mem, sr.facts
		q.mem.shared, q.fShare = true, true
		q.wfacts()
		for _, po := range x.CallTerm(sr.args[1], []*Term{i}, q) {
			if po.Panic {
				continue
			}
			pt := pfld(po.St.mem, x.T.IndexAddr(l, i, elemTypeOf(l.typ)), isInt64)
			c.ob(x.agrees(po.St.facts, po.Vals[0], x.T.Not(x.T.Lt(pt, t))), rule, "first", "Seek looks for the first point with %s, want one at or after the time", po.Vals[0])
		}
	}
	c.need(n, 1, rule, "searches")
}

// sanitizer: what a metric's name becomes.
func (c *C) sanitizer() {
	const rule = "name"
	x := c.newX()
	fn := x.Fn(promPkg, "", "SanitizeMetricName")
	ps := x.params(fn)
	for _, o := range c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, "SanitizeMetricName") {
		v := o.Vals[0]
		var pat string
		var ok bool
		if v.op == "pure" && strings.HasSuffix(v.sym, "Regexp).ReplaceAllString") && v.args[1] == ps[0] {
			re := v.args[0]
			if re.op == "pure" && re.sym == "regexp.MustCompile" {
				pat, ok = re.args[0].StrVal()
			}
		}
		repl, isS := "", false
		if ok {
			repl, isS = v.args[2].StrVal()
		}
		if !c.ob(ok && isS, rule, "pattern", "the sanitized name is %s, not a constant replacement in the name", v) {
			continue
		}
		re, err := regexp.Compile(pat)
		if !c.ob(err == nil, rule, "pattern", "%q is no regular expression", pat) {
			continue
		}
		// constant folding over every class of one and two characters
		var cs []string
		for r := rune(0); r < 0x180; r++ {
			cs = append(cs, string(r))
		}
		cs = append(cs, "é", "世", "\u2028", "\U0001F600")
		good := func(r byte, first bool) bool {
			return r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || !first && r >= '0' && r <= '9'
		}
		valid := func(n string) bool {
			for i := 0; i < len(n); i++ {
				if !good(n[i], i == 0) {
					return false
				}
			}
			return n != ""
		}
		bad := ""
		for _, a := range cs {
			for _, b := range append([]string{""}, cs...) {
				for _, d := range []string{"", "x", ".", "7"} {
					in := a + b + d
					got := re.ReplaceAllString(in, repl)
					if !valid(got) || valid(in) && got != in {
						bad = fmt.Sprintf("%q becomes %q", in, got)
					}
				}
			}
		}
		c.ob(bad == "", rule, "valid", "a metric's name is not made a valid one, or a valid one is changed: %s", bad)
	}
}
