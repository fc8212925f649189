package main

import (
	"go/constant"
	"go/types"
)

func init() {
	register("C20", "PromQL reads return the whole requested range or an error",
		"Path-partitioned dataflow over WalkingDataReader.Read: with Walk kept opaque, the walk's source, options, reader and visitor are compared with the request; with Walk inlined, every abstract path is checked to return data only when its last read and the caller's context reported no error.", checkC20)
}

func checkC20(c *C) {
	const rule = "data-reader"
	setup := func(x *X) (fn []*Outcome, ctx, in, rd *Term) {
		f := x.Fn("internal/promql/data_reader", "*WalkingDataReader", "Read")
		ctor := x.Fn("internal/promql/data_reader", "", "NewWalkingDataReader")
		cps := x.params(ctor)
		rd = cps[0]
		st := x.newState()
		o := x.single(x.Root(ctor, st, cps, nil), "NewWalkingDataReader")
		ps := x.params(f)
		ps[0] = o.Vals[0]
		s2 := o.St
		for _, p := range []*Term{ps[1], ps[2], rd} {
			s2.wfacts().Assume(x.T.Eq(p, x.T.Nil()), false)
		}
		read := func(st *State) []*Outcome { return x.Root(f, st, ps, nil) }
		outs := read(s2.clone())
		// after earlier reads
		// (an opaque Walk says nothing about the reader its callbacks hold)
		for _, st := range x.laterStatesBut(map[*Term]bool{ps[0]: true}, s2, read, x.earlierCall(f, ps[0])) {
			outs = append(outs, read(st)...)
		}
		c.onlyOwn(x, outs, "envelopes", "Read", nil)
		return c.rets(x, outs, rule, "Read"), ps[1], ps[2], rd
	}
	reqT := types.Type(nil)
	// the walk that is requested
	{
		x := c.newX()
		reqT = x.NamedType(lcv1, "ReadRequest")
		x.opaque[modPath+"/pkg/client.Walk"] = true
		outs, ctx, in, rd := setup(x)
		n := 0
		for _, r := range outs {
			var w *Event
			cnt := 0
			allEvents(r.evs, func(e *Event) {
				if e.kind == EvCall && e.name == modPath+"/pkg/client.Walk" {
					w, cnt = e, cnt+1
				}
			})
			if cnt != 1 {
				c.ob(false, rule, "Read walks", "Read calls Walk %d times: %s", cnt, x.pathStr(r))
				continue
			}
			n++
			fld := func(name string) *Term { return x.get(w.mem, in, "ReadRequest", name) }
			c.ob(w.args[0] == ctx && w.args[1] == fld("SourceId"), rule, "Read source", "Read walks (%s, %s), want the request's source under the caller's context", w.args[0], w.args[1])
			// the reader handed to the walk is the data source, called once, unchanged
			st := x.newState()
			st.mem = w.mem.clone()
			st.facts = w.facts.clone()
			sig := w.args[3].typ.Underlying().(*types.Signature)
			var as []*Term
			for i := 0; i < sig.Params().Len(); i++ {
				as = append(as, x.symOf("a", sig.Params().At(i).Type()))
			}
			for _, q := range c.rets(x, x.CallTerm(w.args[3], as, st), rule, "reader") {
				c.onlyOwn(x, []*Outcome{q}, "envelopes", "the walk's reader", nil)
				var rs []*Event
				allEvents(q.evs, func(e *Event) {
					if e.kind == EvCall && e.name == "dynamic" && e.args[0] == rd {
						rs = append(rs, e)
					}
				})
				if !c.ob(len(rs) == 1, rule, "Read reader", "the walk's reader calls the data source %d times", len(rs)) {
					continue
				}
				for i, a := range as {
					c.ob(rs[0].args[i+1] == a, rule, "Read reader arguments", "the walk's reader passes %s for %s", rs[0].args[i+1], a)
				}
				c.ob(q.Vals[0] == rs[0].res[0] && q.Vals[1] == rs[0].res[1], rule, "Read reader results", "the walk's reader returns %v, want the data source's results", q.Vals)
			}
			// the options
			els, ok := x.elems(w.mem, w.args[4])
			if !c.ob(ok, rule, "Read options", "the walk's options cannot be enumerated") {
				continue
			}
			ct := x.NamedType(modPath+"/pkg/client", "WalkOption").Underlying().(*types.Interface).Method(0)
			cfgT := ct.Type().(*types.Signature).Params().At(0).Type()
			apply := func(opts []*Term, st *State, cfg *Term) *State {
				for _, e := range opts {
					st = x.single(x.CallMethod(e, ct.Name(), []*Term{cfg}, st), "walk option").St
				}
				return st
			}
			cfg := x.T.fresh("alloc", "walkConfig", cfgT)
			s1 := x.newState()
			s1.mem = w.mem.clone()
			got := apply(els, s1, cfg)
			s2 := x.newState()
			s2.mem = w.mem.clone()
			var want []*Term
			add := func(fn string, a ...*Term) {
				var o *Term
				o, s2 = x.optVal(fn, s2, a...)
				want = append(want, o)
			}
			unix := func(t *Term) *Term {
				return x.T.mk("pure", "time.Unix", x.NamedType("time", "Time"), x.T.Const(constant.MakeInt64(0), types.Typ[types.Int64]), t)
			}
			add("WithWalkStartTime", unix(fld("StartTime")))
			add("WithWalkEndTime", unix(fld("EndTime")))
			add("WithWalkLimit", fld("Limit"))
			add("WithWalkEnvelopeTypes", fld("EnvelopeTypes"))
			exp := apply(want, s2, cfg)
			s := structOf(derefType(cfgT))
			for i := 0; i < s.NumFields(); i++ {
				fa := x.T.FieldAddr(cfg, derefType(cfgT), i)
				g, v := x.loadMem(got.mem, fa, derefType(fa.typ)), x.loadMem(exp.mem, fa, derefType(fa.typ))
				name := s.Field(i).Name()
				switch name {
				case "log":
					continue
				case "backoff":
					// an empty read is the end of the range
					for _, q := range x.CallMethod(g, "OnEmpty", nil, got.clone()) {
						b, k := false, false
						if !q.Panic {
							b, k = q.Vals[0].BoolVal()
						}
						c.ob(k && !b, rule, "Read backoff", "an empty read does not end the walk")
					}
					continue
				}
				if p, ok := derefType(fa.typ).Underlying().(*types.Pointer); ok {
					g, v = x.loadMem(got.mem, g, p.Elem()), x.loadMem(exp.mem, v, p.Elem())
				}
				c.ob(x.same(nil, stripConv(g), stripConv(v)), rule, "Read option "+name, "Read configures %s = %s, want %s", name, g, v)
			}
			cell := c.accumulates(x, w, w.args[2], rule, "Read")
			if cell == nil || x.isNil(r.St.facts, r.Vals[1]) != 1 {
				continue
			}
			b := x.get(r.St.mem, r.Vals[0], "ReadResponse", "Envelopes")
			if b != nil {
				b = x.envBatch(r.St.mem, b)
			}
			c.ob(b != nil && b.op == "init" && b.args[0] == cell, rule, "Read result", "Read returns %s, not what the walk delivered: %s", b, x.pathStr(r))
		}
		c.need(n, 1, rule, "walks")
	}
	// errors
	x := c.newX()
	outs, ctx, in, rd := setup(x)
	_, _ = in, reqT
	good, bad := 0, 0
	for _, r := range outs {
		var last *Event
		for _, e := range r.evs {
			if e.kind == EvCall && e.name == "dynamic" && e.args[0] == rd {
				last = e
			}
		}
		var ctxErr *Event
		for _, e := range r.evs {
			if e.kind == EvCall && e.name == "(context.Context).Err" && e.args[0] == ctx {
				ctxErr = e
			}
		}
		if !c.ob(last != nil, rule, "Read reads", "Read ends without reading: %s", x.pathStr(r)) {
			continue
		}
		f := r.St.facts
		readErr := x.isNil(f, last.res[1])
		switch x.isNil(f, r.Vals[1]) {
		case 1:
			good++
			c.ob(readErr == 1, rule, "Read read error", "Read returns data with a nil error although its last read may have failed: %s", x.pathStr(r))
			c.ob(ctxErr != nil && x.isNil(f, ctxErr.res[0]) == 1, rule, "Read context error", "Read returns data with a nil error although the caller may have given up: %s", x.pathStr(r))
		case -1:
			bad++
			c.ob(r.Vals[0].IsNil(), rule, "Read error data", "Read returns data next to an error: %s", x.pathStr(r))
			c.ob(readErr == -1 || ctxErr != nil && x.isNil(f, ctxErr.res[0]) == -1, rule, "Read needless error", "Read fails although every read succeeded: %s", x.pathStr(r))
		default:
			// the error is passed on as it is: data must not accompany it
			c.ob(false, rule, "Read error", "Read returns (%s, %s) without looking at the error: %s", r.Vals[0], r.Vals[1], x.pathStr(r))
		}
	}
	c.need(good, 2, rule, "successful paths")
	c.need(bad, 3, rule, "failing paths")
}

// envBatch is field Batch of an envelope batch.
func (x *X) envBatch(m *Mem, b *Term) *Term {
	t := x.NamedType("code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2", "EnvelopeBatch")
	return x.loadMem(m, x.FieldNamed(b, t, "Batch"), derefType(x.FieldNamed(b, t, "Batch").typ))
}

// accumulates: visitor vis of walk w appends every batch to an initially empty
// slice and never stops the walk. It returns the slice's cell.
func (c *C) accumulates(x *X, w *Event, vis *Term, rule, what string) *Term {
	var cell *Term
	for _, b := range vis.args {
		t := derefType(b.typ)
		if elemTypeOf(t) != nil {
			cell = b
		}
		if s := structOf(t); s != nil && vis.op == "closure" {
			// a method of an object that keeps the batches
			ps := vis.fn.Signature.Params()
			for i := 0; i < s.NumFields(); i++ {
				if ps.Len() == 1 && types.Identical(s.Field(i).Type(), ps.At(0).Type()) {
					cell = x.T.FieldAddr(b, t, i)
				}
			}
		}
	}
	if cell == nil || vis.op != "closure" {
		c.ob(false, rule, what+" visitor", "%s's visitor does not accumulate batches", what)
		return nil
	}
	ct := derefType(cell.typ)
	in := x.loadMem(w.mem, cell, ct)
	c.ob(in.IsNil() || x.isEmptyFresh(in), rule, what+" starts empty", "%s starts with %s", what, in)
	st := x.newState()
	st.mem, st.facts = w.mem.clone(), w.facts.clone()
	acc, e := x.symOf("acc", ct), x.symOf("batch", ct)
	x.storeMem(st.wmem(), cell, acc, ct)
	for _, q := range c.rets(x, x.CallTerm(vis, []*Term{e}, st), rule, what+" visitor") {
		c.onlyOwn(x, []*Outcome{q}, "envelopes", what+" visitor", nil)
		v, ok := q.Vals[0].BoolVal()
		c.ob(ok && v, rule, what+" visitor continues", "%s's visitor can stop the walk", what)
		got := x.loadMem(q.St.mem, cell, ct)
		c.ob(x.appended(got, acc, e, loopExits([]*Outcome{q})), rule, what+" accumulates", "%s keeps %s for a batch, want the batch appended", what, got)
	}
	return cell
}
