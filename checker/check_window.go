package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"time"
)

func init() {
	register("C10", "Backoff strategies retry, sleep and give up exactly as configured",
		"Path-partitioned dataflow over the methods of every Backoff implementation, built through its public constructor with arbitrary interval, maximum and retry count: result, sleeps and the retry counter on every abstract path are compared with the strategy's table.", checkC10)
	register("C11", "Window walks consecutive windows and hands each to the visitor",
		"Path-partitioned dataflow over Window (arbitrary start, width, interval) and the walker made by BuildWalker: for an arbitrary tick, the window bounds, the deadline of the walk, the order walker-then-visitor and the start of the next window are checked on every abstract path.", checkC11)
}

func checkC10(c *C) {
	const rule = "backoff"
	for _, cfg := range []struct {
		ctor    string
		onlyErr bool
	}{{"NewRetryBackoff", false}, {"NewRetryBackoffOnErr", true}} {
		x := c.newX()
		T := x.T
		dur := x.NamedType("time", "Duration")
		iv, max := x.symOf("interval", dur), x.symOf("maxCount", types.Typ[types.Int])
		o := x.single(x.Root(x.Fn("pkg/client", "", cfg.ctor), nil, []*Term{iv, max}, nil), cfg.ctor)
		b, st := o.Vals[0], o.St
		st.trace = nil
		m := func(name string) []*Outcome {
			return c.rets(x, x.CallMethod(b, name, nil2(x, name), st.clone()), rule, cfg.ctor+" "+name)
		}
		var cell *Term
		for _, a := range storesUnder(m("OnErr"), b) {
			if isIntType(derefType(a.typ)) {
				cell = a
			}
		}
		if cell == nil {
			c.ob(false, rule, cfg.ctor+" counter", "OnErr of a %s strategy does not count", cfg.ctor)
			continue
		}
		zero := x.loadMem(st.mem, cell, derefType(cell.typ))
		c.ob(isZeroTerm(x, zero), rule, cfg.ctor+" initial count", "%s starts counting at %s", cfg.ctor, zero)
		n := x.symOf("count", derefType(cell.typ))
		x.storeMem(st.wmem(), cell, n, derefType(cell.typ))
		for _, name := range []string{"OnErr", "OnEmpty"} {
			what := cfg.ctor + " " + name
			for _, o := range m(name) {
				sl, okS := x.sleeps(o, iv)
				c.ob(okS, rule, what+" interval", "%s sleeps for something other than the configured interval: %s", what, x.pathStr(o))
				end := x.loadMem(o.St.mem, cell, derefType(cell.typ))
				r, known := false, false
				if v, ok := o.Vals[0].BoolVal(); ok {
					r, known = v, true
				} else if e := o.St.facts.Eval(o.Vals[0]); e != 0 {
					r, known = e == 1, true
				}
				if !known {
					// result is a bare comparison: split
					for _, v := range []bool{true, false} {
						if f, ok := x.with(o.St.facts, o.Vals[0], v); ok {
							c.backoffPath(x, what, cfg.onlyErr && name == "OnEmpty", v, sl, end, n, max, f)
						}
					}
					continue
				}
				c.backoffPath(x, what, cfg.onlyErr && name == "OnEmpty", r, sl, end, n, max, o.St.facts)
			}
		}
		for _, o := range m("Reset") {
			sl, _ := x.sleeps(o, iv)
			end := x.loadMem(o.St.mem, cell, derefType(cell.typ))
			c.ob(sl == 0 && isZeroTerm(x, end), rule, cfg.ctor+" Reset", "Reset leaves the retry count at %s: %s", end, x.pathStr(o))
		}
		_ = T
	}
	x := c.newX()
	iv := x.symOf("interval", x.NamedType("time", "Duration"))
	o := x.single(x.Root(x.Fn("pkg/client", "", "NewAlwaysRetryBackoff"), nil, []*Term{iv}, nil), "NewAlwaysRetryBackoff")
	done := x.T.Zero(x.NamedType(modPath+"/pkg/client", "AlwaysDoneBackoff"))
	if done.typ == nil {
		x.giveUp("AlwaysDoneBackoff has no zero value")
	}
	for _, name := range []string{"OnErr", "OnEmpty", "Reset"} {
		for _, r := range c.rets(x, x.CallMethod(o.Vals[0], name, nil2(x, name), o.St), rule, "AlwaysRetryBackoff "+name) {
			sl, ok := x.sleeps(r, iv)
			if name == "Reset" {
				c.ob(sl == 0, rule, "AlwaysRetryBackoff Reset", "Reset sleeps")
				continue
			}
			v, k := r.Vals[0].BoolVal()
			c.ob(ok && sl == 1 && k && v, rule, "AlwaysRetryBackoff "+name, "AlwaysRetryBackoff.%s must sleep the interval once and retry: %s", name, x.pathStr(r))
		}
		for _, r := range c.rets(x, x.CallMethod(done, name, nil2(x, name), x.newState()), rule, "AlwaysDoneBackoff "+name) {
			sl, _ := x.sleeps(r, iv)
			if name == "Reset" {
				c.ob(sl == 0, rule, "AlwaysDoneBackoff Reset", "Reset sleeps")
				continue
			}
			v, k := r.Vals[0].BoolVal()
			c.ob(sl == 0 && k && !v, rule, "AlwaysDoneBackoff "+name, "AlwaysDoneBackoff.%s must give up at once: %s", name, x.pathStr(r))
		}
	}
}

func nil2(x *X, name string) []*Term {
	if name == "OnErr" {
		return []*Term{x.symOf("err", types.Universe.Lookup("error").Type())}
	}
	return nil
}

// sleeps counts the sleeps of one path; ok is false when one has another
// duration.
func (x *X) sleeps(o *Outcome, iv *Term) (n int, ok bool) {
	ok = true
	allEvents(o.evs, func(e *Event) {
		if e.kind == EvCall && (e.name == "time.Sleep" || e.name == "time.After") {
			n++
			if e.args[0] != iv {
				ok = false
			}
		}
		if e.kind == EvLoop {
			ok = false
		}
	})
	return
}

func (c *C) backoffPath(x *X, what string, never bool, r bool, sl int, end, n, max *Term, f *Facts) {
	const rule = "backoff"
	T := x.T
	if never {
		c.ob(!r && sl == 0 && x.same(f, end, n), rule, what+" refuses", "%s must give up on an empty read without sleeping or counting", what)
		return
	}
	next := T.plus(n, 1, n.typ)
	c.ob(x.same(f, end, next), rule, what+" counts", "%s leaves the retry count at %s, want %s: %s", what, end, next, f)
	lt := T.Lt(next, max)
	e := f.Eval(lt)
	if r {
		c.ob(e == 1, rule, what+" limit", "%s retries although the maximum may be reached: %s", what, f)
		c.ob(sl == 1, rule, what+" sleep", "%s sleeps %d times before a retry: %s", what, sl, f)
	} else {
		c.ob(e == -1, rule, what+" gives up early", "%s gives up although the maximum is not reached: %s", what, f)
		c.ob(sl == 0, rule, what+" sleep", "%s sleeps before giving up: %s", what, f)
	}
}

func checkC11(c *C) {
	const rule = "window"
	c.optionsPure("option", "WindowOption")
	for _, how := range []string{"start", "", "defaults"} {
		withStart, defaults := how == "start", how == "defaults"
		x := c.newX()
		T := x.T
		dur := x.NamedType("time", "Duration")
		st := x.newState()
		var opts []*Term
		add := func(fn string, args ...*Term) {
			var o *Term
			o, st = x.optVal(fn, st, args...)
			opts = append(opts, o)
		}
		width, iv := x.symOf("width", dur), x.symOf("interval", dur)
		what := "Window"
		if defaults {
			what = "Window without options"
			width, iv = T.Const(constant.MakeInt64(int64(time.Hour)), dur), T.Const(constant.MakeInt64(int64(time.Minute)), dur)
		} else {
			add("WithWindowWidth", width)
			add("WithWindowInterval", iv)
		}
		var start *Term
		if withStart {
			what = "Window with a start time"
			start = x.symOf("start", x.NamedType("time", "Time"))
			st.wfacts().Assume(T.mk("pure", "IsZero", types.Typ[types.Bool], start), false)
			add("WithWindowStartTime", start)
		}
		fn := x.Fn("pkg/client", "", "Window")
		ps := x.params(fn)
		for _, p := range ps[:3] {
			st.wfacts().Assume(T.Eq(p, T.Nil()), false)
		}
		ps[3] = x.sliceOf(x.NamedType(modPath+"/pkg/client", "WindowOption"), opts...)
		ctx, vis, wlk := ps[0], ps[1], ps[2]
		outs := x.Root(fn, st, ps, nil)
		c.noMay(x, outs, rule, what, "unchecked", "nilmap")
		c.onlyOwn(x, outs, "envelopes", what, nil)
		isW := func(e *Event) bool { return e.kind == EvCall && e.name == "dynamic" && e.args[0] == wlk }
		isV := func(e *Event) bool { return e.kind == EvCall && e.name == "dynamic" && e.args[0] == vis }
		var main *LoopInfo
		for _, o := range outs {
			for _, e := range o.evs {
				if e.kind == EvLoop {
					for _, it := range e.loop.iters {
						for _, d := range it.events {
							if isW(d) {
								main = e.loop
							}
						}
					}
				}
			}
		}
		if main == nil {
			c.ob(false, rule, what, "%s never walks a second window", what)
			continue
		}
		n := 0
		pass := func(evs []*Event, f *Facts, next map[*Term]*Term, where string) {
			var tick, to, walk, vst, canc *Event
			nw, nv := 0, 0
			for _, e := range evs {
				switch {
				case (e.kind == EvRecv || e.kind == EvSelect) && tick == nil:
					tick = e
				case e.kind == EvCall && (e.name == "context.WithTimeout" || e.name == "context.WithDeadline"):
					to = e
				case isW(e):
					walk = e
					nw++
				case isV(e):
					vst = e
					nv++
				case e.kind == EvCall && e.name == "dynamic" && to != nil && e.args[0] == to.res[1]:
					canc = e
				}
			}
			if nw == 0 && nv == 0 {
				c.ob(next == nil, rule, what+" skipped window", "%s skips a tick without walking: %s", what, where)
				return
			}
			n++
			if nw != 1 || nv != 1 {
				c.ob(false, rule, what+" once", "%s calls the walker %d and the visitor %d times for one window: %s", what, nw, nv, where)
				return
			}
			c.ob(tick != nil && tick.id < walk.id && derives(tick.args[0], nil2ticker(evs, outs)), rule, what+" tick", "%s walks without waiting for its ticker: %s", what, where)
			okCtx := to != nil && to.name == "context.WithTimeout" && to.args[0] == ctx && to.args[1] == iv && walk.args[1] == to.res[0]
			c.ob(okCtx, rule, what+" deadline", "%s does not bound the walk by the caller's context and one interval (context %s) at %s", what, walk.args[1], x.where(walk))
			c.ob(canc != nil && canc.id > walk.id, rule, what+" cancel", "%s does not release the walk's context after it: %s", what, where)
			S := x.unixNano(walk.args[2])
			want := T.BinOp(token.ADD, S, width, types.Typ[types.Int64], types.Typ[types.Int64])
			c.ob(x.same(f, x.unixNano(walk.args[3]), want), rule, what+" width", "%s walks from %s to %s, not a window of the configured width, at %s", what, walk.args[2], walk.args[3], x.where(walk))
			c.ob(vst.args[1] == walk.res[0] && vst.id > walk.id, rule, what+" batch", "%s hands %s to the visitor instead of the walked window at %s", what, vst.args[1], x.where(vst))
			var sym *Term
			for _, p := range main.phis {
				if isIntType(p.sym.typ) && p.sym == S || !isIntType(p.sym.typ) && x.unixNano(p.sym) == S {
					sym = p.sym
				}
			}
			for _, s := range main.mods {
				if s == S || !isIntType(s.typ) && x.unixNano(s) == S {
					sym = s
				}
			}
			if sym == nil {
				c.ob(false, rule, what+" start", "%s walks from %s, which does not advance from tick to tick", what, walk.args[2])
				return
			}
			in := x.initOf(sym)
			if withStart {
				c.ob(in != nil && x.nanoOf(in) == x.unixNano(start), rule, what+" first start", "%s starts its first window at %v", what, in)
			} else {
				ok := false
				if in != nil {
					b, k := T.linear(x.nanoOf(in))
					ok = b != nil && defaults && k == -int64(time.Hour) && b.any(func(t *Term) bool { return t.ev != nil && t.ev.name == "time.Now" }) ||
						b != nil && k == 0 && b.any(func(t *Term) bool { return t.ev != nil && t.ev.name == "time.Now" }) && b.any(func(t *Term) bool { return t.op == "neg" && t.args[0] == width || t.op == "diff" && t.args[1] == width })
				}
				c.ob(ok, rule, what+" default start", "%s starts its first window at %v, not one width before now", what, in)
			}
			b := f.Eval(vst.res[0])
			c.ob(b != 0, rule, what+" visitor result", "%s ignores the visitor's answer: %s", what, where)
			c.ob(b == 0 || (b == 1) == (next != nil), rule, what+" visitor decision", "%s does not follow the visitor's answer (continues: %v): %s", what, next != nil, where)
			if next != nil {
				w := T.BinOp(token.ADD, S, iv, types.Typ[types.Int64], types.Typ[types.Int64])
				c.ob(next[sym] != nil && x.same(f, x.nanoOf(next[sym]), w), rule, what+" advance", "%s advances its start to %s, not by one interval", what, next[sym])
			}
		}
		for _, it := range main.iters {
			for _, e := range it.events {
				c.ob(it.next == nil || e.kind != EvCall || e.name != "(*time.Ticker).Stop" && e.name != "(*time.Ticker).Reset", rule, what+" ticker", "%s stops or resets its ticker and goes on, at %s", what, x.where(e))
			}
			pass(it.events, it.facts, it.next, it.facts.String())
		}
		for _, o := range outs {
			if o.Panic {
				c.ob(false, rule, what+" panics", "%s may panic: %s", what, x.pathStr(o))
				continue
			}
			var evs []*Event
			in := false
			stopped := false
			for _, e := range o.evs {
				if e.kind == EvLoop && e.loop == main {
					in = true
					continue
				}
				if e.kind == EvCall && (isW(e) || isV(e)) {
					c.ob(in, rule, what+" before tick", "%s calls the walker or visitor before its first tick", what)
				}
				if e.kind == EvCall && (e.name == "(*time.Ticker).Stop" || e.name == "(*time.Ticker).Reset") {
					c.ob(in, rule, what+" ticker", "%s stops or resets its ticker before it has ticked, at %s", what, x.where(e))
					stopped = true
				}
				if in {
					evs = append(evs, e)
				}
			}
			c.ob(stopped, rule, what+" ticker", "%s returns without stopping its ticker: %s", what, x.pathStr(o))
			for _, e := range o.evs {
				if e.kind == EvCall && e.name == "time.NewTicker" {
					c.ob(e.args[0] == iv, rule, what+" interval", "%s ticks every %s instead of the configured interval", what, e.args[0])
				}
			}
			pass(evs, o.St.facts, nil, x.pathStr(o))
		}
		c.need(n, 2, rule, what+" ticks")
	}
	c.buildWalker(rule)
}

func (x *X) nanoOf(t *Term) *Term {
	if isIntType(t.typ) {
		return t
	}
	return x.unixNano(t)
}

// nil2ticker: the ticker in use.
func nil2ticker(evs []*Event, outs []*Outcome) *Term {
	for _, o := range outs {
		for _, e := range o.evs {
			if e.kind == EvCall && e.name == "time.NewTicker" {
				return e.res[0]
			}
		}
	}
	return nil
}

// buildWalker: the walker returns everything Walk delivered between its bounds.
func (c *C) buildWalker(rule string) {
	x := c.newX()
	T := x.T
	x.opaque[modPath+"/pkg/client.Walk"] = true
	fn := x.Fn("pkg/client", "", "BuildWalker")
	ps := x.params(fn)
	o := x.single(x.Root(fn, nil, ps, nil), "BuildWalker")
	ctx := x.symOf("ctx", x.NamedType("context", "Context"))
	tt := x.NamedType("time", "Time")
	start, end := x.symOf("start", tt), x.symOf("end", tt)
	outs := c.rets(x, x.CallTerm(o.Vals[0], []*Term{ctx, start, end}, o.St), rule, "BuildWalker")
	c.onlyOwn(x, outs, "envelopes", "BuildWalker", nil)
	n := 0
	for _, r := range outs {
		var w *Event
		cnt := 0
		allEvents(r.evs, func(e *Event) {
			if e.kind == EvCall && e.name == modPath+"/pkg/client.Walk" {
				w = e
				cnt++
			}
		})
		if cnt != 1 {
			c.ob(false, rule, "BuildWalker walks", "the walker calls Walk %d times: %s", cnt, x.pathStr(r))
			continue
		}
		n++
		c.ob(w.args[0] == ctx && w.args[1] == ps[0] && w.args[3] == ps[1], rule, "BuildWalker arguments", "the walker walks %v", w.args[:4])
		els, ok := x.elems(w.mem, w.args[4])
		if !ok {
			c.ob(false, rule, "BuildWalker options", "the walker's options cannot be enumerated")
			continue
		}
		ct := x.NamedType(modPath+"/pkg/client", "WalkOption").Underlying().(*types.Interface).Method(0)
		cfgT := ct.Type().(*types.Signature).Params().At(0).Type()
		apply := func(opts []*Term, st *State, cfg *Term) *State {
			for _, e := range opts {
				st = x.single(x.CallMethod(e, ct.Name(), []*Term{cfg}, st), "walk option").St
			}
			return st
		}
		cfg := T.fresh("alloc", "walkConfig", cfgT)
		s1 := x.newState()
		s1.mem = w.mem.clone()
		s2 := x.newState()
		// whatever the walk's own settings are, only the bounds change
		for i, s := 0, structOf(derefType(cfgT)); i < s.NumFields(); i++ {
			v := x.symOf("default", s.Field(i).Type())
			for _, st := range []*State{s1, s2} {
				x.storeMem(st.wmem(), T.FieldAddr(cfg, derefType(cfgT), i), v, s.Field(i).Type())
			}
		}
		got := apply(els, s1, cfg)
		o1, s2 := x.optVal("WithWalkStartTime", s2, start)
		o2, s2 := x.optVal("WithWalkEndTime", s2, end)
		want := apply([]*Term{o1, o2}, s2, cfg)
		s := structOf(derefType(cfgT))
		for i := 0; i < s.NumFields(); i++ {
			fa := T.FieldAddr(cfg, derefType(cfgT), i)
			g, wv := x.loadMem(got.mem, fa, derefType(fa.typ)), x.loadMem(want.mem, fa, derefType(fa.typ))
			c.ob(x.same(nil, g, wv), rule, "BuildWalker option "+s.Field(i).Name(), "the walker configures %s = %s, want %s", s.Field(i).Name(), g, wv)
		}
		// the visitor accumulates every batch and never stops
		cell := c.accumulates(x, w, w.args[2], rule, "BuildWalker")
		if cell == nil {
			continue
		}
		c.ob(r.Vals[0].op == "init" && r.Vals[0].args[0] == cell, rule, "BuildWalker result", "the walker returns %s, not what it accumulated", r.Vals[0])
	}
	c.need(n, 1, rule, "BuildWalker")
}
