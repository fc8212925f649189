package main

import (
	"fmt"
	"go/types"
)

func init() {
	register("C08", "Walk delivers each batch once, pruned, and resumes after it",
		"Path-partitioned dataflow over Walk with arbitrary reader, visitor, backoff, start, end, delay and read options: for an arbitrary pass (read + handling) every abstract path is checked for the arguments of the read, the bounds that prune the batch, the batch given to the visitor and the start of the next read.", checkC08)
	register("C09", "Walk stops, retries and reports to the backoff as documented",
		"Same path partition as C08: per pass the calls to context, backoff and visitor, and whether the walk continues, are compared with the control table (cancelled, error, empty, delivered, end reached).", checkC09)
}

type walkScn struct {
	x                                        *X
	name                                     string
	outs                                     []*Outcome
	ctx, src, visitor, reader                *Term
	start, end, delay, limit, types_, filter *Term
	backoff                                  *Term
	main                                     *LoopInfo
	passes                                   []*walkPass
}

type walkPass struct {
	evs   []*Event
	facts *Facts
	mem   *Mem
	next  map[*Term]*Term // nil when the walk ends
	read  *Event
	where string
}

func (x *X) optVal(fn string, st *State, args ...*Term) (*Term, *State) {
	o := x.single(x.Root(x.Fn("pkg/client", "", fn), st, args, nil), fn)
	return o.Vals[0], o.St
}

func (c *C) walk(withEnd, extra bool) *walkScn {
	x := c.newX()
	T := x.T
	w := &walkScn{x: x, name: "Walk"}
	if withEnd {
		w.name = "Walk with an end time"
	}
	st := x.newState()
	tt := x.NamedType("time", "Time")
	var opts []*Term
	add := func(fn string, args ...*Term) {
		var o *Term
		o, st = x.optVal(fn, st, args...)
		opts = append(opts, o)
	}
	w.start = x.symOf("startTime", tt)
	add("WithWalkStartTime", w.start)
	w.delay = x.symOf("delay", x.NamedType("time", "Duration"))
	add("WithWalkDelay", w.delay)
	w.backoff = x.symOf("backoff", x.NamedType(modPath+"/pkg/client", "Backoff"))
	st.wfacts().Assume(T.Eq(w.backoff, T.Nil()), false)
	add("WithWalkBackoff", w.backoff)
	if withEnd {
		w.end = x.symOf("endTime", tt)
		st.wfacts().Assume(T.mk("pure", "IsZero", types.Typ[types.Bool], w.end), false)
		add("WithWalkEndTime", w.end)
	}
	if extra {
		w.limit = x.symOf("limit", types.Typ[types.Int])
		add("WithWalkLimit", w.limit)
		w.types_ = x.symOf("types", types.NewSlice(x.NamedType(lcv1, "EnvelopeType")))
		st.wfacts().Assume(T.Eq(w.types_, T.Nil()), false)
		st.wfacts().Assume(T.Eq(T.Len(w.types_), T.Int(0)), false)
		add("WithWalkEnvelopeTypes", w.types_)
		w.filter = x.symOf("nameFilter", types.Typ[types.String])
		st.wfacts().Assume(T.Eq(T.Len(w.filter), T.Int(0)), false)
		add("WithWalkNameFilter", w.filter)
	}
	fn := x.Fn("pkg/client", "", "Walk")
	ps := x.params(fn)
	w.ctx, w.src, w.visitor, w.reader = ps[0], ps[1], ps[2], ps[3]
	for _, p := range []*Term{w.ctx, w.visitor, w.reader} {
		st.wfacts().Assume(T.Eq(p, T.Nil()), false)
	}
	ps[4] = x.sliceOf(x.NamedType(modPath+"/pkg/client", "WalkOption"), opts...)
	w.outs = x.Root(fn, st, ps, nil)
	c.noMay(x, w.outs, "crash", w.name, "unchecked", "nilmap")
	c.onlyOwn(x, w.outs, "envelopes", w.name, nil)

	isRead := func(e *Event) bool { return e.kind == EvCall && e.name == "dynamic" && e.args[0] == w.reader }
	for _, o := range w.outs {
		for _, e := range o.evs {
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					for _, d := range it.events {
						if isRead(d) {
							w.main = e.loop
						}
					}
				}
			}
		}
	}
	if w.main == nil {
		x.giveUp("Walk has no loop that calls the reader")
	}
	mk := func(evs []*Event, f *Facts, m *Mem, next map[*Term]*Term) {
		p := &walkPass{evs: evs, facts: f, mem: m, next: next}
		for _, e := range evs {
			if isRead(e) {
				if p.read != nil {
					p.read = nil
					break
				}
				p.read = e
			}
		}
		s := f.String()
		if len(s) > 500 {
			s = s[:500] + "…"
		}
		if next == nil {
			p.where = "final pass [" + s + "]"
		} else {
			p.where = "pass [" + s + "]"
		}
		w.passes = append(w.passes, p)
	}
	for _, it := range w.main.iters {
		mk(it.events, it.facts, it.mem, it.next)
	}
	for _, o := range w.outs {
		if o.Panic {
			continue
		}
		var evs []*Event
		in := false
		for _, e := range o.evs {
			if e.kind == EvLoop && e.loop == w.main {
				in = true
				continue
			}
			if in {
				evs = append(evs, e)
			}
		}
		mk(evs, o.St.facts, o.St.mem, nil)
	}
	return w
}

// tsElem: t is the timestamp of element idx of slice s.
func tsElem(t *Term) (s, idx *Term, ok bool) {
	if t.op != "init" || t.args[0].op != "fieldaddr" || fieldName(t.args[0]) != "Timestamp" {
		return
	}
	e := t.args[0].args[0]
	if e.op != "init" || e.args[0].op != "indexaddr" {
		return
	}
	return e.args[0].args[0], e.args[0].args[1], true
}

// stage is one pruning loop: the batch before, the batch after.
type stage struct {
	loop   *LoopInfo
	before *Term
	after  *Term
	facts  *Facts // facts when the loop ended
}

// batchAt renders a loop-carried length as a slice of the base.
func (x *X) stages(evs []*Event, batch *Term) (out []*stage, bad string) {
	T := x.T
	cur := batch
	for i, e := range evs {
		if e.kind != EvLoop {
			continue
		}
		l := e.loop
		var after *Term
		for _, p := range l.phis {
			if p.init == cur {
				after = p.sym
			}
		}
		for a, sym := range l.mods {
			if v, ok := l.pre.m[a]; ok && v == cur {
				after = sym
			}
		}
		if after == nil {
			// a count running down from the batch's length
			for _, p := range x.locals(l) {
				if !isIntType(p.sym.typ) || p.init == nil {
					continue
				}
				b, k := T.linear(p.init)
				bl, kl := T.linear(T.Len(cur))
				if b != bl {
					continue
				}
				good := len(l.iters) > 0
				for _, it := range l.iters {
					if it.next[p.sym] != T.plus(p.sym, -1, p.sym.typ) {
						good = false
					}
				}
				if good {
					n := T.plus(p.sym, kl-k, p.sym.typ)
					after = x.flatSlice(T.mk("slice", "", cur.typ, cur, T.Nil(), n))
				}
			}
		}
		if after == nil {
			for _, it := range l.iters {
				for s, n := range it.next {
					if n != nil && s != n && derives(n, cur) && elemTypeOf(n.typ) != nil {
						return out, "the batch is transformed by an unrecognised loop at " + x.posStr(e.pos)
					}
				}
			}
			continue
		}
		st := &stage{loop: l, before: cur, after: after}
		for _, d := range evs[i+1:] {
			if d.kind == EvLoopExit && d.loop == l {
				st.facts = d.facts
			}
		}
		out = append(out, st)
		cur = after
	}
	return out, ""
}

// bounds of the prune conditions.
func (w *walkScn) delayBound(t *Term) bool {
	// UnixNano(now) - delay
	seenNow, seenDelay, other := false, false, false
	var rec func(u *Term, neg bool)
	rec = func(u *Term, neg bool) {
		switch {
		case u.op == "sum":
			rec(u.args[0], neg)
			rec(u.args[1], neg)
		case u.op == "diff":
			rec(u.args[0], neg)
			rec(u.args[1], !neg)
		case u.op == "neg":
			rec(u.args[0], !neg)
		case u == w.delay:
			if neg && !seenDelay {
				seenDelay = true
			} else {
				other = true
			}
		case u.op == "pure" && u.sym == "UnixNano" && u.args[0].ev != nil && u.args[0].ev.name == "time.Now" && u.args[0].id >= w.main.startT:
			if !neg && !seenNow {
				seenNow = true
			} else {
				other = true
			}
		default:
			other = true
		}
	}
	rec(t, false)
	return seenNow && seenDelay && !other
}

func (w *walkScn) nano(t *Term) *Term { return w.x.unixNano(t) }

// lastAtom looks for a decided comparison of bound kind k with the timestamp
// of the last element of s: 1 element is out of bounds, -1 within, 0 unknown.
func (w *walkScn) lastAtom(f *Facts, s *Term, kind string) int {
	x := w.x
	T := x.T
	res := 0
	for a, v := range f.atoms {
		if a.op != "lt" {
			continue
		}
		l, r := a.args[0], a.args[1]
		at := func(t *Term) bool {
			sl, ix, ok := tsElem(t)
			if !ok {
				return false
			}
			g := f.clone()
			if sl == s {
				last := T.plus(T.Len(s), -1, types.Typ[types.Int])
				return g.entLE(ix, last, 0) && g.entLE(last, ix, 0)
			}
			// s = sl[:n]: its last element is sl[n-1]
			if s.op == "slice" && s.args[0] == sl && s.args[1].IsNil() {
				last := T.plus(s.args[2], -1, types.Typ[types.Int])
				if n, k := T.linear(s.args[2]); n != nil {
					last = T.plus(n, k-1, types.Typ[types.Int])
				}
				return g.entLE(ix, last, 0) && g.entLE(last, ix, 0)
			}
			return false
		}
		lb, _ := T.linear(l)
		rb, _ := T.linear(r)
		if lb == nil || rb == nil {
			continue
		}
		var ts, bound *Term
		isBound := func(t *Term) bool {
			return kind == "delay" && w.delayBound(t) || kind == "end" && t == w.nano(w.end)
		}
		switch {
		case at(lb) && isBound(rb):
			ts, bound = lb, rb
		case at(rb) && isBound(lb):
			ts, bound = rb, lb
		default:
			continue
		}
		k := int64(0) // too new: bound+k <= ts
		if kind == "delay" {
			k = 1
		}
		g := x.newState().wfacts()
		g.Assume(a, v)
		out := 0
		switch {
		case g.entLE(bound, ts, -k):
			out = 1
		case g.entLE(ts, bound, k-1):
			out = -1
		default:
			continue
		}
		if res != 0 && res != out {
			return 0
		}
		res = out
	}
	return res
}

func (w *walkScn) emptied(f *Facts, s *Term) bool {
	x := w.x
	if f.Eval(x.T.Eq(x.T.Len(s), x.T.Int(0))) == 1 {
		return true
	}
	if s.op == "slice" {
		n := s.args[2]
		return f.clone().entLE(n, x.T.Int(0), 0)
	}
	g := f.clone()
	return g.entLE(x.T.Len(s), x.T.Int(0), 0)
}

// droppedBy: every iteration of st drops exactly the last element, and only
// because it violates the bound.
func (w *walkScn) droppedBy(st *stage, kind string) string {
	x := w.x
	T := x.T
	for _, it := range st.loop.iters {
		cur := st.after
		if cur.op == "slice" { // counter form: one fewer each time, checked above
			if w.lastAtom(it.facts, cur, kind) != 1 {
				return "an iteration drops an envelope without checking it against the bound"
			}
			continue
		}
		n := it.next[cur]
		if n == nil || n.op != "slice" || n.args[0] != cur || !n.args[1].IsNil() {
			return fmt.Sprintf("an iteration replaces the batch by %s", n)
		}
		last := T.plus(T.Len(cur), -1, types.Typ[types.Int])
		g := it.facts.clone()
		if !g.entLE(n.args[2], last, 0) || !g.entLE(last, n.args[2], 0) {
			return fmt.Sprintf("an iteration keeps [:%s], not all but the last envelope", n.args[2])
		}
		if w.lastAtom(it.facts, cur, kind) != 1 {
			return "an iteration drops an envelope without checking it against the bound"
		}
	}
	return ""
}

type walkFlags struct {
	start, empty *Term
	emptyInit    bool
}

// flags finds the loop-carried start and the received-empty flag.
func (w *walkScn) flags() (fl walkFlags) {
	for _, p := range w.main.phis {
		if b, ok := p.sym.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && p.init != nil && p.sym != w.main.flag {
			if v, ok := p.init.BoolVal(); ok {
				fl.empty, fl.emptyInit = p.sym, v
			}
		}
	}
	for a, sym := range w.main.mods {
		if b, ok := derefType(a.typ).Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if bv, ok := w.x.loadMem(w.main.pre, a, derefType(a.typ)).BoolVal(); ok {
				fl.empty, fl.emptyInit = sym, bv
			}
		}
	}
	return
}

func (w *walkScn) known(f *Facts, t *Term) (bool, bool) {
	if b, ok := t.BoolVal(); ok {
		return b, true
	}
	switch f.Eval(t) {
	case 1:
		return true, true
	case -1:
		return false, true
	}
	return false, false
}

// received: was the previous read empty, on this pass?
func (fl walkFlags) received(w *walkScn, f *Facts) (bool, bool) {
	if fl.empty == nil {
		return false, false
	}
	v, ok := w.known(f, fl.empty)
	return v != fl.emptyInit, ok
}

// stageKind decides which bound a pruning loop applies.
func (w *walkScn) stageKind(st *stage) (string, string) {
	d := w.droppedBy(st, "delay")
	if d == "" {
		return "delay", ""
	}
	if w.end != nil {
		e := w.droppedBy(st, "end")
		if e == "" {
			return "end", ""
		}
	}
	return "", d
}

func (w *walkScn) calls(p *walkPass, f func(e *Event) bool) (n int, last *Event) {
	allEvents(p.evs, func(e *Event) {
		if e.kind == EvCall && !e.inl && f(e) {
			n++
			last = e
		}
	})
	return
}

func checkC08(c *C) {
	const rule = "walk-delivery"
	c.optionsPure("option", "WalkOption")
	for _, withEnd := range []bool{false, true} {
		w := c.walk(withEnd, true)
		x := w.x
		T := x.T
		fl := w.flags()
		c.ob(fl.empty != nil || !withEnd, rule, w.name+" empty flag", "%s does not remember whether the previous read was empty", w.name)
		delivered, kept := 0, 0
		for _, p := range w.passes {
			if p.read == nil {
				c.ob(false, rule, w.name+" one read per pass", "%s does not read exactly once in a %s", w.name, p.where)
				continue
			}
			r := p.read
			okArgs := len(r.args) == 5 && r.args[1] == w.ctx && r.args[2] == w.src
			c.ob(okArgs, rule, w.name+" read arguments", "%s calls the reader with %v at %s", w.name, r.args, x.where(r))
			if !okArgs {
				continue
			}
			c.readOpts(w, r)
			S := w.nano(r.args[3])
			// the start of the read: a loop-carried value beginning at the start time
			var sym *Term
			for t := range w.nexts() {
				if w.nano2(t) == S {
					sym = t
				}
			}
			if sym == nil {
				c.ob(false, rule, w.name+" start", "%s reads from %s, which is not carried from pass to pass, at %s", w.name, r.args[3], x.where(r))
				continue
			}
			in := x.initOf(sym)
			c.ob(in != nil && w.nano2(in) == w.nano(w.start), rule, w.name+" first start", "%s starts reading at %v instead of the configured start", w.name, in)
			batch, err := r.res[0], r.res[1]
			nv, v := w.calls(p, func(e *Event) bool { return e.name == "dynamic" && e.args[0] == w.visitor })
			inLoop := false
			for _, e := range p.evs {
				if e.kind == EvLoop {
					allEvents([]*Event{e}, func(q *Event) {
						if q.kind == EvCall && q.name == "dynamic" && q.args[0] == w.visitor {
							inLoop = true
						}
					})
				}
			}
			c.ob(nv <= 1 && !inLoop, rule, w.name+" visitor once", "%s calls the visitor more than once for a batch: %s", w.name, p.where)
			sts, bad := x.stages(p.evs, batch)
			if bad != "" {
				c.ob(false, rule, w.name+" prune", "%s: %s", w.name, bad)
				continue
			}
			fin := batch
			var ap map[string]*stage = map[string]*stage{}
			okSt := true
			for _, s := range sts {
				k, why := w.stageKind(s)
				if k == "" {
					c.ob(false, rule, w.name+" prune", "%s prunes a batch wrongly (loop at %s): %s", w.name, x.posStr(s.loop.pos), why)
					okSt = false
					break
				}
				ap[k] = s
				fin = s.after
			}
			if !okSt {
				continue
			}
			if x.isNil(p.facts, err) != 1 {
				c.ob(nv == 0, rule, w.name+" visitor after error", "%s calls the visitor although the read may have failed: %s", w.name, p.where)
				if p.next != nil {
					kept++
					c.ob(p.next[sym] == sym, rule, w.name+" start after error", "after a failed read %s continues from %s", w.name, p.next[sym])
					if fl.empty != nil {
						c.ob(p.next[fl.empty] == fl.empty, rule, w.name+" flag after error", "after a failed read %s changes its empty-read flag", w.name)
					}
				}
				continue
			}
			// the delay bound
			emp, known := fl.received(w, p.facts)
			if !withEnd {
				emp, known = false, true
			}
			if !known {
				c.ob(false, rule, w.name+" delay", "%s does not consider whether the previous read was empty: %s", w.name, p.where)
				continue
			}
			if emp {
				c.ob(ap["delay"] == nil, rule, w.name+" delay after empty", "%s still discards recent envelopes after an empty read, so a bounded walk cannot reach its end: %s", w.name, p.where)
			} else {
				c.ob(ap["delay"] != nil || w.emptied(p.facts, fin), rule, w.name+" delay", "%s delivers envelopes newer than now-delay: %s", w.name, p.where)
			}
			if withEnd {
				c.ob(ap["end"] != nil || w.emptied(p.facts, fin), rule, w.name+" end bound", "%s does not discard envelopes at or after the end time: %s", w.name, p.where)
			}
			for k, s := range ap {
				f := s.facts
				if f == nil {
					f = p.facts
				}
				c.ob(w.lastAtom(f, s.after, k) == -1 || w.emptied(f, s.after), rule, w.name+" "+k+" exhaustive", "%s stops pruning at the %s bound while the last envelope may still violate it (loop at %s)", w.name, k, x.posStr(s.loop.pos))
			}
			if nv == 0 {
				// nothing delivered: the pruned batch must be empty
				c.ob(w.emptied(p.facts, fin), rule, w.name+" loses a batch", "%s does not deliver a non-empty batch: %s", w.name, p.where)
				if p.next != nil {
					kept++
					c.ob(p.next[sym] == sym, rule, w.name+" start after empty", "after an empty read %s continues from %s", w.name, p.next[sym])
					if fl.empty != nil {
						b, ok := w.known(p.facts, p.next[fl.empty])
						c.ob(ok && b != fl.emptyInit, rule, w.name+" flag after empty", "after an empty read %s does not set its empty-read flag: %s", w.name, p.where)
					}
				}
				continue
			}
			delivered++
			c.ob(len(v.args) == 2 && x.sameSlice(v.facts, v.args[1], fin), rule, w.name+" batch", "%s delivers %s, not the pruned batch %s, at %s", w.name, v.args[1], fin, x.where(v))
			f := v.facts.clone()
			ln := T.Len(fin)
			if fin.op == "slice" {
				ln = fin.args[2]
			}
			c.ob(f.entLE(T.Int(1), ln, 0), rule, w.name+" non-empty batch", "%s may call the visitor with an empty batch at %s", w.name, x.where(v))
			if p.next == nil {
				continue
			}
			n := w.nano2(p.next[sym])
			b, k := T.linear(n)
			okNext := false
			if b != nil && k == 1 {
				if s, ix, ok := tsElem(b); ok {
					last := T.plus(T.Len(fin), -1, types.Typ[types.Int])
					g := p.facts.clone()
					if s == fin || s == v.args[1] {
						okNext = g.entLE(ix, last, 0) && g.entLE(last, ix, 0)
					} else if fin.op == "slice" && s == fin.args[0] {
						bb, kk := T.linear(fin.args[2])
						last = T.plus(bb, kk-1, types.Typ[types.Int])
						okNext = g.entLE(ix, last, 0) && g.entLE(last, ix, 0)
					}
				}
			}
			c.ob(okNext, rule, w.name+" next start", "after a delivered batch %s continues from %s, not one nanosecond after its last envelope: %s", w.name, n, p.where)
			if fl.empty != nil {
				bv, ok := w.known(p.facts, p.next[fl.empty])
				c.ob(ok && bv == fl.emptyInit, rule, w.name+" flag after delivery", "after a delivered batch %s does not clear its empty-read flag: %s", w.name, p.where)
			}
		}
		c.need(delivered, 2, rule, w.name+" delivering paths")
		c.need(kept, 2, rule, w.name+" retrying paths")
	}
	// defaults: one second of delay
	c.walkDefaults(rule)
}

// sameSlice also accepts a full re-slice.
func (x *X) sameSlice(f *Facts, a, b *Term) bool {
	if x.same(f, a, b) {
		return true
	}
	a, b = x.flatSlice(a), x.flatSlice(b)
	if a.op == "slice" && b.op == "slice" && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
		g := f.clone()
		return g.entLE(a.args[2], b.args[2], 0) && g.entLE(b.args[2], a.args[2], 0)
	}
	return false
}

func (w *walkScn) nexts() map[*Term]bool {
	m := map[*Term]bool{}
	for _, p := range w.main.phis {
		m[p.sym] = true
	}
	for _, s := range w.main.mods {
		m[s] = true
	}
	return m
}

// nano2 reads a start kept either as a time or as Unix nanoseconds.
func (w *walkScn) nano2(t *Term) *Term {
	if t == nil {
		return nil
	}
	if isIntType(t.typ) {
		return t
	}
	return w.nano(t)
}

// readOpts: the options handed to the reader encode exactly the configuration.
func (c *C) readOpts(w *walkScn, r *Event) {
	const rule = "walk-options"
	x := w.x
	T := x.T
	els, ok := x.elems(r.mem, r.args[4])
	if !ok && r.args[4].IsNil() {
		ok = true
	}
	if !ok {
		c.ob(false, rule, w.name+" options", "%s passes options %s the analysis cannot enumerate", w.name, r.args[4])
		return
	}
	want := map[string]*Term{}
	if w.end != nil {
		want["end_time"] = x.itoa(w.nano(w.end))
	}
	if w.limit != nil {
		want["limit"] = x.itoa(w.limit)
		want["name_filter"] = w.filter
	}
	q := T.fresh("makemap", "query", x.NamedType("net/url", "Values"))
	u := x.symOf("url", types.NewPointer(x.NamedType("net/url", "URL")))
	st := x.newState()
	st.mem = r.mem.clone()
	st.facts = r.facts.clone()
	typesSeen := false
	for _, e := range els {
		if e.op == "closure" && len(e.args) == 1 {
			// the envelope-type option captures the configured slice
			if cap := x.loadMem(st.mem, e.args[0], derefType(e.args[0].typ)); cap == w.types_ && w.types_ != nil {
				typesSeen = true
				continue
			}
			if e.args[0] == w.types_ && w.types_ != nil {
				typesSeen = true
				continue
			}
		}
		outs := x.CallTerm(e, []*Term{u, q}, st)
		st = x.single(outs, "read option").St
	}
	for k, v := range want {
		vs, ok := x.qval(st.mem, q, k)
		c.ob(ok && len(vs) == 1 && x.same(r.facts, vs[0], v), rule, w.name+" "+k, "%s passes %s=%v to the reader, want %s", w.name, k, vs, v)
	}
	for _, k := range x.mapKeys(st.mem, q) {
		c.ob(want[k] != nil, rule, w.name+" extra "+k, "%s passes an unconfigured option %s to the reader", w.name, k)
	}
	if w.types_ != nil {
		c.ob(typesSeen, rule, w.name+" envelope_types", "%s does not pass the configured envelope types to the reader", w.name)
	}
}

// walkDefaults: with no options, delay is one second and every failure ends
// the walk.
func (c *C) walkDefaults(rule string) {
	x := c.newX()
	T := x.T
	fn := x.Fn("pkg/client", "", "Walk")
	ps := x.params(fn)
	st := x.newState()
	for _, p := range []*Term{ps[0], ps[2], ps[3]} {
		st.wfacts().Assume(T.Eq(p, T.Nil()), false)
	}
	ps[4] = T.Nil()
	outs := x.Root(fn, st, ps, nil)
	sec := false
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			for a := range e.facts.atoms {
				if a.op != "lt" {
					continue
				}
				bl, kl := T.linear(a.args[0])
				br, kr := T.linear(a.args[1])
				// U-1s < ts, or ts < U-1s+1
				d := kl - kr
				if bl != nil && br != nil && br.op == "pure" && br.sym == "UnixNano" {
					bl, br, d = br, bl, kr-kl-1
				}
				if bl == nil || br == nil || bl.op != "pure" || bl.sym != "UnixNano" {
					continue
				}
				if _, _, ok := tsElem(br); ok && d == -1000000000 {
					sec = true
				}
			}
		})
		for _, e := range o.evs {
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					for _, d := range it.events {
						if d.kind == EvCall && d.name == "dynamic" && d.args[0] == ps[3] {
							// a continuing pass must have delivered
							nv := 0
							for _, q := range it.events {
								if q.kind == EvCall && q.name == "dynamic" && q.args[0] == ps[2] {
									nv++
								}
							}
							c.ob(nv == 1, rule, "Walk default backoff", "Walk without a backoff retries after an error or an empty read")
							els, ok := x.elems(d.mem, d.args[4])
							c.ob(ok && len(els) == 0 || d.args[4].IsNil(), rule, "Walk default options", "Walk without options passes options to the reader: %s", d.args[4])
						}
					}
				}
			}
		}
	}
	c.ob(sec, rule, "Walk default delay", "Walk does not default to discarding envelopes newer than one second")
}

func checkC09(c *C) {
	const rule = "walk-control"
	for _, withEnd := range []bool{false, true} {
		w := c.walk(withEnd, false)
		x := w.x
		T := x.T
		kinds := map[string]int{}
		for _, o := range w.outs {
			c.ob(!o.Panic || o.PKind != "exit", rule, w.name+" exits", "%s may end the process: %s", w.name, x.pathStr(o))
			for _, e := range o.evs {
				if isExtCall(e) && len(e.args) > 0 && (e.name == "dynamic" && e.args[0] == w.visitor || e.method != nil && e.args[0] == w.backoff) {
					first := true
					for _, d := range o.evs {
						if d == e {
							break
						}
						if d.kind == EvLoop && d.loop == w.main {
							first = false
						}
					}
					c.ob(!first, rule, w.name+" before reading", "%s calls %s before its first read at %s", w.name, e.name, x.where(e))
				}
			}
		}
		for _, p := range w.passes {
			if p.read == nil {
				c.ob(false, rule, w.name+" one read per pass", "%s does not read exactly once in a %s", w.name, p.where)
				continue
			}
			err := p.read.res[1]
			isB := func(name string) func(e *Event) bool {
				return func(e *Event) bool { return e.method != nil && e.method.Name() == name && e.args[0] == w.backoff }
			}
			nErr, eErr := w.calls(p, isB("OnErr"))
			nEmp, eEmp := w.calls(p, isB("OnEmpty"))
			nRst, eRst := w.calls(p, isB("Reset"))
			nv, v := w.calls(p, func(e *Event) bool { return e.name == "dynamic" && e.args[0] == w.visitor })
			switch x.isNil(p.facts, err) {
			case 0:
				c.ob(false, rule, w.name+" error checked", "%s does not examine the reader's error: %s", w.name, p.where)
			case -1:
				cancelled, known := false, false
				for _, e := range p.evs {
					if e.kind == EvCall && e.method != nil && e.method.Name() == "Err" && e.args[0] == w.ctx && e.id > p.read.id {
						switch x.isNil(p.facts, e.res[0]) {
						case 1:
							known = true
						case -1:
							known, cancelled = true, true
						}
					}
				}
				if !known {
					c.ob(false, rule, w.name+" cancellation", "%s does not check for cancellation after a failed read: %s", w.name, p.where)
					continue
				}
				c.ob(nEmp == 0 && nRst == 0, rule, w.name+" backoff calls on error", "%s tells the backoff about an empty or successful read after an error: %s", w.name, p.where)
				if cancelled {
					kinds["cancelled"]++
					c.ob(p.next == nil, rule, w.name+" cancelled", "%s continues after its context was cancelled: %s", w.name, p.where)
					c.ob(nErr == 0, rule, w.name+" cancelled backoff", "%s consults the backoff after its context was cancelled: %s", w.name, p.where)
					continue
				}
				kinds["error"]++
				if nErr != 1 {
					c.ob(false, rule, w.name+" OnErr", "%s calls OnErr %d times for one failed read: %s", w.name, nErr, p.where)
					continue
				}
				c.ob(eErr.args[1] == err, rule, w.name+" OnErr argument", "%s passes %s to OnErr instead of the read's error", w.name, eErr.args[1])
				b, ok := w.known(p.facts, eErr.res[0])
				c.ob(ok && b == (p.next != nil), rule, w.name+" OnErr decision", "%s does not follow the backoff's decision after an error (continues: %v): %s", w.name, p.next != nil, p.where)
			case 1:
				c.ob(nErr == 0, rule, w.name+" OnErr without error", "%s reports an error to the backoff after a successful read: %s", w.name, p.where)
				if nv == 0 {
					kinds["empty"]++
					if nEmp != 1 {
						c.ob(false, rule, w.name+" OnEmpty", "%s calls OnEmpty %d times for one empty read: %s", w.name, nEmp, p.where)
						continue
					}
					c.ob(nRst == 0, rule, w.name+" Reset on empty", "%s resets the backoff after an empty read: %s", w.name, p.where)
					b, ok := w.known(p.facts, eEmp.res[0])
					c.ob(ok && b == (p.next != nil), rule, w.name+" OnEmpty decision", "%s does not follow the backoff's decision after an empty read (continues: %v): %s", w.name, p.next != nil, p.where)
					continue
				}
				kinds["delivered"]++
				c.ob(nEmp == 0, rule, w.name+" OnEmpty with data", "%s reports an empty read to the backoff although it delivered a batch: %s", w.name, p.where)
				c.ob(nRst == 1, rule, w.name+" Reset", "%s calls Reset %d times after a delivered batch: %s", w.name, nRst, p.where)
				_ = eRst
				b, ok := w.known(p.facts, v.res[0])
				if !ok {
					c.ob(false, rule, w.name+" visitor result", "%s ignores the visitor's answer: %s", w.name, p.where)
					continue
				}
				if !b {
					c.ob(p.next == nil, rule, w.name+" visitor stop", "%s continues although the visitor asked to stop: %s", w.name, p.where)
					continue
				}
				if !withEnd {
					c.ob(p.next != nil, rule, w.name+" continues", "%s stops although the visitor asked for more: %s", w.name, p.where)
					continue
				}
				// last+1 >= end  <=>  stop
				reached := 0
				for _, ts := range w.lastStamps(p.facts, v.args[1]) {
					next := T.plus(ts, 1, ts.typ)
					g := p.facts.clone()
					if g.entLE(w.nano(w.end), next, 0) {
						reached = 1
					} else if g.entLE(next, w.nano(w.end), -1) {
						reached = -1
					}
				}
				switch reached {
				case 0:
					c.ob(false, rule, w.name+" end check", "%s does not compare the next start with the end time after a delivered batch: %s", w.name, p.where)
				case 1:
					c.ob(p.next == nil, rule, w.name+" end reached", "%s continues although the next start is at or past the end: %s", w.name, p.where)
				case -1:
					c.ob(p.next != nil, rule, w.name+" end not reached", "%s stops before reaching its end time: %s", w.name, p.where)
				}
			}
		}
		for _, k := range []string{"cancelled", "error", "empty", "delivered"} {
			c.need(kinds[k], 1, rule, w.name+" "+k+" passes")
		}
	}
}

// lastStamps: terms on the path that denote the last timestamp of s.
func (w *walkScn) lastStamps(f *Facts, s *Term) []*Term {
	x := w.x
	T := x.T
	var out []*Term
	for a := range f.atoms {
		a.any(func(t *Term) bool {
			sl, ix, ok := tsElem(t)
			if !ok {
				return false
			}
			s := x.flatSlice(s)
			last := T.plus(T.Len(s), -1, types.Typ[types.Int])
			if s.op == "slice" && s.args[0] == sl && s.args[1].IsNil() {
				bb, kk := T.linear(s.args[2])
				last = T.plus(bb, kk-1, types.Typ[types.Int])
			} else if sl != s {
				return false
			}
			g := f.clone()
			if g.entLE(ix, last, 0) && g.entLE(last, ix, 0) {
				out = append(out, t)
			}
			return false
		})
	}
	return out
}

// flatSlice: a prefix of a prefix is a prefix of the base.
func (x *X) flatSlice(t *Term) *Term {
	for t.op == "slice" && t.args[1].IsNil() && t.args[0].op == "slice" && t.args[0].args[1].IsNil() && !t.args[2].IsNil() {
		t = x.T.mk("slice", "", t.typ, t.args[0].args[0], t.args[1], t.args[2])
	}
	return t
}
