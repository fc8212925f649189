package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "Envelopes are sent to exactly the nodes that own their source",
		"Path-partitioned dataflow over the routing table and the ingress proxy for arbitrary tables, range sets, node lists and batches: set-of-ranges and lookup are compared with inclusive-interval membership per abstract iteration, and every abstract path of Send with the per-node batches it must forward.", checkC35)
	register("C36", "Reads and meta requests are answered by nodes that have the data",
		"Path-partitioned dataflow over the egress proxy: for every abstract path of Read and Meta, which node is asked with which request, what is returned, and what the meta caches hold, for how long, and when they are written.", checkC36)
	register("C37", "A node routes by exactly the ranges it was given, whole at a time",
		"Path-partitioned dataflow over the orchestration operations for an arbitrary list of ranges; lockset dataflow over every operation of the agent and the routing table; def-use query for atomically accessed fields.", checkC37)
}

const (
	routePkg = modPath + "/internal/routing"
	rpcPkg   = modPath + "/pkg/rpc/logcache_v1"
)

// fieldWhere names the only field of t whose type ok accepts.
func (x *X) fieldWhere(t types.Type, what string, ok func(types.Type) bool) string {
	st := structOf(t)
	name := ""
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			if name != "" {
				x.giveUp("%s has several fields that could be %s", t, what)
			}
			name = st.Field(i).Name()
		}
	}
	if name == "" {
		x.giveUp("%s has no field that could be %s", t, what)
	}
	return name
}

// fieldT is the value of that field.
func (x *X) fieldT(m *Mem, base *Term, t types.Type, what string, ok func(types.Type) bool) *Term {
	return x.LoadField(m, base, t, x.fieldWhere(t, what, ok))
}

func isSliceOf(ok func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		s, is := t.Underlying().(*types.Slice)
		return is && ok(s.Elem())
	}
}

func isNamedT(path, name string) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
	}
}

func isPtrTo(path, name string) func(types.Type) bool {
	return func(t types.Type) bool { return isNamedPtr(t, path, name) }
}

func isPlainInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func isFuncT(sig string) func(types.Type) bool {
	return func(t types.Type) bool { return t.Underlying().String() == sig }
}

func isMapT(key, elem func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && key(m.Key()) && elem(m.Elem())
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// loopsIn lists the loops among evs, outermost only.
func loopsIn(evs []*Event) []*LoopInfo {
	var r []*LoopInfo
	for _, e := range evs {
		if e.kind == EvLoop {
			r = append(r, e.loop)
		}
	}
	return r
}

// exitsOf lists the exit events of l, wherever they are.
func exitsOf(outs []*Outcome, l *LoopInfo) []*Event {
	var r []*Event
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvLoopExit && e.loop == l {
				r = append(r, e)
			}
		})
	}
	return r
}

// overMap: l visits every entry of one map; key and value terms of an
// iteration come from mapEntry.
func (x *X) overMap(l *LoopInfo, m *Term, exits []*Event) string {
	has := func(f *Facts, want bool) bool {
		ok := false
		f.each(func(t *Term, v bool) {
			if t.op == "rangeok" && t.args[0] == m && v == want {
				ok = true
			}
		})
		return ok
	}
	if len(l.iters) == 0 {
		return "a loop over " + m.String() + " that never goes round"
	}
	for _, it := range l.iters {
		if !has(it.facts, true) {
			return "a loop that does not visit " + m.String()
		}
	}
	n := 0
	for _, e := range exits {
		if e.loop != l {
			continue
		}
		n++
		if !has(e.facts, false) {
			return "the loop can end before every entry of " + m.String() + " was visited"
		}
	}
	if n == 0 {
		return "a loop that never ends"
	}
	return ""
}

// isKeyOf: t is the key of the entry of m that the iteration visits.
func isKeyOf(t, m *Term) bool { return t != nil && t.op == "rangekey" && t.args[0] == m }

// isValOf: t is the value of that entry.
func isValOf(t, m *Term) bool {
	return t != nil && (t.op == "rangeval" && t.args[0] == m ||
		t.op == "lookup" && t.args[0] == m && isKeyOf(t.args[1], m))
}

// extCalls lists the calls of the repository's outside made in evs (not in
// loops below) that pick accepts.
func pick(evs []*Event, ok func(*Event) bool) []*Event {
	var r []*Event
	for _, e := range evs {
		if isExtCall(e) && ok(e) {
			r = append(r, e)
		}
	}
	return r
}

func dynCallOf(fv *Term) func(*Event) bool {
	return func(e *Event) bool { return e.name == "dynamic" && len(e.args) > 0 && e.args[0] == fv }
}

// ---------------------------------------------------------------- table

type tableScn struct {
	c     *C
	x     *X
	T     *Terms
	tT    types.Type
	t     *Term
	st    *State
	table string // field names
	addrs string
	hash  string
	elem  types.Type
}

func (c *C) newTable(x *X) *tableScn {
	s := &tableScn{c: c, x: x, T: x.T}
	s.tT = x.NamedType(routePkg, "RoutingTable")
	s.t = x.params(x.Fn("internal/routing", "*RoutingTable", "Lookup"))[0]
	s.st = x.newState()
	s.st.wfacts().Assume(x.T.Eq(s.t, x.T.Nil()), false)
	s.table = x.fieldWhere(s.tT, "the list of ranges", isSliceOf(func(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }))
	s.addrs = x.fieldWhere(s.tT, "the index of addresses", isMapT(isString, isPlainInt))
	s.hash = x.fieldWhere(s.tT, "the hash", isFuncT("func(string) uint64"))
	s.elem = elemTypeOf(x.LoadField(s.st.mem, s.t, s.tT, s.table).typ)
	s.st.wfacts().Assume(x.T.Eq(x.LoadField(s.st.mem, s.t, s.tT, s.hash), x.T.Nil()), false)
	return s
}

// part finds the value of the entry's field that ok accepts, however nested.
func (s *tableScn) part(m *Mem, addr *Term, t types.Type, ok func(*types.Var) bool) []*Term {
	st := structOf(t)
	if st == nil {
		return nil
	}
	var r []*Term
	for i := 0; i < st.NumFields(); i++ {
		fa := s.T.FieldAddr(addr, t, i)
		if ok(st.Field(i)) {
			r = append(r, s.x.loadMem(m, fa, st.Field(i).Type()))
		} else {
			r = append(r, s.part(m, fa, st.Field(i).Type(), ok)...)
		}
	}
	return r
}

func (s *tableScn) valPart(v *Term, ok func(*types.Var) bool) []*Term {
	st := structOf(v.typ)
	if st == nil {
		return nil
	}
	var r []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := s.x.valField(v, i)
		if ok(st.Field(i)) {
			r = append(r, f)
		} else if f != nil && structOf(st.Field(i).Type()) != nil {
			r = append(r, s.valPart(f, ok)...)
		}
	}
	return r
}

func isIdxVar(v *types.Var) bool   { return isPlainInt(v.Type()) }
func isStartVar(v *types.Var) bool { return strings.EqualFold(v.Name(), "start") }
func isEndVar(v *types.Var) bool   { return strings.EqualFold(v.Name(), "end") }

func one(ts []*Term) *Term {
	if len(ts) != 1 {
		return nil
	}
	return ts[0]
}

func (s *tableScn) lookup() {
	c, x, T := s.c, s.x, s.T
	const rule = "lookup"
	fn := x.Fn("internal/routing", "*RoutingTable", "Lookup")
	ps := x.params(fn)
	outs := c.rets(x, x.Root(fn, s.st.clone(), ps, nil), rule, "Lookup")
	c.noMay(x, outs, rule, "Lookup", hardMay...)
	exits := loopExits(outs)
	hf := x.LoadField(s.st.mem, s.t, s.tT, s.hash)
	for _, o := range outs {
		table := x.LoadField(o.St.mem, s.t, s.tT, s.table)
		path := func() string { return x.pathStr(o) }
		h := pick(o.evs, func(e *Event) bool { return dynCallOf(hf)(e) && len(e.args) == 2 && e.args[1] == ps[1] })
		if !c.ob(len(h) >= 1, rule, "hash", "the source ID is not hashed: %s", path()) {
			continue
		}
		res := o.Vals[0]
		if res.loop == nil {
			c.ob(false, rule, "result", "the result is %s, not what a loop over the table collects: %s", res, path())
			continue
		}
		cv, why := x.covers(res.loop, table, exits)
		if !c.ob(cv != nil, rule, "every range", "Lookup misses ranges: %s", why) {
			continue
		}
		in := x.initOf(res)
		c.ob(in != nil && (in.IsNil() || x.isEmptyFresh(in)), rule, "starts empty", "the result starts as %s", in)
		for _, it := range res.loop.iters {
			at := T.IndexAddr(table, cv.idx, s.elem)
			st, en, ix := one(s.part(it.mem, at, s.elem, isStartVar)), one(s.part(it.mem, at, s.elem, isEndVar)), one(s.part(it.mem, at, s.elem, isIdxVar))
			if st == nil || en == nil || ix == nil {
				x.giveUp("an entry of the routing table is no range with an index")
			}
			hv := h[0].res[0]
			nx := it.next[res]
			before, after := T.Lt(hv, st), T.Lt(en, hv)
			if nx == res {
				_, a := x.with(it.facts, before, false)
				ok := !a
				if a {
					g, _ := x.with(it.facts, before, false)
					_, b := x.with(g, after, false)
					ok = !b
				}
				c.ob(ok, rule, "ranges left out", "a range may be left out although the hash is in it (first and last hash of a range belong to it)")
				continue
			}
			if c.ob(nx.op == "append" && len(nx.args) == 2 && nx.args[0] == res && x.same(it.facts, nx.args[1], ix), rule, "index collected", "an iteration turns the result into %s, want the index of the range's node appended", nx) {
				c.ob(it.facts.Eval(before) == -1 && it.facts.Eval(after) == -1, rule, "ranges taken", "a range may be taken although the hash is outside of it")
			}
		}
	}
}

func (s *tableScn) setRanges() {
	c, x := s.c, s.x
	const rule = "set ranges"
	fn := x.Fn("internal/routing", "*RoutingTable", "SetRanges")
	ps := x.params(fn)
	ps[0] = s.t
	st := s.st.clone()
	st.wfacts().Assume(x.T.Eq(ps[2], x.T.Nil()), false)
	outs := c.rets(x, x.Root(fn, st, ps, nil), rule, "SetRanges")
	c.wireNil(x, outs, rule, "SetRanges", ps[2])
	c.noMay(x, outs, rule, "SetRanges", hardMay...)
	in := x.LoadField(st.mem, ps[2], derefType(ps[2].typ), "Ranges")
	addrs := x.LoadField(st.mem, s.t, s.tT, s.addrs)
	tableA := x.FieldNamed(s.t, s.tT, s.table)
	n := 0
	for _, o := range outs {
		path := func() string { return x.pathStr(o) }
		c.ob(o.Vals[1].IsNil(), rule, "no error", "SetRanges fails (%s): %s", o.Vals[1], path())
		c.ob(isFreshObj(o.Vals[0]), rule, "response", "SetRanges returns %s: %s", o.Vals[0], path())
		c.ob(x.LoadField(o.St.mem, s.t, s.tT, s.addrs) == addrs, rule, "addresses", "SetRanges changes the addresses: %s", path())
		at := o.St.mem
		for i, e := range o.evs {
			// sorting leaves the same ranges
			if isExtCall(e) && i > 0 && (strings.HasPrefix(e.name, "sort.") || strings.HasPrefix(e.name, "slices.Sort")) {
				at = o.evs[i-1].mem
				sorted := (*Term)(nil)
				if len(e.args) > 0 {
					sorted = stripConv(stripIface(e.args[0]))
				}
				if kept := x.loadMem(o.St.mem, tableA, derefType(tableA.typ)); sorted == kept {
					at = o.St.mem
				}
				c.ob(sorted == x.loadMem(at, tableA, derefType(tableA.typ)), rule, "sorted", "%s sorts %v: %s", e.name, e.args, path())
				if e.name == "sort.Sort" || e.name == "sort.Stable" {
					s.swaps(e.args[0])
				}
				break
			}
		}
		tb := x.loadMem(at, tableA, derefType(tableA.typ))
		if tb.loop == nil {
			c.ob(false, rule, "table", "the table becomes %s, want the given ranges: %s", tb, path())
			continue
		}
		if why := x.overMap(tb.loop, in, exitsOf(outs, tb.loop)); why != "" {
			c.ob(false, rule, "every node", "%s: %s", why, path())
			continue
		}
		ini := x.initOf(tb)
		c.ob(ini != nil && (ini.IsNil() || x.isEmptyFresh(ini) || x.emptied(ini)), rule, "replaces", "the new table starts with %s: earlier ranges stay: %s", ini, path())
		for _, it := range tb.loop.iters {
			nx := it.next[tb]
			known := false
			var has *Term
			it.facts.each(func(t *Term, v bool) {
				if t.op == "has" && t.args[0] == addrs && isKeyOf(t.args[1], in) {
					has, known = t, v
				}
			})
			if has == nil {
				c.ob(false, rule, "known node", "ranges are taken without looking their node up: unknown nodes get the ranges of node 0")
				continue
			}
			if !known {
				c.ob(nx == tb, rule, "unknown node", "the ranges of an unknown node are taken: %s", nx)
				continue
			}
			n++
			// the entry's ranges, in a loop below
			if !c.ob(nx.loop != nil && nx != tb, rule, "ranges of a node", "the ranges of a known node become %s", nx) {
				continue
			}
			if i := x.initOf(nx); !c.ob(i == tb, rule, "ranges added", "the ranges of a node replace those of others (start from %s)", i) {
				continue
			}
			var rs *Term
			for _, jt := range nx.loop.iters {
				walkTerm(jt.next[nx], func(q *Term) {
					if isNamedPtrSlice(q.typ, rpcPkg, "Range") && q.loop != nx.loop {
						rs = q
					}
				})
			}
			if !c.ob(rs != nil && derivesVal(rs, in), rule, "ranges of a node", "an iteration takes ranges that are not the entry's") {
				continue
			}
			cv, why := x.covers(nx.loop, rs, exitsOf(outs, nx.loop))
			if !c.ob(cv != nil, rule, "every range", "SetRanges misses ranges: %s", why) {
				continue
			}
			for _, jt := range nx.loop.iters {
				v := jt.next[nx]
				el := x.elemAt(jt.mem, rs, cv.idx)
				if jt.facts.Eval(x.T.Eq(el, x.T.Nil())) == 1 {
					continue // a missing range is none
				}
				if !c.ob(v.op == "append" && len(v.args) == 2 && v.args[0] == nx, rule, "range added", "an iteration turns the table into %s", v) {
					continue
				}
				e := v.args[1]
				want := func(ok func(*types.Var) bool, name string) bool {
					g := one(s.valPart(e, ok))
					return g != nil && x.same(jt.facts, g, x.LoadField(jt.mem, el, derefType(el.typ), name))
				}
				c.ob(want(isStartVar, "Start") && want(isEndVar, "End"), rule, "bounds", "the entry %s does not have the range's bounds", e)
				g := one(s.valPart(e, isIdxVar))
				c.ob(g != nil && g.op == "lookup" && g.args[0] == addrs && isKeyOf(g.args[1], in), rule, "node", "the entry %s does not have the index of its node's address", e)
			}
		}
	}
	c.need(n, 1, rule, "iterations over a known node")
	c.oneSection(x, outs, rule, "SetRanges")
}

// swaps: what is sorted by a sort.Interface has a length and a swap that keep
// its elements.
func (s *tableScn) swaps(v *Term) {
	c, x, T := s.c, s.x, s.T
	const rule = "sort interface"
	if v.op != "mkiface" {
		return
	}
	st := x.newState()
	l := x.symOf("list", v.args[0].typ)
	el := elemTypeOf(l.typ)
	if el == nil {
		x.giveUp("%s is sorted, which is no slice", v)
	}
	recv := T.mk("mkiface", v.sym, v.typ, l)
	i, j := x.symOf("i", types.Typ[types.Int]), x.symOf("j", types.Typ[types.Int])
	for _, o := range x.CallMethod(recv, "Len", nil, st.clone()) {
		c.ob(!o.Panic && o.Vals[0] == T.Len(l), rule, "length", "Len is %v", o.Vals)
	}
	a, b := T.IndexAddr(l, i, el), T.IndexAddr(l, j, el)
	va, vb := x.loadMem(st.mem, a, el), x.loadMem(st.mem, b, el)
	f := st.wfacts()
	f.Assume(T.Eq(i, j), false)
	for _, o := range x.CallMethod(recv, "Swap", []*Term{i, j}, st.clone()) {
		if o.Panic {
			continue
		}
		n := 0
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvStore && e.addr.op == "indexaddr" {
				n++
				c.ob(e.addr == a && x.same(o.St.facts, e.val, vb) || e.addr == b && x.same(o.St.facts, e.val, va), rule, "swap", "Swap sets %s to %s", e.addr, e.val)
			}
		})
		c.ob(n == 2, rule, "swap", "Swap sets %d elements", n)
	}
}

// wireNil reports dereferences of fields of requests that are missing when a
// caller leaves them out.
func (c *C) wireNil(x *X, outs []*Outcome, rule, what string, reqs ...*Term) {
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind != EvMay || e.name != "nil" && e.name != "unchecked" || e.val == nil {
				return
			}
			for _, r := range reqs {
				if e.val != r && isMsgField(e.val, r) && !x.hasElems(e) {
					c.ob(false, rule, what+" missing "+fieldName(e.val.args[0]), "%s dereferences %s, which a request may leave out, in %s", what, e.val, x.where(e))
				}
			}
		})
	}
	c.ob(true, rule, what+" missing fields", "")
}

// hasElems: the message e dereferences is known to hold a list with elements,
// so it is there.
func (x *X) hasElems(e *Event) bool {
	t := derefType(e.val.typ)
	st := structOf(t)
	if st == nil || e.facts == nil || e.mem == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if elemTypeOf(st.Field(i).Type()) == nil || isStringType(st.Field(i).Type()) {
			continue
		}
		l := x.T.Len(x.loadMem(e.mem, x.T.FieldAddr(e.val, t, i), st.Field(i).Type()))
		if e.facts.clone().entLE(x.T.Int(1), l, 0) {
			return true
		}
	}
	return false
}

// isMsgField: t is a singular field reached from message r.
func isMsgField(t, r *Term) bool {
	if t.op != "init" || t.args[0].op != "fieldaddr" {
		return false
	}
	b := t.args[0].args[0]
	return b == r || isMsgField(b, r)
}

// emptied: a slice cut down to length 0.
func (x *X) emptied(t *Term) bool {
	if t.op != "slice" || len(t.args) < 3 {
		return false
	}
	k, ok := t.args[2].IntVal()
	return ok && k == 0
}

func isNamedPtrSlice(t types.Type, path, name string) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamedPtr(s.Elem(), path, name)
}

// derivesVal: t is the value of the visited entry of m, or a field of it.
func derivesVal(t, m *Term) bool {
	ok := false
	walkTerm(t, func(q *Term) { ok = ok || isValOf(q, m) })
	return ok
}

// oneSection: the operation takes its lock no more than once, so that no other
// operation sees a half of it.
func (c *C) oneSection(x *X, outs []*Outcome, rule, what string) {
	for _, o := range outs {
		n := 0
		allEvents(o.evs, func(e *Event) {
			if isExtCall(e) && strings.HasPrefix(e.name, "(*sync.") && (strings.HasSuffix(e.name, ").Lock") || strings.HasSuffix(e.name, ").RLock")) {
				n++
			}
		})
		c.ob(n <= 1, rule, what+" one critical section", "%s takes its lock %d times, want at most one critical section: %s", what, n, x.pathStr(o))
	}
}

func (s *tableScn) construct() {
	c, x := s.c, s.x
	const rule = "construction"
	fn := x.Fn("internal/routing", "", "NewRoutingTable")
	ps := x.params(fn)
	outs := c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, "NewRoutingTable")
	exits := loopExits(outs)
	for _, o := range outs {
		t := o.Vals[0]
		if !c.ob(isFreshObj(t), rule, "table", "NewRoutingTable returns %s", t) {
			continue
		}
		c.ob(x.LoadField(o.St.mem, t, s.tT, s.hash) == ps[1], rule, "hash", "the table hashes with %s", x.LoadField(o.St.mem, t, s.tT, s.hash))
		tb := x.LoadField(o.St.mem, t, s.tT, s.table)
		c.ob(tb.IsNil() || x.isEmptyFresh(tb), rule, "empty", "a new table has ranges: %s", tb)
		m := x.LoadField(o.St.mem, t, s.tT, s.addrs)
		c.ob(m.op == "makemap", rule, "own index", "a new table keeps its addresses in %s, which another table may share", m)
		n := 0
		for _, l := range loopsIn(o.evs) {
			cv, why := x.covers(l, ps[0], exits)
			if cv == nil {
				c.ob(false, rule, "every address", "%s", why)
				continue
			}
			for _, it := range l.iters {
				k := 0
				for _, e := range it.events {
					if e.kind == EvMapUpdate && e.addr == m {
						k++
						c.ob(x.same(it.facts, e.args[1], x.elemAt(it.mem, ps[0], cv.idx)) && x.same(it.facts, e.val, cv.idx), rule, "index", "address %s gets index %s", e.args[1], e.val)
					}
				}
				c.ob(k == 1, rule, "index", "an address is put %d times", k)
				n++
			}
		}
		c.need(n, 1, rule, "addresses indexed")
	}
}

// ---------------------------------------------------------------- ingress

type proxyScn struct {
	c        *C
	x        *X
	T        *Terms
	pT       types.Type
	p        *Term
	st       *State
	clients  *Term
	localIdx *Term
	lookup   *Term
}

func (c *C) newProxy(x *X, typ, client, method string) *proxyScn {
	s := &proxyScn{c: c, x: x, T: x.T}
	s.pT = x.NamedType(routePkg, typ)
	s.p = x.params(x.Fn("internal/routing", "*"+typ, method))[0]
	s.st = x.newState()
	f := s.st.wfacts()
	f.Assume(x.T.Eq(s.p, x.T.Nil()), false)
	s.clients = x.fieldT(s.st.mem, s.p, s.pT, "the clients", isSliceOf(isNamedT(rpcPkg, client)))
	s.localIdx = x.fieldT(s.st.mem, s.p, s.pT, "the local index", func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int]) })
	s.lookup = x.fieldT(s.st.mem, s.p, s.pT, "the lookup", isFuncT("func(sourceID string) []int"))
	f.Assume(x.T.Eq(s.lookup, x.T.Nil()), false)
	return s
}

// nodeOf: the index of the client a call is made on.
func (s *proxyScn) nodeOf(e *Event) *Term {
	r := e.args[0]
	if r.op == "init" && r.args[0].op == "indexaddr" {
		r = r.args[0]
	}
	if (r.op == "indexaddr" || r.op == "index" || r.op == "elem") && r.args[0] == s.clients {
		return r.args[1]
	}
	return nil
}

func (s *proxyScn) wired(ctor string, rule string) {
	c, x := s.c, s.x
	fn := x.Fn("internal/routing", "", ctor)
	ps := x.params(fn)
	outs := c.rets(x, x.Root(fn, x.newState(), ps, nil), rule, ctor)
	for _, o := range outs {
		p := o.Vals[0]
		if !c.ob(isFreshObj(p), rule, ctor, "%s returns %s", ctor, p) {
			continue
		}
		get := func(what string, ok func(types.Type) bool) *Term {
			return x.firstSet(o, x.FieldNamed(p, s.pT, x.fieldWhere(s.pT, what, ok)))
		}
		find := func(ok func(types.Type) bool) *Term {
			for _, a := range ps {
				if ok(a.typ) {
					return a
				}
			}
			return nil
		}
		for _, w := range []struct {
			what string
			ok   func(types.Type) bool
		}{
			{"the clients", isSliceOf(func(t types.Type) bool { return types.Identical(t, elemTypeOf(s.clients.typ)) })},
			{"the local index", func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int]) }},
			{"the lookup", isFuncT("func(sourceID string) []int")},
		} {
			g := get(w.what, w.ok)
			c.ob(g == find(w.ok), rule, ctor+" "+w.what, "%s of a new proxy is %s", w.what, g)
		}
	}
}

// firstSet: what a constructor sets a field to, before it runs any option.
func (x *X) firstSet(o *Outcome, addr *Term) *Term {
	for _, e := range o.evs {
		if e.kind == EvStore && e.addr == addr {
			return e.val
		}
		if e.kind == EvLoop {
			break
		}
	}
	return x.T.Zero(derefType(addr.typ))
}

func (s *proxyScn) send() {
	c, x, T := s.c, s.x, s.T
	const rule = "forwarding"
	fn := x.Fn("internal/routing", "*IngressReverseProxy", "Send")
	ps := x.params(fn)
	ps[0] = s.p
	ctx, r := ps[1], ps[2]
	st := s.st.clone()
	st.wfacts().Assume(T.Eq(r, T.Nil()), false)
	rT := derefType(r.typ)
	local := x.LoadField(st.mem, r, rT, "LocalOnly")
	batchOf := x.LoadField(st.mem, r, rT, "Envelopes")
	batch := x.LoadField(st.mem, batchOf, derefType(batchOf.typ), "Batch")
	outs := c.rets(x, x.Root(fn, st, ps, nil), rule, "Send")
	c.wireNil(x, outs, rule, "Send", r)
	c.noMay(x, outs, rule, "Send", "typeassert", "nilmap", "slicebounds", "divzero")
	isSend := func(e *Event) bool { return methodIs(e, "Send") && isNamedT(rpcPkg, "IngressClient")(e.args[0].typ) }
	nLocal, nRouted := 0, 0
	for _, o := range outs {
		path := func() string { return x.pathStr(o) }
		f := o.St.facts
		if !c.ob(x.unchanged(o.St.mem, st.mem, r, rT), rule, "request", "the request is changed: %s", path()) {
			continue
		}
		var sends []*Event
		allEvents(o.evs, func(e *Event) {
			if isExtCall(e) && isSend(e) {
				sends = append(sends, e)
			}
		})
		switch f.Eval(local) {
		case 1:
			nLocal++
			ok := len(sends) == 1 && len(pick(o.evs, isSend)) == 1 && x.same(f, s.nodeOf(sends[0]), s.localIdx) && sends[0].args[1] == ctx && sends[0].args[2] == r
			if c.ob(ok, rule, "local only", "a request for this node only is not given to it, once and as it is: %s", path()) {
				c.ob(x.same(f, o.Vals[0], sends[0].res[0]) && x.same(f, o.Vals[1], sends[0].res[1]), rule, "local answer", "the answer is (%s, %s) instead of the local node's: %s", o.Vals[0], o.Vals[1], path())
			}
			continue
		case 0:
			c.ob(false, rule, "local only", "LocalOnly is not looked at: %s", path())
			continue
		}
		nRouted++
		c.ob(o.Vals[1].IsNil() && isFreshObj(o.Vals[0]), rule, "answer", "a routed request is answered with (%s, %s): %s", o.Vals[0], o.Vals[1], path())
		// the batches
		ls := loopsIn(o.evs)
		var group, out *LoopInfo
		var by *Term
		for _, l := range ls {
			cv, _ := x.covers(l, batch, exitsOf(outs, l))
			if cv == nil {
				continue
			}
			group = l
			by = s.grouped(outs, l, batch, cv)
		}
		if !c.ob(group != nil, rule, "every envelope", "no loop visits every envelope of the batch: %s", path()) || by == nil {
			continue
		}
		for i, l := range ls {
			has := false
			for _, it := range l.iters {
				for _, e := range it.events {
					has = has || isExtCall(e) && isSend(e)
				}
			}
			if has {
				c.ob(out == nil, rule, "sent once", "the batches are sent by several loops: %s", path())
				out = l
				for _, g := range ls[i:] {
					c.ob(g != group, rule, "complete batches", "batches are sent before all envelopes are in them: %s", path())
				}
			}
		}
		if !c.ob(out != nil, rule, "sent", "the batches are not sent: %s", path()) {
			continue
		}
		c.ob(len(pick(o.evs, isSend)) == 0, rule, "sent once", "something is sent besides the batches: %s", path())
		if why := x.overMap(out, by, exitsOf(outs, out)); why != "" {
			c.ob(false, rule, "every node", "%s: %s", why, path())
			continue
		}
		for _, it := range out.iters {
			es := pick(it.events, isSend)
			if !c.ob(len(es) == 1, rule, "one request per node", "a node gets %d requests: %s", len(es), path()) {
				continue
			}
			e := es[0]
			c.ob(isKeyOf(s.nodeOf(e), by), rule, "right node", "a batch is sent to %s: %s", e.args[0], path())
			c.ob(e.args[1] == ctx, rule, "context", "a batch is sent with context %s: %s", e.args[1], path())
			q := e.args[2]
			if !c.ob(isFreshObj(q), rule, "request per node", "a node is sent %s: %s", q, path()) {
				continue
			}
			v := x.LoadField(e.mem, q, rT, "LocalOnly")
			b, isB := v.BoolVal()
			c.ob(isB && b, rule, "not routed again", "a node may route the batch again (LocalOnly is %s): %s", v, path())
			eb := x.LoadField(e.mem, q, rT, "Envelopes")
			ok := isFreshObj(eb)
			if ok {
				ok = isValOf(x.LoadField(e.mem, eb, derefType(eb.typ), "Batch"), by)
			}
			c.ob(ok, rule, "batch", "a node is not sent the envelopes gathered for it: %s", path())
		}
	}
	c.need(nLocal, 1, rule, "paths for this node only")
	c.need(nRouted, 1, rule, "routed paths")
}

// grouped checks that l appends every envelope to the batch of every node the
// lookup names, and returns the map of batches.
func (s *proxyScn) grouped(outs []*Outcome, l *LoopInfo, batch *Term, cv *cover) *Term {
	c, x := s.c, s.x
	const rule = "grouping"
	var by *Term
	for _, it := range l.iters {
		env := x.elemAt(it.mem, batch, cv.idx)
		if it.facts.Eval(x.T.Eq(env, x.T.Nil())) == 1 && len(loopsIn(it.events)) == 0 {
			continue // no envelope
		}
		sid := x.LoadField(it.mem, env, derefType(env.typ), "SourceId")
		lk := pick(it.events, dynCallOf(s.lookup))
		if !c.ob(len(lk) == 1 && x.same(it.facts, lk[0].args[1], sid), rule, "lookup", "an envelope's source is not looked up, once") {
			return nil
		}
		nodes := lk[0].res[0]
		n := 0
		for _, k := range loopsIn(it.events) {
			kv, why := x.covers(k, nodes, exitsOf(outs, k))
			if !c.ob(kv != nil, rule, "every node", "an envelope may not reach all of its nodes: %s", why) {
				return nil
			}
			for _, jt := range k.iters {
				n++
				ups := 0
				for _, e := range jt.events {
					if e.kind != EvMapUpdate {
						continue
					}
					ups++
					if by == nil {
						by = e.addr
					}
					node := x.elemAt(jt.mem, nodes, kv.idx)
					v := e.val
					ok := e.addr == by && x.same(jt.facts, e.args[1], node) &&
						v.op == "append" && len(v.args) == 2 && x.same(jt.facts, v.args[1], env) &&
						v.args[0].op == "lookup" && v.args[0].args[0] == by && x.same(jt.facts, v.args[0].args[1], node)
					c.ob(ok, rule, "appended", "an envelope for node %s turns the batch of %s into %s", node, e.args[1], v)
				}
				c.ob(ups == 1, rule, "appended once", "an envelope is added to a node's batch %d times", ups)
			}
		}
		if !c.ob(n > 0, rule, "every node", "an envelope reaches no node") {
			return nil
		}
		for _, e := range it.events {
			if e.kind == EvMapUpdate {
				c.ob(false, rule, "nothing else", "the batches are changed outside of the loop over an envelope's nodes")
			}
		}
	}
	if by != nil {
		c.ob(by.op == "makemap", rule, "fresh batches", "envelopes are gathered in %s", by)
	}
	return by
}

// unchanged: the fields of the object p points to are as they were.
func (x *X) unchanged(now, was *Mem, p *Term, t types.Type) bool {
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		a := x.T.FieldAddr(p, t, i)
		if x.loadMem(now, a, st.Field(i).Type()) != x.loadMem(was, a, st.Field(i).Type()) {
			return false
		}
	}
	return true
}

func checkC35(c *C) {
	x := c.newX()
	t := c.newTable(x)
	t.construct()
	t.setRanges()
	t.lookup()
	x2 := c.newX()
	s := c.newProxy(x2, "IngressReverseProxy", "IngressClient", "Send")
	s.wired("NewIngressReverseProxy", "construction")
	s.send()
}

// ---------------------------------------------------------------- egress

func checkC36(c *C) {
	x := c.newX()
	s := c.newProxy(x, "EgressReverseProxy", "EgressClient", "Read")
	s.wired("NewEgressReverseProxy", "construction")
	s.read()
	s.meta()
	s.cacheTime()
}

func isClientCall(name string) func(*Event) bool {
	return func(e *Event) bool { return methodIs(e, name) && isNamedT(rpcPkg, "EgressClient")(e.args[0].typ) }
}

func (s *proxyScn) read() {
	c, x, T := s.c, s.x, s.T
	const rule = "read"
	fn := x.Fn("internal/routing", "*EgressReverseProxy", "Read")
	ps := x.params(fn)
	ps[0] = s.p
	ctx, in := ps[1], ps[2]
	st := s.st.clone()
	st.wfacts().Assume(T.Eq(in, T.Nil()), false)
	inT := derefType(in.typ)
	sid := x.LoadField(st.mem, in, inT, "SourceId")
	outs := c.rets(x, x.Root(fn, st, ps, nil), rule, "Read")
	c.wireNil(x, outs, rule, "Read", in)
	c.noMay(x, outs, rule, "Read", "typeassert", "nilmap", "slicebounds", "divzero")
	isRead := isClientCall("Read")
	nNone, nLocal, nRemote := 0, 0, 0
	for _, o := range outs {
		path := func() string { return x.pathStr(o) }
		f := o.St.facts
		c.ob(x.unchanged(o.St.mem, st.mem, in, inT), rule, "request", "the request is changed: %s", path())
		lk := pick(o.evs, dynCallOf(s.lookup))
		if !c.ob(len(lk) == 1 && x.same(f, lk[0].args[1], sid), rule, "lookup", "the source is not looked up, once: %s", path()) {
			continue
		}
		nodes := lk[0].res[0]
		var reads []*Event
		allEvents(o.evs, func(e *Event) {
			if isExtCall(e) && isRead(e) {
				reads = append(reads, e)
			}
		})
		if f.Eval(T.Eq(T.Len(nodes), T.Int(0))) == 1 {
			nNone++
			c.ob(len(reads) == 0 && o.Vals[0].IsNil() && x.isNil(f, o.Vals[1]) == -1, rule, "no route", "a source without a node is answered with (%s, %s), want an error: %s", o.Vals[0], o.Vals[1], path())
			continue
		}
		if !c.ob(len(reads) == 1 && len(pick(o.evs, isRead)) == 1, rule, "one node", "%d nodes are asked, want one: %s", len(reads), path()) {
			continue
		}
		e := reads[0]
		c.ob(e.args[1] == ctx && e.args[2] == in, rule, "as asked", "a node is asked (%s, %s), want the caller's context and request: %s", e.args[1], e.args[2], path())
		c.ob(x.same(f, o.Vals[0], e.res[0]) && x.same(f, o.Vals[1], e.res[1]), rule, "answer", "the answer is (%s, %s), want the node's: %s", o.Vals[0], o.Vals[1], path())
		node := s.nodeOf(e)
		if !c.ob(node != nil, rule, "node", "%s is asked: %s", e.args[0], path()) {
			continue
		}
		if x.same(f, node, s.localIdx) {
			// this node owns the source: one of the nodes equals it
			owns := false
			f.each(func(t *Term, v bool) {
				if v && t.op == "eq" {
					for i := 0; i < 2; i++ {
						if t.args[i] == s.localIdx && s.isElem(f, t.args[1-i], nodes) {
							owns = true
						}
					}
				}
			})
			if s.isElem(f, node, nodes) {
				owns = true
			}
			c.ob(owns, rule, "local owner", "this node is asked without being among the source's nodes: %s", path())
			nLocal++
			continue
		}
		nRemote++
		c.ob(s.isElem(f, node, nodes), rule, "owner", "node %s is asked, which need not be one of the source's nodes: %s", node, path())
		// this node is none of them
		none := false
		for _, l := range loopsIn(o.evs) {
			cv, _ := x.covers(l, nodes, exitsOf([]*Outcome{o}, l))
			if cv == nil {
				continue
			}
			none = true
			for _, it := range l.iters {
				if it.facts.Eval(T.Eq(x.elemAt(it.mem, nodes, cv.idx), s.localIdx)) != -1 {
					none = false
				}
			}
		}
		c.ob(none, rule, "local first", "another node may be asked although this one has the data: %s", path())
	}
	c.need(nNone, 1, rule, "paths without a route")
	c.need(nLocal, 1, rule, "paths answered here")
	c.need(nRemote, 1, rule, "paths answered elsewhere")
}

// isElem: t is an element of the non-empty slice sl.
func (s *proxyScn) isElem(f *Facts, t, sl *Term) bool {
	if t.op == "init" && t.args[0].op == "indexaddr" {
		t = t.args[0]
	}
	if !(t.op == "indexaddr" || t.op == "index" || t.op == "elem") || t.args[0] != sl {
		return false
	}
	k := t.args[1]
	if k.op == "ret" && k.ev != nil && (k.ev.name == "math/rand.Intn" || strings.HasSuffix(k.ev.name, "rand.Rand).Intn")) && k.ev.args[len(k.ev.args)-1] == s.T.Len(sl) {
		return true
	}
	g := f.clone()
	return g.entLE(s.T.Int(0), k, 0) && g.entLE(k, s.T.Len(sl), -1)
}

// ---------------------------------------------------------------- meta

func atomicCache(e *Event) (field, op string) {
	if !isExtCall(e) || len(e.args) == 0 {
		return "", ""
	}
	switch e.name {
	case "sync/atomic.LoadPointer":
		op = "load"
	case "sync/atomic.StorePointer":
		op = "store"
	default:
		return "", ""
	}
	if a := e.args[0]; a.op == "fieldaddr" {
		return fieldName(a), op
	}
	return "", ""
}

// cacheOf: the struct type of the caches, found by its response.
func (s *proxyScn) cacheType() (types.Type, string, string, string) {
	x := s.x
	for _, m := range sortedMembers(x.pkgs[routePkg]) {
		tn, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		resp, ts, dur := "", "", ""
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			switch {
			case isNamedPtr(ft, rpcPkg, "MetaResponse"):
				resp = st.Field(i).Name()
			case isNamedT("time", "Time")(ft):
				ts = st.Field(i).Name()
			case isNamedT("time", "Duration")(ft):
				dur = st.Field(i).Name()
			}
		}
		if resp != "" && ts != "" {
			return tn.Type(), resp, ts, dur
		}
	}
	x.giveUp("no type of package routing caches a meta response")
	return nil, "", "", ""
}

func (s *proxyScn) meta() {
	c, x, T := s.c, s.x, s.T
	const rule = "meta"
	fn := x.Fn("internal/routing", "*EgressReverseProxy", "Meta")
	ps := x.params(fn)
	ps[0] = s.p
	ctx, in := ps[1], ps[2]
	st := s.st.clone()
	st.wfacts().Assume(T.Eq(in, T.Nil()), false)
	inT := derefType(in.typ)
	local := x.LoadField(st.mem, in, inT, "LocalOnly")
	dur := x.fieldT(st.mem, s.p, s.pT, "the cache duration", isNamedT("time", "Duration"))
	cT, respF, tsF, durF := s.cacheType()
	outs := c.rets(x, x.Root(fn, st, ps, nil), rule, "Meta")
	c.wireNil(x, outs, rule, "Meta", in)
	c.noMay(x, outs, rule, "Meta", "typeassert", "nilmap", "slicebounds", "divzero")
	isMeta := isClientCall("Meta")
	fields := map[string]map[int]bool{} // cache field -> local/remote use
	counts := map[string]int{}
	for _, o := range outs {
		path := func() string { return x.pathStr(o) }
		f := o.St.facts
		lv := f.Eval(local)
		if !c.ob(lv != 0, rule, "local only", "LocalOnly is not looked at: %s", path()) {
			continue
		}
		var asks, stores []*Event
		var cached *Term
		allEvents(o.evs, func(e *Event) {
			if isExtCall(e) && isMeta(e) {
				asks = append(asks, e)
			}
			fd, op := atomicCache(e)
			if op == "" {
				return
			}
			if fields[fd] == nil {
				fields[fd] = map[int]bool{}
			}
			fields[fd][lv] = true
			if op == "store" {
				stores = append(stores, e)
			} else {
				cached = e.res[0]
			}
		})
		if len(asks) == 0 {
			// from the cache
			counts["cached"]++
			ok := false
			if cached != nil && o.Vals[1].IsNil() {
				ok = s.fresh(o, cached, cT, respF, tsF, durF, dur)
			}
			c.ob(ok && len(stores) == 0, rule, "cached answer", "no node is asked, and the answer (%s, %s) need not be a cached one that is not older than the cache duration: %s", o.Vals[0], o.Vals[1], path())
			continue
		}
		var answer *Term
		failed := x.isNil(f, o.Vals[1]) == -1
		if lv == 1 {
			ok := len(asks) == 1 && x.same(f, s.nodeOf(asks[0]), s.localIdx) && asks[0].args[1] == ctx && s.localReq(asks[0], in, inT)
			if !c.ob(ok, rule, "this node", "a request for this node's meta is not answered by asking this node once, for its own: %s", path()) {
				continue
			}
			counts["local"]++
			e := asks[0]
			ev := x.isNil(f, e.res[1])
			if !c.ob(ev != 0, rule, "failure seen", "the failure of the local node is not looked at: %s", path()) {
				continue
			}
			c.ob(failed == (ev == -1), rule, "local failure", "the local node's error becomes %s: %s", o.Vals[1], path())
			answer = e.res[0]
		} else {
			counts["remote"]++
			answer = s.gathered(outs, o, ctx, inT, failed, path)
			if answer == nil {
				continue
			}
		}
		if failed {
			c.ob(len(stores) == 0, rule, "failures not cached", "a failure changes the cache: %s", path())
			c.ob(o.Vals[0].IsNil(), rule, "failure", "a failure comes with %s: %s", o.Vals[0], path())
			counts["failed"]++
			continue
		}
		c.ob(x.same(f, o.Vals[0], answer) && o.Vals[1].IsNil(), rule, "answer", "the answer is (%s, %s), want what was gathered: %s", o.Vals[0], o.Vals[1], path())
		for _, e := range stores {
			k := stripConv(e.args[1])
			if !c.ob(isFreshObj(k), rule, "cache entry", "the cache becomes %s: %s", e.args[1], path()) {
				continue
			}
			ld := func(n string) *Term { return x.LoadField(o.St.mem, k, cT, n) }
			c.ob(x.same(f, ld(respF), answer), rule, "cached response", "the cache gets %s, want the answer: %s", ld(respF), path())
			ts := ld(tsF)
			c.ob(ts.op == "ret" && ts.ev != nil && ts.ev.name == "time.Now", rule, "cached at", "the cache entry's time is %s: %s", ts, path())
			if durF != "" {
				c.ob(ld(durF) == dur, rule, "cached for", "the cache entry lives %s: %s", ld(durF), path())
			}
		}
	}
	for fd, u := range fields {
		c.ob(!(u[-1] && u[1]), rule, "caches apart", "the answers for this node and for all nodes share the cache %s", fd)
	}
	for _, k := range []string{"local", "remote", "failed"} {
		c.need(counts[k], 1, rule, k+" paths")
	}
}

// localReq: the request asks a node for its own meta.
func (s *proxyScn) localReq(e *Event, in *Term, inT types.Type) bool {
	r := e.args[2]
	if r == in {
		return true // of a request that is local only
	}
	if !isFreshObj(r) {
		return false
	}
	b, ok := s.x.LoadField(e.mem, r, inT, "LocalOnly").BoolVal()
	return ok && b
}

// fresh: the answer is the cached response, which is not older than allowed.
func (s *proxyScn) fresh(o *Outcome, cached *Term, cT types.Type, respF, tsF, durF string, dur *Term) bool {
	x, T := s.x, s.T
	f := o.St.facts
	k := o.Vals[0]
	if k.op == "init" {
		k = k.args[0]
	}
	if k.op != "fieldaddr" || fieldName(k) != respF || stripConv(k.args[0]) != cached {
		return false
	}
	ent := k.args[0]
	if f.Eval(T.Eq(ent, T.Nil())) != -1 {
		return false
	}
	ts := x.LoadField(o.St.mem, ent, cT, tsF)
	life := dur
	if durF != "" {
		life = x.LoadField(o.St.mem, ent, cT, durF)
	}
	isNow := func(t *Term) bool { return t.op == "ret" && strings.HasPrefix(t.sym, "time.Now") }
	ok := false
	f.each(func(t *Term, v bool) {
		if t.op == "pure" && t.sym == "Before" && len(t.args) == 2 {
			a, b := t.args[0], t.args[1]
			exp := func(q *Term) bool {
				return q.op == "pure" && q.sym == "(time.Time).Add" && q.args[0] == ts && (q.args[1] == life || q.args[1] == dur)
			}
			if exp(a) && isNow(b) && !v || isNow(a) && exp(b) && v {
				ok = true
			}
		}
		// time.Since(ts) < life
		if t.op == "lt" {
			age := func(q *Term) bool {
				return q.op == "pure" && (strings.HasSuffix(q.sym, "Sub") && len(q.args) == 2 && isNow(q.args[0]) && q.args[1] == ts)
			}
			since := func(q *Term) bool {
				return q.op == "ret" && q.ev != nil && q.ev.name == "time.Since" && q.ev.args[0] == ts || age(q)
			}
			if since(t.args[0]) && (t.args[1] == life || t.args[1] == dur) && v || since(t.args[1]) && (t.args[0] == life || t.args[0] == dur) && !v {
				ok = true
			}
		}
	})
	return ok
}

// gathered checks the loop that asks every node and returns the answer it
// builds, or nil when it reported why not.
func (s *proxyScn) gathered(outs []*Outcome, o *Outcome, ctx *Term, inT types.Type, failed bool, path func() string) *Term {
	c, x, T := s.c, s.x, s.T
	const rule = "all nodes"
	isMeta := isClientCall("Meta")
	var loop *LoopInfo
	for _, l := range loopsIn(o.evs) {
		for _, it := range l.iters {
			if len(pick(it.events, isMeta)) > 0 {
				if loop != nil && loop != l {
					c.ob(false, rule, "asked once", "the nodes are asked by several loops: %s", path())
					return nil
				}
				loop = l
			}
		}
	}
	if !c.ob(loop != nil && len(pick(o.evs, isMeta)) == 0, rule, "every node asked", "not every node is asked once: %s", path()) {
		return nil
	}
	cv, why := x.covers(loop, s.clients, exitsOf(outs, loop))
	if !c.ob(cv != nil, rule, "every node asked", "%s: %s", why, path()) {
		return nil
	}
	var into *Term
	type res struct {
		it *IterPath
		ok bool
	}
	var rs []res
	for _, it := range loop.iters {
		es := pick(it.events, isMeta)
		if !c.ob(len(es) == 1, rule, "every node asked", "a node is asked %d times: %s", len(es), path()) {
			return nil
		}
		e := es[0]
		c.ob(x.same(it.facts, s.nodeOf(e), cv.idx), rule, "node", "%s is asked instead of the node at hand: %s", e.args[0], path())
		c.ob(e.args[1] == ctx, rule, "context", "a node is asked with context %s: %s", e.args[1], path())
		b := false
		if isFreshObj(e.args[2]) {
			v, ok := x.LoadField(e.mem, e.args[2], inT, "LocalOnly").BoolVal()
			b = ok && v
		}
		c.ob(b, rule, "own meta only", "a node is asked for more than its own meta, so that nodes ask each other without end: %s", path())
		bad := x.isNil(it.facts, e.res[1])
		if !c.ob(bad != 0, rule, "failure seen", "the failure of a node is not looked at: %s", path()) {
			return nil
		}
		rs = append(rs, res{it, bad == 1})
		ups := 0
		for _, q := range it.events {
			if q.kind == EvMapUpdate {
				c.ob(false, rule, "merge", "the answer gets %s outside of the loop over a node's meta: %s", q.val, path())
			}
		}
		for _, l := range loopsIn(it.events) {
			src := x.LoadField(it.mem, e.res[0], derefType(e.res[0].typ), "Meta")
			if bad != 1 {
				c.ob(false, rule, "merge", "the meta of a failing node is merged: %s", path())
				continue
			}
			if why := x.overMap(l, src, exitsOf(outs, l)); why != "" {
				c.ob(false, rule, "merge", "%s: %s", why, path())
				continue
			}
			for _, jt := range l.iters {
				n := 0
				for _, q := range jt.events {
					if q.kind == EvMapUpdate {
						n++
						ups++
						if into == nil {
							into = q.addr
						}
						c.ob(q.addr == into && isKeyOf(q.args[1], src) && isValOf(q.val, src), rule, "merge", "the answer gets %s for %s: %s", q.val, q.args[1], path())
					}
				}
				c.ob(n == 1, rule, "merge", "an entry of a node's meta is merged %d times: %s", n, path())
			}
		}
		if bad == 1 {
			c.ob(ups > 0, rule, "merge", "the meta of a node is not merged: %s", path())
		}
	}
	// failed iff all failed: found through what the iterations count
	verdict := ""
	f := o.St.facts
	n := T.Len(s.clients)
	for sym := range rs[0].it.next {
		inc := func(want bool) bool {
			for _, r := range rs {
				nx := r.it.next[sym]
				if r.ok == want {
					if isIntType(sym.typ) && nx != T.plus(sym, 1, sym.typ) {
						return false
					}
					if _, sl := sym.typ.Underlying().(*types.Slice); sl && !(nx.op == "append" && len(nx.args) == 2 && nx.args[0] == sym) {
						return false
					}
				} else if nx != sym {
					return false
				}
			}
			return true
		}
		in := x.initOf(sym)
		if in == nil {
			continue
		}
		q := sym
		_, isSl := sym.typ.Underlying().(*types.Slice)
		switch {
		case isSl:
			if !(in.IsNil() || x.isEmptyFresh(in)) {
				continue
			}
			q = T.Len(sym)
		case isIntType(sym.typ):
			if k, ok := in.IntVal(); !ok || k != 0 {
				continue
			}
		default:
			if b, ok := in.BoolVal(); ok {
				// a flag
				good := true
				for _, r := range rs {
					nx := r.it.next[sym]
					if r.ok {
						v, k := nx.BoolVal()
						good = good && k && v != b
					} else {
						good = good && nx == sym
					}
				}
				if good {
					all := T.Eq(sym, T.Bool(b))
					v := f.Eval(sym)
					_ = all
					if v != 0 {
						verdict = map[bool]string{true: "all", false: "some"}[(v == 1) == b]
					}
				}
			}
			continue
		}
		var ev int
		switch {
		case inc(false):
			ev = f.Eval(T.Eq(q, n)) // failures
			if ev == 0 && f.clone().entLE(n, q, 0) {
				ev = 1
			}
			if ev == 0 && f.clone().entLE(q, n, -1) {
				ev = -1
			}
		case inc(true):
			ev = f.Eval(T.Eq(q, T.Int(0))) // successes
			if ev == 0 && f.clone().entLE(T.Int(1), q, 0) {
				ev = -1
			}
		default:
			continue
		}
		if ev != 0 {
			verdict = map[int]string{1: "all", -1: "some"}[ev]
		}
	}
	if !c.ob(verdict != "", rule, "all failed", "nothing tells whether every node failed: %s", path()) {
		return nil
	}
	c.ob((verdict == "all") == failed, rule, "all failed", "Meta fails: %v, while the nodes that failed are: %s: %s", failed, verdict, path())
	if failed {
		return T.Nil()
	}
	if !c.ob(into != nil && into.op == "makemap", rule, "answer", "the meta of the nodes is gathered in %s: %s", into, path()) {
		return nil
	}
	a := o.Vals[0]
	ok := isFreshObj(a)
	if ok {
		ok = x.LoadField(o.St.mem, a, derefType(a.typ), "Meta") == into
	}
	c.ob(ok, rule, "answer", "the answer is not what was gathered: %s", path())
	// nobody changes it once it is published
	seen := false
	for _, e := range o.evs {
		if _, op := atomicCache(e); op == "store" {
			seen = true
		}
		if seen {
			allEvents([]*Event{e}, func(q *Event) {
				c.ob(q.kind != EvMapUpdate, rule, "published", "the answer is changed after it was cached: %s", path())
			})
		}
	}
	return a
}

// cacheTime: the default, and the option.
func (s *proxyScn) cacheTime() {
	c, x := s.c, s.x
	const rule = "cache duration"
	fd := x.fieldWhere(s.pT, "the cache duration", isNamedT("time", "Duration"))
	fn := x.Fn("internal/routing", "", "NewEgressReverseProxy")
	outs := c.rets(x, x.Root(fn, x.newState(), x.params(fn), nil), rule, "NewEgressReverseProxy")
	for _, o := range outs {
		v := x.firstSet(o, x.FieldNamed(o.Vals[0], s.pT, fd))
		n, ok := v.IntVal()
		c.ob(ok && n >= 0, rule, "default", "meta is cached for %s by default", v)
	}
	op := x.Fn("internal/routing", "", "WithMetaCacheDuration")
	ps := x.params(op)
	f := x.single(x.Root(op, s.st.clone(), ps, nil), "WithMetaCacheDuration")
	o := x.single(x.CallTerm(f.Vals[0], []*Term{s.p}, f.St.clone()), "the option")
	c.ob(x.LoadField(o.St.mem, s.p, s.pT, fd) == ps[0], rule, "option", "WithMetaCacheDuration sets %s", x.LoadField(o.St.mem, s.p, s.pT, fd))
}

// ---------------------------------------------------------------- ranges

func checkC37(c *C) {
	x := c.newX()
	c.agent(x)
	y := c.newX()
	const rule = "locks"
	l := c.newLockScan(y, rule, y.NamedType(routePkg, "OrchestratorAgent"), y.NamedType(routePkg, "RoutingTable"))
	n := 0
	for _, name := range []string{"OrchestratorAgent", "RoutingTable"} {
		n += c.lockOps(y, l, y.NamedType(routePkg, name))
	}
	l.verdict()
	c.need(n, 6, rule, "operations")
	c.need(l.nLocks, 6, rule, "acquisitions")
	z := c.newX()
	l2 := c.newLockScan(z, "proxies", z.NamedType(routePkg, "IngressReverseProxy"), z.NamedType(routePkg, "EgressReverseProxy"))
	c.lockOps(z, l2, z.NamedType(routePkg, "IngressReverseProxy"))
	c.lockOps(z, l2, z.NamedType(routePkg, "EgressReverseProxy"))
	l2.verdict()
	c.atomicFields(y, "atomic fields")
}

// lockOps scans every exported method of *t.
func (c *C) lockOps(x *X, l *lockScan, t types.Type) int {
	n := 0
	ms := x.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		f := x.prog.MethodValue(ms.At(i))
		if f == nil || f.Synthetic != "" {
			continue
		}
		n++
		ps := x.params(f)
		st := x.newState()
		for _, p := range ps {
			if isPtr(p.typ) {
				st.wfacts().Assume(x.T.Eq(p, x.T.Nil()), false)
			}
		}
		l.outcomes(shortFn(f), x.Root(f, st, ps, nil))
	}
	return n
}

func (c *C) agent(x *X) {
	T := x.T
	aT := x.NamedType(routePkg, "OrchestratorAgent")
	rangesF := x.fieldWhere(aT, "the ranges", isSliceOf(isPtrTo(rpcPkg, "Range")))
	setF := x.fieldWhere(aT, "the range setter", isNamedT(routePkg, "RangeSetter"))
	run := func(name string) (ps []*Term, st *State, outs []*Outcome) {
		fn := x.Fn("internal/routing", "*OrchestratorAgent", name)
		ps = x.params(fn)
		st = x.newState()
		for _, p := range []*Term{ps[0], ps[2]} {
			st.wfacts().Assume(T.Eq(p, T.Nil()), false)
		}
		outs = c.rets(x, x.Root(fn, st, ps, nil), name, name)
		c.wireNil(x, outs, name, name, ps[2])
		c.noMay(x, outs, name, name, hardMay...)
		return
	}
	old := func(st *State, o *Term) *Term { return x.LoadField(st.mem, o, aT, rangesF) }
	good := func(o *Outcome, rule string) bool {
		return c.ob(o.Vals[1].IsNil() && isFreshObj(o.Vals[0]), rule, "answer", "%s is answered with (%s, %s): %s", rule, o.Vals[0], o.Vals[1], x.pathStr(o))
	}
	// add
	ps, st, outs := run("AddRange")
	rg := x.LoadField(st.mem, ps[2], derefType(ps[2].typ), "Range")
	n := 0
	for _, o := range outs {
		f := o.St.facts
		was, now := old(st, ps[0]), old(o.St, ps[0])
		switch f.Eval(T.Eq(rg, T.Nil())) {
		case 1:
			c.ob(now == was && x.isNil(f, o.Vals[1]) == -1, "AddRange", "missing range", "a request without a range is answered with %s and leaves %s: %s", o.Vals[1], now, x.pathStr(o))
		case -1:
			n++
			good(o, "AddRange")
			ok := now.op == "append" && len(now.args) == 2 && now.args[0] == was && now.args[1] == rg
			c.ob(ok, "AddRange", "added", "the ranges become %s, want the given one added: %s", now, x.pathStr(o))
		default:
			c.ob(false, "AddRange", "missing range", "a missing range is not noticed, and makes the other operations panic: %s", x.pathStr(o))
		}
	}
	c.need(n, 1, "AddRange", "paths that add")
	c.oneSection(x, outs, "AddRange", "AddRange")
	// remove
	ps, st, outs = run("RemoveRange")
	was := old(st, ps[0])
	rT := derefType(elemTypeOf(was.typ))
	reqR := x.LoadField(st.mem, ps[2], derefType(ps[2].typ), "Range")
	g := func(name string) *Term {
		return x.LoadField(st.mem, reqR, rT, name)
	}
	start, end := g("Start"), g("End")
	exits := loopExits(outs)
	nDel, nKeep := 0, 0
	for _, o := range outs {
		const rule = "RemoveRange"
		path := func() string { return x.pathStr(o) }
		good(o, rule)
		now := old(o.St, ps[0])
		if now == was {
			nKeep++
			found := false
			for _, l := range loopsIn(o.evs) {
				cv, _ := x.covers(l, was, exitsOf([]*Outcome{o}, l))
				if cv == nil {
					continue
				}
				found = true
				for _, it := range l.iters {
					el := x.elemAt(it.mem, was, cv.idx)
					a, b := T.Eq(x.LoadField(it.mem, el, rT, "Start"), start), T.Eq(x.LoadField(it.mem, el, rT, "End"), end)
					c.ob(it.facts.Eval(a) == -1 || it.facts.Eval(b) == -1, rule, "kept", "a range that equals the given one may be kept")
				}
			}
			c.ob(found, rule, "kept", "nothing is removed without looking at every range: %s", path())
			continue
		}
		nDel++
		var idx *Term
		if now.op == "appendall" && len(now.args) == 2 && now.args[0].op == "slice" && now.args[1].op == "slice" && now.args[0].args[0] == was && now.args[1].args[0] == was {
			lo, hi := now.args[0], now.args[1]
			zero := lo.args[1].IsNil()
			if k, ok := lo.args[1].IntVal(); ok && k == 0 {
				zero = true
			}
			full := hi.args[2].IsNil() || hi.args[2] == T.Len(was)
			if zero && full && hi.args[1] == T.BinOp(token.ADD, lo.args[2], T.Int(1), lo.args[2].typ, lo.args[2].typ) {
				idx = lo.args[2]
			}
		}
		if !c.ob(idx != nil, rule, "removed", "the ranges become %s, want them without one: %s", now, path()) {
			continue
		}
		el := x.elemAt(st.mem, was, idx)
		c.ob(o.St.facts.Eval(T.Eq(x.LoadField(st.mem, el, rT, "Start"), start)) == 1 && o.St.facts.Eval(T.Eq(x.LoadField(st.mem, el, rT, "End"), end)) == 1, rule, "removed", "a range is removed that need not be the given one: %s", path())
	}
	_ = exits
	c.need(nDel, 1, "RemoveRange", "paths that remove")
	c.need(nKeep, 1, "RemoveRange", "paths that find nothing")
	c.oneSection(x, outs, "RemoveRange", "RemoveRange")
	// list
	ps, st, outs = run("ListRanges")
	exits = loopExits(outs)
	for _, o := range outs {
		good(o, "ListRanges")
		c.ob(old(o.St, ps[0]) == old(st, ps[0]), "ListRanges", "read only", "ListRanges changes the ranges: %s", x.pathStr(o))
		if !isFreshObj(o.Vals[0]) {
			continue
		}
		v := x.LoadField(o.St.mem, o.Vals[0], derefType(o.Vals[0].typ), "Ranges")
		all := old(st, ps[0])
		whole := v.op == "mkslice" && v.args[0] == T.Len(all) && o.St.mem.m[T.mk("copysrc", "", nil, v)] == all
		ok := whole || v.op == "copyof" && v.args[0] == all || x.appended(v, nil, old(st, ps[0]), exits)
		c.ob(ok, "ListRanges", "copy", "ListRanges answers with %s, want a copy of the ranges (the list is changed in place while the answer is being sent): %s", v, x.pathStr(o))
	}
	// set
	ps, st, outs = run("SetRanges")
	rs := x.LoadField(st.mem, ps[0], aT, setF)
	for _, o := range outs {
		es := pick(o.evs, func(e *Event) bool { return methodIs(e, "SetRanges") })
		ok := len(es) == 1 && es[0].args[0] == rs && es[0].args[1] == ps[1] && es[0].args[2] == ps[2] && o.Vals[0] == es[0].res[0] && o.Vals[1] == es[0].res[1]
		c.ob(ok, "SetRanges", "passed on", "SetRanges is not passed on as it is: %s", x.pathStr(o))
	}
}
