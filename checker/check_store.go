package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "The store keeps every envelope it is given, up to each source's newest",
		"Path-partitioned dataflow over Store.Put for an arbitrary envelope, source and store state: which storage receives the envelope, what is evicted and when, the key it is ordered by (the comparator is executed for two arbitrary keys), and every count, meta field and metric written on each abstract path.", checkC31)
	register("C32", "A store read returns exactly the matching envelopes, in order",
		"Inductive dataflow over the tree traversals (one arbitrary node, subtree calls opaque) and over the visitor and Get for arbitrary bounds, filters, limit and order: every abstract path of a visit is compared with the in-order specification of its direction, and every path of the visitor with the filter, limit and grouping specification.", checkC32)
	register("C33", "Truncation removes only the oldest envelopes, and no more than asked",
		"Path-partitioned dataflow over the truncation goroutine NewStore starts and over the heap it uses: number of removals, what each removes, what it does to count, meta, index and the removed mark, and that the loop never ends.", checkC33)
	register("C34", "Concurrent store operations never touch a source's data unlocked",
		"Lockset dataflow over every operation of the store and its truncation goroutine: each access to a storage's tree, fields and nodes holds that storage's lock in the required mode, locks are balanced and ordered; def-use query over the repository: a field accessed atomically anywhere is accessed only atomically.", checkC34)
}

const storePkg = modPath + "/internal/cache/store"

// recursive lists the functions of pkg that can reach themselves through
// static calls or closures they make.
func (x *X) recursive(pkg string) []*ssa.Function {
	edges := map[*ssa.Function][]*ssa.Function{}
	fns := x.sortedFns()
	var collect func(f, at *ssa.Function)
	collect = func(f, at *ssa.Function) {
		for _, b := range at.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					switch {
					case ok && g.Synthetic != "" && g != at && strings.HasSuffix(g.Name(), "$bound"):
						collect(f, g)
					case ok && inRepoFn(g):
						edges[f] = append(edges[f], g)
					}
				}
			}
		}
	}
	for _, f := range fns {
		collect(f, f)
	}
	var out []*ssa.Function
	for _, f := range fns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var w func(g *ssa.Function) bool
		w = func(g *ssa.Function) bool {
			for _, h := range edges[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if w(h) {
						return true
					}
				}
			}
			return false
		}
		if w(f) {
			out = append(out, f)
		}
	}
	// the entries of the cycles will do, when every cycle goes through one
	in := map[*ssa.Function]bool{}
	for _, f := range out {
		in[f] = true
	}
	entry := map[*ssa.Function]bool{}
	for f, gs := range edges {
		for _, g := range gs {
			if in[g] && (!in[f] || f == g) {
				entry[g] = true
			}
		}
	}
	state := map[*ssa.Function]int{}
	var acyclic func(f *ssa.Function) bool
	acyclic = func(f *ssa.Function) bool {
		if !in[f] || entry[f] || state[f] == 2 {
			return true
		}
		if state[f] == 1 {
			return false
		}
		state[f] = 1
		for _, g := range edges[f] {
			if !acyclic(g) {
				return false
			}
		}
		state[f] = 2
		return true
	}
	var ents []*ssa.Function
	for _, f := range out {
		if !acyclic(f) {
			return out
		}
		if entry[f] {
			ents = append(ents, f)
		}
	}
	return ents
}

const avlPkg = "github.com/emirpasic/gods/trees/avltree"

// treeCall: the method of avltree.Tree an event calls, or "".
func treeCall(e *Event) string {
	if e.kind != EvCall || e.inl {
		return ""
	}
	const p = "(*" + avlPkg + ".Tree)."
	if strings.HasPrefix(e.name, p) {
		return strings.TrimPrefix(e.name, p)
	}
	return ""
}

type storeScn struct {
	x     *X
	c     *C
	st    *State
	store *Term
	T     *Terms
	stT   types.Type // Store
	sgT   types.Type // storage
	node  types.Type
	env   types.Type
	keyT  types.Type
	max   *Term
	opq   []*ssa.Function
}

func (c *C) newStore() *storeScn {
	x := c.newX()
	s := &storeScn{x: x, c: c, T: x.T}
	s.st = x.newState()
	s.stT = x.NamedType(storePkg, "Store")
	s.node = x.NamedType(avlPkg, "Node")
	s.env = x.NamedType("code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2", "Envelope")
	// the per-source record: the struct that embeds or holds the tree
	for _, m := range sortedMembers(x.pkgs[storePkg]) {
		if tn, ok := m.(*ssa.Type); ok {
			if u, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if isNamedPtr(u.Field(i).Type(), avlPkg, "Tree") {
						if s.sgT != nil && s.sgT != tn.Type() {
							x.giveUp("several types of package store hold a tree")
						}
						s.sgT = tn.Type()
					}
				}
			}
		}
	}
	if s.sgT == nil {
		x.giveUp("no type of package store holds a tree")
	}
	s.store = x.params(x.Fn("internal/cache/store", "*Store", "Put"))[0]
	s.on(s.store)
	s.opq = x.recursive("internal/cache/store")
	for _, f := range s.opq {
		x.opaque[fnName(f)] = true
	}
	return s
}

// on states the facts NewStore establishes about a store.
func (s *storeScn) on(store *Term) {
	x, T := s.x, s.T
	f := s.st.wfacts()
	f.Assume(T.Eq(store, T.Nil()), false)
	s.max = x.LoadField(s.st.mem, store, s.stT, "maxPerSource")
	f.assumeLE(T.Int(1), s.max, 0)
	mt := x.FieldNamed(store, s.stT, "metrics")
	ms := structOf(derefType(mt.typ))
	for i := 0; i < ms.NumFields(); i++ {
		f.Assume(T.Eq(x.loadMem(s.st.mem, T.FieldAddr(mt, derefType(mt.typ), i), ms.Field(i).Type()), T.Nil()), false)
	}
	f.Assume(T.Eq(x.LoadField(s.st.mem, store, s.stT, "mc"), T.Nil()), false)
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	if p == nil {
		return nil
	}
	names := map[string]bool{}
	for n := range p.Members {
		names[n] = true
	}
	var out []ssa.Member
	for _, n := range sortedKeys(names) {
		out = append(out, p.Members[n])
	}
	return out
}

func isNamedPtr(t types.Type, pkg, name string) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// field of the storage of the given kind ("tree", "lock", "meta").
func (s *storeScn) sgField(kind string) string {
	u := s.sgT.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		t := u.Field(i).Type()
		switch {
		case kind == "tree" && isNamedPtr(t, avlPkg, "Tree"):
			return u.Field(i).Name()
		case kind == "lock" && (typeKey(t) == "sync.RWMutex" || typeKey(t) == "sync.Mutex"):
			return u.Field(i).Name()
		case kind == "meta" && strings.HasSuffix(typeKey(t), "logcache_v1.MetaInfo"):
			return u.Field(i).Name()
		}
	}
	s.x.giveUp("the per-source record has no %s", kind)
	return ""
}

// owner: the storage a tree belongs to.
func (s *storeScn) owner(e *Event, tree *Term) *Term {
	tf := s.sgField("tree")
	if tree.op == "init" && len(tree.args) > 0 && tree.args[0].op == "fieldaddr" && fieldName(tree.args[0]) == tf {
		return tree.args[0].args[0]
	}
	for a, v := range e.mem.m {
		if v == tree && a.op == "fieldaddr" && fieldName(a) == tf {
			return a.args[0]
		}
	}
	return nil
}

// mode: how the storage's lock is held (0 not, 1 shared, 2 exclusively).
func (s *storeScn) mode(e *Event, sg *Term) int {
	l := s.x.FieldNamed(sg, s.sgT, s.sgField("lock"))
	w := e.locks[l]
	switch {
	case w >= 1000:
		return 2
	case w > 0:
		return 1
	}
	return 0
}

// metaAt: value of a meta field of a storage.
func (s *storeScn) metaAt(m *Mem, sg *Term, field string) *Term {
	mf := s.x.FieldNamed(sg, s.sgT, s.sgField("meta"))
	return s.x.LoadField(m, mf, derefType(mf.typ), field)
}

func (s *storeScn) metaAddr(sg *Term, field string) *Term {
	mf := s.x.FieldNamed(sg, s.sgT, s.sgField("meta"))
	return s.x.FieldNamed(mf, derefType(mf.typ), field)
}

// keyTime: the timestamp inside the key of a tree node.
func (s *storeScn) isKeyTime(t, node *Term) bool {
	k := s.x.LoadField(newMem(), node, s.node, "Key")
	if t.op == "field" && t.args[0].op == "assert" && stripIface(t.args[0].args[0]) == k {
		return isInt64(t.typ)
	}
	return t.op == "assert" && stripIface(t.args[0]) == k && isInt64(t.typ)
}

// plusN: b is a plus n.
func (s *storeScn) plusN(b, a *Term, n int64) bool {
	if v, ok := a.IntVal(); ok {
		w, ok := b.IntVal()
		return ok && w == v+n
	}
	return b == s.T.plus(a, n, a.typ)
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

// counter increments on metric field of the store among evs.
func (s *storeScn) metricCalls(evs []*Event, field, method string) []*Event {
	x := s.x
	mt := x.FieldNamed(s.store, s.stT, "metrics")
	g := x.LoadField(s.st.mem, mt, derefType(mt.typ), field)
	var out []*Event
	for _, e := range evs {
		if isExtCall(e) && methodIs(e, method) && len(e.args) == 2 && e.args[0] == g {
			out = append(out, e)
		}
	}
	return out
}

func isOne(t *Term) bool {
	if v, ok := t.IntVal(); ok {
		return v == 1
	}
	v, ok := t.FloatVal()
	return ok && v == 1
}

const putRule = "insertion"

func checkC31(c *C) {
	s := c.newStore()
	x, T := s.x, s.T
	put := x.Fn("internal/cache/store", "*Store", "Put")
	ps := x.params(put)
	var env, src *Term
	for _, p := range ps[1:] {
		if isStringType(p.typ) {
			src = p
		} else {
			env = p
		}
	}
	s.st.wfacts().Assume(T.Eq(env, T.Nil()), false)
	ts := x.LoadField(s.st.mem, env, s.env, "Timestamp")
	index := x.FieldNamed(s.store, s.stT, "storageIndex")
	count0 := x.LoadField(s.st.mem, s.store, s.stT, "count")
	oldest0 := x.LoadField(s.st.mem, s.store, s.stT, "oldestTimestamp")
	outs := c.rets(x, x.Root(put, s.st, ps, nil), putRule, "Put")
	var cmpFn *Term
	var keyVal *Term
	n, nEvict := 0, 0
	for _, o := range outs {
		// a retry leaves no trace
		for _, e := range o.evs {
			if e.kind != EvLoop {
				continue
			}
			for _, it := range e.loop.iters {
				allEvents(it.events, func(q *Event) {
					m := treeCall(q)
					c.ob(m == "" || m == "Size" || m == "Left" || m == "Right" || m == "Empty" || m == "Get", putRule, "retry", "an attempt to insert that is repeated changes the tree at %s", x.where(q))
					c.ob(!(isExtCall(q) && methodIs(q, "Add")), putRule, "retry metrics", "an attempt to insert that is repeated counts at %s", x.where(q))
				})
			}
			for a, v := range e.loop.mods {
				_ = v
				if a.op == "fieldaddr" && (fieldName(a) == "count" || rootOf(a) == s.store && fieldName(a) != "storageIndex") {
					c.ob(false, putRule, "retry state", "an attempt to insert that is repeated writes %s", a)
				}
			}
		}
		var put1 *Event
		var removes, lefts []*Event
		nput := 0
		for _, e := range o.evs {
			switch treeCall(e) {
			case "Put":
				put1 = e
				nput++
			case "Remove":
				removes = append(removes, e)
			case "Left":
				lefts = append(lefts, e)
			case "Clear":
				c.ob(false, putRule, "clear", "Put clears a tree at %s", x.where(e))
			}
		}
		if !c.ob(nput == 1, putRule, "one insertion", "Put inserts the envelope %d times: %s", nput, x.pathStr(o)) {
			continue
		}
		n++
		c.ob(stripIface(put1.args[2]) == env, putRule, "inserted envelope", "Put inserts %s instead of the envelope at %s", put1.args[2], x.where(put1))
		sg := s.owner(put1, put1.args[0])
		if !c.ob(sg != nil, putRule, "storage", "Put inserts into a tree that belongs to no storage at %s", x.where(put1)) {
			continue
		}
		// the storage is the one indexed under the source id
		var load, store *Event
		for _, e := range o.evs {
			if isExtCall(e) && strings.HasPrefix(e.name, "(*sync.Map).") && e.args[0] == index {
				switch e.name {
				case "(*sync.Map).Load":
					load = e
				case "(*sync.Map).Store":
					store = e
				case "(*sync.Map).LoadOrStore":
					load, store = e, nil
				default:
					c.ob(false, putRule, "index "+e.name, "Put calls %s on the index at %s", e.name, x.where(e))
				}
			}
		}
		if !c.ob(load != nil && stripIface(load.args[1]) == src, putRule, "index key", "Put does not look up the source id it was given: %s", x.pathStr(o)) {
			continue
		}
		fresh := isFreshObj(sg)
		if load.name == "(*sync.Map).LoadOrStore" {
			fresh = false
			v := stripIface(sg)
			c.ob(v.op == "assert" && v.args[0] == load.res[0], putRule, "found storage", "Put inserts into %s, which is not the storage indexed under the source id", sg)
		} else if fresh {
			c.ob(store != nil && stripIface(store.args[1]) == src && stripIface(store.args[2]) == sg && o.St.facts.Eval(load.res[1]) == -1, putRule, "fresh storage", "Put inserts into a fresh storage that is not indexed under the source id: %s", x.pathStr(o))
			if store != nil {
				shared := false
				for l, w := range load.locks {
					if w >= 1000 && store.locks[l] >= 1000 && rootOf(l) == s.store {
						shared = true
						for _, e := range o.evs {
							if e.id > load.id && e.id < store.id && strings.HasSuffix(e.name, "Mutex).Unlock") && len(e.args) > 0 && e.args[0] == l {
								shared = false
							}
						}
					}
				}
				c.ob(shared, putRule, "initialization lock", "two goroutines may index different storages for one source: the look-up and the store at %s are not under one lock", x.where(store))
			}
		} else {
			v := sg
			c.ob(v.op == "assert" && v.args[0] == load.res[0] && o.St.facts.Eval(load.res[1]) == 1 && store == nil, putRule, "found storage", "Put inserts into %s, which is not the storage indexed under the source id: %s", sg, x.pathStr(o))
		}
		// not into a storage truncation has removed
		rm := s.removedMark()
		if rm == "" {
			c.ob(false, putRule, "removed storage", "nothing marks a storage that truncation took out of the index, so Put may insert into it")
		} else {
			a := x.FieldNamed(sg, s.sgT, rm)
			c.ob(fresh && o.St.facts.Eval(x.loadMem(o.St.mem, a, types.Typ[types.Bool])) != 1 || o.St.facts.Eval(x.loadMem(put1.mem, a, types.Typ[types.Bool])) == -1, putRule, "removed storage", "Put inserts into a storage that may have been removed from the index: %s", x.pathStr(o))
		}
		// eviction
		size := s.sizeBefore(o.evs, put1)
		if size == nil {
			c.ob(false, putRule, "capacity", "Put does not look at the number of envelopes of the source: %s", x.pathStr(o))
			continue
		}
		full, room := T.Lt(size, s.max), T.Lt(size, s.max)
		_, mayRoom := x.with(o.St.facts, room, true)
		_, mayFull := x.with(o.St.facts, full, false)
		c.ob(mayRoom != mayFull, putRule, "capacity", "Put does not distinguish a source at its maximum from one below: %s", x.pathStr(o))
		end := x.LoadField(o.St.mem, s.store, s.stT, "count")
		exp0, exp1 := s.before(sg, s.metaAddr(sg, "Expired")), s.metaAt(o.St.mem, sg, "Expired")
		ie := s.metricCalls(o.evs, "incExpired", "Add")
		if mayFull {
			nEvict++
			ok := len(removes) == 1 && removes[0].args[0] == put1.args[0] && removes[0].id < put1.id
			if c.ob(ok, putRule, "eviction", "a source at its maximum does not lose exactly one envelope before the insertion: %s", x.pathStr(o)) {
				k := stripIface(removes[0].args[1])
				okL := false
				for _, l := range lefts {
					if l.args[0] == put1.args[0] && l.id < removes[0].id && k == x.LoadField(l.mem, l.res[0], s.node, "Key") {
						okL = true
					}
				}
				c.ob(okL, putRule, "eviction", "the envelope evicted at %s is not the oldest of the source", x.where(removes[0]))
			}
			c.ob(x.same(o.St.facts, end, count0), putRule, "count", "the store's count changes although one envelope replaces another: %s", x.pathStr(o))
			c.ob(s.plusN(exp1, exp0, 1), putRule, "expired count", "an eviction does not add one to the source's expired count (%s): %s", exp1, x.pathStr(o))
			c.ob(len(ie) == 1 && isOne(ie[0].args[1]), putRule, "expired metric", "an eviction is not counted once in log_cache_expired: %s", x.pathStr(o))
		} else {
			c.ob(len(removes) == 0, putRule, "no eviction", "an envelope is evicted although the source is below its maximum: %s", x.pathStr(o))
			c.ob(s.plusN(end, count0, 1), putRule, "count", "the store's count does not grow by one (%s): %s", end, x.pathStr(o))
			c.ob(s.plusN(exp1, exp0, 0), putRule, "expired count", "an insertion without eviction changes the source's expired count: %s", x.pathStr(o))
			c.ob(len(ie) == 0, putRule, "expired metric", "an insertion without eviction is counted as expired: %s", x.pathStr(o))
		}
		c.ob(len(s.metricCalls(o.evs, "incIngress", "Add")) == 1 && isOne(s.metricCalls(o.evs, "incIngress", "Add")[0].args[1]), putRule, "ingress metric", "an envelope is not counted exactly once in log_cache_ingress: %s", x.pathStr(o))
		// meta
		new0, new1 := s.before(sg, s.metaAddr(sg, "NewestTimestamp")), s.metaAt(o.St.mem, sg, "NewestTimestamp")
		if f, ok := x.with(o.St.facts, T.Lt(new0, ts), true); ok {
			c.ob(x.same(f, new1, ts), putRule, "newest timestamp", "a newer envelope does not become the newest timestamp of its source (%s): %s", new1, x.pathStr(o))
		}
		if f, ok := x.with(o.St.facts, T.Lt(new0, ts), false); ok {
			c.ob(x.same(f, new1, new0), putRule, "newest timestamp", "an envelope that is not newer changes the newest timestamp (%s): %s", new1, x.pathStr(o))
		}
		old1 := s.metaAt(o.St.mem, sg, "OldestTimestamp")
		okO := false
		for _, l := range lefts {
			if l.id > put1.id && l.args[0] == put1.args[0] && s.isKeyTime(old1, l.res[0]) {
				okO = true
			}
		}
		c.ob(okO, putRule, "oldest timestamp", "the source's oldest timestamp is %s, not that of its oldest envelope after the insertion: %s", old1, x.pathStr(o))
		// store-wide oldest
		so := x.LoadField(o.St.mem, s.store, s.stT, "oldestTimestamp")
		if f, ok := x.with(o.St.facts, T.Lt(old1, oldest0), true); ok {
			c.ob(x.same(f, so, old1), putRule, "store-wide oldest", "an older envelope does not become the store's oldest timestamp (%s): %s", so, x.pathStr(o))
		}
		if f, ok := x.with(o.St.facts, T.Lt(old1, oldest0), false); ok {
			c.ob(x.same(f, so, oldest0), putRule, "store-wide oldest", "the store's oldest timestamp moves forward (%s): %s", so, x.pathStr(o))
		}
		// key
		k := stripIface(put1.args[1])
		if k.op != "struct" {
			c.ob(false, putRule, "key", "the key %s cannot tell envelopes with the same timestamp apart", k)
			continue
		}
		keyVal = k
		ti, qi := s.keyFields(k, ts, sg, o)
		c.ob(ti >= 0, putRule, "key timestamp", "the key %s is not made of the envelope's timestamp at %s", k, x.where(put1))
		c.ob(qi >= 0, putRule, "key sequence", "the key %s has no sequence number of its own, so envelopes with one timestamp replace each other, at %s", k, x.where(put1))
		if fresh {
			tr := put1.args[0]
			if tr.ev != nil && strings.HasSuffix(tr.ev.name, "avltree.NewWith") {
				cmpFn = tr.ev.args[0]
			}
		}
	}
	c.need(n, 4, putRule, "insertion paths")
	c.need(nEvict, 1, putRule, "evicting paths")
	s.seqOnlyGrows()
	if cmpFn == nil || keyVal == nil {
		c.ob(false, putRule, "comparator", "no tree is created with a comparator this analysis can execute")
		return
	}
	s.keyT = keyVal.typ
	s.comparator(cmpFn, keyVal)
	s.indexTypes()
	s.leftNonEmpty(outs, putRule, "Put")
}

// before: the value of a storage's field before the operation; a fresh
// storage starts out zero.
func (s *storeScn) before(sg, addr *Term) *Term {
	if isFreshObj(sg) {
		return s.T.Zero(derefType(addr.typ))
	}
	return s.x.loadMem(s.st.mem, addr, derefType(addr.typ))
}

// removedMark: the bool field of the storage that truncation sets.
func (s *storeScn) removedMark() string {
	u := s.sgT.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return u.Field(i).Name()
		}
	}
	return ""
}

// sizeBefore: the tree's size as last asked before e.
func (s *storeScn) sizeBefore(evs []*Event, e *Event) *Term {
	var r *Term
	for _, q := range evs {
		if q.id >= e.id {
			break
		}
		if treeCall(q) == "Size" && q.args[0] == e.args[0] {
			r = q.res[0]
		}
		if m := treeCall(q); (m == "Put") && q.args[0] == e.args[0] {
			r = nil
		}
	}
	return r
}

// keyFields: which fields of the key hold the timestamp and a number one
// above the storage's previous one, which the storage then holds.
func (s *storeScn) keyFields(k, ts, sg *Term, o *Outcome) (ti, qi int) {
	ti, qi = -1, -1
	u := s.sgT.Underlying().(*types.Struct)
	for i, f := range k.args {
		if f == ts {
			ti = i
			continue
		}
		for j := 0; j < u.NumFields(); j++ {
			if !isIntType(u.Field(j).Type()) {
				continue
			}
			a := s.T.FieldAddr(sg, s.sgT, j)
			before := s.before(sg, a)
			after := s.x.loadMem(o.St.mem, a, u.Field(j).Type())
			if s.plusN(after, before, 1) && (f == after || f == before) {
				qi = i
			}
		}
	}
	return
}

// seqOnlyGrows: the sequence field is written nowhere else.
func (s *storeScn) seqOnlyGrows() {
	u := s.sgT.Underlying().(*types.Struct)
	n := 0
	for _, f := range s.x.sortedFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeKey(derefType(fa.X.Type())) != typeKey(s.sgT) || !isIntType(u.Field(fa.Field).Type()) {
					continue
				}
				n++
				bin, ok := st.Val.(*ssa.BinOp)
				good := ok && bin.Op.String() == "+"
				if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
					good = true
				}
				s.c.ob(good, putRule, "sequence in "+shortFn(f), "%s sets the sequence number of a storage to something other than its successor", shortFn(f))
			}
		}
	}
	s.c.need(n, 1, putRule, "writes of the sequence number")
}

// comparator executes the tree's comparator on two arbitrary keys.
func (s *storeScn) comparator(fn, key *Term) {
	x, T, c := s.x, s.T, s.c
	u := key.typ.Underlying().(*types.Struct)
	mkKey := func(n string) (*Term, []*Term) {
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.symOf(n+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return x.iface(T.Struct(key.typ, fs), key.typ), fs
	}
	a, af := mkKey("a")
	b, bf := mkKey("b")
	ti := 0
	for i := range af {
		if isInt64(u.Field(i).Type()) {
			ti = i
		}
	}
	if u.NumFields() != 2 {
		x.giveUp("key of %d fields", u.NumFields())
	}
	qi := 1 - ti
	outs := x.CallTerm(fn, []*Term{a, b}, x.newState())
	n := 0
	seen := map[int]bool{}
	for _, o := range outs {
		if o.Panic {
			c.ob(false, putRule, "comparator", "the comparator may panic: %s", x.pathStr(o))
			continue
		}
		c.noMay(x, []*Outcome{o}, putRule, "comparator", "typeassert")
		for _, sg := range []int{-1, 0, 1} {
			f := o.St.facts.clone()
			v := o.Vals[0]
			ok := true
			switch sg {
			case -1:
				f, ok = x.with(f, T.Lt(v, T.Int(0)), true)
			case 0:
				f, ok = x.with(f, T.Eq(v, T.Int(0)), true)
			case 1:
				f, ok = x.with(f, T.Lt(T.Int(0), v), true)
			}
			if k, isC := v.IntVal(); isC {
				ok = sg < 0 && k < 0 || sg == 0 && k == 0 || sg > 0 && k > 0
				f = o.St.facts
			}
			if !ok {
				continue
			}
			n++
			seen[sg] = true
			// what the result claims must follow from the path
			lt := func(p, q *Term) bool { g, may := x.with(f, T.Lt(p, q), false); _ = g; return !may }
			le := func(p, q *Term) bool { _, may := x.with(f, T.Lt(q, p), true); return !may }
			var good bool
			switch sg {
			case -1:
				good = lt(af[ti], bf[ti]) || le(af[ti], bf[ti]) && lt(af[qi], bf[qi])
			case 1:
				good = lt(bf[ti], af[ti]) || le(bf[ti], af[ti]) && lt(bf[qi], af[qi])
			case 0:
				good = le(af[ti], bf[ti]) && le(bf[ti], af[ti]) && le(af[qi], bf[qi]) && le(bf[qi], af[qi])
			}
			c.ob(good, putRule, "comparator", "the comparator answers %s although the keys are not in that order: %s", v, x.pathStr(o))
		}
	}
	c.need(len(seen), 3, putRule, "results of the comparator")
}

// indexTypes: everything put into the index and the trees has the type the
// readers assert.
func (s *storeScn) indexTypes() {
	c := s.c
	nI, nT := 0, 0
	for _, f := range s.x.sortedFns() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != storePkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				a := ci.Common().Args
				switch n := fnName(ci.Common().StaticCallee()); {
				case n == "(*sync.Map).Store" || n == "(*sync.Map).LoadOrStore":
					nI++
					c.ob(ifaceType(a[1]) == "string" && ifaceType(a[2]) == "*"+typeKey(s.sgT), putRule, "index entry in "+shortFn(f), "the index receives an entry of types %s, %s in %s", ifaceType(a[1]), ifaceType(a[2]), shortFn(f))
				case n == "(*"+avlPkg+".Tree).Put":
					nT++
					c.ob(ifaceType(a[1]) == typeKey(s.keyT) && strings.HasSuffix(ifaceType(a[2]), "loggregator_v2.Envelope"), putRule, "tree entry in "+shortFn(f), "a tree receives an entry of types %s, %s in %s", ifaceType(a[1]), ifaceType(a[2]), shortFn(f))
				}
			}
		}
	}
	c.need(nI, 1, putRule, "index entries")
	c.need(nT, 1, putRule, "tree entries")
}

func ifaceType(v ssa.Value) string {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return typeKey(m.X.Type())
	}
	return typeKey(v.Type())
}

// leftNonEmpty: the oldest node is dereferenced only when the tree is known
// to hold one.
func (s *storeScn) leftNonEmpty(outs []*Outcome, rule, what string) {
	x, T, c := s.x, s.T, s.c
	var scan func(evs []*Event, live map[*Term]*Term)
	scan = func(evs []*Event, _ map[*Term]*Term) {
		size := map[*Term]*Term{} // tree -> last size
		filled := map[*Term]bool{}
		for _, e := range evs {
			switch treeCall(e) {
			case "Size":
				size[e.args[0]] = e.res[0]
				filled[e.args[0]] = false
			case "Put":
				filled[e.args[0]] = true
			case "Remove", "Clear":
				delete(size, e.args[0])
				filled[e.args[0]] = false
			}
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					scan(it.events, nil)
				}
			}
			if e.kind == EvMay && e.name == "nil" && e.val != nil && e.val.ev != nil {
				m := treeCall(e.val.ev)
				if m != "Left" && m != "Right" {
					continue
				}
				tr := e.val.ev.args[0]
				ok := filled[tr]
				if sz := size[tr]; sz != nil {
					_, may := x.with(e.facts, T.Lt(T.Int(0), sz), false)
					if may && e.facts.Eval(T.Eq(sz, T.Int(0))) != -1 {
						ok = ok || false
					} else {
						ok = true
					}
				}
				c.ob(ok, rule, what+" non-empty tree", "%s dereferences the oldest node of a tree that may be empty at %s", what, x.where(e))
			}
		}
	}
	for _, o := range outs {
		scan(o.evs, nil)
	}
}

// ---------------------------------------------------------------- Get

const getRule = "read"

func checkC32(c *C) {
	s := c.newStore()
	x, T := s.x, s.T
	get := x.Fn("internal/cache/store", "*Store", "Get")
	ps := x.params(get)
	ps[0] = s.store
	var src, limit, desc, types_, filter *Term
	var times []*Term
	for _, p := range ps[1:] {
		switch {
		case isStringType(p.typ):
			src = p
		case isNamedTime(p.typ):
			times = append(times, p)
		case isBoolType(p.typ):
			desc = p
		case isIntType(p.typ):
			limit = p
		case isNamedPtr(p.typ, "regexp", "Regexp"):
			filter = p
		default:
			types_ = p
		}
	}
	if len(times) != 2 || src == nil || limit == nil || desc == nil || types_ == nil || filter == nil {
		x.giveUp("parameters of Get not recognised")
	}
	start, end := times[0], times[1]
	index := x.FieldNamed(s.store, s.stT, "storageIndex")
	outs := c.rets(x, x.Root(get, s.st, ps, nil), getRule, "Get")
	n := 0
	dirs := map[bool]*ssa.Function{}
	type use struct {
		e  *Event
		cl *Term
	}
	var uses []use
	for _, o := range outs {
		var load, tr *Event
		nTr := 0
		for _, e := range o.evs {
			if e.kind != EvCall {
				continue
			}
			if e.name == "(*sync.Map).Load" && e.args[0] == index {
				load = e
			}
			if e.callee != nil && x.opaque[e.name] {
				tr = e
				nTr++
			}
			m := treeCall(e)
			c.ob(m == "" || m == "Size" || m == "Empty", getRule, "read only", "Get calls %s on a tree at %s", m, x.where(e))
		}
		if !c.ob(load != nil && stripIface(load.args[1]) == src, getRule, "source", "Get does not look up the source id it was given: %s", x.pathStr(o)) {
			continue
		}
		if nTr == 0 {
			c.ob(o.St.facts.Eval(load.res[1]) == -1 && isEmptyResult(x, o.Vals[0]), getRule, "unknown source", "Get reads nothing of an indexed source, or invents envelopes: %s", x.pathStr(o))
			continue
		}
		if !c.ob(nTr == 1, getRule, "one traversal", "Get traverses %d times: %s", nTr, x.pathStr(o)) {
			continue
		}
		n++
		var root, f *Term
		var bounds []*Term
		for _, a := range tr.args {
			switch {
			case a.op == "closure":
				f = a
			case a.typ != nil && isNamedPtr(a.typ, avlPkg, "Node"):
				root = a
			case a.typ != nil && isInt64(a.typ):
				bounds = append(bounds, a)
			}
		}
		if root == nil || f == nil || len(bounds) != 2 {
			x.giveUp("the traversal's arguments are not recognised at %s", x.where(tr))
		}
		// the root of the storage found under the source id
		sg := (*Term)(nil)
		if root.op == "init" && root.args[0].op == "fieldaddr" && fieldName(root.args[0]) == "Root" {
			sg = s.owner(tr, root.args[0].args[0])
		}
		ok := sg != nil && sg.op == "assert" && sg.args[0] == load.res[0] && o.St.facts.Eval(load.res[1]) == 1
		c.ob(ok, getRule, "traversed tree", "Get traverses %s, which is not the whole tree of the source", root)
		c.ob(isUnixNano(bounds[0], start), getRule, "start bound", "the lower bound is %s, not the start time", bounds[0])
		c.ob(isUnixNano(bounds[1], end), getRule, "end bound", "the upper bound is %s, not the end time", bounds[1])
		d := o.St.facts.Eval(desc)
		if !c.ob(d != 0, getRule, "direction", "Get does not look at the requested order: %s", x.pathStr(o)) {
			continue
		}
		callee := tr.callee
		if isWrapper(callee) { // a method value
			for _, b := range callee.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
						callee = ci.Common().StaticCallee()
					}
				}
			}
		}
		if g := dirs[d == 1]; g != nil && g != callee {
			x.giveUp("several traversals for one order")
		}
		dirs[d == 1] = callee
		uses = append(uses, use{tr, f})
		// what the visitor collected is returned, all of it
		cell := s.resCell(f)
		got := x.settled(o.Vals[0])
		c.ob(cell != nil && got == x.loadMem(o.St.mem, cell, derefType(cell.typ)), getRule, "result", "Get returns %s, not what the traversal collected: %s", o.Vals[0], x.pathStr(o))
		eg := s.metricCalls(o.evs, "incEgress", "Add")
		okE := len(eg) == 1
		if okE {
			v := stripConv(eg[0].args[1])
			okE = v == T.Len(o.Vals[0])
		}
		c.ob(okE, getRule, "egress metric", "the envelopes returned are not counted exactly once in log_cache_egress: %s", x.pathStr(o))
	}
	c.need(n, 2, getRule, "reading paths")
	c.need(len(dirs), 2, getRule, "directions")
	for d, f := range dirs {
		s.traversal(f, d)
	}
	seen := map[*ssa.Function]bool{}
	for _, u := range uses {
		if !seen[u.cl.fn] {
			seen[u.cl.fn] = true
			s.visitor(u.e, u.cl, limit, types_, filter)
		}
	}
	// the types of the entries are what the readers assert
}

func isEmptyResult(x *X, t *Term) bool { return t.IsNil() || x.isEmptyFresh(t) }

func isNamedTime(t types.Type) bool { return typeKey(t) == "time.Time" }
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isUnixNano(t, tm *Term) bool {
	return t.op == "pure" && strings.HasSuffix(t.sym, "UnixNano") && t.args[0] == tm
}

// resCell: the captured variable that collects envelopes.
func (s *storeScn) resCell(cl *Term) *Term {
	for _, b := range cl.args {
		if b.typ == nil {
			continue
		}
		if sl, ok := derefType(b.typ).Underlying().(*types.Slice); ok && isPtr(b.typ) && strings.HasSuffix(typeKey(sl.Elem()), "loggregator_v2.Envelope") {
			return b
		}
	}
	return nil
}

// tailLoop reads a function that is one loop over its parameter p as the
// recursion it stands for: a pass that goes on calls the function again, and
// answers what that answers.
func (x *X) tailLoop(f *ssa.Function, ps []*Term, p *Term, outs []*Outcome) (*Term, []*Outcome) {
	var l *LoopInfo
	var res []*Outcome
	for _, o := range outs {
		var evs []*Event
		n := 0
		for _, e := range o.evs {
			switch e.kind {
			case EvLoop:
				if n++; l == nil {
					l = e.loop
				}
				if e.loop != l || len(evs) > 0 {
					return nil, nil
				}
			case EvLoopExit:
			default:
				evs = append(evs, e)
			}
		}
		if n != 1 {
			return nil, nil
		}
		q := *o
		q.evs = evs
		res = append(res, &q)
	}
	if l == nil || l.fn != f || len(l.phis) != 1 || l.phis[0].init != p || len(l.mods) != 0 || f.Signature.Results().Len() != 1 {
		return nil, nil
	}
	at := l.phis[0].sym
	for _, it := range l.iters {
		args := append([]*Term(nil), ps...)
		for i := range args {
			if args[i] == p {
				args[i] = it.next[at]
			}
		}
		again := x.T.fresh("ret", "again", f.Signature.Results().At(0).Type())
		st := x.newState()
		st.facts = it.facts.clone()
		call := &Event{kind: EvCall, name: fnName(f), callee: f, args: args, res: []*Term{again}, fn: f, pos: l.pos, mem: it.mem, facts: it.facts}
		res = append(res, &Outcome{St: st, Vals: []*Term{again}, evs: append(append([]*Event(nil), it.events...), call)})
	}
	return at, res
}

// traversal checks one visit of an arbitrary node.
func (s *storeScn) traversal(f *ssa.Function, desc bool) {
	x, T, c := s.x, s.T, s.c
	rule := "ascending traversal"
	first, second := int64(0), int64(1)
	if desc {
		rule, first, second = "descending traversal", 1, 0
	}
	ps := x.params(f)
	var node, start, end, fn *Term
	for _, p := range ps {
		switch {
		case isNamedPtr(p.typ, avlPkg, "Node"):
			node = p
		case isInt64(p.typ):
			if start == nil {
				start = p
			} else {
				end = p
			}
		default:
			if _, ok := p.typ.Underlying().(*types.Signature); ok {
				fn = p
			}
		}
	}
	if node == nil || end == nil || fn == nil {
		x.giveUp("parameters of %s not recognised", shortFn(f))
	}
	st := x.newState()
	outs := x.Root(f, st, ps, nil)
	if at, os := x.tailLoop(f, ps, node, outs); at != nil {
		node, outs = at, os
	}
	value := x.LoadField(newMem(), node, s.node, "Value")
	key := x.LoadField(newMem(), node, s.node, "Key")
	children := x.FieldNamed(node, s.node, "Children")
	nt := types.NewPointer(s.node)
	kid := func(i int64) *Term { return x.loadMem(newMem(), T.IndexAddr(children, T.Int(i), nt), nt) }
	// the timestamp looked at: the envelope's, or the one in the node's key
	var cands []*Term
	cands = append(cands, x.LoadField(newMem(), T.mk("assert", "", types.NewPointer(s.env), value), s.env, "Timestamp"))
	for _, o := range outs {
		for _, t := range o.St.facts.terms() {
			walkTerm(t, func(q *Term) {
				if s.isKeyTime(q, node) {
					cands = append(cands, q)
				}
			})
		}
	}
	var stamp *Term
	for _, o := range outs {
		for _, q := range cands {
			if stamp == nil && (o.St.facts.Eval(T.Lt(q, start)) != 0 || o.St.facts.Eval(T.Lt(q, end)) != 0) {
				stamp = q
			}
		}
	}
	if stamp == nil {
		c.ob(false, rule, "timestamp", "%s does not look at the timestamp of its node", shortFn(f))
		return
	}
	n, nf := 0, 0
	for _, o := range outs {
		if o.Panic {
			c.ob(false, rule, "panic", "%s may panic: %s", shortFn(f), x.pathStr(o))
			continue
		}
		for _, e := range o.evs {
			if e.kind == EvMay && e.name == "typeassert" {
				c.ob(stripIface(e.val) == value || stripIface(e.val) == key, rule, "assertion", "%s may panic at %s", shortFn(f), x.where(e))
			}
			if e.kind == EvMay && e.name == "nil" {
				c.ob(e.val == node && false || e.val.op == "assert", rule, "nil", "%s may dereference a missing node at %s", shortFn(f), x.where(e))
			}
			if e.kind == EvLoop {
				x.giveUp("%s traverses in a loop", shortFn(f))
			}
		}
		var calls []*Event
		for _, e := range o.evs {
			if e.kind == EvCall && !e.inl && (e.callee == f || e.name == "dynamic" && e.args[0] == fn) {
				calls = append(calls, e)
			} else if e.kind == EvCall && e.callee != nil && x.opaque[e.name] {
				c.ob(false, rule, "recursion", "%s calls %s at %s", shortFn(f), e.name, x.where(e))
			}
		}
		isNil := x.isNil(o.St.facts, node)
		if isNil == 1 {
			c.ob(len(calls) == 0 && x.boolIs(o.St.facts, o.Vals[0], false), rule, "empty subtree", "%s does not simply continue past an empty subtree: %s", shortFn(f), x.pathStr(o))
			continue
		}
		if !c.ob(isNil == -1, rule, "empty subtree", "%s does not distinguish an empty subtree: %s", shortFn(f), x.pathStr(o)) {
			continue
		}
		n++
		// where the node lies
		for _, pos := range []string{"before", "inside", "after"} {
			ft, ok := o.St.facts, true
			// start <= end is not assumed: a node below start is "before",
			// otherwise one at or past end is "after"
			ft, ok = x.with(ft, T.Lt(stamp, start), pos == "before")
			if ok && pos != "before" {
				ft, ok = x.with(ft, T.Lt(stamp, end), pos == "inside")
			}
			if !ok {
				continue
			}
			// before in reading order can be skipped on the near side only
			near, far := pos == "before", pos == "after"
			if desc {
				near, far = far, near
				// a node below start may also lie past an end below start
				if pos == "before" {
					if _, may := x.with(ft, T.Lt(stamp, end), false); may {
						near = true
					}
				}
			}
			what := pos + " the range"
			i := 0
			next := func() *Event {
				if i < len(calls) {
					i++
					return calls[i-1]
				}
				return nil
			}
			isKid := func(e *Event, k int64) bool {
				if e == nil || e.callee != f {
					return false
				}
				want := make([]*Term, len(ps))
				copy(want, ps)
				for j, p := range ps {
					if isNamedPtr(p.typ, avlPkg, "Node") {
						want[j] = kid(k)
					}
				}
				if len(e.args) != len(want) {
					return false
				}
				for j := range want {
					if e.args[j] != want[j] {
						return false
					}
				}
				return true
			}
			e := next()
			stopped := (*Term)(nil)
			if isKid(e, first) {
				if ft.Eval(e.res[0]) == 1 {
					stopped = e.res[0]
				} else if ft.Eval(e.res[0]) == 0 && len(calls) == 1 {
					// result handed on unexamined
					c.ob(false, rule, what, "%s does not visit its own node after its first subtree: %s", shortFn(f), x.pathStr(o))
					continue
				}
				if stopped == nil {
					e = next()
				}
			} else if !near {
				c.ob(false, rule, what+" first subtree", "%s leaves out the first subtree of a node %s: %s", shortFn(f), what, x.pathStr(o))
				continue
			}
			if stopped != nil {
				c.ob(i == len(calls) && x.boolIs(ft, o.Vals[0], true), rule, "stop", "%s goes on after the visitor asked to stop: %s", shortFn(f), x.pathStr(o))
				continue
			}
			if pos == "inside" {
				if !c.ob(e != nil && e.callee == nil, rule, "visit", "%s does not visit a node inside the range: %s", shortFn(f), x.pathStr(o)) {
					continue
				}
				nf++
				v := e.args[1]
				c.ob(v.op == "assert" && stripIface(v.args[0]) == value, rule, "visited envelope", "%s visits %s, not its node's envelope", shortFn(f), v)
				if ft.Eval(e.res[0]) == 1 {
					c.ob(i == len(calls) && x.boolIs(ft, o.Vals[0], true), rule, "stop", "%s goes on after the visitor asked to stop: %s", shortFn(f), x.pathStr(o))
					continue
				}
				c.ob(ft.Eval(e.res[0]) == -1 || i == len(calls) && false, rule, "stop", "%s ignores whether the visitor asked to stop: %s", shortFn(f), x.pathStr(o))
				e = next()
			} else if e != nil && e.callee == nil {
				c.ob(false, rule, "visit outside", "%s visits a node %s: %s", shortFn(f), what, x.pathStr(o))
				continue
			}
			if isKid(e, second) {
				c.ob(o.Vals[0] == e.res[0] || ft.Eval(e.res[0]) != 0 && x.boolIs(ft, o.Vals[0], ft.Eval(e.res[0]) == 1), rule, "stop", "%s does not hand on whether its second subtree stopped: %s", shortFn(f), x.pathStr(o))
			} else {
				c.ob(e == nil && far, rule, what+" second subtree", "%s leaves out the second subtree of a node %s: %s", shortFn(f), what, x.pathStr(o))
			}
			c.ob(i == len(calls), rule, "extra visits", "%s visits more than its node and its subtrees: %s", shortFn(f), x.pathStr(o))
		}
	}
	c.need(n, 3, rule, "paths at a node")
	c.need(nf, 2, rule, "visiting paths")
}

// boolIs: is t known to be v?
func (x *X) boolIs(f *Facts, t *Term, v bool) bool {
	if b, ok := t.BoolVal(); ok {
		return b == v
	}
	e := f.Eval(t)
	return e == 1 && v || e == -1 && !v
}

// visitor checks what happens to one envelope of the range.
func (s *storeScn) visitor(tr *Event, cl, limit, types_, filter *Term) {
	x, T, c := s.x, s.T, s.c
	const rule = "visitor"
	_ = c
	cell := s.resCell(cl)
	if cell == nil {
		x.giveUp("the visitor collects into no captured slice")
	}
	st := x.newState()
	st.mem = tr.mem.clone()
	st.facts = tr.facts.clone()
	res := x.symOf("collected", derefType(cell.typ))
	x.storeMem(st.wmem(), cell, res, derefType(cell.typ))
	e := x.symOf("envelope", types.NewPointer(s.env))
	st.wfacts().Assume(T.Eq(e, T.Nil()), false)
	st.wfacts().assumeLE(T.Int(0), T.Len(res), 0)
	st.trace = nil
	outs := c.rets(x, x.CallTerm(cl, []*Term{e}, st), rule, "the visitor")
	v := &visit{s: s, e: e, types_: types_, filter: filter, res: res, exits: loopExits(outs)}
	ts := x.LoadField(st.mem, e, s.env, "Timestamp")
	et := types.NewPointer(s.env)
	nApp, nStop := 0, 0
	// the latest envelope collected
	last := x.loadMem(st.mem, T.IndexAddr(res, T.plus(T.Len(res), -1, types.Typ[types.Int]), et), et)
	lastTs := x.LoadField(st.mem, last, s.env, "Timestamp")
	for _, o := range outs {
		f := o.St.facts
		got := x.loadMem(o.St.mem, cell, derefType(cell.typ))
		full := func(f *Facts) (*Facts, bool) {
			f, ok := x.with(f, T.Lt(T.Len(res), limit), false)
			if ok {
				f, ok = x.with(f, T.Lt(T.Int(0), T.Len(res)), true)
			}
			if ok {
				f, ok = x.with(f, T.Eq(ts, lastTs), false)
			}
			return f, ok
		}
		if x.boolIs(f, o.Vals[0], true) {
			nStop++
			_, room := x.with(f, T.Lt(T.Len(res), limit), true)
			_, group := x.with(f, T.Eq(ts, lastTs), true)
			c.ob(!room, rule, "stop below the limit", "a read stops although it has fewer envelopes than asked for: %s", x.pathStr(o))
			c.ob(!group, rule, "stop inside a timestamp", "a read stops between envelopes that share a timestamp, so a reader that carries on after the last one misses the rest: %s", x.pathStr(o))
			c.ob(got == res, rule, "stop", "the visitor collects and stops at once: %s", x.pathStr(o))
			continue
		}
		if !c.ob(x.boolIs(f, o.Vals[0], false), rule, "stop", "the visitor answers %s: %s", o.Vals[0], x.pathStr(o)) {
			continue
		}
		_, over := full(f)
		c.ob(!over, rule, "limit", "a read goes on although it has as many envelopes as asked for: %s", x.pathStr(o))
		if v.impossible(f) {
			continue
		}
		typ, nam, env := v.typeOf(o), 0, (*Term)(nil)
		nam, env = v.nameOf(o)
		if typ == 0 && nam == 0 {
			c.ob(false, rule, "filters", "the visitor decides without looking at the filters: %s", x.pathStr(o))
			continue
		}
		switch {
		case got == res:
			c.ob(typ == -1 || nam == -1, rule, "dropped envelope", "the visitor drops an envelope that may match the filters: %s", x.pathStr(o))
		case got.op == "append" && len(got.args) == 2 && got.args[0] == res:
			nApp++
			c.ob(typ == 1, rule, "envelope type filter", "the visitor collects an envelope whose type may not be asked for: %s", x.pathStr(o))
			c.ob(nam == 1, rule, "name filter", "the visitor collects an envelope whose name may not match: %s", x.pathStr(o))
			if nam == 1 {
				c.ob(env == nil && got.args[1] == e || env != nil && got.args[1] == env, rule, "collected envelope", "the visitor collects %s: %s", got.args[1], x.pathStr(o))
			}
		default:
			c.ob(false, rule, "collected envelopes", "the visitor turns the collected envelopes into %s: %s", got, x.pathStr(o))
		}
		for _, ev := range o.evs {
			if ev.kind == EvStore && rootOf(ev.addr) == e {
				c.ob(false, rule, "stored envelope", "a read changes the stored envelope at %s", x.where(ev))
			}
		}
	}
	c.need(nApp, 10, rule, "collecting paths")
	c.need(nStop, 1, rule, "stopping paths")
	c.noMay(x, outs, rule, "visitor", "index", "typeassert", "nilmap")
}

type visit struct {
	s              *storeScn
	e              *Term
	types_, filter *Term
	res            *Term
	exits          []*Event
}

var envKinds = []string{"LOG", "COUNTER", "GAUGE", "TIMER", "EVENT"}

func (v *visit) kindConst(name string) *Term {
	o := v.s.x.pkgs[modPath+"/pkg/rpc/logcache_v1"].Pkg.Scope().Lookup("EnvelopeType_" + name)
	k, ok := o.(*types.Const)
	if !ok {
		v.s.x.giveUp("EnvelopeType_%s not found", name)
	}
	return v.s.T.Const(k.Val(), k.Type())
}

// isKind: 1 the envelope is of that kind, -1 it is not, 0 unknown.
func (v *visit) isKind(f *Facts, name string) int {
	return v.kind(f, name, false)
}

// carries: like isKind for an envelope's payload, which may be missing.
func (v *visit) carries(f *Facts, name string) int { return v.kind(f, name, true) }

// impossible: the path contradicts itself about the envelope's kind.
func (v *visit) impossible(f *Facts) bool {
	for _, k := range envKinds {
		if v.carries(f, k) == 1 && v.isKind(f, k) == -1 {
			return true
		}
	}
	return false
}

func (v *visit) kind(f *Facts, name string, payload bool) int {
	x, T := v.s.x, v.s.T
	camel := name[:1] + strings.ToLower(name[1:])
	msg := x.LoadField(newMem(), v.e, v.s.env, "Message")
	wt := types.NewPointer(x.NamedType("code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2", "Envelope_"+camel))
	is := f.Eval(T.mk("istype", "", wt, msg))
	if is != 0 && !payload {
		return is
	}
	var one *Term
	f.each(func(t *Term, _ bool) {
		walkTerm(t, func(q *Term) {
			if q.op == "oneof" && q.sym == camel && q.args[0] == v.e {
				one = q
			}
		})
	})
	if one != nil {
		switch x.isNil(f, one) {
		case -1:
			return 1
		case 1:
			return -1
		}
	}
	return is
}

// typeMatch: does envelope type t ask for the envelope?
func (v *visit) typeMatch(f *Facts, t *Term) int {
	T := v.s.T
	if f.Eval(T.Eq(t, v.kindConst("ANY"))) == 1 {
		return 1
	}
	notAny := f.Eval(T.Eq(t, v.kindConst("ANY"))) == -1
	for _, k := range envKinds {
		r := f.Eval(T.Eq(t, v.kindConst(k)))
		if r == 1 {
			return v.carries(f, k)
		}
		if r == 0 {
			notAny = false
		}
	}
	if notAny {
		return -1 // a number without a name
	}
	return 0
}

// typeOf: does the path establish that the type filter lets the envelope through?
func (v *visit) typeOf(o *Outcome) int {
	x := v.s.x
	f := o.St.facts
	if x.isNil(f, v.types_) == 1 {
		return 1
	}
	if x.isNil(f, v.types_) != -1 && f.Eval(v.s.T.Eq(v.s.T.Len(v.types_), v.s.T.Int(0))) != 1 {
		return 0
	}
	for _, ev := range o.evs {
		if ev.kind != EvLoop {
			continue
		}
		l := ev.loop
		for _, p := range x.locals(l) {
			if p.init == nil || !isIntType(p.sym.typ) {
				continue
			}
			k0, ok := p.init.IntVal()
			if !ok || k0 != 0 && k0 != -1 {
				continue
			}
			idx := x.T.plus(p.sym, -k0, p.sym.typ)
			el := x.elemAt(o.St.mem, v.types_, idx)
			if el == nil || !f.clone().entLE(x.T.Int(0), idx, 0) && false {
				continue
			}
			// left at an element that matches
			if f.clone().entLE(idx, x.T.Len(v.types_), -1) && v.typeMatch(f, el) == 1 {
				return 1
			}
			// or after none did
			if f.clone().entLE(x.T.Len(v.types_), idx, 0) {
				all := len(l.iters) > 0
				for _, it := range l.iters {
					if it.next[p.sym] != x.T.plus(p.sym, 1, p.sym.typ) || !v.impossible(it.facts) && v.typeMatch(it.facts, x.elemAt(it.mem, v.types_, idx)) != -1 {
						all = false
					}
				}
				if all {
					return -1
				}
			}
		}
	}
	return 0
}

// nameOf: does the path establish that the name filter lets the envelope
// through, and as which (rebuilt) envelope?
func (v *visit) nameOf(o *Outcome) (int, *Term) {
	x, s := v.s.x, v.s
	f := o.St.facts
	switch x.isNil(f, v.filter) {
	case 1:
		return 1, nil
	case 0:
		return 0, nil
	}
	for _, k := range []string{"Counter", "Timer"} {
		if v.isKind(f, strings.ToUpper(k)) != 1 {
			continue
		}
		for _, ev := range o.evs {
			if isExtCall(ev) && ev.name == "(*regexp.Regexp).MatchString" && ev.args[0] == v.filter {
				n := ev.args[1]
				if n.op == "init" && fieldName(n.args[0]) == "Name" && n.args[0].args[0].op == "oneof" && n.args[0].args[0].sym == k && n.args[0].args[0].args[0] == v.e {
					return f.Eval(ev.res[0]), nil
				}
			}
		}
		return 0, nil
	}
	if v.isKind(f, "GAUGE") == 1 {
		m := v.filtered(o)
		if m == nil {
			return 0, nil
		}
		some := 0
		f.each(func(t *Term, b bool) {
			walkTerm(t, func(q *Term) {
				if q.op == "len" && len(q.args) == 1 && q.args[0] == m {
					switch f.Eval(s.T.Lt(s.T.Int(0), q)) {
					case 1:
						some = 1
					case -1:
						some = -1
					}
				}
			})
		})
		if some != 1 {
			return some, nil
		}
		// the rebuilt envelope
		got := x.loadMem(o.St.mem, s.resCellOf(v, o), v.res.typ)
		if got == v.res {
			return 1, nil // dropped because of its type
		}
		if got.op != "append" || len(got.args) != 2 {
			return 0, nil
		}
		ne := got.args[1]
		if !isFreshObj(ne) {
			return 0, nil
		}
		u := s.env.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			a, b := x.LoadField(o.St.mem, ne, s.env, n), x.LoadField(newMem(), v.e, s.env, n)
			if n == "Message" {
				g := stripIface(a)
				var mm *Term
				if isFreshObj(g) {
					gt := derefType(g.typ)
					gg := x.LoadField(o.St.mem, g, gt, "Gauge")
					if isFreshObj(gg) {
						mm = x.LoadField(o.St.mem, gg, derefType(gg.typ), "Metrics")
					}
				}
				if !v.s.c.ob(mm == m, "visitor", "filtered gauge", "a filtered gauge does not carry exactly the metrics whose names match: %s", x.pathStr(o)) {
					return 0, nil
				}
				continue
			}
			if strings.HasPrefix(n, "XXX") {
				continue
			}
			v.s.c.ob(x.same(f, a, b), "visitor", "filtered gauge "+n, "a filtered gauge loses its %s: %s", n, x.pathStr(o))
		}
		return 1, ne
	}
	for _, k := range []string{"COUNTER", "GAUGE", "TIMER"} {
		if v.isKind(f, k) != -1 {
			return 0, nil
		}
	}
	return -1, nil
}

func (s *storeScn) resCellOf(v *visit, o *Outcome) *Term {
	for a, t := range o.St.mem.m {
		if a.op == "alloc" && (t == v.res || t.op == "append" && t.args[0] == v.res) {
			return a
		}
	}
	return nil
}

// filtered: the map that holds exactly the matching metrics of the gauge.
func (v *visit) filtered(o *Outcome) *Term {
	x := v.s.x
	for _, ev := range o.evs {
		if ev.kind != EvLoop {
			continue
		}
		var m *Term
		ok := true
		n := 0
		for _, it := range ev.loop.iters {
			var key, match *Term
			var ups []*Event
			for _, q := range it.events {
				if isExtCall(q) && q.name == "(*regexp.Regexp).MatchString" && q.args[0] == v.filter {
					key, match = q.args[1], q.res[0]
				}
				if q.kind == EvMapUpdate {
					ups = append(ups, q)
				}
			}
			if key == nil || key.op != "rangekey" || !(key.args[0].op == "init" && fieldName(key.args[0].args[0]) == "Metrics" && key.args[0].args[0].args[0].op == "oneof" && key.args[0].args[0].args[0].args[0] == v.e) {
				ok = false
				break
			}
			n++
			switch it.facts.Eval(match) {
			case 1:
				if len(ups) != 1 || ups[0].args[1] != key || !isRangeVal(x, ups[0].args[2], key) || !isFreshObj(ups[0].args[0]) || m != nil && m != ups[0].args[0] {
					ok = false
				} else {
					m = ups[0].args[0]
				}
			case -1:
				if len(ups) != 0 {
					ok = false
				}
			default:
				ok = false
			}
		}
		if n == 0 || !ok || m == nil {
			continue
		}
		// nothing else goes into it
		for _, q := range o.evs {
			if q.kind == EvMapUpdate && q.args[0] == m {
				ok = false
			}
		}
		for _, e := range v.exits {
			if e.loop == ev.loop {
				done := false
				e.facts.each(func(t *Term, b bool) {
					if t.op == "rangeok" && !b {
						done = true
					}
				})
				ok = ok && done
			}
		}
		if ok {
			return m
		}
	}
	return nil
}

// isRangeVal: is v the value under key of the map being ranged over?
func isRangeVal(x *X, v, key *Term) bool {
	if v.op == "rangeval" {
		return v.args[0] == key.args[0]
	}
	return v.op == "init" && v.args[0].op == "mapelem" && v.args[0].args[0] == key.args[0] && v.args[0].args[1] == key || v.op == "lookup" && v.args[0] == key.args[0] && v.args[1] == key
}

// ---------------------------------------------------------------- truncation

const truncRule = "truncation"

// truncGo is the goroutine a new store starts to truncate itself.
func (s *storeScn) truncGo() (*Event, *Term, *Outcome) {
	x, c := s.x, s.c
	ns := x.Fn("internal/cache/store", "", "NewStore")
	var g *Event
	var st *Term
	var ro *Outcome
	for _, o := range x.Root(ns, nil, nil, nil) {
		if o.Panic {
			continue
		}
		var gos []*Event
		for _, e := range o.evs {
			if e.kind == EvGo {
				gos = append(gos, e)
			}
		}
		if len(gos) != 1 {
			c.ob(false, truncRule, "goroutine", "NewStore starts %d goroutines: %s", len(gos), x.pathStr(o))
			continue
		}
		g, st, ro = gos[0], o.Vals[0], o
	}
	if g == nil {
		x.giveUp("NewStore starts no goroutine")
	}
	return g, st, ro
}

// truncPass runs the goroutine and returns the iterations of its endless loop.
func (s *storeScn) truncPass() (*Endless, []*IterPath, []*Outcome) {
	x, c := s.x, s.c
	g, st, ro := s.truncGo()
	s.store = st
	s.st = ro.St.clone()
	s.st.trace = nil
	s.on(st)
	// later, other goroutines have used the store
	for _, f := range []string{"count", "oldestTimestamp"} {
		a := x.FieldNamed(st, s.stT, f)
		x.storeMem(s.st.wmem(), a, x.symOf("store."+f, derefType(a.typ)), derefType(a.typ))
	}
	x.endless = nil
	if g.fnv == nil {
		x.giveUp("the goroutine at %s is not recognised", x.where(g))
	}
	outs := x.CallTerm(g.fnv, g.args, s.st)
	var ended []*Outcome
	for _, o := range outs {
		if !o.Endless {
			ended = append(ended, o)
		}
	}
	outs = ended
	for _, o := range outs {
		if !o.Panic {
			c.ob(false, truncRule, "endless", "the truncating goroutine ends: %s", x.pathStr(o))
		}
	}
	var en *Endless
	for _, e := range x.endless {
		if en == nil || e.loop.startT < en.loop.startT {
			en = e
		}
	}
	if en == nil {
		x.giveUp("the truncating goroutine has no endless loop")
	}
	return en, en.loop.iters, outs
}

func checkC33(c *C) {
	s := c.newStore()
	x, T := s.x, s.T
	en, iters, outs := s.truncPass()
	for _, o := range outs {
		if o.Panic {
			c.ob(false, truncRule, "panic", "the truncating goroutine may panic: %s", x.pathStr(o))
		}
	}
	countA := x.FieldNamed(s.store, s.stT, "count")
	oldestA := x.FieldNamed(s.store, s.stT, "oldestTimestamp")
	index := x.FieldNamed(s.store, s.stT, "storageIndex")
	mc := x.LoadField(s.st.mem, s.store, s.stT, "mc")
	done := x.LoadField(s.st.mem, s.store, s.stT, "truncationCompleted")
	n, nPrune := 0, 0
	var heapT types.Type
	for _, it := range iters {
		path := func() string {
			t := it.facts.String()
			if len(t) > 600 {
				t = t[:600] + "…"
			}
			return "path [" + t + "]"
		}
		// T1: waits, and can wait again
		s.waits(en, it, path)
		// T2: how much is asked for
		var ask *Event
		nAsk := 0
		for _, e := range it.events {
			if isExtCall(e) && methodIs(e, "GetQuantityToPrune") {
				ask = e
				nAsk++
				c.ob(e.args[0] == mc, truncRule, "consultant", "the quantity to prune is asked of %s at %s", e.args[0], x.where(e))
				a := x.loadMem(e.mem, countA, derefType(countA.typ))
				c.ob(stripConv(e.args[1]) == a, truncRule, "count asked about", "the quantity to prune is asked for %s entries, not for the store's count, at %s", e.args[1], x.where(e))
			}
		}
		if !c.ob(nAsk == 1, truncRule, "asked once", "a truncation asks %d times how much to prune: %s", nAsk, path()) {
			continue
		}
		n++
		q := ask.res[0]
		// nothing removed outside the pruning loop
		var prune *Event
		for _, e := range it.events {
			m := treeCall(e)
			c.ob(m == "" || readOnlyTree[m], truncRule, "removal", "envelopes are removed outside the pruning loop at %s", x.where(e))
			c.ob(!(isExtCall(e) && e.name == "(*sync.Map).Delete" && e.args[0] == index), truncRule, "index", "a source is dropped outside the pruning loop at %s", x.where(e))
			if e.kind == EvLoop && removes(e.loop) {
				c.ob(prune == nil, truncRule, "pruning loops", "a truncation removes envelopes in several loops: %s", path())
				prune = e
			}
			if e.kind == EvSend {
				c.ob(false, truncRule, "blocking send", "the truncating goroutine blocks until somebody receives at %s", x.where(e))
			}
			if e.kind == EvSelect && strings.HasPrefix(e.name, "select-send") {
				c.ob(e.args[0] == done || true, truncRule, "completion", "")
			}
		}
		if prune == nil {
			// only when nothing is asked for, or there is nothing
			_, may := x.with(it.facts, T.Lt(T.Int(0), q), true)
			if may && it.facts.Eval(T.Eq(q, T.Int(0))) != 1 {
				c.ob(false, truncRule, "asked and ignored", "a truncation that is asked to prune removes nothing: %s", path())
			}
			c.ob(len(s.metricCalls(it.events, "incExpired", "Add")) == 0, truncRule, "idle", "a truncation without removals counts expired envelopes: %s", path())
			continue
		}
		nPrune++
		// T3: how often it removes
		cnt := x.loadMem(ask.mem, countA, derefType(countA.typ))
		s.pruneBound(prune, it, q, cnt, path)
		// T4: each removal
		heapObj := s.removals(prune, index, countA, path)
		if heapObj == nil {
			continue
		}
		heapT = derefType(heapObj.typ)
		// T5: what the heap holds
		s.heapFilled(it, prune, heapObj, index, path)
		// T6: what is left behind
		s.leftBehind(it, prune, heapObj, countA, oldestA, path)
	}
	c.need(n, 2, truncRule, "truncations")
	c.need(nPrune, 1, truncRule, "pruning truncations")
	fake := []*Outcome{}
	for _, it := range iters {
		o := &Outcome{evs: it.events}
		fake = append(fake, o)
	}
	s.leftNonEmpty(fake, truncRule, "truncation")
	c.noMay(x, fake, truncRule, "truncation", "index", "slicebounds", "nilmap", "divzero")
	if heapT != nil {
		s.heapType(heapT)
	}
	s.metaReport()
	s.prunesCorrectly()
}

var readOnlyTree = map[string]bool{"Size": true, "Empty": true, "Left": true, "Right": true, "Get": true, "Keys": true, "Values": true, "Floor": true, "Ceiling": true, "String": true, "Iterator": true}

func removes(l *LoopInfo) bool {
	r := false
	for _, it := range l.iters {
		allEvents(it.events, func(q *Event) {
			if m := treeCall(q); m != "" && !readOnlyTree[m] {
				r = true
			}
		})
	}
	return r
}

// waits: every pass waits on a timer that fires again.
func (s *storeScn) waits(en *Endless, it *IterPath, path func() string) {
	x, c := s.x, s.c
	pos := func(d *Term) bool {
		v, ok := d.IntVal()
		return ok && v > 0
	}
	timers := map[*Term]string{}
	for _, e := range append(append([]*Event{}, en.before...), it.events...) {
		if isExtCall(e) && len(e.res) == 1 {
			switch e.name {
			case "time.NewTimer", "time.NewTicker":
				if c.ob(pos(e.args[0]), truncRule, "interval", "the truncation interval is %s at %s", e.args[0], x.where(e)) {
					timers[e.res[0]] = e.name
				}
			case "time.After", "time.Tick":
				if c.ob(pos(e.args[0]), truncRule, "interval", "the truncation interval is %s at %s", e.args[0], x.where(e)) {
					timers[e.res[0]] = e.name
				}
			}
		}
	}
	ok := false
	for _, e := range it.events {
		if isExtCall(e) && e.name == "time.Sleep" && pos(e.args[0]) {
			ok = true
		}
		if e.kind != EvRecv {
			continue
		}
		ch := e.args[0]
		t := ch
		if ch.op == "init" && fieldName(ch.args[0]) == "C" {
			t = ch.args[0].args[0]
		}
		switch timers[t] {
		case "time.NewTicker", "time.Tick":
			ok = true
		case "time.After":
			ok = ok || t.id > en.loop.startT
		case "time.NewTimer":
			for _, r := range it.events {
				if isExtCall(r) && r.name == "(*time.Timer).Reset" && r.args[0] == t && pos(r.args[1]) && r.id > e.id {
					ok = true
				}
			}
			if t.id > en.loop.startT {
				ok = true
			}
		}
	}
	c.ob(ok, truncRule, "repeats", "a truncation does not wait for a timer that fires again for the next one: %s", path())
}

// pruneBound: the pruning loop runs at most q times, and ends before only
// when it has pruned everything counted or nothing is left.
func (s *storeScn) pruneBound(prune *Event, it *IterPath, q, count *Term, path func() string) {
	x, T, c := s.x, s.T, s.c
	l := prune.loop
	le := func(f *Facts, a, b *Term, k int64) bool {
		if f.clone().entLE(a, b, k) {
			return true
		}
		r := T.Lt(b, a)
		if k == -1 {
			return f.Eval(T.Lt(a, b)) == 1
		}
		return k == 0 && f.Eval(r) == -1
	}
	ok := false
	var exitOK func(f *Facts) bool
	for _, p := range x.locals(l) {
		if p.init == nil || !isIntType(p.sym.typ) {
			continue
		}
		if k0, isC := p.init.IntVal(); isC && k0 >= 0 {
			good := len(l.iters) > 0
			for _, i := range l.iters {
				nx := i.next[p.sym]
				good = good && i.facts.clone().entLE(p.sym, nx, -1) && le(i.facts, p.sym, q, -1)
			}
			if good {
				ok = true
				pp := p
				exitOK = func(f *Facts) bool {
					return k0 == 0 && (le(f, q, pp.sym, 0) || le(f, count, pp.sym, 0)) && s.stepsByOne(l, pp, 1)
				}
			}
		} else if !isC {
			// counts down
			good := len(l.iters) > 0 && le(prune.facts, p.init, q, 0)
			for _, i := range l.iters {
				good = good && i.facts.clone().entLE(i.next[p.sym], p.sym, -1) && le(i.facts, T.Int(0), p.sym, -1)
			}
			if good {
				ok = true
				pp := p
				exitOK = func(f *Facts) bool { return le(f, pp.sym, T.Int(0), 0) && s.stepsByOne(l, pp, -1) }
			}
		}
		if ok {
			break
		}
	}
	if !c.ob(ok, truncRule, "quantity", "a truncation may remove more envelopes than it was asked to: %s", path()) {
		return
	}
	for _, e := range it.events {
		if e.kind != EvLoopExit || e.loop != l {
			continue
		}
		empty := false
		for _, t := range e.facts.terms() {
			if t.op == "len" && x.isHeapSlice(t.args[0]) && e.facts.clone().entLE(t, T.Int(0), 0) {
				empty = true
			}
		}
		c.ob(empty || exitOK(e.facts), truncRule, "quantity reached", "a truncation may stop before it removed what it was asked to: %s", path())
	}
}

// isHeapSlice: a slice of records that hold a storage.
func (x *X) isHeapSlice(t *Term) bool {
	if t.typ == nil {
		return false
	}
	sl, ok := t.typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	u, ok := sl.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if n, ok := derefType(u.Field(i).Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == storePkg && isPtr(u.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (s *storeScn) stepsByOne(l *LoopInfo, p *LoopPhi, d int64) bool {
	for _, i := range l.iters {
		if i.next[p.sym] != s.T.plus(p.sym, d, p.sym.typ) {
			return false
		}
	}
	return true
}

// entry of the heap: fields by kind.
func (s *storeScn) entryField(entry *Term, kind string) *Term {
	u, ok := entry.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		t := u.Field(i).Type()
		if kind == "time" && isInt64(t) || kind == "id" && isStringType(t) || kind == "storage" && isPtr(t) && derefType(t) == s.sgT {
			return s.x.valField(entry, i)
		}
	}
	return nil
}

// removals checks each pass of the pruning loop; it returns the heap.
func (s *storeScn) removals(prune *Event, index, countA *Term, path func() string) *Term {
	x, T, c := s.x, s.T, s.c
	var heapObj *Term
	mark := s.removedMark()
	nRem := 0
	for _, it := range prune.loop.iters {
		var pop, rem, del, push *Event
		var size, left *Event // last before / after
		var cnt, dec []*Event
		for _, e := range it.events {
			if e.kind == EvLoop {
				c.ob(!removes(e.loop), truncRule, "one removal", "a pass of the pruning loop removes envelopes in a loop of its own: %s", path())
			}
			if isExtCall(e) {
				switch e.name {
				case "container/heap.Pop":
					c.ob(pop == nil, truncRule, "one pop", "a pass of the pruning loop takes several sources: %s", path())
					pop = e
				case "container/heap.Push":
					c.ob(push == nil, truncRule, "one push", "a pass of the pruning loop returns several sources: %s", path())
					push = e
				case "(*sync.Map).Delete", "(*sync.Map).LoadAndDelete":
					if e.args[0] == index {
						del = e
					}
				case "(*sync.Map).Store", "(*sync.Map).Swap", "(*sync.Map).Clear", "(*sync.Map).LoadOrStore", "(*sync.Map).CompareAndDelete":
					c.ob(e.args[0] != index, truncRule, "index", "truncation changes the index at %s", x.where(e))
				case "sync/atomic.AddInt64":
					if e.args[0] == countA {
						dec = append(dec, e)
					}
				}
			}
			switch m := treeCall(e); m {
			case "Remove":
				c.ob(rem == nil, truncRule, "one removal", "a pass of the pruning loop removes several envelopes: %s", path())
				rem = e
			case "Size":
				if rem == nil {
					size = e
				}
			case "Left":
				if rem == nil {
					left = e
				}
			default:
				c.ob(m == "" || readOnlyTree[m], truncRule, "removal", "truncation calls %s on a tree at %s", m, x.where(e))
			}
		}
		cnt = s.metricCalls(it.events, "incExpired", "Add")
		if !c.ob(pop != nil, truncRule, "pop", "a pass of the pruning loop does not take the source with the oldest envelope off the heap: %s", path()) {
			continue
		}
		h := stripIface(pop.args[0])
		s.popsFrom(pop)
		if heapObj == nil {
			heapObj = h
		}
		c.ob(h == heapObj && (push == nil || stripIface(push.args[0]) == heapObj), truncRule, "one heap", "the pruning loop works on several heaps: %s", path())
		var entry *Term
		for _, e := range it.events {
			for _, a := range e.args {
				walkTerm(a, func(q *Term) {
					if q.op == "assert" && q.args[0] == pop.res[0] {
						entry = q
					}
				})
			}
		}
		if !c.ob(entry != nil, truncRule, "popped source", "a pass of the pruning loop ignores the source it took off the heap: %s", path()) {
			continue
		}
		sg := s.entryField(entry, "storage")
		tm := s.entryField(entry, "time")
		id := s.entryField(entry, "id")
		if sg == nil || tm == nil {
			x.giveUp("the heap's entries hold no storage and time")
		}
		if rem == nil {
			// allowed only if the source is empty, which needs nothing else done
			emp := size != nil && s.owner(size, size.args[0]) == sg && it.facts.Eval(T.Eq(size.res[0], T.Int(0))) == 1
			c.ob(emp, truncRule, "skipped source", "a pass of the pruning loop removes nothing although the oldest source may hold envelopes: %s", path())
			c.ob(len(cnt) == 0 && len(dec) == 0, truncRule, "counted removals", "a pass without removal counts one: %s", path())
			c.ob(push == nil, truncRule, "empty source", "an empty source is put back on the heap: %s", path())
			continue
		}
		nRem++
		c.ob(s.owner(rem, rem.args[0]) == sg, truncRule, "removed from", "an envelope is removed from %s, not from the source that holds the oldest: %s", rem.args[0], path())
		k := stripIface(rem.args[1])
		okK := left != nil && left.args[0] == rem.args[0] && s.mode(left, sg) == 2 && k == x.LoadField(left.mem, left.res[0], s.node, "Key")
		c.ob(okK, truncRule, "removed envelope", "truncation removes %s, which is not the oldest envelope of its source: %s", rem.args[1], path())
		c.ob(len(dec) == 1 && minusOne(dec[0].args[1]), truncRule, "count", "the store's count is not lowered by one for a removed envelope: %s", path())
		c.ob(len(cnt) == 1 && isOne(stripConv(cnt[0].args[1])), truncRule, "expired metric", "a removed envelope is not counted once in log_cache_expired: %s", path())
		// what is left of the source
		var after, left2 *Event
		for _, e := range it.events {
			if e.id > rem.id && treeCall(e) == "Size" && e.args[0] == rem.args[0] && s.mode(e, sg) > 0 {
				after = e
			}
			if e.id > rem.id && treeCall(e) == "Left" && e.args[0] == rem.args[0] && s.mode(e, sg) > 0 {
				left2 = e
			}
		}
		gone := 0
		if after != nil {
			gone = it.facts.Eval(T.Eq(after.res[0], T.Int(0)))
		} else if left2 != nil {
			gone = x.isNil(it.facts, left2.res[0])
		} else if size != nil {
			// the size before was compared with one
			gone = it.facts.Eval(T.Eq(size.res[0], T.Int(1)))
		}
		if !c.ob(gone != 0, truncRule, "emptied", "truncation does not look at whether it emptied the source: %s", path()) {
			continue
		}
		marked := (*Event)(nil)
		var mexp, mold *Event
		for _, e := range it.events {
			if e.kind != EvStore {
				continue
			}
			switch {
			case mark != "" && e.addr == x.FieldNamed(sg, s.sgT, mark):
				marked = e
			case e.addr == s.metaAddr(sg, "Expired"):
				mexp = e
			case e.addr == s.metaAddr(sg, "OldestTimestamp"):
				mold = e
			case rootOf(e.addr) == rootOf(sg) && e.addr.op == "fieldaddr" && s.ofStorage(e.addr, sg):
				c.ob(false, truncRule, "storage", "truncation changes %s at %s", e.addr, x.where(e))
			}
		}
		if gone == 1 {
			okD := del != nil && s.mode(del, sg) == 2 && (id != nil && stripIface(del.args[1]) == id || s.isSourceID(stripIface(del.args[1]), sg))
			c.ob(okD, truncRule, "emptied source", "a source without envelopes stays in the index, or another leaves it, or it leaves unlocked: %s", path())
			okM := marked != nil && s.mode(marked, sg) == 2 && marked.val.String() == "true"
			c.ob(okM, truncRule, "removed mark", "a source leaves the index unmarked, so a concurrent insertion can go into it and be lost: %s", path())
			c.ob(push == nil, truncRule, "emptied source", "a source without envelopes is put back on the heap: %s", path())
			continue
		}
		c.ob(del == nil && marked == nil, truncRule, "kept source", "a source that holds envelopes leaves the index: %s", path())
		okE := mexp != nil && s.plusN(mexp.val, s.metaAt(newMem(), sg, "Expired"), 1)
		c.ob(okE, truncRule, "meta expired", "a source's expired count does not grow by one for a removed envelope: %s", path())
		okO := mold != nil && left2 != nil && s.isKeyTime(mold.val, left2.res[0])
		c.ob(okO, truncRule, "meta oldest", "a source's oldest timestamp is not that of its oldest remaining envelope: %s", path())
		if c.ob(push != nil, truncRule, "kept source", "a source that holds envelopes is not considered again: %s", path()) {
			ne := stripIface(push.args[1])
			okP := ne.typ != nil && types.Identical(ne.typ, entry.typ) && left2 != nil && s.isKeyTime(s.entryField(ne, "time"), left2.res[0]) && s.entryField(ne, "storage") == sg
			if i := s.entryField(ne, "id"); i != nil && okP {
				okP = i == id
			}
			c.ob(okP, truncRule, "kept source", "a source is put back on the heap as %s, not under its new oldest timestamp: %s", ne, path())
		}
	}
	c.need(nRem, 1, truncRule, "removing passes")
	return heapObj
}

// popsFrom: nothing is taken off an empty heap.
func (s *storeScn) popsFrom(pop *Event) {
	ok := false
	for _, t := range pop.facts.terms() {
		if t.op == "len" && s.x.isHeapSlice(t.args[0]) && (pop.facts.clone().entLE(s.T.Int(1), t, 0) || pop.facts.Eval(s.T.Eq(t, s.T.Int(0))) == -1) {
			ok = true
		}
	}
	s.c.ob(ok, truncRule, "empty heap", "truncation may take a source off an empty heap, which panics, at %s", s.x.where(pop))
}

func minusOne(t *Term) bool {
	v, ok := t.IntVal()
	return ok && v == -1
}

// ofStorage: is addr inside sg?
func (s *storeScn) ofStorage(addr, sg *Term) bool {
	for a := addr; a != nil && len(a.args) > 0; a = a.args[0] {
		if a.op != "fieldaddr" {
			return false
		}
		if a.args[0] == sg {
			return true
		}
	}
	return false
}

// isSourceID: the storage's own record of its source id.
func (s *storeScn) isSourceID(t, sg *Term) bool {
	return t.op == "init" && t.args[0].op == "fieldaddr" && t.args[0].args[0] == sg && isStringType(t.typ)
}

// heapFilled: the heap the loop works on holds every source that has
// envelopes, under its oldest timestamp.
func (s *storeScn) heapFilled(it *IterPath, prune *Event, heapObj, index *Term, path func() string) {
	x, T, c := s.x, s.T, s.c
	c.ob(isFreshObj(heapObj), truncRule, "fresh heap", "truncation works on a heap left from before: %s", path())
	n := 0
	for _, e := range it.events {
		if e.kind != EvLoop || e == prune {
			continue
		}
		ranged := false
		for _, p := range it.events {
			if isExtCall(p) && p.name == "(*sync.Map).Range" && p.args[0] == index && p.pos == e.pos {
				ranged = true
			}
		}
		if !ranged {
			continue
		}
		n++
		for _, li := range e.loop.iters {
			var push, size, left *Event
			var rk, rv *Term
			np := 0
			for _, q := range li.events {
				for _, a := range q.args {
					walkTerm(a, func(t *Term) {
						if strings.HasPrefix(t.op, "rangekey") {
							rk = t
						}
						if strings.HasPrefix(t.op, "rangeval") {
							rv = t
						}
					})
				}
				if isExtCall(q) && q.name == "container/heap.Push" {
					push = q
					np++
				}
				switch treeCall(q) {
				case "Size":
					size = q
				case "Left":
					left = q
				case "":
				default:
					c.ob(readOnlyTree[treeCall(q)], truncRule, "heap", "collecting the sources calls %s at %s", treeCall(q), x.where(q))
				}
			}
			if rv == nil {
				c.ob(false, truncRule, "heap", "a source of the index is ignored: %s", path())
				continue
			}
			if push == nil {
				ok := size != nil && li.facts.Eval(T.Eq(size.res[0], T.Int(0))) == 1 || left != nil && x.isNil(li.facts, left.res[0]) == 1
				c.ob(ok, truncRule, "heap", "a source that may hold envelopes is left out of truncation: %s", path())
				continue
			}
			ne := stripIface(push.args[1])
			sg := s.entryField(ne, "storage")
			ok := np == 1 && stripIface(push.args[0]) == heapObj && sg != nil && sg.op == "assert" && sg.args[0] == rv && left != nil && s.owner(left, left.args[0]) == sg && s.mode(left, sg) > 0 && s.isKeyTime(s.entryField(ne, "time"), left.res[0])
			if id := s.entryField(ne, "id"); id != nil && ok {
				ok = id.op == "assert" && id.args[0] == rk
			}
			c.ob(ok, truncRule, "heap", "a source enters the heap as %s, not under its oldest timestamp: %s", ne, path())
		}
		// the range ends only when it is exhausted
		for _, q := range it.events {
			if q.kind == EvLoopExit && q.loop == e.loop {
				stop := false
				for _, p := range it.events {
					if p.id > e.id && p.id < q.id {
						for _, a := range p.args {
							stop = stop || mentions(a, "rangekey")
						}
					}
				}
				c.ob(!stop, truncRule, "heap", "collecting the sources can stop early: %s", path())
			}
		}
	}
	c.need(n, 1, truncRule, "ranges over the index")
}

// leftBehind: what a pruning truncation records at its end.
func (s *storeScn) leftBehind(it *IterPath, prune *Event, heapObj, countA, oldestA *Term, path func() string) {
	x, T, c := s.x, s.T, s.c
	size := s.metricCalls(it.events, "setStoreSize", "Set")
	cp := s.metricCalls(it.events, "setCachePeriod", "Set")
	ok := len(size) == 1 && size[0].id > prune.id
	if ok {
		v := stripConv(size[0].args[1])
		ok = v == x.loadMem(size[0].mem, countA, derefType(countA.typ))
	}
	c.ob(ok, truncRule, "size metric", "a truncation does not end by setting log_cache_store_size to the count: %s", path())
	var pop *Event
	var st *Event
	for _, e := range it.events {
		if e.id < prune.id {
			continue
		}
		if isExtCall(e) && e.name == "container/heap.Pop" && stripIface(e.args[0]) == heapObj {
			pop = e
		}
		if isExtCall(e) && strings.HasPrefix(e.name, "sync/atomic.StoreInt64") && e.args[0] == oldestA {
			st = e
		}
	}
	// a storage is always a record of the index
	if pop != nil {
		s.popsFrom(pop)
		f := it.facts
		for _, t := range f.terms() {
			if t.op == "eq" && (t.args[0].IsNil() || t.args[1].IsNil()) && f.Eval(t) == 1 {
				imposs := false
				walkTerm(t, func(q *Term) {
					if q.op == "assert" && q.args[0] == pop.res[0] {
						imposs = true
					}
				})
				if imposs {
					return // the popped entry has a storage
				}
			}
		}
	}
	if !c.ob(st != nil && len(cp) == 1, truncRule, "cache period", "a truncation does not record the oldest remaining timestamp and the cache period once: %s", path()) {
		return
	}
	if pop == nil {
		empty := false
		for _, t := range it.facts.terms() {
			if t.op == "len" && x.isHeapSlice(t.args[0]) && it.facts.clone().entLE(t, T.Int(0), 0) {
				empty = true
			}
		}
		v, isC := st.args[1].IntVal()
		z, isZ := cp[0].args[1].FloatVal()
		if iz, ok := cp[0].args[1].IntVal(); ok {
			z, isZ = float64(iz), true
		}
		c.ob(empty && isC && v == 1<<63-1 && isZ && z == 0, truncRule, "empty store", "a truncation does not reset the cache period, or does so although envelopes remain: %s", path())
		return
	}
	isT := func(t *Term) bool {
		return t.op == "field" && isInt64(t.typ) && t.args[0].op == "assert" && t.args[0].args[0] == pop.res[0]
	}
	c.ob(isT(st.args[1]), truncRule, "oldest timestamp", "the store's oldest timestamp becomes %s: %s", st.args[1], path())
	dep, now := false, false
	walkTerm(cp[0].args[1], func(q *Term) {
		dep = dep || isT(q)
		now = now || strings.Contains(q.String(), "time.Now") || q.ev != nil && q.ev.name == "time.Now"
	})
	c.ob(dep && now, truncRule, "cache period", "the cache period becomes %s, which is not the age of the oldest envelope: %s", cp[0].args[1], path())
}

// mentions: does a term of the given operation occur in t?
func mentions(t *Term, op string) bool {
	r := false
	walkTerm(t, func(q *Term) { r = r || strings.HasPrefix(q.op, op) })
	return r
}

func zeroOrNone(t *Term) bool {
	if t == nil || t.IsNil() {
		return true
	}
	v, ok := t.IntVal()
	return ok && v == 0
}

// valField: field i of a struct value.
func (x *X) valField(v *Term, i int) *Term {
	st := structOf(v.typ)
	fa := x.T.FieldAddr(x.T.mk("valaddr", "", types.NewPointer(v.typ), v), v.typ, i)
	if r := x.fieldOf(v, fa); r != nil {
		return r
	}
	return x.T.mk("field", fa.sym, st.Field(i).Type(), v)
}

// heapType: the heap orders by timestamp, and is a heap at all.
func (s *storeScn) heapType(h types.Type) {
	x, T, c := s.x, s.T, s.c
	const rule = "heap"
	named, ok := h.(*types.Named)
	if !ok {
		x.giveUp("the heap has no named type")
	}
	method := func(m string) (*ssa.Function, bool) {
		for i := 0; i < named.NumMethods(); i++ {
			if g := named.Method(i); g.Name() == m {
				return x.prog.FuncValue(g), isPtr(g.Type().(*types.Signature).Recv().Type())
			}
		}
		x.giveUp("the heap has no method %s", m)
		return nil, false
	}
	slice := x.symOf("heap", h)
	setup := func(m string) (*ssa.Function, *State, []*Term, *Term) {
		f, ptr := method(m)
		st := x.newState()
		ps := x.params(f)
		cell := ps[0]
		if ptr {
			st.wfacts().Assume(T.Eq(cell, T.Nil()), false)
			x.storeMem(st.wmem(), cell, slice, h)
		} else {
			ps[0] = slice
			cell = nil
		}
		return f, st, ps, cell
	}
	elem := elemTypeOf(h)
	at := func(m *Mem, i *Term) *Term { return x.loadMem(m, T.IndexAddr(slice, i, elem), elem) }
	inb := func(st *State, is ...*Term) {
		for _, i := range is {
			st.wfacts().assumeLE(T.Int(0), i, 0)
			st.wfacts().assumeLE(i, T.Len(slice), -1)
		}
	}
	// Len
	f, st, ps, _ := setup("Len")
	for _, o := range c.rets(x, x.Root(f, st, ps, nil), rule, "Len") {
		c.ob(x.settled(o.Vals[0]) == T.Len(slice), rule, "Len", "the heap's Len is %s", o.Vals[0])
	}
	// Less
	f, st, ps, _ = setup("Less")
	i, j := ps[1], ps[2]
	inb(st, i, j)
	ti, tj := s.entryField(at(st.mem, i), "time"), s.entryField(at(st.mem, j), "time")
	for _, o := range c.rets(x, x.Root(f, st, ps, nil), rule, "Less") {
		for _, b := range []bool{true, false} {
			if fc, ok := x.with(o.St.facts, T.Lt(ti, tj), b); ok {
				// entries of one timestamp may be told apart in any way
				if !b {
					if fc, ok = x.with(fc, T.Lt(tj, ti), true); !ok {
						continue
					}
				}
				c.ob(x.boolIs(fc, o.Vals[0], b), rule, "Less", "the heap does not put the older entry first: Less is %s: %s", o.Vals[0], x.pathStr(o))
			}
		}
	}
	// Swap
	f, st, ps, _ = setup("Swap")
	i, j = ps[1], ps[2]
	inb(st, i, j)
	ei, ej := at(st.mem, i), at(st.mem, j)
	for _, o := range c.rets(x, x.Root(f, st, ps, nil), rule, "Swap") {
		got := map[*Term]*Term{}
		n := 0
		for _, e := range o.evs {
			if e.kind == EvStore && !isFreshObj(rootOf(e.addr)) {
				got[e.addr] = e.val
				n++
			}
		}
		c.ob(n == 2 && got[T.IndexAddr(slice, i, elem)] == ej && got[T.IndexAddr(slice, j, elem)] == ei, rule, "Swap", "the heap's Swap does not exchange the entries: %s", x.pathStr(o))
	}
	// Push
	f, st, ps, cell := setup("Push")
	if cell == nil {
		x.giveUp("the heap's Push has no pointer receiver")
	}
	v := x.symOf("entry", elem)
	ps[1] = x.iface(v, elem)
	for _, o := range c.rets(x, x.Root(f, st, ps, nil), rule, "Push") {
		got := x.loadMem(o.St.mem, cell, h)
		c.ob(got.op == "append" && len(got.args) == 2 && got.args[0] == slice && got.args[1] == v, rule, "Push", "the heap's Push turns it into %s", got)
	}
	// Pop
	f, st, ps, cell = setup("Pop")
	if cell == nil {
		x.giveUp("the heap's Pop has no pointer receiver")
	}
	st.wfacts().assumeLE(T.Int(1), T.Len(slice), 0)
	last := T.plus(T.Len(slice), -1, types.Typ[types.Int])
	want := at(st.mem, last)
	for _, o := range c.rets(x, x.Root(f, st, ps, nil), rule, "Pop") {
		got := x.settled(x.loadMem(o.St.mem, cell, h))
		c.ob(stripIface(o.Vals[0]) == want, rule, "Pop", "the heap's Pop returns %s, not its last entry", o.Vals[0])
		okS := got.op == "slice" && got.args[0] == slice && zeroOrNone(got.args[1]) && len(got.args) > 2 && got.args[2] == last
		c.ob(okS, rule, "Pop", "the heap's Pop leaves %s", got)
	}
}

// metaReport: Meta tells of every source what its storage holds.
func (s *storeScn) metaReport() {
	c := s.c
	s2 := c.newStore()
	x := s2.x
	const rule = "meta report"
	meta := x.Fn("internal/cache/store", "*Store", "Meta")
	index := x.FieldNamed(s2.store, s2.stT, "storageIndex")
	ps := x.params(meta)
	ps[0] = s2.store
	outs := c.rets(x, x.Root(meta, s2.st, ps, nil), rule, "Meta")
	n := 0
	for _, o := range outs {
		for _, e := range o.evs {
			for _, a := range e.args {
				c.ob(!mentions(a, "rangekey"), rule, "entries", "Meta can stop before the last source: %s", x.pathStr(o))
			}
			c.ob(e.kind != EvMapUpdate, rule, "entries", "Meta adds a source of its own at %s", x.where(e))
			if e.kind != EvLoop {
				continue
			}
			ranged := false
			for _, p := range o.evs {
				if isExtCall(p) && p.name == "(*sync.Map).Range" && p.args[0] == index {
					ranged = true
				}
			}
			if !ranged {
				continue
			}
			for _, it := range e.loop.iters {
				var ups []*Event
				var size *Event
				for _, q := range it.events {
					if q.kind == EvMapUpdate {
						ups = append(ups, q)
					}
					if m := treeCall(q); m == "Size" {
						size = q
					} else {
						c.ob(m == "" || readOnlyTree[m], rule, "read only", "Meta calls %s on a tree at %s", m, x.where(q))
					}
				}
				if !c.ob(len(ups) == 1, rule, "entries", "Meta reports %d entries for a source: %s", len(ups), x.pathStr(o)) {
					continue
				}
				n++
				u := ups[0]
				c.ob(u.args[0] == o.Vals[0], rule, "report", "Meta does not return the report it fills: %s", x.pathStr(o))
				c.ob(o.Vals[0].op == "makemap", rule, "own report", "Meta fills %s, which may hold sources of an earlier report: %s", o.Vals[0], x.pathStr(o))
				k := u.args[1]
				c.ob(k.op == "assert" && strings.HasPrefix(k.args[0].op, "rangekey"), rule, "source id", "Meta reports a source as %s", k)
				v := u.args[2]
				mt := v.typ
				st, ok := mt.Underlying().(*types.Struct)
				if !ok {
					x.giveUp("the meta report holds no struct")
				}
				for i := 0; i < st.NumFields(); i++ {
					fn := st.Field(i).Name()
					fv := x.settled(x.valField(v, i))
					switch {
					case strings.HasPrefix(fn, "XXX"):
					case fn == "Count":
						okC := size != nil && stripConv(fv) == size.res[0]
						var sg *Term
						if size != nil {
							sg = s2.owner(size, size.args[0])
							okC = okC && sg != nil && sg.op == "assert" && strings.HasPrefix(sg.args[0].op, "rangeval") && s2.mode(size, sg) > 0
						}
						c.ob(okC, rule, "count", "Meta reports %s as a source's count, not the size of its tree: %s", fv, x.pathStr(o))
					default:
						okF := false
						walkTerm(fv, func(q *Term) {})
						if fv.op == "init" && fieldName(fv.args[0]) == fn && fieldName(fv.args[0].args[0]) == s2.sgField("meta") {
							sg := fv.args[0].args[0].args[0]
							okF = sg.op == "assert" && strings.HasPrefix(sg.args[0].op, "rangeval")
						}
						if fv.op == "field" && fv.args[0].op == "init" && fieldName(fv.args[0].args[0]) == s2.sgField("meta") {
							sg := fv.args[0].args[0].args[0]
							okF = sg.op == "assert" && strings.HasPrefix(sg.args[0].op, "rangeval")
						}
						c.ob(okF, rule, fn, "Meta reports %s as a source's %s: %s", fv, fn, x.pathStr(o))
					}
				}
			}
		}
	}
	c.need(n, 1, rule, "reported sources")
}

// prunesCorrectly: what the memory consultant asks for.
func (s *storeScn) prunesCorrectly() {
	c := s.c
	x := c.newX()
	T := x.T
	const rule = "memory"
	f := x.Fn("internal/cache/store", "*PruneConsultant", "GetQuantityToPrune")
	pt := x.NamedType(storePkg, "PruneConsultant")
	st := x.newState()
	ps := x.params(f)
	st.wfacts().Assume(T.Eq(ps[0], T.Nil()), false)
	st.wfacts().Assume(T.Eq(x.LoadField(st.mem, ps[0], pt, "m"), T.Nil()), false)
	limit := x.LoadField(st.mem, ps[0], pt, "percentToFill")
	gauge := x.LoadField(st.mem, ps[0], pt, "reportMemory")
	outs := c.rets(x, x.Root(f, st, ps, nil), rule, "GetQuantityToPrune")
	nz, np := 0, 0
	for _, o := range outs {
		var mem *Event
		var sets []*Event
		for _, e := range o.evs {
			if isExtCall(e) && methodIs(e, "Memory") {
				c.ob(mem == nil, rule, "one reading", "the memory is read twice: %s", x.pathStr(o))
				mem = e
			}
			if isExtCall(e) && methodIs(e, "Set") && e.args[0] == gauge {
				sets = append(sets, e)
			}
		}
		if !c.ob(mem != nil, rule, "reading", "how much to prune does not depend on the memory in use: %s", x.pathStr(o)) {
			continue
		}
		heap, total := mem.res[0], mem.res[2]
		// the comparison
		var use *Term
		over := 0
		for _, t := range o.St.facts.terms() {
			if t.op != "lt" || len(t.args) != 2 {
				continue
			}
			for i, a := range t.args {
				if a == limit && derives(t.args[1-i], heap) && derives(t.args[1-i], total) {
					use = t.args[1-i]
					r := o.St.facts.Eval(t)
					if i == 1 {
						r = -r
					}
					over = r
				}
			}
		}
		if !c.ob(use != nil && over != 0, rule, "limit", "how much to prune does not depend on whether the share of memory in use exceeds the limit: %s", x.pathStr(o)) {
			continue
		}
		num, den := use, (*Term)(nil)
		if use.op == "/" || use.op == "bin:/" {
			num, den = use.args[0], use.args[1]
		}
		if den != nil {
			c.ob(derives(num, heap) && !derives(num, total) && derives(den, total) && !derives(den, heap), rule, "share", "the share of memory in use is taken to be %s", use)
		}
		if x.isNil(o.St.facts, gauge) == -1 {
			c.ob(len(sets) == 1 && sets[0].args[1] == use, rule, "utilization metric", "the memory utilization is not reported: %s", x.pathStr(o))
		}
		if over == -1 {
			nz++
			v, ok := o.Vals[0].IntVal()
			c.ob(ok && v == 0, rule, "below the limit", "%s envelopes are to be pruned although the memory in use is below its limit: %s", o.Vals[0], x.pathStr(o))
			continue
		}
		np++
		v := o.Vals[0]
		c.ob(derives(v, ps[1]) && derives(v, limit) && derives(v, heap), rule, "above the limit", "above the memory limit, %s envelopes are to be pruned, not the excess share of the count: %s", v, x.pathStr(o))
	}
	c.need(nz, 1, rule, "paths below the limit")
	c.need(np, 1, rule, "paths above the limit")
}

// ---------------------------------------------------------------- locks

func checkC34(c *C) {
	s := c.newStore()
	x := s.x
	const rule = "locks"
	l := c.newLockScan(x, rule, s.stT, s.sgT)
	tree := typeKey(s.sgT) + "." + s.sgField("tree") + "[]"
	// owner of a tree node
	var nodeOwner func(e *Event, n *Term, d int) *Term
	nodeOwner = func(e *Event, n *Term, d int) *Term {
		if n == nil || d > 8 {
			return nil
		}
		if n.ev != nil {
			if treeCall(n.ev) != "" {
				return s.owner(n.ev, n.ev.args[0])
			}
			return nil
		}
		switch n.op {
		case "init":
			a := n.args[0]
			if a.op == "fieldaddr" && fieldName(a) == "Root" && isNamedPtr(a.args[0].typ, avlPkg, "Tree") {
				return s.owner(e, a.args[0])
			}
			return nodeOwner(e, a, d+1)
		case "fieldaddr", "indexaddr":
			return nodeOwner(e, n.args[0], d+1)
		}
		return nil
	}
	n := 0
	l.extra = func(e *Event) (string, *Term, bool, bool) {
		if m := treeCall(e); m != "" && len(e.args) > 0 {
			n++
			sg := s.owner(e, e.args[0])
			if sg == nil {
				x.giveUp("the tree used at %s belongs to no storage", x.where(e))
			}
			return tree, sg, !readOnlyTree[m], true
		}
		if e.kind == EvLoad || e.kind == EvStore {
			a := e.addr
			if a.op == "fieldaddr" && fieldName(a) == "Root" && isNamedPtr(a.args[0].typ, avlPkg, "Tree") {
				if sg := s.owner(e, a.args[0]); sg != nil {
					n++
					return tree, sg, e.kind == EvStore, true
				}
			}
			if a.op == "fieldaddr" && isNamedPtr(a.args[0].typ, avlPkg, "Node") || a.op == "indexaddr" {
				if sg := nodeOwner(e, a, 0); sg != nil {
					n++
					return tree, sg, e.kind == EvStore, true
				}
			}
		}
		if e.kind == EvCall && !e.inl && e.callee != nil {
			for _, a := range e.args {
				if a.typ != nil && isNamedPtr(a.typ, avlPkg, "Node") {
					if sg := nodeOwner(e, a, 0); sg != nil {
						n++
						return tree, sg, false, true
					}
				}
			}
		}
		return "", nil, false, false
	}
	// the operations
	nOps := 0
	ms := x.prog.MethodSets.MethodSet(types.NewPointer(s.stT))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		f := x.prog.MethodValue(ms.At(i))
		if f == nil || f.Synthetic != "" {
			continue
		}
		nOps++
		ps := x.params(f)
		ps[0] = s.store
		st := s.st.clone()
		for _, p := range ps[1:] {
			if isPtr(p.typ) && strings.HasSuffix(typeKey(derefType(p.typ)), "Envelope") {
				st.wfacts().Assume(x.T.Eq(p, x.T.Nil()), false)
			}
		}
		l.outcomes(shortFn(f), x.Root(f, st, ps, nil))
	}
	c.need(nOps, 4, rule, "operations")
	en, iters, _ := s.truncPass()
	l.scan(en.before, map[*Term]bool{})
	for _, it := range iters {
		l.scan(it.events, map[*Term]bool{})
		held := 0
		for _, w := range it.locks {
			held += w
		}
		c.ob(held == 0, rule, "truncation locks released", "a truncation ends holding a lock")
	}
	l.verdict()
	c.need(n, 10, rule, "tree accesses")
	c.need(l.nLocks, 5, rule, "acquisitions")
	c.atomicFields(x, "atomic fields")
}
