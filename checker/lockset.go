package main

// Lockset analysis: which locks are held at every access of a guarded type's
// fields, over the abstract paths of its operations.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fieldUse struct {
	write, atomic bool
	locks         map[string]int
	where         string
}

type lockScan struct {
	c       *C
	x       *X
	rule    string
	guarded map[types.Type]bool // struct types whose fields are watched
	uses    map[string][]fieldUse
	edges   map[string]map[string]string
	nLocks  int
	extra   func(e *Event) (key string, base *Term, write, ok bool)
	seen    map[*Event]bool
}

func (c *C) newLockScan(x *X, rule string, guarded ...types.Type) *lockScan {
	l := &lockScan{c: c, x: x, rule: rule, guarded: map[types.Type]bool{}, uses: map[string][]fieldUse{}, edges: map[string]map[string]string{}, seen: map[*Event]bool{}}
	for _, t := range guarded {
		l.guarded[t] = true
	}
	x.watch = true
	return l
}

func isLockType(t types.Type) bool {
	switch typeKey(derefType(t)) {
	case "sync.Mutex", "sync.RWMutex", "sync.Locker":
		return true
	}
	return false
}

// selfSync: types that synchronise themselves.
func selfSync(t types.Type) bool {
	if isLockType(t) {
		return true
	}
	k := typeKey(derefType(t))
	return strings.HasPrefix(k, "sync.") || strings.HasPrefix(k, "sync/atomic.")
}

// lockName names a lock term by type and field.
func (l *lockScan) lockName(k *Term) (string, *Term) {
	if k.op == "fieldaddr" {
		b := k.args[0]
		return typeKey(derefType(b.typ)) + "." + fieldName(k), b
	}
	if k.op == "init" && k.args[0].op == "fieldaddr" { // a pointer to a lock
		b := k.args[0].args[0]
		return typeKey(derefType(b.typ)) + "." + fieldName(k.args[0]), b
	}
	return k.String(), nil
}

// held: the locks an access to a field of base can count on.
func (l *lockScan) held(e *Event, base *Term) map[string]int {
	r := map[string]int{}
	for k, w := range e.locks {
		if w <= 0 {
			continue
		}
		n, b := l.lockName(k)
		if b != nil && b != base && base != nil && b.typ != nil && base.typ != nil && types.Identical(b.typ, base.typ) {
			continue // the lock of another object
		}
		if w > r[n] {
			r[n] = w
		}
	}
	return r
}

// access classifies an address: field key and object.
func (l *lockScan) access(a *Term) (string, *Term) {
	content := ""
	for a != nil {
		switch a.op {
		case "fieldaddr":
			b := a.args[0]
			t := derefType(b.typ)
			if l.guarded[t] {
				u := t.Underlying().(*types.Struct)
				fn := fieldName(a)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == fn && selfSync(u.Field(i).Type()) {
						return "", nil
					}
				}
				return typeKey(t) + "." + fn + content, b
			}
			a = b
		case "indexaddr", "mapelem", "maphas":
			content = "[]"
			a = a.args[0]
		case "init", "slice":
			if a.typ != nil {
				switch a.typ.Underlying().(type) {
				case *types.Map, *types.Slice:
					content = "[]"
				default:
					return "", nil
				}
			}
			a = a.args[0]
		default:
			return "", nil
		}
	}
	return "", nil
}

func (l *lockScan) use(key string, base *Term, write, atomic bool, e *Event) {
	l.uses[key] = append(l.uses[key], fieldUse{write, atomic, l.held(e, base), l.x.where(e)})
}

// scan goes through the events of one path of an operation.
func (l *lockScan) scan(evs []*Event, pub map[*Term]bool) {
	x, c := l.x, l.c
	for _, e := range evs {
		// a fresh object is private until something else got hold of it
		private := func(base *Term) bool {
			r := rootOf(base)
			return isFreshObj(r) && !pub[r]
		}
		switch e.kind {
		case EvLoad, EvStore:
			if key, b := l.access(e.addr); key != "" && !private(b) {
				l.use(key, b, e.kind == EvStore, false, e)
			}
			if e.kind == EvStore {
				publish(pub, e.val, !isFreshObj(rootOf(e.addr)))
			}
		case EvMapUpdate, EvLookup:
			if key, b := l.access(e.args[0]); key != "" && !private(b) {
				l.use(key+"[]", b, e.kind == EvMapUpdate, false, e)
			}
		case EvCall:
			if !e.inl {
				l.lockEvent(e)
				if strings.HasPrefix(e.name, "sync/atomic.") && len(e.args) > 0 {
					if key, b := l.access(e.args[0]); key != "" && !private(b) {
						l.use(key, b, !strings.HasPrefix(e.name, "sync/atomic.Load"), true, e)
					}
				} else if !strings.HasPrefix(e.name, "(*sync.RW") && !strings.HasPrefix(e.name, "(*sync.Mutex") {
					for _, a := range e.args {
						publish(pub, a, true)
					}
				}
				if len(heldLocks(e)) > 0 && (e.name == "time.Sleep" || strings.HasSuffix(e.name, ".Wait")) {
					c.ob(false, l.rule, "blocking", "a lock is held while waiting at %s", x.where(e))
				}
			}
		case EvRecv, EvSend:
			c.ob(len(heldLocks(e)) == 0, l.rule, "blocking", "a lock is held across a channel operation at %s", x.where(e))
			for _, a := range e.args {
				publish(pub, a, true)
			}
		case EvLoop:
			if l.seen[e] {
				break
			}
			l.seen[e] = true
			for _, it := range e.loop.iters {
				q := map[*Term]bool{}
				for k := range pub {
					q[k] = true
				}
				l.scan(it.events, q)
				c.ob(sameLocks(it.locks, e.locks), l.rule, "balanced locks", "a pass of the loop at %s ends with other locks held than it began with", x.where(e))
			}
		case EvGo:
			if l.seen[e] {
				break
			}
			l.seen[e] = true
			for _, o := range e.sub {
				q := map[*Term]bool{}
				for k := range pub {
					q[k] = true
				}
				for _, a := range e.args {
					publish(q, a, true)
				}
				l.scan(o.evs, q)
			}
		}
		if l.extra != nil {
			if key, b, w, ok := l.extra(e); ok && (b == nil || !private(b)) {
				l.use(key, b, w, false, e)
			}
		}
	}
}

func publish(pub map[*Term]bool, t *Term, shared bool) {
	if t == nil || !shared {
		return
	}
	walkTerm(t, func(q *Term) {
		if isFreshObj(q) {
			pub[q] = true
		}
	})
}

func heldLocks(e *Event) []*Term {
	var r []*Term
	for k, w := range e.locks {
		if w > 0 {
			r = append(r, k)
		}
	}
	sortTerms(r)
	return r
}

func sameLocks(a, b map[*Term]int) bool {
	for k, w := range a {
		if b[k] != w {
			return false
		}
	}
	for k, w := range b {
		if a[k] != w {
			return false
		}
	}
	return true
}

// lockEvent checks an acquisition against what is held.
func (l *lockScan) lockEvent(e *Event) {
	x, c := l.x, l.c
	switch e.name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		l.nLocks++
		c.ob(e.locks[e.args[0]] == 1000, l.rule, "relock", "a lock that is already held is locked again at %s", x.where(e))
	case "(*sync.RWMutex).RLock":
		l.nLocks++
		c.ob(e.locks[e.args[0]] == 1, l.rule, "relock", "a lock that is already held is locked again at %s", x.where(e))
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		c.ob(e.locks[e.args[0]] == 1000, l.rule, "unlock", "a lock that is not held exclusively is unlocked at %s", x.where(e))
		return
	case "(*sync.RWMutex).RUnlock":
		c.ob(e.locks[e.args[0]] == 1, l.rule, "unlock", "a lock that is not held for reading is unlocked at %s", x.where(e))
		return
	default:
		return
	}
	n, _ := l.lockName(e.args[0])
	for _, h := range heldLocks(e) {
		if h == e.args[0] {
			continue
		}
		m, _ := l.lockName(h)
		if l.edges[m] == nil {
			l.edges[m] = map[string]string{}
		}
		l.edges[m][n] = x.where(e)
	}
}

// outcomes scans the paths of one operation.
func (l *lockScan) outcomes(what string, outs []*Outcome) {
	for _, o := range outs {
		l.scan(o.evs, map[*Term]bool{})
		if o.Panic {
			continue
		}
		for k, w := range o.St.locks {
			l.c.ob(w == 0, l.rule, what+" locks released", "%s returns holding %s: %s", what, k, l.x.pathStr(o))
		}
		l.c.ob(true, l.rule, what+" locks released", "")
	}
}

// verdict reports fields without a common lock, and lock-order cycles.
func (l *lockScan) verdict() {
	c := l.c
	var keys []string
	for k := range l.uses {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	n := 0
	for _, k := range keys {
		us := l.uses[k]
		n += len(us)
		wr, at, pl := false, false, false
		for _, u := range us {
			wr = wr || u.write
			if u.atomic {
				at = true
			} else {
				pl = true
			}
		}
		if !wr {
			c.ob(true, l.rule, k, "")
			continue
		}
		if at && !pl {
			c.ob(true, l.rule, k, "")
			continue
		}
		if at {
			for _, u := range us {
				if !u.atomic {
					c.ob(false, l.rule, k, "%s is accessed atomically elsewhere, but plainly at %s", k, u.where)
				}
			}
			continue
		}
		// the lock most accesses hold
		votes := map[string]int{}
		for _, u := range us {
			for lk := range u.locks {
				votes[lk]++
			}
		}
		best := ""
		for lk, v := range votes {
			if v > votes[best] || v == votes[best] && lk < best {
				best = lk
			}
		}
		bad := map[string]bool{}
		for _, u := range us {
			w := u.locks[best]
			if best == "" || w == 0 {
				bad[fmt.Sprintf("unlocked at %s", u.where)] = true
			} else if u.write && w < 1000 {
				bad[fmt.Sprintf("written under a read lock at %s", u.where)] = true
			}
		}
		var bl []string
		for b := range bad {
			bl = append(bl, b)
		}
		sort.Strings(bl)
		if len(bl) > 6 {
			bl = append(bl[:6], "…")
		}
		c.ob(len(bl) == 0, l.rule, k, "%s is shared between goroutines and not always accessed under its lock (%s): %s", k, best, strings.Join(bl, "; "))
	}
	l.c.need(n, 1, l.rule, "shared accesses")
	// order
	for a := range l.edges {
		for b, at := range l.edges[a] {
			if a == b {
				c.ob(false, l.rule, "lock order", "two locks %s are held at once at %s", a, at)
				continue
			}
			seen := map[string]bool{}
			var w func(s string) bool
			w = func(s string) bool {
				if s == a {
					return true
				}
				if seen[s] {
					return false
				}
				seen[s] = true
				for t := range l.edges[s] {
					if w(t) {
						return true
					}
				}
				return false
			}
			c.ob(!w(b), l.rule, "lock order", "%s is locked while %s is held at %s, and elsewhere the other way round", b, a, at)
		}
	}
}

// atomicFields: a field that is accessed through sync/atomic anywhere is
// accessed only so, except in an object that is still private.
func (c *C) atomicFields(x *X, rule string) {
	type site struct {
		fn  *ssa.Function
		pos string
	}
	atomic := map[*types.Var]bool{}
	isAt := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic"
	}
	fieldVar := func(fa *ssa.FieldAddr) *types.Var {
		if s := structOf(derefType(fa.X.Type())); s != nil {
			return s.Field(fa.Field)
		}
		return nil
	}
	fns := x.sortedFns()
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, r := range *fa.Referrers() {
						if isAt(r) {
							atomic[fieldVar(fa)] = true
						}
					}
				}
			}
		}
	}
	n := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !atomic[fieldVar(fa)] {
					continue
				}
				_, private := fa.X.(*ssa.Alloc)
				for _, r := range *fa.Referrers() {
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					n++
					v := fieldVar(fa)
					c.ob(isAt(r) || private, rule, "atomic field "+v.Name(), "field %s is accessed atomically elsewhere, but plainly in %s at %s", v.Name(), shortFn(f), x.posStr(r.Pos()))
				}
			}
		}
	}
	c.need(n, 1, rule, "accesses of atomic fields")
}
