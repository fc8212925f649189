package main

// Abstract JSON shapes: what encoding/json writes for an abstract value.

import (
	"go/types"
	"reflect"
	"strings"
)

type J struct {
	kind string // obj arr val raw null seq
	keys []string
	vals []*J
	v    *Term // val: the scalar, map or sequence; raw: the text
	m    *Mem
	f    *Facts
	omit bool
}

func (j *J) key(k string) *J {
	if j == nil {
		return nil
	}
	for i, n := range j.keys {
		if n == k {
			return j.vals[i]
		}
	}
	return nil
}

// marshalled: v is the byte result of json.Marshal; its argument and memory.
func (x *X) marshalled(v *Term) (*Term, *Mem, *Facts, bool) {
	v = stripIface(v)
	for v.op == "conv" {
		v = v.args[0]
	}
	if v.op == "ret" && v.ev != nil && v.ev.name == "encoding/json.Marshal" && len(v.ev.res) == 2 && v == v.ev.res[0] {
		return v.ev.args[0], v.ev.mem, v.ev.facts, true
	}
	return nil, nil, nil, false
}

func isRawMessage(t types.Type) bool {
	return t != nil && typeKey(t) == "encoding/json.RawMessage"
}

func (x *X) jsonOf(m *Mem, f *Facts, v *Term) *J { return x.jsonAs(m, f, v, nil) }

func (x *X) jsonAs(m *Mem, f *Facts, v *Term, t types.Type) *J {
	if v.op == "mkiface" {
		if t == nil || isInterface(t) {
			t = v.typ
		}
		v = v.args[0]
	}
	if t == nil || isInterface(t) {
		t = v.typ
	}
	if isRawMessage(t) || isRawMessage(v.typ) {
		if a, am, af, ok := x.marshalled(v); ok {
			return x.jsonOf(am, af, a)
		}
		w := v
		for w.op == "conv" {
			w = w.args[0]
		}
		return &J{kind: "raw", v: w, m: m, f: f}
	}
	if v.IsNil() {
		return &J{kind: "null"}
	}
	if t == nil {
		return &J{kind: "val", v: v, m: m, f: f}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if structOf(p.Elem()) == nil {
			return x.jsonAs(m, f, x.loadMem(m, v, p.Elem()), p.Elem())
		}
		if v.op != "alloc" {
			return &J{kind: "val", v: v, m: m, f: f}
		}
		return x.jsonAs(m, f, x.loadMem(m, v, p.Elem()), p.Elem())
	}
	if s := structOf(t); s != nil {
		j := &J{kind: "obj"}
		for i := 0; i < s.NumFields(); i++ {
			fd := s.Field(i)
			if !fd.Exported() {
				continue
			}
			tag := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			name := tag[0]
			if name == "-" && len(tag) == 1 {
				continue
			}
			if name == "" {
				name = fd.Name()
			}
			omit := false
			for _, o := range tag[1:] {
				if o == "omitempty" {
					omit = true
				}
			}
			fv := x.fieldOf(v, x.T.FieldAddr(v, t, i))
			if fv == nil {
				fv = x.T.mk("field", fd.Name(), fd.Type(), v)
			}
			if omit && (isZeroTerm(x, fv)) {
				continue
			}
			c := x.jsonAs(m, f, fv, fd.Type())
			c.omit = omit
			j.keys = append(j.keys, name)
			j.vals = append(j.vals, c)
		}
		return j
	}
	if _, ok := t.Underlying().(*types.Map); ok && v.op == "makemap" {
		j := &J{kind: "obj", v: v, m: m, f: f}
		for _, k := range x.mapKeys(m, v) {
			j.keys = append(j.keys, k)
			vs, _ := x.qval(m, v, k)
			if len(vs) == 1 {
				j.vals = append(j.vals, x.jsonOf(m, f, vs[0]))
			} else {
				j.vals = append(j.vals, &J{kind: "seq", m: m, f: f})
			}
		}
		return j
	}
	if isSeqType(t) && !isByteSlice(t) {
		if es, ok := x.elems(m, v); ok {
			j := &J{kind: "arr"}
			for _, e := range es {
				j.vals = append(j.vals, x.jsonAs(m, f, e, elemTypeOf(t)))
			}
			return j
		}
		return &J{kind: "seq", v: v, m: m, f: f}
	}
	return &J{kind: "val", v: v, m: m, f: f}
}

// eachElem checks that sequence v holds exactly one element per element of
// s, in order, and lets want judge each (facts, memory, source, produced).
// exits are the loop-exit events of the path; loops all loops of the path.
func (x *X) eachElem(v, s *Term, evs []*Event, want func(it *IterPath, src, got *Term) string) string {
	var exits []*Event
	var loops []*LoopInfo
	allEvents(evs, func(e *Event) {
		if e.kind == EvLoopExit {
			exits = append(exits, e)
		}
		if e.kind == EvLoop {
			loops = append(loops, e.loop)
		}
	})
	if v.loop != nil {
		l := v.loop
		cv, why := x.covers(l, s, exits)
		if cv == nil {
			return why
		}
		in := x.initOf(v)
		if in == nil || !(in.IsNil() || x.isEmptyFresh(in)) {
			return "the sequence does not start empty (" + in.String() + ")"
		}
		for _, it := range l.iters {
			n := it.next[v]
			if n.op != "append" || len(n.args) != 2 || n.args[0] != v {
				return "an element is dropped, repeated or replaced: " + n.String()
			}
			if w := x.sharedObj(l, it, n.args[1]); w != "" {
				return w
			}
			if w := want(it, x.elemAt(it.mem, s, cv.idx), n.args[1]); w != "" {
				return w
			}
		}
		return ""
	}
	if v.op == "mkslice" {
		ln := x.T.Len(s)
		if v.args[0] != ln {
			return "the sequence has " + v.args[0].String() + " elements, want " + ln.String()
		}
		filled := false
		for _, l := range loops {
			at := map[*Term]bool{} // the elements written to
			for _, it := range l.iters {
				allEvents(it.events, func(e *Event) {
					if e.kind != EvStore {
						return
					}
					for a := e.addr; a != nil && (a.op == "indexaddr" || a.op == "fieldaddr"); a = a.args[0] {
						if a.op == "indexaddr" && a.args[0] == v {
							at[a.args[1]] = true
						}
					}
				})
			}
			if len(at) == 0 {
				continue
			}
			if filled {
				return "elements are written by two loops"
			}
			filled = true
			cv, why := x.covers(l, s, exits)
			if cv == nil {
				return why
			}
			if len(at) > 1 || !at[cv.idx] {
				return "a pass writes elements other than its own"
			}
			for _, it := range l.iters {
				el := elemTypeOf(v.typ)
				got := x.loadMem(it.mem, x.T.IndexAddr(v, cv.idx, el), el)
				if got.op == "init" {
					return "an element is not written"
				}
				if w := x.sharedObj(l, it, got); w != "" {
					return w
				}
				if w := want(it, x.elemAt(it.mem, s, cv.idx), got); w != "" {
					return w
				}
			}
		}
		if filled {
			return ""
		}
		return "the sequence is never filled"
	}
	return "not built by one pass over the input: " + v.String()
}

func isSeqType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

// sharedObj: an element must not reference an object made before the loop
// that the loop keeps writing: all elements would end up the same.
func (x *X) sharedObj(l *LoopInfo, it *IterPath, got *Term) string {
	written := map[*Term]bool{}
	for _, i := range l.iters {
		allEvents(i.events, func(e *Event) {
			if e.kind == EvStore && e.addr != nil {
				written[rootOf(e.addr)] = true
			}
			if e.kind == EvMapUpdate && len(e.args) > 0 {
				written[e.args[0]] = true
			}
		})
	}
	seen := map[*Term]bool{}
	bad := ""
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || bad != "" {
			return
		}
		seen[t] = true
		switch t.op {
		case "alloc", "mkslice", "makemap":
			if t.id < l.startT && written[t] {
				bad = "elements share one object that each iteration overwrites: " + t.String()
				return
			}
			for k, v := range it.mem.m {
				if k.op != "maphas" && rootOf(k) == t {
					walk(v)
				}
			}
		case "ret", "init":
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(got)
	return bad
}

// noMay: no operation on the paths may panic, for the given kinds.
func (c *C) noMay(x *X, outs []*Outcome, rule, what string, kinds ...string) {
	n := 0
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind != EvMay {
				return
			}
			for _, k := range kinds {
				if e.name == k {
					n++
					c.ob(false, rule, what+" "+k+" in "+shortFn(e.fn), "%s may panic (%s of %s) in %s", what, k, e.val, x.where(e))
				}
			}
		})
	}
	c.ob(true, rule, what+" panic-free", "")
}

var hardMay = []string{"unchecked", "typeassert", "index", "nilmap", "slicebounds", "divzero"}
