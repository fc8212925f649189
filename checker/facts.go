package main

// Path facts: boolean atoms plus a difference-bound (zone) domain.

import (
	"go/types"
	"sort"
	"strings"
)

type zkey struct{ x, y int } // x - y <= c ; id -1 is zero

type Facts struct {
	T     *Terms
	atoms map[*Term]bool
	zone  map[zkey]int64
	ids   map[int]*Term
	bad   bool
}

func NewFacts(T *Terms) *Facts {
	return &Facts{T: T, atoms: map[*Term]bool{}, zone: map[zkey]int64{}, ids: map[int]*Term{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{T: f.T, atoms: make(map[*Term]bool, len(f.atoms)+1), zone: make(map[zkey]int64, len(f.zone)+2), ids: make(map[int]*Term, len(f.ids)+1), bad: f.bad}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	for k, v := range f.zone {
		g.zone[k] = v
	}
	for k, v := range f.ids {
		g.ids[k] = v
	}
	return g
}

func zid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (f *Facts) touch(t *Term) {
	if t == nil {
		return
	}
	if _, ok := f.ids[t.id]; ok {
		return
	}
	f.ids[t.id] = t
	if nonNegTerm(t) {
		f.addEdge(-1, t.id, 0) // 0 - t <= 0
	}
	switch t.op {
	case "diff": // a-b : relate when one side is constant is done by linear; keep opaque
	case "pure": // -1 <= Index(s, x) < len(s) for a non-empty x
		if n := strings.TrimPrefix(t.sym, "strings."); (n == "Index" || n == "LastIndex" || n == "IndexByte" || n == "IndexRune" || n == "LastIndexByte" || n == "IndexAny") && len(t.args) == 2 {
			b, k := f.T.linear(f.T.Len(t.args[0]))
			f.touch(b)
			f.addEdge(-1, t.id, 1)
			if s, ok := t.args[1].StrVal(); !ok && (n == "Index" || n == "LastIndex") || ok && s == "" {
				f.addEdge(t.id, zid(b), k)
			} else {
				f.addEdge(t.id, zid(b), k-1)
			}
		}
	case "len":
		// a text split at something has at least one piece
		if a := t.args[0]; a.op == "pure" && (a.sym == "strings.Split" || a.sym == "strings.SplitAfter") && len(a.args) == 2 {
			if s, ok := a.args[1].StrVal(); ok && s != "" {
				f.addEdge(-1, t.id, -1)
			}
		}
		// prefix slices never exceed their origin
		if t.args[0].op == "slice" {
			o := f.T.Len(t.args[0].args[0])
			b, k := f.T.linear(o)
			f.touch(b)
			f.addEdge(t.id, zid(b), k)
		}
	}
}

func nonNegTerm(t *Term) bool {
	if t.op == "len" || t.op == "cap" {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

func (f *Facts) bound(x, y int) (int64, bool) {
	if x == y {
		return 0, true
	}
	c, ok := f.zone[zkey{x, y}]
	return c, ok
}

func (f *Facts) addEdge(x, y int, c int64) {
	if x == y {
		if c < 0 {
			f.bad = true
		}
		return
	}
	if old, ok := f.zone[zkey{x, y}]; ok && old <= c {
		return
	}
	if back, ok := f.zone[zkey{y, x}]; ok && back+c < 0 {
		f.bad = true
		return
	}
	// incremental closure
	nodes := []int{-1}
	for id := range f.ids {
		nodes = append(nodes, id)
	}
	sort.Ints(nodes)
	for _, a := range nodes {
		ax, ok := f.bound(a, x)
		if !ok {
			continue
		}
		for _, b := range nodes {
			yb, ok := f.bound(y, b)
			if !ok || a == b {
				if ok && a == b && ax+c+yb < 0 {
					f.bad = true
				}
				continue
			}
			n := ax + c + yb
			if old, ok := f.zone[zkey{a, b}]; !ok || n < old {
				f.zone[zkey{a, b}] = n
			}
		}
	}
}

// LE asserts a <= b + k.
func (f *Facts) assumeLE(a, b *Term, k int64) {
	ba, ka := f.T.linear(a)
	bb, kb := f.T.linear(b)
	f.touch(ba)
	f.touch(bb)
	f.addEdge(zid(ba), zid(bb), kb-ka+k)
	// a difference of two amounts that are not negative cannot wrap around
	if ba != nil && bb == nil && f.amounts(ba) {
		f.assumeLE(ba.args[0], ba.args[1], kb-ka+k)
	}
	if ba == nil && bb != nil && f.amounts(bb) {
		f.assumeLE(bb.args[1], bb.args[0], kb-ka+k)
	}
}

func (f *Facts) amounts(d *Term) bool {
	zero := f.T.Int(0)
	return d.op == "diff" && f.entLE(zero, d.args[0], 0) && f.entLE(zero, d.args[1], 0)
}

// entLE: is a <= b + k entailed?
func (f *Facts) entLE(a, b *Term, k int64) bool {
	ba, ka := f.T.linear(a)
	bb, kb := f.T.linear(b)
	if ba == bb {
		return ka <= kb+k
	}
	f.touch(ba)
	f.touch(bb)
	c, ok := f.bound(zid(ba), zid(bb))
	return ok && c <= kb-ka+k
}

// Eval decides a boolean term under the facts: 1 true, -1 false, 0 unknown.
func (f *Facts) Eval(t *Term) int {
	if b, ok := t.BoolVal(); ok {
		if b {
			return 1
		}
		return -1
	}
	if t.op == "not" {
		return -f.Eval(t.args[0])
	}
	if v, ok := f.atoms[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.op {
	case "lt":
		if isIntType(t.args[0].typ) || isIntType(t.args[1].typ) {
			if f.entLE(t.args[0], t.args[1], -1) {
				return 1
			}
			if f.entLE(t.args[1], t.args[0], 0) {
				return -1
			}
		}
	case "eq":
		x, y := t.args[0], t.args[1]
		if y.IsNil() {
			if nonNilTerm(x) {
				return -1
			}
			// x known to have a dynamic type
			for a, v := range f.atoms {
				if v && a.op == "istype" && a.args[0] == x {
					return -1
				}
			}
			return 0
		}
		if isIntType(x.typ) || isIntType(y.typ) {
			if f.entLE(x, y, 0) && f.entLE(y, x, 0) {
				return 1
			}
			if f.entLE(x, y, -1) || f.entLE(y, x, -1) {
				return -1
			}
		}
		if r := f.quoEval(x, y); r != 0 {
			return r
		}
		// x == c1 known, x == c2 asked
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			for a, v := range f.atoms {
				if v && a.op == "eq" {
					if a.args[0] == x && a.args[1].IsConst() || a.args[1] == x && a.args[0].IsConst() {
						return -1
					}
				}
			}
			// strings: x == "abc" is false when len(x) is known otherwise
			if s, ok := y.StrVal(); ok {
				if f.Eval(f.T.Eq(f.T.Len(x), f.T.Int(int64(len(s))))) == -1 {
					return -1
				}
			}
		}
		// congruence through known equality
		for a, v := range f.atoms {
			if !v || a.op != "eq" {
				continue
			}
			var o *Term
			if a.args[0] == x {
				o = a.args[1]
			} else if a.args[1] == x {
				o = a.args[0]
			} else {
				continue
			}
			if o == y {
				return 1
			}
			e := f.T.Eq(o, y)
			if b, ok := e.BoolVal(); ok {
				if b {
					return 1
				}
				return -1
			}
			if w, ok := f.atoms[e]; ok {
				if w {
					return 1
				}
				return -1
			}
		}
	case "istype":
		x := t.args[0]
		if v, ok := f.atoms[f.T.Eq(x, f.T.Nil())]; ok && v {
			return -1
		}
		for a, v := range f.atoms {
			if v && a.op == "istype" && a.args[0] == x && a != t {
				if !isInterface(a.typ) && !isInterface(t.typ) {
					return -1
				}
				if !isInterface(a.typ) && isInterface(t.typ) {
					if types.Implements(a.typ, t.typ.Underlying().(*types.Interface)) {
						return 1
					}
					return -1
				}
			}
		}
	}
	return 0
}

// Assume adds t==v; f.bad is set on contradiction.
func (f *Facts) Assume(t *Term, v bool) {
	if t.op == "not" {
		f.Assume(t.args[0], !v)
		return
	}
	switch f.Eval(t) {
	case 1:
		if !v {
			f.bad = true
		}
		return
	case -1:
		if v {
			f.bad = true
		}
		return
	}
	f.atoms[t] = v
	switch t.op {
	case "lt":
		if isIntType(t.args[0].typ) || isIntType(t.args[1].typ) {
			if v {
				f.assumeLE(t.args[0], t.args[1], -1)
			} else {
				f.assumeLE(t.args[1], t.args[0], 0)
			}
			f.tighten()
		}
	case "eq":
		x, y := t.args[0], t.args[1]
		if isIntType(x.typ) || isIntType(y.typ) {
			if v {
				f.assumeLE(x, y, 0)
				f.assumeLE(y, x, 0)
				if t0, lo, hi, ok := quoRange(f.T, x, y); ok {
					f.assumeLE(t0, hi, 0)
					f.assumeLE(lo, t0, 0)
				}
			} else {
				f.tighten()
			}
		}
		if v {
			if s, ok := y.StrVal(); ok {
				f.Assume(f.T.Eq(f.T.Len(x), f.T.Int(int64(len(s)))), true)
			} else if s, ok := x.StrVal(); ok {
				f.Assume(f.T.Eq(f.T.Len(y), f.T.Int(int64(len(s)))), true)
			}
		}
	}
}

// tighten uses integer disequalities against bounds.
func (f *Facts) tighten() {
	for i := 0; i < 3; i++ {
		ch := false
		var as []*Term
		for a, v := range f.atoms {
			if !v && a.op == "eq" && (isIntType(a.args[0].typ) || isIntType(a.args[1].typ)) {
				as = append(as, a)
			}
		}
		sortTerms(as)
		for _, a := range as {
			x, y := a.args[0], a.args[1]
			le, ge := f.entLE(x, y, 0), f.entLE(y, x, 0)
			if le && ge {
				f.bad = true
				return
			}
			if le && !f.entLE(x, y, -1) {
				f.assumeLE(x, y, -1)
				ch = true
			}
			if ge && !f.entLE(y, x, -1) {
				f.assumeLE(y, x, -1)
				ch = true
			}
		}
		if !ch {
			return
		}
	}
}

func (f *Facts) String() string {
	var s []string
	for a, v := range f.atoms {
		p := ""
		if !v {
			p = "!"
		}
		s = append(s, p+a.String())
	}
	sort.Strings(s)
	return strings.Join(s, " && ")
}

// quoRange: t/k == c (k, c > 0) means c*k <= t <= c*k+k-1.
func quoRange(T *Terms, x, y *Term) (t, lo, hi *Term, ok bool) {
	if y.op == "/" {
		x, y = y, x
	}
	if x.op != "/" {
		return
	}
	k, ok1 := x.args[1].IntVal()
	c, ok2 := y.IntVal()
	if !ok1 || !ok2 || k <= 0 || c <= 0 {
		return
	}
	return x.args[0], T.Int(c * k), T.Int(c*k + k - 1), true
}

func (f *Facts) quoEval(x, y *Term) int {
	t, lo, hi, ok := quoRange(f.T, x, y)
	if !ok {
		return 0
	}
	if f.entLE(lo, t, 0) && f.entLE(t, hi, 0) {
		return 1
	}
	if f.entLE(t, lo, -1) || f.entLE(hi, t, -1) {
		return -1
	}
	return 0
}

// recheck looks for atoms contradicted by later facts.
func (f *Facts) recheck() {
	for a, v := range f.atoms {
		if a.op != "eq" {
			continue
		}
		if r := f.quoEval(a.args[0], a.args[1]); r == 1 && !v || r == -1 && v {
			f.bad = true
		}
	}
}

// each visits the atoms in a fixed order.
// terms: every term the facts mention, in order.
func (f *Facts) terms() []*Term {
	seen := map[*Term]bool{}
	for t := range f.atoms {
		seen[t] = true
	}
	for _, t := range f.ids {
		seen[t] = true
	}
	var ts []*Term
	for t := range seen {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func (f *Facts) each(fn func(t *Term, v bool)) {
	var ts []*Term
	for t := range f.atoms {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		fn(t, f.atoms[t])
	}
}
