package main

// The abstract interpreter: path-partitioned forward dataflow over go/ssa with
// in-repo call inlining, an abstract store, and loops summarised by a havoc'd
// arbitrary iteration (no concrete or solver-driven execution takes place).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind int

const (
	EvCall EvKind = iota
	EvLeave
	EvStore
	EvMapUpdate
	EvGo
	EvDefer
	EvSend
	EvRecv
	EvSelect
	EvPanic
	EvMay // implicit panic obligation
	EvLoop
	EvLoopExit
	EvLoad
	EvLookup
)

var evNames = map[EvKind]string{EvCall: "call", EvLeave: "leave", EvStore: "store", EvMapUpdate: "mapupdate", EvGo: "go", EvDefer: "defer", EvSend: "send", EvRecv: "recv", EvSelect: "select", EvPanic: "panic", EvMay: "maypanic", EvLoop: "loop", EvLoopExit: "loopexit", EvLoad: "load", EvLookup: "lookup"}

type Event struct {
	fnv      *Term // what a go statement starts
	id       int
	kind     EvKind
	name     string // callee full name / may-panic kind / panic kind
	callee   *ssa.Function
	method   *types.Func
	args     []*Term // receiver first
	res      []*Term
	addr     *Term
	val      *Term
	pos      token.Pos
	fn       *ssa.Function // function containing the instruction
	depth    int
	inl      bool
	defrd    bool
	mem      *Mem
	facts    *Facts
	locks    map[*Term]int
	loop     *LoopInfo
	sub      []*Outcome // goroutine body outcomes
	blocking bool       // a select without default
	chans    []*Term    // the channels of a select
	selIx    int
	stack    []*ssa.Function
}

type traceNode struct {
	ev   *Event
	prev *traceNode
	n    int
}

type LoopInfo struct {
	id     int
	fn     *ssa.Function
	header *ssa.BasicBlock
	startT int // first term id created inside the loop
	phis   []*LoopPhi
	iters  []*IterPath // complete iterations (back edges)
	pos    token.Pos
	mods   map[*Term]*Term // addr -> memphi
	pre    *Mem
	preF   *Facts
	flag   *Term // a flag that, when it changes, ends the loop at the end of the pass
}

type LoopPhi struct {
	phi  *ssa.Phi
	sym  *Term
	init *Term
	rest *Term // sym counts the elements already taken off this slice
}

type IterPath struct {
	events []*Event
	facts  *Facts
	mem    *Mem
	next   map[*Term]*Term // loop symbol -> value at back edge
	locks  map[*Term]int
}

type Mem struct {
	m      map[*Term]*Term
	ver    map[string]string // selector -> version
	opq    map[*Term]string  // object -> havoc version of its unknown content
	shared bool
}

func newMem() *Mem {
	return &Mem{m: map[*Term]*Term{}, ver: map[string]string{}, opq: map[*Term]string{}}
}
func (m *Mem) clone() *Mem {
	n := &Mem{m: make(map[*Term]*Term, len(m.m)+4), ver: make(map[string]string, len(m.ver)), opq: make(map[*Term]string, len(m.opq))}
	for k, v := range m.m {
		n.m[k] = v
	}
	for k, v := range m.ver {
		n.ver[k] = v
	}
	for k, v := range m.opq {
		n.opq[k] = v
	}
	return n
}

type deferred struct {
	common *ssa.CallCommon
	fnT    *Term
	args   []*Term
	pos    token.Pos
	frame  int
}

type State struct {
	mem    *Mem
	facts  *Facts
	trace  *traceNode
	locks  map[*Term]int
	defers []deferred
	fShare bool
	recov  bool
}

func (s *State) clone() *State {
	s.mem.shared = true
	s.fShare = true
	n := *s
	n.locks = map[*Term]int{}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return &n
}
func (s *State) wmem() *Mem {
	if s.mem.shared {
		s.mem = s.mem.clone()
	}
	return s.mem
}
func (s *State) wfacts() *Facts {
	if s.fShare {
		s.facts = s.facts.clone()
		s.fShare = false
	}
	return s.facts
}

type Env map[ssa.Value]*Term

func (e Env) clone() Env {
	n := make(Env, len(e)+4)
	for k, v := range e {
		n[k] = v
	}
	return n
}

type exitKind int

const (
	xReturn exitKind = iota
	xPanic
	xBack
	xLeave
)

type exit struct {
	kind     exitKind
	vals     []*Term
	env      Env
	st       *State
	from, to *ssa.BasicBlock
	ptype    string
	pos      token.Pos
}

// Outcome is one complete abstract path of a root.
type Outcome struct {
	Panic bool
	PKind string
	Vals  []*Term
	St    *State
	Pos   token.Pos
	evs   []*Event

	Endless bool // does not return
}

type frame struct {
	fn    *ssa.Function
	id    int
	depth int
	stack []*ssa.Function
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	free  map[*ssa.FreeVar]*Term
	next  map[*ssa.Next]*Term // the step an unrolled map range is at
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	first  bool
}

type X struct {
	T          *Terms
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	fset       *token.FileSet
	nev        int
	nframe     int
	nloop      int
	steps      int
	maxSteps   int
	maxDepth   int
	opaque     map[string]bool // functions not to inline (full name)
	nonNilRes  map[string]bool // opaque functions whose only result is not nil
	errHandler *ssa.Function
	watch      bool           // record loads of shared fields
	watchObj   map[*Term]bool // objects that are shared although made in the analysed code
	unwrap     bool           // opaque methods are seen through their bound-method wrappers
	filling    bool           // a callee that fills its arguments is called
	impl       map[string]types.Type
	loopMemo   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	fnsSeen    map[*ssa.Function]bool
	nPaths     int
	quiet      int
	endless    []*Endless

	globCache map[*ssa.Package]*globInfo
	initObj   map[*Term]*Mem
	carried   map[*Term][]*Term // closures handed over when the value was made
	initMut   map[*Term]bool
	inOnce    int
	sharedW   map[string]string // function -> unguarded write to a package variable
	inInit    bool
}

func NewX(prog *ssa.Program, pkgs map[string]*ssa.Package) *X {
	return &X{T: NewTerms(), prog: prog, pkgs: pkgs, fset: prog.Fset, maxSteps: 3000000, maxDepth: 24, opaque: map[string]bool{}, impl: map[string]types.Type{},
		loopMemo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, fnsSeen: map[*ssa.Function]bool{},
		globCache: map[*ssa.Package]*globInfo{}, initObj: map[*Term]*Mem{}, initMut: map[*Term]bool{}, carried: map[*Term][]*Term{}}
}

type undecided struct{ msg string }

func (x *X) giveUp(f string, a ...interface{}) { panic(undecided{fmt.Sprintf(f, a...)}) }

func (x *X) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := x.fset.Position(p)
	return strings.TrimPrefix(q.Filename, repoDir+"/") + ":" + fmt.Sprint(q.Line)
}

func (x *X) newState() *State {
	return &State{mem: newMem(), facts: NewFacts(x.T), locks: map[*Term]int{}}
}

func (x *X) emit(st *State, fr *frame, ev *Event) *Event {
	x.nev++
	ev.id = x.nev
	if fr != nil {
		ev.fn = fr.fn
		ev.depth = fr.depth
		ev.stack = fr.stack
	}
	st.mem.shared = true
	st.fShare = true
	ev.mem = st.mem
	ev.facts = st.facts
	if len(st.locks) > 0 {
		ev.locks = map[*Term]int{}
		for k, v := range st.locks {
			if v != 0 {
				ev.locks[k] = v
			}
		}
	}
	n := 0
	if st.trace != nil {
		n = st.trace.n
	}
	st.trace = &traceNode{ev: ev, prev: st.trace, n: n + 1}
	return ev
}

func traceEvents(t *traceNode, until *traceNode) []*Event {
	var out []*Event
	for n := t; n != nil && n != until; n = n.prev {
		out = append(out, n.ev)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------- memory

func selectorOf(a *Term) string {
	if a.sel == "" {
		a.sel = selectorOf0(a)
	}
	return a.sel
}

func selectorOf0(a *Term) string {
	switch a.op {
	case "fieldaddr":
		return "f:" + a.sym
	case "indexaddr":
		return "i:" + typeKey(a.typ)
	case "mapelem", "maphas":
		return "m:" + typeKey(a.typ)
	case "bufof":
		return "b:"
	}
	return "*:" + typeKey(a.typ)
}

func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case "fieldaddr", "indexaddr", "mapelem", "maphas", "slice", "bufof":
			a = a.args[0]
		default:
			return a
		}
	}
}

func isFreshObj(t *Term) bool {
	switch t.op {
	case "alloc", "makemap", "mkslice", "makechan", "newobj":
		return true
	}
	return false
}

func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if selectorOf(a) != selectorOf(b) {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	fa, fb := isFreshObj(ra), isFreshObj(rb)
	if ra.op == "global" && rb.op == "global" && ra != rb {
		return false
	}
	if fa && fb && ra != rb {
		return false
	}
	if fa != fb {
		// a fresh object is only reachable through itself
		return false
	}
	// same root: compare constant indices / map keys
	if len(a.args) == 2 && len(b.args) == 2 && a.args[0] == b.args[0] {
		if a.args[1].IsConst() && b.args[1].IsConst() {
			return false
		}
		bx, kx := linearOf(a.args[1])
		by, ky := linearOf(b.args[1])
		if a.op == "indexaddr" && bx == by && kx != ky {
			return false
		}
	}
	if ra == rb && a.op == "fieldaddr" && b.op == "fieldaddr" && a.args[0] != b.args[0] {
		// different interior objects of one root
		return mayAlias(a.args[0], b.args[0])
	}
	return true
}

func linearOf(t *Term) (*Term, int64) {
	if i, ok := t.IntVal(); ok {
		return nil, i
	}
	if t.op == "+" {
		if k, ok := t.args[1].IntVal(); ok {
			b, k2 := linearOf(t.args[0])
			return b, k + k2
		}
	}
	return t, 0
}

func (x *X) loadMem(m *Mem, addr *Term, typ types.Type) *Term {
	T := x.T
	if v, ok := m.m[addr]; ok {
		return v
	}
	if s := structOf(typ); s != nil && !isOpaqueStruct(typ) {
		// compose from fields
		hasField := false
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := m.m[T.FieldAddr(addr, typ, i)]; ok {
				hasField = true
				break
			}
		}
		if hasField {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, x.loadMem(m, T.FieldAddr(addr, typ, i), s.Field(i).Type()))
			}
			return T.Struct(typ, fs)
		}
	}
	r := rootOf(addr)
	if x.initMut[r] {
		return T.Init(addr, m.ver[selectorOf(addr)])
	}
	if im := x.initObj[r]; im != nil && im != m {
		v := x.loadMem(im, addr, typ)
		x.markInit(v, im)
		return v
	}
	if v, ok := m.m[r]; ok && r != addr {
		// the whole aggregate was stored: project
		if p := x.project(v, r, addr); p != nil {
			return p
		}
	}
	// intermediate aggregates stored as a whole
	if addr.op == "fieldaddr" {
		if v, ok := m.m[addr.args[0]]; ok {
			if p := x.fieldOf(v, addr); p != nil {
				return p
			}
		}
	}
	if addr.op == "fieldaddr" && addr.args[0].op == "fieldaddr" {
		a2 := addr.args[0]
		if v, ok := m.m[a2.args[0]]; ok {
			if p := x.fieldOf(v, a2); p != nil {
				if q := x.fieldOf(p, addr); q != nil {
					return q
				}
			}
		}
	}
	if addr.op == "indexaddr" {
		if e := x.elemOf(m, addr.args[0], addr.args[1]); e != nil {
			return e
		}
	}
	if r.op == "alloc" || r.op == "makemap" || r.op == "mkslice" {
		if v, opq := m.opq[r]; opq {
			return T.Init(addr, v)
		}
		if x.onlyDirect(addr) {
			// an unknown index may hit any stored element
			if addr.op == "indexaddr" && !addr.args[1].IsConst() {
				for k := range m.m {
					if k.op == "indexaddr" && k.args[0] == addr.args[0] {
						return T.Init(addr, "?")
					}
				}
			}
			return T.Zero(typ)
		}
	}
	if addr.op == "global" {
		if v := x.globalInit(addr); v != nil {
			return v
		}
	}
	return T.Init(addr, m.ver[selectorOf(addr)])
}

func (x *X) onlyDirect(addr *Term) bool {
	for a := addr; ; {
		switch a.op {
		case "fieldaddr", "indexaddr", "slice":
			a = a.args[0]
		case "alloc", "mkslice":
			return true
		default:
			return false
		}
	}
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	switch p {
	case "time", "sync", "sync/atomic", "math/big", "reflect":
		return true
	}
	return false
}

// elemOf resolves the element of a slice term built by append / slicing.
func (x *X) elemOf(m *Mem, s, i *Term) *Term {
	switch s.op {
	case "append":
		n, known := x.T.Len(s.args[0]).IntVal()
		ix, ok := i.IntVal()
		if ok && known {
			if ix < n {
				return x.elemOf(m, s.args[0], i)
			}
			if int(ix-n) < len(s.args)-1 {
				return s.args[1+ix-n]
			}
		}
	case "slice":
		lo := s.args[1]
		j := i
		if !lo.IsNil() {
			j = x.T.BinOp(token.ADD, i, lo, types.Typ[types.Int], types.Typ[types.Int])
		}
		if v, ok := m.m[x.T.mk("indexaddr", "", nil, s.args[0], j)]; ok {
			return v
		}
		if e := x.elemOf(m, s.args[0], j); e != nil {
			return e
		}
		if isFreshObj(s.args[0]) {
			if s.args[0].op != "alloc" || !j.IsConst() {
				return nil
			}
			if a, ok := derefType(s.args[0].typ).Underlying().(*types.Array); ok {
				return x.loadMem(m, x.T.IndexAddr(s.args[0], j, a.Elem()), a.Elem())
			}
			return nil
		}
		el := elemTypeOf(s.args[0].typ)
		if el != nil {
			return x.loadMem(m, x.T.IndexAddr(s.args[0], j, el), el)
		}
	}
	return nil
}

func elemTypeOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func (x *X) fieldOf(v *Term, fa *Term) *Term {
	switch v.op {
	case "struct":
		s := structOf(v.typ)
		for i := 0; i < s.NumFields(); i++ {
			if x.T.FieldAddr(fa.args[0], v.typ, i) == fa {
				return v.args[i]
			}
		}
	case "zero":
		return x.T.Zero(derefType(fa.typ))
	case "init":
		f := x.T.mk("fieldaddr", fa.sym, fa.typ, v.args[0])
		return x.T.Init(f, v.sym)
	default:
		return x.T.mk("field", fa.sym, derefType(fa.typ), v)
	}
	return nil
}

func (x *X) project(v, root, addr *Term) *Term {
	if addr == root {
		return v
	}
	if addr.op == "fieldaddr" {
		b := x.project(v, root, addr.args[0])
		if b == nil {
			return nil
		}
		return x.fieldOf(b, addr)
	}
	if addr.op == "indexaddr" {
		b := x.project(v, root, addr.args[0])
		if b != nil && b.op == "zero" {
			return x.T.Zero(derefType(addr.typ))
		}
	}
	return nil
}

func (x *X) storeMem(m *Mem, addr, val *Term, typ types.Type) {
	// split struct values into fields
	if s := structOf(typ); s != nil && !isOpaqueStruct(typ) {
		switch val.op {
		case "struct", "zero", "init":
			for i := 0; i < s.NumFields(); i++ {
				fa := x.T.FieldAddr(addr, typ, i)
				var fv *Term
				switch val.op {
				case "struct":
					fv = val.args[i]
				case "zero":
					fv = x.T.Zero(s.Field(i).Type())
				case "init":
					fv = x.loadMemInit(m, val, fa, s.Field(i).Type())
				}
				x.storeMem(m, fa, fv, s.Field(i).Type())
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			fa := x.T.FieldAddr(addr, typ, i)
			x.storeMem(m, fa, x.T.mk("field", fa.sym, s.Field(i).Type(), val), s.Field(i).Type())
		}
		return
	}
	x.clobberAliases(m, addr)
	m.m[addr] = val
}

func (x *X) loadMemInit(m *Mem, v, fa *Term, ft types.Type) *Term {
	f := x.T.mk("fieldaddr", fa.sym, fa.typ, v.args[0])
	return x.T.Init(f, v.sym)
}

func (x *X) clobberAliases(m *Mem, addr *Term) {
	if x.inInit {
		return
	}
	var kill []*Term
	for k := range m.m {
		if k != addr && mayAlias(k, addr) {
			kill = append(kill, k)
		}
	}
	for _, k := range kill {
		delete(m.m, k)
	}
	// unknown cells of the same selector may have been overwritten
	if !isFreshObj(rootOf(addr)) || addr.op == "indexaddr" && !addr.args[1].IsConst() {
		if len(kill) > 0 || addr.op != "fieldaddr" {
			x.T.uniq++
			m.ver[selectorOf(addr)] = fmt.Sprintf("v%d", x.T.uniq)
		} else if rootOf(addr).op != "param" {
			x.T.uniq++
			m.ver[selectorOf(addr)] = fmt.Sprintf("v%d", x.T.uniq)
		}
	}
}

func (x *X) cellContents(m *Mem, cell *Term) []*Term {
	var keys, out []*Term
	for k := range m.m {
		if rootOf(k) == cell {
			keys = append(keys, k)
		}
	}
	sortTerms(keys)
	for _, k := range keys {
		out = append(out, m.m[k])
	}
	return out
}

// havocObj forgets everything reachable from v.
// hvMark: how the contents left by what is being called are named: f for a
// callee that fills its arguments in.
func (x *X) hvMark() string {
	if x.filling {
		return "f"
	}
	return "h"
}

func (x *X) havocObj(m *Mem, v *Term, seen map[*Term]bool) {
	v = stripIface(v)
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v.op {
	case "closure", "bound":
		// the callee may run it: its captured variables can change
		var w map[int]bool
		own := v.op == "closure" && v.fn != nil && v.fn.Synthetic == "" && len(v.fn.Blocks) > 0
		if own {
			w = x.closureWrites(v.fn)
		}
		for i, a := range v.args {
			if own && !w[i] {
				// the cell keeps its value; what it refers to may change
				for _, c := range x.cellContents(m, a) {
					x.havocObj(m, c, seen)
				}
				continue
			}
			x.havocObj(m, a, seen)
		}
		return
	case "slice":
		x.havocObj(m, v.args[0], seen)
		return
	case "append":
		return
	}
	if v.typ != nil {
		switch v.typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
		default:
			return
		}
	}
	var keys []*Term
	for k := range m.m {
		if rootOf(k) == v {
			keys = append(keys, k)
		} else if v.op == "fieldaddr" && hasPrefixAddr(k, v) {
			keys = append(keys, k)
		}
	}
	sortTerms(keys)
	for _, k := range keys {
		c := m.m[k]
		delete(m.m, k)
		x.havocObj(m, c, seen)
	}
	x.T.uniq++
	if isFreshObj(v) {
		m.opq[v] = fmt.Sprintf("%s%d", x.hvMark(), x.T.uniq)
	} else if v.op == "fieldaddr" {
		m.m[v] = x.T.Init(v, fmt.Sprintf("%s%d", x.hvMark(), x.T.uniq))
		if structOf(derefType(v.typ)) != nil {
			delete(m.m, v)
			if r := rootOf(v); isFreshObj(r) {
				m.opq[r] = fmt.Sprintf("%s%d", x.hvMark(), x.T.uniq)
			}
		}
	}
}

func hasPrefixAddr(k, p *Term) bool {
	for {
		if k == p {
			return true
		}
		switch k.op {
		case "fieldaddr", "indexaddr", "mapelem", "maphas":
			k = k.args[0]
		default:
			return false
		}
	}
}

// ---------------------------------------------------------------- maps

func (x *X) mapElem(m, k *Term, vt types.Type) *Term {
	return x.T.mk("mapelem", "", vt, m, k)
}

// lookup returns (value, ok) for m[k].
func (x *X) lookup(mem *Mem, m, k *Term, mt *types.Map) (*Term, *Term) {
	T := x.T
	a := x.mapElem(m, k, mt.Elem())
	h := T.mk("maphas", "", nil, m, k)
	if v, ok := mem.m[a]; ok {
		okT := T.Bool(true)
		if o, ok2 := mem.m[h]; ok2 {
			okT = o
		}
		return v, okT
	}
	if m.IsNil() {
		return T.Zero(mt.Elem()), T.Bool(false)
	}
	if x.initMut[m] {
		ver := "g" + mem.ver["m:"+typeKey(m.typ)]
		return T.mk("lookup", ver, mt.Elem(), m, k), T.mk("has", ver, types.Typ[types.Bool], m, k)
	}
	if im := x.initObj[m]; im != nil && im != mem {
		v, has := x.lookup(im, m, k, mt)
		x.markInit(v, im)
		return v, has
	}
	other := false
	for kk := range mem.m {
		if kk.op == "mapelem" && kk.args[0] == m && !(kk.args[1].IsConst() && k.IsConst()) {
			other = true
		}
	}
	if m.op == "makemap" {
		if v, opq := mem.opq[m]; opq {
			return T.mk("lookup", v, mt.Elem(), m, k), T.mk("has", v, types.Typ[types.Bool], m, k)
		}
		if !other {
			return T.Zero(mt.Elem()), T.Bool(false)
		}
	}
	ver := mem.ver["m:"+typeKey(m.typ)]
	if other {
		var ks []*Term
		for kk := range mem.m {
			if kk.op == "mapelem" && kk.args[0] == m {
				ks = append(ks, kk)
			}
		}
		ver += fmt.Sprintf("/%d", len(ks))
	}
	if v, opq := mem.opq[m]; opq {
		ver = v
	}
	return T.mk("lookup", ver, mt.Elem(), m, k), T.mk("has", ver, types.Typ[types.Bool], m, k)
}

// constSet: the members of a small set of constants that is known in full.
func (x *X) constSet(mem *Mem, m *Term, mt *types.Map) []*Term {
	if bt, ok := mt.Elem().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		if st, ok := mt.Elem().Underlying().(*types.Struct); !ok || st.NumFields() > 0 {
			return nil
		}
	}
	if m.op != "makemap" || x.initMut[m] {
		return nil
	}
	if im := x.initObj[m]; im != nil {
		mem = im
	}
	if _, opq := mem.opq[m]; opq {
		return nil
	}
	var ks []*Term
	for kk := range mem.m {
		if kk.op != "mapelem" || kk.args[0] != m {
			continue
		}
		h := mem.m[x.T.mk("maphas", "", nil, m, kk.args[1])]
		if h == nil || !kk.args[1].IsConst() {
			return nil
		}
		if v, ok := h.BoolVal(); !ok || !v {
			return nil
		}
		ks = append(ks, kk.args[1])
	}
	if len(ks) > 8 {
		return nil
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (x *X) mapStore(mem *Mem, m, k, v *Term, has *Term) {
	a := x.mapElem(m, k, v.typ)
	h := x.T.mk("maphas", "", nil, m, k)
	for kk := range mem.m {
		if (kk.op == "mapelem" || kk.op == "maphas") && kk.args[0] == m && kk.args[1] != k && !(kk.args[1].IsConst() && k.IsConst()) {
			delete(mem.m, kk)
			if m.op == "makemap" {
				x.T.uniq++
				mem.opq[m] = fmt.Sprintf("w%d", x.T.uniq)
			}
		}
	}
	if m.op != "makemap" {
		// other aliases of the same map type
		for kk := range mem.m {
			if (kk.op == "mapelem" || kk.op == "maphas") && kk.args[0] != m && kk.args[0].op != "makemap" && typeKey(kk.args[0].typ) == typeKey(m.typ) {
				delete(mem.m, kk)
			}
		}
		x.T.uniq++
		mem.ver["m:"+typeKey(m.typ)] = fmt.Sprintf("v%d", x.T.uniq)
	}
	mem.m[a] = v
	mem.m[h] = has
}

// ---------------------------------------------------------------- loops

func (x *X) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := x.loopMemo[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := out[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					out[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if body[n] {
						continue
					}
					body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	x.loopMemo[fn] = out
	return out
}

// shrinks: the loop variable is a slice that loses its first element in
// every iteration.
func shrinks(ph *ssa.Phi, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok || ph.Block() != h {
		return false
	}
	n := 0
	for i, p := range h.Preds {
		if !body[p] {
			continue
		}
		sl, ok := ph.Edges[i].(*ssa.Slice)
		if !ok || sl.X != ph || sl.High != nil || sl.Max != nil {
			return false
		}
		if k, ok := sl.Low.(*ssa.Const); !ok || k.Int64() != 1 {
			return false
		}
		n++
	}
	return n > 0
}

func (x *X) runLoop(fr *frame, h, pred *ssa.BasicBlock, env Env, st *State, outer *loopCtx) []exit {
	body := fr.loops[h]
	if outs, ok := x.unrollMap(fr, h, pred, env, st, outer, body); ok {
		return outs
	}
	if outs, ok := x.unrollRange(fr, h, pred, env, st, outer, body); ok {
		return outs
	}
	x.nloop++
	info := &LoopInfo{id: x.nloop, fn: fr.fn, header: h, startT: x.T.next, mods: map[*Term]*Term{}, pre: st.mem, preF: st.facts}
	st.mem.shared = true
	st.fShare = true
	pi := -1
	for i, p := range h.Preds {
		if p == pred {
			pi = i
		}
	}
	for _, ins := range h.Instrs {
		if info.pos == token.NoPos && ins.Pos().IsValid() {
			info.pos = ins.Pos()
		}
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		sym := x.T.fresh("phi", "loop"+fmt.Sprint(info.id)+"."+phiName(ph), ph.Type())
		sym.loop = info
		var in *Term
		if pi >= 0 {
			in = x.val(fr, env, ph.Edges[pi])
		}
		if in != nil && shrinks(ph, h, body) {
			k := x.T.fresh("phi", "loop"+fmt.Sprint(info.id)+"."+phiName(ph)+".taken", types.Typ[types.Int])
			k.loop = info
			info.phis = append(info.phis, &LoopPhi{phi: ph, sym: k, init: x.T.Int(0), rest: in})
			continue
		}
		info.phis = append(info.phis, &LoopPhi{phi: ph, sym: sym, init: in})
	}
	if info.pos == token.NoPos {
		for b := range body {
			for _, ins := range b.Instrs {
				if ins.Pos().IsValid() && (info.pos == token.NoPos || ins.Pos() < info.pos) {
					info.pos = ins.Pos()
				}
			}
		}
	}
	exits := x.fixLoop(fr, info, env, st, x.rotated(fr, info, body, st, func(e2 Env, s2 *State) []exit {
		return x.runFrom(fr, h, firstNonPhi(h), e2, s2, &loopCtx{header: h, body: body})
	}))
	var out []exit
	for _, ex := range exits {
		switch ex.kind {
		case xBack:
		case xLeave:
			x.emit(ex.st, fr, &Event{kind: EvLoopExit, name: "loopexit", loop: info, pos: info.pos})
			out = append(out, x.run(fr, ex.to, ex.from, ex.env, ex.st, outer)...)
		default:
			out = append(out, ex)
		}
	}
	return out
}

// rotated moves the test of a flag at the head of a loop to the end of the
// body: "for more { ... more = ... }" leaves from the end of the pass that
// clears the flag, as "for { ...; if !more { break } }" does. The flag is known
// to allow another pass at the head, because it does on entry.
func (x *X) rotated(fr *frame, info *LoopInfo, body map[*ssa.BasicBlock]bool, pre *State, run func(Env, *State) []exit) func(Env, *State) []exit {
	h := info.header
	k := firstNonPhi(h)
	iff, ok := h.Instrs[k].(*ssa.If)
	if !ok {
		return run
	}
	cond, neg := iff.Cond, false
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, neg = u.X, true
	}
	var flag *LoopPhi
	for _, p := range info.phis {
		if p.phi == cond {
			flag = p
		}
	}
	if flag == nil || flag.init == nil || body[h.Succs[0]] == body[h.Succs[1]] {
		return run
	}
	stay := body[h.Succs[0]] != neg // the value of the flag that goes on
	leave := h.Succs[0]
	if body[leave] {
		leave = h.Succs[1]
	}
	if ev := pre.facts.Eval(flag.init); ev == 0 || (ev == 1) != stay {
		return run
	}
	info.flag = flag.sym
	return func(e2 Env, s2 *State) []exit {
		s2.wfacts().Assume(flag.sym, stay)
		var out []exit
		for _, ex := range run(e2, s2) {
			if ex.kind != xBack {
				out = append(out, ex)
				continue
			}
			bi := -1
			for i, q := range h.Preds {
				if q == ex.from {
					bi = i
				}
			}
			more := x.val(fr, ex.env, flag.phi.Edges[bi])
			end := exit{kind: xLeave, env: ex.env.clone(), st: ex.st.clone(), from: h, to: leave}
			end.st.wfacts().Assume(more, !stay)
			if !end.st.facts.bad {
				for _, p := range info.phis {
					end.env[p.phi] = x.val(fr, ex.env, p.phi.Edges[bi])
				}
				out = append(out, end)
			}
			ex.st.wfacts().Assume(more, stay)
			if !ex.st.facts.bad {
				out = append(out, ex)
			}
		}
		return out
	}
}

// unrollRange expands range loops over literals of known small length.
// unrollMap runs a range over a fresh map whose entries are all known, in two
// opposite orders: every pair of entries is met both ways round (in every
// order when the loop may end early).
func (x *X) unrollMap(fr *frame, h, pred *ssa.BasicBlock, env Env, st *State, outer *loopCtx, body map[*ssa.BasicBlock]bool) ([]exit, bool) {
	if h.Comment != "rangeiter.loop" {
		return nil, false
	}
	var nx *ssa.Next
	for _, ins := range h.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			nx = n
		}
	}
	if nx == nil {
		return nil, false
	}
	it, ok := env[nx.Iter]
	if !ok || it.op != "range" || it.args[0].op != "makemap" {
		return nil, false
	}
	m := it.args[0]
	mt, ok := m.typ.Underlying().(*types.Map)
	if _, opq := st.mem.opq[m]; !ok || opq {
		return nil, false
	}
	for b := range body {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.MapUpdate:
				if types.Identical(ins.Map.Type().Underlying(), mt) {
					return nil, false
				}
			case *ssa.Call:
				if bi, ok := ins.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					return nil, false
				}
			}
		}
	}
	var keys []*Term
	for kk, v := range st.mem.m {
		if kk.op != "maphas" || kk.args[0] != m {
			continue
		}
		if !kk.args[1].IsConst() || v != x.T.Bool(true) {
			return nil, false
		}
		keys = append(keys, kk.args[1])
	}
	if len(keys) == 0 || len(keys) > 8 {
		return nil, false
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	var steps []*Term
	for _, k := range keys {
		v, _ := x.lookup(st.mem, m, k, mt)
		steps = append(steps, x.T.mk("tuple", "", nil, x.T.Bool(true), k, v))
	}
	early := false
	for b := range body {
		for _, n := range b.Succs {
			early = early || b != h && !body[n]
		}
	}
	if early && len(steps) > 3 {
		return nil, false // which entries are met depends on the order
	}
	var orders [][]*Term
	for i := range steps {
		if i > 0 && !early {
			break
		}
		turn := append(append([]*Term{}, steps[i:]...), steps[:i]...)
		var rev []*Term
		for j := len(turn) - 1; j >= 0; j-- {
			rev = append(rev, turn[j])
		}
		orders = append(orders, turn)
		if len(steps) > 1 {
			orders = append(orders, rev)
		}
	}
	end := x.T.mk("tuple", "", nil, x.T.Bool(false), x.T.Zero(mt.Key()), x.T.Zero(mt.Elem()))
	if fr.next == nil {
		fr.next = map[*ssa.Next]*Term{}
	}
	defer delete(fr.next, nx)
	var done []exit
	for oi, order := range orders {
		e0, s0 := env, st
		if oi+1 < len(orders) {
			e0, s0 = env.clone(), st.clone()
		}
		cur := []exit{{kind: xBack, env: e0, st: s0, from: pred, to: h}}
		for round := 0; round <= len(order) && len(cur) > 0; round++ {
			var next []exit
			for _, c := range cur {
				pi := -1
				for i, p := range h.Preds {
					if p == c.from {
						pi = i
					}
				}
				var vals []*Term
				k := 0
				for _, ins := range h.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, x.val(fr, c.env, ph.Edges[pi]))
					k++
				}
				for i := 0; i < k; i++ {
					c.env[h.Instrs[i].(*ssa.Phi)] = vals[i]
				}
				fr.next[nx] = end
				if round < len(order) {
					fr.next[nx] = order[round]
				}
				for _, ex := range x.runFrom(fr, h, k, c.env, c.st, &loopCtx{header: h, body: body}) {
					if ex.kind == xBack {
						next = append(next, ex)
					} else {
						done = append(done, ex)
					}
				}
			}
			cur = next
			if len(cur) > 4096 {
				x.giveUp("unrolled loop in %s has too many paths", fr.fn)
			}
		}
		if len(cur) > 0 {
			x.giveUp("literal map range in %s does not end", fr.fn)
		}
	}
	delete(fr.next, nx)
	var out []exit
	for _, ex := range done {
		if ex.kind == xLeave {
			out = append(out, x.run(fr, ex.to, ex.from, ex.env, ex.st, outer)...)
		} else {
			out = append(out, ex)
		}
	}
	return out, true
}

func (x *X) unrollRange(fr *frame, h, pred *ssa.BasicBlock, env Env, st *State, outer *loopCtx, body map[*ssa.BasicBlock]bool) ([]exit, bool) {
	counted := h.Comment == "for.loop"
	if h.Comment != "rangeindex.loop" && !counted {
		return nil, false
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil, false
	}
	var n int64
	if counted {
		// for i := 0; i < len(literal); i++, or a single pass
		ph, ok2 := cmp.X.(*ssa.Phi)
		if !ok2 || ph.Block() != h {
			return nil, false
		}
		if cl, ok := cmp.Y.(*ssa.Call); ok && len(cl.Call.Args) == 1 {
			b, ok := cl.Call.Value.(*ssa.Builtin)
			t, ok3 := env[cl.Call.Args[0]]
			if !ok || b.Name() != "len" || !ok3 || t.typ == nil {
				return nil, false
			}
			if _, ok := t.typ.Underlying().(*types.Slice); !ok {
				return nil, false
			}
			if n, ok = x.T.Len(t).IntVal(); !ok {
				return nil, false
			}
		} else if t, ok := env[cmp.Y]; ok {
			if n, ok = t.IntVal(); !ok || n > 1 {
				return nil, false
			}
		} else {
			return nil, false
		}
		for i, e := range ph.Edges {
			if body[h.Preds[i]] {
				inc, ok := e.(*ssa.BinOp)
				if !ok || inc.Op != token.ADD || inc.X != ph {
					return nil, false
				}
				if k, ok := inc.Y.(*ssa.Const); !ok || k.Int64() != 1 {
					return nil, false
				}
			} else if k, ok := e.(*ssa.Const); !ok || k.Int64() != 0 {
				return nil, false
			}
		}
	} else if c, ok := cmp.Y.(*ssa.Const); ok {
		n = c.Int64()
	} else {
		t, ok := env[cmp.Y]
		if !ok {
			return nil, false
		}
		if n, ok = t.IntVal(); !ok {
			return nil, false
		}
	}
	if n > 12 {
		return nil, false
	}
	var done []exit
	cur := []exit{{kind: xBack, env: env, st: st, from: pred, to: h}}
	for round := int64(0); round <= n+1 && len(cur) > 0; round++ {
		var next []exit
		for _, c := range cur {
			pi := -1
			for i, p := range h.Preds {
				if p == c.from {
					pi = i
				}
			}
			var vals []*Term
			k := 0
			for _, ins := range h.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, x.val(fr, c.env, ph.Edges[pi]))
				k++
			}
			for i := 0; i < k; i++ {
				c.env[h.Instrs[i].(*ssa.Phi)] = vals[i]
			}
			for _, ex := range x.runFrom(fr, h, k, c.env, c.st, &loopCtx{header: h, body: body}) {
				if ex.kind == xBack {
					next = append(next, ex)
				} else {
					done = append(done, ex)
				}
			}
		}
		cur = next
		if len(cur) > 4096 {
			x.giveUp("unrolled loop in %s has too many paths", fr.fn)
		}
	}
	if len(cur) > 0 {
		x.giveUp("literal range loop in %s does not end", fr.fn)
	}
	var out []exit
	for _, ex := range done {
		if ex.kind == xLeave {
			out = append(out, x.run(fr, ex.to, ex.from, ex.env, ex.st, outer)...)
		} else {
			out = append(out, ex)
		}
	}
	return out, true
}

// fixLoop computes the loop-modified cells and inductive invariants of an
// arbitrary iteration and returns the exits of the stable round.
func (x *X) fixLoop(fr *frame, info *LoopInfo, env Env, st *State, bodyFn func(Env, *State) []exit) []exit {
	// candidate invariants (Houdini): p >= init, p <= init, p != nil
	type cand struct {
		p    *LoopPhi
		kind int
		q    *LoopPhi
		k    int64
		d    *Term
	}
	var cands []cand
	// the variables of the loop: those carried by phis and the cells it writes
	var vars []*LoopPhi
	relate := func(p, q *LoopPhi) {
		if p.init == nil || q.init == nil || p == q {
			return
		}
		if isIntType(p.sym.typ) && q.sym.typ != nil {
			if _, ok := q.sym.typ.Underlying().(*types.Slice); ok {
				// len(q) == p + k holds initially
				bl, kl := x.T.linear(x.T.Len(q.init))
				bp, kp := x.T.linear(p.init)
				if bl == bp {
					cands = append(cands, cand{p: p, kind: 3, q: q, k: kl - kp})
				}
			}
		}
		if q.init.op == "pure" && q.init.sym == "(time.Time).Add" && q.init.args[0] == p.init {
			// q is p later by a fixed duration
			cands = append(cands, cand{p: p, kind: 4, q: q, d: q.init.args[1]})
		}
	}
	addVar := func(p *LoopPhi, cell bool) {
		for _, q := range vars {
			relate(p, q)
			relate(q, p)
		}
		vars = append(vars, p)
		if p.init == nil {
			return
		}
		if p.rest != nil {
			cands = append(cands, cand{p: p, kind: 5})
		}
		if isIntType(p.sym.typ) {
			if !cell {
				cands = append(cands, cand{p: p, kind: 0})
			}
			cands = append(cands, cand{p: p, kind: 1})
		} else if p.sym.typ != nil {
			switch p.sym.typ.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map:
				if st.facts.Eval(x.T.Eq(p.init, x.T.Nil())) == -1 {
					cands = append(cands, cand{p: p, kind: 2})
				}
			}
		}
	}
	for _, p := range info.phis {
		addVar(p, false)
	}
	mods := map[*Term]bool{}
	clob := map[*Term]bool{} // objects havocked
	var exits []exit
	var memcands []*Term
	dropMem := map[*Term]bool{}
	for round := 0; ; round++ {
		if round > 24 {
			x.giveUp("loop at %s does not stabilise", x.posStr(info.pos))
		}
		e2 := env.clone()
		s2 := st.clone()
		for _, p := range info.phis {
			e2[p.phi] = p.sym
			if p.rest != nil {
				e2[p.phi] = x.sliceFrom(p.rest, p.sym, p.phi.Type())
			}
		}
		m := s2.wmem()
		var addrs []*Term
		for a := range mods {
			addrs = append(addrs, a)
		}
		sortTerms(addrs)
		for _, a := range addrs {
			mp := info.mods[a]
			if mp == nil {
				var ty types.Type
				if a.typ != nil {
					if a.op == "mapelem" {
						ty = a.typ
					} else if a.op != "maphas" {
						ty = derefType(a.typ)
					} else {
						ty = types.Typ[types.Bool]
					}
				} else if a.op == "maphas" {
					ty = types.Typ[types.Bool]
				}
				mp = x.T.fresh("memphi", "loop"+fmt.Sprint(info.id)+"."+strings.Trim(a.String(), "&"), ty)
				mp.loop = info
				info.mods[a] = mp
				if v, ok := st.mem.m[a]; ok && a.op != "mapelem" && a.op != "maphas" {
					addVar(&LoopPhi{init: v, sym: mp}, true)
				}
			}
			if a.op == "mapelem" || a.op == "maphas" {
				m.m[a] = mp
			} else {
				x.clobberAliases(m, a)
				m.m[a] = mp
			}
		}
		var cl []*Term
		for o := range clob {
			cl = append(cl, o)
		}
		sortTerms(cl)
		for _, o := range cl {
			x.havocObj(m, o, map[*Term]bool{})
			x.T.uniq++
			m.opq[o] = fmt.Sprintf("L%d.%d", info.id, x.T.uniq)
		}
		f := s2.wfacts()
		for _, c := range cands {
			switch c.kind {
			case 0:
				f.assumeLE(c.p.init, c.p.sym, 0)
			case 1:
				f.assumeLE(c.p.sym, c.p.init, 0)
			case 2:
				f.Assume(x.T.Eq(c.p.sym, x.T.Nil()), false)
			case 3:
				f.assumeLE(x.T.Len(c.q.sym), c.p.sym, c.k)
				f.assumeLE(c.p.sym, x.T.Len(c.q.sym), -c.k)
			case 5:
				f.assumeLE(c.p.sym, x.T.Len(c.p.rest), 0)
			case 4:
				f.Assume(x.T.Eq(x.unixNano(c.q.sym), x.T.BinOp(token.ADD, x.unixNano(c.p.sym), c.d, types.Typ[types.Int64], types.Typ[types.Int64])), true)
			}
		}
		memcands = memcands[:0]
		for _, a := range addrs {
			if dropMem[a] {
				continue
			}
			mp := info.mods[a]
			if isIntType(mp.typ) {
				if v, ok := st.mem.m[a]; ok {
					memcands = append(memcands, a)
					f.assumeLE(v, mp, 0)
				}
			}
		}
		info.iters = nil
		startNode := s2.trace
		le := x.emit(s2, fr, &Event{kind: EvLoop, name: "loop", loop: info, pos: info.pos})
		_ = le
		loopStart := s2.trace
		base := s2.mem
		exits = bodyFn(e2, s2)
		_ = startNode
		changed := false
		for _, ex := range exits {
			if ex.kind != xBack {
				continue
			}
			it := &IterPath{events: traceEvents(ex.st.trace, loopStart), facts: ex.st.facts, mem: ex.st.mem, next: map[*Term]*Term{}, locks: ex.st.locks}
			for _, p := range info.phis {
				bi := -1
				for i, q := range info.header.Preds {
					if q == ex.from {
						bi = i
					}
				}
				if p.rest != nil {
					it.next[p.sym] = x.T.plus(p.sym, 1, p.sym.typ)
					continue
				}
				it.next[p.sym] = x.val(fr, ex.env, p.phi.Edges[bi])
			}
			for a, mp := range info.mods {
				if v, ok := ex.st.mem.m[a]; ok {
					it.next[mp] = v
				} else {
					it.next[mp] = x.T.Init(a, "?")
				}
			}
			info.iters = append(info.iters, it)
			// verify invariants
			var keep []cand
			for _, c := range cands {
				nv := it.next[c.p.sym]
				ok := false
				switch c.kind {
				case 0:
					ok = ex.st.wfacts().entLE(c.p.init, nv, 0)
				case 1:
					ok = ex.st.wfacts().entLE(nv, c.p.init, 0)
				case 2:
					ok = ex.st.facts.Eval(x.T.Eq(nv, x.T.Nil())) == -1
				case 3:
					nq := it.next[c.q.sym]
					f := ex.st.wfacts()
					ok = f.entLE(x.T.Len(nq), nv, c.k) && f.entLE(nv, x.T.Len(nq), -c.k)
				case 5:
					ok = ex.st.wfacts().entLE(nv, x.T.Len(c.p.rest), 0)
				case 4:
					// both move by the same amount
					nq := it.next[c.q.sym]
					dp, dq := x.minus(x.unixNano(nv), x.unixNano(c.p.sym)), x.minus(x.unixNano(nq), x.unixNano(c.q.sym))
					ok = len(dp) == len(dq)
					for t, k := range dp {
						ok = ok && dq[t] != nil && dq[t].Cmp(k) == 0
					}
				}
				if ok {
					keep = append(keep, c)
				} else {
					changed = true
				}
			}
			cands = keep
			for _, a := range memcands {
				if dropMem[a] {
					continue
				}
				nv := it.next[info.mods[a]]
				if !ex.st.wfacts().entLE(st.mem.m[a], nv, 0) {
					dropMem[a] = true
					changed = true
				}
			}
			// modified addresses
			for a, v := range ex.st.mem.m {
				if b, ok := base.m[a]; ok && b == v {
					continue
				}
				if mods[a] {
					continue
				}
				r := rootOf(a)
				if r.id >= info.startT && !isHeaderSym(info, r) {
					// rooted in this iteration: its selector may alias outer cells
					if !isFreshObj(r) {
						sel := selectorOf(a)
						for k := range base.m {
							if selectorOf(k) == sel && mayAlias(k, a) && !mods[k] {
								mods[k] = true
								changed = true
							}
						}
					}
					continue
				}
				if a.op == "mapelem" || a.op == "maphas" {
					if a.newerThan(info.startT) {
						if !clob[a.args[0]] {
							clob[a.args[0]] = true
							changed = true
						}
						continue
					}
				} else if a.newerThan(info.startT) {
					o := a.args[0]
					if a.op == "indexaddr" {
						if !clob[o] {
							clob[o] = true
							changed = true
						}
						continue
					}
				}
				mods[a] = true
				changed = true
			}
			// cells dropped by the body (clobbered)
			for a := range base.m {
				if _, ok := ex.st.mem.m[a]; !ok && !mods[a] && !clob[rootOf(a)] {
					mods[a] = true
					changed = true
				}
			}
			for o, v := range ex.st.mem.opq {
				if base.opq[o] != v && o.id < info.startT && !clob[o] {
					clob[o] = true
					changed = true
				}
			}
		}
		if !changed {
			left := false
			for _, ex := range exits {
				if ex.kind != xBack && ex.kind != xPanic {
					left = true
				}
			}
			if !left && len(exits) > 0 {
				x.endless = append(x.endless, &Endless{loop: info, before: traceEvents(startNode, nil), exits: exits})
			}
			break
		}
	}
	return exits
}

// neverClosed: the channel of a timer or ticker.
func neverClosed(ch *Term) bool {
	if ch.ev != nil && (ch.ev.name == "time.After" || ch.ev.name == "time.Tick") {
		return true
	}
	if ch.op != "init" || fieldName(ch.args[0]) != "C" {
		return false
	}
	switch typeKey(derefType(ch.args[0].args[0].typ)) {
	case "time.Ticker", "time.Timer":
		return true
	}
	return false
}

// Endless is a loop no path leaves, and what led to it.
type Endless struct {
	loop   *LoopInfo
	before []*Event
	exits  []exit
	inGo   bool // in a goroutine started on the way
}

// outcome: the path into an endless loop.
func (e *Endless) outcome() *Outcome {
	evs := append(append([]*Event(nil), e.before...), &Event{kind: EvLoop, loop: e.loop, fn: e.loop.fn})
	return &Outcome{St: e.exits[0].st, Pos: e.exits[0].pos, evs: evs, Endless: true}
}

func isHeaderSym(l *LoopInfo, t *Term) bool {
	for _, p := range l.phis {
		if p.sym == t {
			return true
		}
	}
	for _, m := range l.mods {
		if m == t {
			return true
		}
	}
	return false
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

// run enters block b coming from pred.
func (x *X) run(fr *frame, b, pred *ssa.BasicBlock, env Env, st *State, lp *loopCtx) []exit {
	if lp != nil {
		if b == lp.header {
			return []exit{{kind: xBack, env: env, st: st, from: pred, to: b}}
		}
		if !lp.body[b] {
			return []exit{{kind: xLeave, env: env, st: st, from: pred, to: b}}
		}
	}
	if _, isH := fr.loops[b]; isH {
		return x.runLoop(fr, b, pred, env, st, lp)
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	if pi >= 0 {
		var vals []*Term
		n := 0
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, x.val(fr, env, ph.Edges[pi]))
			n++
		}
		for i := 0; i < n; i++ {
			env[b.Instrs[i].(*ssa.Phi)] = vals[i]
		}
	}
	return x.runFrom(fr, b, firstNonPhi(b), env, st, lp)
}

func (x *X) val(fr *frame, env Env, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.T.Zero(v.Type())
		}
		return x.T.Const(v.Value, v.Type())
	case *ssa.Global:
		t := x.T.mk("global", v.String(), v.Type())
		return t
	case *ssa.Function:
		t := x.T.mk("func", v.String(), v.Type())
		t.fn = v
		return t
	case *ssa.Builtin:
		return x.T.mk("builtin", v.Name(), nil)
	case *ssa.FreeVar:
		if t, ok := fr.free[v]; ok {
			return t
		}
		return x.T.mk("param", "free:"+v.Parent().String()+"."+v.Name(), v.Type())
	}
	t, ok := env[v]
	if !ok {
		x.giveUp("value %s of %s not evaluated", v.Name(), fr.fn)
	}
	return t
}

func (x *X) may(st *State, fr *frame, kind string, val *Term, pos token.Pos) {
	x.emit(st, fr, &Event{kind: EvMay, name: kind, val: val, pos: pos})
}

// checkNil records a possible nil dereference of p.
func (x *X) checkNil(st *State, fr *frame, p *Term, pos token.Pos) {
	if nonNilTerm(p) {
		return
	}
	switch p.op {
	case "param":
		return
	}
	e := x.T.Eq(p, x.T.Nil())
	switch st.facts.Eval(e) {
	case -1:
		return
	}
	kind := "nil"
	if p.IsNil() || st.facts.Eval(e) == 1 {
		kind = "unchecked"
	}
	if err := errOf(p); err != nil { // the result of a call that may have failed
		kind = "unchecked"
		if x.isNil(st.facts, err) == 1 {
			kind = ""
		}
	}
	if kind != "" {
		x.may(st, fr, kind, p, pos)
	}
	// after surviving the dereference the pointer is non-nil
	st.wfacts().atoms[e] = false
}

func (x *X) runFrom(fr *frame, b *ssa.BasicBlock, i int, env Env, st *State, lp *loopCtx) []exit {
	T := x.T
	x.fnsSeen[fr.fn] = true
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			x.giveUp("step bound exceeded in %s", fr.fn)
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			a := T.fresh("alloc", allocName(ins), ins.Type())
			a.pos = ins.Pos()
			env[ins] = a
		case *ssa.BinOp:
			xt := ins.X.Type()
			xv, yv := x.val(fr, env, ins.X), x.val(fr, env, ins.Y)
			if ins.Op == token.QUO || ins.Op == token.REM {
				if isIntType(ins.Type()) {
					if st.facts.Eval(T.Eq(yv, T.Int(0))) != -1 {
						x.may(st, fr, "divzero", yv, ins.Pos())
					}
				}
			}
			env[ins] = T.BinOp(ins.Op, xv, yv, xt, ins.Type())
		case *ssa.UnOp:
			xv := x.val(fr, env, ins.X)
			switch ins.Op {
			case token.MUL:
				x.checkNil(st, fr, xv, ins.Pos())
				v := x.loadMem(st.mem, xv, ins.Type())
				if x.watch && (xv.op == "fieldaddr" || xv.op == "indexaddr") && (!isFreshObj(rootOf(xv)) || x.watchObj[rootOf(xv)]) {
					x.emit(st, fr, &Event{kind: EvLoad, name: "load", addr: xv, val: v, pos: ins.Pos()})
				}
				env[ins] = v
			case token.NOT:
				env[ins] = T.Not(xv)
			case token.SUB:
				env[ins] = T.BinOp(token.SUB, T.Const(constant.MakeInt64(0), ins.Type()), xv, ins.X.Type(), ins.Type())
			case token.ARROW:
				ev := x.emit(st, fr, &Event{kind: EvRecv, name: "recv", args: []*Term{xv}, pos: ins.Pos()})
				ct := ins.X.Type().Underlying().(*types.Chan)
				rv := T.fresh("ret", "recv", ct.Elem())
				rv.ev = ev
				ev.res = []*Term{rv}
				if ins.CommaOk {
					ok := T.fresh("ret", "recvok", types.Typ[types.Bool])
					if xv := x.val(fr, env, ins.X); xv.op == "makechan" && x.neverClosed(xv.typ) {
						ok = T.Bool(true)
					}
					ok.ev = ev
					if neverClosed(xv) {
						ok = T.Bool(true)
					}
					ev.res = append(ev.res, ok)
					env[ins] = T.mk("tuple", "", nil, rv, ok)
				} else {
					env[ins] = rv
				}
			default:
				env[ins] = T.mk("u"+ins.Op.String(), "", ins.Type(), xv)
			}
		case *ssa.Call:
			rs := x.call(fr, &ins.Call, nil, nil, env, st, ins.Pos(), false)
			if len(rs) == 1 && rs[0].kind == xReturn {
				st = rs[0].st
				env[ins] = x.tuple(rs[0].vals)
				continue
			}
			var out []exit
			for k, r := range rs {
				if r.kind != xReturn {
					out = append(out, x.unwind(fr, r)...)
					continue
				}
				e2 := env
				if k < len(rs)-1 {
					e2 = env.clone()
				}
				e2[ins] = x.tuple(r.vals)
				out = append(out, x.runFrom(fr, b, i+1, e2, r.st, lp)...)
			}
			return out
		case *ssa.ChangeInterface:
			env[ins] = x.val(fr, env, ins.X)
		case *ssa.ChangeType:
			env[ins] = x.val(fr, env, ins.X)
		case *ssa.Convert:
			env[ins] = x.convert(x.val(fr, env, ins.X), ins.X.Type(), ins.Type())
		case *ssa.MultiConvert:
			env[ins] = T.mk("conv", "", ins.Type(), x.val(fr, env, ins.X))
		case *ssa.Defer:
			var args []*Term
			for _, a := range ins.Call.Args {
				args = append(args, x.val(fr, env, a))
			}
			d := deferred{common: &ins.Call, fnT: x.val(fr, env, ins.Call.Value), args: args, pos: ins.Pos(), frame: fr.id}
			if ins.Call.IsInvoke() {
				x.checkNil(st, fr, d.fnT, ins.Pos())
			}
			st.defers = append(st.defers, d)
			x.emit(st, fr, &Event{kind: EvDefer, name: calleeName(&ins.Call), args: append([]*Term{d.fnT}, args...), pos: ins.Pos()})
		case *ssa.Extract:
			t := x.val(fr, env, ins.Tuple)
			if t.op != "tuple" {
				x.giveUp("extract from non-tuple %s", t)
			}
			env[ins] = t.args[ins.Index]
		case *ssa.Field:
			v := x.val(fr, env, ins.X)
			fa := T.FieldAddr(T.mk("valaddr", "", types.NewPointer(ins.X.Type()), v), ins.X.Type(), ins.Field)
			if r := x.fieldOf(v, fa); r != nil {
				env[ins] = r
			} else {
				env[ins] = T.mk("field", fa.sym, ins.Type(), v)
			}
		case *ssa.FieldAddr:
			p := x.val(fr, env, ins.X)
			x.checkNil(st, fr, p, ins.Pos())
			env[ins] = T.FieldAddr(p, derefType(ins.X.Type()), ins.Field)
		case *ssa.Go:
			x.spawn(fr, ins, env, st)
		case *ssa.If:
			c := x.val(fr, env, ins.Cond)
			ev := st.facts.Eval(c)
			if ev == 1 {
				return x.run(fr, b.Succs[0], b, env, st, lp)
			}
			if ev == -1 {
				return x.run(fr, b.Succs[1], b, env, st, lp)
			}
			s2 := st.clone()
			e2 := env.clone()
			var out []exit
			st.wfacts().Assume(c, true)
			if !st.facts.bad {
				out = append(out, x.run(fr, b.Succs[0], b, env, st, lp)...)
			}
			s2.wfacts().Assume(c, false)
			if !s2.facts.bad {
				out = append(out, x.run(fr, b.Succs[1], b, e2, s2, lp)...)
			}
			return out
		case *ssa.Index:
			xv, iv := x.val(fr, env, ins.X), x.val(fr, env, ins.Index)
			x.checkIndex(st, fr, xv, iv, ins.X.Type(), ins.Pos())
			env[ins] = T.mk("index", "", ins.Type(), xv, iv)
		case *ssa.IndexAddr:
			xv, iv := x.val(fr, env, ins.X), x.val(fr, env, ins.Index)
			x.checkIndex(st, fr, xv, iv, ins.X.Type(), ins.Pos())
			base := xv
			j := iv
			if base.op == "slice" {
				if !base.args[1].IsNil() {
					j = T.BinOp(token.ADD, iv, base.args[1], types.Typ[types.Int], types.Typ[types.Int])
				}
				base = base.args[0]
			}
			env[ins] = T.IndexAddr(base, j, derefType(ins.Type()))
		case *ssa.Jump:
			return x.run(fr, b.Succs[0], b, env, st, lp)
		case *ssa.Lookup:
			mt, isMap := ins.X.Type().Underlying().(*types.Map)
			xv, iv := x.val(fr, env, ins.X), x.val(fr, env, ins.Index)
			if !isMap {
				x.checkIndex(st, fr, xv, iv, ins.X.Type(), ins.Pos())
				env[ins] = T.mk("index", "", ins.Type(), xv, iv)
				break
			}
			if ks := x.constSet(st.mem, xv, mt); len(ks) > 0 && !iv.IsConst() && !x.watch {
				// a fixed set: which member it is, or that it is none
				var out []exit
				branch := func(f *Facts, v, ok *Term) {
					e2, s2 := env.clone(), st.clone()
					s2.facts = f
					if e2[ins] = v; ins.CommaOk {
						e2[ins] = T.mk("tuple", "", nil, v, ok)
					}
					out = append(out, x.runFrom(fr, b, i+1, e2, s2, lp)...)
				}
				rest, left := st.facts, true
				for _, k := range ks {
					eq := T.Eq(iv, k)
					if f, ok := x.with(rest, eq, true); ok {
						v, has := x.lookup(st.mem, xv, k, mt)
						branch(f, v, has)
					}
					if rest, left = x.with(rest, eq, false); !left {
						break
					}
				}
				if left {
					branch(rest, T.Zero(mt.Elem()), T.Bool(false))
				}
				return out
			}
			v, ok := x.lookup(st.mem, xv, iv, mt)
			if x.watch {
				x.emit(st, fr, &Event{kind: EvLookup, name: "lookup", addr: xv, args: []*Term{xv, iv}, val: v, pos: ins.Pos()})
			}
			if ins.CommaOk {
				env[ins] = T.mk("tuple", "", nil, v, ok)
			} else {
				env[ins] = v
			}
		case *ssa.MakeChan:
			env[ins] = T.fresh("makechan", "chan", ins.Type(), x.val(fr, env, ins.Size))
		case *ssa.MakeClosure:
			var bs []*Term
			for _, bv := range ins.Bindings {
				bs = append(bs, x.val(fr, env, bv))
			}
			c := T.fresh("closure", ins.Fn.Name(), ins.Type(), bs...)
			c.fn = ins.Fn.(*ssa.Function)
			c.pos = ins.Pos()
			env[ins] = c
		case *ssa.MakeInterface:
			v := x.val(fr, env, ins.X)
			env[ins] = T.mk("mkiface", "", ins.X.Type(), v)
		case *ssa.MakeMap:
			env[ins] = T.fresh("makemap", "map", ins.Type())
		case *ssa.MakeSlice:
			env[ins] = T.fresh("mkslice", "slice", ins.Type(), x.val(fr, env, ins.Len))
		case *ssa.MapUpdate:
			m, k, v := x.val(fr, env, ins.Map), x.val(fr, env, ins.Key), x.val(fr, env, ins.Value)
			if st.facts.Eval(T.Eq(m, T.Nil())) != -1 {
				x.may(st, fr, "nilmap", m, ins.Pos())
			}
			x.mapStore(st.wmem(), m, k, v, T.Bool(true))
			x.noteShared(st, fr, m, ins.Pos())
			x.emit(st, fr, &Event{kind: EvMapUpdate, name: "mapupdate", addr: m, args: []*Term{m, k, v}, val: v, pos: ins.Pos()})
		case *ssa.Next:
			if t := fr.next[ins]; t != nil {
				env[ins] = t
				continue
			}
			r := x.val(fr, env, ins.Iter)
			T.uniq++
			ok := T.fresh("rangeok", "", types.Typ[types.Bool], r.args[0])
			tt := ins.Type().(*types.Tuple)
			k := T.fresh("rangekey", "", tt.At(1).Type(), r.args[0])
			v := T.fresh("rangeval", "", tt.At(2).Type(), r.args[0], k)
			if mt, isM := r.args[0].typ.Underlying().(*types.Map); isM {
				k.typ, v.typ = mt.Key(), mt.Elem()
			}
			env[ins] = T.mk("tuple", "", nil, ok, k, v)
		case *ssa.Panic:
			v := x.val(fr, env, ins.X)
			x.emit(st, fr, &Event{kind: EvPanic, name: "panic", args: []*Term{v}, pos: ins.Pos()})
			return x.unwind(fr, exit{kind: xPanic, st: st, ptype: "panic", pos: ins.Pos()})
		case *ssa.Range:
			env[ins] = T.mk("range", "", nil, x.val(fr, env, ins.X))
		case *ssa.Return:
			var vals []*Term
			for _, r := range ins.Results {
				vals = append(vals, x.val(fr, env, r))
			}
			return []exit{{kind: xReturn, vals: vals, st: st, env: env, pos: ins.Pos()}}
		case *ssa.RunDefers:
			sts := x.runDefers(fr, st)
			if len(sts) == 1 && sts[0].kind == xReturn {
				st = sts[0].st
				continue
			}
			var out []exit
			for _, r := range sts {
				if r.kind != xReturn {
					out = append(out, r)
					continue
				}
				out = append(out, x.runFrom(fr, b, i+1, env.clone(), r.st, lp)...)
			}
			return out
		case *ssa.Select:
			return x.selectStmt(fr, ins, b, i, env, st, lp)
		case *ssa.Send:
			x.emit(st, fr, &Event{kind: EvSend, name: "send", args: []*Term{x.val(fr, env, ins.Chan), x.val(fr, env, ins.X)}, val: x.val(fr, env, ins.X), pos: ins.Pos()})
		case *ssa.Slice:
			env[ins] = x.sliceOp(fr, ins, env, st)
		case *ssa.SliceToArrayPointer:
			env[ins] = T.mk("conv", "", ins.Type(), x.val(fr, env, ins.X))
		case *ssa.Store:
			a, v := x.val(fr, env, ins.Addr), x.val(fr, env, ins.Val)
			x.checkNil(st, fr, a, ins.Pos())
			x.storeMem(st.wmem(), a, v, derefType(ins.Addr.Type()))
			x.noteShared(st, fr, a, ins.Pos())
			if !(a.op == "alloc") {
				x.emit(st, fr, &Event{kind: EvStore, name: "store", addr: a, val: v, pos: ins.Pos()})
			}
		case *ssa.TypeAssert:
			v := x.val(fr, env, ins.X)
			val, ok := x.typeAssert(st, v, ins.AssertedType)
			if ins.CommaOk {
				if b, known := ok.BoolVal(); known && !b {
					val = T.Zero(ins.AssertedType)
				}
				env[ins] = T.mk("tuple", "", nil, val, ok)
			} else {
				switch st.facts.Eval(ok) {
				case 1:
				default:
					k := "typeassert"
					if types.Identical(ins.X.Type(), ins.AssertedType) {
						k = "nil" // a method value of an interface
					}
					x.emit(st, fr, &Event{kind: EvMay, name: k, val: v, args: []*Term{ok}, pos: ins.Pos()})
					if !ok.IsConst() {
						st.wfacts().Assume(ok, true)
					}
				}
				env[ins] = val
			}
		default:
			x.giveUp("unsupported instruction %T in %s", ins, fr.fn)
		}
	}
	x.giveUp("fell off block in %s", fr.fn)
	return nil
}

// noteShared remembers writes to package variables, or to what they refer to,
// that no lock guards: calls that run at the same time see each other's values.
func (x *X) noteShared(st *State, fr *frame, a *Term, pos token.Pos) {
	if x.inInit || x.inOnce > 0 || len(st.locks) > 0 || !inRepoFn(fr.fn) {
		return
	}
	if p := fr.fn.Package(); p != nil && p.Pkg.Name() == "main" {
		return
	}
	r := rootOf(a)
	for r.op == "init" && x.globalOf(r) == nil {
		r = rootOf(r.args[0])
	}
	switch {
	case r.op == "global" && x.globalOf(r) != nil:
	case x.initMut[r]:
	default:
		return
	}
	if x.sharedW == nil {
		x.sharedW = map[string]string{}
	}
	x.sharedW[fnName(fr.fn)] = fmt.Sprintf("%s changes %s, which all calls share, under no lock at %s", shortFn(fr.fn), strings.ReplaceAll(a.String(), modPath+"/", ""), x.posStr(pos))
}

func allocName(a *ssa.Alloc) string {
	c := a.Comment
	if c == "" || c == "complit" || c == "new" || c == "varargs" || c == "slicelit" {
		return shortT(derefType(a.Type()))
	}
	return c
}

func (x *X) tuple(vs []*Term) *Term {
	switch len(vs) {
	case 0:
		return x.T.mk("tuple", "", nil)
	case 1:
		return vs[0]
	}
	return x.T.mk("tuple", "", nil, vs...)
}

func (x *X) convert(v *Term, from, to types.Type) *Term {
	if v.op == "const" {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return x.T.Const(v.cv, to)
			}
			if fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsFloat != 0 {
				return x.T.Const(constant.ToFloat(v.cv), to)
			}
		}
	}
	sz := func(t types.Type) (int64, bool, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0, false, false
		}
		return types.SizesFor("gc", "amd64").Sizeof(t), b.Info()&types.IsUnsigned != 0, true
	}
	fs, fu, fok := sz(from)
	ts, tu, tok := sz(to)
	if fok && tok {
		if fs == ts && fu == tu || ts > fs && (fu == tu || fu) {
			return v
		}
	}
	if fb, ok := from.Underlying().(*types.Basic); ok {
		if tb, ok := to.Underlying().(*types.Basic); ok && fb.Kind() == tb.Kind() {
			return v
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	// []byte(string(x)) and back
	if v.op == "conv" && len(v.args) == 1 && v.args[0].typ != nil && types.Identical(v.args[0].typ.Underlying(), to.Underlying()) && (isStringType(from) || isStringType(to)) {
		return v.args[0]
	}
	return x.T.mk("conv", "", to, v)
}

func (x *X) checkIndex(st *State, fr *frame, s, i *Term, t types.Type, pos token.Pos) {
	var l *Term
	switch u := t.Underlying().(type) {
	case *types.Array:
		l = x.T.Int(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			l = x.T.Int(a.Len())
		}
	case *types.Slice, *types.Basic:
		l = x.T.Len(s)
	case *types.Map:
		return
	}
	if l == nil {
		return
	}
	f := st.facts
	if st.fShare {
		f = st.wfacts()
	}
	if f.entLE(x.T.Int(0), i, 0) && f.entLE(i, l, -1) {
		return
	}
	x.may(st, fr, "index", x.T.mk("idx", "", nil, s, i), pos)
	f = st.wfacts()
	f.assumeLE(x.T.Int(0), i, 0)
	f.assumeLE(i, l, -1)
	f.bad = false
}

func (x *X) sliceOp(fr *frame, ins *ssa.Slice, env Env, st *State) *Term {
	T := x.T
	b := x.val(fr, env, ins.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return T.Nil()
		}
		return x.val(fr, env, v)
	}
	lo, hi := get(ins.Low), get(ins.High)
	if z, ok := lo.IntVal(); ok && z == 0 {
		lo = T.Nil()
	}
	if b.op != "alloc" && lo.IsNil() && hi.IsNil() {
		return b
	}
	if !hi.IsNil() || !lo.IsNil() {
		full := T.Len(b)
		if a, ok := derefType(ins.X.Type()).Underlying().(*types.Array); ok {
			full = T.Int(a.Len())
		}
		l := T.Int(0)
		if !lo.IsNil() {
			l = lo
		}
		h := full
		if !hi.IsNil() {
			h = hi
		}
		f := st.wfacts()
		if !(f.entLE(T.Int(0), l, 0) && f.entLE(l, h, 0) && f.entLE(h, full, 0)) {
			x.may(st, fr, "slicebounds", T.mk("idx", "", nil, b, l, h), ins.Pos())
			f = st.wfacts()
			f.assumeLE(T.Int(0), l, 0)
			f.assumeLE(l, h, 0)
			f.bad = false
		}
	}
	return x.resliced(b, lo, hi, ins.Type())
}

// sliceFrom: s[k:].
func (x *X) sliceFrom(s, k *Term, typ types.Type) *Term {
	return x.resliced(s, k, x.T.Nil(), typ)
}

// resliced: b[lo:hi].
func (x *X) resliced(b, lo, hi *Term, typ types.Type) *Term {
	T := x.T
	// slicing a slice composes
	if b.op == "slice" {
		l0 := b.args[1]
		add := func(a, c *Term) *Term {
			if a.IsNil() {
				return c
			}
			if c.IsNil() {
				return a
			}
			return T.BinOp(token.ADD, a, c, types.Typ[types.Int], types.Typ[types.Int])
		}
		nl := add(l0, lo)
		nh := b.args[2]
		if !hi.IsNil() {
			nh = add(l0, hi)
		}
		return T.mk("slice", "", typ, b.args[0], nl, nh)
	}
	return T.mk("slice", "", typ, b, lo, hi)
}

func (x *X) typeAssert(st *State, v *Term, at types.Type) (*Term, *Term) {
	T := x.T
	if v.IsNil() {
		return T.Zero(at), T.Bool(false)
	}
	if v.op == "mkiface" {
		if isInterface(at) {
			ok := types.Implements(v.typ, at.Underlying().(*types.Interface))
			return v, T.Bool(ok)
		}
		if types.Identical(v.typ, at) {
			return v.args[0], T.Bool(true)
		}
		return T.Zero(at), T.Bool(false)
	}
	ok := T.mk("istype", "", at, v)
	if isInterface(at) {
		if v.typ != nil && isInterface(v.typ) && types.Implements(v.typ, at.Underlying().(*types.Interface)) {
			return v, T.Not(T.Eq(v, T.Nil()))
		}
		return v, ok
	}
	return T.mk("assert", "", at, v), ok
}

func (x *X) spawn(fr *frame, ins *ssa.Go, env Env, st *State) {
	s2 := st.clone()
	s2.trace = nil
	s2.locks = map[*Term]int{}
	s2.defers = nil
	ev := x.emit(st, fr, &Event{kind: EvGo, name: calleeName(&ins.Call), pos: ins.Pos()})
	for _, a := range ins.Call.Args {
		ev.args = append(ev.args, x.val(fr, env, a))
	}
	if !ins.Call.IsInvoke() {
		if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
			ev.fnv = x.val(fr, env, ins.Call.Value)
		}
	}
	nEndless := len(x.endless)
	rs := x.call(fr, &ins.Call, nil, nil, env, s2, ins.Pos(), false)
	for _, r := range rs {
		ev.sub = append(ev.sub, x.outcome(r))
	}
	for _, e := range x.endless[nEndless:] {
		if !e.inGo {
			e.inGo = true
			ev.sub = append(ev.sub, e.outcome())
		}
	}
}

func (x *X) outcome(r exit) *Outcome {
	o := &Outcome{Panic: r.kind == xPanic, PKind: r.ptype, Vals: r.vals, St: r.st, Pos: r.pos}
	o.evs = traceEvents(r.st.trace, nil)
	return o
}

func (x *X) runDefers(fr *frame, st *State) []exit {
	n := len(st.defers)
	if n == 0 || st.defers[n-1].frame != fr.id {
		return []exit{{kind: xReturn, st: st}}
	}
	d := st.defers[n-1]
	st.defers = st.defers[:n-1]
	rs := x.call(fr, d.common, d.fnT, d.args, nil, st, d.pos, true)
	var out []exit
	for _, r := range rs {
		if r.kind == xPanic {
			out = append(out, x.unwind(fr, r)...)
			continue
		}
		out = append(out, x.runDefers(fr, r.st)...)
	}
	return out
}

// unwind runs the frame's deferred calls while panicking.
func (x *X) unwind(fr *frame, r exit) []exit {
	if r.ptype == "exit" {
		return []exit{r}
	}
	n := len(r.st.defers)
	if n == 0 || r.st.defers[n-1].frame != fr.id {
		return []exit{r}
	}
	r.st.recov = false
	rs := x.runDefers(fr, r.st)
	var out []exit
	for _, q := range rs {
		if q.kind == xPanic {
			out = append(out, q)
			continue
		}
		if q.st.recov {
			q.st.recov = false
			var vals []*Term
			res := fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, x.T.fresh("ret", "recovered", res.At(i).Type()))
			}
			out = append(out, exit{kind: xReturn, vals: vals, st: q.st, pos: r.pos})
			continue
		}
		out = append(out, exit{kind: xPanic, st: q.st, ptype: r.ptype, pos: r.pos})
	}
	return out
}

func (x *X) selectStmt(fr *frame, ins *ssa.Select, b *ssa.BasicBlock, i int, env Env, st *State, lp *loopCtx) []exit {
	T := x.T
	var out []exit
	n := len(ins.States)
	ids := []int{}
	for k := 0; k < n; k++ {
		ids = append(ids, k)
	}
	if !ins.Blocking {
		ids = append(ids, -1)
	}
	for _, k := range ids {
		s2 := st.clone()
		e2 := env.clone()
		ev := &Event{kind: EvSelect, name: "select", selIx: k, blocking: ins.Blocking, pos: ins.Pos()}
		var parts []*Term
		parts = append(parts, T.Int(int64(k)), T.fresh("ret", "recvok", types.Typ[types.Bool]))
		for j, s := range ins.States {
			ev.chans = append(ev.chans, x.val(fr, env, s.Chan))
			if s.Dir == types.RecvOnly {
				ct := s.Chan.Type().Underlying().(*types.Chan)
				rv := T.fresh("ret", "recv", ct.Elem())
				rv.ev = ev
				parts = append(parts, rv)
				if j == k {
					ev.res = []*Term{rv, parts[1]}
				}
			}
			if j == k {
				ev.args = []*Term{x.val(fr, env, s.Chan)}
				if s.Dir == types.SendOnly {
					ev.name = "select-send"
					ev.val = x.val(fr, env, s.Send)
				} else {
					ev.name = "select-recv"
				}
				ev.pos = s.Pos
			}
		}
		if k == -1 {
			ev.name = "select-default"
		}
		x.emit(s2, fr, ev)
		e2[ins] = T.mk("tuple", "", nil, parts...)
		out = append(out, x.runFrom(fr, b, i+1, e2, s2, lp)...)
	}
	return out
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

// fnName: the types.Func full name for declared functions, ssa name otherwise.
func fnName(f *ssa.Function) string {
	if f.Object() != nil {
		if tf, ok := f.Object().(*types.Func); ok {
			return tf.FullName()
		}
	}
	if f.Parent() != nil {
		return f.String()
	}
	return f.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
