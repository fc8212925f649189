package main

// Queries over abstract paths shared by the property checks.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isNil: 1 known nil, -1 known non-nil, 0 unknown.
func (x *X) isNil(f *Facts, t *Term) int {
	if t.IsNil() {
		return 1
	}
	if nonNilTerm(t) {
		return -1
	}
	return f.Eval(x.T.Eq(t, x.T.Nil()))
}

func (x *X) same(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = stripIface(a), stripIface(b)
	if a == b {
		return true
	}
	if f == nil {
		return false
	}
	if f.Eval(x.T.Eq(a, b)) == 1 {
		return true
	}
	// a struct put together from another's fields
	if b.op == "struct" && a.op != "struct" {
		a, b = b, a
	}
	if a.op == "struct" && b.op == "init" && b.typ != nil && types.Identical(a.typ, b.typ) && len(a.args) > 0 {
		for i, v := range a.args {
			if !x.same(f, v, x.valField(b, i)) {
				return false
			}
		}
		return true
	}
	return false
}

// with returns a copy of f with t==v assumed; ok is false on contradiction.
func (x *X) with(f *Facts, t *Term, v bool) (*Facts, bool) {
	g := f.clone()
	g.Assume(t, v)
	g.recheck()
	return g, !g.bad
}

// allEvents visits every event of a path: complete loop iterations and
// goroutine bodies included.
func allEvents(evs []*Event, f func(*Event)) {
	seen := map[*LoopInfo]bool{}
	var walk func(evs []*Event)
	walk = func(evs []*Event) {
		for _, e := range evs {
			f(e)
			if e.kind == EvLoop && !seen[e.loop] {
				seen[e.loop] = true
				for _, it := range e.loop.iters {
					walk(it.events)
				}
			}
			for _, o := range e.sub {
				walk(o.evs)
			}
		}
	}
	walk(evs)
}

func isExtCall(e *Event) bool { return e.kind == EvCall && !e.inl }

// sig of the callee of an event, if known.
func evSig(e *Event) *types.Signature {
	if e.method != nil {
		return e.method.Type().(*types.Signature)
	}
	if e.callee != nil {
		return e.callee.Signature
	}
	return nil
}

// isHTTPDo: an outgoing request: (… *http.Request) (*http.Response, error).
func isHTTPDo(e *Event) bool {
	if !isExtCall(e) {
		return false
	}
	s := evSig(e)
	if s == nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	return s.Params().At(0).Type().String() == "*net/http.Request" && s.Results().At(0).Type().String() == "*net/http.Response"
}

type reqInfo struct {
	ev     *Event
	client *Term // receiver
	req    *Term
	method *Term
	url    *Term // *url.URL object the text came from, if any
	urlStr *Term
	path   *Term
	base   *Term // text the URL object was parsed from
	query  *Term // url.Values map encoded into RawQuery, nil when none
	rawQ   *Term
	ctx    *Term
	header *Term
	body   *Term
	um     *Mem // memory in which the URL was rendered
	qm     *Mem // memory in which the query was encoded
	qf     *Facts
}

// reqOf decodes the request passed to a Do-like event.
func (x *X) reqOf(e *Event) *reqInfo {
	r := &reqInfo{ev: e}
	n := len(e.args)
	r.req = e.args[n-1]
	if n > 1 {
		r.client = e.args[0]
	}
	rt := x.NamedType("net/http", "Request")
	r.method = x.LoadField(e.mem, r.req, rt, "Method")
	r.header = x.LoadField(e.mem, r.req, rt, "Header")
	r.body = x.LoadField(e.mem, r.req, rt, "Body")
	if v, ok := e.mem.m[x.T.mk("ctxof", "", nil, r.req)]; ok {
		r.ctx = v
	}
	u := x.LoadField(e.mem, r.req, rt, "URL")
	ut := x.NamedType("net/url", "URL")
	r.um = e.mem
	if u.op == "newobj" && len(u.args) == 1 {
		r.urlStr = u.args[0]
		s := u.args[0]
		if s.op == "ret" && s.ev != nil && s.ev.name == "(*net/url.URL).String" {
			r.um = s.ev.mem
			u = s.ev.args[0]
		}
	}
	r.url = u
	if u.op == "newobj" && len(u.args) == 1 {
		r.base = u.args[0]
	} else if u.op == "ret" && u.ev != nil {
		r.base = u.ev.args[0]
	}
	r.path = x.LoadField(r.um, u, ut, "Path")
	r.rawQ = x.LoadField(r.um, u, ut, "RawQuery")
	if q := r.rawQ; q.op == "ret" && q.ev != nil && q.ev.name == "(net/url.Values).Encode" {
		r.query = q.ev.args[0]
		r.qm = q.ev.mem
		r.qf = q.ev.facts
	}
	return r
}

// setPath: the path the code itself gave the URL (options may edit it later).
func (x *X) setPath(o *Outcome, r *reqInfo) *Term {
	fa := x.FieldNamed(r.url, x.NamedType("net/url", "URL"), "Path")
	var p *Term
	for _, e := range o.evs {
		if e == r.ev {
			break
		}
		if e.kind == EvStore && e.addr == fa {
			p = e.val
		}
	}
	if p == nil {
		return r.path
	}
	return p
}

// qval reads a query/map key written in mem: (values, present).
func (x *X) qval(m *Mem, mp *Term, key string) ([]*Term, bool) {
	v, ok := m.m[x.T.mk("mapelem", "", nil, mp, x.T.Str(key))]
	if !ok {
		return nil, false
	}
	els, ok := x.elems(m, v)
	if !ok {
		return []*Term{v}, true
	}
	return els, true
}

// mapKeys lists the constant keys present in a map under construction.
func (x *X) mapKeys(m *Mem, mp *Term) []string {
	var out []string
	for k, v := range m.m {
		if k.op == "maphas" && k.args[0] == mp {
			if b, ok := v.BoolVal(); ok && !b {
				continue
			}
			if s, ok := k.args[1].StrVal(); ok {
				out = append(out, s)
			} else {
				out = append(out, "?"+k.args[1].String())
			}
		}
	}
	return out
}

// derives: t is computed from src, following call results to their inputs.
func derives(t, src *Term) bool {
	seen := map[*Term]bool{}
	var w func(y *Term) bool
	w = func(y *Term) bool {
		if y == nil || seen[y] {
			return false
		}
		seen[y] = true
		if y == src {
			return true
		}
		for _, a := range y.args {
			if w(a) {
				return true
			}
		}
		if y.op == "ret" && y.ev != nil {
			for _, a := range y.ev.args {
				if w(a) {
					return true
				}
			}
		}
		return false
	}
	return w(t)
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// failures lists the error results of earlier calls known to be non-nil.
func (x *X) failures(evs []*Event, f *Facts) []*Event {
	var out []*Event
	for _, e := range evs {
		if e.inl || e.kind == EvLeave {
			continue
		}
		for _, r := range e.res {
			if isErrorType(r.typ) && (r.op == "ret" || r.op == "pure") && x.isNil(f, r) == -1 {
				out = append(out, e)
			}
		}
	}
	return out
}

func (x *X) where(e *Event) string {
	fn := ""
	if e.fn != nil {
		fn = shortFn(e.fn)
	}
	return fmt.Sprintf("%s (%s)", fn, x.posStr(e.pos))
}

func shortFn(f *ssa.Function) string { return strings.ReplaceAll(fnName(f), modPath+"/", "") }

func (x *X) pathStr(o *Outcome) string {
	s := o.St.facts.String()
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return fmt.Sprintf("path [%s] ending at %s", s, x.posStr(o.Pos))
}

// ---------------------------------------------------------------- scenarios

// rets keeps the outcomes that return; panicking ones are reported.
func (c *C) rets(x *X, outs []*Outcome, rule, what string) []*Outcome {
	var r []*Outcome
	c.noMay(x, outs, rule, what, "unchecked")
	c.replyNil(x, outs, rule, what)
	c.messagesKept(x, outs, rule, what)
	for _, o := range outs {
		if o.Panic {
			c.ob(false, rule, what, "%s may panic or exit: %s", what, x.pathStr(o))
			continue
		}
		r = append(r, o)
	}
	if len(r) == 0 {
		x.giveUp("%s never returns", what)
	}
	return r
}

func (x *X) sliceOf(elem types.Type, ts ...*Term) *Term {
	if len(ts) == 0 {
		return x.T.Nil()
	}
	return x.T.mk("append", "", types.NewSlice(elem), append([]*Term{x.T.Nil()}, ts...)...)
}

func (x *X) symOf(name string, t types.Type) *Term { return x.T.fresh("sym", name, t) }

// oneOf runs fn and returns its only non-panicking outcome.
func (x *X) single(outs []*Outcome, what string) *Outcome {
	var r *Outcome
	for _, o := range outs {
		if o.Panic {
			continue
		}
		if r != nil {
			x.giveUp("%s has several outcomes", what)
		}
		r = o
	}
	if r == nil {
		x.giveUp("%s has no outcome", what)
	}
	return r
}

// ---------------------------------------------------------------- loops

// coverage of a slice by a loop's index.
type cover struct {
	loop *LoopInfo
	idx  *Term // index term of the current element
}

// covers decides whether loop l visits slice s from its first element in
// steps of one, leaving (other than by return) only when it is exhausted.
// exits are the paths' loop-exit events.
func (x *X) covers(l *LoopInfo, s *Term, exits []*Event) (*cover, string) {
	if l == nil {
		return nil, "no loop"
	}
	ln := x.T.Len(s)
	why := "no index variable advances by one from the first element"
	for _, p := range x.locals(l) {
		if !isIntType(p.sym.typ) || p.init == nil {
			continue
		}
		k0, ok := p.init.IntVal()
		if !ok || (k0 != 0 && k0 != -1) {
			continue
		}
		idx := x.T.plus(p.sym, -k0, p.sym.typ)
		good := len(l.iters) > 0
		for _, it := range l.iters {
			if it.next[p.sym] != x.T.plus(p.sym, 1, p.sym.typ) {
				good = false
			}
			if !it.facts.clone().entLE(idx, ln, -1) {
				good = false
			}
		}
		if !good {
			continue
		}
		for _, e := range exits {
			if e.loop == l && !e.facts.clone().entLE(ln, idx, 0) {
				return nil, "the loop can end before the last element"
			}
		}
		return &cover{l, idx}, ""
	}
	return nil, why
}

// elemAt: is t the element of s at idx?
func (x *X) elemAt(m *Mem, s, idx *Term) *Term {
	el := elemTypeOf(s.typ)
	if el == nil {
		return nil
	}
	return x.loadMem(m, x.T.IndexAddr(s, idx, el), el)
}

func loopExits(outs []*Outcome) []*Event {
	var r []*Event
	for _, o := range outs {
		for _, e := range o.evs {
			if e.kind == EvLoopExit {
				r = append(r, e)
			}
		}
	}
	return r
}

// loopVars: the variables a loop carries from one pass to the next, whether
// they live in registers or (captured by a function literal, say) in cells
// that pass which.
func (x *X) loopVars(l *LoopInfo, which func(addr *Term) bool) []*LoopPhi {
	phis := append([]*LoopPhi(nil), l.phis...)
	for a, sym := range l.mods {
		if which != nil && !which(a) {
			continue
		}
		p := &LoopPhi{sym: sym}
		if l.pre != nil && sym.typ != nil {
			p.init = x.loadMem(l.pre, a, sym.typ)
		}
		phis = append(phis, p)
	}
	sort.Slice(phis[len(l.phis):], func(i, j int) bool { return phis[len(l.phis)+i].sym.id < phis[len(l.phis)+j].sym.id })
	return phis
}

// locals: the variables of a loop that no other function can reach but
// through what captured them.
func (x *X) locals(l *LoopInfo) []*LoopPhi {
	return x.loopVars(l, func(a *Term) bool { return a.op == "alloc" && a.typ != nil })
}

// initOf: the value of a loop-carried symbol before the loop.
func (x *X) initOf(sym *Term) *Term {
	for _, p := range sym.loop.phis {
		if p.sym == sym {
			return p.init
		}
	}
	for a, m := range sym.loop.mods {
		if m == sym {
			if v, ok := sym.loop.pre.m[a]; ok {
				return v
			}
			if a.op == "mapelem" || a.op == "maphas" {
				return nil
			}
			if a.op == "bufof" {
				if a.args[0].op == "alloc" && sym.loop.pre.opq[a.args[0]] == "" {
					return x.T.Str("")
				}
				return nil
			}
			return x.loadMem(sym.loop.pre, a, derefType(a.typ))
		}
	}
	return nil
}

// perElem checks that sym accumulates exactly want(element) for every element
// of s, in order, starting empty.
func (x *X) perElem(sym *Term, s *Term, exits []*Event, want func(m *Mem, elem *Term) *Term) string {
	return x.perElemFrom(sym, s, exits, nil, want)
}

// appended: got is base followed by all elements of s, in order.
func (x *X) appended(got, base, s *Term, exits []*Event) bool {
	if got.op == "appendall" && got.args[0] == base && got.args[1] == s {
		return true
	}
	return got.loop != nil && x.perElemFrom(got, s, exits, base, func(m *Mem, e *Term) *Term { return e }) == ""
}

// perElemFrom is perElem starting from base (empty when nil).
func (x *X) perElemFrom(sym *Term, s *Term, exits []*Event, base *Term, want func(m *Mem, elem *Term) *Term) string {
	if sym.loop == nil {
		return "not accumulated by a loop: " + sym.String()
	}
	l := sym.loop
	cv, why := x.covers(l, s, exits)
	if cv == nil {
		return why
	}
	in := x.initOf(sym)
	if base != nil && in != base {
		return fmt.Sprintf("does not start with %s (%s)", base, in)
	}
	if base == nil && (in == nil || !(in.IsNil() || x.isEmptyFresh(in))) {
		return fmt.Sprintf("does not start empty (%s)", in)
	}
	for _, it := range l.iters {
		n := it.next[sym]
		w := want(it.mem, x.elemAt(it.mem, s, cv.idx))
		if n.op != "append" || len(n.args) != 2 || n.args[0] != sym || !x.same(it.facts, n.args[1], w) {
			return fmt.Sprintf("an iteration yields %s instead of appending %s", n, w)
		}
	}
	return ""
}

func methodIs(e *Event, name string) bool {
	return e.kind == EvCall && e.method != nil && e.method.Name() == name
}

func (x *X) floatConst(s string) *Term {
	return x.T.Const(constant.ToFloat(constant.MakeFromLiteral(s, token.FLOAT, 0)), types.Typ[types.Float64])
}

// walkTerm visits t and its arguments.
func walkTerm(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
}

// laterStates: the states that earlier calls leave behind when they change
// something that was there before them (fields of the receiver, variables a
// closure keeps), in addition to st itself. Counters that an earlier call
// moved stand for any number of earlier calls.
func (x *X) laterStates(st *State, earlier ...func(st *State) []*Outcome) []*State {
	return x.laterStatesBut(nil, st, earlier...)
}

func (x *X) laterStatesBut(but map[*Term]bool, st *State, earlier ...func(st *State) []*Outcome) []*State {
	start := x.T.next
	var out []*State
	seen := map[string]bool{}
	for _, call := range earlier {
		for _, o := range call(st.clone()) {
			if o.Panic || o.Endless {
				continue
			}
			var changed []string
			var counts []*Term
			for k, v := range o.St.mem.m {
				r := rootOf(k)
				if but[k] || r.id >= start || !isFreshObj(r) && r.op != "closure" {
					continue
				}
				old, had := st.mem.m[k]
				if had && old == v || !had && isZeroTerm(x, v) {
					continue
				}
				shape := v.op + v.sym
				if v.IsConst() || v.id < start {
					shape = v.String()
				}
				changed = append(changed, k.String()+"="+shape)
				if v.typ != nil && k.op == "fieldaddr" && isIntType(v.typ) {
					counts = append(counts, k)
				}
			}
			for k, v := range o.St.mem.opq {
				r := rootOf(k)
				if but[k] || r.id >= start || !isFreshObj(r) || st.mem.opq[k] == v {
					continue
				}
				changed = append(changed, k.String()+" rewritten")
			}
			sort.Strings(changed)
			key := strings.Join(changed, ";")
			if len(changed) == 0 || seen[key] {
				continue
			}
			seen[key] = true
			s := o.St.clone()
			s.trace = nil
			if len(out) >= 48 {
				x.giveUp("too many states between calls")
			}
			out = append(out, s)
			if len(counts) > 0 {
				a := s.clone()
				for _, k := range counts {
					v := a.mem.m[k]
					a.wmem().m[k] = x.symOf("count", v.typ)
				}
				out = append(out, a)
			}
		}
	}
	return out
}

// earlierCall is a call of a method with arbitrary arguments of its own.
func (x *X) earlierCall(fn *ssa.Function, recv *Term) func(st *State) []*Outcome {
	return func(st *State) []*Outcome {
		args := []*Term{recv}
		for _, p := range fn.Params[1:] {
			a := x.symOf("earlier_"+p.Name(), p.Type())
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
				st.wfacts().Assume(x.T.Eq(a, x.T.Nil()), false)
			}
			args = append(args, a)
		}
		return x.Root(fn, st, args, nil)
	}
}

// optionsPure: applying an option changes what it is applied to and nothing
// that the option keeps, so the same option can be applied again.
func (c *C) optionsPure(rule, typ string) {
	x := c.newX()
	ot := x.NamedType(modPath+"/pkg/client", typ)
	n := 0
	pkg := x.pkgs[modPath+"/pkg/client"]
	var names []string
	for name := range pkg.Members {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		fn, ok := pkg.Members[name].(*ssa.Function)
		if !ok || !token.IsExported(name) || fn.Signature.Results().Len() != 1 || fn.Signature.Recv() != nil || !types.Identical(fn.Signature.Results().At(0).Type(), ot) {
			continue
		}
		for _, o := range x.Root(fn, nil, nil, nil) {
			if o.Panic {
				continue
			}
			v := o.Vals[0]
			var apply func(st *State) []*Outcome
			if f := stripConv(stripIface(v)); f.op == "closure" || f.op == "func" {
				apply = func(st *State) []*Outcome {
					var args []*Term
					for i := 0; i < f.fn.Signature.Params().Len(); i++ {
						pt := f.fn.Signature.Params().At(i).Type()
						a := x.symOf("target", pt)
						if it, ok := pt.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
							ct := types.NewPointer(x.NamedType(modPath+"/pkg/client", "Client"))
							a = x.iface(x.symOf("client", ct), ct)
						} else {
							st.wfacts().Assume(x.T.Eq(a, x.T.Nil()), false)
						}
						args = append(args, a)
					}
					return x.CallTerm(f, args, st)
				}
			} else if v.op == "mkiface" {
				apply = func(st *State) []*Outcome {
					m := x.methodOf(v, "configure")
					if m == nil || len(m.Params) != 2 {
						return nil
					}
					return x.earlierCall(m, v.args[0])(st)
				}
			} else {
				continue
			}
			n++
			c.ob(len(x.laterStates(o.St, apply)) == 0, rule, name+" reusable", "applying an option made by %s changes the option: applied again it does something else", name)
		}
	}
	c.need(n, 1, rule, typ+" constructors")
}
