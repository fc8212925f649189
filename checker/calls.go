package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	x     *X
	fr    *frame
	st    *State
	name  string
	args  []*Term // receiver first
	sig   *types.Signature
	pos   token.Pos
	defrd bool
	com   *ssa.CallCommon
	mth   *types.Func
}

func (c *callCtx) resType(i int) types.Type { return c.sig.Results().At(i).Type() }

func (c *callCtx) event() *Event {
	return c.x.emit(c.st, c.fr, &Event{kind: EvCall, name: c.name, args: c.args, pos: c.pos, defrd: c.defrd, method: c.mth})
}

func (c *callCtx) ret(ev *Event, vals ...*Term) []exit {
	if ev != nil {
		ev.res = vals
	}
	return []exit{{kind: xReturn, vals: vals, st: c.st, pos: c.pos}}
}

// opaqueRes makes fresh results tied to the event.
func (c *callCtx) opaqueRes(ev *Event) []*Term {
	var vals []*Term
	for i := 0; i < c.sig.Results().Len(); i++ {
		n := shortName(c.name)
		if c.sig.Results().Len() > 1 {
			n += fmt.Sprintf(".%d", i)
		}
		r := c.x.T.fresh("ret", n, c.resType(i))
		r.ev = ev
		r.pos = c.pos
		vals = append(vals, r)
	}
	return vals
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func inRepoFn(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		}
	}
	return false
}

func (x *X) call(fr *frame, com *ssa.CallCommon, fnT *Term, pre []*Term, env Env, st *State, pos token.Pos, defrd bool) []exit {
	args := pre
	if pre == nil {
		for _, a := range com.Args {
			args = append(args, x.val(fr, env, a))
		}
	}
	sig := com.Signature()
	cc := &callCtx{x: x, fr: fr, st: st, args: args, sig: sig, pos: pos, defrd: defrd, com: com}
	if com.IsInvoke() {
		recv := fnT
		if recv == nil {
			recv = x.val(fr, env, com.Value)
		}
		cc.mth = com.Method
		cc.name = com.Method.FullName()
		if recv.op == "mkiface" {
			m := x.prog.LookupMethod(recv.typ, com.Method.Pkg(), com.Method.Name())
			if m != nil {
				return x.callFn(cc, m, append([]*Term{recv.args[0]}, args...), nil)
			}
		}
		x.checkNil(st, fr, recv, pos)
		cc.args = append([]*Term{recv}, args...)
		if im, ok := x.impl[typeKey(com.Value.Type())]; ok {
			if m := x.prog.LookupMethod(im, com.Method.Pkg(), com.Method.Name()); m != nil {
				return x.callFn(cc, m, cc.args, nil)
			}
		}
		return x.external(cc, nil)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return x.builtin(cc, b.Name())
	}
	if f, ok := com.Value.(*ssa.Function); ok {
		return x.callFn(cc, f, args, nil)
	}
	fv := fnT
	if fv == nil {
		fv = x.val(fr, env, com.Value)
	}
	return x.callValue(cc, fv, args)
}

func (x *X) callValue(cc *callCtx, fv *Term, args []*Term) []exit {
	switch fv.op {
	case "func":
		return x.callFn(cc, fv.fn, args, nil)
	case "closure":
		return x.callFn(cc, fv.fn, args, fv.args)
	}
	if !nonNilTerm(fv) && fv.op != "param" {
		x.checkNil(cc.st, cc.fr, fv, cc.pos)
	}
	cc.name = "dynamic"
	cc.args = append([]*Term{fv}, args...)
	ev := cc.event()
	seen := map[*Term]bool{}
	m := cc.st.wmem()
	for _, a := range args {
		x.havocObj(m, a, seen)
	}
	return cc.ret(ev, cc.opaqueRes(ev)...)
}

func (x *X) callFn(cc *callCtx, fn *ssa.Function, args []*Term, bind []*Term) []exit {
	cc.name = fnName(fn)
	cc.args = args
	if o, ok := fn.Object().(*types.Func); ok {
		cc.mth = o
	}
	if fn.Signature.Recv() != nil && isPtr(fn.Signature.Recv().Type()) && len(args) > 0 && !inRepoFn(fn) && !nilSafe(cc.name) {
		// methods of other packages dereference their receiver
		if r := args[0]; r.IsNil() || errOf(r) != nil {
			x.checkNil(cc.st, cc.fr, r, cc.pos)
			if r.IsNil() {
				return []exit{{kind: xPanic, st: cc.st, ptype: "nil", pos: cc.pos}}
			}
		}
	}
	if in := intrinsics[cc.name]; in != nil {
		return in(cc)
	}
	if out, ok := x.patternIntrinsic(cc, fn); ok {
		return out
	}
	if len(fn.Blocks) == 0 || x.opaque[cc.name] && !(x.unwrap && isWrapper(fn)) {
		return x.external(cc, fn)
	}
	if !inRepoFn(fn) && fn.Synthetic == "" {
		return x.external(cc, fn)
	}
	rec := 0
	for _, f := range cc.fr.stack {
		if f == fn {
			rec++
		}
	}
	if rec >= 2 || cc.fr.depth >= x.maxDepth {
		ev := cc.event()
		ev.callee = fn
		ev.name = cc.name
		seen := map[*Term]bool{}
		m := cc.st.wmem()
		for _, a := range args {
			x.havocObj(m, a, seen)
		}
		return cc.ret(ev, cc.opaqueRes(ev)...)
	}
	st := cc.st
	ev := x.emit(st, cc.fr, &Event{kind: EvCall, name: cc.name, callee: fn, args: args, pos: cc.pos, inl: true, defrd: cc.defrd, method: cc.mth})
	x.nframe++
	nf := &frame{fn: fn, id: x.nframe, depth: cc.fr.depth + 1, loops: x.loopsOf(fn), free: map[*ssa.FreeVar]*Term{}}
	nf.stack = append(append([]*ssa.Function(nil), cc.fr.stack...), fn)
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			nf.free[fv] = bind[i]
		}
	}
	env := Env{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = x.T.fresh("sym", p.Name(), p.Type())
		}
	}
	var outs []exit
	rs := x.run(nf, fn.Blocks[0], nil, env, st, nil)
	for _, r := range rs {
		if r.kind == xReturn {
			x.emit(r.st, cc.fr, &Event{kind: EvLeave, name: cc.name, callee: fn, args: args, res: r.vals, pos: r.pos})
		}
		outs = append(outs, r)
	}
	_ = ev
	return outs
}

// external: a call whose body is outside the repository.
func (x *X) external(cc *callCtx, fn *ssa.Function) []exit {
	if in := intrinsics[cc.name]; in != nil {
		return in(cc)
	}
	return x.externalCall(cc, fn)
}

// externalCall: an external call without a model of its own.
func (x *X) externalCall(cc *callCtx, fn *ssa.Function) []exit {
	if isPure(cc.name) {
		var vals []*Term
		n := cc.sig.Results().Len()
		for i := 0; i < n; i++ {
			nm := cc.name
			if n > 1 {
				nm += fmt.Sprintf(".%d", i)
			}
			args := make([]*Term, len(cc.args))
			for j, a := range cc.args {
				args[j] = stripIface(a)
			}
			args = x.flattenVariadic(cc, args)
			t := x.foldPure(cc.name, args)
			if t == nil || n > 1 {
				t = x.T.mk("pure", nm, cc.resType(i), args...)
			}
			vals = append(vals, t)
		}
		ev := cc.event()
		return cc.ret(ev, vals...)
	}
	if cc.name == "(context.Context).Err" && len(cc.args) == 1 {
		if r := x.ctxEnded(cc); r != nil {
			ev := cc.event()
			if r.ev == nil {
				r.ev = ev
			}
			return cc.ret(ev, r)
		}
	}
	ev := cc.event()
	ev.callee = fn
	seen := map[*Term]bool{}
	inRepoIface := cc.mth != nil && cc.mth.Pkg() != nil && strings.HasPrefix(cc.mth.Pkg().Path(), modPath)
	hv := isMutator(cc.name) || (fn != nil && x.opaque[cc.name])
	if inRepoIface && fn == nil && !strings.HasSuffix(cc.mth.Pkg().Path(), "rpc/logcache_v1") {
		hv = !isHTTPDo(ev) // a RoundTripper leaves the request as it is
	}
	args := cc.args
	if r, ok := map[string]int{"(*google.golang.org/grpc.ClientConn).Invoke": 4, "google.golang.org/grpc.Invoke": 3}[cc.name]; ok && r < len(args) {
		x.filling = true
		x.havocObj(cc.st.wmem(), stripIface(args[r]), seen)
		x.filling = false
	}
	for i, a := range args {
		if isBuffer(a) {
			s := x.T.mk("written", ev.name, types.Typ[types.String], args...)
			if es, ok := x.elems(cc.st.mem, args[len(args)-1]); ok && i == 0 && ev.name == "fmt.Fprintf" {
				if f, ok := args[1].StrVal(); ok {
					if t := x.concatFmt(f, es); t != nil {
						s = t
					}
				}
			}
			if ev.name == "io.WriteString" {
				s = args[1]
			}
			sbAdd(cc, a.args[0], s)
		}
		a = stripIface(a)
		if hv {
			x.filling = isMutator(cc.name)
			x.havocObj(cc.st.wmem(), a, seen)
			x.filling = false
		} else if a.op == "closure" {
			x.mayRun(cc.st, a, seen)
		}
	}
	// closures handed over inside objects, now or when what is called was
	// made, may run
	var cls []*Term
	sc := map[*Term]bool{}
	for _, a := range args {
		if a = stripIface(a); a.op != "closure" {
			cls = x.closuresIn(cc.st.mem, a, sc, cls)
		}
	}
	for _, cl := range cls {
		x.mayRun(cc.st, cl, seen)
	}
	rs := cc.opaqueRes(ev)
	if again := x.treeAgain(cc, ev); again != nil {
		rs = again
	}
	if len(cls) > 0 {
		for _, r := range rs {
			x.carried[r] = cls
		}
	}
	for _, r := range rs {
		if r.typ != nil && strings.HasSuffix(typeKey(r.typ), "context.CancelFunc") {
			cc.st.wfacts().Assume(x.T.Eq(r, x.T.Nil()), false)
		}
	}
	if (x.nonNilRes[cc.name] || nonNilCtor[cc.name]) && len(rs) == 1 {
		cc.st.wfacts().Assume(x.T.Eq(rs[0], x.T.Nil()), false)
	}
	if cc.name == "sort.Search" {
		f := cc.st.wfacts()
		f.assumeLE(x.T.Int(0), rs[0], 0)
		f.assumeLE(rs[0], args[0], 0)
	}
	return cc.ret(ev, rs...)
}

// treeAgain: what a look at a tree gave before, if nothing can have changed
// the tree since: no call but other looks, and no lock taken or released.
func (x *X) treeAgain(cc *callCtx, ev *Event) []*Term {
	const p = "(*" + avlPkg + ".Tree)."
	look := func(n string) bool { return strings.HasPrefix(n, p) && readOnlyTree[strings.TrimPrefix(n, p)] }
	switch strings.TrimPrefix(cc.name, p) {
	case "Left", "Right", "Size", "Empty":
	default:
		return nil
	}
	for n := cc.st.trace; n != nil; n = n.prev {
		e := n.ev
		switch {
		case e == ev, e.kind == EvStore, e.kind == EvLoad, e.kind == EvMay, e.kind == EvLeave, e.kind == EvCall && e.inl:
		case e.kind == EvCall && e.name == cc.name && e.args[0] == cc.args[0]:
			return e.res
		case e.kind == EvCall && (look(e.name) || strings.HasPrefix(e.name, "sync/atomic.") || strings.HasPrefix(e.name, "time.") || strings.Contains(e.name, "go-loggregator/metrics.")):
		default:
			return nil
		}
	}
	return nil
}

// ctxEnded: the error of a context that is known to have ended, because it
// gave one before or because its Done channel was seen closed.
func (x *X) ctxEnded(cc *callCtx) *Term {
	ctx := stripIface(cc.args[0])
	done := false
	for n := cc.st.trace; n != nil; n = n.prev {
		e := n.ev
		switch {
		case e.kind == EvCall && e.name == cc.name && len(e.res) == 1 && stripIface(e.args[0]) == ctx:
			if cc.st.facts.Eval(x.T.Eq(e.res[0], x.T.Nil())) == -1 {
				return e.res[0]
			}
		case e.kind == EvRecv || e.kind == EvSelect && e.name == "select-recv":
			if d := e.args[0]; d.op == "ret" && d.ev != nil && strings.HasSuffix(d.ev.name, "(context.Context).Done") && stripIface(d.ev.args[0]) == ctx {
				done = true
			}
		}
	}
	if !done {
		return nil
	}
	r := x.T.fresh("ret", shortName(cc.name), cc.resType(0))
	cc.st.wfacts().Assume(x.T.Eq(r, x.T.Nil()), false)
	return r
}

// nonNilCtor: library constructors that never return nil.
var nonNilCtor = map[string]bool{
	"time.NewTicker": true, "time.NewTimer": true, "time.AfterFunc": true, "log.New": true,
	"net/http.NewServeMux": true, "google.golang.org/grpc.NewServer": true,
	"bufio.NewReader": true, "bufio.NewWriter": true, "bufio.NewScanner": true,
	"crypto/x509.NewCertPool": true, "crypto/sha256.New": true, "bytes.NewReader": true, "strings.NewReader": true,
	"context.Background": true, "context.TODO": true,
}

// errOf: the error that a call returned together with t.
func errOf(t *Term) *Term {
	if t.op != "ret" || t.ev == nil || len(t.ev.res) < 2 {
		return nil
	}
	if err := t.ev.res[len(t.ev.res)-1]; err != t && err.typ != nil && isErrorType(err.typ) {
		return err
	}
	return nil
}

// nilSafe: methods that accept a nil receiver.
func nilSafe(n string) bool {
	return strings.Contains(n, ").Get") || strings.HasSuffix(n, ").String") || strings.HasPrefix(n, "(*net/url.Userinfo)") || strings.HasPrefix(n, "(*os.File)") || n == "(*crypto/tls.Config).Clone"
}

// flattenVariadic replaces a varargs slice with its elements.
func (x *X) flattenVariadic(cc *callCtx, args []*Term) []*Term {
	if !cc.sig.Variadic() || len(args) == 0 {
		return args
	}
	els, ok := x.elems(cc.st.mem, args[len(args)-1])
	if !ok {
		return args
	}
	out := append([]*Term(nil), args[:len(args)-1]...)
	for _, e := range els {
		out = append(out, stripIface(e))
	}
	return out
}

// elems lists the elements of a slice value when they are all known.
func (x *X) elems(m *Mem, s *Term) ([]*Term, bool) {
	switch s.op {
	case "nil":
		return nil, true
	case "append":
		b, ok := x.elems(m, s.args[0])
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), b...), s.args[1:]...), true
	case "mkslice":
		if n, ok := s.args[0].IntVal(); ok && n == 0 {
			return nil, true
		}
		if n, ok := s.args[0].IntVal(); ok && n < 64 {
			var out []*Term
			el := elemTypeOf(s.typ)
			for i := int64(0); i < n; i++ {
				out = append(out, x.loadMem(m, x.T.IndexAddr(s, x.T.Int(i), el), el))
			}
			return out, true
		}
	case "slice":
		b := s.args[0]
		if b.op == "alloc" && s.args[1].IsNil() {
			if a, ok := derefType(b.typ).Underlying().(*types.Array); ok {
				n := a.Len()
				if !s.args[2].IsNil() {
					h, ok := s.args[2].IntVal()
					if !ok {
						return nil, false
					}
					n = h
				}
				var out []*Term
				for i := int64(0); i < n; i++ {
					out = append(out, x.loadMem(m, x.T.IndexAddr(b, x.T.Int(i), a.Elem()), a.Elem()))
				}
				return out, true
			}
		}
	}
	return nil, false
}

func (x *X) builtin(cc *callCtx, name string) []exit {
	T := x.T
	a := cc.args
	switch name {
	case "len":
		if a[0].typ != nil {
			if arr, ok := derefType(a[0].typ).Underlying().(*types.Array); ok {
				return cc.ret(nil, T.Int(arr.Len()))
			}
			switch a[0].typ.Underlying().(type) {
			case *types.Map, *types.Chan:
				if a[0].op == "makemap" || true {
					t := T.fresh("len", "maplen", types.Typ[types.Int], a[0])
					if a[0].op == "makemap" && cc.st.mem.opq[a[0]] == "" {
						n := 0
						exact := true
						for k := range cc.st.mem.m {
							if k.op == "maphas" && k.args[0] == a[0] {
								if b, ok := cc.st.mem.m[k].BoolVal(); !ok || !b {
									exact = false
								}
								n++
							}
						}
						if exact && n == 0 {
							return cc.ret(nil, T.Int(0))
						}
					}
					if a[0].op != "makemap" {
						t = T.mk("len", "m"+cc.st.mem.ver["m:"+typeKey(a[0].typ)], types.Typ[types.Int], a[0])
					}
					return cc.ret(nil, t)
				}
			}
		}
		return cc.ret(nil, T.Len(a[0]))
	case "cap":
		return cc.ret(nil, T.mk("cap", "", types.Typ[types.Int], a[0]))
	case "append":
		if len(a) == 1 {
			return cc.ret(nil, a[0])
		}
		base := a[0]
		rt := cc.com.Value.Type()
		_ = rt
		typ := base.typ
		if cc.com.Args != nil {
			typ = cc.com.Args[0].Type()
		}
		if base.IsNil() {
			base = T.Nil()
		}
		if els, ok := x.elems(cc.st.mem, a[1]); ok {
			if len(els) == 0 {
				return cc.ret(nil, base)
			}
			if base.op == "append" {
				els = append(append([]*Term(nil), base.args[1:]...), els...)
				base = base.args[0]
			}
			t := T.mk("append", "", typ, append([]*Term{base}, els...)...)
			return cc.ret(nil, t)
		}
		if base.IsNil() || x.isEmptyFresh(base) {
			return cc.ret(nil, T.mk("copyof", "", typ, a[1]))
		}
		return cc.ret(nil, T.mk("appendall", "", typ, base, a[1]))
	case "copy":
		ev := cc.event()
		ev.name = "builtin.copy"
		x.havocObj(cc.st.wmem(), a[0], map[*Term]bool{})
		if a[0].op == "mkslice" {
			// remember the source of a whole-slice copy
			cc.st.wmem().m[T.mk("copysrc", "", nil, a[0])] = a[1]
		}
		r := T.fresh("ret", "copy", types.Typ[types.Int])
		r.ev = ev
		return cc.ret(ev, r)
	case "delete":
		mt, _ := cc.com.Args[0].Type().Underlying().(*types.Map)
		x.mapStore(cc.st.wmem(), a[0], a[1], T.Zero(mt.Elem()), T.Bool(false))
		x.emit(cc.st, cc.fr, &Event{kind: EvMapUpdate, name: "delete", addr: a[0], args: a, pos: cc.pos})
		return cc.ret(nil)
	case "close":
		ev := cc.event()
		ev.name = "builtin.close"
		return cc.ret(ev)
	case "recover":
		cc.st.recov = true
		r := T.fresh("ret", "recover", types.NewInterfaceType(nil, nil))
		return cc.ret(nil, r)
	case "ssa:wrapnilchk":
		return cc.ret(nil, a[0])
	case "print", "println":
		return cc.ret(nil)
	case "min", "max":
		t := T.fresh("ret", name, cc.sig.Results().At(0).Type())
		return cc.ret(nil, t)
	}
	ev := cc.event()
	ev.name = "builtin." + name
	return cc.ret(ev, cc.opaqueRes(ev)...)
}

func (x *X) isEmptyFresh(s *Term) bool {
	if s.op == "mkslice" {
		n, ok := s.args[0].IntVal()
		return ok && n == 0
	}
	if s.op == "slice" && s.args[0].op == "alloc" {
		if a, ok := derefType(s.args[0].typ).Underlying().(*types.Array); ok {
			if a.Len() == 0 {
				return true
			}
			if h, ok := s.args[2].IntVal(); ok && h == 0 && s.args[1].IsNil() {
				return true
			}
		}
	}
	return false
}

// mayRun: an external call may run the closure: what it assigns is unknown
// from here on.
func (x *X) mayRun(st *State, cl *Term, seen map[*Term]bool) {
	w := x.closureWrites(cl.fn)
	for i, b := range cl.args {
		if w[i] {
			x.havocObj(st.wmem(), b, seen)
		}
	}
	for _, p := range closureStores(cl.fn) {
		if p.fv >= len(cl.args) || w[p.fv] {
			continue
		}
		a := cl.args[p.fv]
		for _, s := range p.steps {
			if s == nil { // through a pointer
				t := derefType(a.typ)
				if a = x.loadMem(st.mem, a, t); !isPtr(t) {
					a = nil
					break
				}
				continue
			}
			a = x.T.FieldAddr(a, derefType(s.X.Type()), s.Field)
		}
		if a != nil {
			t := derefType(a.typ)
			x.storeMem(st.wmem(), a, x.T.fresh("sym", "assigned", t), t)
		}
	}
}

type storePath struct {
	fv    int
	steps []*ssa.FieldAddr // nil: a load
}

// closureStores: the fields the closure assigns through captured pointers.
func closureStores(fn *ssa.Function) []storePath {
	var out []storePath
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			in, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			var steps []*ssa.FieldAddr
			loads := 0
			v := in.Addr
			for v != nil {
				switch u := v.(type) {
				case *ssa.FieldAddr:
					steps = append([]*ssa.FieldAddr{u}, steps...)
					v = u.X
					continue
				case *ssa.UnOp:
					if u.Op == token.MUL {
						steps = append([]*ssa.FieldAddr{nil}, steps...)
						loads++
						v = u.X
						continue
					}
				case *ssa.FreeVar:
					for i, fv := range fn.FreeVars {
						if fv == u && loads > 0 {
							out = append(out, storePath{i, steps})
						}
					}
				}
				v = nil
			}
		}
	}
	return out
}

// closuresIn collects the closures of the repository that assign variables of
// theirs and are within reach of v: in the fields of the objects made by it,
// or handed over when it was made.
func (x *X) closuresIn(m *Mem, v *Term, seen map[*Term]bool, out []*Term) []*Term {
	v = stripIface(v)
	if v == nil || seen[v] {
		return out
	}
	seen[v] = true
	switch {
	case v.op == "closure":
		if v.fn != nil && v.fn.Synthetic == "" && (len(x.closureWrites(v.fn)) > 0 || len(closureStores(v.fn)) > 0) {
			out = append(out, v)
		}
	case v.op == "slice":
		return x.closuresIn(m, v.args[0], seen, out)
	case len(x.carried[v]) > 0:
		return append(out, x.carried[v]...)
	case isFreshObj(v) && v.typ != nil && isPtr(v.typ):
		n, ok := derefType(v.typ).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return out
		}
		for _, c := range x.cellContents(m, v) {
			out = x.closuresIn(m, c, seen, out)
		}
	}
	return out
}

func (x *X) closureWrites(fn *ssa.Function) map[int]bool {
	out := map[int]bool{}
	idx := map[ssa.Value]int{}
	for i, fv := range fn.FreeVars {
		idx[fv] = i
	}
	var base func(v ssa.Value) (int, bool)
	base = func(v ssa.Value) (int, bool) {
		switch u := v.(type) {
		case *ssa.FreeVar:
			i, ok := idx[u]
			return i, ok
		case *ssa.FieldAddr:
			return base(u.X)
		case *ssa.IndexAddr:
			return base(u.X)
		}
		return 0, false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch in := ins.(type) {
			case *ssa.Store:
				if i, ok := base(in.Addr); ok {
					out[i] = true
				}
			case *ssa.MakeClosure:
				w := x.closureWrites(in.Fn.(*ssa.Function))
				for j, bv := range in.Bindings {
					if i, ok := base(bv); ok && w[j] {
						out[i] = true
					}
				}
			case ssa.CallInstruction:
				for k, a := range in.Common().Args {
					if f := in.Common().StaticCallee(); f != nil && k == 0 && strings.Contains(f.String(), "jsonpb.Marshaler).Marshal") {
						continue // the marshaler's settings are only read
					}
					if i, ok := base(a); ok {
						out[i] = true
					}
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- roots

func (x *X) Root(fn *ssa.Function, st *State, args []*Term, bind []*Term) []*Outcome {
	if st == nil {
		st = x.newState()
	}
	if fn == nil {
		x.giveUp("anchor function not found")
	}
	if args == nil {
		args = x.params(fn)
	}
	fr := &frame{fn: fn, id: -1, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	x.nframe++
	nf := &frame{fn: fn, id: x.nframe, depth: 1, loops: x.loopsOf(fn), free: map[*ssa.FreeVar]*Term{}, stack: []*ssa.Function{fn}}
	_ = fr
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			nf.free[fv] = bind[i]
		}
	}
	env := Env{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	if len(fn.Blocks) == 0 {
		x.giveUp("function %s has no body", fn)
	}
	st = st.clone()
	st.defers = nil
	nEndless := len(x.endless)
	rs := x.run(nf, fn.Blocks[0], nil, env, st, nil)
	var outs []*Outcome
	for _, r := range rs {
		outs = append(outs, x.outcome(r))
	}
	// paths that never return: what leads to the endless loop
	for _, e := range x.endless[nEndless:] {
		if !e.inGo {
			outs = append(outs, e.outcome())
		}
	}
	x.nPaths += len(outs)
	if len(outs) > 60000 {
		x.giveUp("path bound exceeded in %s", fn)
	}
	return outs
}

func (x *X) params(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, x.param(fn, i, p))
	}
	return args
}

func (x *X) param(fn *ssa.Function, i int, p *ssa.Parameter) *Term {
	return x.T.mk("param", fmt.Sprintf("%s", p.Name()), p.Type(), x.T.Str(fn.String()), x.T.Int(int64(i)))
}

// CallTerm applies a function value to arguments from state st.
func (x *X) CallTerm(fv *Term, args []*Term, st *State) []*Outcome {
	fv = stripIface(fv)
	switch fv.op {
	case "func":
		return x.Root(fv.fn, st, args, nil)
	case "closure":
		return x.Root(fv.fn, st, args, fv.args)
	}
	x.giveUp("not a known function value: %s", fv)
	return nil
}

// CallMethod applies a method of a (possibly interface-wrapped) value.
func (x *X) CallMethod(v *Term, name string, args []*Term, st *State) []*Outcome {
	var t types.Type
	if v.op == "mkiface" {
		t = v.typ
		v = v.args[0]
	} else {
		t = v.typ
	}
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			m := x.prog.MethodValue(ms.At(i))
			if m != nil {
				if _, fn := t.Underlying().(*types.Signature); fn && len(m.Blocks) == 0 {
					// adapters such as EncoderFunc.Encode call the function itself
					for v.op == "conv" {
						v = v.args[0]
					}
					return x.CallTerm(v, args, st)
				}
				return x.Root(m, st, append([]*Term{v}, args...), nil)
			}
		}
	}
	x.giveUp("no method %s on %s", name, shortT(t))
	return nil
}

// Fn finds a package function or method: "pkg/client.NewClient",
// "(*pkg/client.Client).Read".
func (x *X) Fn(pkg, recv, name string) *ssa.Function {
	p := x.pkgs[modPath+"/"+pkg]
	if p == nil {
		x.giveUp("package %s not found", pkg)
	}
	if recv == "" {
		f := p.Func(name)
		if f == nil {
			x.giveUp("function %s.%s not found", pkg, name)
		}
		return f
	}
	tn, ok := p.Members[strings.TrimPrefix(recv, "*")].(*ssa.Type)
	if !ok {
		x.giveUp("type %s.%s not found", pkg, recv)
	}
	var t types.Type = tn.Type()
	if strings.HasPrefix(recv, "*") {
		t = types.NewPointer(t)
	}
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := x.prog.MethodValue(ms.At(i))
			if f != nil {
				return f
			}
		}
	}
	x.giveUp("method (%s.%s).%s not found", pkg, recv, name)
	return nil
}

func (x *X) NamedType(path, name string) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == path {
			o := p.Pkg.Scope().Lookup(name)
			if o != nil {
				return o.Type()
			}
		}
	}
	x.giveUp("type %s.%s not found", path, name)
	return nil
}

// FieldNamed is the address of field name of the struct (type t) at base.
func (x *X) FieldNamed(base *Term, t types.Type, name string) *Term {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.T.FieldAddr(base, t, i)
		}
	}
	x.giveUp("field %s of %s not found", name, shortT(t))
	return nil
}

// LoadField reads field name of the object at base (pointer) in mem.
func (x *X) LoadField(m *Mem, base *Term, t types.Type, name string) *Term {
	fa := x.FieldNamed(base, t, name)
	return x.loadMem(m, fa, derefType(fa.typ))
}

// isWrapper: a synthetic function that only forwards to a method.
func isWrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "wrapper for") || strings.HasPrefix(fn.Synthetic, "thunk for")
}

// foldPure evaluates text functions of constants.
func (x *X) foldPure(name string, args []*Term) *Term {
	if !strings.HasPrefix(name, "strings.") || len(args) == 0 || len(args) > 2 {
		return nil
	}
	var s [2]string
	for i, a := range args {
		v, ok := a.StrVal()
		if !ok {
			return nil
		}
		s[i] = v
	}
	if len(args) == 1 {
		switch name {
		case "strings.ToLower":
			return x.T.Str(strings.ToLower(s[0]))
		case "strings.ToUpper":
			return x.T.Str(strings.ToUpper(s[0]))
		case "strings.TrimSpace":
			return x.T.Str(strings.TrimSpace(s[0]))
		}
		return nil
	}
	switch name {
	case "strings.Index":
		return x.T.Int(int64(strings.Index(s[0], s[1])))
	case "strings.LastIndex":
		return x.T.Int(int64(strings.LastIndex(s[0], s[1])))
	case "strings.Count":
		return x.T.Int(int64(strings.Count(s[0], s[1])))
	case "strings.Contains":
		return x.T.Bool(strings.Contains(s[0], s[1]))
	case "strings.HasPrefix":
		return x.T.Bool(strings.HasPrefix(s[0], s[1]))
	case "strings.HasSuffix":
		return x.T.Bool(strings.HasSuffix(s[0], s[1]))
	case "strings.EqualFold":
		return x.T.Bool(strings.EqualFold(s[0], s[1]))
	case "strings.TrimPrefix":
		return x.T.Str(strings.TrimPrefix(s[0], s[1]))
	case "strings.TrimSuffix":
		return x.T.Str(strings.TrimSuffix(s[0], s[1]))
	}
	return nil
}
