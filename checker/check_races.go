package main

// C50: state that goroutines or requests share is accessed under a common
// lock, atomically, or not written any more once they run. A lockset analysis
// over the SSA form of the whole program: entry points that run at the same
// time, what each can reach, which values they share, and the locks held on
// every way to each access.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C50", "Shared state is never accessed by two goroutines or requests unsynchronised",
		"races: entry points that run at the same time (every go statement, HTTP handler, round tripper, served gRPC method, method of the client library, and the methods left to a component's owner once it is started) are found, with what each reaches through calls, closures, stored functions and interfaces. Every access to a field, element, package variable or captured variable of something more than one of them holds is recorded with the locks held on every way to it. Two accesses of which one writes, by entry points that can overlap (an entry point many requests use overlaps itself, a goroutine overlaps what its starter does next), hold a common lock, one of them exclusively, or are both atomic.",
		checkC50)
}

type rlabel interface{} // string: shared through that place; *ssa.Function; afterGo

type afterGo int

// ctype: the type of a value that was put into an interface
type ctype struct{ t string }

type rset map[rlabel]bool

type raccess struct {
	loc           string
	write, atomic bool
	elem          bool // an element of a slice
	in            ssa.Instruction
	fn            *ssa.Function
	cell          *ssa.Alloc
	after         rset // only shared with what these go statements started
	locks         map[string]int
}

type rroot struct {
	name  string
	fns   []*ssa.Function
	multi bool
	goAt  *ssa.Go
	id    int
}

type races struct {
	c      *C
	x      *X
	fns    []*ssa.Function
	known  map[*ssa.Function]bool
	vals   map[ssa.Value]rset
	cells  map[ssa.Value]rset
	flds   map[string]rset
	rets   map[*ssa.Function]map[int]rset
	impls  map[string][]*ssa.Function
	binds  map[ssa.Value]ssa.Value
	bound  map[*ssa.Function]*ssa.Function
	roots  []*rroot
	rootFn map[*ssa.Function]*rroot
	gos    []*ssa.Go
	change bool
	acc    []*raccess
	edges  map[*ssa.Function]map[*ssa.Function]bool
	sites  map[ssa.Instruction][]*ssa.Function
	held   map[ssa.Instruction]map[string]int
	entry  map[*ssa.Function]map[string]int
	gen    map[*ssa.Function]map[string]int
	kill   map[*ssa.Function]map[string]bool
	live   map[*ssa.Function]bool
	global map[string]ssa.Value // the package variable a label names
	types  map[string]map[string]bool
	calls  map[*ssa.Function][]ssa.Instruction
	gone   map[*ssa.Go]*rentry
	found  map[string]bool // fields of shared objects that hold functions
	many   map[string]bool // types requests make objects of
}

func (r *races) add(m map[ssa.Value]rset, v ssa.Value, ls rset) {
	if len(ls) == 0 {
		return
	}
	if m[v] == nil {
		m[v] = rset{}
	}
	for k := range ls {
		if !m[v][k] {
			m[v][k] = true
			r.change = true
		}
	}
}

// refers: can a value of the type lead to state others hold?
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Chan:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refers(u.Elem())
	case *types.Tuple:
		return true
	}
	return !selfSync(t)
}

// only keeps functions when the value cannot lead to shared state.
func (r *races) fit(v ssa.Value, ls rset) rset {
	if refers(v.Type()) {
		return ls
	}
	return nil
}

func (r *races) get(v ssa.Value) rset {
	switch v := v.(type) {
	case *ssa.Function:
		return rset{v: true}
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return nil
	}
	return r.vals[v]
}

// cellOf: the variable an address is, seen from a closure too.
func (r *races) cellOf(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		w, ok := r.binds[v]
		if !ok {
			break
		}
		v = w
	}
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global:
		return v
	}
	return nil
}

// crosses: is a function lexically inside p run by another entry point than p?
func (r *races) crosses(f, p *ssa.Function) *rroot {
	for g := f; g != nil && g != p; g = g.Parent() {
		if r.kept(g) {
			return &rroot{}
		}
		if rt := r.rootFn[g]; rt != nil {
			return rt
		}
	}
	return nil
}

// kept: a closure stored where other calls find it.
func (r *races) kept(g *ssa.Function) bool {
	for k := range r.found {
		if r.flds[k][g] {
			return true
		}
	}
	return false
}

func (r *races) captured(a *ssa.Alloc) bool {
	for _, k := range *a.Referrers() {
		if _, ok := k.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

func fieldLoc(ty types.Type, i int) string {
	return strings.TrimPrefix(fieldKey(ty, i), modPath+"/")
}

// load: what a value read from an address may be.
func (r *races) load(a ssa.Value, in *ssa.Function) rset {
	out := rset{}
	put := func(ls rset) {
		for k := range ls {
			out[k] = true
		}
	}
	switch a := a.(type) {
	case *ssa.FieldAddr:
		loc := fieldLoc(a.X.Type(), a.Field)
		put(r.flds[loc])
		if sh := r.shared(a.X); len(sh) > 0 {
			for k := range sh {
				if _, ok := k.(afterGo); ok {
					out[k] = true
				} else {
					out[loc] = true
					if !r.found[loc] && len(onlyFns(r.flds[loc])) > 0 {
						r.found[loc], r.change = true, true
					}
				}
			}
		}
	case *ssa.IndexAddr:
		put(r.get(a.X))
		if c := r.cellOf(a.X); c != nil {
			put(r.cells[c])
		}
	default:
		if c := r.cellOf(a); c != nil {
			put(r.cells[c])
			switch c := c.(type) {
			case *ssa.Global:
				if inRepoPkg(c.Pkg) {
					out["package variable "+c.Name()] = true
					r.global["package variable "+c.Name()] = c
				}
			case *ssa.Alloc:
				if rt := r.crosses(in, c.Parent()); rt != nil {
					if len(rt.fns) == 0 {
						out["kept "+c.Comment] = true
					} else {
						out["captured "+c.Comment] = true
					}
				}
				for i, g := range r.gos {
					if g.Parent() == in && r.goTakes(g, c) {
						out[afterGo(i)] = true
					}
				}
			}
		} else {
			put(r.get(a))
		}
	}
	return out
}

// goTakes: does a go statement start a closure that captures a variable?
func (r *races) goTakes(g *ssa.Go, a *ssa.Alloc) bool {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for _, b := range mc.Bindings {
		if b == a {
			return true
		}
	}
	return false
}

func inRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// shared: the labels by which what a pointer points to is shared.
func (r *races) shared(v ssa.Value) rset {
	out := rset{}
	take := func(ls rset) {
		for k := range ls {
			switch k.(type) {
			case *ssa.Function, ctype:
			default:
				out[k] = true
			}
		}
	}
	switch v := v.(type) {
	case *ssa.FieldAddr: // a struct inside a struct
		return r.shared(v.X)
	case *ssa.IndexAddr:
		take(r.get(v.X))
		if c := r.cellOf(v.X); c != nil {
			take(r.sharedCell(c, v.Parent()))
		}
		return out
	}
	if c := r.cellOf(v); c != nil {
		take(r.sharedCell(c, parentOf(v)))
		return out
	}
	take(r.get(v))
	return out
}

func parentOf(v ssa.Value) *ssa.Function {
	return v.Parent()
}

func (r *races) sharedCell(c ssa.Value, in *ssa.Function) rset {
	switch c := c.(type) {
	case *ssa.Global:
		if inRepoPkg(c.Pkg) {
			return rset{"package variable " + c.Name(): true}
		}
	case *ssa.Alloc:
		if in != nil && r.crosses(in, c.Parent()) != nil {
			return rset{"captured " + c.Comment: true}
		}
		out := rset{}
		for i, g := range r.gos {
			if g.Parent() == in && r.goTakes(g, c) {
				out[afterGo(i)] = true
			}
		}
		if len(out) == 0 { // the address itself was handed on
			return r.vals[c]
		}
		return out
	}
	return nil
}

func (r *races) store(a ssa.Value, ls rset) {
	if len(ls) == 0 {
		return
	}
	switch a := a.(type) {
	case *ssa.FieldAddr:
		k := fieldLoc(a.X.Type(), a.Field)
		if r.flds[k] == nil {
			r.flds[k] = rset{}
		}
		for l := range ls {
			if keeps(l) && !r.flds[k][l] {
				r.flds[k][l] = true
				r.change = true
			}
		}
	case *ssa.IndexAddr:
		if c := r.cellOf(a.X); c != nil {
			r.add(r.cells, c, ls)
		} else {
			r.add(r.vals, a.X, ls)
		}
	default:
		if c := r.cellOf(a); c != nil {
			r.add(r.cells, c, ls)
		}
	}
}

// keeps: does an object another one is put into share it the same way? What a
// closure captured is shared by the calls of that closure only.
func keeps(l rlabel) bool {
	switch l := l.(type) {
	case afterGo:
		return false
	case string:
		return !strings.HasPrefix(l, "captured ")
	}
	return true
}

// mayHold: can the interface kept in a place be of the type a method is of?
func (r *races) mayHold(l rlabel, g *ssa.Function) bool {
	s, ok := l.(string)
	if !ok {
		return true
	}
	ts := r.types[s]
	return len(ts) == 0 || ts[typeKey(g.Signature.Recv().Type())]
}

func (r *races) callees(com *ssa.CallCommon) []*ssa.Function {
	if com.IsInvoke() {
		var out []*ssa.Function
		it, _ := com.Value.Type().Underlying().(*types.Interface)
		for _, f := range r.impls[com.Method.Name()] {
			if it != nil && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	for k := range r.get(com.Value) {
		if f, ok := k.(*ssa.Function); ok {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// target: the function of the program a callee is, nil if there is none.
func (r *races) target(f *ssa.Function) (*ssa.Function, bool) {
	if m := r.bound[f]; m != nil {
		return m, true
	}
	if r.known[f] {
		return f, false
	}
	return nil, false
}

func (r *races) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				r.store(in.Addr, r.get(in.Val))
			case *ssa.MapUpdate:
				if fs := onlyFns(r.get(in.Value)); len(fs) > 0 {
					r.add(r.vals, in.Map, fs)
				}
			case *ssa.Return:
				for i, v := range in.Results {
					if ls := r.fit(v, r.get(v)); len(ls) > 0 {
						if r.rets[f] == nil {
							r.rets[f] = map[int]rset{}
						}
						if r.rets[f][i] == nil {
							r.rets[f][i] = rset{}
						}
						for k := range ls {
							if !r.rets[f][i][k] {
								r.rets[f][i][k] = true
								r.change = true
							}
						}
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					r.add(r.vals, in, r.fit(in, r.load(in.X, f)))
				}
			case *ssa.FieldAddr:
			case *ssa.Field:
				ls := rset{}
				for k := range r.get(in.X) {
					ls[k] = true
				}
				for k := range r.flds[fieldLoc(in.X.Type(), in.Field)] {
					ls[k] = true
				}
				r.add(r.vals, in, r.fit(in, ls))
			case *ssa.Index:
				r.add(r.vals, in, r.fit(in, r.get(in.X)))
			case *ssa.Lookup:
				r.add(r.vals, in, r.fit(in, r.get(in.X)))
			case *ssa.Extract:
				if call, ok := in.Tuple.(*ssa.Call); ok {
					for _, g := range r.sites[call] {
						if h, _ := r.target(g); h != nil {
							r.add(r.vals, in, r.fit(in, r.rets[h][in.Index]))
						}
					}
					if r.external(call.Common()) {
						r.add(r.vals, in, r.fit(in, r.get(call)))
					}
				} else {
					r.add(r.vals, in, r.fit(in, r.get(in.Tuple)))
				}
			case *ssa.Next:
				r.add(r.vals, in, r.get(in.Iter))
			case *ssa.Range:
				r.add(r.vals, in, r.get(in.X))
			case *ssa.Phi:
				for _, e := range in.Edges {
					r.add(r.vals, in, r.get(e))
				}
			case *ssa.ChangeType:
				r.add(r.vals, in, r.get(in.X))
			case *ssa.Convert:
				r.add(r.vals, in, r.fit(in, r.get(in.X)))
			case *ssa.ChangeInterface:
				r.add(r.vals, in, r.get(in.X))
			case *ssa.MakeInterface:
				r.add(r.vals, in, r.fit(in.X, r.get(in.X)))
				r.add(r.vals, in, rset{ctype{typeKey(in.X.Type())}: true})
				if c := r.cellOf(in.X); c != nil {
					r.add(r.vals, in, r.sharedCell(c, f))
				}
			case *ssa.TypeAssert:
				r.add(r.vals, in, r.fit(in, r.get(in.X)))
			case *ssa.Slice:
				r.add(r.vals, in, r.get(in.X))
				if c := r.cellOf(in.X); c != nil {
					r.add(r.vals, in, r.cells[c])
				}
			case *ssa.MakeClosure:
				r.add(r.vals, in, rset{in.Fn.(*ssa.Function): true})
				if m := r.bound[in.Fn.(*ssa.Function)]; m != nil && len(in.Bindings) > 0 && len(m.Params) > 0 {
					r.add(r.vals, m.Params[0], r.get(in.Bindings[0]))
				}
			case *ssa.Call:
				r.call(in, in.Common(), in)
			case *ssa.Defer:
				r.call(in, in.Common(), nil)
			case *ssa.Go:
				r.call(in, in.Common(), nil)
			}
		}
	}
}

func onlyFns(ls rset) rset {
	out := rset{}
	for k := range ls {
		if _, ok := k.(*ssa.Function); ok {
			out[k] = true
		}
	}
	return out
}

// external: no function of the program is called.
func (r *races) external(com *ssa.CallCommon) bool {
	for _, f := range r.callees(com) {
		if g, _ := r.target(f); g != nil {
			return false
		}
	}
	return true
}

func (r *races) call(in ssa.Instruction, com *ssa.CallCommon, v *ssa.Call) {
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if v != nil && (b.Name() == "append" || b.Name() == "min" || b.Name() == "max") {
			for _, a := range com.Args {
				r.add(r.vals, v, r.fit(v, r.get(a)))
			}
		}
		return
	}
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	_, isGo := in.(*ssa.Go)
	fs := r.callees(com)
	var in2 []*ssa.Function
	ext := true
	for _, f := range fs {
		g, bound := r.target(f)
		if g == nil {
			continue
		}
		ext = false
		in2 = append(in2, f)
		ps := g.Params
		if bound {
			ps = ps[1:]
		}
		for i, p := range ps {
			if i >= len(args) {
				break
			}
			ls := r.get(args[i])
			if com.IsInvoke() && i == 0 {
				// only the places that hold a value of the method's type
				rs := rset{}
				for k := range ls {
					if _, ok := k.(ctype); !ok && r.mayHold(k, g) {
						rs[k] = true
					}
				}
				r.add(r.vals, p, r.fit(p, rs))
				continue
			}
			if c := r.cellOf(args[i]); c != nil {
				ls = r.sharedCell(c, in.Parent())
			} else if sh := r.shared(args[i]); len(sh) > 0 {
				u := rset{}
				for k := range ls {
					u[k] = true
				}
				for k := range sh {
					u[k] = true
				}
				ls = u
			}
			if isGo {
				ls2 := rset{}
				for k := range ls {
					if _, ok := k.(afterGo); !ok {
						ls2[k] = true
					}
				}
				ls = ls2
				if mayPoint(p.Type()) {
					ls["what "+shortFn(g)+" is started with"] = true
				}
			}
			r.add(r.vals, p, r.fit(p, ls))
		}
		if v != nil {
			if v.Type() != nil && !isTuple(v.Type()) {
				r.add(r.vals, v, r.fit(v, r.rets[g][0]))
			}
		}
	}
	if ext {
		// functions handed to the outside are called there
		for _, a := range args {
			for k := range r.get(a) {
				f, ok := k.(*ssa.Function)
				if !ok {
					continue
				}
				if g, _ := r.target(f); g != nil && r.rootFn[g] == nil {
					in2 = append(in2, f)
				}
			}
		}
		if f := com.StaticCallee(); v != nil && f != nil && len(args) > 0 && strings.HasPrefix(fnName(f), "sync/atomic.") {
			r.add(r.vals, v, r.fit(v, r.load(args[0], in.Parent())))
		}
		if v != nil && len(args) > 0 && refers(v.Type()) {
			// what a shared object hands out is shared too
			if com.IsInvoke() || (com.StaticCallee() != nil && com.StaticCallee().Signature.Recv() != nil) {
				ls := rset{}
				for k := range r.shared(args[0]) {
					ls[k] = true
				}
				if !handsOutFresh(in, com) {
					r.add(r.vals, v, ls)
				}
			}
		}
	}
	r.sites[in] = in2
}

// handsOutFresh: results of library calls that belong to the caller.
func handsOutFresh(in ssa.Instruction, com *ssa.CallCommon) bool {
	name := ""
	var rt types.Type
	if com.IsInvoke() {
		name, rt = com.Method.Name(), com.Value.Type()
	} else {
		name, rt = com.StaticCallee().Name(), com.StaticCallee().Signature.Recv().Type()
	}
	k := typeKey(derefType(rt))
	switch {
	case strings.HasPrefix(k, "sync.") && (name == "Load" || name == "LoadOrStore" || name == "LoadAndDelete"):
		return false
	case strings.HasPrefix(k, "sync/atomic."):
		return false
	case strings.Contains(k, "emirpasic"), strings.HasPrefix(k, "container/"):
		return false
	}
	return true
}

func isTuple(t types.Type) bool { _, ok := t.(*types.Tuple); return ok }

// mayPoint: a value through which its holder can reach what others hold.
func mayPoint(t types.Type) bool {
	if selfSync(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

func (r *races) newRoot(name string, f *ssa.Function, multi bool, g *ssa.Go) *rroot {
	for _, rt := range r.roots {
		if rt.name == name && rt.goAt == g {
			for _, h := range rt.fns {
				if h == f {
					return rt
				}
			}
			rt.fns = append(rt.fns, f)
			r.rootFn[f] = rt
			r.change = true
			return rt
		}
	}
	rt := &rroot{name: name, fns: []*ssa.Function{f}, multi: multi, goAt: g, id: len(r.roots)}
	r.roots = append(r.roots, rt)
	if r.rootFn[f] == nil || multi {
		r.rootFn[f] = rt
	}
	r.change = true
	if multi && len(f.Params) > 0 && f.Signature.Recv() != nil {
		r.add(r.vals, f.Params[0], rset{"the receiver of " + shortFn(f): true})
	}
	return rt
}

func isHTTPType(t types.Type) bool {
	switch typeKey(t) {
	case "net/http.ResponseWriter", "*net/http.Request", "*net/http.Response":
		return true
	}
	return false
}

func httpSig(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if isHTTPType(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// reachable instructions after one, up to where the starter waits.
func afterInstr(g ssa.Instruction) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if joins(in) {
				return
			}
			out[in] = true
		}
		for _, s := range b.Succs {
			if !seen[s] && !joinsAt(b, s) {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range g.Block().Instrs {
		if in == g {
			walk(g.Block(), i+1)
		}
	}
	return out
}

// followsFor: is an access to a variable reached after a go statement before
// the variable is made anew?
func followsFor(g *ssa.Go, a *raccess) bool {
	seen := map[*ssa.BasicBlock]bool{}
	found := false
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == a.in {
				found = true
			}
			if in == ssa.Instruction(a.cell) || joins(in) || found {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && !joinsAt(b, s) {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, in := range g.Block().Instrs {
		if in == g {
			walk(g.Block(), i+1)
		}
	}
	return found
}

// tells: can a value on a channel come from what was started? A clock or a
// signal says nothing about it.
func tells(v ssa.Value) bool {
	ch, _ := v.Type().Underlying().(*types.Chan)
	if ch == nil {
		return true
	}
	switch typeKey(ch.Elem()) {
	case "time.Time", "os.Signal":
		return false
	}
	return true
}

// joinsAt: is a block entered only once a select has heard from what was
// started?
func joinsAt(b, to *ssa.BasicBlock) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] != to || b.Succs[1] == to {
		return false
	}
	eq, ok := br.Cond.(*ssa.BinOp)
	if !ok || eq.Op != token.EQL {
		return false
	}
	ex, ok := eq.X.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	sel, ok := ex.Tuple.(*ssa.Select)
	n, isC := eq.Y.(*ssa.Const)
	if !ok || !isC || n.Value == nil {
		return false
	}
	i := int(n.Int64())
	if i < 0 || i >= len(sel.States) || sel.States[i].Dir != types.RecvOnly || !tells(sel.States[i].Chan) {
		return false
	}
	if c, ok := sel.States[i].Chan.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Done" {
		return false // a context ends for other reasons
	}
	return true
}

// joins: the starter waits for what it started.
func joins(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		return in.Op == token.ARROW && tells(in.X)
	case *ssa.Call:
		if f := in.Call.StaticCallee(); f != nil && f.Name() == "Wait" && f.Signature.Recv() != nil {
			return true
		}
	}
	return false
}

func inCycle(in ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == in.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(in.Block())
}

// lockKey names a lock, "" for one nobody else can hold.
func (r *races) lockKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		root := v.X
		for {
			if fa, ok := root.(*ssa.FieldAddr); ok {
				root = fa.X
				continue
			}
			break
		}
		if a, ok := root.(*ssa.Alloc); ok && len(r.vals[a]) == 0 && !r.captured(a) {
			return ""
		}
		return fieldLoc(v.X.Type(), v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return r.lockKey(v.X)
		}
	case *ssa.MakeInterface:
		return r.lockKey(v.X)
	}
	if c := r.cellOf(v); c != nil {
		switch c := c.(type) {
		case *ssa.Global:
			return "package variable " + c.Name()
		case *ssa.Alloc:
			if r.captured(c) {
				return "captured " + c.Comment + fmt.Sprint(c.Pos())
			}
		}
		return ""
	}
	ls := []string{}
	for k := range r.get(v) {
		if s, ok := k.(string); ok {
			ls = append(ls, s)
		}
	}
	sort.Strings(ls)
	if len(ls) > 0 {
		return strings.Join(ls, "|")
	}
	return ""
}

func lockOp(com *ssa.CallCommon) (string, ssa.Value) {
	if com.IsInvoke() {
		if typeKey(com.Value.Type()) == "sync.Locker" {
			return com.Method.Name(), com.Value
		}
		return "", nil
	}
	f := com.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || len(com.Args) == 0 {
		return "", nil
	}
	switch fnName(f) {
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return f.Name(), com.Args[0]
	case "(*sync.Once).Do":
		return "Do", com.Args[0]
	}
	return "", nil
}

func copyLocks(m map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// meet keeps what both hold; nil is "not reached yet".
func meetLocks(a, b map[string]int) map[string]int {
	if a == nil {
		return copyLocks(b)
	}
	o := map[string]int{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			o[k] = v
		}
	}
	return o
}

func eqLocks(a, b map[string]int) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// locks runs the must-hold dataflow of one function.
func (r *races) locks(f *ssa.Function, entry map[string]int, record bool) (exit map[string]int, killed map[string]bool) {
	ins := map[*ssa.BasicBlock]map[string]int{f.Blocks[0]: copyLocks(entry)}
	killed = map[string]bool{}
	unlock := func(cur map[string]int, k string) {
		if cur[k] == 0 {
			killed[k] = true // the caller's
		}
		delete(cur, k)
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		ins[f.Recover] = map[string]int{}
		work = append(work, f.Recover)
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := copyLocks(ins[b])
		for _, in := range b.Instrs {
			if record {
				r.held[in] = meetLocks(r.held[in], cur)
				if _, ok := r.held[in]; !ok {
					r.held[in] = copyLocks(cur)
				}
			}
			ci, ok := in.(*ssa.Call)
			if !ok {
				if _, ok := in.(*ssa.Return); ok && b != f.Recover {
					exit = meetLocks(exit, cur)
				}
				continue
			}
			op, on := lockOp(ci.Common())
			switch op {
			case "Lock":
				if k := r.lockKey(on); k != "" {
					cur[k] = 2
				}
			case "RLock":
				if k := r.lockKey(on); k != "" && cur[k] < 1 {
					cur[k] = 1
				}
			case "Unlock", "RUnlock":
				if k := r.lockKey(on); k != "" {
					unlock(cur, k)
				}
			case "Do":
				if k := r.lockKey(on); k != "" {
					cur["done once "+k] = 1
				}
			default:
				var gen map[string]int
				for i, g := range r.sites[in] {
					h, _ := r.target(g)
					if h == nil {
						continue
					}
					for k := range r.kill[h] {
						unlock(cur, k)
					}
					if i == 0 {
						gen = copyLocks(r.gen[h])
					} else {
						gen = meetLocks(gen, r.gen[h])
					}
				}
				for k, v := range gen {
					if v > cur[k] {
						cur[k] = v
					}
				}
			}
		}
		for _, s := range b.Succs {
			old, seen := ins[s]
			if !seen {
				ins[s] = copyLocks(cur)
				work = append(work, s)
				continue
			}
			m := meetLocks(old, cur)
			if !eqLocks(m, old) {
				ins[s] = m
				work = append(work, s)
			}
		}
	}
	// deferred unlocks run before the caller goes on
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if op, on := lockOp(d.Common()); op == "Unlock" || op == "RUnlock" {
				unlock(exit, r.lockKey(on))
			}
			for _, g := range r.sites[in] {
				if h, _ := r.target(g); h != nil {
					for k := range r.kill[h] {
						unlock(exit, k)
					}
				}
			}
		}
	}
	return exit, killed
}

// unsafeLib: library types that do not synchronise themselves.
func unsafeLib(t types.Type) bool {
	k := typeKey(derefType(t))
	switch k {
	case "bytes.Buffer", "strings.Builder", "math/rand.Rand", "encoding/json.Encoder", "encoding/json.Decoder", "hash.Hash", "hash.Hash32", "hash.Hash64", "container/list.List", "container/ring.Ring", "encoding/csv.Reader", "encoding/csv.Writer", "text/tabwriter.Writer":
		return true
	}
	return strings.HasPrefix(k, "bufio.") || strings.Contains(k, "emirpasic/gods")
}

func libReads(name string) bool {
	for _, p := range []string{"Get", "Len", "Size", "Empty", "Left", "Right", "Floor", "Ceiling", "Iterator", "Keys", "Values", "String", "Bytes", "Front", "Back", "Cap", "Available", "Buffered", "Find", "Each"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (r *races) record(f *ssa.Function) {
	note := func(in ssa.Instruction, loc string, sh rset, cell *ssa.Alloc, write, atomic, elem bool) {
		a := &raccess{loc: loc, write: write, atomic: atomic, elem: elem, in: in, fn: f, cell: cell}
		plain := cell != nil && len(sh) == 0
		for k := range sh {
			if g, ok := k.(afterGo); ok {
				if a.after == nil {
					a.after = rset{}
				}
				a.after[g] = true
			} else {
				plain = true
			}
		}
		if plain {
			a.after = nil
		} else if a.after == nil {
			return
		}
		r.acc = append(r.acc, a)
	}
	at := func(in ssa.Instruction, addr ssa.Value, write, atomic bool) {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			ty := derefType(a.X.Type())
			if st := structOf(ty); st != nil && (selfSync(st.Field(a.Field).Type()) && !atomic) {
				return
			}
			if sh := r.shared(a.X); len(sh) > 0 {
				note(in, fieldLoc(a.X.Type(), a.Field), sh, nil, write, atomic, false)
			}
		case *ssa.IndexAddr:
			for _, l := range r.contents(a.X, f) {
				note(in, l.loc, l.sh, l.cell, write, atomic, true)
			}
		default:
			if c := r.cellOf(addr); c != nil {
				switch c := c.(type) {
				case *ssa.Global:
					if inRepoPkg(c.Pkg) && !selfSync(derefType(c.Type())) && !strings.HasPrefix(c.Name(), "init$") {
						note(in, "package variable "+strings.TrimPrefix(c.Pkg.Pkg.Path(), modPath+"/")+"."+c.Name(), rset{"g": true}, nil, write, atomic, false)
					}
				case *ssa.Alloc:
					if r.captured(c) && !selfSync(derefType(c.Type())) {
						note(in, fmt.Sprintf("variable %s of %s", c.Comment, shortFn(c.Parent())), nil, c, write, atomic, false)
					}
				}
				return
			}
			// a whole struct, or the target of a pointer
			sh := r.shared(addr)
			if len(sh) == 0 {
				return
			}
			if st := structOf(derefType(addr.Type())); st != nil && inRepoType(addr.Type()) {
				for i := 0; i < st.NumFields(); i++ {
					if !selfSync(st.Field(i).Type()) {
						note(in, fieldLoc(addr.Type(), i), sh, nil, write, atomic, false)
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.MUL {
					at(in, in.X, false, false)
				}
			case *ssa.Store:
				at(in, in.Addr, true, false)
			case *ssa.MapUpdate:
				for _, l := range r.contents(in.Map, f) {
					note(in, l.loc, l.sh, l.cell, true, false, false)
				}
			case *ssa.Lookup:
				for _, l := range r.contents(in.X, f) {
					note(in, l.loc, l.sh, l.cell, false, false, false)
				}
			case *ssa.Range:
				for _, l := range r.contents(in.X, f) {
					note(in, l.loc, l.sh, l.cell, false, false, false)
				}
			case ssa.CallInstruction:
				com := in.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						for _, l := range r.contents(com.Args[0], f) {
							note(in, l.loc, l.sh, l.cell, true, false, false)
						}
						if bi.Name() == "copy" {
							for _, l := range r.contents(com.Args[1], f) {
								note(in, l.loc, l.sh, l.cell, false, false, true)
							}
						}
					case "len", "append":
						for i, a := range com.Args {
							if _, isMap := a.Type().Underlying().(*types.Map); isMap || i == 1 {
								for _, l := range r.contents(a, f) {
									note(in, l.loc, l.sh, l.cell, false, false, true)
								}
							}
						}
					}
					continue
				}
				g := com.StaticCallee()
				if com.IsInvoke() {
					if unsafeLib(com.Value.Type()) {
						for _, l := range r.contents(com.Value, f) {
							note(in, l.loc, l.sh, l.cell, !libReads(com.Method.Name()), false, false)
						}
					}
					continue
				}
				if g == nil {
					continue
				}
				if r.known[g] || r.bound[g] != nil {
					continue
				}
				name := fnName(g)
				if strings.HasPrefix(name, "sync/atomic.") && len(com.Args) > 0 {
					at(in, com.Args[0], !strings.HasPrefix(name, "sync/atomic.Load"), true)
					continue
				}
				if g.Signature.Recv() != nil && len(com.Args) > 0 {
					if unsafeLib(g.Signature.Recv().Type()) {
						if fa, ok := com.Args[0].(*ssa.FieldAddr); ok {
							at(in, fa, !libReads(g.Name()), false)
						} else {
							for _, l := range r.contents(com.Args[0], f) {
								note(in, l.loc, l.sh, l.cell, !libReads(g.Name()), false, false)
							}
						}
					}
				}
				pkg := ""
				if g.Pkg != nil {
					pkg = g.Pkg.Pkg.Path()
				}
				if (pkg == "sort" || pkg == "slices" && strings.HasPrefix(g.Name(), "Sort")) && len(com.Args) > 0 && !strings.HasPrefix(g.Name(), "Search") && !strings.HasSuffix(g.Name(), "AreSorted") && !strings.HasSuffix(g.Name(), "IsSorted") {
					v := com.Args[0]
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					for _, l := range r.contents(v, f) {
						note(in, l.loc, l.sh, l.cell, true, false, false)
					}
				}
				for i, a := range com.Args {
					if g.Signature.Recv() != nil && i == 0 {
						continue
					}
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					switch a.(type) {
					case *ssa.FieldAddr:
						at(in, a, !strings.HasPrefix(name, "fmt."), false)
					}
				}
			}
		}
	}
}

type rcontent struct {
	loc  string
	sh   rset
	cell *ssa.Alloc
}

// contents: the places a map, slice or object may be held in.
func (r *races) contents(v ssa.Value, f *ssa.Function) []rcontent {
	var out []rcontent
	after := rset{}
	var locs []string
	for k := range r.shared(v) {
		switch k := k.(type) {
		case string:
			locs = append(locs, k)
		case afterGo:
			after[k] = true
		}
	}
	sort.Strings(locs)
	for _, l := range locs {
		out = append(out, rcontent{"what " + l + " holds", rset{l: true}, nil})
	}
	if len(locs) == 0 && len(after) > 0 {
		// known only as what a goroutine was started with
		for k := range after {
			g := r.gos[int(k.(afterGo))]
			for _, h := range r.sites[ssa.Instruction(g)] {
				if t, _ := r.target(h); t != nil {
					out = append(out, rcontent{"what what " + shortFn(t) + " is started with holds", rset{k: true}, nil})
				}
			}
		}
	}
	return out
}

// locType: the struct type a place belongs to.
func locType(l string) string {
	l = strings.TrimSuffix(strings.TrimPrefix(l, "what "), " holds")
	if strings.Contains(l, " ") {
		return ""
	}
	if i := strings.LastIndex(l, "."); i > 0 {
		return l[:i]
	}
	return ""
}

func (r *races) excludes(a, b *raccess) bool {
	for k, v := range a.locks {
		if t, u := locType(k), locType(a.loc); t != "" && t != u && r.many[t] && !r.many[u] {
			continue // each holder may hold another object's lock
		}
		if w, ok := b.locks[k]; ok && (v == 2 || w == 2) {
			return true
		}
	}
	return false
}

func checkC50(c *C) {
	const rule = "races"
	x := c.newX()
	r := &races{c: c, x: x, known: map[*ssa.Function]bool{}, vals: map[ssa.Value]rset{}, cells: map[ssa.Value]rset{}, flds: map[string]rset{}, rets: map[*ssa.Function]map[int]rset{},
		impls: map[string][]*ssa.Function{}, binds: map[ssa.Value]ssa.Value{}, bound: map[*ssa.Function]*ssa.Function{}, rootFn: map[*ssa.Function]*rroot{},
		edges: map[*ssa.Function]map[*ssa.Function]bool{}, sites: map[ssa.Instruction][]*ssa.Function{}, held: map[ssa.Instruction]map[string]int{}, entry: map[*ssa.Function]map[string]int{},
		gen: map[*ssa.Function]map[string]int{}, kill: map[*ssa.Function]map[string]bool{}, live: map[*ssa.Function]bool{}, gone: map[*ssa.Go]*rentry{}, many: map[string]bool{}, global: map[string]ssa.Value{}, found: map[string]bool{}}
	for _, f := range x.sortedFns() {
		if f.Blocks == nil || strings.Contains(fnName(f), modPath+"/internal/testing") || strings.Contains(fnName(f), modPath+"/internal/end2end") || strings.Contains(fnName(f), "/examples/") {
			continue
		}
		r.fns = append(r.fns, f)
		r.known[f] = true
		x.fnsSeen[f] = true
		if f.Signature.Recv() != nil && f.Parent() == nil {
			r.impls[f.Name()] = append(r.impls[f.Name()], f)
		}
	}
	r.setup()
	seeds := map[ssa.Value]rset{}
	for v, ls := range r.vals {
		seeds[v] = rset{}
		for k := range ls {
			seeds[v][k] = true
		}
	}
	if !r.settle() {
		return
	}
	// once more, knowing what types the shared places hold
	r.types = map[string]map[string]bool{}
	learn := func(l string, ls rset) {
		for k := range ls {
			if t, ok := k.(ctype); ok {
				if r.types[l] == nil {
					r.types[l] = map[string]bool{}
				}
				r.types[l][t.t] = true
			}
		}
	}
	for l, ls := range r.flds {
		learn(l, ls)
	}
	for l, g := range r.global {
		learn(l, r.cells[g])
	}
	r.vals, r.cells, r.flds, r.rets = seeds, map[ssa.Value]rset{}, map[string]rset{}, map[*ssa.Function]map[int]rset{}
	r.found, r.sites = map[string]bool{}, map[ssa.Instruction][]*ssa.Function{}
	if !r.settle() {
		return
	}
	r.solve(rule)
}

// settle follows shared state until nothing is new.
func (r *races) settle() bool {
	for i := 0; i < 80; i++ {
		r.change = false
		for _, f := range r.fns {
			r.flow(f)
		}
		if !r.change {
			return true
		}
	}
	r.x.giveUp("the flow of shared state does not settle")
	return false
}

// setup finds the entry points.
func (r *races) setup() {
	var takes []*ssa.Function
	for _, f := range r.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					r.gos = append(r.gos, g)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if m := boundTo(g); m != nil && r.known[m] {
						r.bound[g] = m
						takes = append(takes, m)
					} else {
						takes = append(takes, g)
						for i, fv := range g.FreeVars {
							if i < len(mc.Bindings) {
								r.binds[fv] = mc.Bindings[i]
							}
						}
					}
					continue
				}
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee && r.known[g] {
						takes = append(takes, g)
					}
				}
			}
		}
	}
	// handlers, and what serves requests
	for _, f := range takes {
		if httpSig(f.Signature) && r.known[f] {
			r.newRoot("requests to "+shortFn(f), f, true, nil)
		}
	}
	served := r.servedTypes()
	for _, f := range r.fns {
		rv := f.Signature.Recv()
		if rv == nil || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if f.Name() == "ServeHTTP" || f.Name() == "RoundTrip" {
			r.newRoot("requests to "+shortFn(f), f, true, nil)
		}
		if !token.IsExported(f.Name()) {
			continue
		}
		for _, it := range served {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == f.Name() && types.Implements(rv.Type(), it) {
					r.newRoot("calls of "+shortFn(f), f, true, nil)
				}
			}
		}
		if marshals(rv.Type()) || answers(f.Signature) {
			r.newRoot("calls of "+shortFn(f), f, true, nil)
		}
		switch typeKey(derefType(rv.Type())) {
		case modPath + "/pkg/client.Client", modPath + "/pkg/client.Oauth2HTTPClient":
			r.newRoot("calls of "+shortFn(f), f, true, nil)
		}
	}
	// functions the client library hands out
	for _, f := range r.fns {
		if f.Signature.Recv() != nil || f.Parent() != nil || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/pkg/client" || !token.IsExported(f.Name()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ret, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				for _, v := range ret.Results {
					if g := funcOf(v); g != nil && r.known[g] {
						r.newRoot("calls of what "+shortFn(f)+" returns", g, true, nil)
					}
				}
			}
		}
	}
	// what a component's owner may call once it is started
	started := map[string]bool{}
	for _, f := range r.fns {
		if rv := f.Signature.Recv(); rv != nil && f.Parent() == nil && strings.HasPrefix(f.Name(), "Start") {
			started[typeKey(derefType(rv.Type()))] = true
		}
	}
	for f := range r.rootFn {
		if rv := f.Signature.Recv(); rv != nil && f.Parent() == nil {
			started[typeKey(derefType(rv.Type()))] = true
		}
	}
	for _, f := range r.fns {
		rv := f.Signature.Recv()
		if rv == nil || f.Parent() != nil || f.Synthetic != "" || !token.IsExported(f.Name()) || r.rootFn[f] != nil || strings.HasPrefix(f.Name(), "Start") {
			continue
		}
		if k := typeKey(derefType(rv.Type())); started[k] {
			r.newRoot("the owner of a "+strings.TrimPrefix(k, modPath+"/"), f, false, nil)
			r.add(r.vals, f.Params[0], rset{"the receiver of " + shortFn(f): true})
		}
	}
	// goroutines: functions they start are found by the flow
	for _, g := range r.gos {
		for _, v := range []ssa.Value{g.Call.Value} {
			var f *ssa.Function
			switch v := v.(type) {
			case *ssa.Function:
				f = v
			case *ssa.MakeClosure:
				f = v.Fn.(*ssa.Function)
			}
			if f != nil {
				if h, _ := r.target(f); h != nil {
					r.newRoot(r.goName(g), h, inCycle(g), g)
				}
			}
		}
	}
	for i, g := range r.gos {
		// what the starter hands over, it shares from then on
		for _, a := range g.Call.Args {
			if mayPoint(a.Type()) {
				r.add(r.vals, a, rset{afterGo(i): true})
			}
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && r.bound[mc.Fn.(*ssa.Function)] != nil {
			r.add(r.vals, mc.Bindings[0], rset{afterGo(i): true})
		}
	}
	r.c.need(len(r.roots), 20, "races", "entry points")
}

func (r *races) goName(g *ssa.Go) string {
	return "the goroutine started at " + r.x.posStr(g.Pos())
}

// answers: a method that takes a request of the API.
func answers(sig *types.Signature) bool {
	if sig.Params().Len() < 2 || typeKey(sig.Params().At(0).Type()) != "context.Context" {
		return false
	}
	k := typeKey(derefType(sig.Params().At(1).Type()))
	return strings.HasPrefix(k, modPath+"/pkg/rpc/") && strings.HasSuffix(k, "Request")
}

func funcOf(v ssa.Value) *ssa.Function {
	for {
		switch w := v.(type) {
		case *ssa.ChangeType:
			v = w.X
		case *ssa.MakeInterface:
			v = w.X
		case *ssa.MakeClosure:
			return w.Fn.(*ssa.Function)
		case *ssa.Function:
			return w
		default:
			return nil
		}
	}
}

// marshals: a type the gateway encodes and decodes every request with.
func marshals(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Marshal", "Unmarshal", "NewDecoder", "NewEncoder", "ContentType"} {
		if ms.Lookup(nil, n) == nil {
			return false
		}
	}
	return true
}

// servedTypes: the interfaces through which requests come in from anywhere.
func (r *races) servedTypes() []*types.Interface {
	var out []*types.Interface
	p := r.x.pkgs[modPath+"/pkg/rpc/logcache_v1"]
	if p == nil {
		return nil
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := p.Members[n].(*ssa.Type)
		if !ok || !(strings.HasSuffix(n, "Server") || strings.HasSuffix(n, "Client")) {
			continue
		}
		if it, ok := t.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && token.IsExported(n) {
			out = append(out, it)
		}
	}
	return out
}

// reach: the functions an entry point runs itself.
func (r *races) reach(from []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				for _, g := range r.sites[in] {
					if h, _ := r.target(g); h != nil {
						visit(h)
					}
				}
			}
		}
	}
	for _, f := range from {
		visit(f)
	}
	return seen
}

type rentry struct {
	name    string
	multi   bool
	root    *rroot
	after   int // the go statement it follows, -1
	fns     map[*ssa.Function]bool
	instrs  map[ssa.Instruction]bool // of the starter, when after >= 0
	starter *ssa.Function
	later   map[ssa.Instruction]bool // what follows in the starter's callers too
	lfns    map[*ssa.Function]bool
	home    map[*ssa.Function]bool
}

func (r *races) solve(rule string) {
	c := r.c
	// goroutines of functions the flow found
	for _, g := range r.gos {
		for _, f := range r.sites[ssa.Instruction(g)] {
			if h, _ := r.target(f); h != nil {
				r.newRoot(r.goName(g), h, inCycle(g), g)
			}
		}
	}
	var ents []*rentry
	for _, rt := range r.roots {
		ents = append(ents, &rentry{name: rt.name, multi: rt.multi, root: rt, after: -1, fns: r.reach(rt.fns)})
	}
	// goroutines started by what runs many times run many times
	for again := true; again; {
		again = false
		for _, e := range ents {
			if e.root.goAt == nil || e.multi {
				continue
			}
			for _, o := range ents {
				if o.multi && o.fns[e.root.goAt.Parent()] {
					e.multi, again = true, true
				}
			}
		}
	}
	for i, g := range r.gos {
		e := &rentry{name: "what follows " + r.goName(g), after: i, starter: g.Parent(), instrs: afterInstr(g), later: r.afterStart(g)}
		e.fns, e.lfns = r.reach(r.called(e.instrs)), r.reach(r.called(e.later))
		r.gone[g] = e
		ents = append(ents, e)
	}
	for _, e := range ents {
		for f := range e.fns {
			r.live[f] = true
		}
		for in := range e.later {
			r.live[in.Parent()] = true
		}
		for f := range e.lfns {
			r.live[f] = true
		}
	}
	for _, e := range ents {
		if !e.multi {
			continue
		}
		for f := range e.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && a.Heap && structOf(derefType(a.Type())) != nil {
						r.many[strings.TrimPrefix(typeKey(derefType(a.Type())), modPath+"/")] = true
					}
				}
			}
		}
	}
	r.solveLocks()
	for _, f := range r.fns {
		if r.live[f] {
			r.record(f)
		}
	}
	for _, a := range r.acc {
		a.locks = r.held[a.in]
	}
	byLoc := map[string][]*raccess{}
	var locs []string
	for _, a := range r.acc {
		if byLoc[a.loc] == nil {
			locs = append(locs, a.loc)
		}
		byLoc[a.loc] = append(byLoc[a.loc], a)
	}
	sort.Strings(locs)
	// who performs an access
	who := func(a *raccess) []*rentry {
		var out []*rentry
		for _, e := range ents {
			if e.after >= 0 {
				near := e.fns[a.fn] || e.instrs[a.in]
				if !near && (a.after != nil || a.cell != nil || !e.lfns[a.fn] && !e.later[a.in]) {
					continue
				}
				if a.after != nil && !a.after[afterGo(e.after)] {
					continue
				}
				if a.cell != nil && a.fn != e.starter && a.cell.Parent() != e.starter {
					continue
				}
				if a.cell != nil && a.fn == e.starter && a.cell.Parent() == e.starter && !followsFor(r.gos[e.after], a) {
					continue // made anew before it gets there
				}
				out = append(out, e)
				continue
			}
			if !e.fns[a.fn] || a.after != nil {
				continue
			}
			if a.cell != nil && e.fns[a.cell.Parent()] {
				continue // its own variable
			}
			if a.cell != nil && !r.outlives(e, a) {
				continue // a call of another variable of that name
			}
			out = append(out, e)
		}
		return out
	}
	n := 0
	for _, l := range locs {
		as := byLoc[l]
		w := false
		for _, a := range as {
			w = w || a.write
		}
		if !w {
			continue
		}
		es := make([][]*rentry, len(as))
		for i, a := range as {
			es[i] = who(a)
		}
		bad := ""
		for i, a := range as {
			for j := i; j < len(as) && bad == ""; j++ {
				b := as[j]
				if !a.write && !b.write || a.atomic && b.atomic || r.excludes(a, b) {
					continue
				}
				for _, e := range es[i] {
					for _, f := range es[j] {
						if bad == "" && r.overlap(e, f, a, b) {
							p, q := a, b
							pe, qe := e, f
							if !p.write {
								p, q, pe, qe = b, a, f, e
							}
							verb := "read"
							if q.write {
								verb = "written"
							}
							bad = fmt.Sprintf("%s is written at %s (%s) while it may be %s at %s (%s): no lock is held at both", l, r.x.posStr(p.in.Pos()), pe.name, verb, r.x.posStr(q.in.Pos()), qe.name)
						}
					}
				}
			}
		}
		used := false
		for i := range es {
			used = used || len(es[i]) > 0
		}
		if used {
			n++
			c.ob(bad == "", rule, l, "%s", bad)
		}
	}
	for _, e := range ents {
		if e.after < 0 {
			c.ob(true, rule, e.name, "")
		}
	}
	c.need(n, 3, rule, "shared places that are written")
}

// outlives: the closure that performs the access is one the entry point is,
// or is held where it can find it.
func (r *races) outlives(e *rentry, a *raccess) bool {
	for g := a.fn; g != nil && g != a.cell.Parent(); g = g.Parent() {
		for _, h := range e.root.fns {
			if h == g {
				return true
			}
		}
		if r.kept(g) {
			return true
		}
	}
	return false
}

// overlap: can two entry points perform these accesses at the same time?
func (r *races) overlap(e, f *rentry, a, b *raccess) bool {
	if e == f {
		if !e.multi || e.after >= 0 {
			return false
		}
		if a.elem && b.elem && e.root.goAt != nil {
			return false // its own element each
		}
		if a.cell != nil && e.root.goAt != nil {
			// a variable made anew for every start
			if g := e.root.goAt; a.cell.Parent() == g.Parent() {
				return inCycle(g) && !reachesBlock(g.Block(), a.cell.Block())
			}
		}
		return true
	}
	if e.after >= 0 && f.after >= 0 {
		return false
	}
	if e.after >= 0 {
		e, f = f, e
	}
	if f.after >= 0 { // only against what that statement started
		return e.root.goAt == r.gos[f.after]
	}
	// a command that starts a component on a goroutine of its own only calls
	// it again at the same time when the component is made for that
	if r.ownerOf(e, f) && len(a.locks) == 0 && len(b.locks) == 0 {
		return false
	}
	return !r.before(e, f, a) && !r.before(f, e, b)
}

func (r *races) ownerOf(e, f *rentry) bool {
	if strings.HasPrefix(f.name, "the owner of ") {
		e, f = f, e
	}
	g := f.root.goAt
	return strings.HasPrefix(e.name, "the owner of ") && g != nil && g.Parent().Pkg != nil && g.Parent().Pkg.Pkg.Name() == "main"
}

// before: an access its entry point performs before it starts the other.
func (r *races) before(e, f *rentry, a *raccess) bool {
	g := f.root.goAt
	if g == nil || e.multi || !e.fns[g.Parent()] {
		return false
	}
	later := r.gone[g]
	return !later.later[a.in] && !later.lfns[a.fn]
}

// called: what instructions call.
func (r *races) called(ins map[ssa.Instruction]bool) []*ssa.Function {
	var cs []*ssa.Function
	for in := range ins {
		if _, ok := in.(*ssa.Go); ok {
			continue
		}
		for _, f := range r.sites[in] {
			if h, _ := r.target(f); h != nil {
				cs = append(cs, h)
			}
		}
	}
	return cs
}

// afterStart: what comes after a go statement, in the function that has it and
// in those that call it.
func (r *races) afterStart(g *ssa.Go) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	from := func(in ssa.Instruction) {
		returns := false
		for k := range afterInstr(in) {
			out[k] = true
			if _, ok := k.(*ssa.Return); ok {
				returns = true
			}
		}
		if returns {
			visit(in.Parent())
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, in := range r.callers()[f] {
			switch in.(type) {
			case *ssa.Go:
			case *ssa.Defer:
				visit(in.Parent())
			default:
				from(in)
			}
		}
	}
	from(g)
	return out
}

func (r *races) callers() map[*ssa.Function][]ssa.Instruction {
	if r.calls == nil {
		r.calls = map[*ssa.Function][]ssa.Instruction{}
		for in, fs := range r.sites {
			for _, f := range fs {
				if h, _ := r.target(f); h != nil {
					r.calls[h] = append(r.calls[h], in)
				}
			}
		}
	}
	return r.calls
}

func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a)
}

func (r *races) solveLocks() {
	// what a function leaves locked or unlocks
	for i := 0; i < 16; i++ {
		ch := false
		for _, f := range r.fns {
			exit, killed := r.locks(f, map[string]int{}, false)
			if exit == nil {
				exit = map[string]int{}
			}
			for k := range exit {
				delete(killed, k)
			}
			if i < 6 { // what is locked comes first
				killed = nil
			}
			if !eqLocks(exit, r.gen[f]) || len(killed) != len(r.kill[f]) {
				r.gen[f], r.kill[f] = exit, killed
				ch = true
			}
		}
		if !ch && i >= 6 {
			break
		}
	}
	rootFns := map[*ssa.Function]bool{}
	for _, rt := range r.roots {
		for _, f := range rt.fns {
			rootFns[f] = true
		}
	}
	for i := 0; i < 20; i++ {
		ch := false
		next := map[*ssa.Function]map[string]int{}
		r.held = map[ssa.Instruction]map[string]int{}
		for _, f := range r.fns {
			if !r.live[f] {
				continue
			}
			en := r.entry[f]
			if rootFns[f] || en == nil && !r.calledLive(f) {
				en = map[string]int{}
			}
			if en == nil {
				continue
			}
			r.locks(f, en, true)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					for _, g := range r.sites[in] {
						h, _ := r.target(g)
						if h == nil {
							continue
						}
						at := r.held[in]
						if ci, ok := in.(*ssa.Call); ok {
							if op, on := lockOp(ci.Common()); op == "Do" {
								at = copyLocks(at)
								at["done once "+r.lockKey(on)] = 2
							}
						}
						if next[h] == nil {
							next[h] = copyLocks(at)
						} else {
							next[h] = meetLocks(next[h], at)
						}
					}
				}
			}
		}
		for h, m := range next {
			if rootFns[h] {
				continue
			}
			if !eqLocks(m, r.entry[h]) {
				r.entry[h] = m
				ch = true
			}
		}
		if !ch {
			break
		}
	}
}

func (r *races) calledLive(f *ssa.Function) bool {
	if r.edges == nil || len(r.edges) == 0 {
		for _, g := range r.fns {
			if !r.live[g] {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					for _, h := range r.sites[in] {
						if t, _ := r.target(h); t != nil {
							if r.edges[t] == nil {
								r.edges[t] = map[*ssa.Function]bool{}
							}
							r.edges[t][g] = true
						}
					}
				}
			}
		}
	}
	return len(r.edges[f]) > 0
}
