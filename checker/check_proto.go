package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Go bindings implement the published protobuf API exactly",
		"Comparison of the type-checked Go bindings with the parsed api/v1/*.proto: every message, field (number, wire type, label, name, Go type), oneof, enum value and registration name; path-partitioned dataflow over every getter, client stub and server handler (which leave request and reply as they are), over the codec methods of every message (each calls the codec's own routine for it once, with its own codec information, on the message itself; Reset leaves every field zero; no method makes the codecs take another form), over the enum tables, their registration and String, and over the service tables; the embedded file descriptors are read from their initialisers and compared with the API definition.", checkC21)
}

// camel is protoc-gen-go's CamelCase.
func camel(s string) string {
	var t []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z' {
			continue
		}
		if c >= '0' && c <= '9' {
			t = append(t, c)
			continue
		}
		if c >= 'a' && c <= 'z' {
			c ^= ' '
		}
		t = append(t, c)
		for i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z' {
			i++
			t = append(t, s[i])
		}
	}
	return string(t)
}

func jsonName(s string) string {
	c := []byte(camel(s))
	if len(c) > 0 && c[0] >= 'A' && c[0] <= 'Z' {
		c[0] += 'a' - 'A'
	}
	return string(c)
}

func goName(proto string) string { return strings.ReplaceAll(proto, ".", "_") }

type protoCheck struct {
	c    *C
	x    *X
	f    *protoFile
	pkg  *types.Package
	msgs map[string]*protoMsg
	enum map[string]*protoEnum
}

const wireRule = "wire-format"

func (p *protoCheck) typ(goName string) types.Type {
	o, ok := p.pkg.Scope().Lookup(goName).(*types.TypeName)
	if !ok {
		return nil
	}
	return o.Type()
}

// resolve finds the declaration a field's type refers to.
func (p *protoCheck) resolve(in, t string) string {
	scope := strings.Split(in, ".")
	for i := len(scope); i >= 0; i-- {
		n := strings.Join(append(append([]string{}, scope[:i]...), t), ".")
		if p.msgs[n] != nil || p.enum[n] != nil {
			return n
		}
	}
	return ""
}

var scalars = map[string]struct{ wire, typ string }{
	"string": {"bytes", "string"}, "bytes": {"bytes", "[]byte"}, "int64": {"varint", "int64"}, "int32": {"varint", "int32"},
	"uint64": {"varint", "uint64"}, "uint32": {"varint", "uint32"}, "bool": {"varint", "bool"}, "double": {"fixed64", "float64"}, "float": {"fixed32", "float32"},
}

// elem: wire type, Go type and enum name of a (singular) type.
func (p *protoCheck) elem(in, t string) (wire, goT, enum string, ok bool) {
	if s, k := scalars[t]; k {
		return s.wire, s.typ, "", true
	}
	if n := p.resolve(in, t); n != "" {
		if p.enum[n] != nil {
			return "varint", p.pkg.Path() + "." + goName(n), p.f.pkg + "." + n, true
		}
		return "bytes", "*" + p.pkg.Path() + "." + goName(n), "", true
	}
	if strings.HasPrefix(t, "loggregator.v2.") {
		return "bytes", "*code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2." + strings.TrimPrefix(t, "loggregator.v2."), "", true
	}
	return "", "", "", false
}

// tag is a parsed protobuf struct tag.
type pbTag struct {
	wire, num, label, name, enum string
	packed, oneof                bool
}

func parseTag(s string) pbTag {
	f := strings.Split(s, ",")
	var t pbTag
	if len(f) < 3 {
		return t
	}
	t.wire, t.num, t.label = f[0], f[1], f[2]
	for _, a := range f[3:] {
		switch {
		case strings.HasPrefix(a, "name="):
			t.name = a[5:]
		case strings.HasPrefix(a, "enum="):
			t.enum = a[5:]
		case a == "packed":
			t.packed = true
		case a == "oneof":
			t.oneof = true
		}
	}
	return t
}

func (p *protoCheck) field(m *protoMsg, f protoField, v *types.Var, tag string) {
	c := p.c
	what := m.name + "." + f.name
	wire, goT, enum, ok := p.elem(m.name, f.typ)
	if !c.ob(ok, wireRule, what, "the type %s of %s is unknown", f.typ, what) {
		return
	}
	st := reflect.StructTag(tag)
	t := parseTag(st.Get("protobuf"))
	want := pbTag{wire: wire, num: f.num, label: "opt", name: f.name, enum: enum, oneof: f.oneof != ""}
	if f.rep {
		want.label = "rep"
		want.packed = wire != "bytes"
		goT = "[]" + goT
	}
	if f.key != "" {
		kw, kt, _, _ := p.elem(m.name, f.key)
		k, vt := parseTag(st.Get("protobuf_key")), parseTag(st.Get("protobuf_val"))
		c.ob(k.wire == kw && k.num == "1" && vt.wire == wire && vt.num == "2", wireRule, what+" map entry", "%s has map entry tags %q and %q", what, st.Get("protobuf_key"), st.Get("protobuf_val"))
		goT = "map[" + kt + "]" + goT
		want.wire, want.label, want.enum = "bytes", "rep", ""
	}
	c.ob(t == want, wireRule, what, "%s is tagged %q, which does not match field %s %s = %s of the API definition", what, st.Get("protobuf"), f.typ, f.name, f.num)
	c.ob(v.Type().String() == goT, wireRule, what+" type", "%s has type %s, want %s", what, v.Type(), goT)
	if f.oneof == "" {
		js := strings.Split(st.Get("json"), ",")[0]
		c.ob(js == f.name, wireRule, what+" json", "%s has JSON name %q", what, js)
	}
}

func (p *protoCheck) message(m *protoMsg) {
	c := p.c
	t := p.typ(goName(m.name))
	if !c.ob(t != nil && structOf(t) != nil, wireRule, m.name, "message %s has no Go type", m.name) {
		return
	}
	s := structOf(t)
	byName := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		if n := s.Field(i).Name(); !strings.HasPrefix(n, "XXX_") {
			byName[n] = i
		}
	}
	done := map[string]bool{}
	for _, f := range m.fields {
		gn := camel(f.name)
		if f.oneof != "" {
			wt := p.typ(goName(m.name) + "_" + gn)
			if !c.ob(wt != nil && structOf(wt) != nil && structOf(wt).NumFields() == 1, wireRule, m.name+"."+f.name, "oneof member %s.%s has no wrapper type", m.name, f.name) {
				continue
			}
			p.field(m, f, structOf(wt).Field(0), structOf(wt).Tag(0))
			i, ok := byName[camel(f.oneof)]
			if c.ob(ok && types.IsInterface(s.Field(i).Type()) && types.Implements(types.NewPointer(wt), s.Field(i).Type().Underlying().(*types.Interface)), wireRule, m.name+"."+f.name+" oneof", "%s.%s is not a choice of oneof %s", m.name, f.name, f.oneof) {
				done[camel(f.oneof)] = true
				p.getter(t, m, gn, wt, f, i)
			}
			continue
		}
		i, ok := byName[gn]
		if !c.ob(ok, wireRule, m.name+"."+f.name, "field %s.%s is missing in Go", m.name, f.name) {
			continue
		}
		done[gn] = true
		p.field(m, f, s.Field(i), s.Tag(i))
		p.getter(t, m, gn, nil, f, i)
	}
	for n := range byName {
		c.ob(done[n], wireRule, m.name+" extra "+n, "Go field %s of %s is not in the API definition", n, m.name)
	}
	p.oneofTypes(t, m)
	for _, n := range m.nested {
		p.message(n)
	}
}

// getter: GetX returns field X of a message and the zero value of none.
func (p *protoCheck) getter(t types.Type, m *protoMsg, gn string, wrap types.Type, f protoField, i int) {
	const rule = "getters"
	c, x := p.c, p.x
	what := goName(m.name) + ".Get" + gn
	fn := x.method(types.NewPointer(t), "Get"+gn)
	if !c.ob(fn != nil, rule, what, "%s does not exist", what) {
		return
	}
	st := x.newState()
	msg := x.symOf("m", types.NewPointer(t))
	st.wfacts().Assume(x.T.Eq(msg, x.T.Nil()), false)
	gouts := c.rets(x, x.Root(fn, st, []*Term{msg}, nil), rule, what)
	c.onlyOwn(x, gouts, rule, what, nil)
	for _, o := range gouts {
		fa := x.T.FieldAddr(msg, t, i)
		v := x.loadMem(o.St.mem, fa, derefType(fa.typ))
		got := o.Vals[0]
		if wrap == nil {
			c.ob(x.same(o.St.facts, got, v), rule, what, "%s returns %s, want field %s", what, got, gn)
			continue
		}
		// the wrapper's field when that choice is set, nil otherwise
		is := x.T.mk("istype", "", types.NewPointer(wrap), v)
		ok := false
		if got.IsNil() || x.isNil(o.St.facts, got) == 1 && got.op == "const" {
			ok = o.St.facts.Eval(is) == -1
		} else {
			ok = got.op == "init" && got.args[0].op == "fieldaddr" && fieldName(got.args[0]) == structOf(wrap).Field(0).Name() && derives(got, v) && types.Identical(derefType(got.args[0].args[0].typ), wrap)
		}
		c.ob(ok, rule, what, "%s returns %s: %s", what, got, x.pathStr(o))
	}
	st = x.newState()
	ft := fn.Signature.Results().At(0).Type()
	for _, o := range c.rets(x, x.Root(fn, st, []*Term{x.T.Nil()}, nil), rule, what+" of nil") {
		z := x.T.Zero(ft)
		got := o.Vals[0]
		c.ob(got == z || got.IsNil() && z.IsNil() || isZeroTerm(x, got), rule, what+" of nil", "%s of a nil message returns %s", what, got)
	}
}

// method finds a declared method.
func (x *X) method(t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// oneofTypes: XXX_OneofFuncs lists every wrapper, which is how the codec
// learns of them.
func (p *protoCheck) oneofTypes(t types.Type, m *protoMsg) {
	want := map[string]bool{}
	for _, f := range m.fields {
		if f.oneof != "" {
			want["*"+p.pkg.Path()+"."+goName(m.name)+"_"+camel(f.name)] = true
		}
	}
	if len(want) == 0 {
		return
	}
	what := goName(m.name) + " oneof wrappers"
	fn := p.x.method(types.NewPointer(t), "XXX_OneofFuncs")
	if fn == nil {
		fn = p.x.method(types.NewPointer(t), "XXX_OneofWrappers")
	}
	if !p.c.ob(fn != nil, wireRule, what, "%s does not list its oneof wrappers", m.name) {
		return
	}
	got := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mi, ok := ins.(*ssa.MakeInterface); ok {
				got[mi.X.Type().String()] = true
			}
		}
	}
	for w := range want {
		p.c.ob(got[w], wireRule, what+" "+w, "%s is not listed among the oneof wrappers of %s: the codec drops it", w, m.name)
	}
}

func checkC21(c *C) {
	f, err := parseProtos(filepath.Join(repoDir, "api", "v1"))
	if err != nil {
		c.ob(false, wireRule, "api/v1", "the API definition cannot be read: %v", err)
		return
	}
	x := c.newX()
	sp := x.pkgs[lcv1]
	p := &protoCheck{c: c, x: x, f: f, pkg: sp.Pkg, msgs: map[string]*protoMsg{}, enum: map[string]*protoEnum{}}
	var reg func(ms []*protoMsg)
	reg = func(ms []*protoMsg) {
		for _, m := range ms {
			p.msgs[m.name] = m
			reg(m.nested)
		}
	}
	reg(f.msgs)
	for _, e := range f.enums {
		p.enum[e.name] = e
	}
	for _, m := range f.msgs {
		p.message(m)
	}
	p.registrations(sp)
	p.enums(sp)
	p.codecMethods()
	_, mem := x.pkgGlobals("pkg/rpc/logcache_v1")
	p.descriptors(mem)
	p.services(sp)
	c.need(len(p.msgs), 25, wireRule, "messages")
	c.need(len(f.rpcs), 9, wireRule, "RPCs")
}

// registrations: every message is registered under its full name.
func (p *protoCheck) registrations(sp *ssa.Package) {
	c := p.c
	got := map[string]string{}
	for _, f := range p.x.sortedFns() {
		if f.Pkg != sp || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || fnName(call.Call.StaticCallee()) != "github.com/golang/protobuf/proto.RegisterType" {
					continue
				}
				v := call.Call.Args[0]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
					got[v.Type().String()] = constant.StringVal(k.Value)
				}
			}
		}
	}
	for n := range p.msgs {
		t := "*" + p.pkg.Path() + "." + goName(n)
		c.ob(got[t] == p.f.pkg+"."+n, wireRule, "registration of "+n, "%s is registered as %q, want %q", t, got[t], p.f.pkg+"."+n)
	}
}

func (p *protoCheck) enums(sp *ssa.Package) {
	c, x := p.c, p.x
	globs, mem := x.pkgGlobals("pkg/rpc/logcache_v1")
	for _, e := range p.f.enums {
		n := goName(e.name)
		t := p.typ(n)
		if !c.ob(t != nil, wireRule, "enum "+n, "enum %s has no Go type", e.name) {
			continue
		}
		consts := map[string]int64{}
		for _, nm := range p.pkg.Scope().Names() {
			if k, ok := p.pkg.Scope().Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), t) {
				v, _ := constant.Int64Val(k.Val())
				consts[strings.TrimPrefix(nm, n+"_")] = v
			}
		}
		find := func(suffix string) *Term {
			for k, v := range globs {
				if strings.HasSuffix(k, "."+n+suffix) {
					return v
				}
			}
			return nil
		}
		nameM, valM := find("_name"), find("_value")
		for _, v := range e.vals {
			num, _ := strconv.ParseInt(v[1], 10, 64)
			g, ok := consts[v[0]]
			c.ob(ok && g == num, wireRule, "enum "+n+"."+v[0], "%s.%s is %d in Go, %d in the API definition", n, v[0], g, num)
			delete(consts, v[0])
			if c.ob(nameM != nil && valM != nil, wireRule, "enum "+n+" tables", "enum %s has no name tables", n) {
				a, _ := x.mapConst(mem, nameM, x.T.Const(constant.MakeInt64(num), types.Typ[types.Int32]))
				b, _ := x.mapConst(mem, valM, x.T.Str(v[0]))
				as, _ := a.StrVal()
				bs, okB := b.IntVal()
				c.ob(as == v[0] && okB && bs == num, wireRule, "enum "+n+" table "+v[0], "the name tables of %s give %q for %d and %d for %q", n, as, num, bs, v[0])
			}
		}
		if nameM != nil && valM != nil {
			p.enumBehaviour(sp, globs, mem, e, nameM, valM)
		}
		var extra []string
		for k := range consts {
			extra = append(extra, k)
		}
		sort.Strings(extra)
		c.ob(len(extra) == 0, wireRule, "enum "+n+" extra", "values %v of %s are not in the API definition", extra, n)
	}
}

// mapConst reads key k of a map built by an initialiser.
func (x *X) mapConst(m *Mem, mp, k *Term) (*Term, bool) {
	for a, v := range m.m {
		if a.op == "mapelem" && a.args[0] == mp && (a.args[1] == k || a.args[1].String() == k.String()) {
			return v, true
		}
	}
	return x.T.Nil(), false
}

func (p *protoCheck) services(sp *ssa.Package) {
	const rule = "services"
	c, x := p.c, p.x
	_, mem := x.pkgGlobals("pkg/rpc/logcache_v1")
	byService := map[string][]protoRPC{}
	for _, r := range p.f.rpcs {
		byService[r.service] = append(byService[r.service], r)
	}
	for svc, rpcs := range byService {
		// client stubs
		for _, r := range rpcs {
			full := "/" + p.f.pkg + "." + svc + "/" + r.name
			reqT := types.NewPointer(p.typ(goName(r.in)))
			respT := types.NewPointer(p.typ(goName(r.out)))
			what := svc + "." + r.name
			ctor := sp.Func("New" + svc + "Client")
			if !c.ob(ctor != nil, rule, svc+" client", "there is no client for %s", svc) {
				break
			}
			cps := x.params(ctor)
			st := x.newState()
			for _, q := range cps {
				st.wfacts().Assume(x.T.Eq(q, x.T.Nil()), false)
			}
			cl := x.single(x.Root(ctor, st, cps, nil), "client constructor")
			ctx, in := x.symOf("ctx", x.NamedType("context", "Context")), x.symOf("in", reqT)
			opts := x.symOf("opts", types.NewSlice(x.NamedType("google.golang.org/grpc", "CallOption")))
			outs := x.CallMethod(cl.Vals[0], r.name, []*Term{ctx, in, opts}, cl.St)
			c.onlyOwn(x, outs, rule, what+" client", func(a *Term) bool { return !insideOf(a, in) })
			for _, o := range c.rets(x, outs, rule, what+" client") {
				var inv []*Event
				allEvents(o.evs, func(e *Event) {
					if isExtCall(e) && strings.HasPrefix(e.name, "(*google.golang.org/grpc.ClientConn).") || isExtCall(e) && e.name == "google.golang.org/grpc.Invoke" {
						inv = append(inv, e)
					}
				})
				if !c.ob(len(inv) == 1, rule, what+" client", "the client stub of %s makes %d calls", what, len(inv)) {
					continue
				}
				e := inv[0]
				var m, cc, a, reply *Term
				if e.name == "google.golang.org/grpc.Invoke" {
					cc, m, a, reply = e.args[4], e.args[1], e.args[2], e.args[3]
				} else {
					cc, m, a, reply = e.args[0], e.args[2], e.args[3], e.args[4]
				}
				ms, _ := m.StrVal()
				out := stripIface(reply)
				c.ob(e.args[len(e.args)-1] == opts, rule, what+" client options", "the client stub of %s passes options %s, not the caller's", what, e.args[len(e.args)-1])
				c.ob(ms == full && cc == cps[0] && stripIface(a) == in && e.callCtx() == ctx, rule, what+" client call", "the client stub of %s calls %q with (%s, %s) on %s, want %s", what, ms, e.callCtx(), a, cc, full)
				c.ob(out.op == "alloc" && types.Identical(out.typ, respT), rule, what+" client reply", "the client stub of %s decodes the reply into %s", what, out)
				how := x.tampered(o, out, e)
				c.ob(how == "", rule, what+" client reply kept", "the client stub of %s changes the reply: %s", what, how)
				errT := e.res[0]
				switch x.isNil(o.St.facts, errT) {
				case 1:
					c.ob(stripIface(o.Vals[0]) == out && x.isNil(o.St.facts, o.Vals[1]) == 1, rule, what+" client result", "the client stub of %s returns %v for a successful call", what, o.Vals)
				case -1:
					c.ob(o.Vals[0].IsNil() && o.Vals[1] == errT, rule, what+" client error", "the client stub of %s returns %v for a failed call", what, o.Vals)
				default:
					c.ob(stripIface(o.Vals[0]) == out && o.Vals[1] == errT, rule, what+" client result", "the client stub of %s returns %v", what, o.Vals)
				}
			}
		}
		// service table
		sd := x.NamedType("google.golang.org/grpc", "ServiceDesc")
		md := x.NamedType("google.golang.org/grpc", "MethodDesc")
		reg := sp.Func("Register" + svc + "Server")
		if !c.ob(reg != nil, rule, svc+" registration", "there is no registration function for %s", svc) {
			continue
		}
		rps := x.params(reg)
		st := x.newState()
		st.mem = mem.clone()
		var desc *Term
		for _, o := range c.rets(x, x.Root(reg, st, rps, nil), rule, svc+" registration") {
			n := 0
			allEvents(o.evs, func(e *Event) {
				if methodIs(e, "RegisterService") || e.kind == EvCall && e.name == "(*google.golang.org/grpc.Server).RegisterService" {
					n++
					desc = e.args[1]
					c.ob(e.args[0] == rps[0] && stripIface(e.args[2]) == stripIface(rps[1]), rule, svc+" registration", "Register%sServer registers %v", svc, e.args)
				}
			})
			c.ob(n == 1, rule, svc+" registration", "Register%sServer registers %d services", svc, n)
		}
		if desc == nil {
			continue
		}
		fld := func(base *Term, t types.Type, n string) *Term {
			a := x.FieldNamed(base, t, n)
			return x.loadMem(mem, a, derefType(a.typ))
		}
		name, _ := fld(desc, sd, "ServiceName").StrVal()
		c.ob(name == p.f.pkg+"."+svc, rule, svc+" name", "%s is served as %q", svc, name)
		ms, ok := x.elems(mem, fld(desc, sd, "Methods"))
		if !c.ob(ok, rule, svc+" methods", "the method table of %s cannot be enumerated (%s.%s)", svc, desc, fld(desc, sd, "Methods")) {
			continue
		}
		c.ob(len(ms) == len(rpcs), rule, svc+" methods", "%s serves %d methods, the API definition has %d", svc, len(ms), len(rpcs))
		handlers := map[string]*Term{}
		for _, e := range ms {
			n, _ := x.structField(mem, e, md, "MethodName").StrVal()
			handlers[n] = x.structField(mem, e, md, "Handler")
		}
		for _, r := range rpcs {
			h := handlers[r.name]
			if c.ob(h != nil, rule, svc+"."+r.name+" handler", "%s does not serve %s", svc, r.name) {
				p.handler(svc, r, h, mem)
			}
		}
	}
}

// structField: a field of a struct given by value or address.
func (x *X) structField(m *Mem, v *Term, t types.Type, n string) *Term {
	if _, ok := v.typ.Underlying().(*types.Pointer); ok {
		a := x.FieldNamed(v, t, n)
		return x.loadMem(m, a, derefType(a.typ))
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			if v.op == "struct" {
				return v.args[i]
			}
		}
	}
	return x.FieldVal(v, t, n)
}

// handler: decode, then exactly one call of the server's method with the
// decoded request and the call's context, directly or via the interceptor.
func (p *protoCheck) handler(svc string, r protoRPC, h *Term, mem *Mem) {
	const rule = "services"
	c, x := p.c, p.x
	what := svc + "." + r.name + " handler"
	full := "/" + p.f.pkg + "." + svc + "/" + r.name
	sig := h.typ.Underlying().(*types.Signature)
	var as []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, x.symOf([]string{"srv", "ctx", "dec", "interceptor"}[i], sig.Params().At(i).Type()))
	}
	srv, ctx, dec, icpt := as[0], as[1], as[2], as[3]
	st := x.newState()
	st.mem = mem.clone()
	st.wfacts().Assume(x.T.Eq(dec, x.T.Nil()), false)
	reqT := types.NewPointer(p.typ(goName(r.in)))
	direct, viaI := 0, 0
	isCall := func(e *Event) bool {
		return e.kind == EvCall && e.method != nil && len(e.args) > 0 && derives(e.args[0], srv)
	}
	for _, o := range x.CallTerm(h, as, st) {
		if o.Panic {
			// a server of another type: registration rules it out
			c.ob(strings.Contains(o.PKind, "assert"), rule, what+" panic", "%s can panic (%s): %s", what, o.PKind, x.pathStr(o))
			continue
		}
		var d, m, ic []*Event
		for _, e := range o.evs {
			switch {
			case e.kind == EvCall && e.name == "dynamic" && e.args[0] == dec:
				d = append(d, e)
			case e.kind == EvCall && e.name == "dynamic" && e.args[0] == icpt:
				ic = append(ic, e)
			case isCall(e):
				m = append(m, e)
			}
		}
		if !c.ob(len(d) == 1, rule, what+" decodes", "%s decodes the request %d times: %s", what, len(d), x.pathStr(o)) {
			continue
		}
		in := stripIface(d[0].args[1])
		c.ob(in.op == "alloc" && types.Identical(in.typ, reqT), rule, what+" request", "%s decodes into %s, want a %s", what, in, reqT)
		if x.isNil(o.St.facts, d[0].res[0]) != 1 {
			c.ob(len(m) == 0 && len(ic) == 0 && o.Vals[0].IsNil() && o.Vals[1] == d[0].res[0], rule, what+" undecodable", "%s goes on with an undecodable request: %s", what, x.pathStr(o))
			continue
		}
		// what was decoded is handed on as it is
		var evs []*Event
		for _, e := range o.evs {
			if e != d[0] && (len(m) == 0 || e != m[0]) && (len(ic) == 0 || e != ic[0]) {
				evs = append(evs, e)
			}
		}
		how := x.tampered(&Outcome{evs: evs}, in, nil)
		for _, e := range append(append([]*Event{}, m...), ic...) {
			if how == "" && e.mem != nil {
				how = x.tampered(&Outcome{St: &State{mem: e.mem}}, in, nil)
			}
		}
		c.ob(how == "", rule, what+" request kept", "%s changes the decoded request: %s", what, how)
		switch {
		case len(m) == 1 && len(ic) == 0:
			direct++
			c.ob(x.isNil(o.St.facts, icpt) == 1, rule, what+" interceptor", "%s by-passes the interceptor: %s", what, x.pathStr(o))
			p.serverCall(what, r, m[0], o, ctx, in)
		case len(m) == 0 && len(ic) == 1:
			viaI++
			e := ic[0]
			info := e.args[3]
			it := x.NamedType("google.golang.org/grpc", "UnaryServerInfo")
			get := func(n string) *Term { a := x.FieldNamed(info, it, n); return x.loadMem(e.mem, a, derefType(a.typ)) }
			fm, _ := get("FullMethod").StrVal()
			c.ob(e.args[1] == ctx && stripIface(e.args[2]) == in && fm == full && get("Server") == srv, rule, what+" interception", "%s intercepts as %q", what, fm)
			c.ob(o.Vals[0] == e.res[0] && o.Vals[1] == e.res[1], rule, what+" intercepted result", "%s returns %v, not the interceptor's answer", what, o.Vals)
			// the continuation
			s2 := x.newState()
			s2.mem, s2.facts = e.mem.clone(), e.facts.clone()
			ctx2 := x.symOf("ctx2", ctx.typ)
			req2 := x.symOf("req2", reqT)
			s2.wfacts().Assume(x.T.Eq(req2, x.T.Nil()), false)
			couts := x.CallTerm(e.args[4], []*Term{ctx2, x.iface(req2, reqT)}, s2)
			c.onlyOwn(x, couts, rule, what+" continuation", func(a *Term) bool { return !insideOf(a, req2) })
			for _, q := range couts {
				if q.Panic {
					c.ob(strings.Contains(q.PKind, "assert"), rule, what+" panic", "%s can panic (%s)", what, q.PKind)
					continue
				}
				var m2 []*Event
				for _, e := range q.evs {
					if isCall(e) {
						m2 = append(m2, e)
					}
				}
				if c.ob(len(m2) == 1, rule, what+" continuation", "%s's continuation calls the server %d times", what, len(m2)) {
					p.serverCall(what, r, m2[0], q, ctx2, req2)
				}
			}
		default:
			c.ob(false, rule, what+" calls", "%s calls the server %d times and the interceptor %d times: %s", what, len(m), len(ic), x.pathStr(o))
		}
	}
	c.need(direct, 1, rule, what+" direct calls")
	c.need(viaI, 1, rule, what+" intercepted calls")
}

func (p *protoCheck) serverCall(what string, r protoRPC, e *Event, o *Outcome, ctx, in *Term) {
	const rule = "services"
	p.c.ob(e.method.Name() == r.name && e.args[1] == ctx && stripIface(e.args[2]) == in, rule, what+" call", "%s calls %s(%s, %s)", what, e.method.Name(), e.args[1], e.args[2])
	p.c.ob(stripIface(o.Vals[0]) == e.res[0] && o.Vals[1] == e.res[1], rule, what+" result", "%s returns %v, not the server's answer", what, o.Vals)
}

// callCtx is the context argument of a gRPC invocation.
func (e *Event) callCtx() *Term {
	if e.name == "google.golang.org/grpc.Invoke" {
		return e.args[0]
	}
	return e.args[1]
}

var _ = fmt.Sprint
