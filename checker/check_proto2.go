package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"go/constant"
	"go/types"
	"io"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const codecRule = "codec"

// codecMethods: each message is encoded, decoded, sized and merged by the
// codec's own routine for it, and Reset leaves nothing behind.
func (p *protoCheck) codecMethods() {
	c, x := p.c, p.x
	infoOf := map[*Term]string{}
	for _, n := range sortedKeys(p.msgs) {
		t := p.typ(goName(n))
		if t == nil || structOf(t) == nil {
			continue
		}
		pt := types.NewPointer(t)
		var own *Term
		for _, k := range []string{"Unmarshal", "Marshal", "Merge", "Size", "DiscardUnknown"} {
			fn := x.method(pt, "XXX_"+k)
			if fn == nil {
				continue // the codec finds its own way then
			}
			what := goName(n) + ".XXX_" + k
			ps := x.params(fn)
			st := x.newState()
			for _, q := range ps {
				if _, ok := q.typ.Underlying().(*types.Pointer); ok {
					st.wfacts().Assume(x.T.Eq(q, x.T.Nil()), false)
				}
			}
			outs := c.rets(x, x.Root(fn, st, ps, nil), codecRule, what)
			c.onlyOwn(x, outs, codecRule, what, nil)
			for _, o := range outs {
				var calls []*Event
				allEvents(o.evs, func(e *Event) {
					if isExtCall(e) && strings.HasPrefix(e.name, "(*github.com/golang/protobuf/proto.InternalMessageInfo).") {
						calls = append(calls, e)
					}
				})
				if !c.ob(len(calls) == 1 && strings.HasSuffix(calls[0].name, ")."+k), codecRule, what+" routine", "%s does not call the codec's %s once: %s", what, k, x.pathStr(o)) {
					continue
				}
				e := calls[0]
				if own == nil {
					own = e.args[0]
					c.ob(infoOf[own] == "", codecRule, what+" shared", "%s uses the codec information of %s", what, infoOf[own])
					infoOf[own] = goName(n)
				}
				c.ob(e.args[0] == own, codecRule, what+" information", "%s uses %s, not its message's own codec information %s", what, e.args[0], own)
				// the message first for Unmarshal, Merge, Size and
				// DiscardUnknown; the buffer first for Marshal
				want := ps
				switch k {
				case "Unmarshal":
					want = []*Term{ps[0], ps[1]}
				case "Marshal":
					want = []*Term{ps[1], ps[0], ps[2]}
				}
				got := e.args[1:]
				same := len(got) == len(want)
				for i := 0; same && i < len(want); i++ {
					same = stripIface(got[i]) == stripIface(want[i])
				}
				c.ob(same, codecRule, what+" arguments", "%s calls the codec with %v, want %v", what, got, want)
				ok := len(o.Vals) == len(e.res) || len(o.Vals) == 0
				for i := 0; ok && i < len(o.Vals); i++ {
					ok = x.same(o.St.facts, o.Vals[i], e.res[i])
				}
				c.ob(ok, codecRule, what+" result", "%s returns %v, not what the codec answers", what, o.Vals)
			}
		}
		if fn := x.method(pt, "Reset"); fn != nil {
			what := goName(n) + ".Reset"
			ps := x.params(fn)
			st := x.newState()
			st.wfacts().Assume(x.T.Eq(ps[0], x.T.Nil()), false)
			s := structOf(t)
			for _, o := range c.rets(x, x.Root(fn, st, ps, nil), codecRule, what) {
				for i := 0; i < s.NumFields(); i++ {
					fa := x.T.FieldAddr(ps[0], t, i)
					v := x.loadMem(o.St.mem, fa, derefType(fa.typ))
					if u, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && u.NumFields() == 0 {
						continue
					}
					c.ob(v == x.T.Zero(derefType(fa.typ)) || isZeroTerm(x, v), codecRule, what+" field", "%s leaves %s in field %s", what, v, s.Field(i).Name())
				}
			}
		}
		p.noOwnCodec(pt, goName(n))
	}
	for _, e := range p.f.enums {
		if t := p.typ(goName(e.name)); t != nil {
			p.noOwnCodec(t, goName(e.name))
		}
	}
}

// noOwnCodec: no method makes a codec take another form of the type.
func (p *protoCheck) noOwnCodec(t types.Type, n string) {
	for _, k := range []string{"Marshal", "Unmarshal", "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "MarshalJSONPB", "UnmarshalJSONPB", "XXX_WellKnownType"} {
		p.c.ob(p.x.method(t, k) == nil, codecRule, n+"."+k, "%s has a method %s, by which the codecs take it for something else", n, k)
	}
}

// enumBehaviour: an enum is registered with its tables, which hold nothing
// else, and names its values by them.
func (p *protoCheck) enumBehaviour(sp *ssa.Package, globs map[string]*Term, mem *Mem, e *protoEnum, nameM, valM *Term) {
	c, x := p.c, p.x
	n := goName(e.name)
	count := func(m *Term) int {
		k := 0
		for a := range mem.m {
			if a.op == "mapelem" && a.args[0] == m {
				k++
			}
		}
		return k
	}
	nums := map[string]bool{}
	for _, v := range e.vals {
		nums[v[1]] = true
	}
	c.ob(count(nameM) == len(nums) && count(valM) == len(e.vals), wireRule, "enum "+n+" tables hold nothing else", "the name tables of %s hold %d numbers and %d names, the API definition has %d and %d", n, count(nameM), count(valM), len(nums), len(e.vals))
	full := p.f.pkg + "." + e.name
	regs := 0
	for _, f := range x.sortedFns() {
		if f.Pkg != sp || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || fnName(call.Call.StaticCallee()) != "github.com/golang/protobuf/proto.RegisterEnum" {
					continue
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil || constant.StringVal(k.Value) != full {
					continue
				}
				regs++
				tab := func(v ssa.Value) *Term {
					if u, ok := v.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							for k, t := range globs {
								if strings.HasSuffix(k, "."+g.Name()) {
									return t
								}
							}
						}
					}
					return nil
				}
				c.ob(tab(call.Call.Args[1]) == nameM && tab(call.Call.Args[2]) == valM, wireRule, "enum "+n+" registered tables", "%s is registered with other tables than its own", n)
			}
		}
	}
	c.ob(regs == 1, wireRule, "enum "+n+" registration", "enum %s is registered %d times as %s: requests naming its values cannot be read", n, regs, full)
	fn := x.method(p.typ(n), "String")
	if !c.ob(fn != nil, wireRule, "enum "+n+" names", "%s has no String method", n) {
		return
	}
	check := func(v *Term, want, what string) {
		st := x.newState()
		st.mem = mem.clone()
		for _, o := range c.rets(x, x.Root(fn, st, []*Term{v}, nil), wireRule, what) {
			got := o.Vals[0]
			s, isConst := got.StrVal()
			ok := isConst && want != "" && s == want
			if got.op == "pure" && got.sym == "github.com/golang/protobuf/proto.EnumName" {
				a := got.args
				num := stripConv(a[1])
				iv, isInt := a[1].IntVal()
				wv, _ := v.IntVal()
				ok = derives(a[0], nameM) && (num == v || isInt && want != "" && iv == wv)
			}
			c.ob(ok, wireRule, what, "%s gives %s: %s", what, got, x.pathStr(o))
		}
	}
	check(x.symOf("x", p.typ(n)), "", "name of any "+n)
}

// The file descriptors embedded in the bindings, which is what reflection
// and descriptor lookups hand out, describe the published files.

type pbDesc struct {
	name   string
	fields map[string]string // name -> number
	nested []*pbDesc
}

type pbWire struct {
	b   []byte
	bad bool
}

func (w *pbWire) varint() uint64 {
	var v uint64
	for i := uint(0); i < 70; i += 7 {
		if len(w.b) == 0 {
			w.bad = true
			return 0
		}
		c := w.b[0]
		w.b = w.b[1:]
		v |= uint64(c&0x7f) << i
		if c < 0x80 {
			return v
		}
	}
	w.bad = true
	return 0
}

// each calls f for every field of a message.
func (w *pbWire) each(f func(num int, v uint64, b []byte)) bool {
	for len(w.b) > 0 && !w.bad {
		k := w.varint()
		switch k & 7 {
		case 0:
			f(int(k>>3), w.varint(), nil)
		case 2:
			n := w.varint()
			if uint64(len(w.b)) < n {
				w.bad = true
				break
			}
			f(int(k>>3), 0, w.b[:n])
			w.b = w.b[n:]
		case 1, 5:
			n := 8
			if k&7 == 5 {
				n = 4
			}
			if len(w.b) < n {
				w.bad = true
				break
			}
			w.b = w.b[n:]
		default:
			w.bad = true
		}
	}
	return !w.bad
}

func readMsgDesc(b []byte) *pbDesc {
	d := &pbDesc{fields: map[string]string{}}
	(&pbWire{b: b}).each(func(num int, _ uint64, b []byte) {
		switch num {
		case 1:
			d.name = string(b)
		case 2:
			var n, k string
			(&pbWire{b: b}).each(func(num int, v uint64, b []byte) {
				switch num {
				case 1:
					n = string(b)
				case 3:
					k = fmt.Sprint(v)
				}
			})
			d.fields[n] = k
		case 3:
			d.nested = append(d.nested, readMsgDesc(b))
		}
	})
	return d
}

// descriptors: Descriptor of every message leads to that message in an
// embedded description of the published file.
func (p *protoCheck) descriptors(mem *Mem) {
	c, x := p.c, p.x
	files := map[*Term][]*pbDesc{}
	read := func(g *Term) []*pbDesc {
		if d, ok := files[g]; ok {
			return d
		}
		files[g] = nil
		es, ok := x.elems(mem, g)
		if !ok {
			return nil
		}
		var b []byte
		for _, e := range es {
			v, ok := e.IntVal()
			if !ok {
				return nil
			}
			b = append(b, byte(v))
		}
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil
		}
		raw, err := io.ReadAll(z)
		if err != nil {
			return nil
		}
		pkg := ""
		var ms []*pbDesc
		if !(&pbWire{b: raw}).each(func(num int, _ uint64, b []byte) {
			switch num {
			case 2:
				pkg = string(b)
			case 4:
				ms = append(ms, readMsgDesc(b))
			}
		}) || pkg != p.f.pkg {
			return nil
		}
		files[g] = ms
		return ms
	}
	for _, n := range sortedKeys(p.msgs) {
		t := p.typ(goName(n))
		if t == nil {
			continue
		}
		fn := x.method(types.NewPointer(t), "Descriptor")
		if fn == nil {
			continue
		}
		what := goName(n) + ".Descriptor"
		st := x.newState()
		st.mem = mem.clone()
		for _, o := range c.rets(x, x.Root(fn, st, x.params(fn), nil), wireRule, what) {
			ms := read(o.Vals[0])
			path, ok := x.elems(o.St.mem, o.Vals[1])
			var at *pbDesc
			full := ""
			for i, q := range path {
				k, isInt := q.IntVal()
				list := ms
				if i > 0 && at != nil {
					list = at.nested
				}
				if !isInt || k < 0 || int(k) >= len(list) {
					at = nil
					break
				}
				at = list[k]
				full = strings.TrimPrefix(full+"."+at.name, ".")
			}
			if !c.ob(ok && at != nil && full == n, wireRule, what, "%s leads to message %q of its file description, want %s", what, full, n) {
				continue
			}
			for _, f := range p.msgs[n].fields {
				c.ob(at.fields[f.name] == f.num, wireRule, what+" "+f.name, "%s describes field %s as number %q, want %s", what, f.name, at.fields[f.name], f.num)
			}
			c.ob(len(at.fields) == len(p.msgs[n].fields), wireRule, what+" fields", "%s describes %d fields, the API definition has %d", what, len(at.fields), len(p.msgs[n].fields))
		}
	}
}
