package main

import (
	"go/types"
)

func init() {
	register("C12", "PromQL results are encoded completely, in order and in the Prometheus shape",
		"Path-partitioned dataflow over PromqlMarshaler.Marshal and the encoder of NewEncoder, for every variant of the result: the abstract JSON value handed to the encoder is compared with the Prometheus shape (status, resultType, one element per sample/series/point with its metric, time with 3 decimals, value as shortest decimal string); errors must reach the caller.", checkC12)
	register("C13", "PromQL results are decoded strictly and completely",
		"Path-partitioned dataflow over PromqlMarshaler.Unmarshal and the decoder of NewDecoder: on each successful path the target equals the decoded document element by element, every malformed document ends in an error without touching the target, and no path may panic.", checkC13)
}

type oneofCase struct {
	outer, variant, field, rtype string
}

var promCases = []oneofCase{
	{"PromQL_InstantQueryResult", "PromQL_InstantQueryResult_Scalar", "Scalar", "scalar"},
	{"PromQL_InstantQueryResult", "PromQL_InstantQueryResult_Vector", "Vector", "vector"},
	{"PromQL_InstantQueryResult", "PromQL_InstantQueryResult_Matrix", "Matrix", "matrix"},
	{"PromQL_RangeQueryResult", "PromQL_RangeQueryResult_Matrix", "Matrix", "matrix"},
}

// newMarshaler builds the marshaler around an arbitrary fallback.
func (c *C) newMarshaler(x *X) (m, fb *Term, st *State) {
	fn := x.Fn("pkg/marshaler", "", "NewPromqlMarshaler")
	ps := x.params(fn)
	st = x.newState()
	st.wfacts().Assume(x.T.Eq(ps[0], x.T.Nil()), false)
	o := x.single(x.Root(fn, st, ps, nil), "NewPromqlMarshaler")
	o.St.trace = nil
	return o.Vals[0], ps[0], o.St
}

// msgWith is a non-nil message of type T with field f set to v.
func (x *X) msgWith(st *State, typ types.Type, f string, v *Term) *Term {
	p := x.symOf(shortT(typ), types.NewPointer(typ))
	st.wfacts().Assume(x.T.Eq(p, x.T.Nil()), false)
	if f != "" {
		fa := x.FieldNamed(p, typ, f)
		x.storeMem(st.wmem(), fa, v, derefType(fa.typ))
	}
	return p
}

func (x *X) iface(v *Term, t types.Type) *Term { return x.T.mk("mkiface", "", t, v) }

// get reads message field through the generated names.
func (x *X) get(m *Mem, msg *Term, typ, f string) *Term {
	return x.LoadField(m, msg, x.NamedType(lcv1, typ), f)
}

// pointJSON: want [<time with 3 decimals>, "<value>"].
func (x *X) pointJSON(j *J, m *Mem, owner *Term, typ string) string {
	tm, val := x.get(m, owner, typ, "Time"), x.get(m, owner, typ, "Value")
	if j == nil || j.kind != "arr" || len(j.vals) != 2 {
		return "a point is not written as a two-element array"
	}
	T := x.T
	fl := types.Typ[types.Float64]
	pf := T.mk("pure", "strconv.ParseFloat.0", fl, tm, T.Int(64))
	wantT := T.mk("pure", "strconv.FormatFloat", types.Typ[types.String], pf, T.Int('f'), T.Int(3), T.Int(64))
	wantV := T.mk("pure", "strconv.FormatFloat", types.Typ[types.String], val, T.Int('f'), T.Int(-1), T.Int(64))
	if j.vals[0].kind != "raw" || j.vals[0].v != wantT {
		return "the time of a point is written as " + j.vals[0].kind + " " + j.vals[0].v.String() + ", want the number " + wantT.String()
	}
	if j.vals[1].kind != "val" || j.vals[1].v != wantV {
		return "the value of a point is written as " + j.vals[1].v.String() + ", want the string " + wantV.String()
	}
	return ""
}

// metricJSON: the metric of the element itself; {} when absent.
func (x *X) metricJSON(j *J, it *IterPath, want *Term) string {
	if j == nil {
		return "the metric is not written"
	}
	if j.kind == "obj" && len(j.keys) == 0 {
		// an empty object: only when there is no metric
		if it.facts.Eval(x.T.Eq(want, x.T.Nil())) == 1 || it.facts.Eval(x.T.Eq(x.T.Len(want), x.T.Int(0))) == 1 {
			return ""
		}
		return "the metric of an element that has one is written as {}"
	}
	if j.kind == "val" && x.same(it.facts, j.v, want) {
		if x.isNil(it.facts, want) == -1 || it.facts.Eval(x.T.Eq(x.T.Len(want), x.T.Int(0))) == -1 {
			return ""
		}
		return "an absent metric would be written as null"
	}
	return "the metric is not that of the element"
}

func (x *X) resultJSON(o *Outcome, m *Mem, j *J, cs oneofCase, w *Term) string {
	if j == nil || j.kind != "obj" {
		return "the document is not an object"
	}
	str := func(j *J) string {
		if j == nil || j.v == nil {
			return ""
		}
		s, _ := j.v.StrVal()
		return s
	}
	if str(j.key("status")) != "success" {
		return "status is not \"success\""
	}
	for _, k := range j.keys {
		if k != "status" && k != "data" {
			return "the document has an extra member " + k
		}
	}
	d := j.key("data")
	if d == nil || d.kind != "obj" {
		return "the document has no data object"
	}
	if rt := str(d.key("resultType")); rt != cs.rtype {
		return "resultType is \"" + rt + "\""
	}
	r := d.key("result")
	if r == nil {
		return "there is no result"
	}
	val := x.get(m, w, cs.variant, cs.field)
	switch cs.rtype {
	case "scalar":
		return x.pointJSON(r, m, val, "PromQL_Scalar")
	case "vector":
		if r.kind != "seq" {
			return "the samples are not written as an array"
		}
		if nilStart(x, r.v) {
			return "an empty vector is written as null"
		}
		return x.eachElem(r.v, x.get(m, val, "PromQL_Vector", "Samples"), o.evs, func(it *IterPath, src, got *Term) string {
			e := x.jsonOf(it.mem, it.facts, got)
			if w := x.metricJSON(e.key("metric"), it, x.get(it.mem, src, "PromQL_Sample", "Metric")); w != "" {
				return w
			}
			return x.pointJSON(e.key("value"), it.mem, x.get(it.mem, src, "PromQL_Sample", "Point"), "PromQL_Point")
		})
	case "matrix":
		if r.kind != "seq" {
			return "the series are not written as an array"
		}
		if nilStart(x, r.v) {
			return "an empty matrix is written as null"
		}
		return x.eachElem(r.v, x.get(m, val, "PromQL_Matrix", "Series"), o.evs, func(it *IterPath, src, got *Term) string {
			e := x.jsonOf(it.mem, it.facts, got)
			if w := x.metricJSON(e.key("metric"), it, x.get(it.mem, src, "PromQL_Series", "Metric")); w != "" {
				return w
			}
			vs := e.key("values")
			if vs == nil || vs.kind != "seq" {
				return "the points of a series are not written as an array"
			}
			return x.eachElem(vs.v, x.get(it.mem, src, "PromQL_Series", "Points"), it.events, func(it2 *IterPath, src, got *Term) string {
				return x.pointJSON(x.jsonOf(it2.mem, it2.facts, got), it2.mem, src, "PromQL_Point")
			})
		})
	}
	return "unknown variant"
}

func nilStart(x *X, v *Term) bool {
	if v.loop == nil {
		return v.IsNil()
	}
	in := x.initOf(v)
	return in == nil || in.IsNil()
}

func checkC12(c *C) {
	const rule = "encode"
	// the variants the wire format knows
	c.oneofComplete(c.newX(), rule)
	for _, cs := range promCases {
		for _, enc := range []bool{false, true} {
			x := c.newX()
			m, _, st := c.newMarshaler(x)
			outerT, varT := x.NamedType(lcv1, cs.outer), x.NamedType(lcv1, cs.variant)
			w := x.msgWith(st, varT, "", nil)
			in := x.msgWith(st, outerT, "Result", x.iface(w, types.NewPointer(varT)))
			inI := x.iface(in, types.NewPointer(outerT))
			what := "Marshal of " + cs.outer + " " + cs.field
			var wr *Term
			var outs []*Outcome
			if enc {
				what = "Encode of " + cs.outer + " " + cs.field
				fn := x.Fn("pkg/marshaler", "*PromqlMarshaler", "NewEncoder")
				ps := x.params(fn)
				wr = ps[1]
				st.wfacts().Assume(x.T.Eq(wr, x.T.Nil()), false)
				o := x.single(x.Root(fn, st, []*Term{m, wr}, nil), "NewEncoder")
				o.St.trace = nil
				outs = x.repeated(o.Vals[0], "Encode", []*Term{inI}, o.St)
			} else {
				outs = x.repeated(m, "Marshal", []*Term{inI}, st)
			}
			c.onlyOwn(x, outs, "result", what, nil)
			good := 0
			c.noMay(x, outs, rule, what, hardMay...)
			for _, o := range c.rets(x, outs, rule, what) {
				errV := o.Vals[len(o.Vals)-1]
				fails := x.failures(o.evs, o.St.facts)
				okF, _ := x.with(o.St.facts, x.T.Eq(errV, x.T.Nil()), true)
				maySucceed := x.isNil(o.St.facts, errV) != -1 && okF != nil && !okF.bad
				if len(fails) > 0 {
					c.ob(x.isNil(o.St.facts, errV) == -1, rule, what+" error", "%s reports success although %s failed: %s", what, fails[0].name, x.pathStr(o))
					continue
				}
				if !maySucceed {
					// an error although nothing failed
					c.ob(false, rule, what+" refuses", "%s fails although every step succeeded: %s", what, x.pathStr(o))
					continue
				}
				var doc *Term
				var dm *Mem
				var df *Facts
				if enc {
					n := 0
					for _, e := range o.evs {
						if !isExtCall(e) {
							continue
						}
						switch {
						case e.name == "(*encoding/json.Encoder).Encode":
							n++
							if derives(e.args[0], wr) {
								doc, dm, df = e.args[1], e.mem, e.facts
							}
						case methodIs(e, "Write") && stripIface(e.args[0]) == wr:
							n++
							b := e.args[1]
							if b.op == "append" {
								b = b.args[0]
							}
							if a, am, af, ok := x.marshalled(b); ok {
								doc, dm, df = a, am, af
							}
						case methodIs(e, "Encode"):
							n++
						}
					}
					c.ob(n == 1 && doc != nil, rule, what+" writes once", "%s does not hand exactly one document to the writer: %s", what, x.pathStr(o))
				} else {
					b := o.Vals[0]
					nl := false
					if b.op == "append" && len(b.args) == 2 {
						v, _ := b.args[1].IntVal()
						nl = v == '\n'
						b = b.args[0]
					}
					c.ob(nl, rule, what+" newline", "%s does not end the document with a newline: %s", what, o.Vals[0])
					if a, am, af, ok := x.marshalled(b); ok {
						doc, dm, df = a, am, af
					}
				}
				if doc == nil {
					c.ob(false, rule, what+" document", "%s succeeds without writing a JSON document: %s", what, x.pathStr(o))
					continue
				}
				good++
				why := x.resultJSON(o, st.mem, x.jsonOf(dm, df, doc), cs, w)
				c.ob(why == "", rule, what+" content", "%s: %s (%s)", what, why, x.pathStr(o))
			}
			c.need(good, 1, rule, what+" success paths")
		}
	}
	// everything else goes to the fallback, untouched
	for _, enc := range []bool{false, true} {
		x := c.newX()
		m, fb, st := c.newMarshaler(x)
		rr := types.NewPointer(x.NamedType(lcv1, "ReadResponse"))
		v := x.iface(x.symOf("resp", rr), rr)
		what := "Marshal of another type"
		var outs []*Outcome
		if enc {
			what = "Encode of another type"
			fn := x.Fn("pkg/marshaler", "*PromqlMarshaler", "NewEncoder")
			wr := x.params(fn)[1]
			o := x.single(x.Root(fn, st, []*Term{m, wr}, nil), "NewEncoder")
			var fe *Event
			for _, e := range o.evs {
				if methodIs(e, "NewEncoder") && stripIface(e.args[0]) == fb {
					fe = e
				}
			}
			for _, r := range c.rets(x, x.CallMethod(o.Vals[0], "Encode", []*Term{v}, o.St), rule, what) {
				var n, other int
				for _, e := range r.evs {
					if methodIs(e, "NewEncoder") && stripIface(e.args[0]) == fb {
						fe = e
					}
					if methodIs(e, "Encode") && fe != nil && e.args[0] == fe.res[0] && e.args[1] == v && r.Vals[0] == e.res[0] {
						n++
					} else if e.name == "(*encoding/json.Encoder).Encode" || methodIs(e, "Write") {
						other++
					}
				}
				c.ob(n == 1 && other == 0, rule, what, "%s does not go to the fallback encoder: %s", what, x.pathStr(r))
			}
			c.ob(fe != nil && len(fe.args) > 1 && fe.args[1] == wr, rule, what+" writer", "the fallback encoder does not write to the same stream")
			continue
		}
		outs = x.CallMethod(m, "Marshal", []*Term{v}, st)
		for _, r := range c.rets(x, outs, rule, what) {
			ok := false
			for _, e := range r.evs {
				if methodIs(e, "Marshal") && stripIface(e.args[0]) == fb && e.args[1] == v {
					b := r.Vals[0]
					if b.op == "append" && len(b.args) == 2 {
						b = b.args[0]
					}
					ok = (b == e.res[0] || x.isNil(r.St.facts, r.Vals[1]) == -1) && (r.Vals[1] == e.res[1] || x.isNil(r.St.facts, r.Vals[1]) == x.isNil(r.St.facts, e.res[1]) && x.isNil(r.St.facts, e.res[1]) != 0)
				}
			}
			c.ob(ok, rule, what, "%s does not return the fallback's bytes and error: %s", what, x.pathStr(r))
		}
	}
	x := c.newX()
	m, _, st := c.newMarshaler(x)
	o := x.single(x.CallMethod(m, "ContentType", nil, st), "ContentType")
	s, _ := o.Vals[0].StrVal()
	c.ob(s == "application/json", rule, "content type", "the content type is %s", o.Vals[0])
}

// oneofComplete: the variants checked are all variants of the wire format.
func (c *C) oneofComplete(x *X, rule string) {
	have := map[string]bool{}
	for _, cs := range promCases {
		have[cs.variant] = true
	}
	for _, outer := range []string{"PromQL_InstantQueryResult", "PromQL_RangeQueryResult"} {
		s := structOf(x.NamedType(lcv1, outer))
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != "Result" {
				continue
			}
			it := s.Field(i).Type().Underlying().(*types.Interface)
			sc := x.pkgs[lcv1].Pkg.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok && structOf(tn.Type()) != nil && types.Implements(types.NewPointer(tn.Type()), it) {
					c.ob(have[n], rule, "variant "+n, "result variant %s is not covered by the encoder's table", n)
				}
			}
		}
	}
}

// jfield reads the member named tag of a decoded struct value or object.
func (x *X) jfield(m *Mem, base *Term, t types.Type, tag string) (*Term, types.Type) {
	s := structOf(t)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if jsonTag(t, s.Field(i).Name()) == tag {
			fa := x.T.FieldAddr(base, t, i)
			return fa, s.Field(i).Type()
		}
	}
	return nil, nil
}

// decodedPoint: tm, val are the decoded time and value of the JSON array p.
func (x *X) decodedPoint(f *Facts, m *Mem, p, tm, val *Term) string {
	T := x.T
	el := types.NewInterfaceType(nil, nil)
	if f.Eval(T.Eq(T.Len(p), T.Int(2))) != 1 {
		return "a point is accepted whose length is not known to be two"
	}
	et := elemTypeOf(p.typ)
	if et == nil {
		et = el
	}
	at := func(i int64) *Term { return x.loadMem(m, T.IndexAddr(p, T.Int(i), et), et) }
	fl, st := types.Typ[types.Float64], types.Typ[types.String]
	e0, e1 := at(0), at(1)
	if f.Eval(T.mk("istype", "", fl, e0)) != 1 {
		return "a point is accepted whose time is not known to be a number"
	}
	if f.Eval(T.mk("istype", "", st, e1)) != 1 {
		return "a point is accepted whose value is not known to be a string"
	}
	v := T.mk("assert", "", st, e1)
	wantV := T.mk("pure", "strconv.ParseFloat.0", fl, v, T.Int(64))
	if x.isNil(f, T.mk("pure", "strconv.ParseFloat.1", types.Universe.Lookup("error").Type(), v, T.Int(64))) != 1 {
		return "a point is accepted whose value may not be a number"
	}
	wantT := T.mk("pure", "strconv.FormatFloat", st, T.mk("assert", "", fl, e0), T.Int('f'), T.Int(3), T.Int(64))
	if tm != wantT {
		return "the time of a point is " + tm.String() + ", want " + wantT.String()
	}
	if val != wantV {
		return "the value of a point is " + val.String() + ", want " + wantV.String()
	}
	return ""
}

// ptrField reads field f of a freshly built message.
func (x *X) built(m *Mem, msg *Term, typ, f string) *Term {
	if msg == nil || msg.op != "alloc" || typeKey(derefType(msg.typ)) != lcv1+"."+typ {
		return nil
	}
	return x.get(m, msg, typ, f)
}

func (x *X) decodedResult(o *Outcome, m *Mem, cs oneofCase, res *Term, d *Event, dst *Term) string {
	f := o.St.facts
	res = stripIface(res)
	if typeKey(derefTypeOf(res)) != lcv1+"."+cs.variant {
		return "the decoded result is not a " + cs.variant
	}
	val := x.built(m, res, cs.variant, cs.field)
	dm := d.mem
	_ = dm
	dt := derefType(dst.typ)
	D := x.loadMem(m, dst, dt)
	switch cs.rtype {
	case "scalar":
		if val == nil || val.op != "alloc" {
			return "no scalar is built"
		}
		return x.decodedPoint(f, m, D, x.get(m, val, "PromQL_Scalar", "Time"), x.get(m, val, "PromQL_Scalar", "Value"))
	case "vector":
		seq := x.built(m, val, "PromQL_Vector", "Samples")
		if seq == nil {
			return "no vector is built"
		}
		return x.eachElem(seq, D, o.evs, func(it *IterPath, src, got *Term) string {
			base, bt := x.addrOfElem(it.mem, D, src)
			mfa, mt := x.jfield(it.mem, base, bt, "metric")
			vfa, vt := x.jfield(it.mem, base, bt, "value")
			if mfa == nil || vfa == nil {
				return "the decoded elements have no metric/value members"
			}
			if g := x.built(it.mem, got, "PromQL_Sample", "Metric"); g == nil || g != x.loadMem(it.mem, mfa, mt) {
				return "the metric of a sample is not the decoded one"
			}
			pt := x.built(it.mem, got, "PromQL_Sample", "Point")
			if pt == nil || pt.op != "alloc" {
				return "a sample has no point"
			}
			return x.decodedPoint(it.facts, it.mem, x.loadMem(it.mem, vfa, vt), x.get(it.mem, pt, "PromQL_Point", "Time"), x.get(it.mem, pt, "PromQL_Point", "Value"))
		})
	case "matrix":
		seq := x.built(m, val, "PromQL_Matrix", "Series")
		if seq == nil {
			return "no matrix is built"
		}
		return x.eachElem(seq, D, o.evs, func(it *IterPath, src, got *Term) string {
			base, bt := x.addrOfElem(it.mem, D, src)
			mfa, mt := x.jfield(it.mem, base, bt, "metric")
			vfa, vt := x.jfield(it.mem, base, bt, "values")
			if mfa == nil || vfa == nil {
				return "the decoded elements have no metric/values members"
			}
			if g := x.built(it.mem, got, "PromQL_Series", "Metric"); g == nil || g != x.loadMem(it.mem, mfa, mt) {
				return "the metric of a series is not the decoded one"
			}
			ps := x.built(it.mem, got, "PromQL_Series", "Points")
			if ps == nil {
				return "a series has no points"
			}
			return x.eachElem(ps, x.loadMem(it.mem, vfa, vt), it.events, func(it2 *IterPath, src, got *Term) string {
				if got.op != "alloc" {
					return "a point is not built"
				}
				return x.decodedPoint(it2.facts, it2.mem, src, x.get(it2.mem, got, "PromQL_Point", "Time"), x.get(it2.mem, got, "PromQL_Point", "Value"))
			})
		})
	}
	return "unknown variant"
}

func derefTypeOf(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return derefType(t.typ)
}

// addrOfElem: the object holding element src of D.
func (x *X) addrOfElem(m *Mem, D, src *Term) (*Term, types.Type) {
	et := elemTypeOf(D.typ)
	if p, ok := et.Underlying().(*types.Pointer); ok {
		return src, p.Elem()
	}
	if src.op == "init" {
		return src.args[0], et
	}
	if src.op == "struct" {
		for _, a := range src.args {
			if a.op == "init" && a.args[0].op == "fieldaddr" {
				return a.args[0].args[0], et
			}
		}
	}
	return src, et
}

func checkC13(c *C) {
	const rule = "decode"
	for _, outer := range []string{"PromQL_InstantQueryResult", "PromQL_RangeQueryResult"} {
		for _, dec := range []bool{false, true} {
			x := c.newX()
			T := x.T
			m, _, st := c.newMarshaler(x)
			outerT := x.NamedType(lcv1, outer)
			target := x.msgWith(st, outerT, "", nil)
			tI := x.iface(target, types.NewPointer(outerT))
			what := "Unmarshal into " + outer
			var src *Term
			var outs []*Outcome
			if dec {
				what = "Decode into " + outer
				fn := x.Fn("pkg/marshaler", "*PromqlMarshaler", "NewDecoder")
				src = x.params(fn)[1]
				st.wfacts().Assume(T.Eq(src, T.Nil()), false)
				o := x.single(x.Root(fn, st, []*Term{m, src}, nil), "NewDecoder")
				o.St.trace = nil
				outs = x.repeated(o.Vals[0], "Decode", []*Term{tI}, o.St)
			} else {
				src = x.params(x.Fn("pkg/marshaler", "*PromqlMarshaler", "Unmarshal"))[1]
				outs = x.repeated(m, "Unmarshal", []*Term{src, tI}, st)
			}
			c.onlyOwn(x, outs, "result", what, func(a *Term) bool { return rootOf(a) == target })
			good := map[string]int{}
			c.noMay(x, outs, rule, what, hardMay...)
			for _, o := range c.rets(x, outs, rule, what) {
				errV := o.Vals[0]
				f := o.St.facts
				writes := false
				allEvents(o.evs, func(e *Event) {
					if e.kind == EvStore && rootOf(e.addr) == target || e.kind == EvCall && e.name == "code.cloudfoundry.org/proto.Merge" {
						writes = true
					}
				})
				isNil := x.isNil(f, errV)
				if isNil == -1 {
					c.ob(!writes, rule, what+" failure", "%s fails but has overwritten the target: %s", what, x.pathStr(o))
					continue
				}
				if fails := x.failures(o.evs, f); len(fails) > 0 {
					c.ob(false, rule, what+" error", "%s reports success although %s failed: %s", what, fails[0].name, x.pathStr(o))
					continue
				}
				if isNil == 0 {
					f, _ = x.with(f, T.Eq(errV, T.Nil()), true)
				}
				evs, dst := x.decodeEvents(o.evs, src)
				if len(evs) == 0 {
					c.ob(false, rule, what+" decodes", "%s succeeds without decoding its input: %s", what, x.pathStr(o))
					continue
				}
				for i, e := range evs {
					c.ob(x.zeroObj(e.mem, dst[i]), rule, what+" leftovers", "%s decodes at %s into a variable that may hold parts of an earlier document: %s", what, x.where(e), x.pathStr(o))
					c.ob(x.isNil(f, e.res[len(e.res)-1]) == 1, rule, what+" decode error", "%s ignores the error of %s: %s", what, e.name, x.pathStr(o))
				}
				q := dst[0]
				qt := derefType(q.typ)
				dfa, dty := x.jfield(o.St.mem, q, qt, "data")
				if dfa == nil {
					c.ob(false, rule, what+" document", "the decoded document has no data member")
					continue
				}
				rtA, rtT := x.jfield(o.St.mem, dfa, dty, "resultType")
				rsA, rsT := x.jfield(o.St.mem, dfa, dty, "result")
				if rtA == nil || rsA == nil {
					c.ob(false, rule, what+" document", "the decoded document has no resultType/result members")
					continue
				}
				rt := x.loadMem(o.St.mem, rtA, rtT)
				rs := x.loadMem(o.St.mem, rsA, rsT)
				var cs *oneofCase
				for i := range promCases {
					if promCases[i].outer == outer && f.Eval(T.Eq(rt, T.Str(promCases[i].rtype))) == 1 {
						cs = &promCases[i]
					}
				}
				if cs == nil {
					c.ob(false, rule, what+" resultType", "%s accepts a document whose resultType is not one it knows: %s", what, x.pathStr(o))
					continue
				}
				how := x.tampered(o, q, evs[len(evs)-1])
				c.ob(how == "", rule, what+" alters the document", "%s %s before it is used: %s", what, how, x.pathStr(o))
				inner, idst := x.decodeEvents(o.evs, rs)
				if len(inner) != 1 {
					c.ob(false, rule, what+" result", "%s succeeds without decoding the result: %s", what, x.pathStr(o))
					continue
				}
				good[cs.rtype]++
				how = x.tampered(o, idst[0], inner[0])
				c.ob(how == "", rule, what+" alters the result", "%s %s before it is used: %s", what, how, x.pathStr(o))
				c.ob(x.zeroObj(inner[0].mem, idst[0]), rule, what+" leftovers", "%s decodes at %s into a variable that may hold parts of an earlier document: %s", what, x.where(inner[0]), x.pathStr(o))
				why := x.decodedResult(o, o.St.mem, *cs, x.LoadField(o.St.mem, target, outerT, "Result"), inner[0], idst[0])
				c.ob(why == "", rule, what+" "+cs.rtype, "%s (%s): %s (%s)", what, cs.rtype, why, x.pathStr(o))
			}
			for _, cs := range promCases {
				if cs.outer == outer {
					c.need(good[cs.rtype], 1, rule, what+" "+cs.rtype+" accepted")
				}
			}
		}
	}
	for _, dec := range []bool{false, true} {
		x := c.newX()
		m, fb, st := c.newMarshaler(x)
		rr := types.NewPointer(x.NamedType(lcv1, "ReadResponse"))
		v := x.iface(x.symOf("resp", rr), rr)
		what := "Unmarshal into another type"
		if dec {
			what = "Decode into another type"
			fn := x.Fn("pkg/marshaler", "*PromqlMarshaler", "NewDecoder")
			rd := x.params(fn)[1]
			o := x.single(x.Root(fn, st, []*Term{m, rd}, nil), "NewDecoder")
			for _, r := range c.rets(x, x.CallMethod(o.Vals[0], "Decode", []*Term{v}, o.St), rule, what) {
				var fe *Event
				n := 0
				for _, e := range r.evs {
					if methodIs(e, "NewDecoder") && stripIface(e.args[0]) == fb && e.args[1] == rd {
						fe = e
					}
					if methodIs(e, "Decode") && fe != nil && e.args[0] == fe.res[0] && e.args[1] == v && r.Vals[0] == e.res[0] {
						n++
					}
				}
				c.ob(n == 1, rule, what, "%s does not go to the fallback decoder: %s", what, x.pathStr(r))
			}
			continue
		}
		data := x.params(x.Fn("pkg/marshaler", "*PromqlMarshaler", "Unmarshal"))[1]
		for _, r := range c.rets(x, x.CallMethod(m, "Unmarshal", []*Term{data, v}, st), rule, what) {
			ok := false
			for _, e := range r.evs {
				if methodIs(e, "Unmarshal") && stripIface(e.args[0]) == fb && e.args[1] == data && e.args[2] == v {
					ok = r.Vals[0] == e.res[0] || x.isNil(r.St.facts, r.Vals[0]) != 0 && x.isNil(r.St.facts, r.Vals[0]) == x.isNil(r.St.facts, e.res[0])
				}
			}
			c.ob(ok, rule, what, "%s does not return the fallback's error: %s", what, x.pathStr(r))
		}
	}
}

// repeated calls a method on a fresh value and on one that an earlier call,
// with these arguments or with any others, has left different.
func (x *X) repeated(v *Term, name string, args []*Term, st *State) []*Outcome {
	call := func(st *State) []*Outcome { return x.CallMethod(v, name, args, st) }
	other := func(st *State) []*Outcome {
		var as []*Term
		for _, a := range args {
			t := a.typ
			if a.op == "mkiface" {
				t = types.NewInterfaceType(nil, nil)
			}
			as = append(as, x.symOf("earlier", t))
		}
		return x.CallMethod(v, name, as, st)
	}
	outs := call(st.clone())
	for _, s := range x.laterStates(st, call, other) {
		outs = append(outs, call(s)...)
	}
	return outs
}

// zeroObj: the object a points to is the zero value of its type.
func (x *X) zeroObj(m *Mem, a *Term) bool {
	t := derefType(a.typ)
	st := structOf(t)
	if st == nil {
		return isZeroTerm(x, x.loadMem(m, a, t))
	}
	for i := 0; i < st.NumFields(); i++ {
		if !x.zeroObj(m, x.T.FieldAddr(a, t, i)) {
			return false
		}
	}
	return true
}
