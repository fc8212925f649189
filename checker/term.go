package main

// Hash-consed value terms: the value-numbering domain of the analysis.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	id   int
	op   string
	sym  string
	args []*Term
	typ  types.Type
	cv   constant.Value
	fn   *ssa.Function
	ev   *Event    // producing event, for call results
	loop *LoopInfo // for loop-carried values
	pos  token.Pos
	sel  string

	nonNil bool // of a package variable that is set once
}

type Terms struct {
	tab  map[string]*Term
	next int
	uniq int
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys[t] = k
	return k
}

// mk interns a structural term.
func (T *Terms) mk(op, sym string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(sym)
	b.WriteByte(0)
	// the type is part of identity only where it disambiguates
	switch op {
	case "const", "nil", "zero", "struct", "mkiface", "conv", "assert", "istype", "global", "func":
		b.WriteString(typeKey(typ))
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t := T.tab[k]; t != nil {
		return t
	}
	t := &Term{id: T.next, op: op, sym: sym, args: args, typ: typ}
	T.next++
	T.tab[k] = t
	return t
}

// fresh makes a term equal only to itself.
func (T *Terms) fresh(op, name string, typ types.Type, args ...*Term) *Term {
	T.uniq++
	t := &Term{id: T.next, op: op, sym: fmt.Sprintf("%s#%d", name, T.uniq), args: args, typ: typ}
	T.next++
	return t
}

func (T *Terms) Const(v constant.Value, typ types.Type) *Term {
	// constants are untyped for identity: 1 == int64(1)
	k := "K" + v.ExactString() + fmt.Sprint(v.Kind())
	if t := T.tab[k]; t != nil {
		return t
	}
	t := &Term{id: T.next, op: "const", sym: v.ExactString(), typ: typ, cv: v}
	T.next++
	T.tab[k] = t
	return t
}
func (T *Terms) Int(i int64) *Term { return T.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (T *Terms) Str(s string) *Term {
	return T.Const(constant.MakeString(s), types.Typ[types.String])
}
func (T *Terms) Bool(b bool) *Term { return T.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (T *Terms) Nil() *Term {
	if t := T.tab["NIL"]; t != nil {
		return t
	}
	t := &Term{id: T.next, op: "nil"}
	T.next++
	T.tab["NIL"] = t
	return t
}

func (t *Term) IsNil() bool { return t != nil && t.op == "nil" }
func (t *Term) IsConst() bool {
	return t != nil && t.op == "const"
}
func (t *Term) BoolVal() (bool, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) IntVal() (int64, bool) {
	if t != nil && t.op == "const" && t.cv.Kind() == constant.Int {
		i, ok := constant.Int64Val(t.cv)
		return i, ok
	}
	return 0, false
}
func (t *Term) FloatVal() (float64, bool) {
	if t.op != "const" || t.cv.Kind() != constant.Int && t.cv.Kind() != constant.Float {
		return 0, false
	}
	v, _ := constant.Float64Val(constant.ToFloat(t.cv))
	return v, true
}
func (t *Term) StrVal() (string, bool) {
	if t != nil && t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
func isInterface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}
func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Zero value of a type.
func (T *Terms) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return T.Bool(false)
		case u.Info()&types.IsString != 0:
			return T.Str("")
		case u.Info()&types.IsInteger != 0:
			return T.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return T.Const(constant.ToFloat(constant.MakeInt64(0)), t)
		}
		return T.Nil()
	case *types.Struct, *types.Array:
		return T.mk("zero", "", t)
	}
	return T.Nil()
}

func (t *Term) String() string { return t.str(0) }
func shortT(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	list := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		return t.sym
	case "nil":
		return "nil"
	case "zero":
		return shortT(t.typ) + "{}"
	case "param", "sym":
		return t.sym
	case "alloc":
		return "&" + t.sym
	case "init":
		if len(t.args) == 1 {
			a := t.args[0]
			if a.op == "fieldaddr" {
				return a.args[0].str(d+1) + "." + fieldName(a)
			}
			if a.op == "indexaddr" {
				return a.args[0].str(d+1) + "[" + a.args[1].str(d+1) + "]"
			}
			return "*" + a.str(d+1)
		}
	case "fieldaddr":
		return "&" + t.args[0].str(d+1) + "." + fieldName(t)
	case "func":
		return t.sym
	case "closure":
		return "closure(" + t.fn.Name() + ")"
	case "mkiface":
		return t.args[0].str(d)
	case "phi", "memphi":
		return t.sym
	case "struct":
		return shortT(t.typ) + "{" + list(t.args) + "}"
	}
	s := t.op
	if t.sym != "" {
		s += ":" + t.sym
	}
	if len(t.args) > 0 {
		s += "(" + list(t.args) + ")"
	}
	return s
}

func fieldName(a *Term) string {
	if a.op == "fieldaddr" {
		if i := strings.LastIndexByte(a.sym, '.'); i >= 0 {
			return a.sym[i+1:]
		}
	}
	return a.sym
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	return t.any(func(y *Term) bool { return y == x })
}
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(y *Term) bool {
		if y == nil || seen[y] {
			return false
		}
		seen[y] = true
		if f(y) {
			return true
		}
		for _, a := range y.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// maxID is the largest id below t (used to find terms created after a point).
func (t *Term) newerThan(id int) bool {
	return t.any(func(y *Term) bool { return y.id >= id })
}

// FieldAddr / load of opaque content.
func (T *Terms) FieldAddr(base *Term, st types.Type, i int) *Term {
	s := structOf(st)
	f := s.Field(i)
	name := "?"
	if n, ok := st.(*types.Named); ok {
		name = n.Obj().Name()
	}
	t := T.mk("fieldaddr", fmt.Sprintf("%s/%d.%s", name, i, f.Name()), types.NewPointer(f.Type()), base)
	return t
}

func (T *Terms) IndexAddr(base, idx *Term, elem types.Type) *Term {
	return T.mk("indexaddr", "", types.NewPointer(elem), base, idx)
}

func (T *Terms) Init(addr *Term, ver string) *Term {
	typ := types.Type(nil)
	if addr.typ != nil {
		typ = derefType(addr.typ)
	}
	if addr.op == "indexaddr" && len(addr.args) == 2 {
		if i, ok := addr.args[1].IntVal(); ok {
			if ps, ok := splitConst(addr.args[0]); ok && i >= 0 && i < int64(len(ps)) {
				return T.Str(ps[i])
			}
		}
	}
	return T.mk("init", ver, typ, addr)
}

func (T *Terms) Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return T.Bool(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return T.mk("not", "", types.Typ[types.Bool], t)
}

// linear splits an integer term into base + k.
func (T *Terms) linear(t *Term) (*Term, int64) {
	if i, ok := t.IntVal(); ok {
		return nil, i
	}
	if t.op == "+" {
		if k, ok := t.args[1].IntVal(); ok {
			b, k2 := T.linear(t.args[0])
			return b, k + k2
		}
	}
	return t, 0
}

func (T *Terms) plus(base *Term, k int64, typ types.Type) *Term {
	if base == nil {
		return T.Const(constant.MakeInt64(k), typ)
	}
	if k == 0 {
		return base
	}
	return T.mk("+", "", typ, base, T.Int(k))
}

func (T *Terms) BinOp(op token.Token, x, y *Term, xt, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return T.Eq(x, y)
	case token.NEQ:
		return T.Not(T.Eq(x, y))
	case token.LSS:
		return T.Lt(x, y)
	case token.GTR:
		return T.Lt(y, x)
	case token.LEQ:
		if isIntType(xt) || isStringType(xt) {
			return T.Not(T.Lt(y, x))
		}
		return T.mk("fle", "", rt, x, y)
	case token.GEQ:
		if isIntType(xt) || isStringType(xt) {
			return T.Not(T.Lt(x, y))
		}
		return T.mk("fle", "", rt, y, x)
	}
	if x.op == "const" && y.op == "const" {
		func() {
			defer func() { recover() }()
			switch op {
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
				v := constant.BinaryOp(x.cv, op, y.cv)
				if v.Kind() != constant.Unknown {
					x = T.Const(v, rt)
					y = nil
				}
			case token.QUO:
				o := op
				if isIntType(rt) {
					o = token.QUO_ASSIGN
				}
				v := constant.BinaryOp(x.cv, o, y.cv)
				if v.Kind() != constant.Unknown {
					x = T.Const(v, rt)
					y = nil
				}
			}
		}()
		if y == nil {
			return x
		}
	}
	if isStringType(rt) && op == token.ADD {
		return T.Concat(x, y)
	}
	if isIntType(rt) {
		switch op {
		case token.ADD:
			bx, kx := T.linear(x)
			by, ky := T.linear(y)
			if bx == nil {
				return T.plus(by, kx+ky, rt)
			}
			if by == nil {
				return T.plus(bx, kx+ky, rt)
			}
			a, b := bx, by
			if a.id > b.id {
				a, b = b, a
			}
			return T.plus(T.mk("sum", "", rt, a, b), kx+ky, rt)
		case token.SUB:
			bx, kx := T.linear(x)
			by, ky := T.linear(y)
			if by == nil {
				return T.plus(bx, kx-ky, rt)
			}
			if bx == by {
				return T.Const(constant.MakeInt64(kx-ky), rt)
			}
			if bx == nil {
				return T.plus(T.mk("neg", "", rt, by), kx-ky, rt)
			}
			return T.plus(T.mk("diff", "", rt, bx, by), kx-ky, rt)
		case token.MUL:
			a, b := x, y
			if a.id > b.id {
				a, b = b, a
			}
			return T.mk("*", "", rt, a, b)
		}
	}
	return T.mk(op.String(), "", rt, x, y)
}

// Concat flattens string concatenation.
func (T *Terms) Concat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == "concat" {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	var m []*Term
	for _, p := range out {
		if s, ok := p.StrVal(); ok {
			if s == "" {
				continue
			}
			if n := len(m); n > 0 {
				if s0, ok := m[n-1].StrVal(); ok {
					m[n-1] = T.Str(s0 + s)
					continue
				}
			}
		}
		m = append(m, p)
	}
	switch len(m) {
	case 0:
		return T.Str("")
	case 1:
		return m[0]
	}
	return T.mk("concat", "", types.Typ[types.String], m...)
}

func stripIface(t *Term) *Term {
	for t != nil && t.op == "mkiface" {
		t = t.args[0]
	}
	return t
}

// nonNil: terms that can never be nil.
func nonNilTerm(t *Term) bool {
	switch t.op {
	case "errval", "alloc", "func", "closure", "mkiface", "fieldaddr", "indexaddr", "global", "makemap", "makechan", "struct", "range", "const", "newobj", "bound":
		return true
	case "slice":
		return nonNilTerm(t.args[0])
	case "append":
		return len(t.args) > 1
	case "mkslice":
		return true
	}
	return t.nonNil
}

func (T *Terms) Eq(x, y *Term) *Term {
	if x == y {
		return T.Bool(true)
	}
	if x.op == "const" && y.op == "const" {
		if x.cv.Kind() == y.cv.Kind() || (x.cv.Kind() != constant.String && y.cv.Kind() != constant.String && x.cv.Kind() != constant.Bool && y.cv.Kind() != constant.Bool) {
			return T.Bool(constant.Compare(x.cv, token.EQL, y.cv))
		}
		return T.Bool(false)
	}
	if x.IsNil() && nonNilTerm(y) || y.IsNil() && nonNilTerm(x) {
		return T.Bool(false)
	}
	if x.op == "alloc" && y.op == "alloc" {
		return T.Bool(false)
	}
	// bool equality with constants
	if b, ok := y.BoolVal(); ok {
		if b {
			return x
		}
		return T.Not(x)
	}
	if b, ok := x.BoolVal(); ok {
		if b {
			return y
		}
		return T.Not(y)
	}
	// s == ""  <=>  len(s) == 0
	if s, ok := y.StrVal(); ok && s == "" {
		return T.Eq(T.Len(x), T.Int(0))
	}
	if s, ok := x.StrVal(); ok && s == "" {
		return T.Eq(T.Len(y), T.Int(0))
	}
	if isIntType(x.typ) || isIntType(y.typ) {
		bx, kx := T.linear(x)
		by, ky := T.linear(y)
		if bx == by {
			return T.Bool(kx == ky)
		}
		// normal form: b1 = b2 + k or base = const
		if bx == nil {
			bx, by, kx, ky = by, bx, ky, kx
		}
		if by == nil {
			return T.mk("eq", "", types.Typ[types.Bool], bx, T.Int(ky-kx))
		}
		if bx.id > by.id {
			bx, by, kx, ky = by, bx, ky, kx
		}
		return T.mk("eq", "", types.Typ[types.Bool], bx, T.plus(by, ky-kx, by.typ))
	}
	if x.IsNil() || (!y.IsNil() && x.id > y.id) {
		x, y = y, x
	}
	return T.mk("eq", "", types.Typ[types.Bool], x, y)
}

func (T *Terms) Lt(x, y *Term) *Term {
	if x == y {
		return T.Bool(false)
	}
	if x.op == "const" && y.op == "const" {
		return T.Bool(constant.Compare(x.cv, token.LSS, y.cv))
	}
	if isIntType(x.typ) || isIntType(y.typ) {
		bx, kx := T.linear(x)
		by, ky := T.linear(y)
		if bx == by {
			return T.Bool(kx < ky)
		}
		// normal form: x < y  as  lt(bx, by+k)
		if bx == nil {
			return T.mk("lt", "", types.Typ[types.Bool], T.Int(kx-ky), by)
		}
		return T.mk("lt", "", types.Typ[types.Bool], bx, T.plus(by, ky-kx, bx.typ))
	}
	return T.mk("lt", "", types.Typ[types.Bool], x, y)
}

func (T *Terms) Len(x *Term) *Term {
	switch x.op {
	case "const":
		if s, ok := x.StrVal(); ok {
			return T.Int(int64(len(s)))
		}
	case "pure":
		if ps, ok := splitConst(x); ok {
			return T.Int(int64(len(ps)))
		}
	case "nil":
		return T.Int(0)
	case "append":
		b := T.Len(x.args[0])
		base, k := T.linear(b)
		return T.plus(base, k+int64(len(x.args)-1), types.Typ[types.Int])
	case "mkslice":
		return x.args[0]
	case "slice":
		b := x.args[0]
		lo, hi := x.args[1], x.args[2]
		l := T.Int(0)
		if !lo.IsNil() {
			l = lo
		}
		var h *Term
		if !hi.IsNil() {
			h = hi
		} else if b.op == "alloc" && b.typ != nil {
			if a, ok := derefType(b.typ).Underlying().(*types.Array); ok {
				h = T.Int(a.Len())
			}
		}
		if h == nil {
			h = T.Len(b)
		}
		return T.BinOp(token.SUB, h, l, types.Typ[types.Int], types.Typ[types.Int])
	case "conv":
		if len(x.args) == 1 && x.args[0].typ != nil && (isStringType(x.typ) || isStringType(x.args[0].typ)) {
			if !isIntType(x.args[0].typ) {
				return T.Len(x.args[0])
			}
		}
	}
	return T.mk("len", "", types.Typ[types.Int], x)
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// Struct builds a struct value, recognising a field-wise copy of one value.
func (T *Terms) Struct(typ types.Type, fs []*Term) *Term {
	if len(fs) > 0 && fs[0].op == "field" && typeKey(fs[0].args[0].typ) == typeKey(typ) {
		v := fs[0].args[0]
		same := true
		for i, f := range fs {
			fa := T.FieldAddr(v, typ, i)
			if f.op != "field" || f.args[0] != v || f.sym != fa.sym {
				same = false
			}
		}
		if same {
			return v
		}
	}
	return T.mk("struct", "", typ, fs...)
}

// splitConst: the pieces of a constant text split by strings.Split.
func splitConst(t *Term) ([]string, bool) {
	if t.op != "pure" || t.sym != "strings.Split" || len(t.args) != 2 {
		return nil, false
	}
	a, ok1 := t.args[0].StrVal()
	b, ok2 := t.args[1].StrVal()
	return strings.Split(a, b), ok1 && ok2
}
