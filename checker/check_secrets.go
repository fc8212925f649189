package main

// C49: secrets and tokens are only used to authenticate. An interprocedural
// taint analysis over the SSA form of the whole program: labels flow through
// values, local cells, fields (by struct type) and calls (by summaries of
// each function's parameters), from what holds a secret to what can show it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C49", "Secrets and tokens never reach logs, errors, replies or addresses",
		"taint: client secrets and user passwords given to the client's constructors and options, settings whose environment variable names a secret or password, access and refresh tokens in OAuth2 replies, and the Authorization header of requests are tracked through every function of the program, across calls, fields, closures, containers and formatting; none may reach a log call, a printed or written text, an error, a panic, a file, a metric, a reply, a request's address or a header other than Authorization, nor may a value be printed or encoded whole that holds one.",
		checkC49)
}

// a label is where a secret came from (a string), or a parameter whose
// callers decide.
type label interface{}

type labels map[label]bool

type taint struct {
	c      *C
	x      *X
	fns    []*ssa.Function
	vals   map[ssa.Value]labels // registers, and the cells of allocs, globals
	fields map[string]labels
	keys   map[string]labels // the keys of a sync.Map held in a field
	outs   map[*ssa.Function][]labels
	sinks  map[*ssa.Parameter]map[string]string // what shows a parameter: sink -> place
	bound  map[*ssa.Parameter]labels
	into   map[*ssa.Parameter]labels // what is put into the container or cell passed
	impls  map[string][]*ssa.Function
	taken  map[string][]*ssa.Function
	leaks  map[string]string
	nSinks map[ssa.Instruction]bool
	srcs   map[string]bool
	change bool
	final  bool
	fn     *ssa.Function
	rep    map[ssa.Value]ssa.Value // the cell a closure's free variable is
	rets   map[*ssa.Function][]*ssa.Return
}

func (l labels) has() bool { return len(l) > 0 }

func (t *taint) add(m labels, more labels) labels {
	for k := range more {
		if !m[k] {
			if m == nil {
				m = labels{}
			}
			m[k] = true
			t.change = true
		}
	}
	return m
}

// carries: can a value of this type spell out a text?
func carries(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Byte || u.Kind() == types.Rune || u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	case *types.Chan, *types.Signature:
		return false
	}
	switch typeKey(derefType(ty)) {
	case "time.Time", "time.Duration", "sync.Mutex", "sync.RWMutex":
		return false
	}
	return true
}

func (t *taint) src(what string) labels {
	t.srcs[what] = true
	return labels{what: true}
}

// fieldKey names a field of a struct type.
func fieldKey(ty types.Type, i int) string {
	st := structOf(derefType(ty))
	if st == nil || i >= st.NumFields() {
		return ""
	}
	d := derefType(ty)
	if n, ok := d.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + st.Field(i).Name()
	}
	return d.String() + "." + st.Field(i).Name()
}

// tagSecret: the tag of a field says it holds a secret.
func tagSecret(ty types.Type, i int) string {
	st := structOf(derefType(ty))
	if st == nil {
		return ""
	}
	tag := reflect.StructTag(st.Tag(i))
	j := strings.Split(tag.Get("json"), ",")[0]
	switch j {
	case "access_token", "refresh_token", "client_secret", "password":
		return "the " + j + " of an OAuth2 reply"
	}
	e := strings.Split(tag.Get("env"), ",")[0]
	if strings.Contains(e, "SECRET") || strings.Contains(e, "PASSWORD") {
		return "setting " + strings.TrimSpace(e)
	}
	return ""
}

func inRepoType(ty types.Type) bool {
	n, ok := derefType(ty).(*types.Named)
	if !ok {
		return true // unnamed
	}
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// field: what a field may hold.
func (t *taint) field(ty types.Type, i int, of labels) labels {
	out := labels{}
	if s := tagSecret(ty, i); s != "" {
		t.merge(out, t.src(s))
	}
	k := fieldKey(ty, i)
	switch k {
	case "net/http.Request.Header":
		t.merge(out, labels{"?the headers of a request": true})
		return out
	case "net/http.Request.URL", "net/url.URL.User":
		for l := range of {
			if s, ok := l.(string); ok && strings.HasPrefix(s, "?") && k == "net/url.URL.User" {
				l = s[1:]
			}
			out[l] = true
		}
		return out
	}
	switch typeKey(derefType(ty)) {
	case "net/http.Request", "net/url.URL":
		return out // nothing secret in the rest of it
	}
	if !inRepoType(ty) {
		for l := range of {
			if s, ok := l.(string); ok && strings.HasPrefix(s, "?") {
				continue // only some part of it
			}
			out[l] = true
		}
		return out
	}
	t.merge(out, t.resolve(t.fields[k], nil))
	t.merge(out, of)
	return out
}

func (t *taint) merge(to, from labels) {
	for l := range from {
		to[l] = true
	}
}

// resolve replaces parameters of other functions by what is passed for them.
func (t *taint) resolve(ls labels, keep *ssa.Function) labels {
	out := labels{}
	seen := map[label]bool{}
	var w func(l label)
	w = func(l label) {
		if seen[l] {
			return
		}
		seen[l] = true
		p, ok := l.(*ssa.Parameter)
		if !ok || keep != nil && inside(keep, p.Parent()) {
			out[l] = true
			return
		}
		for b := range t.bound[p] {
			w(b)
		}
	}
	for l := range ls {
		w(l)
	}
	return out
}

// inside: f is g or a function literal within it.
func inside(f, g *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if f == g {
			return true
		}
	}
	return false
}

func (t *taint) cell(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		r, ok := t.rep[v]
		if !ok {
			break
		}
		v = r
	}
	return v
}

func (t *taint) get(v ssa.Value) labels {
	switch p := v.(type) {
	case nil, *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Parameter:
		out := labels{}
		t.merge(out, t.vals[v])
		if carries(p.Type()) {
			out[p] = true
		}
		return out
	}
	return t.vals[t.cell(v)]
}

// load: what the cell at an address holds.
func (t *taint) load(a ssa.Value) labels {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return t.field(a.X.Type(), a.Field, t.get(a.X))
	case *ssa.IndexAddr:
		return t.get(a.X)
	}
	return t.get(a)
}

func (t *taint) set(v ssa.Value, ls labels) {
	if v == nil || !ls.has() {
		return
	}
	v = t.cell(v)
	t.vals[v] = t.add(t.vals[v], ls)
}

// put: data labelled ls is stored at an address, or in a container.
func (t *taint) put(a ssa.Value, ls labels, in ssa.Instruction) { t.putIn(a, ls, in, 0) }

func (t *taint) putIn(a ssa.Value, ls labels, in ssa.Instruction, depth int) {
	if !ls.has() || depth > 12 {
		return
	}
	depth++
	switch v := a.(type) {
	case *ssa.Parameter:
		t.into[v] = t.add(t.into[v], ls)
		t.vals[v] = t.add(t.vals[v], ls)
	case *ssa.FieldAddr:
		k := fieldKey(v.X.Type(), v.Field)
		switch {
		case k == "net/url.URL.User":
			t.putIn(v.X, t.part(ls), in, depth)
		case strings.HasPrefix(k, "net/url.URL."):
			t.sink(ls, in, "a request's address")
		case k == "net/http.Request.URL":
			t.putIn(v.X, t.part(ls), in, depth)
		case inRepoType(v.X.Type()):
			t.fields[k] = t.add(t.fields[k], ls)
		}
	case *ssa.IndexAddr:
		t.putIn(v.X, ls, in, depth)
	case *ssa.UnOp:
		t.set(v, ls)
		if v.Op == token.MUL {
			t.putIn(v.X, ls, in, depth)
		}
	case *ssa.Slice:
		t.set(v, ls)
		t.putIn(v.X, ls, in, depth)
	case *ssa.ChangeType:
		t.set(v, ls)
		t.putIn(v.X, ls, in, depth)
	case *ssa.MakeInterface:
		t.set(v, ls)
		t.putIn(v.X, ls, in, depth)
	case *ssa.TypeAssert:
		t.set(v, ls)
		t.putIn(v.X, ls, in, depth)
	case *ssa.Phi:
		if !t.vals[v].covers(ls) {
			t.set(v, ls)
			for _, e := range v.Edges {
				t.putIn(e, ls, in, depth)
			}
		}
	case nil, *ssa.Const:
	default:
		t.set(a, ls)
	}
}

func (l labels) covers(m labels) bool {
	for k := range m {
		if !l[k] {
			return false
		}
	}
	return true
}

// part: the labels of something a part of which is labelled.
func (t *taint) part(ls labels) labels {
	out := labels{}
	for l := range ls {
		if s, ok := l.(string); ok {
			l = "?" + strings.TrimPrefix(s, "?")
		}
		out[l] = true
	}
	return out
}

// whole: the labels of a rendering of something labelled.
func whole(ls labels) labels {
	out := labels{}
	for l := range ls {
		if s, ok := l.(string); ok {
			l = strings.TrimPrefix(s, "?")
		}
		out[l] = true
	}
	return out
}

// printed: what rendering a value of a type shows of its fields.
func (t *taint) printed(ty types.Type, depth int) labels {
	out := labels{}
	if depth > 3 {
		return out
	}
	if depth == 0 && typeKey(derefType(ty)) == "net/http.Request" {
		out["the headers of a request"] = true
		return out
	}
	if ms := types.NewMethodSet(ty); ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil {
		return out
	}
	u := ty.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		if depth > 0 {
			return out
		}
		u = p.Elem().Underlying()
		ty = p.Elem()
	}
	switch u := u.(type) {
	case *types.Slice:
		return t.printed(u.Elem(), depth+1)
	case *types.Struct:
		if !inRepoType(ty) {
			return out
		}
		for i := 0; i < u.NumFields(); i++ {
			if s := tagSecret(ty, i); s != "" {
				t.merge(out, t.src(s))
			}
			for l := range t.resolve(t.fields[fieldKey(ty, i)], nil) {
				if s, ok := l.(string); ok && !strings.HasPrefix(s, "?") {
					out[l] = true
				}
			}
			t.merge(out, t.printed(u.Field(i).Type(), depth+1))
		}
	}
	return out
}

// sink: ls is shown.
func (t *taint) sink(ls labels, in ssa.Instruction, how string) {
	t.nSinks[in] = true
	place := t.x.posStr(in.Pos())
	for l := range ls {
		switch s := l.(type) {
		case string:
			s = strings.TrimPrefix(s, "?")
			t.leaks[fmt.Sprintf("%s|%s", shortFn(in.Parent()), how)] = fmt.Sprintf("%s puts %s into %s at %s", shortFn(in.Parent()), s, how, place)
		case *ssa.Parameter:
			t.shows(s, how, fmt.Sprintf("%s (%s)", shortFn(in.Parent()), place))
		}
	}
}

func (t *taint) shows(p *ssa.Parameter, how, place string) {
	m := t.sinks[p]
	if m == nil {
		m = map[string]string{}
		t.sinks[p] = m
	}
	k := how + " in " + place
	if _, ok := m[k]; !ok {
		m[k] = how
		t.change = true
	}
}

func isHeader(ty types.Type) bool {
	k := typeKey(ty)
	return k == "net/http.Header" || k == "net/textproto.MIMEHeader"
}

func constStr(v ssa.Value) (string, bool) {
	for {
		switch u := v.(type) {
		case *ssa.ChangeType:
			v = u.X
			continue
		case *ssa.MakeInterface:
			v = u.X
			continue
		case *ssa.Const:
			if u.Value != nil && u.Value.Kind() == constant.String {
				return constant.StringVal(u.Value), true
			}
		}
		return "", false
	}
}

func authKey(v ssa.Value) bool {
	s, ok := constStr(v)
	return ok && textproto.CanonicalMIMEHeaderKey(s) == "Authorization"
}

func (t *taint) instr(in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL && carries(v.Type()) {
			t.set(v, t.load(v.X))
		}
	case *ssa.Field:
		if carries(v.Type()) {
			t.set(v, t.field(v.X.Type(), v.Field, t.get(v.X)))
		}
	case *ssa.FieldAddr:
		// a pointer into something partly labelled
		if isHeader(derefType(v.Type())) || typeKey(derefType(v.X.Type())) == "net/http.Request" {
			return
		}
	case *ssa.BinOp:
		if v.Op == token.ADD && carries(v.Type()) {
			t.set(v, t.get(v.X))
			t.set(v, t.get(v.Y))
		}
	case *ssa.MakeInterface:
		if carries(v.X.Type()) {
			t.set(v, t.get(v.X))
			if i, ok := v.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				t.set(v, t.printed(v.X.Type(), 0))
			}
		}
	case *ssa.Lookup:
		if isHeader(v.X.Type()) {
			if authKey(v.Index) {
				t.set(v, t.src("the Authorization header of a request"))
			}
			return
		}
		if s, ok := constStr(v.Index); ok {
			switch s {
			case "access_token", "refresh_token", "client_secret", "password":
				t.set(v, t.src("the "+s+" of an OAuth2 reply"))
			}
		}
		t.set(v, t.get(v.X))
	case *ssa.MapUpdate:
		if isHeader(v.Map.Type()) {
			if !authKey(v.Key) {
				t.sink(t.get(v.Value), in, "a header other than Authorization")
			}
			return
		}
		if carries(v.Value.Type()) {
			t.put(v.Map, t.get(v.Value), in)
		}
		if carries(v.Key.Type()) {
			t.put(v.Map, t.get(v.Key), in)
		}
	case *ssa.Store:
		if carries(v.Val.Type()) {
			t.put(v.Addr, t.get(v.Val), in)
		}
	case *ssa.Send:
		t.put(v.Chan, t.get(v.X), in)
	case *ssa.Panic:
		t.sink(whole(t.get(v.X)), in, "a panic")
	case *ssa.Return:
		o := t.outs[in.Parent()]
		if o == nil {
			o = make([]labels, len(v.Results))
			t.outs[in.Parent()] = o
		}
		for i, r := range v.Results {
			if carries(r.Type()) {
				o[i] = t.add(o[i], t.get(r))
			}
		}
	case *ssa.MakeClosure:
	case *ssa.Call:
		t.call(in, &v.Call, v)
	case *ssa.Go:
		t.call(in, &v.Call, nil)
	case *ssa.Defer:
		t.call(in, &v.Call, nil)
	case *ssa.Range:
		t.set(v, whole(t.get(v.X)))
	case ssa.Value:
		if !carries(v.Type()) {
			if _, tuple := v.Type().(*types.Tuple); !tuple {
				return
			}
		}
		if e, ok := v.(*ssa.Extract); ok {
			if _, isCall := e.Tuple.(*ssa.Call); isCall {
				return // set at the call
			}
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				t.set(v, t.get(*op))
			}
		}
	}
}

// result: result i of a call is labelled.
func (t *taint) result(v *ssa.Call, i int, ls labels) {
	if v == nil || !ls.has() {
		return
	}
	if tup, ok := v.Type().(*types.Tuple); ok {
		if i >= tup.Len() || !carries(tup.At(i).Type()) {
			return
		}
		for _, r := range *v.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				t.set(e, ls)
			}
		}
		return
	}
	if carries(v.Type()) {
		t.set(v, ls)
	}
}

func (t *taint) callees(com *ssa.CallCommon) []*ssa.Function {
	if com.IsInvoke() {
		return t.impls[com.Method.Name()]
	}
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	return t.taken[com.Signature().String()]
}

func (t *taint) call(in ssa.Instruction, com *ssa.CallCommon, v *ssa.Call) {
	args := com.Args
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range args {
				t.result(v, 0, t.get(a))
			}
		case "copy":
			t.put(args[0], t.get(args[1]), in)
		case "print", "println":
			for _, a := range args {
				t.sink(whole(t.get(a)), in, "printed text")
			}
		case "min", "max":
			for _, a := range args {
				t.result(v, 0, t.get(a))
			}
		}
		return
	}
	if com.IsInvoke() {
		t.invoked(in, com, v)
		for _, f := range t.callees(com) {
			if types.Implements(f.Signature.Recv().Type(), com.Value.Type().Underlying().(*types.Interface)) {
				t.enter(in, f, append([]ssa.Value{com.Value}, args...), v)
			}
		}
		return
	}
	for _, f := range t.callees(com) {
		g := f
		if m := boundTo(f); m != nil && inRepoFn(m) && len(m.Blocks) > 0 {
			t.enter(in, m, append([]ssa.Value{nil}, args...), v)
			continue
		}
		if !inRepoFn(f) || len(f.Blocks) == 0 {
			t.externalTo(in, f, args, v)
			continue
		}
		t.enter(in, g, args, v)
	}
}

// boundTo: the method a method value is made of.
func boundTo(f *ssa.Function) *ssa.Function {
	if !strings.HasSuffix(f.Name(), "$bound") {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				return ci.Call.StaticCallee()
			}
		}
	}
	return nil
}

// enter: a call of a function of the program.
func (t *taint) enter(in ssa.Instruction, f *ssa.Function, args []ssa.Value, v *ssa.Call) {
	caller := in.Parent()
	ps := f.Params
	n := len(args)
	if len(ps) < n {
		n = len(ps)
	}
	for i := 0; i < n; i++ {
		ls := t.get(args[i])
		if ls.has() {
			t.bound[ps[i]] = t.add(t.bound[ps[i]], ls)
			for k, how := range t.sinks[ps[i]] {
				place := k[strings.Index(k, " in ")+4:]
				for l := range ls {
					switch s := l.(type) {
					case string:
						t.leaks[fmt.Sprintf("%s|%s", place[:strings.Index(place, " (")], how)] = fmt.Sprintf("%s puts %s into %s (given at %s)", place, strings.TrimPrefix(s, "?"), how, t.x.posStr(in.Pos()))
					case *ssa.Parameter:
						t.shows(s, how, place)
					}
				}
			}
		}
		if o := t.into[ps[i]]; o.has() {
			t.put(args[i], t.subst(o, f, args, caller), in)
		}
	}
	for i, ls := range t.outs[f] {
		t.result(v, i, t.subst(ls, f, args, caller))
	}
}

// subst: labels of a callee, as its caller sees them.
func (t *taint) subst(ls labels, f *ssa.Function, args []ssa.Value, caller *ssa.Function) labels {
	out := labels{}
	for l := range ls {
		p, ok := l.(*ssa.Parameter)
		if !ok {
			out[l] = true
			continue
		}
		if p.Parent() == f {
			for i, q := range f.Params {
				if q == p && i < len(args) {
					t.merge(out, t.get(args[i]))
				}
			}
			continue
		}
		t.merge(out, t.resolve(labels{l: true}, caller))
	}
	return out
}

// stringPkgs: packages whose functions hand on the texts they are given.
func handsOn(pkg, name string) bool {
	switch pkg {
	case "strings", "bytes", "strconv", "net/url", "regexp", "bufio", "io", "io/ioutil", "html", "path", "unicode/utf8", "slices", "maps", "net/textproto", "text/template", "errors", "html/template":
		return true
	case "fmt":
		return strings.HasPrefix(name, "Sprint") || strings.HasPrefix(name, "Append")
	}
	return strings.HasPrefix(pkg, "encoding/")
}

// text: the labels of an argument when it is rendered.
func (t *taint) text(a ssa.Value) labels { return whole(t.get(a)) }

func (t *taint) invoked(in ssa.Instruction, com *ssa.CallCommon, v *ssa.Call) {
	name := com.Method.Name()
	var ls labels = labels{}
	for _, a := range com.Args {
		t.merge(ls, t.text(a))
	}
	key := typeKey(com.Value.Type())
	switch {
	case key == "net/http.ResponseWriter" && name == "Write":
		t.sink(ls, in, "a reply")
	case (name == "Write" || name == "WriteString") && key != "hash.Hash":
		t.sink(ls, in, "written text")
	case strings.HasPrefix(name, "Print") || strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") || strings.HasPrefix(name, "Log") || strings.HasPrefix(name, "Error") && len(com.Args) > 0 || strings.HasPrefix(name, "Warn") || strings.HasPrefix(name, "Info") || strings.HasPrefix(name, "Debug"):
		t.sink(ls, in, "a log")
	case strings.Contains(strings.ToLower(key), "metric"):
		t.sink(ls, in, "a metric")
	case name == "String" || name == "Error":
		t.result(v, 0, t.get(com.Value))
	}
}

func (t *taint) externalTo(in ssa.Instruction, f *ssa.Function, args []ssa.Value, v *ssa.Call) {
	pkg, name := "", f.Name()
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		recv = typeKey(derefType(r.Type()))
	}
	all := func(as []ssa.Value) labels {
		out := labels{}
		for _, a := range as {
			t.merge(out, t.text(a))
		}
		return out
	}
	rest := args
	if recv != "" && len(args) > 0 {
		rest = args[1:]
	}
	switch {
	case isHeader(recvType(f)):
		switch name {
		case "Get", "Values":
			if authKey(args[1]) {
				t.result(v, 0, t.src("the Authorization header of a request"))
			}
		case "Set", "Add":
			if !authKey(args[1]) {
				t.sink(all(args[2:]), in, "a header other than Authorization")
			}
		case "Clone":
			t.result(v, 0, t.get(args[0]))
		case "Write":
			t.sink(all(args[:1]), in, "written text")
		}
		return
	case recv == "net/http.Request" && name == "BasicAuth":
		t.result(v, 1, t.src("the password of a request"))
		return
	case recv == "net/http.Request" && (name == "Clone" || name == "WithContext"):
		t.result(v, 0, t.get(args[0]))
		return
	case pkg == "net/http/httputil" && strings.HasPrefix(name, "DumpRequest"):
		t.result(v, 0, t.src("the headers of a request"))
		return
	case pkg == "log" || strings.HasSuffix(pkg, "/grpclog") || pkg == "log/slog":
		if name != "New" && !strings.HasPrefix(name, "Set") {
			t.sink(all(rest), in, "a log")
		}
		return
	case pkg == "fmt" && (name == "Errorf"), pkg == "errors" && name == "New", strings.HasSuffix(pkg, "/errors") && (name == "Errorf" || name == "New" || strings.HasPrefix(name, "Wrap")), strings.HasSuffix(pkg, "grpc/status") && (strings.HasPrefix(name, "Error") || strings.HasPrefix(name, "New")):
		t.sink(all(args), in, "an error")
		return
	case pkg == "fmt" && strings.HasPrefix(name, "Print"):
		t.sink(all(args), in, "printed text")
		return
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"), pkg == "io" && name == "WriteString":
		t.written(in, args[0], all(args[1:]))
		return
	case pkg == "net/http" && name == "Error" && recv == "":
		t.sink(all(args[1:]), in, "a reply")
		return
	case pkg == "net/http" && name == "Redirect" && recv == "":
		t.sink(all(args[2:]), in, "a reply")
		return
	case pkg == "net/http" && recv == "" && name == "NewRequest":
		t.sink(all(args[1:2]), in, "a request's address")
		return
	case pkg == "net/http" && recv == "" && name == "NewRequestWithContext":
		t.sink(all(args[2:3]), in, "a request's address")
		return
	case pkg == "net/http" && recv == "" && (name == "Get" || name == "Post" || name == "PostForm" || name == "Head"):
		t.sink(all(args[:1]), in, "a request's address")
		return
	case recv == "net/http.Client" && (name == "Get" || name == "Post" || name == "PostForm" || name == "Head"):
		t.sink(all(args[1:2]), in, "a request's address")
		return
	case pkg == "os" && (name == "WriteFile" || name == "Setenv") || pkg == "io/ioutil" && name == "WriteFile":
		t.sink(all(args), in, "a file")
		return
	case recv == "os.File" && strings.HasPrefix(name, "Write"):
		t.sink(all(rest), in, "a file")
		return
	case pkg == "os/exec":
		t.sink(all(args), in, "a command line")
		return
	case strings.Contains(pkg, "metric") || pkg == "expvar":
		t.sink(all(rest), in, "a metric")
		return
	case strings.HasSuffix(recv, "/template.Template") && strings.HasPrefix(name, "Execute") && len(args) >= 3:
		t.written(in, args[1], all(args[2:]))
		return
	case recv == "encoding/json.Encoder" && name == "Encode":
		t.written(in, encoderOf(args[0]), all(rest))
		return
	case recv == "sync.Map":
		k := ""
		if fa, ok := args[0].(*ssa.FieldAddr); ok {
			k = fieldKey(fa.X.Type(), fa.Field)
		} else if u, ok := args[0].(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				k = fieldKey(fa.X.Type(), fa.Field)
			}
		}
		switch name {
		case "Store", "LoadOrStore", "Swap":
			t.keys[k] = t.add(t.keys[k], t.get(args[1]))
		case "Range":
			var g *ssa.Function
			switch cb := args[1].(type) {
			case *ssa.MakeClosure:
				g, _ = cb.Fn.(*ssa.Function)
			case *ssa.Function:
				g = cb
			}
			if g != nil && len(g.Params) > 0 {
				p := g.Params[0]
				t.vals[p] = t.add(t.vals[p], t.resolve(t.keys[k], in.Parent()))
			}
		}
		return
	case recv == "net/url.URL" && (name == "Redacted" || name == "Hostname" || name == "Port" || name == "Query" || name == "EscapedPath" || name == "RequestURI" || name == "IsAbs"):
		return
	case recv == "net/url.Userinfo" && name == "Username":
		return
	case pkg == "net/url" && recv == "" && (name == "UserPassword" || name == "User"):
		t.result(v, 0, all(args[len(args)-1:]))
		return
	}
	if !handsOn(pkg, name) {
		return
	}
	ls := all(args)
	if !ls.has() {
		return
	}
	if f.Signature.Recv() != nil {
		// what it is called on takes in what it is given
		if in := all(rest); in.has() && (isPtr(f.Signature.Recv().Type()) || recv == "net/url.Values") {
			if strings.HasPrefix(name, "Write") || name == "Set" || name == "Add" || name == "Reset" || name == "ReadFrom" {
				t.put(args[0], in, nil)
			}
		}
	} else if pkg == "io" && strings.HasPrefix(name, "Copy") {
		t.written(in, args[0], all(args[1:]))
	}
	n := f.Signature.Results().Len()
	for i := 0; i < n; i++ {
		if !isErrorType(f.Signature.Results().At(i).Type()) {
			t.result(v, i, ls)
		}
	}
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// encoderOf: what an encoder made on the spot writes to.
func encoderOf(e ssa.Value) ssa.Value {
	if c, ok := e.(*ssa.Call); ok && len(c.Call.Args) == 1 {
		return c.Call.Args[0]
	}
	return e
}

// written: text goes to a writer.
func (t *taint) written(in ssa.Instruction, w ssa.Value, ls labels) {
	for {
		switch u := w.(type) {
		case *ssa.MakeInterface:
			w = u.X
			continue
		case *ssa.ChangeInterface:
			w = u.X
			continue
		}
		break
	}
	switch typeKey(derefType(w.Type())) {
	case "bytes.Buffer", "strings.Builder":
		t.nSinks[in] = true
		t.put(w, ls, in)
		return
	case "net/http.ResponseWriter":
		t.sink(ls, in, "a reply")
		return
	}
	t.sink(ls, in, "written text")
}

func checkC49(c *C) {
	const rule = "taint"
	x := c.newX()
	t := &taint{c: c, x: x, vals: map[ssa.Value]labels{}, fields: map[string]labels{}, keys: map[string]labels{}, outs: map[*ssa.Function][]labels{},
		sinks: map[*ssa.Parameter]map[string]string{}, bound: map[*ssa.Parameter]labels{}, into: map[*ssa.Parameter]labels{}, impls: map[string][]*ssa.Function{},
		taken: map[string][]*ssa.Function{}, leaks: map[string]string{}, nSinks: map[ssa.Instruction]bool{}, srcs: map[string]bool{}, rep: map[ssa.Value]ssa.Value{}}
	for _, f := range x.sortedFns() {
		if f.Blocks == nil || strings.Contains(fnName(f), modPath+"/internal/testing") || strings.Contains(fnName(f), modPath+"/internal/end2end") || strings.Contains(fnName(f), "/examples/") {
			continue
		}
		t.fns = append(t.fns, f)
		x.fnsSeen[f] = true
		if f.Signature.Recv() != nil && f.Parent() == nil {
			t.impls[f.Name()] = append(t.impls[f.Name()], f)
		}
	}
	known := map[*ssa.Function]bool{}
	for _, f := range t.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						if i < len(mc.Bindings) && fv != mc.Bindings[i] && !strings.HasSuffix(g.Name(), "$bound") {
							t.rep[fv] = mc.Bindings[i]
						}
					}
				}
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee && !known[g] && inRepoFn(g) {
						known[g] = true
						sig := g.Signature.String()
						if r := g.Signature.Recv(); r != nil {
							continue
						}
						t.taken[sig] = append(t.taken[sig], g)
					}
				}
			}
		}
	}
	// the program's own interface to its secrets
	api := 0
	given := func(pkg, fn string, i int, what string) {
		p := x.pkgs[modPath+"/"+pkg]
		if p == nil {
			return
		}
		f := p.Func(fn)
		if f == nil || i >= len(f.Params) || !isStringType(f.Params[i].Type()) {
			return
		}
		api++
		t.vals[f.Params[i]] = t.add(t.vals[f.Params[i]], t.src(what))
	}
	given("pkg/client", "NewOauth2HTTPClient", 2, "the client secret")
	given("pkg/client", "WithOauth2HTTPUser", 1, "the user's password")
	given("internal/blackbox", "NewHttpEgressClient", 3, "the client secret")
	c.need(api, 3, rule, "secrets given to the client")
	for i := 0; i < 60; i++ {
		t.change = false
		for _, f := range t.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					t.instr(in)
				}
			}
		}
		if !t.change {
			break
		}
	}
	if t.change {
		x.giveUp("the flow of secrets does not settle")
	}
	var ins []string
	for in := range t.nSinks {
		ins = append(ins, shortFn(in.Parent()))
	}
	sort.Strings(ins)
	for _, f := range ins {
		c.ob(true, rule, f, "")
	}
	for _, k := range sortedKeys(t.leaks) {
		c.ob(false, rule, k, "%s", t.leaks[k])
	}
	c.need(len(ins), 40, rule, "places that show a text")
	for _, s := range sortedKeys(t.srcs) {
		c.samp = append(c.samp, "source: "+s)
	}
	c.need(len(t.srcs), 5, rule, "sources of secrets")
}
