package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(c *callCtx) []exit

var intrinsics map[string]intrinsic

var purePrefixes = []string{
	"strings.", "strconv.", "net/url.QueryEscape", "net/url.PathEscape", "net/url.QueryUnescape", "net/url.PathUnescape", "path.", "math.", "math/bits.",
	"(time.Time).", "(time.Duration).", "time.Unix", "fmt.Sprint", "regexp.QuoteMeta", "unicode.", "encoding/hex.", "path/filepath.",
	"net/http.StatusText", "net/http.CanonicalHeaderKey", "google.golang.org/grpc/status.Code", "html.", "net.JoinHostPort",
	"(github.com/blang/semver.Version).", "time.Date", "google.golang.org/grpc/codes.", "(encoding/base64.", "(*encoding/base64.Encoding).", "github.com/golang/protobuf/proto.EnumName", "(github.com/influxdata/go-syslog.Message).", "slices.", "cmp.", "net/textproto.CanonicalMIMEHeaderKey", "errors.Is", "errors.Unwrap",
	"(github.com/prometheus/prometheus/promql.Value).Type", "(*github.com/prometheus/prometheus/pkg/labels.Matcher).Matches", "(*regexp.Regexp).ReplaceAll", "regexp.MustCompile", "github.com/prometheus/common/model.ParseDuration",
}
var notPure = map[string]bool{"strings.NewReader": true, "strings.NewReplacer": true, "fmt.Sprint": false}

func isPure(n string) bool {
	if notPure[n] {
		return false
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

var mutators = map[string]bool{
	"encoding/json.Unmarshal": true, "(*encoding/json.Decoder).Decode": true, "github.com/golang/protobuf/jsonpb.Unmarshal": true,
	"github.com/golang/protobuf/proto.Unmarshal": true, "(*github.com/golang/protobuf/jsonpb.Unmarshaler).Unmarshal": true, "github.com/golang/protobuf/jsonpb.UnmarshalString": true,
	"code.cloudfoundry.org/go-envstruct.Load": true, "fmt.Sscan": true, "fmt.Sscanf": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true,
	"sort.Strings": true, "sort.Ints": true, "sort.Stable": true, "container/heap.Init": true, "container/heap.Push": true, "container/heap.Pop": true, "container/heap.Fix": true,
	"runtime.ReadMemStats": true, "encoding/pem.Decode": false, "(*github.com/cloudfoundry/gosigar.Mem).Get": true,
	"math/rand.Shuffle": true, "(*math/rand.Rand).Shuffle": true, "github.com/grpc-ecosystem/grpc-gateway/runtime.PopulateQueryParameters": true,
	"(github.com/grpc-ecosystem/grpc-gateway/runtime.Decoder).Decode": true, "(github.com/grpc-ecosystem/grpc-gateway/runtime.Marshaler).Unmarshal": true,
	"(*github.com/grpc-ecosystem/grpc-gateway/runtime.JSONPb).Unmarshal": true,
	"(io.Reader).Read": true, "(io.ReadCloser).Read": true, "io.ReadFull": true,
}

func isMutator(n string) bool { return mutators[n] }

// patternIntrinsic handles families of functions.
func (x *X) patternIntrinsic(c *callCtx, fn *ssa.Function) ([]exit, bool) {
	// generated protobuf getters: plain field loads
	if c.mth != nil && c.mth.Pkg() != nil && len(c.args) == 1 && strings.HasPrefix(c.mth.Name(), "Get") {
		p := c.mth.Pkg().Path()
		if strings.HasSuffix(p, "rpc/logcache_v1") || strings.HasSuffix(p, "rpc/loggregator_v2") {
			recv := c.args[0]
			rt := c.sig.Recv()
			var t types.Type
			if rt != nil {
				t = derefType(rt.Type())
			} else if recv.typ != nil {
				t = derefType(recv.typ)
			}
			if s := structOf(t); s != nil {
				if recv.IsNil() {
					return c.ret(nil, x.T.Zero(c.resType(0))), true
				}
				fnm := strings.TrimPrefix(c.mth.Name(), "Get")
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == fnm {
						return c.ret(nil, x.loadMem(c.st.mem, x.T.FieldAddr(recv, t, i), s.Field(i).Type())), true
					}
				}
				if len(fn.Blocks) == 0 {
					if v := x.oneofKnown(c.st.mem, recv, t, fnm); v != nil {
						return c.ret(nil, v), true
					}
					return c.ret(nil, x.T.mk("oneof", fnm, c.resType(0), recv)), true
				}
			}
		}
	}
	n := c.name
	if strings.HasPrefix(n, "log.Panic") || strings.HasPrefix(n, "(*log.Logger).Panic") {
		x.emit(c.st, c.fr, &Event{kind: EvPanic, name: "panic", args: c.args, pos: c.pos})
		return []exit{{kind: xPanic, st: c.st, ptype: "panic", pos: c.pos}}, true
	}
	if strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "(*log.Logger).Fatal") || n == "os.Exit" || n == "runtime.Goexit" ||
		strings.HasPrefix(n, "google.golang.org/grpc/grpclog.Fatal") {
		ev := c.event()
		_ = ev
		x.emit(c.st, c.fr, &Event{kind: EvPanic, name: "exit", args: c.args, pos: c.pos})
		return []exit{{kind: xPanic, st: c.st, ptype: "exit", pos: c.pos}}, true
	}
	return nil, false
}

// oneofKnown: the payload fnm of an object whose oneof was assigned on this
// path, nil when it was not.
func (x *X) oneofKnown(m *Mem, recv *Term, t types.Type, fnm string) *Term {
	nt, ok := t.(*types.Named)
	s := structOf(t)
	if !ok || s == nil {
		return nil
	}
	wrapper := nt.Obj().Name() + "_" + fnm
	o, ok := nt.Obj().Pkg().Scope().Lookup(wrapper).(*types.TypeName)
	if !ok {
		return nil
	}
	ws := structOf(o.Type())
	if ws == nil || ws.NumFields() == 0 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		it, ok := s.Field(i).Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(types.NewPointer(o.Type()), it) {
			continue
		}
		v := x.loadMem(m, x.T.FieldAddr(recv, t, i), s.Field(i).Type())
		if v.IsNil() {
			return x.T.Zero(ws.Field(0).Type())
		}
		if v.op != "mkiface" || v.typ == nil {
			return nil
		}
		if types.Identical(v.typ, types.NewPointer(o.Type())) {
			return x.loadMem(m, x.T.FieldAddr(v.args[0], o.Type(), 0), ws.Field(0).Type())
		}
		return x.T.Zero(ws.Field(0).Type())
	}
	return nil
}

// concatFmt renders Sprintf with only %s %v %d verbs as a concatenation.
func (x *X) concatFmt(f string, args []*Term) *Term {
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, x.T.Str(f[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, x.T.Str(f[i:i+j]))
		}
		i += j
		if i+1 >= len(f) {
			return nil
		}
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			return nil
		}
		v := f[k]
		verb := f[i : k+1]
		i = k + 1
		if v == '%' && len(verb) == 2 {
			parts = append(parts, x.T.Str("%"))
			continue
		}
		if ai >= len(args) {
			return nil
		}
		a := args[ai]
		ai++
		if v == '*' || v == '[' || v == '%' {
			return nil
		}
		if len(verb) > 2 {
			v = 0
		}
		switch v {
		case 's', 'v':
			a0 := stripIface(a)
			if isStringType(a0.typ) || a0.op == "concat" {
				parts = append(parts, a0)
			} else if isIntType(a0.typ) && v == 'v' {
				parts = append(parts, x.itoa(a0))
			} else if a0.typ != nil && v == 's' && isByteSlice(a0.typ) {
				parts = append(parts, x.convert(a0, a0.typ, types.Typ[types.String]))
			} else {
				parts = append(parts, x.T.mk("pure", "fmt.str", types.Typ[types.String], a0))
			}
		case 'd':
			parts = append(parts, x.itoa(stripIface(a)))
		default:
			a0 := stripIface(a)
			// "%.3f" of a float is strconv.FormatFloat(v, 'f', 3, 64)
			if b, ok := basicOf(a0.typ); ok && b == types.Float64 && len(verb) == 4 && verb[1] == '.' && verb[3] == 'f' && '0' <= verb[2] && verb[2] <= '9' {
				parts = append(parts, x.T.mk("pure", "strconv.FormatFloat", types.Typ[types.String], a0, x.T.Int('f'), x.T.Int(int64(verb[2]-'0')), x.T.Int(64)))
				continue
			}
			parts = append(parts, x.T.mk("pure", "fmt.Sprintf", types.Typ[types.String], x.T.Str(verb), a0))
		}
	}
	if ai != len(args) {
		return nil
	}
	return x.T.Concat(parts...)
}

func basicOf(t types.Type) (types.BasicKind, bool) {
	if t == nil {
		return 0, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	return b.Kind(), true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (x *X) itoa(t *Term) *Term {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		return x.T.Str(t.cv.ExactString())
	}
	return x.T.mk("itoa", "", types.Typ[types.String], t)
}

// unixNano distributes over time addition.
func (x *X) unixNano(t *Term) *Term {
	if t.op == "pure" && t.sym == "(time.Time).Add" {
		return x.T.BinOp(token.ADD, x.unixNano(t.args[0]), t.args[1], types.Typ[types.Int64], types.Typ[types.Int64])
	}
	if t.op == "pure" && t.sym == "time.Unix" {
		if s, ok := t.args[0].IntVal(); ok && s == 0 {
			return t.args[1]
		}
	}
	return x.T.mk("pure", "UnixNano", types.Typ[types.Int64], t)
}

func load(c *callCtx, p *Term, t types.Type) *Term { return c.x.loadMem(c.st.mem, p, t) }

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(f intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = f
		}
	}
	// ---- errors
	errNew := func(c *callCtx) []exit {
		ev := c.event()
		args := c.x.flattenVariadic(c, c.args)
		if strings.HasPrefix(c.name, "google.golang.org/grpc") && len(args) > 0 {
			// a status of code OK is no error
			if k, ok := args[0].IntVal(); ok && k == 0 {
				return c.ret(ev, c.x.T.Nil())
			}
		}
		t := c.x.T.fresh("errval", shortName(c.name), c.resType(0), args...)
		t.ev = ev
		return c.ret(ev, t)
	}
	reg(errNew, "fmt.Errorf", "errors.New", "google.golang.org/grpc/status.Errorf", "google.golang.org/grpc/status.Error", "google.golang.org/grpc.Errorf", "github.com/grpc-ecosystem/grpc-gateway/runtime.NewServeMux")
	// ---- formatting
	reg(func(c *callCtx) []exit {
		x := c.x
		args := x.flattenVariadic(c, c.args)
		if f, ok := args[0].StrVal(); ok {
			if len(args) < 2 || args[len(args)-1].op != "slice" {
				if t := x.concatFmt(f, args[1:]); t != nil {
					return c.ret(nil, t)
				}
			}
		}
		return c.ret(nil, x.T.mk("pure", "fmt.Sprintf", c.resType(0), args...))
	}, "fmt.Sprintf")
	// strconv.AppendX(nil, v) holds the text of strconv.FormatX(v)
	app := func(c *callCtx) []exit {
		x, T := c.x, c.x.T
		text := types.Typ[types.String]
		a := c.args[1:]
		var v *Term
		switch n := strings.TrimPrefix(c.name, "strconv.Append"); n {
		case "Int":
			if b, ok := a[1].IntVal(); ok && b == 10 {
				v = x.itoa(a[0])
				break
			}
			v = T.mk("pure", "strconv.FormatInt", text, a...)
		case "Quote":
			v = T.mk("pure", "strconv.Quote", text, a...)
		default:
			v = T.mk("pure", "strconv.Format"+n, text, a...)
		}
		v = T.mk("conv", "", c.resType(0), v)
		if d := c.args[0]; !d.IsNil() && !x.isEmptyFresh(d) {
			v = T.mk("appendall", "", c.resType(0), d, v)
		}
		return c.ret(nil, v)
	}
	reg(app, "strconv.AppendFloat", "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendBool", "strconv.AppendQuote")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.itoa(c.args[0])) }, "strconv.Itoa")
	reg(func(c *callCtx) []exit {
		if b, ok := c.args[1].IntVal(); ok && b == 10 {
			return c.ret(nil, c.x.itoa(c.args[0]))
		}
		return c.ret(nil, c.x.T.mk("pure", c.name, c.resType(0), c.args...))
	}, "strconv.FormatInt", "strconv.FormatUint")
	// ---- time
	reg(func(c *callCtx) []exit {
		t := c.args[0]
		if t.op == "pure" && t.sym == "time.Unix" {
			if s, ok := t.args[0].IntVal(); ok && s == 0 {
				return c.ret(nil, t.args[1])
			}
		}
		return c.ret(nil, c.x.unixNano(t))
	}, "(time.Time).UnixNano")
	reg(func(c *callCtx) []exit {
		if c.args[0].op == "zero" {
			return c.ret(nil, c.x.T.Bool(true))
		}
		return c.ret(nil, c.x.T.mk("pure", "IsZero", types.Typ[types.Bool], c.args[0]))
	}, "(time.Time).IsZero")
	// a.Before(b) / b.After(a)
	reg(func(c *callCtx) []exit {
		return c.ret(nil, c.x.T.mk("pure", "Before", types.Typ[types.Bool], c.args[0], c.args[1]))
	}, "(time.Time).Before")
	reg(func(c *callCtx) []exit {
		return c.ret(nil, c.x.T.mk("pure", "Before", types.Typ[types.Bool], c.args[1], c.args[0]))
	}, "(time.Time).After")
	reg(func(c *callCtx) []exit {
		ev := c.event()
		r := c.x.T.fresh("ret", "time.Now", c.resType(0))
		r.ev = ev
		return c.ret(ev, r)
	}, "time.Now")
	// time.Since(t) = now - t
	reg(func(c *callCtx) []exit {
		ev := c.event()
		n := c.x.T.fresh("ret", "time.Now", c.args[0].typ)
		n.ev = ev
		return c.ret(ev, c.x.T.mk("pure", "(time.Time).Sub", c.resType(0), n, c.args[0]))
	}, "time.Since")
	// ---- mutexes
	lock := func(d int, w int) intrinsic {
		return func(c *callCtx) []exit {
			k := c.args[0]
			ev := &Event{kind: EvCall, name: c.name, args: c.args, pos: c.pos, defrd: c.defrd}
			if d > 0 {
				c.st.locks[k] += w
				c.x.emit(c.st, c.fr, ev)
			} else {
				c.x.emit(c.st, c.fr, ev)
				c.st.locks[k] -= w
				if c.st.locks[k] == 0 {
					delete(c.st.locks, k)
				}
			}
			return c.ret(ev)
		}
	}
	reg(lock(1, 1000), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(lock(-1, 1000), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(lock(1, 1), "(*sync.RWMutex).RLock")
	reg(lock(-1, 1), "(*sync.RWMutex).RUnlock")
	// ---- atomics
	atAdd := func(c *callCtx) []exit {
		x := c.x
		t := derefType(c.args[0].typ)
		old := load(c, c.args[0], t)
		nv := x.T.BinOp(12, old, c.args[1], t, t)
		x.storeMem(c.st.wmem(), c.args[0], nv, t)
		ev := c.event()
		return c.ret(ev, nv)
	}
	reg(atAdd, "sync/atomic.AddInt64", "sync/atomic.AddUint64", "sync/atomic.AddInt32", "sync/atomic.AddUint32")
	atLoad := func(c *callCtx) []exit {
		t := derefType(c.args[0].typ)
		ev := c.event()
		return c.ret(ev, load(c, c.args[0], t))
	}
	reg(atLoad, "sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32")
	atStore := func(c *callCtx) []exit {
		t := derefType(c.args[0].typ)
		c.x.storeMem(c.st.wmem(), c.args[0], c.args[1], t)
		ev := c.event()
		return c.ret(ev)
	}
	reg(atStore, "sync/atomic.StoreInt64", "sync/atomic.StoreUint64", "sync/atomic.StoreInt32", "sync/atomic.StoreUint32", "sync/atomic.StorePointer")
	// another goroutine may have stored a pointer: each load is a value of its own
	reg(func(c *callCtx) []exit {
		ev := c.event()
		return c.ret(ev, c.opaqueRes(ev)...)
	}, "sync/atomic.LoadPointer")
	// ---- url.Values / http.Header as maps of slices
	mtOf := func(c *callCtx) *types.Map {
		if c.args[0].typ != nil {
			if m, ok := c.args[0].typ.Underlying().(*types.Map); ok {
				return m
			}
		}
		return types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
	}
	canon := func(c *callCtx, k *Term) *Term {
		if strings.Contains(c.name, "net/http.Header") {
			if s, ok := k.StrVal(); ok {
				return c.x.T.Str(canonicalHeader(s))
			}
		}
		return k
	}
	reg(func(c *callCtx) []exit { // Set
		x := c.x
		mt := mtOf(c)
		v := x.T.mk("append", "", mt.Elem(), x.T.Nil(), c.args[2])
		x.mapStore(c.st.wmem(), c.args[0], canon(c, c.args[1]), v, x.T.Bool(true))
		ev := c.event()
		return c.ret(ev)
	}, "(net/url.Values).Set", "(net/http.Header).Set")
	reg(func(c *callCtx) []exit { // Add
		x := c.x
		mt := mtOf(c)
		k := canon(c, c.args[1])
		old, has := x.lookup(c.st.mem, c.args[0], k, mt)
		if b, ok := has.BoolVal(); ok && !b {
			old = x.T.Nil()
		}
		var v *Term
		if old.op == "append" {
			v = x.T.mk("append", "", mt.Elem(), append(append([]*Term(nil), old.args...), c.args[2])...)
		} else {
			v = x.T.mk("append", "", mt.Elem(), old, c.args[2])
		}
		x.mapStore(c.st.wmem(), c.args[0], k, v, x.T.Bool(true))
		ev := c.event()
		return c.ret(ev)
	}, "(net/url.Values).Add", "(net/http.Header).Add")
	reg(func(c *callCtx) []exit { // Get: the first value, "" when absent
		x := c.x
		mt := mtOf(c)
		v, has := x.lookup(c.st.mem, c.args[0], canon(c, c.args[1]), mt)
		ev := c.event()
		get := func() *Term {
			if els, ok := x.elems(c.st.mem, v); ok {
				if len(els) == 0 {
					return x.T.Str("")
				}
				return els[0]
			}
			return x.loadMem(c.st.mem, x.T.IndexAddr(v, x.T.Int(0), types.Typ[types.String]), types.Typ[types.String])
		}
		switch c.st.facts.Eval(has) {
		case -1:
			return c.ret(ev, x.T.Str(""))
		case 1:
			return c.ret(ev, get())
		}
		no := c.st.clone()
		c.st.wfacts().Assume(has, true)
		no.wfacts().Assume(has, false)
		g := get()
		return []exit{{kind: xReturn, vals: []*Term{g}, st: c.st, pos: c.pos}, {kind: xReturn, vals: []*Term{x.T.Str("")}, st: no, pos: c.pos}}
	}, "(net/url.Values).Get", "(net/http.Header).Get")
	reg(func(c *callCtx) []exit { // Del
		x := c.x
		mt := mtOf(c)
		x.mapStore(c.st.wmem(), c.args[0], canon(c, c.args[1]), x.T.Zero(mt.Elem()), x.T.Bool(false))
		ev := c.event()
		return c.ret(ev)
	}, "(net/url.Values).Del", "(net/http.Header).Del")
	// ---- net/http servers
	// The package functions serve through a server of their own.
	serve := func(c *callCtx) []exit {
		x := c.x
		sv := x.NamedType("net/http", "Server")
		o := x.T.fresh("alloc", "http.Server", types.NewPointer(sv))
		o.pos = c.pos
		h := c.args[1]
		x.storeMem(c.st.wmem(), x.FieldNamed(o, sv, "Handler"), h, h.typ2(sv, "Handler"))
		ev := c.event()
		ev.name = "(*net/http.Server)." + strings.TrimPrefix(c.name, "net/http.")
		ev.args = append([]*Term{o, c.args[0]}, c.args[2:]...)
		ev.method = nil
		return c.ret(ev, c.opaqueRes(ev)...)
	}
	reg(serve, "net/http.Serve", "net/http.ServeTLS")
	reg(func(c *callCtx) []exit {
		ev := c.event()
		r := c.opaqueRes(ev)
		r[0].nonNil = true
		return c.ret(ev, r...)
	}, "net/url.UserPassword", "net/url.User")
	// ---- context
	// a deadline so long after a fresh time.Now() is a timeout
	reg(func(c *callCtx) []exit {
		if d := c.args[1]; d.op == "pure" && d.sym == "(time.Time).Add" && d.args[0].ev != nil && d.args[0].ev.name == "time.Now" {
			for n := c.st.trace; n != nil && n.ev != nil; n = n.prev {
				if n.ev == d.args[0].ev {
					c.name = strings.TrimSuffix(c.name, "Deadline") + "Timeout"
					c.args = []*Term{c.args[0], d.args[1]}
					break
				}
				if n.ev.kind != EvCall || !isPure(n.ev.name) {
					break
				}
			}
		}
		return c.x.externalCall(c, nil)
	}, "context.WithDeadline", "golang.org/x/net/context.WithDeadline")
	// ---- net/http requests
	newReq := func(ctxArg bool) intrinsic {
		return func(c *callCtx) []exit {
			x := c.x
			a := c.args
			ev := c.event()
			rt := derefType(c.resType(0))
			o := x.T.fresh("newobj", "http.Request", c.resType(0))
			o.ev = ev
			m := c.st.wmem()
			ctxT := x.T.mk("background", "", nil)
			if ctxArg {
				ctxT = a[0]
				a = a[1:]
			}
			m.m[x.T.mk("ctxof", "", nil, o)] = ctxT
			x.storeMem(m, x.FieldNamed(o, rt, "Method"), a[0], types.Typ[types.String])
			ut := x.NamedType("net/url", "URL")
			u := x.T.fresh("newobj", "url.URL", types.NewPointer(ut), a[1])
			x.storeMem(m, x.FieldNamed(o, rt, "URL"), u, types.NewPointer(ut))
			h := x.T.fresh("makemap", "http.Header", x.NamedType("net/http", "Header"))
			x.storeMem(m, x.FieldNamed(o, rt, "Header"), h, h.typ)
			x.storeMem(m, x.FieldNamed(o, rt, "Body"), a[2], a[2].typ2(rt, "Body"))
			e := x.T.fresh("ret", "NewRequest.err", c.resType(1))
			e.ev = ev
			// success leaves a non-nil request, failure a nil one
			bad := c.st.clone()
			c.st.wfacts().Assume(x.T.Eq(e, x.T.Nil()), true)
			bad.wfacts().Assume(x.T.Eq(e, x.T.Nil()), false)
			ev.res = []*Term{o, e}
			return []exit{{kind: xReturn, vals: []*Term{o, e}, st: c.st, pos: c.pos}, {kind: xReturn, vals: []*Term{x.T.Nil(), e}, st: bad, pos: c.pos}}
		}
	}
	reg(newReq(false), "net/http.NewRequest")
	reg(newReq(true), "net/http.NewRequestWithContext")
	reg(func(c *callCtx) []exit { // WithContext / Clone: shallow copy with a new context
		x := c.x
		ev := c.event()
		rt := derefType(c.resType(0))
		o := x.T.fresh("newobj", "http.Request", c.resType(0), c.args[0])
		o.ev = ev
		m := c.st.wmem()
		s := structOf(rt)
		for i := 0; i < s.NumFields(); i++ {
			v := x.loadMem(m, x.T.FieldAddr(c.args[0], rt, i), s.Field(i).Type())
			m.m[x.T.FieldAddr(o, rt, i)] = v
		}
		m.m[x.T.mk("ctxof", "", nil, o)] = c.args[1]
		return c.ret(ev, o)
	}, "(*net/http.Request).WithContext", "(*net/http.Request).Clone")
	reg(func(c *callCtx) []exit {
		k := c.x.T.mk("ctxof", "", nil, c.args[0])
		if v, ok := c.st.mem.m[k]; ok {
			return c.ret(nil, v)
		}
		return c.ret(nil, c.x.T.mk("ctxof", "", c.resType(0), c.args[0]))
	}, "(*net/http.Request).Context")
	// ---- net/url
	reg(func(c *callCtx) []exit {
		x := c.x
		ev := c.event()
		o := x.T.fresh("newobj", "url.URL", c.resType(0), c.args[0])
		o.ev = ev
		e := x.T.fresh("ret", "url.Parse.err", c.resType(1))
		e.ev = ev
		bad := c.st.clone()
		c.st.wfacts().Assume(x.T.Eq(e, x.T.Nil()), true)
		bad.wfacts().Assume(x.T.Eq(e, x.T.Nil()), false)
		ev.res = []*Term{o, e}
		return []exit{{kind: xReturn, vals: []*Term{o, e}, st: c.st, pos: c.pos}, {kind: xReturn, vals: []*Term{x.T.Nil(), e}, st: bad, pos: c.pos}}
	}, "net/url.Parse", "net/url.ParseRequestURI")
	reg(func(c *callCtx) []exit {
		x := c.x
		ev := c.event()
		m := x.T.fresh("makemap", "url.Values", c.resType(0), c.args[0])
		m.ev = ev
		rq := x.LoadField(c.st.mem, c.args[0], derefType(c.args[0].typ), "RawQuery")
		if s, ok := rq.StrVal(); !ok || s != "" {
			c.st.wmem().opq[m] = "query"
			c.st.wmem().m[x.T.mk("parsedfrom", "", nil, m)] = rq
		}
		return c.ret(ev, m)
	}, "(*net/url.URL).Query")
	// http.HandlerFunc(f).ServeHTTP(w, r) = f(w, r)
	reg(func(c *callCtx) []exit {
		return c.x.callValue(c, c.args[0], c.args[1:])
	}, "(net/http.HandlerFunc).ServeHTTP")
	// semver comparisons reduce to one three-way comparison
	cmpOf := func(c *callCtx) *Term {
		a, b := c.args[0], c.args[1]
		if a.op == "struct" && b.op == "struct" && len(a.args) == 5 && a.args[3].IsNil() && b.args[3].IsNil() {
			r, known := int64(0), true
			for i := 0; i < 3 && r == 0 && known; i++ {
				m, ok1 := a.args[i].IntVal()
				n, ok2 := b.args[i].IntVal()
				if !ok1 || !ok2 {
					known = false
				} else if m < n {
					r = -1
				} else if m > n {
					r = 1
				}
			}
			if known {
				return c.x.T.Int(r)
			}
		}
		return c.x.T.mk("pure", "semver.Compare", types.Typ[types.Int], c.args[0], c.args[1])
	}
	sv := "(github.com/blang/semver.Version)."
	reg(func(c *callCtx) []exit { return c.ret(nil, cmpOf(c)) }, sv+"Compare")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Lt(cmpOf(c), c.x.T.Int(0))) }, sv+"LT")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Not(c.x.T.Lt(c.x.T.Int(0), cmpOf(c)))) }, sv+"LE", sv+"LTE")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Lt(c.x.T.Int(0), cmpOf(c))) }, sv+"GT")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Not(c.x.T.Lt(cmpOf(c), c.x.T.Int(0)))) }, sv+"GE", sv+"GTE")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Eq(cmpOf(c), c.x.T.Int(0))) }, sv+"EQ", sv+"Equals")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Not(c.x.T.Eq(cmpOf(c), c.x.T.Int(0)))) }, sv+"NE")
	// text accumulators
	reg(func(c *callCtx) []exit {
		sbAdd(c, c.args[0], c.x.T.mk("conv", "", types.Typ[types.String], c.args[1]))
		ev := c.event()
		return c.ret(ev, c.x.T.Len(c.args[1]), c.x.T.Nil())
	}, "(*strings.Builder).Write", "(*bytes.Buffer).Write")
	reg(func(c *callCtx) []exit {
		c.st.wmem().m[c.x.T.mk("bufof", "", strPtr, c.args[0])] = c.x.T.Str("")
		return c.ret(c.event())
	}, "(*strings.Builder).Reset", "(*bytes.Buffer).Reset")
	reg(func(c *callCtx) []exit {
		return c.ret(nil, c.x.T.mk("conv", "", c.resType(0), sbGet(c, c.args[0])))
	}, "(*bytes.Buffer).Bytes")
	reg(func(c *callCtx) []exit {
		sbAdd(c, c.args[0], c.args[1])
		ev := c.event()
		return c.ret(ev, c.x.T.Len(c.args[1]), c.x.T.Nil())
	}, "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString")
	reg(func(c *callCtx) []exit {
		b := c.args[1]
		s := c.x.T.mk("conv", "", types.Typ[types.String], b)
		if n, ok := b.IntVal(); ok {
			s = c.x.T.Str(string(rune(n)))
		}
		sbAdd(c, c.args[0], s)
		ev := c.event()
		return c.ret(ev, c.x.T.Nil())
	}, "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte")
	reg(func(c *callCtx) []exit { return c.ret(nil, sbGet(c, c.args[0])) }, "(*strings.Builder).String", "(*bytes.Buffer).String")
	reg(func(c *callCtx) []exit { return c.ret(nil, c.x.T.Len(sbGet(c, c.args[0]))) }, "(*strings.Builder).Len", "(*bytes.Buffer).Len")
	reg(func(c *callCtx) []exit { return c.ret(nil) }, "(*strings.Builder).Grow", "(*bytes.Buffer).Grow")
	// sync.Once.Do(f): at most once; analysed as run or not run
	reg(func(c *callCtx) []exit {
		x := c.x
		skip := c.st.clone()
		x.emit(skip, c.fr, &Event{kind: EvCall, name: "once-skip", args: c.args, pos: c.pos})
		ev := c.event()
		_ = ev
		c2 := *c
		x.inOnce++
		out := x.callValue(&c2, c.args[1], nil)
		x.inOnce--
		for i := range out {
			if out[i].kind == xReturn {
				out[i].vals = nil
			}
		}
		return append(out, exit{kind: xReturn, st: skip, pos: c.pos})
	}, "(*sync.Once).Do")
	// sync.Map.Range(f): arbitrary number of applications
	reg(func(c *callCtx) []exit {
		x := c.x
		ev := c.event()
		_ = ev
		x.nloop++
		info := &LoopInfo{id: x.nloop, fn: c.fr.fn, startT: x.T.next, mods: map[*Term]*Term{}, pre: c.st.mem, preF: c.st.facts, pos: c.pos}
		c.st.mem.shared = true
		c.st.fShare = true
		anyT := types.NewInterfaceType(nil, nil)
		exits := x.fixLoop(c.fr, info, Env{}, c.st, func(e2 Env, s2 *State) []exit {
			end := s2.clone()
			k := x.T.fresh("rangekey", "sync.Map", anyT, c.args[0])
			v := x.T.fresh("rangeval", "sync.Map", anyT, c.args[0], k)
			c2 := *c
			c2.st = s2
			c2.sig = c.args[1].typ.Underlying().(*types.Signature)
			rs := x.callValue(&c2, c.args[1], []*Term{k, v})
			var out []exit
			for _, r := range rs {
				if r.kind != xReturn {
					out = append(out, r)
					continue
				}
				t := r.vals[0]
				switch r.st.facts.Eval(t) {
				case 1:
					out = append(out, exit{kind: xBack, st: r.st, pos: c.pos})
				case -1:
					out = append(out, exit{kind: xLeave, st: r.st, pos: c.pos})
				default:
					s3 := r.st.clone()
					r.st.wfacts().Assume(t, true)
					s3.wfacts().Assume(t, false)
					out = append(out, exit{kind: xBack, st: r.st, pos: c.pos}, exit{kind: xLeave, st: s3, pos: c.pos})
				}
			}
			return append(out, exit{kind: xLeave, st: end, pos: c.pos})
		})
		var out []exit
		for _, e := range exits {
			switch e.kind {
			case xBack:
			case xLeave:
				x.emit(e.st, c.fr, &Event{kind: EvLoopExit, name: "loopexit", loop: info, pos: c.pos})
				out = append(out, exit{kind: xReturn, st: e.st, pos: c.pos})
			default:
				out = append(out, e)
			}
		}
		return out
	}, "(*sync.Map).Range")
}

func (t *Term) typ2(rt types.Type, f string) types.Type {
	s := structOf(rt)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	return t.typ
}

func canonicalHeader(s string) string {
	up := true
	b := []byte(s)
	for i, c := range b {
		if up && 'a' <= c && c <= 'z' {
			b[i] = c - 32
		} else if !up && 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

// ---------------------------------------------------------------- globals

type globInfo struct {
	done bool
	mem  *Mem
}

func (x *X) globalOf(addr *Term) *ssa.Global {
	for _, p := range x.pkgs {
		if strings.HasPrefix(addr.sym, p.Pkg.Path()+".") {
			if g, ok := p.Members[addr.sym[len(p.Pkg.Path())+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

var globMut, contentMut map[*ssa.Global]bool

// scanGlobals finds the package variables written (globMut), or whose
// referenced map/slice content may be written (contentMut), after package
// initialisation.
func (x *X) scanGlobals() {
	globMut = map[*ssa.Global]bool{}
	contentMut = map[*ssa.Global]bool{}
	var readOnly func(v ssa.Value, depth int) bool
	readOnly = func(v ssa.Value, depth int) bool {
		if depth > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.Index, *ssa.BinOp, *ssa.DebugRef, *ssa.If:
			case *ssa.UnOp:
			case *ssa.IndexAddr:
				if !readOnly(r, depth+1) {
					return false
				}
			case *ssa.FieldAddr:
				if !readOnly(r, depth+1) {
					return false
				}
			case *ssa.Slice:
				if !readOnly(r, depth+1) {
					return false
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
				if !readOnly(r.(ssa.Value), depth+1) {
					return false
				}
			case ssa.CallInstruction:
				c := r.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" || b.Name() == "append" && c.Args[0] != v {
						continue
					}
					return false
				}
				if f := c.StaticCallee(); f != nil && inRepoFn(f) {
					return false
				} else if f != nil && isMutator(fnName(f)) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for fn := range x.allFns() {
		if fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					gg, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.X == gg {
						if !readOnly(u, 0) {
							contentMut[gg] = true
						}
						continue
					}
					switch v := ins.(type) {
					case *ssa.FieldAddr:
						if readOnly(v, 0) {
							continue
						}
					case *ssa.IndexAddr:
						if readOnly(v, 0) {
							continue
						}
					case *ssa.Slice:
						if readOnly(v, 0) {
							continue
						}
					}
					globMut[gg] = true
				}
			}
		}
	}
}

// globalInit returns the initial value of a package variable that nothing
// outside package initialisation ever writes.
func (x *X) globalInit(addr *Term) *Term {
	g := x.globalOf(addr)
	if g == nil || strings.HasPrefix(g.Name(), "init$") {
		if g != nil {
			return x.T.Bool(false)
		}
		return nil
	}
	if globMut == nil {
		x.scanGlobals()
	}
	if globMut[g] {
		return nil
	}
	gi := x.globCache[g.Pkg]
	if gi == nil {
		gi = &globInfo{}
		x.globCache[g.Pkg] = gi
		in := g.Pkg.Func("init")
		if in != nil && in.Blocks != nil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(undecided); !ok {
							panic(r)
						}
					}
				}()
				was := x.inInit
				x.inInit = true
				defer func() { x.inInit = was }()
				outs := x.Root(in, x.newState(), nil, nil)
				var m *Mem
				n := 0
				for _, o := range outs {
					if !o.Panic {
						m = o.St.mem
						n++
					}
				}
				if n == 1 {
					gi.mem = m
				}
			}()
		}
		gi.done = true
	}
	if !gi.done || gi.mem == nil {
		return nil
	}
	mark := func(v *Term) {
		v.any(func(y *Term) bool {
			if isFreshObj(y) {
				if contentMut[g] {
					x.initMut[y] = true
				} else {
					x.initObj[y] = gi.mem
				}
			}
			return false
		})
	}
	if v, ok := gi.mem.m[addr]; ok {
		if w := stripIface(v); contentMut[g] && (w.op == "makemap" || w.op == "mkslice" || w.op == "append" && len(w.args) > 1) {
			// shared, and changed by whoever uses it
			sh := x.T.Init(addr, "")
			sh.nonNil = true
			return sh
		}
		mark(v)
		return v
	}
	et := derefType(g.Type())
	if structOf(et) != nil {
		v := x.loadMem(&Mem{m: gi.mem.m, ver: gi.mem.ver, opq: map[*Term]string{addr: "g"}}, addr, et)
		if v.op == "struct" {
			mark(v)
			return v
		}
	}
	return nil
}

// markInit: v was read from an object made by package initialisation; what it
// refers to was made there too.
func (x *X) markInit(v *Term, im *Mem) {
	switch v.op {
	case "mkiface", "struct", "slice", "conv", "tuple", "append":
		for _, y := range v.args {
			x.markInit(y, im)
		}
	}
	if isFreshObj(v) && !x.initMut[v] && x.initObj[v] == nil {
		if v.op == "alloc" && structOf(derefType(v.typ)) != nil && !x.storedInto(derefType(v.typ)) {
			x.initObj[v] = im
		} else {
			x.initMut[v] = true
		}
	}
}

var closedMemo map[string]bool

// neverClosed: no function of the repository closes a channel of this type.
func (x *X) neverClosed(t types.Type) bool {
	elem := func(t types.Type) string { return typeKey(t.Underlying().(*types.Chan).Elem()) }
	if closedMemo == nil {
		closedMemo = map[string]bool{}
		for fn := range x.allFns() {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							closedMemo[elem(ci.Common().Args[0].Type())] = true
						}
					}
				}
			}
		}
	}
	return !closedMemo[elem(t)]
}

var storedMemo map[string]bool

// storedInto: some function of the repository changes a value of type t that
// it did not make itself.
func (x *X) storedInto(t types.Type) bool {
	if storedMemo == nil {
		storedMemo = map[string]bool{}
		for fn := range x.allFns() {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					for a := s.Addr; a != nil; {
						switch v := a.(type) {
						case *ssa.FieldAddr:
							if _, own := v.X.(*ssa.Alloc); !own {
								storedMemo[typeKey(derefType(v.X.Type()))] = true
							}
							a = v.X
							continue
						case *ssa.Alloc, *ssa.IndexAddr, *ssa.Global:
						default:
							storedMemo[typeKey(derefType(v.Type()))] = true
						}
						break
					}
				}
			}
		}
	}
	return storedMemo[typeKey(t)]
}

var allFnsMemo map[*ssa.Function]bool

// allFns: every function of the repository, closures and methods included.
func (x *X) allFns() map[*ssa.Function]bool {
	if allFnsMemo != nil {
		return allFnsMemo
	}
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range x.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := x.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := x.prog.MethodValue(ms.At(i))
						if f != nil && inRepoFn(f) && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	allFnsMemo = out
	return out
}

var strPtr = types.NewPointer(types.Typ[types.String])

// sbGet: the text accumulated in a buffer.
func sbGet(c *callCtx, o *Term) *Term {
	k := c.x.T.mk("bufof", "", strPtr, o)
	if v, ok := c.st.mem.m[k]; ok {
		return v
	}
	if o.op == "alloc" && c.st.mem.opq[o] == "" {
		return c.x.T.Str("")
	}
	return c.x.T.mk("init", "", types.Typ[types.String], k)
}

func sbAdd(c *callCtx, o, s *Term) {
	k := c.x.T.mk("bufof", "", strPtr, o)
	c.st.wmem().m[k] = c.x.T.Concat(sbGet(c, o), s)
}

// isBuffer: a text accumulator handed out as an io.Writer.
func isBuffer(a *Term) bool {
	if a.op != "mkiface" || a.args[0].typ == nil {
		return false
	}
	n := a.args[0].typ.String()
	return n == "*bytes.Buffer" || n == "*strings.Builder"
}
