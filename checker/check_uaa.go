package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Only unexpired RS256 tokens signed by a current UAA key identify a caller",
		"Path-partitioned dataflow over the token reader and over the key selector it gives to the signature check, for an arbitrary token and arbitrary headers: what each accepting path established, where the returned context's members come from (scope loop included), that every failure returns an error and an empty context, and that no assertion can fail.", checkC26)
	register("C27", "Token keys are exactly those UAA last published, and refreshes are rate limited",
		"Path-partitioned dataflow over the key refresh for an arbitrary prior state: throttle before request, status and decode checks before any key is stored, per-key parse obligations for every store, coverage of the published keys and of the keys to forget, response body release.", checkC27)
}

// jsonField: the field of struct type t that JSON member key sets.
func jsonField(t types.Type, key string) string {
	s := structOf(derefType(t))
	if s == nil {
		s = structOf(t)
	}
	if s == nil {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if n := strings.Split(tag, ",")[0]; n == key || n == "" && strings.EqualFold(s.Field(i).Name(), key) {
			return s.Field(i).Name()
		}
	}
	return ""
}

// decodes lists the JSON decodings of a path: object, source, error.
type jsonDec struct {
	ev       *Event
	dst, src *Term
	err      *Term
}

func decodings(evs []*Event) (ds []jsonDec) {
	for _, e := range evs {
		if !isExtCall(e) {
			continue
		}
		switch e.name {
		case "(*encoding/json.Decoder).Decode":
			d := e.args[0]
			if d.op == "ret" && d.ev != nil && len(d.ev.args) == 1 {
				ds = append(ds, jsonDec{e, stripIface(e.args[1]), stripIface(d.ev.args[0]), e.res[0]})
			}
		case "encoding/json.Unmarshal":
			ds = append(ds, jsonDec{e, stripIface(e.args[1]), stripConv(e.args[0]), e.res[0]})
		}
	}
	return
}

// notBefore: the facts say a is not before b.
func (x *X) notBefore(f *Facts, a, b func(t *Term) bool) bool {
	ok := false
	f.each(func(t *Term, v bool) {
		if t.op != "pure" || !strings.HasSuffix(t.sym, "Before") || len(t.args) != 2 {
			return
		}
		if !v && a(t.args[0]) && b(t.args[1]) || v && b(t.args[0]) && a(t.args[1]) {
			ok = true
		}
	})
	return ok
}

func isNow(t *Term) bool {
	return t.op == "ret" && t.ev != nil && t.ev.name == "time.Now"
}

// isZeroStruct: every member of the struct value is its zero.
func (x *X) isZeroStruct(t *Term) bool {
	if t.op == "zero" {
		return true
	}
	if t.op != "struct" {
		return false
	}
	s := structOf(t.typ)
	if s == nil {
		return false
	}
	for i, a := range t.args {
		if a == x.T.Zero(s.Field(i).Type()) || x.isZeroStruct(a) {
			continue
		}
		if b, ok := a.BoolVal(); ok && !b {
			continue
		}
		if v, ok := a.StrVal(); ok && v == "" {
			continue
		}
		return false
	}
	return true
}

func checkC26(c *C) {
	const rule = "token validation"
	x := c.newX()
	T := x.T
	fn := x.Fn("internal/auth", "*UAAClient", "Read")
	ps := x.params(fn)
	st := x.newState()
	st.wfacts().Assume(T.Eq(ps[0], T.Nil()), false)
	hc := x.LoadField(st.mem, ps[0], x.NamedType(authPkg, "UAAClient"), "httpClient")
	st.wfacts().Assume(T.Eq(hc, T.Nil()), false)
	recv, token := ps[0], ps[1]
	ct := x.NamedType(authPkg, "Oauth2ClientContext")
	keys := x.FieldNamed(recv, x.NamedType(authPkg, "UAAClient"), "publicKeys")
	outs := c.rets(x, x.Root(fn, st, ps, nil), rule, "Read")
	selectors := map[*Term]*Event{}
	accepted, rejected, rolled := 0, 0, 0
	for _, o := range outs {
		f := o.St.facts
		var dec *Event
		for _, e := range o.evs {
			if isExtCall(e) && strings.HasSuffix(e.name, "jose2go.Decode") {
				dec = e
				if k := stripIface(e.args[1]); selectors[k] == nil {
					selectors[k] = e
				}
			}
		}
		switch x.isNil(f, o.Vals[1]) {
		case -1:
			rejected++
			if dec != nil && x.isNil(f, dec.res[2]) == -1 && !x.ownError(f, dec.res[2]) {
				rolled++
				var gos []*Event
				for _, e := range o.evs {
					if e.kind == EvGo {
						gos = append(gos, e)
					}
				}
				ok := x.refreshes(o, o.evs, recv)
				for _, g := range gos {
					all := len(g.sub) > 0
					for _, so := range g.sub {
						if !so.Panic && !x.refreshes(so, so.evs, recv) {
							all = false
						}
					}
					ok = ok || all
				}
				c.ob(ok, rule, "failed verification", "a token fails verification and the keys are not refreshed, so a key replaced under its old id is never learnt: %s", x.pathStr(o))
			}
			c.ob(x.isZeroStruct(o.Vals[0]), rule, "rejected context", "a rejected token still yields a caller (%s): %s", o.Vals[0], x.pathStr(o))
			continue
		case 0:
			c.ob(false, rule, "result", "whether the token is accepted is left open (%s): %s", o.Vals[1], x.pathStr(o))
			continue
		}
		accepted++
		if !c.ob(dec != nil && x.isNil(f, dec.res[2]) == 1, rule, "signature", "a token is accepted without its signature having been verified: %s", x.pathStr(o)) {
			continue
		}
		c.ob(derives(dec.args[0], token) && !derives(dec.args[0], dec.res[0]), rule, "signed token", "the verified token is not the caller's (%s): %s", dec.args[0], x.pathStr(o))
		var claims *Term
		for _, d := range decodings(o.evs) {
			if derives(d.src, dec.res[0]) && x.isNil(f, d.err) == 1 {
				claims = d.dst
			}
		}
		if !c.ob(claims != nil, rule, "claims", "a token is accepted without its payload having been decoded: %s", x.pathStr(o)) {
			continue
		}
		cty := derefType(claims.typ)
		ef, sf := jsonField(cty, "exp"), jsonField(cty, "scope")
		if !c.ob(ef != "" && sf != "", rule, "claim members", "the payload's exp and scope claims are not decoded") {
			continue
		}
		var ctx [3]*Term
		for i, n := range []string{"IsAdmin", "Token", "ExpiresAt"} {
			ctx[i] = x.FieldVal(o.Vals[0], ct, n)
		}
		isExp := func(t *Term) bool {
			if t == nil || t.op != "pure" || t.sym != "time.Unix" || len(t.args) != 2 {
				return false
			}
			s := t.args[0]
			for s.op == "conv" {
				s = s.args[0]
			}
			z, ok := t.args[1].IntVal()
			return ok && z == 0 && s.op == "init" && s.args[0] == x.FieldNamed(claims, cty, ef)
		}
		c.ob(isExp(ctx[2]), rule, "expiry member", "the returned expiry is not the token's exp claim (%s): %s", ctx[2], x.pathStr(o))
		c.ob(x.notBefore(f, isExp, isNow), rule, "expiry", "a token is accepted without having been found unexpired: %s", x.pathStr(o))
		c.ob(ctx[1] == token, rule, "token member", "the returned token is not the caller's (%s): %s", ctx[1], x.pathStr(o))
		why := x.anyScope(o, ctx[0], x.FieldNamed(claims, cty, sf))
		c.ob(why == "", rule, "admin member", "a caller's admin right is not exactly that of its scopes (%s): %s", why, x.pathStr(o))
	}
	c.need(accepted, 1, rule, "accepting path")
	c.need(rejected, 4, rule, "rejecting paths")
	c.need(rolled, 1, rule, "paths on which verification fails")

	// the selector of the verification key
	var sels []*Term
	for k := range selectors {
		sels = append(sels, k)
	}
	sort.Slice(sels, func(i, j int) bool { return sels[i].String() < sels[j].String() })
	good, misses := 0, 0
	typed := x.storesOnly("UAAClient", "publicKeys", "*crypto/rsa.PublicKey")
	c.ob(typed == "", rule, "stored keys", "the token keys can hold something other than RSA public keys by name: %s", typed)
	for _, k := range sels {
		e := selectors[k]
		if !c.ob(k.op == "closure" || k.op == "func", rule, "key selector", "the verification key is fixed, not selected by the token's headers (%s)", k) {
			continue
		}
		s2 := x.newState()
		s2.mem = e.mem.clone()
		s2.facts = e.facts.clone()
		sig := k.fn.Signature
		hd := x.symOf("headers", sig.Params().At(0).Type())
		pl := x.symOf("payload", sig.Params().At(1).Type())
		alg := T.mk("lookup", "", nil, hd, T.Str("alg"))
		for _, o := range c.retsNet(x, x.CallTerm(k, []*Term{hd, pl}, s2), rule, "key selector") {
			allEvents(o.evs, func(e *Event) {
				if e.kind == EvMay && e.name == "typeassert" {
					v := e.val
					ok := typed == "" && v.ev != nil && strings.HasPrefix(v.ev.name, "(*sync.Map).") || strings.Contains(v.String(), "rangekey:sync.Map") || strings.Contains(v.String(), "rangeval:sync.Map")
					c.ob(ok, rule, "header assertion in "+shortFn(e.fn), "a header of an unverified token can crash the process: an unchecked assertion of %s in %s", v, x.where(e))
				}
			})
			f := o.St.facts
			v := o.Vals[0]
			in := stripIface(v)
			if v.op == "mkiface" && !types.AssignableTo(v.args[0].typ, types.Universe.Lookup("error").Type()) {
				good++
				c.ob(v.args[0].typ.String() == "*crypto/rsa.PublicKey", rule, "key type", "the selector returns a %s as key: %s", v.args[0].typ, x.pathStr(o))
				rs := false
				f.each(func(t *Term, b bool) {
					if !b || t.op != "eq" {
						return
					}
					for i := 0; i < 2; i++ {
						l, r := t.args[i], stripIface(t.args[1-i])
						if s, ok := r.StrVal(); ok && s == "RS256" && strings.Contains(l.String(), alg.String()) && !strings.Contains(l.String(), "len(") {
							rs = true
						}
					}
				})
				c.ob(rs, rule, "algorithm", "a key is offered to a token whose algorithm is not known to be RS256: %s", x.pathStr(o))
				c.ob(x.loadedKey(o, in, keys, hd), rule, "key origin", "the key offered is not the one held under the token's kid header (%s): %s", in, x.pathStr(o))
				continue
			}
			isErr := v.op == "mkiface" || isErrorType(v.typ) && x.isNil(f, v) == -1 || in.typ != nil && isErrorType(in.typ) && x.isNil(f, in) == -1
			if kid := x.missedKey(o, keys); kid != nil {
				misses++
				c.ob(x.missRefreshed(o, keys, kid, recv), rule, "unknown key", "a token is rejected for an unknown key without the keys having been refreshed and looked up again: %s", x.pathStr(o))
			}
			c.ob(isErr, rule, "no key", "the selector returns %s, neither a key nor an error: %s", v, x.pathStr(o))
		}
	}
	c.need(good, 1, rule, "paths that select a key")
	c.need(misses, 1, rule, "paths on which the key is unknown")
}

// ownError: the error is one the key selector makes, not a failed
// verification.
func (x *X) ownError(f *Facts, err *Term) bool {
	own := false
	f.each(func(t *Term, v bool) {
		if v && t.op == "istype" && t.args[0] == err {
			own = true
		}
	})
	return own
}

// missedKey: the id under which the path found no key.
func (x *X) missedKey(o *Outcome, keys *Term) (kid *Term) {
	allEvents(o.evs, func(e *Event) {
		if isExtCall(e) && e.name == "(*sync.Map).Load" && e.args[0] == keys {
			kid = nil
			if o.St.facts.Eval(e.res[1]) == -1 {
				kid = e.args[1]
			}
		}
	})
	return
}

// missRefreshed: two failed lookups of the id with a refresh between them.
func (x *X) missRefreshed(o *Outcome, keys, kid, recv *Term) bool {
	missIn := func(f *Facts, evs []*Event, nilToo bool) (first, last int) {
		first, last = -1, -1
		for i, e := range evs {
			if !isExtCall(e) || e.name != "(*sync.Map).Load" || e.args[0] != keys || e.args[1] != kid {
				continue
			}
			miss := f.Eval(e.res[1]) == -1
			f.each(func(t *Term, b bool) {
				// a key that is nil is none
				if b && t.op == "eq" && (t.args[0].IsNil() || t.args[1].IsNil()) {
					for _, a := range t.args {
						a = stripIface(a)
						miss = miss || nilToo && (a == e.res[0] || a.op == "assert" && a.args[0] == e.res[0])
					}
				}
			})
			if miss {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		return
	}
	first, _ := missIn(o.St.facts, o.evs, true)
	_, last := missIn(o.St.facts, o.evs, false)
	if first >= 0 && last > first && x.refreshes(o, o.evs[first:last], recv) {
		return true
	}
	// the first of them in a loop that has gone round before
	for i, e := range o.evs {
		if e.kind != EvLoop || i > last || !x.wentRound(o.St.facts, e.loop) || len(e.loop.iters) == 0 {
			continue
		}
		ok := true
		for _, it := range e.loop.iters {
			m, _ := missIn(it.facts, it.events, true)
			so := &Outcome{St: x.newState()}
			so.St.mem, so.St.facts = it.mem, it.facts
			ok = ok && m >= 0 && x.refreshes(so, it.events[m:], recv)
		}
		if ok {
			return true
		}
	}
	return false
}

// wentRound: a loop-carried value shows that an iteration was completed.
func (x *X) wentRound(f *Facts, l *LoopInfo) bool {
	for _, p := range x.locals(l) {
		if in := x.initOf(p.sym); in != nil && in.IsConst() && f.Eval(x.T.Eq(p.sym, in)) == -1 {
			return true
		}
	}
	return false
}

// loadedKey: key is what the map held under headers["kid"].
func (x *X) loadedKey(o *Outcome, key, keys, hd *Term) bool {
	var ld *Event
	allEvents(o.evs, func(e *Event) {
		if isExtCall(e) && e.name == "(*sync.Map).Load" && e.args[0] == keys && derives(key, e.res[0]) {
			ld = e
		}
	})
	if ld == nil || o.St.facts.Eval(ld.res[1]) != 1 {
		return false
	}
	k := stripIface(ld.args[1])
	return strings.Contains(k.String(), "lookup("+hd.String()+", \"kid\")") && (k.op == "assert" || k.op == "lookup")
}

// storesOnly: every value stored in the map field anywhere has the type.
func (x *X) storesOnly(owner, field, typ string) string {
	bad := ""
	for _, fn := range x.sortedFns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || !strings.HasPrefix(f.String(), "(*sync.Map).") {
					continue
				}
				recv := call.Common().Args[0]
				if u, ok := recv.(*ssa.UnOp); ok {
					recv = u.X
				}
				fa, ok := recv.(*ssa.FieldAddr)
				if !ok || ssaFieldName(fa) != field || !strings.HasSuffix(derefType(fa.X.Type()).String(), "auth."+owner) {
					continue
				}
				switch f.Name() {
				case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
					args := call.Common().Args
					for i, a := range args[1:] {
						m, ok := a.(*ssa.MakeInterface)
						want := typ
						if i == 0 {
							want = "string"
						}
						if !ok || m.X.Type().String() != want {
							bad = x.posStr(ins.Pos())
						}
					}
				}
			}
		}
	}
	return bad
}

func ssaFieldName(fa *ssa.FieldAddr) string {
	return structOf(derefType(fa.X.Type())).Field(fa.Field).Name()
}

// badAddress: the path fails because no request can be formed.
func (x *X) badAddress(o *Outcome) bool {
	for _, e := range x.failures(o.evs, o.St.facts) {
		if e.name == "net/http.NewRequest" || e.name == "net/http.NewRequestWithContext" {
			return true
		}
	}
	return false
}

// retsNet: as rets, but an address that cannot form a request may end the
// process.
func (c *C) retsNet(x *X, outs []*Outcome, rule, what string) []*Outcome {
	var r []*Outcome
	for _, o := range outs {
		if !o.Panic || !x.badAddress(o) {
			r = append(r, o)
		}
	}
	return c.rets(x, r, rule, what)
}

// refreshes: the path asks for the keys or finds that it may not yet.
func (x *X) refreshes(o *Outcome, evs []*Event, recv *Term) bool {
	hit := false
	for _, e := range evs { // what a goroutine does is not done yet
		hit = hit || isHTTPDo(e)
	}
	ut := x.NamedType(authPkg, "UAAClient")
	return hit || x.throttled(o.St.facts, x.LoadField(o.St.mem, recv, ut, "lastQueryTime"), x.LoadField(o.St.mem, recv, ut, "minimumRefreshInterval"), true)
}

var adminScopes = []string{"doppler.firehose", "logs.admin"}

// anyScope: v is true exactly when some element of the slice at addr is an
// admin scope.
func (x *X) anyScope(o *Outcome, v, addr *Term) string {
	T := x.T
	var exits []*Event
	for _, e := range o.evs {
		if e.kind == EvLoopExit {
			exits = append(exits, e)
		}
	}
	elemOf := func(t *Term) bool {
		return t.op == "init" && t.args[0].op == "indexaddr" && t.args[0].args[0].op == "init" && t.args[0].args[0].args[0] == addr
	}
	// hit: f establishes that an element is an admin scope
	hit := func(f *Facts) bool {
		h := false
		f.each(func(t *Term, b bool) {
			if t.op != "eq" || !b {
				return
			}
			for i := 0; i < 2; i++ {
				s, ok := t.args[1-i].StrVal()
				if ok && elemOf(t.args[i]) && (s == adminScopes[0] || s == adminScopes[1]) {
					h = true
				}
			}
		})
		return h
	}
	miss := func(f *Facts, el *Term) bool {
		for _, s := range adminScopes {
			if f.Eval(T.Eq(el, T.Str(s))) != -1 {
				return false
			}
		}
		return true
	}
	var loop *LoopInfo
	for _, e := range o.evs {
		if e.kind != EvLoop {
			continue
		}
		for _, it := range e.loop.iters {
			it.facts.each(func(t *Term, b bool) {
				if t.op == "eq" && (elemOf(t.args[0]) || elemOf(t.args[1])) {
					loop = e.loop
				}
			})
		}
	}
	slice := x.loadMem(o.St.mem, addr, derefType(addr.typ))
	if b, ok := v.BoolVal(); ok {
		if b {
			if hit(o.St.facts) {
				return ""
			}
			return "set although no scope was matched"
		}
		if loop == nil {
			return "cleared without looking at the scopes"
		}
		cv, why := x.covers(loop, slice, exits)
		if cv == nil {
			return why
		}
		for _, it := range loop.iters {
			if !miss(it.facts, x.elemAt(it.mem, slice, cv.idx)) {
				return "cleared although a scope may be an admin's"
			}
		}
		return ""
	}
	if v.loop == nil || v.loop != loop {
		return "not decided by the scopes: " + v.String()
	}
	// where it is set, the rest need not be looked at
	set := o.St.facts.Eval(v) == 1
	cv, why := x.covers(loop, slice, exits)
	if cv == nil && !set {
		return why
	}
	if in := x.initOf(v); in == nil {
		return "no initial value"
	} else if b, ok := in.BoolVal(); !ok || b {
		return "initially " + in.String()
	}
	for _, it := range loop.iters {
		n := it.next[v]
		var el *Term
		if !set {
			el = x.elemAt(it.mem, slice, cv.idx)
		}
		if n == nil {
			n = v
		}
		for _, b := range []bool{true, false} {
			if n == v && b || set && !b {
				continue
			}
			g := it.facts.clone()
			if g.Eval(n) == 0 {
				g.Assume(n, b)
			} else if g.Eval(n) == 1 != b {
				continue
			}
			if g.bad {
				continue
			}
			switch {
			case g.Eval(v) == 1:
				if !b {
					return "is lost by a later scope"
				}
			case b && !hit(g):
				return "becomes " + n.String() + " in an iteration"
			case !b && (!miss(g, el) || n != v && g.Eval(v) != -1):
				return "a scope that may be an admin's is skipped or its effect lost"
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- refresh

func checkC27(c *C) {
	const rule = "key refresh"
	x := c.newX()
	T := x.T
	ut := x.NamedType(authPkg, "UAAClient")

	// where the keys come from
	cf := x.Fn("internal/auth", "", "NewUAAClient")
	cps := x.params(cf)
	cps[4] = T.Nil()
	for _, o := range x.Root(cf, x.newState(), cps, nil) {
		if o.Panic {
			continue
		}
		u := x.LoadField(o.St.mem, o.Vals[0], ut, "uaa")
		p := x.LoadField(o.St.mem, u, x.NamedType("net/url", "URL"), "Path")
		s, _ := p.StrVal()
		c.ob(derives(u, cps[0]) && strings.TrimPrefix(s, "/") == "token_keys", rule, "key address", "the token keys are not fetched from token_keys of the configured UAA (%s, %s)", u, p)
		hc := x.LoadField(o.St.mem, o.Vals[0], ut, "httpClient")
		c.ob(hc == cps[1], rule, "key client", "the token keys are not fetched with the configured client (%s)", hc)
	}

	fn := x.Fn("internal/auth", "*UAAClient", "RefreshTokenKeys")
	ps := x.params(fn)
	st := x.newState()
	recv := ps[0]
	st.wfacts().Assume(T.Eq(recv, T.Nil()), false)
	hc := x.LoadField(st.mem, recv, ut, "httpClient")
	st.wfacts().Assume(T.Eq(hc, T.Nil()), false)
	uaa := x.LoadField(st.mem, recv, ut, "uaa")
	st.wfacts().Assume(T.Eq(uaa, T.Nil()), false)
	last := x.FieldNamed(recv, ut, "lastQueryTime")
	minT := x.LoadField(st.mem, recv, ut, "minimumRefreshInterval")
	lastT := x.LoadField(st.mem, recv, ut, "lastQueryTime")
	keys := x.FieldNamed(recv, ut, "publicKeys")
	outs := x.Root(fn, st, ps, nil)
	stores, done := 0, 0
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind != EvMay || e.name == "nil" && e.val.op != "ret" {
				return
			}
			// the client returns a response with a body where it returns no
			// error, and ids are strings (see C26)
			v := e.val
			ok := v.ev != nil && isHTTPDo(v.ev) || v.op == "init" && v.args[0].op == "fieldaddr" && v.args[0].args[0].ev != nil && isHTTPDo(v.args[0].args[0].ev)
			ok = ok || strings.Contains(v.String(), "rangekey:sync.Map") || e.name == "nil" && v.ev != nil && x.isNil(e.facts, v) == -1
			c.ob(ok, rule, "crash in "+shortFn(e.fn), "what UAA answers can crash the process: %s of %s in %s", e.name, v, x.where(e))
		})
		f := o.St.facts
		if o.Panic {
			// only an address that cannot form a request may end the process
			c.ob(x.badAddress(o), rule, "panic", "refreshing the token keys may panic: %s", x.pathStr(o))
			continue
		}
		var dos, closes []*Event
		var marked, resp *Event
		for _, e := range o.evs {
			if isHTTPDo(e) {
				dos = append(dos, e)
				resp = e
			}
			if isExtCall(e) && (e.name == "sync/atomic.CompareAndSwapInt64" || e.name == "sync/atomic.StoreInt64") && e.args[0] == last && resp == nil {
				if v := e.args[len(e.args)-1]; v.op == "pure" && strings.HasSuffix(v.sym, "UnixNano") && isNow(v.args[0]) {
					marked = e
				}
			}
			if methodIs(e, "Close") || isExtCall(e) && strings.HasSuffix(e.name, ".Close") {
				closes = append(closes, e)
			}
		}
		if len(dos) == 0 {
			c.ob(x.throttled(f, lastT, minT, true), rule, "skip reason", "a refresh is skipped although none was made within the minimum interval: %s", x.pathStr(o))
			c.ob(x.touches(o.evs, keys) == nil, rule, "skip effect", "a skipped refresh changes the keys: %s", x.pathStr(o))
			continue
		}
		c.ob(len(dos) == 1, rule, "one request", "one refresh makes several requests: %s", x.pathStr(o))
		c.ob(x.throttled(f, lastT, minT, false) && marked != nil, rule, "rate limit", "UAA is asked for keys without honouring or recording the minimum interval: %s", x.pathStr(o))
		r := x.reqOf(resp)
		m, _ := r.method.StrVal()
		c.ob(m == "GET" && r.client == hc && r.urlStr != nil && derives(r.urlStr, uaa), rule, "request", "the keys are not requested with GET from the configured address: %s", x.pathStr(o))
		ok := x.isNil(f, resp.res[1]) == 1
		if x.isNil(f, resp.res[1]) != -1 {
			body := x.LoadField(resp.mem, resp.res[0], x.NamedType("net/http", "Response"), "Body")
			cl := false
			for _, e := range closes {
				if stripIface(e.args[0]) == body {
					cl = true
				}
			}
			c.ob(cl, rule, "body closed", "the key response is not closed: %s", x.pathStr(o))
		}
		status := T.Nil()
		if resp.res[0] != nil {
			status = x.LoadField(resp.mem, resp.res[0], x.NamedType("net/http", "Response"), "StatusCode")
		}
		ok = ok && f.Eval(T.Eq(status, T.Int(200))) == 1
		var list jsonDec
		for _, d := range decodings(o.evs) {
			if x.isNil(f, d.err) == 1 && derives(d.src, resp.res[0]) {
				list = d
			}
		}
		ok = ok && list.ev != nil
		if t := x.touches(o.evs, keys); t != nil {
			c.ob(ok, rule, "trusted answer", "keys are changed by an answer that failed, was not 200 or did not decode (%s): %s", x.posStr(t.pos), x.pathStr(o))
		}
		if x.isNil(f, o.Vals[0]) == -1 {
			continue
		}
		if !c.ob(ok && x.isNil(f, o.Vals[0]) == 1, rule, "success", "a refresh succeeds without a decoded 200 answer: %s", x.pathStr(o)) {
			continue
		}
		done++
		n, why := x.keySync(o, list, keys)
		stores += n
		c.ob(why == "", rule, "published keys", "a successful refresh does not leave exactly the published keys (%s): %s", why, x.pathStr(o))
	}
	// every stored key is the parsed key of the entry that names it
	seen := map[*Event]bool{}
	for _, o := range outs {
		x.withFacts(o, func(e *Event, f *Facts) {
			if !isExtCall(e) || e.name != "(*sync.Map).Store" || e.args[0] != keys || seen[e] {
				return
			}
			seen[e] = true
			why := x.parsedKey(e)
			c.ob(why == "", rule, "stored key", "a key is stored that is not the RSA key published under its id (%s)", why)
		})
	}
	c.need(done, 1, rule, "successful refresh")
	c.need(stores, 1, rule, "stored keys")

}

// withFacts visits the calls of a path, loop iterations included.
func (x *X) withFacts(o *Outcome, f func(e *Event, fs *Facts)) {
	allEvents(o.evs, func(e *Event) { f(e, e.facts) })
}

// throttled: the facts say the last refresh is (not) younger than the minimum.
func (x *X) throttled(f *Facts, last, min *Term, want bool) bool {
	ok := false
	f.each(func(t *Term, v bool) {
		if t.op != "pure" || !strings.HasSuffix(t.sym, "Before") && !strings.HasSuffix(t.sym, "lt") {
			return
		}
		if len(t.args) != 2 {
			return
		}
		a, b := t.args[0], t.args[1]
		due := func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "Add(") && derives(t, last) && derives(t, min)
		}
		if isNow(a) && due(b) && v == want {
			ok = true
		}
		if due(a) && isNow(b) && v == !want {
			ok = true
		}
	})
	return ok
}

// touches: the first event that changes the map.
func (x *X) touches(evs []*Event, mp *Term) (hit *Event) {
	allEvents(evs, func(e *Event) {
		if hit != nil || !isExtCall(e) || len(e.args) == 0 || e.args[0] != mp {
			return
		}
		switch e.name {
		case "(*sync.Map).Load", "(*sync.Map).Range":
		default:
			hit = e
		}
	})
	return
}

// parsedKey: a Store(keys, id, key) where key is the PEM-encoded RSA key of
// the entry whose id it is stored under.
func (x *X) parsedKey(e *Event) string {
	id, key := stripIface(e.args[1]), stripIface(e.args[2])
	if key.op != "assert" {
		return "not a checked RSA key: " + key.String()
	}
	p := key.args[0]
	if p.op != "ret" || p.ev == nil || p.ev.name != "crypto/x509.ParsePKIXPublicKey" || x.isNil(e.facts, p.ev.res[1]) != 1 {
		return "not a successfully parsed key: " + p.String()
	}
	var pem *Event
	walkTerm(p.ev.args[0], func(t *Term) {
		if t.op == "ret" && t.ev != nil && t.ev.name == "encoding/pem.Decode" {
			pem = t.ev
		}
	})
	if pem == nil || x.isNil(e.facts, pem.res[0]) != -1 {
		return "not a decoded PEM block"
	}
	v := stripConv(pem.args[0])
	if v.op != "init" || id.op != "init" || v.args[0].op != "fieldaddr" || id.args[0].op != "fieldaddr" || v.args[0].args[0] != id.args[0].args[0] {
		return "key and id come from different entries"
	}
	el := derefType(v.args[0].args[0].typ)
	if fieldName(v.args[0]) != jsonField(el, "value") || fieldName(id.args[0]) != jsonField(el, "kid") {
		return "the entry's value and kid members are mixed up"
	}
	return ""
}

// keySync: all published entries are stored and every other id is dropped.
func (x *X) keySync(o *Outcome, list jsonDec, keys *Term) (int, string) {
	lt := derefType(list.dst.typ)
	kf := jsonField(lt, "keys")
	if kf == "" {
		return 0, "the answer's keys are not decoded"
	}
	entries := x.LoadField(list.ev.mem, list.dst, lt, kf)
	for _, e := range o.evs {
		if e.kind == EvLoop {
			entries = x.LoadField(e.loop.pre, list.dst, lt, kf)
		}
	}
	exits := loopExits([]*Outcome{o})
	var old *Term // ids not yet published
	stored, dropped := 0, false
	for _, e := range o.evs {
		if e.kind != EvLoop {
			continue
		}
		l := e.loop
		for _, it := range l.iters {
			for _, d := range it.events {
				if d.kind == EvMapUpdate && d.name == "mapupdate" && d.args[0].op == "makemap" && strings.Contains(d.args[1].String(), "rangekey:sync.Map") && derives(d.args[1], keys) {
					old = d.args[0]
				}
			}
		}
	}
	if old == nil {
		return 0, "the ids held so far are not collected"
	}
	for _, e := range o.evs {
		if e.kind != EvLoop {
			continue
		}
		l := e.loop
		has := false
		for _, it := range l.iters {
			for _, d := range it.events {
				if isExtCall(d) && d.name == "(*sync.Map).Store" && d.args[0] == keys {
					has = true
				}
			}
		}
		if has {
			cv, why := x.covers(l, entries, exits)
			if cv == nil {
				return stored, why
			}
			for _, it := range l.iters {
				st, del := false, false
				var id *Term
				for _, d := range it.events {
					if isExtCall(d) && d.name == "(*sync.Map).Store" && d.args[0] == keys {
						st = true
						id = stripIface(d.args[1])
					}
				}
				for _, d := range it.events {
					if d.kind == EvMapUpdate && d.name == "delete" && d.args[0] == old && id != nil && d.args[1] == id {
						del = true
					}
				}
				if !st {
					return stored, "an entry is skipped"
				}
				if !del {
					return stored, "a published id is dropped afterwards"
				}
				stored++
			}
			continue
		}
		for _, it := range l.iters {
			for _, d := range it.events {
				if isExtCall(d) && d.name == "(*sync.Map).Delete" && d.args[0] == keys {
					k := stripIface(d.args[1])
					if k.op != "rangekey" || k.args[0] != old {
						return stored, "an id other than an unpublished one is dropped: " + k.String()
					}
					dropped = true
				} else if x.touches([]*Event{d}, keys) != nil {
					return stored, "keys are changed by " + d.name
				}
			}
		}
	}
	if stored == 0 {
		return 0, "no entry is stored"
	}
	if !dropped {
		return stored, "ids no longer published are kept"
	}
	return stored, ""
}
