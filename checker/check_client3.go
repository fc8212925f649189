package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C07", "OAuth2 client attaches, fetches and drops tokens correctly",
		"Typestate dataflow over the OAuth2 HTTP client built through its public constructor for the client-credentials and the password grant, with the token cell empty and with an arbitrary cached token; every abstract path of Do is compared with the token protocol (who gets which request, which fields, what is cached afterwards), and a lockset pass over the token cell.", checkC07)
}

// storesTo: field addresses stored on any path, loops and goroutines included.
func storesUnder(outs []*Outcome, root *Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvStore && e.addr != nil && rootOf(e.addr) == root && !seen[e.addr] {
				seen[e.addr] = true
				r = append(r, e.addr)
			}
		})
	}
	return r
}

// headerVal: constant-key header value at the time of the event.
func (x *X) headerVal(m *Mem, h *Term, key string) (*Term, bool) {
	v, ok := m.m[x.T.mk("mapelem", "", nil, h, x.T.Str(key))]
	if !ok {
		return nil, false
	}
	if els, ok := x.elems(m, v); ok && len(els) == 1 {
		return els[0], true
	}
	return v, true
}

// formOf: the url.Values whose encoding is the request body.
func (x *X) formOf(body *Term) (*Term, *Mem) {
	var q *Term
	var m *Mem
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ret" && t.ev != nil {
			if t.ev.name == "(net/url.Values).Encode" {
				q, m = t.ev.args[0], t.ev.mem
				return
			}
			for _, a := range t.ev.args {
				w(a)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(body)
	return q, m
}

func checkC07(c *C) {
	const rule = "oauth2"
	c.optionsPure("option", "Oauth2Option")
	str := types.Typ[types.String]
	for _, user := range []bool{false, true} {
		for _, cached := range []bool{false, true} {
			x := c.newX()
			T := x.T
			st := x.newState()
			addr, id, sec := x.symOf("oauth2Addr", str), x.symOf("client", str), x.symOf("clientSecret", str)
			usr, pw := x.symOf("username", str), x.symOf("userPassword", str)
			hc := x.symOf("httpClient", x.NamedType(modPath+"/pkg/client", "HTTPClient"))
			st.facts.Assume(T.Eq(hc, T.Nil()), false)
			ot := x.NamedType(modPath+"/pkg/client", "Oauth2Option")
			o1 := x.single(x.Root(x.Fn("pkg/client", "", "WithOauth2HTTPClient"), st, []*Term{hc}, nil), "WithOauth2HTTPClient")
			opts := []*Term{o1.Vals[0]}
			st = o1.St
			what := "client-credentials grant"
			if user {
				what = "password grant"
				st.wfacts().Assume(T.Eq(T.Len(usr), T.Int(0)), false)
				o2 := x.single(x.Root(x.Fn("pkg/client", "", "WithOauth2HTTPUser"), st, []*Term{usr, pw}, nil), "WithOauth2HTTPUser")
				opts = append(opts, o2.Vals[0])
				st = o2.St
			}
			o := x.single(x.Root(x.Fn("pkg/client", "", "NewOauth2HTTPClient"), st, []*Term{addr, id, sec, x.sliceOf(ot, opts...)}, nil), "NewOauth2HTTPClient")
			cl := o.Vals[0]
			st = o.St
			st.trace = nil
			do := x.Fn("pkg/client", "*Oauth2HTTPClient", "Do")
			ps := x.params(do)
			ps[0] = cl
			req := ps[1]
			outs := x.Root(do, st.clone(), ps, nil)
			var cell *Term
			for _, a := range storesUnder(outs, cl) {
				if isStringType(derefType(a.typ)) {
					if cell != nil && cell != a {
						x.giveUp("several string cells of the OAuth2 client are written by Do")
					}
					cell = a
				}
			}
			if cell == nil {
				c.ob(false, rule, what+" caching", "Do never stores a token in the OAuth2 client")
				continue
			}
			var tok *Term
			if cached {
				what += " with a cached token"
				tok = x.symOf("cachedToken", str)
				st.wfacts().Assume(T.Eq(T.Len(tok), T.Int(0)), false)
				x.storeMem(st.wmem(), cell, tok, str)
				outs = x.Root(do, st.clone(), ps, nil)
			}
			verify := func(outs []*Outcome, cached bool, tok *Term, what string) {
				c.noMay(x, outs, rule, what, "unchecked", "nilmap")
				rt := x.NamedType("net/http", "Request")
				h0 := x.LoadField(newMem(), req, rt, "Header")
				preset := T.mk("maphas", "", nil, h0, T.Str("Authorization"))
				_ = preset
				n := 0
				for _, o := range outs {
					if o.Panic {
						c.ob(false, rule, what+" panics", "Do may panic: %s", x.pathStr(o))
						continue
					}
					var data, toks []*Event
					allEvents(o.evs, func(e *Event) {
						if isHTTPDo(e) {
							c.ob(e.args[0] == hc, rule, what+" transport", "Do uses a client other than the configured one at %s", x.where(e))
							if e.args[len(e.args)-1] == req {
								data = append(data, e)
							} else {
								toks = append(toks, e)
							}
						}
					})
					for _, e := range o.evs {
						if e.kind == EvLoop {
							for _, it := range e.loop.iters {
								allEvents(it.events, func(q *Event) {
									c.ob(!isHTTPDo(q), rule, what+" repeats", "Do repeats requests in a loop at %s", x.where(q))
								})
							}
						}
					}
					isPreset, isAbsent := false, false
					for a, v := range o.St.facts.atoms {
						if a.op == "has" && a.args[0] == h0 {
							if s, ok := a.args[1].StrVal(); ok && s == "Authorization" {
								isPreset, isAbsent = v, !v
							}
						}
					}
					if !isPreset && !isAbsent {
						c.ob(false, rule, what+" preset header", "Do does not distinguish a pre-populated Authorization header: %s", x.pathStr(o))
						continue
					}
					n++
					end := x.loadMem(o.St.mem, cell, str)
					before := T.Str("")
					if cached {
						before = tok
					}
					if isPreset {
						ok := len(toks) == 0 && len(data) == 1 && o.Vals[0] == data[0].res[0] && o.Vals[1] == data[0].res[1]
						c.ob(ok, rule, what+" preset pass-through", "with a pre-populated Authorization header Do must just perform the request once and return its result: %s", x.pathStr(o))
						for _, e := range data {
							_, wrote := e.mem.m[T.mk("mapelem", "", nil, h0, T.Str("Authorization"))]
							c.ob(!wrote, rule, what+" preset untouched", "Do overwrites the caller's Authorization header at %s", x.where(e))
						}
						c.ob(x.same(o.St.facts, end, before), rule, what+" preset cache", "a request with its own Authorization header changes the cached token: %s", x.pathStr(o))
						continue
					}
					// token acquisition
					var have *Term
					if cached {
						c.ob(len(toks) == 0, rule, what+" reuse", "Do requests a new token although one is cached: %s", x.pathStr(o))
						have = tok
					} else {
						if len(toks) > 1 {
							c.ob(false, rule, what+" single token request", "Do makes %d token requests: %s", len(toks), x.pathStr(o))
							continue
						}
						if len(toks) == 1 {
							have = c.tokenRequest(x, o, toks[0], what, user, addr, id, sec, usr, pw)
						}
						if have == nil {
							c.ob(len(data) == 0, rule, what+" no token, no request", "Do sends the caller's request without a token: %s", x.pathStr(o))
							c.ob(x.isNil(o.St.facts, o.Vals[1]) == -1 && o.Vals[0].IsNil(), rule, what+" token failure reported", "Do does not report that no token could be obtained: %s", x.pathStr(o))
							c.ob(isZeroTerm(x, end), rule, what+" failed token cached", "Do caches %s although the token request failed: %s", end, x.pathStr(o))
							continue
						}
					}
					if len(data) != 1 {
						c.ob(false, rule, what+" request sent", "Do performs the caller's request %d times: %s", len(data), x.pathStr(o))
						continue
					}
					d := data[0]
					hv, _ := x.headerVal(d.mem, h0, "Authorization")
					c.ob(hv != nil && x.same(o.St.facts, hv, have), rule, what+" Authorization", "Do sends Authorization %v, want %s, at %s", hv, have, x.where(d))
					if len(toks) == 1 {
						c.ob(toks[0].id < d.id, rule, what+" order", "the token is requested after the caller's request: %s", x.pathStr(o))
					}
					resp, err := d.res[0], d.res[1]
					switch x.isNil(o.St.facts, err) {
					case -1:
						c.ob(o.Vals[0].IsNil() && x.isNil(o.St.facts, o.Vals[1]) == -1 || o.Vals[0] == resp && o.Vals[1] == err, rule, what+" transport error", "Do does not report the transport error: %s", x.pathStr(o))
					case 1:
						c.ob(o.Vals[0] == resp && x.isNil(o.St.facts, o.Vals[1]) == 1, rule, what+" response", "Do does not return the response: %s", x.pathStr(o))
						sc := x.respField(o.St.mem, resp, "StatusCode")
						lo, hi := T.Lt(sc, T.Int(200)), T.Lt(sc, T.Int(300))
						if f, ok := x.with(o.St.facts, lo, true); ok {
							c.ob(isZeroTerm(x, end), rule, what+" drop on failure", "the cached token survives a reply with a status below 200 (%s): %s", end, f)
						}
						if f, ok := x.with(o.St.facts, hi, false); ok {
							c.ob(isZeroTerm(x, end), rule, what+" drop on failure", "the cached token survives a reply with status 300 or above (%s): %s", end, f)
						}
						if f, ok := x.with(o.St.facts, lo, false); ok {
							if f, ok = x.with(f, hi, true); ok {
								c.ob(x.same(f, end, have), rule, what+" keep on success", "a successful reply changes the cached token to %s: %s", end, f)
							}
						}
					default:
						c.ob(false, rule, what+" response", "Do does not examine the outcome of the request: %s", x.pathStr(o))
					}
				}
				c.need(n, 4, rule, what+" paths")
			}
			verify(outs, cached, tok, what)
			// after earlier requests that left more than a token behind
			run := func(st *State) []*Outcome { return x.Root(do, st, ps, nil) }
			for _, s := range x.laterStatesBut(map[*Term]bool{cell: true}, st, run, x.earlierCall(do, cl)) {
				v := x.loadMem(s.mem, cell, str)
				has := !isZeroTerm(x, v)
				if has {
					s.wfacts().Assume(T.Eq(T.Len(v), T.Int(0)), false)
				}
				verify(run(s), has, v, what+" after earlier requests")
			}
		}
	}
	// lockset over the token cell, receiver arbitrary
	x := c.newX()
	x.watch = true
	do := x.Fn("pkg/client", "*Oauth2HTTPClient", "Do")
	ps := x.params(do)
	outs := x.Root(do, nil, ps, nil)
	cells := map[*Term]bool{}
	for _, a := range storesUnder(outs, ps[0]) {
		cells[a] = true
	}
	n := 0
	var common map[*Term]bool
	var at []string
	for _, o := range outs {
		allEvents(o.evs, func(e *Event) {
			isTok := isHTTPDo(e) && e.args[len(e.args)-1] != ps[1]
			if (e.kind == EvStore || e.kind == EvLoad) && cells[e.addr] || isTok {
				n++
				held := map[*Term]bool{}
				for l, w := range e.locks {
					if w > 0 {
						held[l] = true
					}
				}
				if len(held) == 0 {
					at = append(at, x.where(e))
				}
				if common == nil {
					common = held
					return
				}
				for l := range common {
					if !held[l] {
						delete(common, l)
					}
				}
			}
		})
		for l, w := range o.St.locks {
			c.ob(w == 0, "oauth2-lock", "lock released", "Do returns holding %s: %s", l, x.pathStr(o))
		}
	}
	c.ob(len(common) > 0, "oauth2-lock", "token cell", "the cached token is accessed, or fetched, without one common lock (unlocked: %s)", strings.Join(dedup(at), ", "))
	c.need(n, 4, "oauth2-lock", "accesses of the token cell")
}

func dedup(s []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, v := range s {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

// tokenRequest checks one token request; returns the Authorization value it
// yields, or nil when it failed on this path.
func (c *C) tokenRequest(x *X, o *Outcome, e *Event, what string, user bool, addr, id, sec, usr, pw *Term) *Term {
	const rule = "oauth2"
	T := x.T
	r := x.reqOf(e)
	if s, _ := r.method.StrVal(); true {
		c.ob(s == "POST", rule, what+" token method", "the token request uses %s at %s", r.method, x.where(e))
	}
	c.ob(r.base != nil && stripIface(r.base) == addr, rule, what+" token host", "the token request goes to %v at %s", r.base, x.where(e))
	p, _ := r.path.StrVal()
	c.ob(p == "/oauth/token", rule, what+" token path", "the token request uses path %s at %s", r.path, x.where(e))
	ct, _ := x.headerVal(e.mem, r.header, "Content-Type")
	cs := ""
	if ct != nil {
		cs, _ = ct.StrVal()
	}
	c.ob(strings.HasPrefix(cs, "application/x-www-form-urlencoded"), rule, what+" token content type", "the token request has Content-Type %v at %s", ct, x.where(e))
	form, fm := x.formOf(r.body)
	if form == nil {
		c.ob(false, rule, what+" token form", "the token request body is not an encoded form at %s", x.where(e))
	} else {
		want := map[string]*Term{"client_id": id, "grant_type": T.Str("client_credentials")}
		if user {
			want = map[string]*Term{"client_id": id, "client_secret": sec, "grant_type": T.Str("password"), "username": usr, "password": pw}
		}
		for k, w := range want {
			vs, ok := x.qval(fm, form, k)
			c.ob(ok && len(vs) == 1 && x.same(o.St.facts, vs[0], w), rule, what+" form "+k, "the token form has %s=%v, want %s, at %s", k, vs, w, x.where(e))
		}
		for _, k := range x.mapKeys(fm, form) {
			if k == "response_type" || !user && k == "client_secret" {
				continue
			}
			c.ob(want[k] != nil, rule, what+" form "+k, "the token form has an extra field %s at %s", k, x.where(e))
		}
	}
	if !user {
		ok := false
		u := x.LoadField(e.mem, r.url, x.NamedType("net/url", "URL"), "User")
		if u.op == "ret" && u.ev != nil && u.ev.name == "net/url.UserPassword" && u.ev.args[0] == id && u.ev.args[1] == sec {
			ok = true
		}
		for _, d := range o.evs {
			if d.kind == EvCall && d.name == "(*net/http.Request).SetBasicAuth" && d.id < e.id && d.args[0] == r.req && d.args[1] == id && d.args[2] == sec {
				ok = true
			}
		}
		c.ob(ok, rule, what+" client credentials", "the token request does not carry the client's credentials at %s", x.where(e))
	}
	resp, err := e.res[0], e.res[1]
	if x.isNil(o.St.facts, err) != 1 {
		return nil
	}
	sc := x.respField(o.St.mem, resp, "StatusCode")
	if o.St.facts.Eval(T.Eq(sc, T.Int(200))) != 1 {
		c.ob(o.St.facts.Eval(T.Eq(sc, T.Int(200))) == -1, rule, what+" token status", "a token reply is used whatever its status: %s", x.pathStr(o))
		return nil
	}
	body := x.respField(o.St.mem, resp, "Body")
	des, dst := x.decodeEvents(o.evs, body)
	if len(des) == 0 {
		return nil
	}
	last := len(des) - 1
	de := des[last].res
	if x.isNil(o.St.facts, de[len(de)-1]) != 1 {
		return nil
	}
	d := dst[last]
	field := func(tag string) *Term {
		s := structOf(derefType(d.typ))
		if s == nil {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if jsonTag(derefType(d.typ), s.Field(i).Name()) == tag {
				fa := T.FieldAddr(d, derefType(d.typ), i)
				return x.loadMem(o.St.mem, fa, derefType(fa.typ))
			}
		}
		return nil
	}
	tt, at := field("token_type"), field("access_token")
	if tt == nil || at == nil {
		c.ob(false, rule, what+" token reply", "the token reply is not decoded into token_type and access_token")
		return nil
	}
	return T.Concat(tt, T.Str(" "), at)
}
