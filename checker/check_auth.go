package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

func init() {
	register("C23", "Proxy forwards a read only for an authorised source id",
		"Path-partitioned dataflow over the router the middleware builds and over its read handler for an arbitrary request: every registered route has a rule, and every path reaching the wrapped handler carries a validated token and an admin or an authorizer answer for exactly the path's source id; every other path answers 404 for one of the stated reasons.", checkC23)
	register("C24", "Proxy forwards a query only rewritten to source ids its caller may read",
		"Path-partitioned dataflow over the query handler for an arbitrary request: extraction, translation, per-id authorisation loop (coverage, filter and non-emptiness per iteration), rewriting and the forwarded URL; denials and bad-data documents.", checkC24)
	register("C25", "Proxy answers meta with only the caller's source ids",
		"Path-partitioned dataflow over the meta handler for an arbitrary request: validation precedes the fetch, the answer is the whole meta for admins and otherwise the loop-built intersection with the caller's available source ids; failures answer 404 or 502.", checkC25)
}

const authPkg = modPath + "/internal/auth"

// authScn is the middleware built through its constructor around a handler h.
type authScn struct {
	x                                    *X
	oauth, authz, metaF, extract, transl *Term
	h                                    *Term
	router                               *Term
	out                                  *Outcome
	routes                               []authRoute
	bad                                  []string
}

type authRoute struct {
	tmpl    string // with variable names removed
	vars    []string
	handler *Term
	ev      *Event
}

var muxVar = regexp.MustCompile(`\{([^{}:]*)(?::((?:[^{}]|\{[^{}]*\})*))?\}`)

func normTemplate(t string) (string, []string) {
	var vs []string
	n := muxVar.ReplaceAllStringFunc(t, func(m string) string {
		s := muxVar.FindStringSubmatch(m)
		vs = append(vs, strings.TrimSpace(s[1]))
		re := s[2]
		if re == "" {
			re = "[^/]+"
		}
		return "{" + re + "}"
	})
	return n, vs
}

func (c *C) newAuth() *authScn {
	x := c.newX()
	s := &authScn{x: x}
	T := x.T
	st := x.newState()
	fn := x.Fn("internal/auth", "", "NewCFAuthMiddlewareProvider")
	ps := x.params(fn)
	for _, p := range ps {
		st.wfacts().Assume(T.Eq(p, T.Nil()), false)
		n := ""
		if nt, ok := p.typ.(*types.Named); ok {
			n = nt.Obj().Name()
		}
		switch n {
		case "Oauth2ClientReader":
			s.oauth = p
		case "LogAuthorizer":
			s.authz = p
		case "MetaFetcher":
			s.metaF = p
		case "PromQLSourceIdExtractor":
			s.extract = p
		case "AppNameTranslator":
			s.transl = p
		}
	}
	o := x.single(x.Root(fn, st, ps, nil), "NewCFAuthMiddlewareProvider")
	st = o.St
	st.trace = nil
	s.h = x.symOf("h", x.NamedType("net/http", "Handler"))
	st.wfacts().Assume(T.Eq(s.h, T.Nil()), false)
	m := x.single(x.CallMethod(o.Vals[0], "Middleware", []*Term{s.h}, st), "Middleware")
	s.out = m
	s.router = stripIface(m.Vals[0])
	for _, e := range m.evs {
		if !isExtCall(e) || !strings.Contains(e.name, "gorilla/mux.") {
			continue
		}
		short := e.name[strings.LastIndex(e.name, ".")+1:]
		switch {
		case strings.HasSuffix(e.name, "mux.NewRouter"):
		case strings.Contains(e.name, "mux.Router).") && (short == "HandleFunc" || short == "Handle") && len(e.args) == 3:
			t, ok := e.args[1].StrVal()
			if !ok || e.args[0] != s.router {
				s.bad = append(s.bad, fmt.Sprintf("a route is registered elsewhere or for a computed path (%s, %s)", e.args[0], x.posStr(e.pos)))
				continue
			}
			n, vs := normTemplate(t)
			s.routes = append(s.routes, authRoute{n, vs, stripConv(stripIface(e.args[2])), e})
		default:
			s.bad = append(s.bad, fmt.Sprintf("%s changes what the router serves (%s)", e.name, x.posStr(e.pos)))
		}
	}
	return s
}

// request is one arbitrary request given to a route's handler.
type authReq struct {
	s        *authScn
	w, r     *Term
	url      *Term
	hdr, raw *Term
	outs     []*Outcome
}

func (c *C) serve(s *authScn, rt authRoute, rule string) *authReq {
	x, T := s.x, s.x.T
	st := s.out.St.clone()
	st.trace = nil
	q := &authReq{s: s}
	q.w = x.symOf("w", x.NamedType("net/http", "ResponseWriter"))
	q.r = x.symOf("r", types.NewPointer(x.NamedType("net/http", "Request")))
	st.wfacts().Assume(T.Eq(q.w, T.Nil()), false)
	st.wfacts().Assume(T.Eq(q.r, T.Nil()), false)
	q.url = x.LoadField(st.mem, q.r, x.NamedType("net/http", "Request"), "URL")
	st.wfacts().Assume(T.Eq(q.url, T.Nil()), false)
	q.hdr = x.LoadField(st.mem, q.r, x.NamedType("net/http", "Request"), "Header")
	q.raw = x.LoadField(st.mem, q.url, x.NamedType("net/url", "URL"), "RawQuery")
	var outs []*Outcome
	if rt.handler == s.h {
		// the wrapped handler itself is registered
		w := st.clone()
		ev := &Event{kind: EvCall, name: "(net/http.Handler).ServeHTTP", args: []*Term{s.h, q.w, q.r}, pos: rt.ev.pos, mem: w.mem, facts: w.facts}
		outs = []*Outcome{{St: w, evs: []*Event{ev}, Pos: rt.ev.pos}}
	} else if rt.handler.op == "closure" || rt.handler.op == "func" || rt.handler.fn != nil {
		outs = x.CallTerm(rt.handler, []*Term{q.w, q.r}, st)
	} else {
		outs = x.CallMethod(rt.handler, "ServeHTTP", []*Term{q.w, q.r}, st)
	}
	q.outs = c.rets(x, outs, rule, "handler of "+rt.tmpl)
	return q
}

// overrides judges the parameters a request is forwarded with, the map mp as
// encoded at enc: those it came with, without the ones from which the gateway
// would set a field that was authorised. The gateway sets field f from the
// parameters f (either spelling) and f[value]; where set says so, f itself is
// assigned afterwards.
func (p *authPath) overrides(mp *Term, enc *Event, fields []string, set bool) string {
	x := p.q.s.x
	if mp.op != "makemap" {
		return "they are not a parsed copy of its own"
	}
	copied := len(mp.args) == 0
	if !copied && mp.args[0] != p.q.url {
		return "they are another URL's"
	}
	// which spellings of a parameter set the field
	alias := func(k string) bool {
		for _, f := range append([]string{"source_id"}, fields...) {
			if k == f || strings.HasPrefix(k, f+"[") {
				return true
			}
		}
		return false
	}
	isKept := func(f *Facts, key *Term) bool { // the facts exclude every spelling
		for _, name := range fields {
			plain, brack := set, false
			f.each(func(t *Term, v bool) {
				if t.op == "eq" {
					for i := 0; i < 2; i++ {
						s, ok := t.args[1-i].StrVal()
						if !ok || t.args[i] != key {
							continue
						}
						if !v && s == name {
							plain = true
						}
						if v && !alias(s) {
							plain, brack = true, true
						}
					}
				}
				if t.op == "pure" && strings.HasSuffix(t.sym, "strings.HasPrefix") && t.args[0] == key && !v {
					if s, ok := t.args[1].StrVal(); ok {
						if strings.HasPrefix(name+"[", s) {
							brack = true
						}
						if strings.HasPrefix(name, s) {
							plain = true
						}
					}
				}
			})
			if !plain || !brack {
				return false
			}
		}
		return true
	}
	isAlias := func(f *Facts, key *Term) bool {
		is := false
		f.each(func(t *Term, v bool) {
			if !v {
				return
			}
			if t.op == "eq" {
				for i := 0; i < 2; i++ {
					if s, ok := t.args[1-i].StrVal(); ok && t.args[i] == key && alias(s) {
						is = true
					}
				}
			}
			if t.op == "pure" && strings.HasSuffix(t.sym, "strings.HasPrefix") && t.args[0] == key {
				if s, ok := t.args[1].StrVal(); ok && alias(s) {
					is = true
				}
			}
		})
		return is
	}
	cleaned := false
	for _, e := range p.o.evs {
		if e == enc {
			break
		}
		if e.kind == EvMapUpdate && e.args[0] == mp {
			if s, ok := e.args[1].StrVal(); !ok || !(set && s == "query") && !alias(s) {
				return "parameter " + e.args[1].String() + " is changed"
			}
		}
		if e.kind != EvLoop {
			continue
		}
		l := e.loop
		var full bool
		for _, ex := range p.o.evs {
			if ex.kind == EvLoopExit && ex.loop == l {
				ex.facts.each(func(t *Term, v bool) {
					if t.op == "rangeok" && !v && (t.args[0] == mp || copied && x.parsedFrom(t.args[0], p.q.url)) {
						full = true
					}
				})
			}
		}
		all := true
		for _, it := range l.iters {
			var src, key *Term
			it.facts.each(func(t *Term, v bool) {
				if t.op == "rangeok" && v {
					src = t.args[0]
				}
			})
			var ups []*Event
			for _, d := range it.events {
				if d.kind == EvMapUpdate && d.args[0] == mp || isExtCall(d) && len(d.args) > 1 && d.args[0] == mp && strings.HasPrefix(d.name, "(net/url.Values).") && !strings.HasSuffix(d.name, ".Get") {
					ups = append(ups, d)
				}
			}
			walkKey := func(t *Term) {
				if t.op == "rangekey" && t.args[0] == src {
					key = t
				}
			}
			it.facts.each(func(t *Term, v bool) { walkTerm(t, walkKey) })
			for _, d := range ups {
				walkTerm(d.args[1], walkKey)
			}
			if len(ups) > 0 && (src == nil || key == nil || !full) {
				return "they are changed by a loop that does not visit each of them"
			}
			if src == nil || src != mp && !(copied && x.parsedFrom(src, p.q.url)) {
				all = false
				continue
			}
			kept := src == mp
			for _, d := range ups {
				del := d.name == "delete" || strings.HasSuffix(d.name, ").Del")
				switch {
				case d.args[1] != key:
					return "another parameter than the one looked at is changed"
				case del && src == mp:
					kept = false
				case !del && copied && src != mp && d.kind == EvMapUpdate && d.val.op == "rangeval" && d.val.args[1] == key:
					kept = true
				default:
					return "a parameter is changed"
				}
			}
			switch {
			case kept && (key == nil || !isKept(it.facts, key)):
				all = false
			case !kept && !isAlias(it.facts, key):
				return "a parameter that overrides nothing is dropped"
			}
		}
		if all && full && len(l.iters) > 0 {
			cleaned = true
		}
	}
	if !cleaned {
		return "not every spelling of " + strings.Join(fields, ", ") + " is dropped"
	}
	return ""
}

// parsedFrom: m is the parsed query of the URL.
func (x *X) parsedFrom(m, url *Term) bool {
	return m.op == "makemap" && len(m.args) == 1 && m.args[0] == url
}

// ---------------------------------------------------------------- queries

// authOf: what a path did to identify the caller.
type authPath struct {
	q      *authReq
	o      *Outcome
	f      *Facts
	ws     []respWrite
	serves []*Event
	token  *Term
	read   *Event // the token's validation
	admin  *Term
}

func (q *authReq) isToken(t *Term) bool {
	return t != nil && t.String() == fmt.Sprintf("lookup(%s, \"Authorization\")[0]", q.hdr)
}

func (q *authReq) path(o *Outcome) *authPath {
	x := q.s.x
	p := &authPath{q: q, o: o, f: o.St.facts}
	p.ws, _ = x.respWrites(o.evs, q.w)
	allEvents(o.evs, func(e *Event) {
		if !isExtCall(e) || len(e.args) == 0 {
			return
		}
		if stripIface(e.args[0]) == q.s.h {
			p.serves = append(p.serves, e)
		}
		if methodIs(e, "Read") && stripIface(e.args[0]) == q.s.oauth && len(e.args) == 2 && q.isToken(e.args[1]) {
			p.read = e
			p.token = e.args[1]
		}
	})
	for _, e := range o.evs {
		if e.kind == EvCall && e.name == "net/http.NotFound" && stripIface(e.args[0]) == q.w {
			p.ws = append(p.ws, respWrite{status: x.T.Int(404), ev: e})
		}
	}
	if p.read != nil {
		p.admin = x.FieldVal(p.read.res[0], x.NamedType(authPkg, "Oauth2ClientContext"), "IsAdmin")
	}
	return p
}

// known: the path established that the token identifies a caller.
func (p *authPath) known() bool {
	x := p.q.s.x
	return p.read != nil && x.isNil(p.f, p.read.res[1]) == 1
}

func (p *authPath) hasToken() bool {
	if p.token == nil {
		return false
	}
	return p.f.clone().entLE(p.q.s.x.T.Int(1), p.q.s.x.T.Len(p.token), 0) || p.f.Eval(p.q.s.x.T.Eq(p.q.s.x.T.Len(p.token), p.q.s.x.T.Int(0))) == -1
}

// noToken: the path knows the request carries no Authorization header.
func (p *authPath) noToken() bool {
	no := false
	p.f.each(func(t *Term, v bool) {
		s := t.String()
		h := fmt.Sprintf("%s, \"Authorization\")", p.q.hdr)
		if !strings.Contains(s, h) {
			return
		}
		if strings.HasPrefix(s, "has(") && !v {
			no = true
		}
		if t.op == "eq" && v && (strings.Contains(s, "len(") || strings.Contains(s, `""`)) {
			no = true
		}
	})
	return no
}

// callerToken: t is the caller's token (as presented or as validated).
func (p *authPath) callerToken(t *Term) bool {
	if p.q.isToken(t) {
		return true
	}
	if p.read == nil {
		return false
	}
	return t == p.q.s.x.FieldVal(p.read.res[0], p.q.s.x.NamedType(authPkg, "Oauth2ClientContext"), "Token")
}

func (p *authPath) isAdmin(f *Facts) int {
	if p.admin == nil {
		return 0
	}
	return f.Eval(p.admin)
}

// asks lists the authorizer's answers about id within evs.
func (p *authPath) asks(evs []*Event, id *Term) (rs []*Event) {
	for _, e := range evs {
		if isExtCall(e) && methodIs(e, "IsAuthorized") && len(e.args) == 3 && stripIface(e.args[0]) == p.q.s.authz && e.args[1] == id && p.callerToken(e.args[2]) {
			rs = append(rs, e)
		}
	}
	return
}

// status is the only status sent, -1 when there is none or several.
func (p *authPath) status() int64 {
	n, v := 0, int64(-1)
	for i, w := range p.ws {
		if w.status != nil {
			n++
			k, ok := w.status.IntVal()
			if !ok || i != 0 {
				return -1
			}
			v = k
		}
		if w.status == nil && w.body == nil {
			return -1
		}
	}
	if n != 1 {
		return -1
	}
	return v
}

// touched: the first event that modifies the request before the handler runs.
func (p *authPath) touched(allowQuery bool) *Event {
	x := p.q.s.x
	rawq := x.FieldNamed(p.q.url, x.NamedType("net/url", "URL"), "RawQuery")
	var hit *Event
	allEvents(p.o.evs, func(e *Event) {
		if hit != nil {
			return
		}
		switch e.kind {
		case EvStore:
			if allowQuery && e.addr == rawq {
				return
			}
			if hasPrefixAddr(e.addr, p.q.r) || hasPrefixAddr(e.addr, p.q.url) {
				hit = e
			}
		case EvMapUpdate:
			if len(e.args) > 0 && e.args[0] == p.q.hdr {
				hit = e
			}
		case EvCall:
			if e.inl || len(e.args) == 0 {
				return
			}
			if e.args[0] == p.q.hdr && (strings.HasSuffix(e.name, ".Set") || strings.HasSuffix(e.name, ".Add") || strings.HasSuffix(e.name, ".Del")) {
				hit = e
			}
			if strings.HasSuffix(e.name, "mux.SetURLVars") {
				hit = e
			}
		}
	})
	return hit
}

var authOpen = map[string]bool{"/api/v1/info": true}

func authKind(t string) string {
	switch t {
	case "/api/v1/read/{.*}", "/api/v1/read/{.+}":
		return "read"
	case "/api/v1/{query|query_range}", "/api/v1/{query_range|query}":
		return "query"
	case "/api/v1/query", "/api/v1/query_range":
		return "query"
	case "/api/v1/meta":
		return "meta"
	case "/api/v1/info":
		return "info"
	}
	return ""
}

// denied judges a path that does not reach the handler.
func (c *C) denied(p *authPath, rule, kind string, why bool, want int64) {
	st := p.status()
	c.ob(st == want, rule, kind+" denial status", "a refused %s request is answered with status %d instead of %d: %s", kind, st, want, p.q.s.x.pathStr(p.o))
	c.ob(why, rule, kind+" denial reason", "a %s request is refused although nothing says it must be: %s", kind, p.q.s.x.pathStr(p.o))
}

func checkC23(c *C) {
	const rule = "read authorisation"
	s := c.newAuth()
	x := s.x
	for _, b := range s.bad {
		c.ob(false, "routes", b, "%s", b)
	}
	n := map[string]int{}
	for _, rt := range s.routes {
		k := authKind(rt.tmpl)
		c.ob(k != "", "routes", rt.tmpl, "the proxy serves %s, a route that has no authorisation rule (%s)", rt.tmpl, x.posStr(rt.ev.pos))
		n[k]++
		if rt.tmpl == "/api/v1/query" || rt.tmpl == "/api/v1/query_range" {
			n[rt.tmpl]++
		}
		if k == "info" {
			q := c.serve(s, rt, rule)
			for _, o := range q.outs {
				p := q.path(o)
				c.ob(len(p.serves) == 1 && len(p.ws) == 0, "routes", "info", "the info route does not simply reach the handler: %s", x.pathStr(o))
			}
		}
		if k != "read" {
			continue
		}
		q := c.serve(s, rt, rule)
		c.noMay(x, q.outs, rule, "read route", "nil", "unchecked", "index", "typeassert")
		served := 0
		for _, o := range q.outs {
			p := q.path(o)
			var id *Term
			for _, e := range o.evs {
				if isExtCall(e) && strings.HasSuffix(e.name, "gorilla/mux.Vars") && len(e.args) == 1 && e.args[0] == q.r {
					id = x.T.mk("lookup", "", types.Typ[types.String], e.res[0], x.T.Str(rt.vars[0]))
				}
			}
			var asked []*Event
			if id != nil {
				for _, e := range o.evs {
					if isExtCall(e) && methodIs(e, "IsAuthorized") && len(e.args) == 3 && stripIface(e.args[0]) == s.authz && e.args[1].String() == id.String() && p.callerToken(e.args[2]) {
						asked = append(asked, e)
					}
				}
			}
			allowed := 0
			for _, e := range asked {
				switch p.f.Eval(e.res[0]) {
				case 1:
					allowed = 1
				case -1:
					allowed = -1
				}
			}
			if len(p.serves) > 0 {
				served++
				c.ob(p.hasToken(), rule, "token presented", "a read is forwarded without an Authorization header: %s", x.pathStr(o))
				c.ob(p.known(), rule, "token validated", "a read is forwarded although its token was not validated: %s", x.pathStr(o))
				c.ob(p.isAdmin(p.f) == 1 || allowed == 1, rule, "source id authorised", "a read is forwarded for a source id that its caller is not known to be authorised for: %s", x.pathStr(o))
				c.forwarded(p, rule, "read", true)
				rq := x.LoadField(p.serves[0].mem, q.url, x.NamedType("net/url", "URL"), "RawQuery")
				why := "its parameters are forwarded as they came"
				if rq.op == "ret" && rq.ev != nil && rq.ev.name == "(net/url.Values).Encode" {
					mp := rq.ev.args[0]
					why = p.overrides(mp, rq.ev, []string{"sourceId"}, false)
					for _, k := range x.mapKeys(rq.ev.mem, mp) {
						why = "parameter " + k + " is added"
					}
				}
				c.ob(why == "", rule, "forwarded overrides", "a forwarded read may name a source id other than its path's, or loses parameters (%s): %s", why, x.pathStr(o))
				continue
			}
			noID := false
			p.f.each(func(t *Term, v bool) {
				if t.op == "has" && !v && strings.Contains(t.String(), "mux.Vars") {
					noID = true
				}
			})
			why := p.noToken() || noID || p.read != nil && x.isNil(p.f, p.read.res[1]) == -1 || p.isAdmin(p.f) == -1 && allowed == -1
			c.denied(p, rule, "read", why, 404)
		}
		c.need(served, 2, rule, "paths that forward a read")
	}
	c.ob(n["read"] == 1, "routes", "read route", "the read route is registered %d times", n["read"])
	c.ob(n["query"] == 1 && n["/api/v1/query"] == 0 || n["/api/v1/query"] == 1 && n["/api/v1/query_range"] == 1, "routes", "query routes", "the query routes are not each registered once")
	c.ob(n["meta"] == 1, "routes", "meta route", "the meta route is registered %d times", n["meta"])
	c.ob(n["info"] == 1, "routes", "info route", "the info route is registered %d times", n["info"])
}

// forwarded: the handler runs once, on the request as it came (but for the
// rewritten query when allowed), with nothing written before or after.
func (c *C) forwarded(p *authPath, rule, kind string, query bool) {
	x := p.q.s.x
	ok := len(p.serves) == 1 && len(p.serves[0].args) == 3 && stripIface(p.serves[0].args[1]) == p.q.w && p.serves[0].args[2] == p.q.r
	c.ob(ok, rule, kind+" forwarded once", "a %s request is not forwarded exactly once with its own writer and request: %s", kind, x.pathStr(p.o))
	c.ob(len(p.ws) == 0, rule, kind+" forwarded only", "a %s request is both answered and forwarded: %s", kind, x.pathStr(p.o))
	if t := p.touched(query); t != nil {
		c.ob(false, rule, kind+" forwarded as is", "a %s request is changed before it is forwarded, at %s", kind, x.posStr(t.pos))
	}
}

// ---------------------------------------------------------------- queries

func checkC24(c *C) {
	const rule = "query authorisation"
	s := c.newAuth()
	x := s.x
	T := x.T
	repl := modPath + "/internal/promql.ReplaceSourceIdSets"
	x.opaque[repl] = true
	routes := 0
	for _, rt := range s.routes {
		if authKind(rt.tmpl) != "query" {
			continue
		}
		routes++
		q := c.serve(s, rt, rule)
		c.noMay(x, q.outs, rule, "query route", "unchecked", "index", "typeassert")
		served, refused := 0, 0
		for _, o := range q.outs {
			p := q.path(o)
			var ext, rel, rep *Event
			for _, e := range o.evs {
				if !isExtCall(e) {
					continue
				}
				if e.name == "dynamic" && len(e.args) == 2 && e.args[0] == s.extract && x.firstQueryParam(e.args[1], q, "query", p.f) {
					ext = e
				}
				if methodIs(e, "GetRelatedSourceIds") && stripIface(e.args[0]) == s.transl && ext != nil && e.args[1] == ext.res[0] && p.callerToken(e.args[2]) {
					rel = e
				}
				if e.name == repl {
					rep = e
				}
			}
			if len(p.serves) == 0 {
				if p.status() == 400 {
					refused++
					bad := ext != nil && (x.isNil(p.f, ext.res[1]) == -1 || p.f.Eval(T.Eq(T.Len(ext.res[0]), T.Int(0))) == 1 || x.isNil(p.f, ext.res[0]) == 1)
					c.ob(bad, rule, "400 reason", "a query is answered 400 although it parses and names a source id: %s", x.pathStr(o))
					c.promErrBody(p, rule)
					continue
				}
				why := p.noToken() || p.read != nil && x.isNil(p.f, p.read.res[1]) == -1 || rel != nil && x.isNil(p.f, rel.res[0]) == 1 || rep != nil && x.isNil(p.f, rep.res[1]) == -1
				if !why && rel != nil {
					why = p.isAdmin(p.f) == -1 && p.emptySet()
				}
				c.denied(p, rule, "query", why, 404)
				continue
			}
			served++
			c.ob(p.hasToken(), rule, "token presented", "a query is forwarded without an Authorization header: %s", x.pathStr(o))
			c.ob(p.known(), rule, "token validated", "a query is forwarded although its token was not validated: %s", x.pathStr(o))
			if !c.ob(ext != nil && x.isNil(p.f, ext.res[1]) == 1, rule, "source ids extracted", "a query is forwarded although the source ids of its query parameter were not extracted: %s", x.pathStr(o)) {
				continue
			}
			none := p.f.Eval(T.Eq(T.Len(ext.res[0]), T.Int(0))) == -1 || p.f.clone().entLE(T.Int(1), T.Len(ext.res[0]), 0)
			c.ob(none, rule, "source ids required", "a query that names no source id is forwarded: %s", x.pathStr(o))
			if !c.ob(rel != nil && x.isNil(p.f, rel.res[0]) == -1, rule, "names translated", "a query is forwarded although its names were not resolved to source ids: %s", x.pathStr(o)) {
				continue
			}
			if !c.ob(rep != nil && x.isNil(p.f, rep.res[1]) == 1 && rep.args[0] == ext.args[1], rule, "query rewritten", "a query is forwarded although its source ids were not successfully replaced by the authorised ones: %s", x.pathStr(o)) {
				continue
			}
			why := x.authorisedSets(p, rep, rel, ext)
			c.ob(why == "", rule, "authorised sets", "a query is forwarded with source ids its caller may not be authorised for (%s): %s", why, x.pathStr(o))
			c.forwarded(p, rule, "query", true)
			// what the handler sees
			ev := p.serves[0]
			rq := x.LoadField(ev.mem, q.url, x.NamedType("net/url", "URL"), "RawQuery")
			good := rq.op == "ret" && rq.ev != nil && rq.ev.name == "(net/url.Values).Encode"
			if good {
				mp := rq.ev.args[0]
				vs, ok := x.qval(rq.ev.mem, mp, "query")
				good = ok && len(vs) == 1 && vs[0] == rep.res[0]
				for _, k := range x.mapKeys(rq.ev.mem, mp) {
					if k != "query" {
						good = false
					}
				}
				why := p.overrides(mp, rq.ev, []string{"query"}, true)
				c.ob(why == "", rule, "forwarded overrides", "a forwarded query may carry another query that was not authorised, or loses parameters (%s): %s", why, x.pathStr(o))
			}
			c.ob(good, rule, "forwarded query", "the forwarded URL is not the original one with only its query replaced by the rewritten one: %s", x.pathStr(o))
		}
		c.need(served, 1, rule, "paths that forward a query")
		c.need(refused, 2, rule, "paths that reject a query as bad data")
	}
	c.need(routes, 1, rule, "query route")
}

// firstQueryParam: t is the first value of the URL's parameter key.
func (x *X) firstQueryParam(t *Term, q *authReq, key string, f *Facts) bool {
	if v, ok := t.StrVal(); ok && v == "" {
		// absent or empty
		abs := false
		f.each(func(a *Term, v bool) {
			s := a.String()
			if strings.Contains(s, fmt.Sprintf("(%s), %q)", q.url, key)) && (!v && strings.HasPrefix(s, "has") || v && a.op == "eq") {
				abs = true
			}
		})
		return abs
	}
	s := t.String()
	return strings.HasPrefix(s, "lookup") && strings.HasSuffix(s, fmt.Sprintf("(%s), %q)[0]", q.url, key))
}

// emptySet: the path established that an authorised set is empty.
func (p *authPath) emptySet() bool {
	x := p.q.s.x
	empty := false
	seen := map[*Term]bool{}
	try := func(l *Term) {
		if seen[l] {
			return
		}
		seen[l] = true
		zero := p.f.Eval(x.T.Eq(x.T.Len(l), x.T.Int(0))) == 1 || p.f.clone().entLE(x.T.Len(l), x.T.Int(0), 0) || x.isNil(p.f, l) == 1
		if zero && p.filterOf(l) != nil {
			empty = true
		}
	}
	var scan func(evs []*Event)
	scan = func(evs []*Event) {
		for _, e := range evs {
			if e.kind == EvLoop {
				for _, ph := range x.locals(e.loop) {
					try(ph.sym)
				}
			}
		}
	}
	scan(p.o.evs)
	return empty
}

// filterOf: sym accumulates, over a whole slice, exactly the elements the
// authorizer allows the caller; the slice is returned.
func (p *authPath) filterOf(sym *Term) *Term {
	x := p.q.s.x
	if sym == nil || sym.loop == nil || sym.loop.iters == nil {
		return nil
	}
	l := sym.loop
	if in := x.initOf(sym); in == nil || !(in.IsNil() || x.isEmptyFresh(in)) {
		return nil
	}
	var exits []*Event
	allEvents(p.o.evs, func(e *Event) {
		if e.kind == EvLoopExit && e.loop == l {
			exits = append(exits, e)
		}
	})
	var src *Term
	for _, it := range l.iters {
		for _, e := range it.events {
			if isExtCall(e) && methodIs(e, "IsAuthorized") && len(e.args) == 3 && stripIface(e.args[0]) == p.q.s.authz && e.args[1].op == "init" {
				if a := e.args[1].args[0]; a.op == "indexaddr" {
					src = a.args[0]
				}
			}
		}
	}
	if src == nil {
		return nil
	}
	cv, _ := x.covers(l, src, exits)
	if cv == nil {
		return nil
	}
	for _, it := range l.iters {
		el := x.elemAt(it.mem, src, cv.idx)
		ok := 0
		for _, e := range p.asks(it.events, el) {
			ok = it.facts.Eval(e.res[0])
		}
		n := it.next[sym]
		if n == nil {
			n = sym
		}
		switch ok {
		case 1:
			if n.op != "append" || len(n.args) != 2 || n.args[0] != sym || n.args[1] != el {
				return nil
			}
		case -1:
			if n != sym {
				return nil
			}
		default:
			return nil
		}
	}
	return src
}

// sameSet: t consists of exactly the elements of set plus id.
func (x *X) setPlus(m *Mem, t, set, id *Term) bool {
	whole, one := 0, 0
	var w func(t *Term) bool
	w = func(t *Term) bool {
		switch {
		case t.IsNil():
			return true
		case t == set:
			whole++
			return true
		case t.op == "appendall":
			return w(t.args[0]) && w(t.args[1])
		case t.op == "copyof":
			return w(t.args[0])
		case t.op == "append":
			if !w(t.args[0]) {
				return false
			}
			for _, a := range t.args[1:] {
				if a != id {
					return false
				}
				one++
			}
			return true
		case t.op == "slice":
			es, ok := x.elems(m, t)
			for _, a := range es {
				if a != id {
					return false
				}
				one++
			}
			return ok
		}
		return false
	}
	return w(t) && whole >= 1 && one >= 1
}

// authorisedSets: the map handed to the rewriter holds, for every source id
// of the query, that id and its related ids, restricted to those the caller
// is authorised for unless the caller is an admin, and never an empty set.
func (x *X) authorisedSets(p *authPath, rep, rel, ext *Event) string {
	M := rep.args[1]
	var exits []*Event
	allEvents(p.o.evs, func(e *Event) {
		if e.kind == EvLoopExit {
			exits = append(exits, e)
		}
	})
	var loop *LoopInfo
	var bad string
	before := true
	for _, e := range p.o.evs {
		if e == rep {
			before = false
		}
		if !before {
			continue
		}
		if e.kind == EvMapUpdate && e.args[0] == M {
			return "the sets are also written outside the loop over the query's source ids"
		}
		if isExtCall(e) && e != rep && e != rel {
			for _, a := range e.args {
				if stripIface(a) == M && e.name != "builtin.len" {
					return "the sets are handed to " + e.name
				}
			}
		}
		if e.kind != EvLoop {
			continue
		}
		n := 0
		for _, it := range e.loop.iters {
			for _, d := range it.events {
				if d.kind == EvMapUpdate && d.args[0] == M {
					n++
				}
			}
		}
		if n == 0 {
			continue
		}
		if loop != nil && loop != e.loop {
			return "the sets are written by several loops"
		}
		loop = e.loop
	}
	if loop == nil {
		return "the sets are never restricted"
	}
	cv, why := x.covers(loop, ext.res[0], exits)
	if cv == nil {
		return "not every source id of the query is visited: " + why
	}
	for _, it := range loop.iters {
		sid := x.elemAt(it.mem, ext.res[0], cv.idx)
		var ups []*Event
		for _, d := range it.events {
			if d.kind == EvMapUpdate && d.args[0] == M {
				ups = append(ups, d)
			}
		}
		if len(ups) == 0 || ups[len(ups)-1].args[1] != sid {
			bad = "a source id of the query keeps its unchecked set"
			continue
		}
		for _, u := range ups {
			if u.args[1] != sid {
				return "a set is written under another name"
			}
		}
		V := ups[len(ups)-1].val
		set := V
		if p.isAdmin(it.facts) != 1 {
			set = p.filterOf(V)
			if set == nil {
				return fmt.Sprintf("%s is not the subset the authorizer allows", V)
			}
			ln := x.T.Len(V)
			if it.facts.Eval(x.T.Eq(ln, x.T.Int(0))) != -1 && !it.facts.clone().entLE(x.T.Int(1), ln, 0) {
				return "an empty authorised set lets the source id through unchanged"
			}
		}
		ok := false
		walkTerm(set, func(t *Term) {
			if t.op == "lookup" && t.args[0] == rel.res[0] && t.args[1] == sid && x.setPlus(it.mem, set, t, sid) {
				ok = true
			}
		})
		if !ok {
			return fmt.Sprintf("%s is not the source id and its related ids", set)
		}
	}
	return bad
}

// promErrBody: the body is a Prometheus error document.
func (c *C) promErrBody(p *authPath, rule string) {
	x := p.q.s.x
	var doc *respWrite
	nb := 0
	for i := range p.ws {
		if p.ws[i].status == nil {
			nb++
			if p.ws[i].ev.name == "(*encoding/json.Encoder).Encode" {
				doc = &p.ws[i]
			} else if b := stripConv(p.ws[i].body); b != nil && b.op == "ret" && b.ev != nil && b.ev.name == "encoding/json.Marshal" {
				doc = &respWrite{body: b.ev.args[0], ev: b.ev}
			}
		}
	}
	if !c.ob(doc != nil && nb >= 1, rule, "400 body", "a bad query is rejected without a JSON document: %s", x.pathStr(p.o)) {
		return
	}
	j := x.jsonOf(doc.ev.mem, doc.ev.facts, doc.body)
	str := func(k string) string {
		v := j.key(k)
		if v == nil || v.v == nil || v.omit {
			return ""
		}
		s, _ := v.v.StrVal()
		return s
	}
	c.ob(str("status") == "error" && str("errorType") == "bad_data", rule, "400 document", "a bad query is rejected with status %q, errorType %q", str("status"), str("errorType"))
	em := j.key("error")
	c.ob(em != nil && em.v != nil, rule, "400 message", "a bad query is rejected without an error message: %s", x.pathStr(p.o))
	ct := x.respHeader(p.o.evs, p.q.w, "Content-Type", p.ws[0].ev)
	s := ""
	if ct != nil {
		s, _ = ct.StrVal()
	}
	c.ob(strings.HasPrefix(s, "application/json"), rule, "400 content type", "a bad query is rejected with content type %q", s)
}

// ---------------------------------------------------------------- meta

func checkC25(c *C) {
	const rule = "meta filtering"
	s := c.newAuth()
	x := s.x
	routes := 0
	for _, rt := range s.routes {
		if authKind(rt.tmpl) != "meta" {
			continue
		}
		routes++
		q := c.serve(s, rt, rule)
		c.noMay(x, q.outs, rule, "meta route", "nil", "unchecked", "index", "typeassert")
		seen := map[string]int{}
		for _, o := range q.outs {
			p := q.path(o)
			c.ob(len(p.serves) == 0, rule, "not forwarded", "a meta request reaches the log cache's own unfiltered answer: %s", x.pathStr(o))
			var meta, mar *Event
			for _, e := range o.evs {
				if !isExtCall(e) {
					continue
				}
				if methodIs(e, "Meta") && stripIface(e.args[0]) == s.metaF {
					meta = e
				}
				if strings.HasSuffix(e.name, "jsonpb.Marshaler).Marshal") && len(e.args) == 3 && stripIface(e.args[1]) == q.w {
					mar = e
				}
			}
			if meta != nil {
				cx := stripIface(meta.args[1])
				c.ob(p.known() && p.hasToken(), rule, "meta fetched for callers only", "meta is fetched for a request whose token was not validated: %s", x.pathStr(o))
				c.ob(cx.op == "ctxof" && cx.args[0] == q.r || derives(cx, x.T.mk("ctxof", "", nil, q.r)) || strings.Contains(cx.String(), "ctxof("+q.r.String()+")"), rule, "meta context", "meta is fetched under a context other than the request's: %s", x.pathStr(o))
			}
			if mar == nil {
				if meta != nil {
					seen["failed"]++
					c.denied(p, rule, "meta (fetch failed)", x.isNil(p.f, meta.res[1]) == -1, 502)
				} else {
					seen["denied"]++
					c.denied(p, rule, "meta", p.noToken() || p.read != nil && x.isNil(p.f, p.read.res[1]) == -1, 404)
				}
				continue
			}
			if !c.ob(meta != nil && x.isNil(p.f, meta.res[1]) == 1 && p.known() && p.hasToken(), rule, "answered callers", "a meta request is answered although its caller or the meta is unknown: %s", x.pathStr(o)) {
				continue
			}
			st := p.status()
			c.ob(st == -1 && x.noStatus(p.ws) || st == 200, rule, "meta status", "a successful meta answer carries status %d: %s", st, x.pathStr(o))
			M := x.LoadField(mar.mem, stripIface(mar.args[2]), x.NamedType(modPath+"/pkg/rpc/logcache_v1", "MetaResponse"), "Meta")
			if p.isAdmin(p.f) == 1 {
				seen["admin"]++
				c.ob(M == meta.res[0], rule, "admin meta", "an admin is not given the whole meta: %s", x.pathStr(o))
				continue
			}
			seen["user"]++
			why := p.metaSubset(M, meta.res[0], mar)
			c.ob(why == "", rule, "user meta", "a caller that is not an admin is not given exactly the meta of its source ids (%s): %s", why, x.pathStr(o))
		}
		for _, k := range []string{"failed", "denied", "admin", "user"} {
			c.need(seen[k], 1, rule, "meta "+k)
		}
	}
	c.need(routes, 1, rule, "meta route")
}

func (x *X) noStatus(ws []respWrite) bool {
	for _, w := range ws {
		if w.status != nil {
			return false
		}
	}
	return true
}

// metaSubset: M is the restriction of meta to the caller's available ids.
func (p *authPath) metaSubset(M, meta *Term, until *Event) string {
	x := p.q.s.x
	if M.op != "makemap" || len(M.args) != 0 {
		return "not a fresh map: " + M.String()
	}
	var ids *Term
	for _, e := range p.o.evs {
		if isExtCall(e) && methodIs(e, "AvailableSourceIDs") && stripIface(e.args[0]) == p.q.s.authz && p.callerToken(e.args[1]) {
			ids = e.res[0]
		}
	}
	if ids == nil {
		return "the caller's source ids were not asked for"
	}
	var exits []*Event
	for _, e := range p.o.evs {
		if e.kind == EvLoopExit {
			exits = append(exits, e)
		}
	}
	n := 0
	for _, e := range p.o.evs {
		if e == until {
			break
		}
		if e.kind == EvMapUpdate && e.args[0] == M {
			return "an entry is added outside the loop"
		}
		if e.kind != EvLoop {
			continue
		}
		writes := false
		for _, it := range e.loop.iters {
			for _, d := range it.events {
				if d.kind == EvMapUpdate && d.args[0] == M {
					writes = true
				}
			}
		}
		if !writes {
			continue
		}
		n++
		cv, why := x.covers(e.loop, ids, exits)
		if cv == nil {
			return why
		}
		for _, it := range e.loop.iters {
			id := x.elemAt(it.mem, ids, cv.idx)
			has := 0
			it.facts.each(func(t *Term, v bool) {
				if t.op == "has" && t.args[0] == meta && t.args[1] == id {
					if v {
						has = 1
					} else {
						has = -1
					}
				}
			})
			ups := 0
			for _, d := range it.events {
				if d.kind == EvMapUpdate && d.args[0] == M {
					ups++
					v := d.val
					if d.args[1] != id || v.op != "lookup" || v.args[0] != meta || v.args[1] != id || has != 1 {
						return "an entry other than the meta of an available id is added"
					}
				}
			}
			if ups == 0 && has != -1 {
				return "an available id's meta is left out"
			}
		}
	}
	if n != 1 {
		return "no loop over the caller's source ids fills it"
	}
	return ""
}
