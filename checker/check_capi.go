package main

import (
	"strings"
)

func init() {
	register("C28", "A source id is authorised only by what CAPI lists for that very token",
		"Path-partitioned dataflow over the CAPI client for an arbitrary token, source id, cache content and sequence of answers: request derivation (page loop included), fail-closed listing, element-wise accumulation of the listed guids, the cache's key, liveness and retry bound, name translation and pruning.", checkC28)
}

const capiRule = "source id listing"

type capiScn struct {
	x     *X
	c     *C
	recv  *Term
	ct    string
	http  *Term
	addr  *Term
	cache *Term
}

func (c *C) newCapi() (*capiScn, *State) {
	x := c.newX()
	s := &capiScn{x: x, c: c}
	fn := x.Fn("internal/auth", "*CAPIClient", "IsAuthorized")
	s.recv = x.params(fn)[0]
	st := x.newState()
	T := x.T
	ct := x.NamedType(authPkg, "CAPIClient")
	st.wfacts().Assume(T.Eq(s.recv, T.Nil()), false)
	s.http = x.LoadField(st.mem, s.recv, ct, "client")
	s.addr = x.LoadField(st.mem, s.recv, ct, "addr")
	s.cache = x.LoadField(st.mem, s.recv, ct, "tokenCache")
	for _, f := range []string{"client", "tokenCache", "log"} {
		st.wfacts().Assume(T.Eq(x.LoadField(st.mem, s.recv, ct, f), T.Nil()), false)
	}
	return s, st
}

// settled: a loop symbol that every iteration leaves alone is its initial value.
func (x *X) settled(t *Term) *Term {
	for i := 0; i < 5 && t != nil && t.loop != nil && len(t.loop.iters) > 0; i++ {
		for _, it := range t.loop.iters {
			if n := it.next[t]; n != nil && n != t && n != x.initOf(t) {
				return t
			}
		}
		in := x.initOf(t)
		if in == nil {
			return t
		}
		t = in
	}
	return t
}

// capiURL: the address of a listing request, or why it cannot be trusted.
func (s *capiScn) capiURL(u *Term, depth int) (path string, req *Term, why string) {
	x := s.x
	u = x.settled(u)
	if u.op == "newobj" && len(u.args) == 1 {
		t := u.args[0]
		if t.op == "concat" && len(t.args) == 2 && t.args[0] == s.addr {
			p, _ := t.args[1].StrVal()
			return p, u, ""
		}
		return "", nil, "not an address of the configured CAPI: " + t.String()
	}
	if u.loop == nil || depth > 3 {
		return "", nil, "unknown address " + u.String()
	}
	in := x.initOf(u)
	if in == nil {
		return "", nil, "unknown address " + u.String()
	}
	path, req, why = s.capiURL(in, depth+1)
	if why != "" {
		return
	}
	ut := x.NamedType("net/url", "URL")
	for _, it := range u.loop.iters {
		n := it.next[u]
		if n == nil || n == u || n.IsNil() {
			continue
		}
		if n.op != "newobj" || n.ev == nil || n.ev.name != "net/url.Parse" {
			return "", nil, "the next page's address is " + n.String()
		}
		for _, f := range []string{"Scheme", "Host"} {
			got := x.LoadField(it.mem, n, ut, f)
			if got != x.LoadField(it.mem, u, ut, f) && got != x.LoadField(it.mem, req, ut, f) {
				return "", nil, "the next page's " + strings.ToLower(f) + " is taken from the answer, and the token is sent there"
			}
		}
	}
	return
}

// capiPage: what one exchange of a listing yields.
type capiPage struct {
	do   *Event
	ok   bool // a 200 answer that decoded
	res  *Term
	href *Term
	path string
}

// pages lists the exchanges among evs (one iteration or the rest of a path).
func (s *capiScn) pages(evs []*Event, f *Facts, m *Mem, token *Term) []capiPage {
	x, c := s.x, s.c
	var out []capiPage
	rt := x.NamedType("net/http", "Response")
	for _, e := range evs {
		if !isHTTPDo(e) {
			continue
		}
		p := capiPage{do: e}
		r := x.reqOf(e)
		mm, _ := r.method.StrVal()
		c.ob(mm == "GET" && r.client == s.http, capiRule, "request in "+shortFn(e.fn), "a listing is not requested with GET through the configured client, in %s", x.where(e))
		h := x.settled(r.header)
		vs, ok := x.qval(e.mem, r.header, "Authorization")
		if !ok {
			vs, ok = x.qval(e.mem, h, "Authorization")
		}
		c.ob(ok && len(vs) == 1 && vs[0] == token, capiRule, "token in "+shortFn(e.fn), "a listing is not requested with exactly the caller's token, in %s", x.where(e))
		u := x.LoadField(e.mem, r.req, x.NamedType("net/http", "Request"), "URL")
		path, _, why := s.capiURL(u, 0)
		c.ob(why == "", capiRule, "address in "+shortFn(e.fn), "a listing request leaves the configured CAPI (%s), in %s", why, x.where(e))
		p.path = path
		st := x.LoadField(e.mem, e.res[0], rt, "StatusCode")
		for _, d := range decodings(evs) {
			if !derives(d.src, e.res[0]) || x.isNil(f, d.err) != 1 {
				continue
			}
			dt := derefType(d.dst.typ)
			rf, pf := jsonField(dt, "resources"), jsonField(dt, "pagination")
			if rf == "" || pf == "" {
				continue
			}
			p.res = x.LoadField(m, d.dst, dt, rf)
			pt := structOf(dt)
			a := x.FieldNamed(d.dst, dt, pf)
			for i := 0; i < pt.NumFields(); i++ {
				if pt.Field(i).Name() == pf {
					nt := pt.Field(i).Type()
					if nf := jsonField(nt, "next"); nf != "" {
						b := x.FieldNamed(a, nt, nf)
						n2 := derefType(b.typ)
						if hf := jsonField(n2, "href"); hf != "" {
							p.href = x.loadMem(m, x.FieldNamed(b, n2, hf), derefType(x.FieldNamed(b, n2, hf).typ))
						}
					}
				}
			}
			p.ok = x.isNil(f, e.res[1]) == 1 && f.Eval(x.T.Eq(st, x.T.Int(200))) == 1
		}
		out = append(out, p)
	}
	return out
}

// listings of a path, by the slice of all resources: the path it lists.
type capiListing struct {
	path string
	all  *Term
	why  string
}

func (s *capiScn) listings(o *Outcome, token *Term) (out []capiListing, failed bool) {
	x := s.x
	f := o.St.facts
	var loops []*LoopInfo
	for _, e := range o.evs {
		if e.kind == EvLoop {
			loops = append(loops, e.loop)
		}
	}
	// judge the page loops
	type acc struct {
		sym  *Term
		path string
		why  string
		last bool
	}
	var accs []acc
	for _, l := range loops {
		var pages []capiPage
		why := ""
		for _, it := range l.iters {
			ps := s.pages(it.events, it.facts, it.mem, token)
			if len(ps) > 1 {
				why = "a page is requested twice"
			}
			for _, p := range ps {
				if !p.ok {
					why = "a page that failed, was not 200 or did not decode is skipped"
				}
			}
			pages = append(pages, ps...)
		}
		if len(pages) == 0 {
			continue
		}
		for _, ph := range x.locals(l) {
			a := acc{sym: ph.sym, path: pages[0].path, why: why}
			in := x.initOf(ph.sym)
			good := in != nil && (in.IsNil() || x.isEmptyFresh(in))
			for i, it := range l.iters {
				if len(pages) != len(l.iters) || !x.appendedPage(it.next[ph.sym], ph.sym, pages[i].res) {
					good = false
				}
				if good && pages[i].href != nil && it.facts.Eval(x.T.Eq(x.T.Len(pages[i].href), x.T.Int(0))) == 1 {
					a.last = true
				}
			}
			if good {
				accs = append(accs, a)
			}
		}
	}
	tail := s.pages(o.evs, f, o.St.mem, token)
	used := map[*Term]bool{}
	for _, p := range tail {
		if !p.ok {
			failed = true
			continue
		}
		l := capiListing{path: p.path, why: "the pages before the last are dropped"}
		if p.href == nil || f.Eval(x.T.Eq(x.T.Len(p.href), x.T.Int(0))) != 1 {
			l.why = "the listing ends although there is a next page"
		}
		for _, a := range accs {
			if used[a.sym] || a.path != p.path {
				continue
			}
			if l.why == "the pages before the last are dropped" {
				l.why = a.why
			}
			l.all = x.T.mk("appendall", "", a.sym.typ, a.sym, p.res)
			used[a.sym] = true
		}
		out = append(out, l)
	}
	for _, a := range accs {
		if !used[a.sym] && a.last {
			out = append(out, capiListing{path: a.path, all: a.sym, why: a.why})
			used[a.sym] = true
		}
	}
	return
}

// appendedPage: got is sym followed by all of the page.
func (x *X) appendedPage(got, sym, page *Term) bool {
	return got != nil && page != nil && got.op == "appendall" && len(got.args) == 2 && got.args[0] == sym && got.args[1] == page
}

func checkC28(c *C) {
	c.capiList()
	c.capiAuthorized()
	c.capiNames()
	c.capiPrune()
}

// capiList: the ids available to a token are the guids of all pages of both
// listings, or none.
func (c *C) capiList() {
	s, st := c.newCapi()
	x := s.x
	fn := x.Fn("internal/auth", "*CAPIClient", "AvailableSourceIDs")
	token := x.symOf("token", fn.Params[1].Type())
	rt := x.NamedType(authPkg, "resource")
	gf := jsonField(rt, "guid")
	full, none := 0, 0
	for _, o := range c.rets(x, x.Root(fn, st, []*Term{s.recv, token}, nil), capiRule, "AvailableSourceIDs") {
		ls, failed := s.listings(o, token)
		bad := len(x.failures(o.evs, o.St.facts)) > 0
		v := o.Vals[0]
		if v.IsNil() || x.isEmptyFresh(v) {
			none++
			c.ob(failed || bad, capiRule, "empty list", "no id is listed although nothing failed: %s", x.pathStr(o))
			continue
		}
		if !c.ob(!failed, capiRule, "fail closed", "ids are listed although a request failed, was not answered 200 or did not decode: %s", x.pathStr(o)) {
			continue
		}
		full++
		got := map[string]*Term{}
		for _, l := range ls {
			c.ob(l.why == "", capiRule, "pages of "+l.path, "a listing of %s is incomplete (%s): %s", l.path, l.why, x.pathStr(o))
			c.ob(got[l.path] == nil, capiRule, "listed once", "%s is listed twice: %s", l.path, x.pathStr(o))
			got[l.path] = l.all
		}
		c.ob(len(got) == 2 && got["/v3/apps"] != nil && got["/v3/service_instances"] != nil, capiRule, "listings", "the listed ids are not those of the apps and the service instances (%d listings): %s", len(got), x.pathStr(o))
		want := func(m *Mem, e *Term) *Term {
			if e.op == "struct" {
				return x.FieldVal(e, rt, gf)
			}
			if e.op == "init" {
				return x.loadMem(m, x.FieldNamed(e.args[0], rt, gf), derefType(x.FieldNamed(e.args[0], rt, gf).typ))
			}
			return x.FieldVal(e, rt, gf)
		}
		var exits []*Event
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvLoopExit {
				exits = append(exits, e)
			}
		})
		why := x.chainOf(v, []*Term{got["/v3/apps"], got["/v3/service_instances"]}, exits, want)
		c.ob(why == "", capiRule, "guids", "the listed ids are not exactly the guids of the listed resources (%s): %s", why, x.pathStr(o))
	}
	c.need(full, 1, capiRule, "paths that list ids")
	c.need(none, 3, capiRule, "paths that fail")
}

// chainOf: v appends want(e) for each element e of each source, any order of
// sources, from empty.
func (x *X) chainOf(v *Term, srcs []*Term, exits []*Event, want func(m *Mem, e *Term) *Term) string {
	if v.op == "copyof" {
		return x.chainOf(v.args[0], srcs, exits, want)
	}
	if len(srcs) == 0 {
		if v.IsNil() || x.isEmptyFresh(v) {
			return ""
		}
		return "starts with " + v.String()
	}
	if v.op == "appendall" && len(v.args) == 2 { // two lists joined
		why := ""
		for i, s := range srcs {
			rest := append(append([]*Term{}, srcs[:i]...), srcs[i+1:]...)
			if why = x.chainOf(v.args[1], []*Term{s}, exits, want); why == "" {
				if why = x.chainOf(v.args[0], rest, exits, want); why == "" {
					return ""
				}
			}
		}
		return why
	}
	if v.loop == nil {
		return "not accumulated by a loop: " + v.String()
	}
	in := x.initOf(v)
	if in == nil {
		return "no initial value"
	}
	why := "no source"
	for i, s := range srcs {
		if s == nil {
			return "a listing is missing"
		}
		if why = x.perElemFrom(v, s, exits, in, want); why == "" {
			rest := append(append([]*Term{}, srcs[:i]...), srcs[i+1:]...)
			return x.chainOf(in, rest, exits, want)
		}
	}
	return why
}

// capiAuthorized: the answer comes from a live cached list of the same token
// or from one just fetched with it.
func (c *C) capiAuthorized() {
	const rule = "authorisation answer"
	s, st := c.newCapi()
	x := s.x
	list := "(*" + authPkg + ".CAPIClient).AvailableSourceIDs"
	x.opaque[list] = true
	fn := x.Fn("internal/auth", "*CAPIClient", "IsAuthorized")
	id, token := x.symOf("sourceId", fn.Params[1].Type()), x.symOf("clientToken", fn.Params[2].Type())
	ct := x.NamedType(authPkg, "CAPIClient")
	rec := x.NamedType(authPkg, "authorizedSourceIds")
	ttl := x.LoadField(st.mem, s.recv, ct, "cacheExpirationInterval")
	typed := x.storesOnly("CAPIClient", "tokenCache", rec.String())
	c.ob(typed == "", rule, "cache content", "the token cache can hold something other than lists by token: %s", typed)
	yes, no, fetched, cached := 0, 0, 0, 0
	for _, o := range c.rets(x, x.Root(fn, st, []*Term{s.recv, id, token}, nil), rule, "IsAuthorized") {
		f := o.St.facts
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvMay && (e.name == "typeassert" || e.name == "index") {
				ok := typed == "" && e.val != nil && e.val.ev != nil && strings.HasPrefix(e.val.ev.name, "(*sync.Map).")
				c.ob(ok, rule, "crash", "the answer can crash the process: %s of %s in %s", e.name, e.val, x.where(e))
			}
		})
		var fetch, store *Event
		for _, e := range o.evs {
			if !isExtCall(e) {
				continue
			}
			if e.name == list {
				c.ob(fetch == nil, rule, "one fetch", "one question fetches the list twice: %s", x.pathStr(o))
				fetch = e
				c.ob(e.args[1] == token, rule, "fetch token", "the list is fetched for %s, not for the caller's token: %s", e.args[1], x.pathStr(o))
			}
			if len(e.args) > 0 && e.args[0] == s.cache {
				switch e.name {
				case "(*sync.Map).Load":
					c.ob(stripIface(e.args[1]) == token, rule, "cache key", "the cache is asked for %s, not for the caller's token: %s", stripIface(e.args[1]), x.pathStr(o))
				case "(*sync.Map).Store":
					store = e
					c.ob(stripIface(e.args[1]) == token, rule, "cache key", "a list is cached under %s, not under the caller's token: %s", stripIface(e.args[1]), x.pathStr(o))
				case "(*sync.Map).Range":
				default:
					c.ob(false, rule, "cache use", "the cache is changed by %s: %s", e.name, x.pathStr(o))
				}
			}
		}
		// what is known about the cached record
		live, liveKnown := false, 0
		var exp *Term
		f.each(func(t *Term, v bool) {
			if t.op == "pure" && strings.HasSuffix(t.sym, "Before") && len(t.args) == 2 {
				for i := 0; i < 2; i++ {
					if isNow(t.args[i]) && s.cachedField(t.args[1-i], "expiresAt") {
						exp = t.args[1-i]
						// now < exp (i==0) true, or exp < now (i==1) false
						live = (i == 0) == v
						liveKnown = 1
					}
				}
			}
		})
		_ = exp
		miss := false
		f.each(func(t *Term, v bool) {
			if !v && t.op == "ret" && t.ev != nil && t.ev.name == "(*sync.Map).Load" {
				miss = true
			}
		})
		src := "no list"
		var ids *Term
		if fetch != nil {
			fetched++
			ids = fetch.res[0]
			src = "the fetched list"
			c.ob(store != nil, rule, "caching", "a fetched list is not cached: %s", x.pathStr(o))
			if live && !miss {
				c.ob(s.retryBelow(f), rule, "retry bound", "CAPI is asked again although the retries of a live list are used up: %s", x.pathStr(o))
				c.ob(s.notInCached(o, id), rule, "needless fetch", "CAPI is asked although a live list holds the id: %s", x.pathStr(o))
			}
			if store != nil {
				rv := stripIface(store.args[2])
				var got [3]*Term
				for i, n := range []string{"sourceIds", "retryCount", "expiresAt"} {
					got[i] = x.FieldVal(rv, rec, n)
				}
				c.ob(got[0] == ids, rule, "cached list", "another list than the fetched one is cached (%s): %s", got[0], x.pathStr(o))
				e := got[2]
				c.ob(e.op == "pure" && strings.HasSuffix(e.sym, "Add") && isNow(e.args[0]) && e.args[1] == ttl, rule, "cache expiry", "a list is not cached for the configured time (%s): %s", e, x.pathStr(o))
				if live && !miss {
					c.ob(s.retryNext(got[1]), rule, "retry count", "a retry is not counted (%s): %s", got[1], x.pathStr(o))
				} else {
					k, ok := got[1].IntVal()
					c.ob(ok && k == 0, rule, "retry count", "a first fetch starts with retry count %s: %s", got[1], x.pathStr(o))
				}
			}
		} else {
			cached++
			src = "a live cached list"
			c.ob(store == nil, rule, "cache unchanged", "the cache is rewritten without a fetch: %s", x.pathStr(o))
			if !c.ob(live && liveKnown == 1 && !miss, rule, "stale list", "an answer is taken from a list that is not known to be live: %s", x.pathStr(o)) {
				continue
			}
		}
		b, isC := o.Vals[0].BoolVal()
		ans := f.Eval(o.Vals[0])
		if isC {
			ans = -1
			if b {
				ans = 1
			}
		}
		switch ans {
		case 1:
			yes++
			c.ob(s.found(o, ids, id), rule, "yes", "the id is authorised although %s is not known to hold it: %s", src, x.pathStr(o))
		case -1:
			no++
			ok := s.notIn(o, ids, id)
			if fetch == nil {
				ok = s.notInCached(o, id) && s.retryUsed(f)
			}
			c.ob(ok, rule, "no", "the id is refused although %s may hold it or CAPI may still be asked: %s", src, x.pathStr(o))
		default:
			c.ob(false, rule, "answer", "the answer is %s: %s", o.Vals[0], x.pathStr(o))
		}
	}
	c.need(yes, 2, rule, "paths that authorise")
	c.need(no, 2, rule, "paths that refuse")
	c.need(fetched, 2, rule, "paths that fetch")
	c.need(cached, 2, rule, "paths that answer from the cache")
}

// cachedField: t is the field of the record loaded from the token cache.
func (s *capiScn) cachedField(t *Term, name string) bool {
	x := s.x
	ok := false
	walkTerm(t, func(y *Term) {
		if y.op == "ret" && y.ev != nil && y.ev.name == "(*sync.Map).Load" && y.ev.args[0] == s.cache && y == y.ev.res[0] {
			ok = true
		}
	})
	if !ok {
		return false
	}
	rec := x.NamedType(authPkg, "authorizedSourceIds")
	want := false
	walkTerm(t, func(y *Term) {
		if y.op == "assert" {
			if x.FieldVal(y, rec, name) == t {
				want = true
			}
		}
	})
	return want || strings.HasSuffix(t.String(), "."+name)
}

// retryBelow: fewer retries than the bound were made.
func (s *capiScn) retryBelow(f *Facts) bool {
	r := s.retryTerm(f)
	return r != nil && f.clone().entLE(r, s.x.T.Int(2), 0)
}

func (s *capiScn) retryUsed(f *Facts) bool {
	r := s.retryTerm(f)
	return r != nil && f.clone().entLE(s.x.T.Int(3), r, 0)
}

func (s *capiScn) retryTerm(f *Facts) (r *Term) {
	f.each(func(t *Term, v bool) {
		walkTerm(t, func(y *Term) {
			if r == nil && isIntType(y.typ) && y.op != "+" && s.cachedField(y, "retryCount") {
				r = y
			}
		})
	})
	return
}

func (s *capiScn) retryNext(t *Term) bool {
	ok := false
	walkTerm(t, func(y *Term) {
		if s.cachedField(y, "retryCount") && s.x.T.plus(y, 1, y.typ) == t {
			ok = true
		}
	})
	return ok
}

// memberLoop: the loops of a path comparing elements of a list with the id.
func (s *capiScn) inList(el, ids *Term) bool {
	if el.op != "init" || el.args[0].op != "indexaddr" {
		return false
	}
	b := el.args[0].args[0]
	if ids != nil {
		return b == ids
	}
	return s.cachedField(b, "sourceIds")
}

// found: the facts equate an element of the list with the id.
func (s *capiScn) found(o *Outcome, ids, id *Term) bool {
	hit := false
	o.St.facts.each(func(t *Term, v bool) {
		if v && t.op == "eq" {
			for i := 0; i < 2; i++ {
				if t.args[i] == id && s.inList(t.args[1-i], ids) {
					hit = true
				}
			}
		}
	})
	return hit
}

// notIn: a loop visited the whole list and every element differs.
func (s *capiScn) notIn(o *Outcome, ids, id *Term) bool {
	x := s.x
	var exits []*Event
	for _, e := range o.evs {
		if e.kind == EvLoopExit {
			exits = append(exits, e)
		}
	}
	for _, e := range o.evs {
		if e.kind != EvLoop {
			continue
		}
		l := e.loop
		lists := map[*Term]bool{}
		if ids != nil {
			lists[ids] = true
		} else {
			for _, it := range l.iters {
				it.facts.each(func(t *Term, v bool) {
					walkTerm(t, func(y *Term) {
						if y.op == "indexaddr" && s.cachedField(y.args[0], "sourceIds") {
							lists[y.args[0]] = true
						}
					})
				})
			}
		}
		for ls := range lists {
			cv, _ := x.covers(l, ls, exits)
			if cv == nil {
				continue
			}
			all := true
			for _, it := range l.iters {
				el := x.elemAt(it.mem, ls, cv.idx)
				if it.facts.Eval(x.T.Eq(el, id)) != -1 {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func (s *capiScn) notInCached(o *Outcome, id *Term) bool { return s.notIn(o, nil, id) }

// capiNames: related ids are the guids of the apps listed under each name.
func (c *C) capiNames() {
	const rule = "name translation"
	s, st := c.newCapi()
	x := s.x
	T := x.T
	fn := x.Fn("internal/auth", "*CAPIClient", "GetRelatedSourceIds")
	names, token := x.symOf("appNames", fn.Params[1].Type()), x.symOf("authToken", fn.Params[2].Type())
	rt := x.NamedType(authPkg, "resource")
	gf, nf := jsonField(rt, "guid"), jsonField(rt, "name")
	full, empty := 0, 0
	for _, o := range c.rets(x, x.Root(fn, st, []*Term{s.recv, names, token}, nil), rule, "GetRelatedSourceIds") {
		f := o.St.facts
		v := o.Vals[0]
		ls, failed := s.listings(o, token)
		if !c.ob(v.op == "makemap" && len(v.args) == 0, rule, "result", "the translation is %s, not a map of its own: %s", v, x.pathStr(o)) {
			continue
		}
		var ups []*Event
		var loop *LoopInfo
		for _, e := range o.evs {
			if e.kind == EvMapUpdate && e.args[0] == v {
				ups = append(ups, e)
			}
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					for _, d := range it.events {
						if d.kind == EvMapUpdate && d.args[0] == v {
							loop = e.loop
						}
					}
				}
			}
		}
		none := f.Eval(T.Eq(T.Len(names), T.Int(0))) == 1 || f.clone().entLE(T.Len(names), T.Int(0), 0)
		if failed || none || len(x.failures(o.evs, f)) > 0 {
			empty++
			c.ob(len(ups) == 0 && loop == nil, rule, "failed translation", "ids are related although a request failed, was not answered 200 or did not decode: %s", x.pathStr(o))
			continue
		}
		full++
		if !c.ob(len(ls) == 1 && ls[0].path == "/v3/apps" && ls[0].all != nil && len(ups) == 0, rule, "listing", "related ids do not come from one listing of the apps: %s", x.pathStr(o)) {
			continue
		}
		c.ob(ls[0].why == "", rule, "pages", "the listing of apps by name is incomplete (%s): %s", ls[0].why, x.pathStr(o))
		// what was asked
		asked := false
		for _, e := range o.evs {
			evs := []*Event{e}
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					evs = append(evs, it.events...)
				}
			}
			for _, d := range evs {
				if !isHTTPDo(d) {
					continue
				}
				u := x.LoadField(d.mem, d.args[len(d.args)-1], x.NamedType("net/http", "Request"), "URL")
				if _, first, why := s.capiURL(u, 0); why == "" {
					rq := x.LoadField(d.mem, first, x.NamedType("net/url", "URL"), "RawQuery")
					if rq.loop != nil {
						rq = x.settled(rq)
					}
					if rq.op == "ret" && rq.ev != nil && rq.ev.name == "(net/url.Values).Encode" {
						ns, ok := x.qval(rq.ev.mem, rq.ev.args[0], "names")
						if ok && len(ns) == 1 && s.joined(ns[0], names) {
							asked = true
						}
					}
				}
			}
		}
		c.ob(asked, rule, "names asked", "the listing is not restricted to exactly the given names: %s", x.pathStr(o))
		if !c.ob(loop != nil, rule, "ids", "the listed apps are not related to their names: %s", x.pathStr(o)) {
			continue
		}
		var exits []*Event
		for _, e := range o.evs {
			if e.kind == EvLoopExit {
				exits = append(exits, e)
			}
		}
		cv, why := x.covers(loop, ls[0].all, exits)
		if cv == nil {
			c.ob(false, rule, "ids", "not every listed app is related to its name (%s): %s", why, x.pathStr(o))
			continue
		}
		for _, it := range loop.iters {
			el := x.T.IndexAddr(ls[0].all, cv.idx, rt)
			g := x.loadMem(it.mem, x.FieldNamed(el, rt, gf), derefType(x.FieldNamed(el, rt, gf).typ))
			n := x.loadMem(it.mem, x.FieldNamed(el, rt, nf), derefType(x.FieldNamed(el, rt, nf).typ))
			k := 0
			for _, d := range it.events {
				if d.kind != EvMapUpdate || d.args[0] != v {
					continue
				}
				k++
				ok := d.args[1] == n && d.val.op == "append" && len(d.val.args) == 2 && d.val.args[1] == g && d.val.args[0].op == "lookup" && d.val.args[0].args[0] == v && d.val.args[0].args[1] == n
				c.ob(ok, rule, "ids", "a listed app does not add exactly its guid under its name (%s := %s): %s", d.args[1], d.val, x.pathStr(o))
			}
			c.ob(k == 1, rule, "ids", "a listed app is related %d times: %s", k, x.pathStr(o))
		}
	}
	c.need(full, 1, rule, "paths that translate names")
	c.need(empty, 2, rule, "paths that fail")
}

func (s *capiScn) joined(t, names *Term) bool {
	if t.op == "ret" || t.op == "pure" {
		n := t.sym
		a := t.args
		if t.ev != nil {
			n, a = t.ev.name, t.ev.args
		}
		if strings.HasSuffix(n, "strings.Join") && len(a) == 2 && a[0] == names {
			v, _ := a[1].StrVal()
			return v == ","
		}
	}
	return false
}

// capiPrune: only expired lists are dropped.
func (c *C) capiPrune() {
	const rule = "cache pruning"
	s, st := c.newCapi()
	x := s.x
	fn := x.Fn("internal/auth", "*CAPIClient", "pruneTokens")
	seen := map[*Event]bool{}
	dels, kept := 0, 0
	for _, o := range x.Root(fn, st, []*Term{s.recv}, nil) {
		allEvents(o.evs, func(e *Event) {
			if e.kind == EvMay && e.name == "typeassert" {
				c.ob(strings.Contains(e.val.String(), "rangeval:sync.Map"), rule, "crash", "pruning can crash the process: an assertion of %s in %s", e.val, x.where(e))
			}
			if e.kind == EvLoop {
				for _, it := range e.loop.iters {
					touched, lists := false, false
					for _, d := range it.events {
						if isExtCall(d) && len(d.args) > 0 && d.args[0] == s.cache {
							touched = true
						}
					}
					it.facts.each(func(t *Term, v bool) {
						walkTerm(t, func(y *Term) {
							if y.op == "rangekey" && y.args[0] == s.cache {
								lists = true
							}
						})
					})
					if lists && !touched {
						kept++
						c.ob(x.expiredFact(it.facts, false), rule, "expired kept", "a list that may have expired is kept (%s)", x.where(e))
					}
				}
			}
			if !isExtCall(e) || len(e.args) == 0 || e.args[0] != s.cache || seen[e] {
				return
			}
			switch e.name {
			case "(*sync.Map).Range", "(*sync.Map).Load":
				return
			case "(*sync.Map).Delete":
			default:
				c.ob(false, rule, "effect", "pruning changes the cache by %s, in %s", e.name, x.where(e))
				return
			}
			seen[e] = true
			dels++
			k := stripIface(e.args[1])
			c.ob(k.op == "rangekey" && k.args[0] == s.cache && x.expiredFact(e.facts, true), rule, "expired only", "a list is dropped although it is not known to have expired, in %s", x.where(e))
		})
	}
	c.need(dels, 1, rule, "dropped lists")
}

// expiredFact: the facts say that the list being visited has (not) expired.
func (x *X) expiredFact(f *Facts, want bool) bool {
	ok := false
	f.each(func(t *Term, v bool) {
		if t.op != "pure" || !strings.HasSuffix(t.sym, "Before") || len(t.args) != 2 {
			return
		}
		isExp := func(y *Term) bool {
			s := y.String()
			return strings.Contains(s, "expiresAt") && strings.Contains(s, "rangeval:sync.Map")
		}
		isNow := func(y *Term) bool {
			tick := y.op == "ret" && y.ev != nil && y.ev.kind == EvRecv && tickOf(y.ev.args[0], func(*Term) bool { return true })
			return isNow(y) || tick
		}
		if v == want && isExp(t.args[0]) && isNow(t.args[1]) || v != want && isNow(t.args[0]) && isExp(t.args[1]) {
			ok = true
		}
	})
	return ok
}
