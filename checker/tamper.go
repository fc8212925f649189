package main

import (
	"go/types"
	"strings"
)

// insideOf: t is root, or a location or value found by following root's own
// contents (an index or a key that comes from root does not count).
func insideOf(t, root *Term) bool {
	for t != nil {
		if t == root {
			return true
		}
		switch t.op {
		case "fieldaddr", "indexaddr", "mapelem", "maphas", "slice", "bufof", "assert", "mkiface", "conv", "init", "lookup", "rangeval", "field", "extract", "append":
			if len(t.args) == 0 {
				return false
			}
			if t.op == "append" {
				for _, a := range t.args[1:] {
					if insideOf(a, root) {
						return true
					}
				}
			}
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// readsOnly: a call that leaves its arguments as they are.
func readsOnly(e *Event) bool {
	n := e.name
	n = strings.TrimPrefix(strings.TrimPrefix(n, "(*"), "(")
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Fprint", "fmt.Print", "log.", "errors.", "strings.", "bytes.", "strconv.", "unicode/utf8.", "reflect.DeepEqual", "slices.Index", "slices.Contains", "slices.Equal", "slices.Clone", "maps.Equal", "maps.Clone", "maps.Keys", "maps.Values", "math.", "time."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	m := n[strings.LastIndexAny(n, ".)")+1:]
	if strings.HasPrefix(m, "Get") || strings.HasPrefix(m, "Marshal") {
		return true
	}
	switch m {
	case "String", "Error", "Size", "Equal", "Clone", "ProtoMessage", "ProtoSize", "Descriptor", "XXX_Size", "XXX_WellKnownType", "Len", "Header", "Close":
		return true
	}
	return false
}

// tampered: how a path changes what it finds inside root after the event
// from (nil: anywhere), or "" if it leaves that as it is.
func (x *X) tampered(o *Outcome, root *Term, from *Event) string {
	bad := ""
	say := func(e *Event, what string) {
		if bad == "" {
			bad = what + " at " + x.where(e)
		}
	}
	started := from == nil
	allEvents(o.evs, func(e *Event) {
		if !started {
			started = e == from
			return
		}
		switch e.kind {
		case EvStore:
			if e.addr != nil && e.addr != root && insideOf(e.addr, root) {
				say(e, "overwrites part of it")
			}
		case EvMapUpdate:
			if e.addr != nil && insideOf(e.addr, root) {
				say(e, "changes a map in it")
			}
		case EvCall:
			if e.inl || len(e.args) == 0 {
				return
			}
			switch e.name {
			case "builtin.copy", "builtin.clear":
				if insideOf(e.args[0], root) {
					say(e, "overwrites part of it")
				}
				return
			}
			if strings.HasPrefix(e.name, "builtin.") || readsOnly(e) {
				return
			}
			for i, a := range e.args {
				b := stripIface(a)
				if i == 0 && e.name == "encoding/json.Unmarshal" {
					continue // only read
				}
				if !insideOf(b, root) || b.typ == nil {
					continue
				}
				switch b.typ.Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
					say(e, "hands it to "+e.name)
				}
			}
		}
	})
	if bad != "" || o.St == nil {
		return bad
	}
	if isFreshObj(root) {
		for k, v := range o.St.mem.m {
			if rootOf(k) == root && v != nil && !(v.op == "init" && v.args[0] == k) {
				return "sets " + k.String() + " to " + v.String()
			}
		}
	}
	return ""
}

// partOf: t is built from src by a step that may leave some of it out or
// change it: a limited reader, a slice of it, a trimmed or replaced text.
func partOf(t, src *Term) *Term {
	var found *Term
	seen := map[*Term]bool{}
	var w func(y *Term)
	w = func(y *Term) {
		if y == nil || seen[y] || y == src {
			return
		}
		seen[y] = true
		args := y.args
		name := y.sym
		if y.op == "ret" && y.ev != nil {
			args, name = y.ev.args, y.ev.name
		}
		lossy := y.op == "slice" || y.op == "substr"
		for _, p := range []string{"io.LimitReader", "io.NewSectionReader", "io.MultiReader", "strings.Trim", "bytes.Trim", "strings.Replace", "bytes.Replace", "strings.To", "bytes.To", "strings.Map", "bytes.Map", "strings.Split", "bytes.Split", "strings.Cut", "bytes.Cut", "io.ReadFull", "io.ReadAtLeast"} {
			if strings.HasPrefix(name, p) && !strings.Contains(name, "TrimSpace") {
				lossy = true
			}
		}
		if lossy && derives(y, src) {
			found = y
		}
		for _, a := range args {
			w(a)
		}
	}
	w(t)
	return found
}

// foreign: how a path changes something it did not make itself, or "".
// ours says what else may be written.
func (x *X) foreign(evs []*Event, ours func(addr *Term) bool) string {
	bad := ""
	own := func(a *Term) bool {
		return isFreshObj(rootOf(a)) || ours != nil && ours(a)
	}
	say := func(e *Event, what string) {
		if bad == "" {
			bad = what + " at " + x.where(e)
		}
	}
	allEvents(evs, func(e *Event) {
		switch e.kind {
		case EvStore, EvMapUpdate:
			if e.addr != nil && !own(e.addr) {
				say(e, "changes "+e.addr.String())
			}
		case EvCall:
			if e.inl || len(e.args) == 0 {
				return
			}
			writes := e.name == "builtin.copy" || e.name == "builtin.clear"
			for _, p := range []string{"sort.", "slices.", "maps.", "math/rand"} {
				if strings.HasPrefix(e.name, p) && !readsOnly(e) && !strings.Contains(e.name, "Search") && !strings.Contains(e.name, "AreSorted") && !strings.Contains(e.name, "IsSorted") {
					writes = true
				}
			}
			if a := stripIface(e.args[0]); writes && a.typ != nil {
				switch a.typ.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					if !own(a) {
						say(e, "reorders or changes "+a.String())
					}
				}
			}
		}
	})
	return bad
}

// onlyOwn: no path of what changes anything but what it made.
func (c *C) onlyOwn(x *X, outs []*Outcome, rule, what string, ours func(addr *Term) bool) {
	for _, o := range outs {
		how := x.foreign(o.evs, ours)
		c.ob(how == "", rule, what+" changes what it was given", "%s %s: %s", what, how, x.pathStr(o))
	}
}

// isMessage: a generated protocol message.
func isMessage(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case lcv1, "code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2":
		return structOf(t) != nil
	}
	return false
}

// inMessage: the address lies in a message that was not made here; the
// message itself.
func inMessage(a *Term) *Term {
	var m *Term
	if a.typ != nil {
		// the elements of somebody's list of messages
		if sl, ok := a.typ.Underlying().(*types.Slice); ok && isMessage(sl.Elem()) && a.op != "append" && !isFreshObj(rootOf(a)) && !isLoopCarried(a) {
			return a
		}
	}
	for t := a; t != nil; {
		if isFreshObj(t) {
			return nil
		}
		if m == nil && t.typ != nil && t != a && t.op != "fieldaddr" && t.op != "indexaddr" && isMessage(t.typ) {
			// a request is its handler's own
			if strings.HasSuffix(t.typ.String(), "Request") {
				return nil
			}
			m = t
		}
		if len(t.args) == 0 {
			return m
		}
		switch t.op {
		case "fieldaddr", "indexaddr", "mapelem", "slice", "assert", "mkiface", "conv", "init", "lookup", "rangeval", "field", "extract":
			t = t.args[0]
		default:
			return m
		}
	}
	return m
}

// messagesKept: no path changes a message it did not make.
func (c *C) messagesKept(x *X, outs []*Outcome, rule, what string) {
	for _, o := range outs {
		how := x.foreign(o.evs, func(a *Term) bool { return inMessage(a) == nil })
		if how != "" {
			c.ob(false, rule, what+" changes a message", "%s %s: %s", what, how, x.pathStr(o))
		}
	}
}

func isLoopCarried(t *Term) bool { return t.loop != nil }
