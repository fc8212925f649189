package main

// A reader for the subset of proto3 used by /repo/api: messages (nested),
// enums, oneofs, maps, services with google.api.http annotations.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"text/scanner"
)

type protoField struct {
	name, typ, key string // key: map key type
	num            string
	rep            bool
	oneof          string
}

type protoMsg struct {
	name   string // dotted, without package
	fields []protoField
	nested []*protoMsg
}

type protoEnum struct {
	name string
	vals [][2]string
}

type protoRPC struct{ service, name, in, out, get string }

type protoFile struct {
	pkg   string
	msgs  []*protoMsg
	enums []*protoEnum
	rpcs  []protoRPC
}

func parseProtos(dir string) (*protoFile, error) {
	names, _ := filepath.Glob(filepath.Join(dir, "*.proto"))
	sort.Strings(names)
	if len(names) == 0 {
		return nil, fmt.Errorf("no .proto files in %s", dir)
	}
	out := &protoFile{}
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		p := &protoParser{f: out}
		p.s.Init(strings.NewReader(string(b)))
		p.s.Mode = scanner.ScanIdents | scanner.ScanInts | scanner.ScanStrings | scanner.ScanComments | scanner.SkipComments
		p.s.Error = func(*scanner.Scanner, string) {}
		p.next()
		if err := p.file(); err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(n), err)
		}
	}
	return out, nil
}

type protoParser struct {
	s   scanner.Scanner
	tok string
	f   *protoFile
}

func (p *protoParser) next() string {
	t := p.tok
	if p.s.Scan() == scanner.EOF {
		p.tok = ""
	} else {
		p.tok = p.s.TokenText()
	}
	return t
}

func (p *protoParser) until(stop string) string {
	var s strings.Builder
	for p.tok != "" && p.tok != stop {
		s.WriteString(p.next())
	}
	p.next()
	return s.String()
}

func (p *protoParser) expect(t string) error {
	if p.tok != t {
		return fmt.Errorf("line %d: %q where %q was expected", p.s.Line, p.tok, t)
	}
	p.next()
	return nil
}

func (p *protoParser) name() string {
	n := p.next()
	for p.tok == "." {
		p.next()
		n += "." + p.next()
	}
	return n
}

func (p *protoParser) file() error {
	for p.tok != "" {
		switch p.next() {
		case ";":
		case "syntax":
			if s := p.until(";"); s != `="proto3"` {
				return fmt.Errorf("syntax %s", s)
			}
		case "package":
			p.f.pkg = p.until(";")
		case "import", "option":
			p.until(";")
		case "message":
			m, err := p.message("")
			if err != nil {
				return err
			}
			p.f.msgs = append(p.f.msgs, m)
		case "enum":
			if err := p.enum(""); err != nil {
				return err
			}
		case "service":
			if err := p.service(); err != nil {
				return err
			}
		default:
			return fmt.Errorf("line %d: unexpected declaration", p.s.Line)
		}
	}
	return nil
}

func (p *protoParser) enum(prefix string) error {
	e := &protoEnum{name: prefix + p.next()}
	if err := p.expect("{"); err != nil {
		return err
	}
	for p.tok != "}" && p.tok != "" {
		n := p.next()
		if err := p.expect("="); err != nil {
			return err
		}
		v := p.until(";")
		e.vals = append(e.vals, [2]string{n, v})
	}
	p.next()
	p.f.enums = append(p.f.enums, e)
	return nil
}

func (p *protoParser) message(prefix string) (*protoMsg, error) {
	m := &protoMsg{name: prefix + p.next()}
	if err := p.expect("{"); err != nil {
		return nil, err
	}
	for p.tok != "}" && p.tok != "" {
		switch p.tok {
		case ";":
			p.next()
		case "message":
			p.next()
			n, err := p.message(m.name + ".")
			if err != nil {
				return nil, err
			}
			m.nested = append(m.nested, n)
		case "enum":
			p.next()
			if err := p.enum(m.name + "."); err != nil {
				return nil, err
			}
		case "oneof":
			p.next()
			o := p.next()
			if err := p.expect("{"); err != nil {
				return nil, err
			}
			for p.tok != "}" && p.tok != "" {
				if err := p.field(m, o); err != nil {
					return nil, err
				}
			}
			p.next()
		case "option", "reserved":
			p.until(";")
		default:
			if err := p.field(m, ""); err != nil {
				return nil, err
			}
		}
	}
	p.next()
	return m, nil
}

func (p *protoParser) field(m *protoMsg, oneof string) error {
	f := protoField{oneof: oneof}
	if p.tok == "repeated" {
		p.next()
		f.rep = true
	}
	f.typ = p.name()
	if f.typ == "map" && p.tok == "<" {
		p.next()
		f.key = p.name()
		if err := p.expect(","); err != nil {
			return err
		}
		f.typ = p.name()
		if err := p.expect(">"); err != nil {
			return err
		}
	}
	f.name = p.next()
	if err := p.expect("="); err != nil {
		return err
	}
	f.num = p.until(";")
	m.fields = append(m.fields, f)
	return nil
}

func (p *protoParser) service() error {
	svc := p.next()
	if err := p.expect("{"); err != nil {
		return err
	}
	for p.tok != "}" && p.tok != "" {
		if p.tok == ";" {
			p.next()
			continue
		}
		if err := p.expect("rpc"); err != nil {
			return err
		}
		r := protoRPC{service: svc, name: p.next()}
		p.expect("(")
		r.in = p.name()
		p.expect(")")
		p.expect("returns")
		p.expect("(")
		r.out = p.name()
		if err := p.expect(")"); err != nil {
			return err
		}
		if p.tok == "{" {
			depth := 0
			for p.tok != "" {
				t := p.next()
				if t == "{" {
					depth++
				}
				if t == "}" {
					if depth--; depth == 0 {
						break
					}
				}
				if t == "get" && p.tok == ":" {
					p.next()
					r.get = strings.Trim(p.next(), `"`)
				}
			}
		}
		p.f.rpcs = append(p.f.rpcs, r)
	}
	p.next()
	return nil
}
