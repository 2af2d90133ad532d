package main

// A small strict XML 1.0 reader with namespaces, for what manifests need: no DTD.

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

type xmlNode struct {
	ns, name string
	attrs    []xmlAttr
	text     string
	children []*xmlNode
}

type xmlAttr struct{ ns, name, value string }

func xmlChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

type xmlReader struct {
	s string
	p int
}

type xmlError string

func (x *xmlReader) fail(format string, args ...interface{}) {
	panic(xmlError(fmt.Sprintf(format, args...) + fmt.Sprintf(" at %d", x.p)))
}

func (x *xmlReader) has(s string) bool { return strings.HasPrefix(x.s[x.p:], s) }

func (x *xmlReader) eat(s string) {
	if !x.has(s) {
		x.fail("%q expected", s)
	}
	x.p += len(s)
}

func (x *xmlReader) space() bool {
	p := x.p
	for x.p < len(x.s) && strings.IndexByte(" \t\n\r", x.s[x.p]) >= 0 {
		x.p++
	}
	return x.p > p
}

func (x *xmlReader) name() string {
	p := x.p
	for x.p < len(x.s) {
		c := x.s[x.p]
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == ':' || x.p > p && (c >= '0' && c <= '9' || c == '-' || c == '.')
		if !ok {
			break
		}
		x.p++
	}
	if x.p == p {
		x.fail("name expected")
	}
	return x.s[p:x.p]
}

func (x *xmlReader) reference() string {
	x.eat("&")
	end := strings.IndexByte(x.s[x.p:], ';')
	if end < 0 {
		x.fail("unterminated reference")
	}
	ref := x.s[x.p : x.p+end]
	x.p += end + 1
	if v, ok := map[string]string{"amp": "&", "lt": "<", "gt": ">", "quot": `"`, "apos": "'"}[ref]; ok {
		return v
	}
	var n rune
	base, digits := rune(10), strings.TrimPrefix(ref, "#")
	if strings.HasPrefix(ref, "#x") {
		base, digits = 16, ref[2:]
	} else if !strings.HasPrefix(ref, "#") {
		x.fail("unknown entity %q", ref)
	}
	if digits == "" {
		x.fail("empty reference")
	}
	for _, c := range digits {
		d := rune(strings.IndexRune("0123456789abcdef", c))
		if c >= 'A' && c <= 'F' {
			d = c - 'A' + 10
		}
		if d < 0 || d >= base || n > 0x110000 {
			x.fail("bad reference %q", ref)
		}
		n = n*base + d
	}
	if !xmlChar(n) {
		x.fail("reference to illegal character %#x", n)
	}
	return string(n)
}

func (x *xmlReader) char() rune {
	r, n := utf8.DecodeRuneInString(x.s[x.p:])
	if r == utf8.RuneError && n <= 1 || !xmlChar(r) {
		x.fail("illegal character %#x", r)
	}
	x.p += n
	return r
}

func (x *xmlReader) attr() (string, string) {
	n := x.name()
	x.space()
	x.eat("=")
	x.space()
	q := "\""
	if x.has("'") {
		q = "'"
	}
	x.eat(q)
	var v strings.Builder
	for !x.has(q) {
		switch {
		case x.p >= len(x.s) || x.has("<"):
			x.fail("bad attribute")
		case x.has("&"):
			v.WriteString(x.reference())
		default:
			r := x.char()
			if r == '\t' || r == '\n' || r == '\r' {
				r = ' ' // attribute-value normalisation
			}
			v.WriteRune(r)
		}
	}
	x.eat(q)
	return n, v.String()
}

func (x *xmlReader) misc() bool {
	switch {
	case x.has("<!--"):
		x.p += 4
		end := strings.Index(x.s[x.p:], "--")
		if end < 0 || !strings.HasPrefix(x.s[x.p+end:], "-->") {
			x.fail("bad comment")
		}
		for stop := x.p + end; x.p < stop; {
			x.char()
		}
		x.p += 3
		return true
	case x.has("<?"):
		x.p += 2
		if n := x.name(); strings.EqualFold(n, "xml") {
			x.fail("misplaced declaration")
		}
		end := strings.Index(x.s[x.p:], "?>")
		if end < 0 {
			x.fail("bad processing instruction")
		}
		x.p += end + 2
		return true
	}
	return x.space()
}

func (x *xmlReader) element(ns map[string]string, depth int) *xmlNode {
	if depth > 100 {
		x.fail("too deep")
	}
	x.eat("<")
	q := x.name()
	scope := map[string]string{}
	for k, v := range ns {
		scope[k] = v
	}
	type raw struct{ n, v string }
	var attrs []raw
	seen := map[string]bool{}
	for {
		sp := x.space()
		if x.has(">") || x.has("/>") {
			break
		}
		if !sp {
			x.fail("blank expected")
		}
		n, v := x.attr()
		if seen[n] {
			x.fail("attribute %q occurs twice", n)
		}
		seen[n] = true
		switch {
		case n == "xmlns":
			scope[""] = v
		case strings.HasPrefix(n, "xmlns:"):
			if v == "" {
				x.fail("empty prefix")
			}
			scope[n[6:]] = v
		default:
			attrs = append(attrs, raw{n, v})
		}
	}
	resolve := func(q string, attr bool) (string, string) {
		i := strings.IndexByte(q, ':')
		if i < 0 {
			if attr {
				return "", q
			}
			return scope[""], q
		}
		if _, ok := scope[q[:i]]; !ok || i == 0 || i == len(q)-1 || strings.Contains(q[i+1:], ":") {
			x.fail("bad name %q", q)
		}
		return scope[q[:i]], q[i+1:]
	}
	e := &xmlNode{}
	e.ns, e.name = resolve(q, false)
	for _, a := range attrs {
		n, l := resolve(a.n, true)
		e.attrs = append(e.attrs, xmlAttr{n, l, a.v})
	}
	if x.has("/>") {
		x.p += 2
		return e
	}
	x.eat(">")
	var text strings.Builder
	for {
		switch {
		case x.p >= len(x.s):
			x.fail("unterminated element %q", q)
		case x.has("</"):
			x.p += 2
			if n := x.name(); n != q {
				x.fail("</%s> ends <%s>", n, q)
			}
			x.space()
			x.eat(">")
			e.text = text.String()
			return e
		case x.has("<![CDATA["):
			x.p += 9
			for !x.has("]]>") {
				if x.p >= len(x.s) {
					x.fail("unterminated CDATA")
				}
				text.WriteRune(x.char())
			}
			x.p += 3
		case x.has("<!--") || x.has("<?"):
			x.misc()
		case x.has("<"):
			e.children = append(e.children, x.element(scope, depth+1))
		case x.has("&"):
			text.WriteString(x.reference())
		case x.has("]]>"):
			x.fail("]]> in text")
		default:
			text.WriteRune(x.char())
		}
	}
}

// parseXML reads a document.
func parseXML(doc string) (root *xmlNode, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(xmlError)
			if !ok {
				panic(r)
			}
			root, err = nil, fmt.Errorf("not well-formed: %s", string(e))
		}
	}()
	doc = strings.TrimPrefix(doc, "\ufeff")
	doc = strings.ReplaceAll(strings.ReplaceAll(doc, "\r\n", "\n"), "\r", "\n") // end-of-line handling
	x := &xmlReader{s: doc}
	if x.has("<?xml") && len(doc) > 5 && strings.IndexByte(" \t\n", doc[5]) >= 0 {
		x.p += 5
		var names []string
		for x.space() && !x.has("?>") {
			n, v := x.attr()
			names = append(names, n)
			switch {
			case n == "version" && v == "1.0":
			case n == "encoding" && strings.EqualFold(v, "utf-8"):
			case n == "standalone" && (v == "yes" || v == "no"):
			default:
				x.fail("declaration: %s=%q", n, v)
			}
		}
		if s := strings.Join(names, " "); !strings.HasPrefix(s, "version") || s != "version" && s != "version encoding" && s != "version standalone" && s != "version encoding standalone" {
			x.fail("declaration: %s", s)
		}
		x.eat("?>")
	}
	for x.misc() {
	}
	root = x.element(map[string]string{"xml": "http://www.w3.org/XML/1998/namespace"}, 0)
	for x.misc() {
	}
	if x.p != len(doc) {
		x.fail("something after the root element")
	}
	return root, nil
}

// canon writes a node without what has no meaning: order of attributes and of elements, blanks between elements.
func (n *xmlNode) canon() string {
	var attrs, kids []string
	for _, a := range n.attrs {
		attrs = append(attrs, fmt.Sprintf("%s|%s=%q", a.ns, a.name, a.value))
	}
	sort.Strings(attrs)
	for _, c := range n.children {
		kids = append(kids, c.canon())
	}
	sort.Strings(kids)
	text := n.text
	if len(kids) > 0 && strings.Trim(text, " \t\n\r") == "" {
		text = ""
	}
	return fmt.Sprintf("<%s|%s %s>%q%s", n.ns, n.name, strings.Join(attrs, " "), text, "{"+strings.Join(kids, "")+"}")
}

func el(ns, name, text string, kids ...*xmlNode) *xmlNode {
	return &xmlNode{ns: ns, name: name, text: text, children: kids}
}

func (n *xmlNode) at(kv ...string) *xmlNode {
	for i := 0; i < len(kv); i += 2 {
		n.attrs = append(n.attrs, xmlAttr{"", kv[i], kv[i+1]})
	}
	return n
}
