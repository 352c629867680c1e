package hc

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
)

// A reference matcher of CSS selectors, written from the specification.

type matcher func(n *html.Node) bool

func tag(t string) matcher { return func(n *html.Node) bool { return n.Data == t } }

func attrOf(n *html.Node, key string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val, true
		}
	}
	return "", false
}

func cls(c byte) matcher {
	return func(n *html.Node) bool {
		v, _ := attrOf(n, "class")
		for i := 0; i < len(v); i++ {
			if v[i] == c && (i == 0 || v[i-1] == ' ') && (i+1 == len(v) || v[i+1] == ' ') {
				return true
			}
		}
		return false
	}
}

func and(ms ...matcher) matcher {
	return func(n *html.Node) bool {
		for _, m := range ms {
			if !m(n) {
				return false
			}
		}
		return true
	}
}

func or(ms ...matcher) matcher {
	return func(n *html.Node) bool {
		for _, m := range ms {
			if m(n) {
				return true
			}
		}
		return false
	}
}

func not(m matcher) matcher { return func(n *html.Node) bool { return !m(n) } }

func within(a matcher) matcher {
	return func(n *html.Node) bool {
		for p := n.Parent; p != nil; p = p.Parent {
			if p.Type == html.ElementNode && a(p) {
				return true
			}
		}
		return false
	}
}

func childOf(a matcher) matcher {
	return func(n *html.Node) bool {
		return n.Parent != nil && n.Parent.Type == html.ElementNode && a(n.Parent)
	}
}

func sibling(n *html.Node, next bool) *html.Node {
	for {
		if next {
			n = n.NextSibling
		} else {
			n = n.PrevSibling
		}
		if n == nil || n.Type == html.ElementNode {
			return n
		}
	}
}

func first(n *html.Node) bool { return sibling(n, false) == nil }
func last(n *html.Node) bool  { return sibling(n, true) == nil }
func after(a matcher) matcher {
	return func(n *html.Node) bool { p := sibling(n, false); return p != nil && a(p) }
}
func behind(a matcher) matcher {
	return func(n *html.Node) bool {
		for p := sibling(n, false); p != nil; p = sibling(p, false) {
			if a(p) {
				return true
			}
		}
		return false
	}
}
func has(a matcher) matcher {
	var h matcher
	h = func(n *html.Node) bool {
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if c.Type == html.ElementNode && (a(c) || h(c)) {
				return true
			}
		}
		return false
	}
	return h
}

type selector struct {
	flags []string // the values of the flag, given one after the other
	m     matcher
}

var selectors = []selector{
	0:  {[]string{"div"}, tag("div")},
	1:  {[]string{".m"}, cls('m')},
	2:  {[]string{"div.m"}, and(tag("div"), cls('m'))},
	3:  {[]string{"div, b"}, or(tag("div"), tag("b"))},
	4:  {[]string{"div", "b"}, or(tag("div"), tag("b"))},
	5:  {[]string{"div b"}, and(tag("b"), within(tag("div")))},
	6:  {[]string{"div > b"}, and(tag("b"), childOf(tag("div")))},
	7:  {[]string{"b:first-child"}, and(tag("b"), first)},
	8:  {[]string{"b:last-child"}, and(tag("b"), last)},
	9:  {[]string{"b + b"}, and(tag("b"), after(tag("b")))},
	10: {[]string{"div ~ div"}, and(tag("div"), behind(tag("div")))},
	11: {[]string{"body :not(.m)"}, and(not(cls('m')), within(tag("body")))},
	12: {[]string{"[class=m]"}, func(n *html.Node) bool { v, ok := attrOf(n, "class"); return ok && v == "m" }},
	13: {[]string{"[class]"}, func(n *html.Node) bool { _, ok := attrOf(n, "class"); return ok }},
	14: {[]string{"b:only-child"}, and(tag("b"), first, last)},
	15: {[]string{"div:has(b)"}, and(tag("div"), has(tag("b")))},
	16: {[]string{".m .m"}, and(cls('m'), within(cls('m')))},
	17: {[]string{".m", ".x"}, or(cls('m'), cls('x'))},
	18: {[]string{"*"}, func(n *html.Node) bool { return true }},
	19: {[]string{"main"}, tag("main")},
	20: {[]string{"body"}, tag("body")},
}

func args(flag string, s selector) (as []string) {
	for _, v := range s.flags {
		as = append(as, flag, v)
	}
	return
}

// page writes elements for a shape like "T(TT(T))": every T an element whose
// tag is free, with words between all tags.
type page struct {
	b     strings.Builder
	n     int
	tags  []string
	class int
	i     int
}

func (p *page) word() {
	p.n++
	p.b.WriteString("q" + string(rune('a'+p.n-1)) + "z")
}

func (p *page) forest(shape string) {
	for p.i < len(shape) && shape[p.i] != ')' {
		id := string(rune('0' + p.i))
		p.i++
		t := sym.Pick("tag"+id, p.tags...)
		p.b.WriteString("<" + t)
		if p.class > 0 {
			p.b.WriteString(` class="` + sym.StrIn("class"+id, p.class, "mx ") + `"`)
		}
		p.b.WriteString(">")
		p.word()
		if p.i < len(shape) && shape[p.i] == '(' {
			p.i++
			p.forest(shape)
			p.i++
		}
		p.b.WriteString("</" + t + ">")
		p.word()
	}
}

// words gives the letters of the words in the text.
func words(s string) string {
	var out []byte
	for i := 0; i+2 < len(s); i++ {
		if s[i] == 'q' && s[i+2] == 'z' {
			out = append(out, s[i+1])
		}
	}
	return string(out)
}

// C25_select runs the program with selectors: the words of the output are those
// that the selectors ask for, in the order of the document.
func C25_select() {
	p := &page{tags: strings.Fields(sym.ParamStr("tags", "div b")), class: sym.Param("class", 0)}
	p.word()
	p.forest(sym.ParamStr("shape", "T(T)T"))
	input := p.b.String()

	sels := func(name string) []selector {
		l := sym.ParamStr(name, "")
		if l == "" {
			return nil
		}
		var ss []selector
		for _, f := range strings.Split(l, ",") {
			ss = append(ss, selectors[num(f)])
		}
		return ss
	}
	var inc, exc matcher
	var as []string
	if ss := sels("include"); ss != nil {
		s := ss[sym.Index("include", len(ss))]
		inc, as = s.m, args("--include-selector", s)
	}
	if ss := sels("exclude"); ss != nil {
		s := ss[sym.Index("exclude", len(ss))]
		exc, as = s.m, append(as, args("--exclude-selector", s)...)
	}
	doc, err := html.Parse(strings.NewReader(input))
	must(err)
	var want strings.Builder
	var walk func(n *html.Node, in bool)
	walk = func(n *html.Node, in bool) {
		if n.Type == html.TextNode && in {
			want.WriteString(n.Data)
		}
		if n.Type == html.ElementNode {
			in = in || inc(n)
			if in && exc != nil && exc(n) {
				return
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, in)
		}
	}
	walk(doc, inc == nil)

	r := run(input, as...)
	sym.Observe("input", input)
	sym.Observe("stdout", r.stdout)
	sym.Assert(r.exit == 0 && r.stderr == "", "the program succeeds")
	w, o := words(want.String()), words(r.stdout)
	if w == "" {
		sym.Reach("no word")
	} else {
		sym.Reach("words")
	}
	sym.Observe("want", w)
	if w == o {
		sym.Assert(true, "the words that the selectors ask for, in their order")
		return
	}
	for i := 0; i < len(o); i++ {
		sym.Assert(strings.IndexByte(w, o[i]) >= 0, "no text outside what is included, none of what is excluded")
		sym.Assert(strings.Count(o, o[i:i+1]) == 1, "no text appears twice")
	}
	sym.Assert(len(w) == len(o), "all text that is included and not excluded")
	sym.Assert(false, "the text is in the order of the document")
}

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = 10*n + int(s[i]-'0')
	}
	return n
}
