package h

import (
	"strconv"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// A tree is written as a shape:
//
//	a..z  a letter of a text (A..Z in removed or replaced content)
//	?     a byte of the alphabet of the job
//	_     a space
//	T U V an element with one of the tags of the job (sparams tags, tags2, tags3)
//	{p}   a fixed element
//	(…)   its children
//	|     the end of a text (two text nodes in a row)
//	!(..) a comment
//	[…]   nodes that the reduced copy leaves out
type shaper struct {
	src     string
	pos     int
	picks   []string // tags, in order of appearance
	bytes   []string // free bytes, in order of appearance
	np, nb  int
	reduced bool // leave out what is in brackets
	skip    int
}

func tagList(which string) []string {
	def := "p,div,span,b,em,ul,ol,li,blockquote,h2,a,code,pre"
	return strings.Split(sym.ParamStr(which, def), ",")
}

func (p *shaper) nextTag(which string) string {
	if p.np == len(p.picks) {
		opts := tagList(which)
		n := "tag" + strconv.Itoa(p.np)
		if sym.Param("pick", 0) == 1 {
			p.picks = append(p.picks, sym.Pick(n, opts...))
		} else {
			p.picks = append(p.picks, sym.Choice(n, opts...))
		}
	}
	p.np++
	return p.picks[p.np-1]
}

func (p *shaper) nextByte() string {
	if p.nb == len(p.bytes) {
		n := "byte" + strconv.Itoa(p.nb)
		p.bytes = append(p.bytes, sym.StrIn(n, 1, sym.ParamStr("alpha", " \na")))
	}
	p.nb++
	return p.bytes[p.nb-1]
}

func shapeElem(tag string) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag}
	if sym.Param("pick", 0) == 1 {
		n.DataAtom = atom.Lookup([]byte(tag))
	}
	return n
}

func (p *shaper) children(parent *html.Node) {
	var txt []byte
	var parts []string
	flush := func() {
		if len(txt) > 0 {
			parts = append(parts, string(txt))
			txt = nil
		}
		if len(parts) > 0 {
			if p.skip == 0 {
				s := strings.Join(parts, "")
				// The parser never makes two texts in a row. So what is left out
				// must not leave two behind.
				if l := parent.LastChild; p.reduced && l != nil && l.Type == html.TextNode {
					l.Data += s
				} else {
					parent.AppendChild(text(s))
				}
			}
			parts = nil
		}
	}
	add := func(n *html.Node) {
		if p.skip == 0 {
			parent.AppendChild(n)
		}
		if p.pos < len(p.src) && p.src[p.pos] == '(' {
			p.pos++
			p.children(n)
			p.pos++ // )
		}
	}
	for p.pos < len(p.src) && p.src[p.pos] != ')' {
		c := p.src[p.pos]
		p.pos++
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'S' || c >= '0' && c <= '9' || c == '*':
			txt = append(txt, c)
		case c == '_':
			txt = append(txt, ' ')
		case c == '?':
			if len(txt) > 0 {
				parts = append(parts, string(txt))
				txt = nil
			}
			parts = append(parts, p.nextByte())
		case c == '|':
			flush()
		case c == '[':
			flush()
			if p.reduced {
				p.skip++
			}
		case c == ']':
			flush()
			if p.reduced {
				p.skip--
			}
		case c == 'T' || c == 'U' || c == 'V':
			flush()
			which := "tags"
			if c == 'U' {
				which = "tags2"
			} else if c == 'V' {
				which = "tags3"
			}
			n := shapeElem(p.nextTag(which))
			decorate(n)
			add(n)
		case c == '{':
			flush()
			e := strings.IndexByte(p.src[p.pos:], '}')
			n := elem(p.src[p.pos : p.pos+e])
			p.pos += e + 1
			decorate(n)
			add(n)
		case c == '!':
			flush()
			n := &html.Node{Type: html.CommentNode, Data: "C"}
			add(n)
			if n.FirstChild != nil {
				n.Data = n.FirstChild.Data
				n.FirstChild = nil
				n.LastChild = nil
			}
		default:
			panic("bad shape")
		}
	}
	flush()
}

// decorate gives the elements their usual attributes.
func decorate(n *html.Node) {
	switch n.Data {
	case "a":
		attr(n, "href", "/U")
	case "img":
		attr(attr(n, "src", "/U"), "alt", "")
	}
}

// shaped is the document of the job.
func shaped() (*html.Node, *shaper) {
	p := &shaper{src: sym.ParamStr("shape", "{p}(a)")}
	return p.build(), p
}

// build makes another copy of the tree.
func (p *shaper) build() *html.Node {
	p.pos, p.np, p.nb, p.skip = 0, 0, 0, 0
	body := elem("body")
	p.children(body)
	d := &html.Node{Type: html.DocumentNode}
	d.AppendChild(elem("html", elem("head"), body))
	return d
}

// reduce makes a copy without the nodes in brackets.
func (p *shaper) reduce() *html.Node {
	p.reduced = true
	return p.build()
}

// letters is the sequence of the marked letters of the text.
func letters(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			out = append(out, s[i])
		}
	}
	return string(out)
}

func textOf(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += textOf(c)
	}
	return s
}

// wellFormed says whether the links of the nodes below n agree.
func wellFormed(n *html.Node, depth int) bool {
	if depth > 40 {
		return false
	}
	var prev *html.Node
	k := 0
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		k++
		if k > 60 || c.Parent != n || c.PrevSibling != prev || !wellFormed(c, depth+1) {
			return false
		}
		prev = c
	}
	return n.LastChild == prev
}
