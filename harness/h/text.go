package h

import (
	"strings"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
)

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// collapsed is the reference for HTML whitespace: runs become one space.
// NUL bytes become U+FFFD.
func collapsed(s string) string {
	out := make([]byte, 0, len(s))
	ws := false
	for i := 0; i < len(s); i++ {
		if isWS(s[i]) {
			if !ws {
				out = append(out, ' ')
			}
			ws = true
			continue
		}
		ws = false
		if s[i] == 0 {
			out = append(out, "\ufffd"...)
		} else {
			out = append(out, s[i])
		}
	}
	return string(out)
}

// noMarkers excludes the two reserved marker characters (U+0007 and U+F002,
// documented as reserved in package marker).
func noMarkers(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 7)
		if i+2 < len(s) {
			sym.Assume(!(s[i] == 0xef && s[i+1] == 0x80 && s[i+2] == 0x82))
		}
	}
}

// noRefs excludes literal character references (not escaped by design, see issue 178).
func noRefs(s string) {
	for i := 0; i+3 < len(s); i++ {
		sym.Assume(!(s[i] == '&' && (s[i+1] == 'l' || s[i+1] == 'g') && s[i+2] == 't' && s[i+3] == ';'))
	}
}

// freeText is an arbitrary text. The parameter alpha restricts it to
// characters with a meaning (and a few without).
func freeText(name string, n int) string {
	s := sym.ParamStr("tpre", "") + freeBytes(name, n)
	if m := sym.Param("m", 0); m > 0 {
		s += sym.ParamStr("tmid", "a") + freeBytes(name+"2", m)
	}
	s += sym.ParamStr("tpost", "")
	noMarkers(s)
	noRefs(s)
	return s
}

func freeBytes(name string, n int) string {
	switch sym.Param("alpha", 0) {
	case 1:
		return sym.StrIn(name, n, "#-=+*_`~>19.)( \n\t!|\\[]<&:/a;")
	case 2:
		return sym.StrIn(name, n, "-=*_+#`~>1.) a")
	case 3:
		return sym.StrIn(name, n, "*_[]()!`<> \\a.")
	case 4:
		return sym.StrIn(name, n, "-=*_ ")
	case 5:
		return sym.StrIn(name, n, "`~* a")
	case 6:
		return sym.StrIn(name, n, "|-: a\\")
	case 7:
		return sym.StrIn(name, n, "~`*\\ a.[")
	}
	return sym.Str(name, n)
}

// spot is a place a text can stand at.
type spot struct {
	tree      *html.Node
	pre, post string              // what the output has around the text
	want      func(string) string // the structure a reader should see
	l, r      string              // what directly surrounds the text, "" at the edge of the block
	lbr       bool                // the left edge is a line break
}

func spotOf(i int, s string) spot {
	switch i {
	case 0: // a paragraph of its own
		return spot{tree: doc(elem("p", text(s))), want: func(t string) string { return mP(t) }}
	case 1: // inside a word
		return spot{tree: doc(elem("p", text("x"+s+"y"))), want: func(t string) string { return mP("x" + t + "y") }, l: "x", r: "y", pre: "x", post: "y"}
	case 2: // after a line break
		return spot{tree: doc(elem("p", text("x"), elem("br"), text(s+"y"))), want: func(t string) string { return mP("x" + mBR + t + "y") }, r: "y", lbr: true, pre: "x  \n", post: "y"}
	case 3: // between words
		return spot{tree: doc(elem("p", text("x "+s+" y"))), want: func(t string) string { return mP("x" + t + "y") }, l: " ", r: " ", pre: "x", post: "y"}
	case 4: // a list item
		return spot{tree: doc(elem("ul", elem("li", text(s)))), want: func(t string) string { return mk("ul", mk("li", mP(t))) }, pre: "- "}
	case 5: // a quote
		return spot{tree: doc(elem("blockquote", elem("p", text(s)))), want: func(t string) string { return mk("q", mP(t)) }, pre: "> "}
	case 6: // a heading
		return spot{tree: doc(elem("h2", text(s))), want: func(t string) string { return mk("h2", t) }, pre: "## "}
	case 7: // link text
		return spot{tree: doc(elem("p", attr(elem("a", text("x"+s+"y")), "href", "u"))), want: func(t string) string { return mP(mk("a", "u", mk("t"), "x"+t+"y")) }, l: "x", r: "y", pre: "[x", post: "y](u)"}
	case 8: // emphasis
		return spot{tree: doc(elem("p", elem("em", text("x"+s+"y")))), want: func(t string) string { return mP(mk("em", "x"+t+"y")) }, l: "x", r: "y", pre: "*x", post: "y*"}
	case 9: // in several pieces
		k := sym.Param("cut", 1)
		return spot{tree: doc(elem("p", elem("span", text(s[:k])), text(s[k:]))), want: func(t string) string { return mP(t) }}
	case 10: // a paragraph in a list item, after another one
		return spot{tree: doc(elem("ul", elem("li", elem("p", text("x")), elem("p", text(s+"y"))))), want: func(t string) string { return mk("ul", mk("li", mP("x"), mP(t+"y"))) }, r: "y", pre: "- x\n  \n  ", post: "y"}
	case 11: // an ordered list in a quote
		return spot{tree: doc(elem("blockquote", elem("ol", elem("li", text(s))))), want: func(t string) string { return mk("q", mk("ol1", mk("li", mP(t)))) }, pre: "> 1. "}
	case 12: // in front of a line break
		return spot{tree: doc(elem("p", text(s), elem("br"), text("y"))), want: func(t string) string { return mP(t + mBR + "y") }, post: "  \ny"}
	case 13: // strong
		return spot{tree: doc(elem("p", elem("strong", text("x"+s+"y")))), want: func(t string) string { return mP(mk("strong", "x"+t+"y")) }, l: "x", r: "y", pre: "**x", post: "y**"}
	case 14: // two paragraphs
		return spot{tree: doc(elem("p", text("x")), elem("p", text(s))), want: func(t string) string { return mP("x") + mP(t) }, pre: "x\n\n"}
	case 15: // a bare text in the body, after a block
		return spot{tree: doc(elem("p", text("x")), text(s)), want: func(t string) string { return mP("x") + mP(t) }, pre: "x\n\n"}
	case 16: // after a list
		return spot{tree: doc(elem("ul", elem("li", text("x"))), elem("p", text(s))), want: func(t string) string { return mk("ul", mk("li", mP("x"))) + mP(t) }, pre: "- x\n\n"}
	}
	panic("no such spot")
}

const nSpots = 17

// empty is the structure if the text has no content.
func (p spot) empty(i int) string {
	switch i {
	case 14, 15:
		return mP("x")
	case 16:
		return mk("ul", mk("li", mP("x")))
	case 12:
		return mP("y")
	}
	return ""
}

// inBlock is the text as it should be shown at the spot.
func (p spot) inBlock(s string) string {
	t := collapsed(p.l + s + p.r)
	if p.l != " " {
		t = t[len(p.l):]
	}
	if p.r != " " {
		t = t[:len(t)-len(p.r)]
	}
	// Space at the edges of a block is not content.
	if p.l == "" {
		if p.lbr {
			t = strings.TrimLeft(t, " ")
		} else {
			t = strings.TrimLeftFunc(t, unicode.IsSpace)
		}
	}
	if p.r == "" {
		t = strings.TrimRightFunc(t, unicode.IsSpace)
	}
	return t
}

func (p spot) open() bool { return p.l == "" && !p.lbr && p.r == "" }
