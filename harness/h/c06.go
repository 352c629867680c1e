package h

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
)

// markSpot is a place of text, also inside constructs with a renderer of their own.
func markSpot(i int, s string) *html.Node {
	if i < nSpots {
		return spotOf(i, s).tree
	}
	switch i - nSpots {
	case 0:
		return doc(elem("pre", elem("code", text(s))))
	case 1:
		return doc(elem("p", text("x"), elem("code", text(s)), text("y")))
	case 2:
		return doc(elem("table", elem("tbody", elem("tr", elem("td", text(s)), elem("td", text("x"))), elem("tr", elem("td", elem("code", text(s)))))))
	case 3:
		return doc(elem("p", attr(attr(elem("img"), "src", "u"), "alt", s)))
	case 4:
		return doc(elem("p", attr(attr(elem("a", text(s)), "href", "u"), "title", s)))
	case 5:
		return doc(elem("blockquote", elem("pre", elem("code", text("x\n"+s+"\ny")))))
	case 6:
		return doc(elem("ul", elem("li", text("x"), elem("pre", elem("code", text("x\n"+s+"\ny"))))))
	case 7:
		return doc(elem("p", elem("del", text(s))))
	case 8:
		return doc(elem("h1", text(s+"#")))
	case 9:
		return doc(elem("ol", elem("li", elem("blockquote", elem("p", text(s))))))
	case 10:
		return doc(elem("table", elem("tbody", elem("tr", elem("td", elem("pre", text("x\n"+s)))))))
	case 11:
		return doc(attr(elem("pre", attr(elem("code", text("x")), "class", "language-"+s)), "class", s))
	case 12:
		return doc(elem("p", elem("kbd", text(s)), elem("var", text(s))))
	}
	panic("no such spot")
}

const nMarkSpots = nSpots + 13

func noMarkersIn(out string) bool {
	return strings.IndexByte(out, 7) < 0 && !strings.Contains(out, "\uf002")
}

// C06: no marker is left in the output.
func C06_markers() {
	s := sym.Str("text", sym.Param("n", 2))
	out := mustConvert(fullConv(), markSpot(sym.Param("ctx", 0), s))
	sym.Observe("out", out)
	sym.Assert(noMarkersIn(out), "no marker in the output")
}

// C06: with escaping disabled the input decides.
func C06_disabled() {
	s := sym.Str("text", sym.Param("n", 2))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 7)
	}
	out := mustConvert(noEscConv(), markSpot(sym.Param("ctx", 0), s))
	sym.Observe("out", out)
	sym.Assert(noMarkersIn(out), "no marker in the output")
}

// C06: raw HTML, where the text is not escaped.
func C06_html() {
	s := sym.Str("text", sym.Param("n", 2))
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
	c.Register.RendererFor("div", converter.TagTypeBlock, base.RenderAsHTML, converter.PriorityEarly)
	c.Register.RendererFor("u", converter.TagTypeInline, base.RenderAsHTMLWrapper, converter.PriorityEarly)
	out := mustConvert(c, doc(elem("div", text(s), elem("b", text("x"))), elem("p", text("x"), elem("u", text(s)))))
	sym.Observe("out", out)
	sym.Assert(noMarkersIn(out), "no marker in the output")
}
