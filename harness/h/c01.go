package h

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// allConv has every plugin with other options than the default ones.
func allConv(noEsc bool) *converter.Converter {
	mode := converter.EscapeModeSmart
	if noEsc {
		mode = converter.EscapeModeDisabled
	}
	return converter.NewConverter(converter.WithEscapeMode(mode), converter.WithPlugins(
		base.NewBasePlugin(),
		commonmark.NewCommonmarkPlugin(
			commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext),
			commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__"),
			commonmark.WithBulletListMarker("*"), commonmark.WithCodeBlockFence("~~~"),
			commonmark.WithHorizontalRule("---"), commonmark.WithListEndComment(false),
			commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip), commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip),
		),
		strikethrough.NewStrikethroughPlugin(),
		table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanBehaviorMirror), table.WithNewlineBehavior(table.NewlineBehaviorPreserve),
			table.WithHeaderPromotion(true), table.WithSkipEmptyRows(true), table.WithPresentationTables(true), table.WithCellPaddingBehavior(table.CellPaddingBehaviorMinimal)),
	))
}

// C01: the conversion of any tree returns, without an error. A panic or a
// path that does not end is reported by the machine itself.
func C01_tree() {
	d, _ := shaped()
	if sym.Param("bare", 0) == 1 {
		// not a document but only its first element
		body := d.FirstChild.LastChild
		d = body.FirstChild
		body.RemoveChild(d)
	}
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
}

// C01: attributes can have any value.
func C01_attr() {
	key := sym.ParamStr("key", "href")
	v := sym.ParamStr("pre", "") + sym.Str("value", sym.Param("n", 2)) + sym.ParamStr("post", "")
	p := &shaper{src: sym.ParamStr("shape", "{p}(a)")}
	d := p.build()
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.ElementNode {
			set := false
			for i := range n.Attr {
				if n.Attr[i].Key == key {
					n.Attr[i].Val = v
					set = true
				}
			}
			if !set {
				attr(n, key, v)
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(d)
	var opts []converter.ConvertOptionFunc
	if dom := sym.ParamStr("domain", ""); dom != "" {
		opts = append(opts, converter.WithDomain(dom))
	}
	out, err := treeConv().ConvertNode(d, opts...)
	sym.Observe("out", string(out))
	sym.Assert(err == nil, "the conversion returns no error")
}

// C01: any text as HTML.
func C01_html() { htmlText() }

// C10: the output for any text as HTML.
func C10_html() {
	s, out := htmlText()
	noMarkers(s)
	sym.Assert(strings.TrimSpace(out) == out, "the output is trimmed")
	sym.Assert(!strings.Contains(out, "\n\n\n"), "at most one blank line between blocks")
}

func htmlText() (string, string) {
	var s string
	if a := sym.ParamStr("alpha", ""); a != "" {
		s = sym.StrIn("html", sym.Param("n", 3), a)
	} else {
		s = sym.Str("html", sym.Param("n", 3))
	}
	s = sym.ParamStr("pre", "") + s + sym.ParamStr("post", "")
	out, err := treeConv().ConvertString(s)
	sym.Observe("out", out)
	sym.Assert(err == nil, "the conversion returns no error")
	return s, out
}

// C01: any domain.
func C01_domain() {
	domain := sym.ParamStr("pre", "") + sym.Str("domain", sym.Param("n", 2)) + sym.ParamStr("post", "")
	h := sym.ParamStr("href", "/x")
	n := attr(elem("a", text("x")), "href", h)
	if sym.Param("img", 0) == 1 {
		n = attr(elem("img"), "src", h)
	}
	out, err := treeConv().ConvertNode(doc(elem("p", n)), converter.WithDomain(domain))
	sym.Observe("out", string(out))
	sym.Assert(err == nil, "the conversion returns no error")
}
