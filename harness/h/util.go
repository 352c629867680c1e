package h

import (
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

func text(s string) *html.Node { return &html.Node{Type: html.TextNode, Data: s} }

func elem(tag string, kids ...*html.Node) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag, DataAtom: atom.Lookup([]byte(tag))}
	for _, k := range kids {
		n.AppendChild(k)
	}
	return n
}

func attr(n *html.Node, key, val string) *html.Node {
	n.Attr = append(n.Attr, html.Attribute{Key: key, Val: val})
	return n
}

// doc wraps the nodes in the tree the parser makes of a document.
func doc(kids ...*html.Node) *html.Node {
	d := &html.Node{Type: html.DocumentNode}
	d.AppendChild(elem("html", elem("head"), elem("body", kids...)))
	return d
}

func stdConv(opts ...commonmark.OptionFunc) *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(opts...)))
}

func mustConvert(c *converter.Converter, n *html.Node) string {
	out, err := c.ConvertNode(n)
	sym.Assert(err == nil, "the conversion returns no error")
	return string(out)
}

// treeConv is the converter of the tree checks: conv=0 the standard plugins,
// 1 all plugins, 2 escaping disabled, 3 setext headings and other delimiters,
// 4 no list end comments, 5 all plugins with other options, 6 and escaping disabled.
func treeConv() *converter.Converter {
	switch sym.Param("conv", 0) {
	case 1:
		return fullConv()
	case 2:
		return noEscConv()
	case 3:
		return stdConv(commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext), commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__"))
	case 4:
		return stdConv(commonmark.WithListEndComment(false))
	case 5:
		return allConv(false)
	case 6:
		return allConv(true)
	}
	return stdConv()
}
