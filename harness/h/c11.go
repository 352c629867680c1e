package h

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

// C11: what is in brackets in the shape is removed: the output is that of the
// tree without it. The tags of U are the removed ones.
func C11_removed() {
	d, p := shaped()
	c := treeConv()
	c.Register.TagType("zz", converter.TagTypeRemove, converter.PriorityStandard)
	c.Register.TagType("section", converter.TagTypeRemove, converter.PriorityEarly)
	out := mustConvert(c, d)
	sym.Observe("out", out)
	for i := 0; i < len(out); i++ {
		sym.Assert(!(out[i] >= 'A' && out[i] <= 'S'), "no trace of what is removed")
	}
	without := mustConvert(c, p.reduce())
	sym.Observe("without", without)
	sym.Assert(out == without, "the rest is not affected")
	sym.Assert(strings.Contains(out, "```") || !strings.Contains(out, "a  b"), "one space between words")
}

// C27: after the rewriting before rendering the tree is well formed, has the
// same text, and emphasis is not nested in emphasis nor links in links.
func C27_rewrite() {
	d, _ := shaped()
	want := letters(textOf(d))
	links := marked(d, linkTag, false)
	strong := marked(d, emphTag, false)
	code := marked(d, codeTag, false)
	blocks := map[*html.Node]bool{}
	collectBlocks(d, blocks)
	inside := blockChains(d, blocks)
	c := treeConv()
	seen := false
	c.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
		seen = true
		sym.Assert(doc == d && doc.Parent == nil, "the document is the same")
		sym.Assert(wellFormed(doc, 0), "the tree is well formed")
		sym.Assert(letters(textOf(doc)) == want, "the text is the same")
		sym.Assert(!nested(doc, "b", "strong", false), "no strong in strong")
		sym.Assert(!nested(doc, "em", "i", false), "no emphasis in emphasis")
		sym.Assert(!nested(doc, "a", "a", false), "no link in a link")
		sym.Assert(marked(doc, linkTag, false) == links, "the same text is linked")
		sym.Assert(marked(doc, codeTag, false) == code, "the same text is code")
		sym.Assert(sameChains(inside, blockChains(doc, blocks)), "the text is in the same blocks")
		now := marked(doc, emphTag, false)
		ok := len(now) == len(strong)
		for i := 0; ok && i < len(now); i++ {
			ok = now[i] == '1' || strong[i] == '0'
		}
		sym.Assert(ok, "what was emphasized still is")
		sym.Assert(hrefs(doc), "links keep their target")
		sym.Assert(onlyItems(doc), "a list has only items")
		sym.Assert(!blockInInline(doc, false), "no heading, list, quote or code block inside a heading, link or emphasis")
	}, converter.PriorityLate+200)
	out := mustConvert(c, d)
	sym.Observe("out", out)
	sym.Assert(seen, "the handler ran")
}

func codeTag(t string) bool {
	return t == "code" || t == "pre" || t == "kbd" || t == "samp" || t == "tt" || t == "var"
}

// collectBlocks: the blocks of the document, but for headings (which in a
// heading or link become something else). A list can put what is directly
// in it into an item, so items count only where they say which list.
func collectBlocks(n *html.Node, blocks map[*html.Node]bool) {
	if n.Type == html.ElementNode {
		switch n.Data {
		case "p", "div", "ul", "ol", "li", "blockquote", "pre", "section", "table", "td", "hr":
			blocks[n] = true
		}
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		collectBlocks(c, blocks)
	}
}

// blockChains is, for every letter, the blocks it is in, from the inside.
func blockChains(n *html.Node, blocks map[*html.Node]bool) [][]*html.Node {
	if n.Type == html.TextNode {
		var chain []*html.Node
		for p := n.Parent; p != nil; p = p.Parent {
			if blocks[p] {
				chain = append(chain, p)
			}
		}
		out := make([][]*html.Node, len(letters(n.Data)))
		for i := range out {
			out[i] = chain
		}
		return out
	}
	var out [][]*html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		out = append(out, blockChains(c, blocks)...)
	}
	return out
}

// sameChains: the blocks are the same, but what is directly in a list (and
// not an item) can be in an item of it.
func sameChains(before, after [][]*html.Node) bool {
	if len(before) != len(after) {
		return false
	}
	for i := range before {
		a, b := before[i], after[i]
		for len(b) > 0 {
			if len(a) > 0 && a[0] == b[0] {
				a, b = a[1:], b[1:]
				continue
			}
			if b[0].Data != "li" || len(b) < 2 || len(a) == 0 || a[0] != b[1] {
				return false
			}
			b = b[1:]
		}
		if len(a) > 0 {
			return false
		}
	}
	return true
}

// onlyItems says whether the lists have only items.
func onlyItems(n *html.Node) bool {
	list := n.Type == html.ElementNode && (n.Data == "ul" || n.Data == "ol")
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if list && !(c.Type == html.ElementNode && c.Data == "li" || c.Type == html.TextNode && strings.TrimSpace(c.Data) == "") {
			return false
		}
		if !onlyItems(c) {
			return false
		}
	}
	return true
}

func blockInInline(n *html.Node, in bool) bool {
	if n.Type == html.ElementNode {
		switch n.Data {
		case "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "blockquote", "pre", "hr":
			if in {
				return true
			}
		}
		switch n.Data {
		case "h1", "h2", "h3", "h4", "h5", "h6", "a", "b", "strong", "em", "i", "code":
			in = true
		}
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if blockInInline(c, in) {
			return true
		}
	}
	return false
}

func linkTag(t string) bool { return t == "a" }
func emphTag(t string) bool { return t == "b" || t == "strong" || t == "em" || t == "i" }

// marked says for every letter whether it is inside an element with the tag.
func marked(n *html.Node, is func(string) bool, in bool) string {
	if n.Type == html.TextNode {
		if in {
			return strings.Repeat("1", len(letters(n.Data)))
		}
		return strings.Repeat("0", len(letters(n.Data)))
	}
	in = in || n.Type == html.ElementNode && is(n.Data)
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += marked(c, is, in)
	}
	return s
}

// hrefs says whether all links and nothing else have a target.
func hrefs(n *html.Node) bool {
	if n.Type == html.ElementNode && (n.Data == "a") != (len(n.Attr) == 1 && n.Attr[0].Key == "href" && n.Attr[0].Val == "/U") {
		return false
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if !hrefs(c) {
			return false
		}
	}
	return true
}

func nested(n *html.Node, t1, t2 string, in bool) bool {
	me := n.Type == html.ElementNode && (n.Data == t1 || n.Data == t2)
	if me && in {
		return true
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if nested(c, t1, t2, in || me) {
			return true
		}
	}
	return false
}

// dumpTree is a canonical form of the tree.
func dumpTree(n *html.Node) string {
	if n.Type == html.TextNode {
		if n.Data == "" {
			return "" // an empty text is no text
		}
		return "'" + n.Data + "'"
	}
	s := n.Data + "("
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += dumpTree(c)
	}
	return s + ")"
}

// plainBlk: what HTML displays as a block, and has no Markdown of its own.
func plainBlk(tag string) bool {
	switch tag {
	case "address", "article", "aside", "center", "dd", "details", "dialog", "dir", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form",
		"header", "hgroup", "legend", "main", "menu", "nav", "search", "summary":
		return true
	}
	return false
}

func isBlk(tag string) bool {
	switch tag {
	case "p", "div", "ul", "li", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "hr", "body", "section", "table", "td", "pre":
		return true
	}
	return plainBlk(tag)
}

// flow is the sequence of the text of the tree: every space of the text
// outside preformatted elements is one ' ', what cannot be collapsed over is
// 'o', the edge of a block or a line break is '/'.
type flow struct{ out []byte }

func (f *flow) walk(n *html.Node) {
	if n.Type == html.TextNode {
		f.out = append(f.out, n.Data...)
		return
	}
	if n.Type == html.ElementNode {
		switch {
		case n.Data == "pre":
			f.out = append(f.out, "/o/"...)
			return
		case n.Data == "code":
			f.out = append(f.out, 'o')
			return
		case n.Data == "br" || n.Data == "hr" || n.Data == "body" || isBlk(n.Data):
			f.out = append(f.out, '/')
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				f.walk(c)
			}
			f.out = append(f.out, '/')
			return
		case n.Data == "img":
			f.out = append(f.out, 'o')
			return
		}
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		f.walk(c)
	}
}

func flowOf(n *html.Node) string {
	f := &flow{}
	f.walk(n)
	return string(f.out)
}

// squeeze is the reference: runs of white space are one space, none at the
// edge of a block or next to a line break.
func squeeze(s string) string {
	var out []byte
	ws := false
	for i := 0; i < len(s); i++ {
		if isWS(s[i]) {
			ws = true
			continue
		}
		if ws && s[i] != '/' && len(out) > 0 && out[len(out)-1] != '/' {
			out = append(out, ' ')
		}
		ws = false
		out = append(out, s[i])
	}
	return string(out)
}

func preTexts(n *html.Node, in bool) string {
	if n.Type == html.TextNode {
		if in {
			return "'" + n.Data + "'"
		}
		return ""
	}
	in = in || n.Type == html.ElementNode && (n.Data == "pre" || n.Data == "code")
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += preTexts(c, in)
	}
	return s
}

// C09: collapsing follows the reference, keeps preformatted text, and is
// idempotent.
func C09_collapse() {
	d, _ := shaped()
	body := d.FirstChild.LastChild
	flowBefore, pre := flowOf(body), preTexts(body, false)
	collapse.Collapse(d, nil)
	sym.Assert(wellFormed(d, 0), "the tree is well formed")
	got := flowOf(body)
	sym.Observe("before", flowBefore)
	sym.Observe("after", got)
	sym.Assert(preTexts(body, false) == pre, "preformatted text is untouched")
	sym.Assert(squeeze(got) == squeeze(flowBefore), "no word is lost, joined or split")
	if sym.Param("exact", 1) == 1 {
		sym.Assert(got == squeeze(flowBefore), "one space between words, none at the edge of a block")
	}
	again := dumpTree(d)
	collapse.Collapse(d, nil)
	sym.Assert(dumpTree(d) == again, "collapsing twice changes nothing")
}

// C09: what is white space, in any text.
func C09_text() {
	n := sym.Param("n", 2)
	a, b := sym.Str("a", n), sym.Str("b", sym.Param("m", 1))
	sym.Assume(!strings.Contains(a, "/") && !strings.Contains(b, "/"))
	var d *html.Node
	switch sym.Param("ctx", 0) {
	case 0:
		d = doc(elem("p", text(a), elem("b", text(b)), text("y")))
	case 1:
		d = doc(elem("p", text("x"+a+"y"), elem("br"), text(b+"z")))
	case 2:
		d = doc(text(a), elem("div", text(b)), text("y"))
	case 3:
		d = doc(elem("p", text("x"), elem("b", text(a)), elem("i", text(b+"z"))))
	}
	body := d.FirstChild.LastChild
	want := squeeze(flowOf(body))
	collapse.Collapse(d, nil)
	got := flowOf(body)
	sym.Observe("after", got)
	sym.Observe("want", want)
	sym.Assert(got == want, "one space for white space, other characters as they are")
}

// C28: renderers that keep their children.
func C28_wrapper() {
	d, p := shaped()
	fn := sym.Param("fn", 0)
	block := sym.Bool("block")
	c := treeConv()
	tt := converter.TagTypeInline
	if block {
		tt = converter.TagTypeBlock
	}
	want := letters(textOf(d))
	f := base.RenderAsPlaintextWrapper
	switch fn {
	case 1:
		f = base.RenderAsHTML
	case 2:
		f = base.RenderAsHTMLWrapper
	}
	c.Register.RendererFor("zz", tt, f, converter.PriorityEarly)
	out := mustConvert(c, d)
	sym.Observe("out", out)
	sym.Observe("block", block)
	if !block && sym.Param("adj", 0) == 1 {
		if fn == 0 {
			sym.Assert(strings.Contains(out, "mn") && strings.Contains(out, "no"), "inline content stays in the line")
		} else if fn == 1 {
			sym.Assert(strings.Contains(out, "m<zz>n") && strings.Contains(out, "n</zz>o"), "inline content stays in the line")
		}
	}
	switch fn {
	case 0:
		sym.Assert(letters(out) == want, "the content is kept")
		// without a renderer of its own the element is rendered the same
		c2 := treeConv()
		c2.Register.TagType("zz", tt, converter.PriorityEarly)
		sym.Assert(out == mustConvert(c2, p.build()), "as plain text means as without a renderer")
		if block {
			sym.Assert(!strings.Contains(out, "mn") && !strings.Contains(out, "no"), "a block is separated from the text around it")
		}
	case 1:
		// As HTML: the start and the end tag, with everything in between.
		a := strings.Index(out, "<zz")
		e := strings.LastIndex(out, "</zz>")
		sym.Assert(a >= 0 && e > a, "the element is in the output")
		sym.Assert(letters(stripTags(out)) == want, "the content is kept")
		if block && sym.Param("strict", 1) == 1 {
			sym.Assert(a == 0 || a >= 2 && out[a-2:a] == "\n\n", "a blank line before")
			sym.Assert(e+5 == len(out) || strings.HasPrefix(out[e+5:], "\n\n"), "a blank line after")
		}
	case 2:
		sym.Assert(strings.Count(out, "<zz>") == 1 && strings.Count(out, "</zz>") == 1, "one start and one end tag")
		sym.Assert(letters(stripTags(out)) == want, "the content is kept")
		if sym.Param("strict", 1) == 0 {
			return
		}
		a := strings.Index(out, "<zz>")
		e := strings.Index(out, "</zz>")
		sym.Assert(strings.HasPrefix(out[a+4:], "\n\n") && strings.HasSuffix(out[:e], "\n\n"), "the content is a block of its own")
	}
}

func stripTags(s string) string {
	var out []byte
	in := false
	for i := 0; i < len(s); i++ {
		if s[i] == '<' {
			in = true
		}
		if !in {
			out = append(out, s[i])
		}
		if s[i] == '>' {
			in = false
		}
	}
	return string(out)
}

// C09: the words of the Markdown are those of the HTML: none joined or split.
func C09_words() {
	d, _ := shaped()
	want := words(strings.ReplaceAll(squeeze(flowOf(d.FirstChild.LastChild)), "/", " "))
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	sym.Observe("want", want)
	var txt []byte
	for i := 0; i < len(out); i++ {
		switch c := out[i]; {
		case c >= 'a' && c <= 'z', isWS(c):
			txt = append(txt, c)
		}
	}
	sym.Assert(words(string(txt)) == want, "the same words")
	if oneSpace(out) {
		return
	}
	sym.Assert(false, "one space between words")
}

// oneSpace says that after a letter there is never more than one space,
// except for those of a line break.
func oneSpace(out string) bool {
	for i := 0; i+3 < len(out); i++ {
		if c := out[i]; c >= 'a' && c <= 'z' && out[i+1] == ' ' && out[i+2] == ' ' && out[i+3] != '\n' {
			return false
		}
	}
	return true
}

func words(s string) string { return strings.Join(strings.Fields(s), " ") }
