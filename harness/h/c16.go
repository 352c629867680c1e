package h

import (
	"github.com/yuin/goldmark/ast"
	"strconv"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
)

// listStart is the reference for the start attribute: the number, if Markdown
// can number the items like this, else 1.
func listStart(s string, items int) int {
	v, digits := 0, 0
	for i := 0; i < len(s); i++ {
		if i == 0 && s[i] == '+' && len(s) > 1 {
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			return 1
		}
		v = v*10 + int(s[i]-'0')
		digits++
		if v > 999999999 {
			return 1
		}
	}
	if digits == 0 || v+items-1 > 999999999 {
		return 1
	}
	return v
}

// C16: the numbers of an ordered list.
func C16_numbers() {
	items := sym.Param("items", 3)
	start := sym.ParamStr("pre", "") + sym.Concrete(sym.StrIn("start", sym.Param("n", 2), sym.ParamStr("digits", "0123456789+- a"))) + sym.ParamStr("post", "")
	ol := attr(elem("ol"), "start", start)
	for i := 0; i < items; i++ {
		ol.AppendChild(elem("li", text("x"), elem("p", text("y")), elem("ul", elem("li", text("z")))))
	}
	out := mustConvert(stdConv(), doc(ol))
	sym.Observe("out", out)
	s := 1
	if sym.Param("minus", 1) == 1 && strings.HasPrefix(start, "-") {
		// "-0" is 0
		if t := strings.Trim(start[1:], "0"); t == "" && len(start) > 1 {
			s = 0
		}
	} else {
		s = listStart(start, items)
	}
	width := len(strconv.Itoa(s + items - 1))
	ind := strings.Repeat(" ", width+2)
	want := ""
	for i := 0; i < items; i++ {
		num := strconv.Itoa(s + i)
		num = strings.Repeat("0", width-len(num)) + num
		if i > 0 {
			want += "\n"
		}
		want += num + ". x\n" + ind + "\n" + ind + "y\n" + ind + "\n" + ind + "- z"
	}
	sym.Assert(out == want, "the numbers count from start and everything is indented to the text of the item")
	li := mk("li", mP("x"), mP("y"), mk("ul", mk("li", mP("z"))))
	sym.Assert(readMD(out) == mk("ol"+strconv.Itoa(s), strings.Repeat(li, items)), "a reader sees the list with its number and items")
}

func kidsOf(n *html.Node) []*html.Node {
	var out []*html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		out = append(out, c)
	}
	return out
}

// wantItems is the structure of the items of a list. What is not in an item
// belongs to the item before.
func wantItems(n *html.Node) string {
	var items [][]*html.Node
	for _, c := range kidsOf(n) {
		switch {
		case c.Type == html.ElementNode && c.Data == "li":
			items = append(items, kidsOf(c))
		case c.Type == html.TextNode && strings.TrimSpace(c.Data) == "":
		case len(items) == 0:
			items = append(items, []*html.Node{c})
		default:
			items[len(items)-1] = append(items[len(items)-1], c)
		}
	}
	s := ""
	for _, it := range items {
		if k := wantBlocks(it); k != "" {
			s += mk("li", k)
		}
	}
	return s
}

// wantBlocks is the structure that a reader should see.
func wantBlocks(nodes []*html.Node) string {
	var out []byte
	var para []byte
	flush := func() {
		if t := words(string(para)); t != "" {
			out = append(out, mP(t)...)
		}
		para = nil
	}
	block := func(kind, k string) {
		if k != "" {
			out = append(out, mk(kind, k)...)
		}
	}
	for _, c := range nodes {
		if c.Type == html.TextNode {
			para = append(para, c.Data...)
			continue
		}
		switch c.Data {
		case "span", "u":
			para = append(para, textOf(c)...)
			continue
		case "b", "strong":
			if words(textOf(c)) != "" {
				para = append(para, mk("strong", textOf(c))...)
			}
			continue
		}
		flush()
		if plainBlk(c.Data) {
			out = append(out, wantBlocks(kidsOf(c))...)
			continue
		}
		switch c.Data {
		case "p", "div", "section", "li":
			out = append(out, wantBlocks(kidsOf(c))...)
		case "ul":
			block("ul", wantItems(c))
		case "ol":
			block("ol1", wantItems(c))
		case "blockquote":
			block("q", wantBlocks(kidsOf(c)))
		case "h1", "h2", "h3", "h4", "h5", "h6":
			block(c.Data, words(textOf(c)))
		case "pre":
			out = append(out, mk("pre", ":"+textOf(c)+"\n")...)
		case "hr":
			out = append(out, mHR...)
		}
	}
	flush()
	return string(out)
}

// C16 and C17: a reader sees the blocks nested as in the HTML.
func C16_nested() { nestedBlocks() }
func C17_nested() { nestedBlocks() }
func C18_nested() { nestedBlocks() }

func nestedBlocks() {
	d, _ := shaped()
	want := wantBlocks(kidsOf(d.FirstChild.LastChild))
	var opts []commonmark.OptionFunc
	switch sym.Param("opt", 0) {
	case 1:
		opts = append(opts, commonmark.WithBulletListMarker("*"))
	case 2:
		opts = append(opts, commonmark.WithBulletListMarker("+"), commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext), commonmark.WithCodeBlockFence("~~~"))
	}
	out := mustConvert(stdConv(opts...), d)
	sym.Observe("out", out)
	got := dropHTML(readMD(out))
	sym.Observe("read", got)
	sym.Observe("want", want)
	sym.Assert(got == want, "a reader sees the blocks nested as in the HTML")
}

// dropHTML takes the separating comments between lists out of the dump.
func dropHTML(s string) string {
	m := mk("html", "<!--THE END-->\n")
	s = strings.ReplaceAll(s, m, "")
	return strings.ReplaceAll(s, mk("html", "<!--THE END-->"), "")
}

// C17: every line of a quote starts with the marker, and the content is what
// stands behind it.
func C17_lines() {
	d, p := shaped()
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	// the same without the quote
	p.src = strings.ReplaceAll(p.src, "{blockquote}", "{div}")
	inner := mustConvert(treeConv(), p.build())
	sym.Observe("inner", inner)
	if inner == "" {
		sym.Assert(out == "", "an empty quote is nothing")
		return
	}
	want := "> " + strings.ReplaceAll(inner, "\n", "\n> ")
	sym.Assert(out == want, "every line of the content is in the quote")
}

// C18: a heading that is all a link has is still a heading, and has the link.
func C18_link() {
	h := sym.Choice("tag", "h1", "h2", "h3", "h4", "h5", "h6")
	s := freeText("text", sym.Param("n", 1))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80 && s[i] != 0 && s[i] != '\v' && s[i] != '\f')
	}
	kids := []*html.Node{elem(h, text("m"+s+"n"))}
	switch sym.Param("around", 0) {
	case 1:
		kids = []*html.Node{text(" "), kids[0], text("\n")}
	case 2:
		kids = []*html.Node{elem(h, elem("b", text("m"+s+"n")))}
	}
	a := attr(elem("a", kids...), "href", "u")
	var d *html.Node
	want := ""
	link := mk("a", "u", mk("t", ""), collapsed("m"+s+"n"))
	if sym.Param("around", 0) == 2 {
		link = mk("a", "u", mk("t", ""), mk("strong", collapsed("m"+s+"n")))
	}
	switch sym.Param("ctx", 0) {
	case 0:
		d = doc(elem("p", text("x")), a, elem("p", text("y")))
		want = mP("x") + mk(h, link) + mP("y")
	case 1:
		d = doc(elem("div", text("x")), elem("section", a), elem("blockquote", text("y")))
		want = mP("x") + mk(h, link) + mk("q", mP("y"))
	case 2:
		d = doc(elem("blockquote", elem("p", text("x")), a), elem("ul", elem("li", a2(a))))
		want = mk("q", mP("x"), mk(h, link)) + mk("ul", mk("li", mk(h, link)))
	}
	out := mustConvert(stdConv(), d)
	sym.Observe("out", out)
	got := readMD(out)
	sym.Observe("read", got)
	sym.Assert(got == want, "the heading is a heading with the link")
}

// a2 is a copy of the tree.
func a2(n *html.Node) *html.Node {
	c := &html.Node{Type: n.Type, Data: n.Data, DataAtom: n.DataAtom, Attr: append([]html.Attribute(nil), n.Attr...)}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		c.AppendChild(a2(k))
	}
	return c
}

// C18: whatever is in a heading, a reader sees one heading of the level with
// all of the text, and the paragraphs around it.
func C18_blocks() {
	d, _ := shaped()
	kids := kidsOf(d.FirstChild.LastChild)
	level := int(kids[1].Data[1] - '0')
	want := letters(textOf(d))
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	n, src := parseMD(gm, out)
	sym.Observe("read", readMD(out))
	sym.Assert(n.ChildCount() == 3, "a heading between two paragraphs")
	h, ok := n.FirstChild().NextSibling().(*ast.Heading)
	sym.Assert(ok && h.Level == level, "the heading is a heading of the level")
	sym.Assert(letters(readNode(n, src)) == want, "every text is there")
	sym.Assert(letters(readNode(h, src)) == letters(textOf(kids[1])), "all of the text is in the heading")
}

// C18: headings.
func C18_text() {
	level := sym.Param("level", 2)
	setext := sym.Param("setext", 0) == 1
	s := freeText("text", sym.Param("n", 3))
	pre, post := sym.ParamStr("pre", ""), sym.ParamStr("post", "")
	var kids []*html.Node
	if pre != "" {
		kids = append(kids, text(pre), elem("br"))
	}
	kids = append(kids, text(s+post))
	var opts []commonmark.OptionFunc
	if setext {
		opts = append(opts, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
	}
	d := doc(elem("p", text("a")), elem("h"+strconv.Itoa(level), kids...), elem("p", text("z")))
	t := strings.TrimSpace(collapsed(s + post))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80 && s[i] != 0 && s[i] != '\v' && s[i] != '\f')
	}
	out := mustConvert(stdConv(opts...), d)
	sym.Observe("out", out)
	want := t
	if pre != "" {
		if setext && level < 3 {
			want = pre + mBR + t
			if t == "" {
				want = pre
			}
		} else if t != "" {
			want = pre + " " + t
		} else {
			want = pre
		}
	}
	got := readMD(out)
	sym.Observe("read", got)
	if want == "" {
		sym.Assert(got == mP("a")+mP("z"), "a heading without content is nothing")
		return
	}
	sym.Assert(got == mP("a")+mk("h"+strconv.Itoa(level), want)+mP("z"), "one heading of the level with the whole text")
	if setext && level < 3 {
		lines := strings.Split(out, "\n")
		u := len(lines) - 3
		w := 0
		for i := 2; i < u; i++ {
			w = max(w, len(strings.TrimRight(lines[i], " ")))
		}
		sym.Assert(len(lines[u]) >= 3 && len(lines[u]) >= min(w, len(t)), "the underline is as wide as the text")
	}
}
