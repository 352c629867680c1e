package h

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
)

// entityRef excludes character references in attributes (see KF3 and KF4): an
// & with a ; somewhere behind it.
func entityRef(s string) bool {
	i := strings.IndexByte(s, '&')
	return i >= 0 && strings.IndexByte(s[i:], ';') >= 0
}

// attrText has any bytes, but no reserved marker.
func attrText(name string, n int) string {
	var s string
	if a := sym.ParamStr("alpha", ""); a != "" {
		s = sym.StrIn(name, n, a)
	} else {
		s = sym.Str(name, n)
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != mOpen[0] && s[i] != mClose[0])
	}
	noMarkers(s)
	return sym.ParamStr("pre", "") + s + sym.ParamStr("post", "")
}

// linkSpot is a place of a link or an image.
func linkSpot(i int, n *html.Node) (*html.Node, string) {
	switch i {
	case 10:
		return doc(elem("p", elem("strong", n))), mP(mk("strong", hereMark))
	case 11:
		return doc(elem("ol", elem("li", text("x"), elem("blockquote", n)))), mk("ol1", mk("li", mP("x"), mk("q", mP(hereMark))))
	case 12: // a text that could close something opened in the link
		return doc(elem("p", text("` <"), n, text("> `] ) \" '"))), mP("` <", hereMark, "> `] ) \" '")
	case 13:
		return doc(elem("p", text("! ["), n, text("](u)"))), mP("! [", hereMark, "](u)")
	case 14:
		return doc(elem("p", elem("code", text("x")), n, elem("code", text("a`y")))), mP(mk("code", "x"), hereMark, mk("code", "a`y"))
	}
	return inlineSpot(i, n)
}

// C14: a link or image is one construct, whatever its attributes are.
func C14_attr() {
	v := attrText("value", sym.Param("n", 2))
	img := sym.Param("img", 0) == 1
	key := sym.ParamStr("key", "title")
	dest, title, txt := "u", "", "a"
	switch key {
	case "title":
		title = v
	case "alt":
		txt = v
	default:
		dest = v
	}
	if x := sym.ParamStr("title", ""); x != "" {
		title = x
	}
	var n *html.Node
	if img {
		n = attr(attr(elem("img"), "src", dest), "alt", txt)
	} else {
		n = attr(elem("a", text(txt)), "href", dest)
	}
	if title != "" {
		attr(n, "title", title)
	}
	ctx := sym.Param("ctx", 1)
	d, want := linkSpot(ctx, n)
	out := mustConvert(stdConv(), d)
	sym.Observe("out", out)
	sym.Assert(!strings.Contains(out, "\r"), "no other line ending")
	got := readMD(out)
	sym.Observe("read", got)
	kind := "a:"
	if img {
		kind = "img:"
	}
	dest = strings.TrimSpace(dest)
	if img && dest == "" {
		return // no image
	}
	if dest == "" {
		title = "" // a link without a destination has none
	}
	a, b, _ := strings.Cut(want, hereMark)
	a += mOpen + kind
	b = mClose + b
	sym.Assert(strings.HasPrefix(got, a) && strings.HasSuffix(got, b) && len(got) >= len(a)+len(b), "one construct at its place")
	got = got[len(a) : len(got)-len(b)]
	u, rest, ok := strings.Cut(got, mOpen+"t:")
	sym.Assert(ok && !strings.ContainsAny(u, " \t\n\v\f\r()[]<>\\\x00"), "the destination is clean")
	if key != "href" {
		sym.Assert(u == "u", "the destination")
	}
	t, rest, ok := strings.Cut(rest, mClose)
	sym.Known("KF3", key == "title" && entityRef(v))
	title = strings.NewReplacer("\n", " ", "\r", " ").Replace(title)
	if ctx == 5 { // a heading is one line with single spaces
		t, title = strings.Join(strings.Fields(t), " "), strings.Join(strings.Fields(title), " ")
	}
	sym.Assert(ok && nul(t) == nul(title), "the title")
	if key == "alt" {
		// Inline Markdown in an alt text is read, it only must not get out.
		if !strings.ContainsAny(v, "*_&!\n\r\\") {
			sym.Assert(strings.TrimSpace(nul(rest)) == strings.TrimSpace(nul(txt)), "the alternative text")
		}
	} else {
		sym.Assert(rest == txt, "the link text")
	}
}

// nul shows U+0000 as a reader does.
func nul(s string) string { return strings.ReplaceAll(s, "\x00", "\ufffd") }

// C14: exactly the words of the links are in links, whatever is inside of
// the links and around them.
func C14_tree() {
	d, _ := shaped()
	want := marked(d, linkTag, false)
	txt := letters(textOf(d))
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	got := readWith(gmTable, out)
	sym.Observe("read", got)
	flags, seen := markedIn(got, "a")
	sym.Assert(seen == txt, "the text is the same")
	sym.Assert(flags == want, "the same words are linked")
	sym.Assert(strings.Count(got, mOpen+"a:/U"+mOpen+"t:"+mClose) == strings.Count(got, mOpen+"a:"), "the destination is the same")
}

// C14: the text of a link is its text.
func C14_text() {
	s := freeText("text", sym.Param("n", 2))
	n := attr(elem("a", text("m"+s+"n")), "href", "u")
	if sym.Param("title", 0) == 1 {
		attr(n, "title", "` ] ) * <")
	}
	d, want := linkSpot(sym.Param("ctx", 1), n)
	out := mustConvert(stdConv(), d)
	sym.Observe("out", out)
	got := readMD(out)
	sym.Observe("read", got)
	a, b, _ := strings.Cut(want, hereMark)
	sym.Assert(strings.HasPrefix(got, a) && strings.HasSuffix(got, b) && len(got) >= len(a)+len(b), "its surroundings")
	t := ""
	if sym.Param("title", 0) == 1 {
		t = "` ] ) * <"
	}
	sym.Assert(got[len(a):len(got)-len(b)] == mk("a", "u", mk("t", t), collapsed("m"+s+"n")), "a link with its text")
}
