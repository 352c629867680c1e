package h

import (
	"strings"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/yuin/goldmark"
	"golang.org/x/net/html"
)

// runs is a paragraph of two texts with an element between them. A construct
// can begin in the one text and end in the other.
func runs() (tree *html.Node, want, blocks string) {
	a := sym.ParamStr("apre", "") + freeBytes("a", sym.Param("n", 1)) + sym.ParamStr("apost", "")
	b := sym.ParamStr("bpre", "") + freeBytes("b", sym.Param("m", 1)) + sym.ParamStr("bpost", "")
	for _, s := range []string{a, b} {
		noMarkers(s)
		noRefs(s)
		plainEdges(s)
	}
	noRefs(a + b)
	noMarkers(a + b)
	ta, tb := collapsed(a+"x"), collapsed("x"+b)
	ta, tb = ta[:len(ta)-1], tb[1:]
	ta, tb = strings.TrimLeftFunc(ta, unicode.IsSpace), strings.TrimRightFunc(tb, unicode.IsSpace)
	cont := sym.Param("ctx", 0)
	var mid, end []*html.Node
	sep := ""
	switch sym.ParamStr("sep", "br") {
	case "br":
		ta, tb = strings.TrimRight(ta, " "), strings.TrimLeft(tb, " ")
		sym.Assume(ta != "" && tb != "")
		mid, sep = []*html.Node{elem("br")}, mBR
	case "b":
		mid, sep = []*html.Node{elem("b", text("x"))}, mk("strong", "x")
	case "em":
		mid, sep = []*html.Node{elem("em", text("x"))}, mk("em", "x")
	case "code":
		mid, sep = []*html.Node{elem("code", text("x"))}, mk("code", "x")
	case "code?": // with free code
		c := sym.StrIn("c", sym.Param("k", 1), "`a\\*")
		mid, sep = []*html.Node{elem("code", text(c))}, mk("code", c)
	case "a":
		mid, sep = []*html.Node{attr(elem("a", text("x")), "href", "u")}, mk("a", "u", mk("t"), "x")
	case "img":
		mid, sep = []*html.Node{attr(elem("img"), "src", "u")}, mk("img", "u", mk("t"))
	case "del":
		// goldmark sees no strikethrough behind an escaped ~, other readers do
		sym.Assume(!strings.HasSuffix(a, "~"))
		mid, sep = []*html.Node{elem("del", text("x"))}, mk("del", "x")
	case "span": // the second text is in another element
		mid = nil
		end = []*html.Node{elem("span", text(b))}
	case "comment":
		mid = []*html.Node{{Type: html.CommentNode, Data: "x"}}
	case "script":
		mid = []*html.Node{elem("script", text("x"))}
	}
	if sep == "" {
		ta, tb = strings.TrimFunc(collapsed(a+b), unicode.IsSpace), ""
	}
	if end == nil {
		end = []*html.Node{text(b)}
	}
	kids := append(append([]*html.Node{text(a)}, mid...), end...)
	t := ta + sep + tb
	sym.Assume(t != "")
	switch cont {
	case 0:
		tree = doc(elem("p", kids...))
	case 1:
		tree = doc(elem("ul", elem("li", kids...)))
	case 2:
		tree = doc(elem("blockquote", elem("p", kids...)))
	case 3:
		sym.Assume(strings.Trim(a+"x", " \t\n\r") == a+"x" && strings.Trim("x"+b, " \t\n\r") == "x"+b)
		tree = doc(elem("p", text("x "), attr(elem("a", kids...), "href", "v"), text("y")))
	case 4:
		tree = doc(elem("ol", elem("li", elem("p", text("x")), elem("p", kids...))))
	case 5: // a definition in another paragraph
		tree = doc(elem("p", kids...), elem("p", text("[x]: /v")))
	}
	return tree, runsWant(cont, t, mP), runsWant(cont, "", func(...string) string { return mP() })
}

func runsWant(cont int, t string, p func(...string) string) string {
	switch cont {
	case 1:
		return mk("ul", mk("li", p(t)))
	case 2:
		return mk("q", p(t))
	case 3:
		return p("x ", mk("a", "v", mk("t"), t), "y")
	case 4:
		return mk("ol1", mk("li", p("x"), p(t)))
	case 5:
		return p(t) + p("[x]: /v")
	}
	return p(t)
}

// runsOut converts the runs with the plugins of the parameter ext and says what
// a reader with the same extension sees.
func runsOut() (out string, g goldmark.Markdown, want, blocks string) {
	tree, want, blocks := runs()
	switch sym.Param("ext", 0) {
	case 0:
		out, g = mustConvert(stdConv(), tree), gm
	case 1:
		out, g = mustConvert(fullConv(), tree), gmStrik
	case 2:
		out, g = mustConvert(fullConv(), tree), gmTable
	}
	sym.Observe("out", out)
	return
}

// C03_runs, C04_runs: as C03_text, C04_text.
func C03_runs() {
	out, g, _, blocks := runsOut()
	n, src := parseMD(g, out)
	d := &dumper{src: src, blocks: true}
	d.node(n)
	sym.Assert(string(d.out) == blocks, "the texts add no block structure")
}

func C04_runs() {
	out, g, want, _ := runsOut()
	sym.Assert(readWith(g, out) == want, "a CommonMark reader sees the texts and the element between them, and nothing else")
}

// C08_runs: the same around inline code.
func C08_runs() {
	out, g, want, _ := runsOut()
	got := readWith(g, out)
	// white space at the edges of the code does not count
	const open = mOpen + "code:"
	i := strings.Index(got, open)
	sym.Assert(i >= 0, "a CommonMark reader sees inline code")
	i += len(open)
	j := i + strings.Index(got[i:], mClose)
	sym.Assert(got[:i]+strings.Trim(got[i:j], " ")+got[j:] == want, "a CommonMark reader sees the code and the texts around it")
}
