package h

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
)

const hereMark = mOpen + "here" + mClose

func inlineSpot(i int, n *html.Node) (*html.Node, string) {
	switch i {
	case 0:
		return doc(elem("p", n)), mP(hereMark)
	case 1:
		return doc(elem("p", text("x"), n, text("y"))), mP("x", hereMark, "y")
	case 2:
		return doc(elem("p", text("x "), n, text(" y"))), mP("x ", hereMark, " y")
	case 3:
		return doc(elem("ul", elem("li", n), elem("li", text("y")))), mk("ul", mk("li", mP(hereMark)), mk("li", mP("y")))
	case 4:
		return doc(elem("blockquote", n)), mk("q", mP(hereMark))
	case 5:
		return doc(elem("h2", text("x"), n)), mk("h2", "x", hereMark)
	case 6:
		return doc(elem("p", text("x "), elem("em", text("a"), n, text("b")), text(" y"))), mP("x ", mk("em", "a", hereMark, "b"), " y")
	case 7:
		return doc(elem("p", attr(elem("a", text("a"), n, text("b")), "href", "u"))), mP(mk("a", "u", mk("t"), "a"+hereMark+"b"))
	case 8:
		return doc(elem("p", text("x"), elem("br"), n)), mP("x", mBR, hereMark)
	case 9:
		return doc(elem("p", elem("code", text("x")), text("a"), n)), mP(mk("code", "x"), "a", hereMark)
	}
	panic("no such place")
}

const nInlineSpots = 10

// C08: the code comes back as it was, up to white space.
func C08_code() {
	tag := sym.ParamStr("tag", "code")
	s := sym.ParamStr("pre", "") + codeText("code", sym.Param("n", 2)) + sym.ParamStr("post", "")
	ctx := sym.Param("ctx", 1)
	d, want := inlineSpot(ctx, elem(tag, text(s)))
	out := mustConvert(codeConv(), d)
	sym.Observe("out", out)
	sym.Assert(!strings.Contains(out, "\r"), "no other line ending")
	got := readMD(out)
	sym.Observe("read", got)
	t := strings.Join(strings.Fields(s), " ")
	a, b, _ := strings.Cut(want, hereMark)
	if t == "" {
		// Only white space: there is nothing but that.
		a, b = noSpace(a), noSpace(b)
		got = noSpace(got)
		sym.Assert(got == a+b || got == a+mk("code")+b || strings.Trim(a+b, "p:q"+mOpen+mClose) == "" && got == "", "nothing but white space")
		return
	}
	a += mOpen + "code:"
	b = mClose + b
	// "[a`]:`b](u)" at the start of a paragraph is a link reference definition.
	sym.Known("KF2", ctx == 7 && strings.Contains(s, "]:"))
	sym.Assert(strings.HasPrefix(got, a) && strings.HasSuffix(got, b) && len(got) >= len(a)+len(b), "one code span at its place")
	sym.Assert(strings.Join(strings.Fields(got[len(a):len(got)-len(b)]), " ") == t, "the code is the same")
}

// noSpace leaves out all white space.
func noSpace(s string) string { return strings.Join(strings.Fields(s), "") }

// C08: the text of code elements is code and nothing else is, whatever is
// inside of them and around them.
func C08_tree() {
	d, _ := shaped()
	sym.Known("KF5", sym.Param("kf5", 0) == 1)
	exact := ""
	if sym.Param("exact", 0) == 1 {
		exact = strings.Join(strings.Fields(textOf(findTag(d, "code"))), " ")
	}
	out := mustConvert(fullConv(), d)
	sym.Observe("out", out)
	got := readWith(gmStrik, out)
	sym.Observe("read", got)
	flags, txt := markedIn(got, "code")
	sym.Assert(txt == letters(textOf(d)), "the text is the same")
	sym.Assert(flags == marked(d, codeTag, false), "the same text is code")
	sym.Assert(!strings.Contains(got, "`"), "no backtick is left")
	if sym.Param("exact", 0) == 1 {
		_, read, ok := strings.Cut(got, mOpen+"code:")
		sym.Assert(ok, "there is a code span")
		read, _, _ = strings.Cut(read, mClose)
		sym.Assert(read == exact, "the code is the same")
	}
}
