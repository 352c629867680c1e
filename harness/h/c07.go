package h

import (
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
)

// codeSpot is a place of a code block, and what a reader should see there.
func codeSpot(i int, pre *html.Node, want string) (*html.Node, string) {
	li := func(n ...*html.Node) *html.Node { return elem("li", n...) }
	switch i {
	case 0:
		return doc(pre), want
	case 1:
		return doc(elem("p", text("x")), pre, elem("p", text("y"))), mP("x") + want + mP("y")
	case 2:
		return doc(elem("ul", li(pre), li(text("y")))), mk("ul", mk("li", want), mk("li", mP("y")))
	case 3:
		return doc(elem("ol", li(text("x"), pre, text("y")))), mk("ol1", mk("li", mP("x"), want, mP("y")))
	case 4:
		return doc(elem("blockquote", pre)), mk("q", want)
	case 5:
		return doc(elem("blockquote", elem("p", text("x")), pre, elem("p", text("y"))), elem("p", text("z"))), mk("q", mP("x"), want, mP("y")) + mP("z")
	case 6:
		return doc(elem("ul", li(elem("blockquote", pre), text("y")))), mk("ul", mk("li", mk("q", want), mP("y")))
	case 7:
		return doc(elem("blockquote", elem("ul", li(text("x"), pre)))), mk("q", mk("ul", mk("li", mP("x"), want)))
	case 8:
		return doc(elem("ol", li(text("x"), elem("ul", li(pre), li(text("y")))))), mk("ol1", mk("li", mP("x"), mk("ul", mk("li", want), mk("li", mP("y")))))
	case 9:
		return doc(elem("blockquote", elem("blockquote", pre), text("y"))), mk("q", mk("q", want), mP("y"))
	case 10:
		return doc(elem("div", text("x"), pre, text("y"))), mP("x") + want + mP("y")
	case 11:
		return doc(text("x"), elem("section", elem("div", pre)), elem("h2", text("y"))), mP("x") + want + mk("h2", "y")
	case 12:
		return doc(elem("ul", li(elem("ol", li(elem("blockquote", text("x"), pre)))))), mk("ul", mk("li", mk("ol1", mk("li", mk("q", mP("x"), want)))))
	}
	panic("no such place")
}

const nCodeSpots = 13

// codeConv: the fences and other options that meet a code block.
func codeConv() *converter.Converter {
	fence := "```"
	if sym.Param("tilde", 0) == 1 {
		fence = "~~~"
	}
	opts := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithCodeBlockFence(fence))}
	if sym.Param("noesc", 0) == 1 {
		return converter.NewConverter(converter.WithPlugins(opts...), converter.WithEscapeMode(converter.EscapeModeDisabled))
	}
	return converter.NewConverter(converter.WithPlugins(opts...))
}

func chomp(s string) string { return strings.TrimSuffix(s, "\n") }

// C07: the code comes back as it was.
func C07_code() {
	s := sym.ParamStr("pre", "") + codeText("code", sym.Param("n", 2)) + sym.ParamStr("post", "")
	var pre *html.Node
	code := s
	lang := ""
	switch sym.Param("kind", 0) {
	case 0:
		pre = elem("pre", elem("code", text(s)))
	case 1:
		pre = elem("pre", text(s))
	case 2: // in pieces
		k := sym.Param("cut", 1)
		pre = elem("pre", elem("code", elem("span", text(s[:k])), text(s[k:])))
	case 3: // a line break
		k := sym.Param("cut", 1)
		pre = elem("pre", elem("code", text(s[:k]), elem("br"), text(s[k:])))
		code = s[:k] + "\n" + s[k:]
	case 4: // with a language
		pre = elem("pre", attr(elem("code", text(s)), "class", "language-go"))
		lang = "go"
	case 5:
		pre = elem("pre", text("q"), elem("script", text("SCRIPT")), elem("b", text(s)))
		code = "q" + s
	case 6: // lines in elements of their own
		pre = elem("pre", text("q"), elem("div", text(s)), elem("div", text("r")))
		code = "q\n" + s + "\nr"
	}
	d, want := codeSpot(sym.Param("ctx", 0), pre, mOpen+"code-here"+mClose)
	out := mustConvert(codeConv(), d)
	sym.Observe("out", out)
	sym.Assert(!strings.Contains(out, "\r"), "no other line ending")
	code = lineEndings(code)
	got := readMD(out)
	sym.Observe("read", got)
	a, b, _ := strings.Cut(want, mOpen+"code-here"+mClose)
	a += mOpen + "pre:" + lang + ":"
	b = mClose + b
	sym.Assert(strings.HasPrefix(got, a) && strings.HasSuffix(got, b) && len(got) >= len(a)+len(b), "one code block at its place")
	read := got[len(a) : len(got)-len(b)]
	if c := sym.Param("ctx", 0); c == 2 || c == 3 || c == 7 || c == 8 {
		// CommonMark drops the white space of a blank line in a list item
		code, read = blankLines(chomp(code)), blankLines(chomp(read))
	} else {
		code, read = chomp(code), chomp(read)
	}
	sym.Assert(read == code, "the code is the same")
}

func blankLines(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.Trim(l, " \t") == "" {
			lines[i] = ""
		}
	}
	return strings.Join(lines, "\n")
}

// codeText has any bytes, but no reserved marker.
func codeText(name string, n int) string {
	var s string
	if a := sym.ParamStr("alpha", ""); a != "" {
		s = sym.StrIn(name, n, a)
	} else {
		s = sym.Str(name, n)
	}
	noMarkers(s)
	return s
}

// lineEndings: every line ending as a reader understands it.
func lineEndings(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// C07: the code comes back as it was, whatever elements are inside of it.
func C07_tree() {
	d, _ := shaped()
	pre := findTag(d, "pre")
	code := textOf(pre)
	out := mustConvert(fullConv(), d)
	sym.Observe("out", out)
	got := readWith(gmStrik, out)
	sym.Observe("read", got)
	flags, txt := markedIn(got, "pre")
	sym.Assert(txt == letters(textOf(d)), "the text is the same")
	sym.Assert(flags == marked(d, func(t string) bool { return t == "pre" }, false), "the same text is code")
	_, read, ok := strings.Cut(got, mOpen+"pre::")
	sym.Assert(ok && !strings.Contains(read, mOpen+"pre:"), "there is one code block")
	read, _, _ = strings.Cut(read, mClose)
	sym.Assert(chomp(read) == chomp(code), "the code is the same")
}

// C07: the opening fence.
func C07_lang() {
	v := sym.ParamStr("pre", "") + sym.Str("class", sym.Param("n", 2)) + sym.ParamStr("post", "")
	noMarkers(v)
	pre := elem("pre")
	switch sym.Param("on", 0) {
	case 0:
		pre.AppendChild(attr(elem("code", text("a\nb\n")), "class", v))
	case 1:
		attr(pre, "class", v).AppendChild(text("a\nb\n"))
	case 2:
		attr(pre, "class", v).AppendChild(elem("code", text("a\nb\n")))
	case 3: // only the one with a language counts
		attr(pre, "class", "hl").AppendChild(attr(elem("code", text("a\nb\n")), "class", v))
	}
	out := mustConvert(codeConv(), doc(elem("p", text("x")), pre, elem("p", text("y"))))
	sym.Observe("out", out)
	n, src := parseMD(gm, out)
	d := &dumper{src: src}
	d.node(n)
	got := string(d.out)
	sym.Observe("read", got)
	a, b := mP("x")+mOpen+"pre:", ":a\nb\n"+mClose+mP("y")
	sym.Assert(strings.HasPrefix(got, a) && strings.HasSuffix(got, b) && len(got) >= len(a)+len(b), "the fence opens the code block")
	info := got[len(a) : len(got)-len(b)]
	sym.Assert(!strings.ContainsAny(info, " \t\n\v\f\r"), "one word after the fence")
	class := v
	v = strings.Replace(strings.Replace(v, "language-", "", 1), "lang-", "", 1)
	sym.Assert(strings.Contains(v, info), "the word is from the class")
	if lang, ok := languageOf(class); ok {
		sym.Assert(info == lang, "the language is that of the class")
	}
}

// languageOf is the language a class attribute names, where it is plain to
// see: one word "language-x" or "lang-x" of letters and digits, and no other
// word with a "-".
func languageOf(class string) (string, bool) {
	lang := ""
	for _, w := range strings.Split(class, " ") {
		l, ok := strings.CutPrefix(w, "language-")
		if !ok {
			l, ok = strings.CutPrefix(w, "lang-")
		}
		if ok && lang == "" {
			lang = l
		} else if ok {
			return "", false
		} else {
			l = w
		}
		for i := 0; i < len(l); i++ {
			c := l[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
				return "", false
			}
		}
	}
	return lang, true
}

// findTag is the first element with the tag.
func findTag(n *html.Node, tag string) *html.Node {
	if n.Type == html.ElementNode && n.Data == tag {
		return n
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if f := findTag(c, tag); f != nil {
			return f
		}
	}
	return nil
}
