package h

import (
	"strings"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

func noEscConv() *converter.Converter {
	return converter.NewConverter(
		converter.WithEscapeMode(converter.EscapeModeDisabled),
		converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()),
	)
}

func fullConv(first ...converter.Plugin) *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(first...), converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
}

// entities is the reference for the two entities that are always used.
func entities(s string) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			out = append(out, "&lt;"...)
		case '>':
			out = append(out, "&gt;"...)
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

func wsOnly(s string) string {
	out := make([]byte, 0, len(s))
	ws := false
	for i := 0; i < len(s); i++ {
		if isWS(s[i]) {
			if !ws {
				out = append(out, ' ')
			}
			ws = true
			continue
		}
		ws = false
		out = append(out, s[i])
	}
	return string(out)
}

// C05: with escaping disabled nothing is added to the text.
func C05_disabled() {
	s := sym.Str("text", sym.Param("n", 2))
	noMarkers(s)
	var out, want, pre string
	switch sym.Param("ctx", 0) {
	case 0:
		out = mustConvert(noEscConv(), doc(elem("p", text(s))))
		want = strings.TrimFunc(wsOnly(s), unicode.IsSpace)
	case 1:
		out = mustConvert(noEscConv(), doc(elem("p", text("x"+s+"y"))))
		want = wsOnly("x" + s + "y")
	case 2:
		out = mustConvert(noEscConv(), doc(elem("p", text("x"), elem("br"), text("y"+s+"z"))))
		want = "x  \n" + wsOnly("y"+s+"z")
	case 3:
		out = mustConvert(noEscConv(), doc(elem("ul", elem("li", text("x"+s+"y")))))
		want = "- " + wsOnly("x"+s+"y")
	case 4:
		out = mustConvert(noEscConv(), doc(elem("p", elem("em", text("x"+s+"y")))))
		want = "*" + wsOnly("x"+s+"y") + "*"
	case 5:
		out = mustConvert(noEscConv(), doc(elem("p", attr(elem("a", text("x"+s+"y")), "href", "u"))))
		want = "[" + wsOnly("x"+s+"y") + "](u)"
	case 6:
		out = mustConvert(noEscConv(), doc(elem("h2", text("x"+s+"y"))))
		want = "## " + wsOnly("x"+s+"y")
	case 7:
		out = mustConvert(noEscConv(), doc(elem("blockquote", text("x"), elem("p", elem("strong", text("x"+s+"y"))))))
		pre = "> x\n> \n> "
		want = "**" + wsOnly("x"+s+"y") + "**"
	case 8:
		out = mustConvert(noEscConv(), doc(elem("ol", elem("li", attr(attr(elem("a", elem("em", text("x"+s+"y"))), "href", "u"), "title", "t")))))
		want = "1. [*" + wsOnly("x"+s+"y") + "*](u \"t\")"
	}
	sym.Observe("out", out)
	sym.Assert(out == pre+entities(want), "the text is not changed")
}

// C05: text without characters that have a meaning is not changed, and neither
// are the characters that only have a meaning at the start of a line.
func C05_smart() {
	n := sym.Param("n", 2)
	s := sym.Str("text", n)
	noMarkers(s)
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assume(c != 0 && c != '\\' && c != '*' && c != '_' && c != '`' && c != '[')
	}
	var out, want string
	switch sym.Param("ctx", 0) {
	case 0: // in the middle of a line
		out = mustConvert(stdConv(), doc(elem("p", text("x"+s+"y"))))
		want = wsOnly("x" + s + "y")
	case 1: // after other inline content
		out = mustConvert(stdConv(), doc(elem("p", elem("em", text("x")), text(s+"y"))))
		want = "*x*" + wsOnly("x" + s + "y")[1:]
	case 2:
		out = mustConvert(stdConv(), doc(elem("ul", elem("li", text("x"+s+"y")))))
		want = "- " + wsOnly("x"+s+"y")
	}
	// "![" is the only other start of an inline construct
	sym.Observe("out", out)
	sym.Assert(out == entities(want), "the text is not escaped")
}

// C05: inert text at any position.
func C05_inert() {
	s := sym.Str("text", sym.Param("n", 2))
	noMarkers(s)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0 && (s[i] >= 0x80 || !isPunct(s[i]) || strings.IndexByte("\"$%',/:;?@^{|}&(", s[i]) >= 0))
	}
	out := mustConvert(stdConv(), doc(elem("p", text(s))))
	sym.Observe("out", out)
	sym.Assert(out == strings.TrimFunc(wsOnly(s), unicode.IsSpace), "inert text is not escaped")
}

// C05: delimiters with space on both sides are not escaped.
func C05_spaced() {
	a := sym.StrIn("a", 1, "ab1.,*_-+#=>~")
	b := sym.StrIn("b", 1, "ab1.,*_-+#=~")
	c := sym.StrIn("c", 1, "*_-+#=~!]).")
	// not a delimiter that belongs to a construct with the neighbours
	sym.Assume(a[0] != '*' && a[0] != '_')
	sym.Assume(b[0] != '*' && b[0] != '_')
	t := "x" + a + " " + c + " " + b + "y"
	out := mustConvert(stdConv(), doc(elem("p", text(t))))
	sym.Observe("out", out)
	sym.Assert(out == entities(t), "a character that cannot open a construct is not escaped")
}

// C05: markers of blocks are escaped only where they would be read as such.
func C05_blocks() {
	s := sym.ParamStr("tpre", "") + sym.StrIn("text", sym.Param("n", 3), sym.ParamStr("alpha", "1.) a")) + sym.ParamStr("tpost", "")
	want := strings.TrimSpace(wsOnly(s))
	sym.Assume(want != "")
	d, read := doc(elem("p", text(s))), mP(want)
	switch sym.Param("ctx", 0) {
	case 1: // in a second line
		d, read = doc(elem("p", text("x"), elem("br"), text(s))), mP("x"+mBR+want)
		want = "x  \n" + want
	case 2:
		d, read = doc(elem("ul", elem("li", text(s)))), mk("ul", mk("li", mP(want)))
		want = "- " + want
	case 3:
		d, read = doc(elem("blockquote", text(s))), mk("q", mP(want))
		want = "> " + want
	}
	sym.Assume(readMD(want) == read)
	out := mustConvert(stdConv(), d)
	sym.Observe("out", out)
	// the text has no tags, so this is only done for the ">" of the text
	sym.Assert(strings.ReplaceAll(out, "&gt;", ">") == want, "a character that opens no block is not escaped")
}
