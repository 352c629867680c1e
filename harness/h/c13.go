package h

import (
	"strconv"
	"strings"
	"unicode"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"golang.org/x/net/html"
)

// rawInline makes the converter render <zz> as the given Markdown, and capture
// what was rendered before the result is cleaned up.
func rawInline(c *converter.Converter, content string, got *string) {
	c.Register.RendererFor("zz", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		w.WriteString(content)
		return converter.RenderSuccess
	}, converter.PriorityEarly)
	c.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		*got = string(b)
		return b
	}, 1)
}

var emphTags = []struct{ tag, delim string }{
	{"b", "**"}, {"strong", "**"}, {"em", "*"}, {"i", "*"}, {"del", "~~"}, {"s", "~~"}, {"strike", "~~"},
}

// C13: whatever is rendered inside the element, every line with content has
// the delimiter at both ends, and the white space is outside.
func C13_lines() {
	s := sym.StrIn("content", sym.Param("n", 3), " \n\ta*\\\xc2\xa0\x07")
	e := emphTags[sym.Param("tag", 0)]
	delim := e.delim
	var opts []commonmark.OptionFunc
	if sym.Param("alt", 0) == 1 {
		opts = append(opts, commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__"))
		delim = strings.ReplaceAll(delim, "*", "_")
	}
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(opts...), strikethrough.NewStrikethroughPlugin()))
	var raw string
	rawInline(c, s, &raw)
	out := mustConvert(c, doc(elem("p", text("x"), elem(e.tag, elem("zz")), text("y"))))
	sym.Observe("out", out)
	sym.Observe("raw", raw)
	var want []byte
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if i > 0 {
			want = append(want, '\n')
		}
		t := strings.TrimSpace(l)
		if t == "" {
			want = append(want, l...)
			continue
		}
		k := len(l) - len(strings.TrimLeftFunc(l, unicode.IsSpace))
		want = append(want, l[:k]...)
		want = append(want, delim...)
		want = append(want, t...)
		want = append(want, delim...)
		want = append(want, l[k+len(t):]...)
	}
	a := strings.IndexByte(raw, 'x')
	z := strings.LastIndexByte(raw, 'y')
	sym.Assert(a >= 0 && z > a, "the surroundings are there")
	sym.Assert(raw[a+1:z] == string(want), "the delimiters are around the content of every line")
}

// C13: a reader sees the emphasized words emphasized, and only those.
func C13_read() {
	e := emphTags[sym.Param("tag", 0)]
	d, _ := shaped()
	sym.Known("KF6", sym.Param("kf6", 0) == 1)
	want := marked(d, func(t string) bool {
		for _, x := range emphTags {
			if x.delim == e.delim && x.tag == t {
				return true
			}
		}
		return false
	}, false)
	txt := letters(textOf(d))
	out := mustConvert(fullConv(), d)
	sym.Observe("out", out)
	got := readWith(gmStrik, out)
	sym.Observe("read", got)
	kind := map[string]string{"**": "strong", "*": "em", "~~": "del"}[e.delim]
	flags, seen := markedIn(got, kind)
	sym.Observe("flags", flags)
	sym.Assert(seen == txt, "the text is the same")
	sym.Assert(flags == want, "the same words are emphasized")
	if sym.Param("strict", 0) == 1 {
		sym.Assert(!strings.ContainsAny(got, "*~"), "no delimiter is left")
	}
}

// markedIn reads the dump: for every letter of the text whether it is inside
// the kind.
func markedIn(dump, kind string) (flags, txt string) {
	var stack []string
	var f, t []byte
	in := 0
	for i := 0; i < len(dump); i++ {
		switch c := dump[i]; {
		case c == 1:
			e := i + 1
			for dump[e] != ':' && dump[e] != 2 {
				e++
			}
			k := dump[i+1 : e]
			stack = append(stack, k)
			if k == kind {
				in++
			}
			i = e
			if dump[e] == 2 {
				i = e - 1
			}
			if k == "a" || k == "img" { // the target
				for dump[i+1] != 1 {
					i++
				}
			}
		case c == 2:
			if stack[len(stack)-1] == kind {
				in--
			}
			stack = stack[:len(stack)-1]
		case c >= 'a' && c <= 'z':
			t = append(t, c)
			f = append(f, strconv.Itoa(min(in, 1))...)
		}
	}
	return string(f), string(t)
}
