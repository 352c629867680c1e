package h

import (
	"errors"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// as gives the string the type the option takes.
func as[T ~string](opt func(T) commonmark.OptionFunc, v string) commonmark.OptionFunc {
	return opt(T(v))
}

// refused runs the three ways to convert: all of them return an error and no
// Markdown, or none does and they agree.
func refused(mk func() *converter.Converter, tree func() *html.Node) (string, bool) {
	conv := mk()
	b, err := conv.ConvertNode(tree())
	s, err2 := conv.ConvertString("<p>a</p>")
	r, err3 := conv.ConvertReader(strings.NewReader("<p>a</p>"))
	b4, err4 := conv.ConvertNode(tree())
	bad := err != nil
	sym.Assert((err2 != nil) == bad && (err3 != nil) == bad && (err4 != nil) == bad, "every conversion is refused, or none is")
	sym.Assert(string(b) == string(b4), "both conversions give the same")
	if bad {
		sym.Assert(len(b) == 0 && s == "" && len(r) == 0, "no Markdown next to an error")
	} else {
		sym.Assert(s == "a" && string(r) == "a", "the Markdown")
	}
	sym.Observe("bad", bad)
	sym.Observe("out", string(b))
	return string(b), bad
}

func optText() string {
	n := sym.Param("n", 2)
	s := ""
	if a := sym.ParamStr("alpha", ""); a != "" {
		s = sym.StrIn("value", n, a)
	} else {
		s = sym.Str("value", n)
	}
	return sym.ParamStr("pre", "") + s + sym.ParamStr("post", "")
}

// isBreak is the reference for a thematic break of CommonMark.
func isBreak(s string) bool {
	i := 0
	for i < len(s) && s[i] == ' ' {
		i++
	}
	if i > 3 || i == len(s) {
		return false
	}
	c := s[i]
	k := 0
	for ; i < len(s); i++ {
		switch s[i] {
		case c:
			k++
		case ' ':
		default:
			return false
		}
	}
	return (c == '*' || c == '-' || c == '_') && k >= 3
}

// C26: every option of the CommonMark plugin takes the documented values and
// no others, and the value is used as it is.
func C26_commonmark() {
	v := optText()
	p := func(kids ...*html.Node) *html.Node { return elem("p", kids...) }
	var opt commonmark.OptionFunc
	var tree func() *html.Node
	var valid bool
	def := v
	want := ""
	switch kind := sym.ParamStr("opt", "em"); kind {
	case "em":
		opt, valid = commonmark.WithEmDelimiter(v), v == "*" || v == "_"
		tree = func() *html.Node { return doc(p(text("x "), elem("em", text("a")), text(" y"))) }
		if v == "" {
			def, valid = "*", true
		}
		want = "x " + def + "a" + def + " y"
	case "strong":
		opt, valid = commonmark.WithStrongDelimiter(v), v == "**" || v == "__"
		tree = func() *html.Node { return doc(p(text("x "), elem("b", text("a")), text(" y"))) }
		if v == "" {
			def, valid = "**", true
		}
		want = "x " + def + "a" + def + " y"
	case "bullet":
		opt, valid = commonmark.WithBulletListMarker(v), v == "-" || v == "+" || v == "*"
		tree = func() *html.Node { return doc(elem("ul", elem("li", text("a")), elem("li", text("b")))) }
		if v == "" {
			def, valid = "-", true
		}
		want = def + " a\n" + def + " b"
	case "fence":
		opt, valid = commonmark.WithCodeBlockFence(v), v == "```" || v == "~~~"
		tree = func() *html.Node { return doc(elem("pre", elem("code", text("a")))) }
		if v == "" {
			def, valid = "```", true
		}
		want = def + "\na\n" + def
	case "rule":
		opt, valid = commonmark.WithHorizontalRule(v), isBreak(v)
		tree = func() *html.Node { return doc(p(text("a")), elem("hr"), p(text("b"))) }
		if v == "" {
			def, valid = "* * *", true
		}
		want = "a\n\n" + def + "\n\nb"
	case "heading":
		opt, valid = as(commonmark.WithHeadingStyle, v), v == "" || v == "atx" || v == "setext"
		want = "# a"
		if v == "setext" {
			want = "a\n==="
		}
		tree = func() *html.Node { return doc(elem("h1", text("a"))) }
	}
	out, bad := refused(func() *converter.Converter {
		switch sym.Param("how", 0) {
		case 1: // between other options
			return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithListEndComment(true), opt, commonmark.WithListEndComment(false))))
		case 2: // registered later, after other plugins
			c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), strikethrough.NewStrikethroughPlugin()))
			c.Register.Plugin(commonmark.NewCommonmarkPlugin(opt))
			c.Register.Plugin(table.NewTablePlugin())
			return c
		}
		return stdConv(opt)
	}, tree)
	sym.Assert(bad == !valid, "refused if and only if the value is not valid")
	if !bad {
		if sym.ParamStr("opt", "") == "rule" {
			// white space at the ends of a line is no content
			out, want = strings.ReplaceAll(out, " \n", "\n"), strings.ReplaceAll(want, " \n", "\n")
			for strings.Contains(out, " \n") || strings.Contains(want, " \n") {
				out, want = strings.ReplaceAll(out, " \n", "\n"), strings.ReplaceAll(want, " \n", "\n")
			}
		}
		sym.Assert(out == want, "the value is used as it is")
	}
}

// C26: the same for the options of the table plugin.
func C26_table() {
	v := optText()
	valid := false
	want := ""
	tree := func() *html.Node {
		return doc(elem("table", elem("tbody", elem("tr", elem("th", text("abcd")), elem("th", text("b"))), elem("tr", attr(elem("td", text("c")), "colspan", "2")))))
	}
	tableOpt := func() converter.Plugin { return nil }
	switch sym.ParamStr("opt", "span") {
	case "span":
		tableOpt = func() converter.Plugin {
			return table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanCellBehavior(v)))
		}
		valid = v == "" || v == "empty" || v == "mirror"
		want = "| abcd | b |\n|------|---|\n| c    |   |"
		if v == "mirror" {
			want = "| abcd | b |\n|------|---|\n| c    | c |"
		}
	case "newline":
		tableOpt = func() converter.Plugin {
			return table.NewTablePlugin(table.WithSkipEmptyRows(false), table.WithNewlineBehavior(table.NewlineBehavior(v)))
		}
		valid = v == "" || v == "skip" || v == "preserve"
		tree = func() *html.Node {
			return doc(elem("table", elem("tbody", elem("tr", elem("th", text("abcd"), elem("br"), text("e"))))))
		}
		want = "abcd  \ne"
		if v == "preserve" {
			want = "| abcd  <br />e |\n|---------------|"
		}
	case "padding":
		tableOpt = func() converter.Plugin {
			return table.NewTablePlugin(table.WithCellPaddingBehavior(table.CellPaddingBehavior(v)), table.WithHeaderPromotion(false))
		}
		valid = v == "" || v == "aligned" || v == "minimal" || v == "none"
		want = "| abcd | b |\n|------|---|\n| c    |   |"
		if v == "minimal" {
			want = "| abcd | b |\n|---|---|\n| c |  |"
		} else if v == "none" {
			want = "|abcd|b|\n|---|---|\n|c||"
		}
	}
	out, bad := refused(func() *converter.Converter {
		if sym.Param("how", 0) == 1 {
			c := stdConv()
			c.Register.Plugin(tableOpt())
			return c
		}
		return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), tableOpt(), commonmark.NewCommonmarkPlugin()))
	}, tree)
	sym.Assert(bad == !valid, "refused if and only if the value is not valid")
	if !bad {
		sym.Assert(out == want, "the value is used")
	}
}

// C26: plugins that fail, plugins without a name, a missing base plugin, no
// plugins.
func C26_plugins() {
	k := sym.Param("k", 4)
	fail := false
	haveBase, haveCM := false, false
	var plugins []converter.Plugin
	for i := 0; i < k; i++ {
		switch sym.Pick("plugin"+id(i), "none", "base", "commonmark", "good", "fails", "noname", "badoption", "badtable") {
		case "base":
			haveBase = true
			plugins = append(plugins, base.NewBasePlugin())
		case "commonmark":
			haveCM = true
			plugins = append(plugins, commonmark.NewCommonmarkPlugin())
		case "good":
			plugins = append(plugins, plug{"good", func(conv *converter.Converter) error { return nil }})
		case "fails":
			fail = true
			plugins = append(plugins, plug{"fails", func(conv *converter.Converter) error { return errors.New("no") }})
		case "noname":
			fail = true
			plugins = append(plugins, plug{"", func(conv *converter.Converter) error { return nil }})
		case "badoption":
			fail = true
			plugins = append(plugins, commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("**")))
		case "badtable":
			fail = true
			plugins = append(plugins, table.NewTablePlugin(table.WithSpanCellBehavior("x"), table.WithSpanCellBehavior("empty")))
		}
	}
	later := sym.Index("later", k+1)
	conv := converter.NewConverter(converter.WithPlugins(plugins[:min(later, len(plugins))]...))
	for _, p := range plugins[min(later, len(plugins)):] {
		conv.Register.Plugin(p)
	}
	// Without commonmark no renderer is there.
	bad := fail || !haveCM || !haveBase
	out, err := conv.ConvertNode(doc(elem("p", text("a"), elem("b", text("b")))))
	out2, err2 := conv.ConvertString("<p>a<b>b</b>")
	sym.Observe("out", string(out))
	sym.Observe("err", err != nil)
	sym.Assert((err != nil) == bad && (err2 != nil) == bad, "refused if and only if a plugin fails or is missing")
	if bad {
		sym.Assert(len(out) == 0 && out2 == "", "no Markdown next to an error")
	} else {
		sym.Assert(string(out) == "a**b**" && out2 == "a**b**", "the Markdown")
	}
}

// C26: what happens with links without a target or without content.
func C26_links() {
	hb, cb := sym.Choice("hrefBehavior", "default", "render", "skip"), sym.Choice("contentBehavior", "default", "render", "skip")
	var opts []commonmark.OptionFunc
	if hb == "render" {
		opts = append(opts, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorRender))
	} else if hb == "skip" {
		opts = append(opts, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip))
	}
	if cb == "render" {
		opts = append(opts, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorRender))
	} else if cb == "skip" {
		opts = append(opts, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip))
	}
	href, title := sym.Choice("href", "none", "", " ", "\n\t", "u", "#", "/a"), sym.Choice("title", "", "t")
	s := sym.Concrete(sym.StrIn("text", 1, " \nab"))
	kind := sym.Choice("content", "none", "text", "span", "bold", "img", "comment", "br")
	want := strings.TrimSpace(s)
	if kind == "bold" && want != "" {
		want = "**" + want + "**"
	}
	mkTree := func(tag string) *html.Node {
		var kids []*html.Node
		switch kind {
		case "text":
			kids = append(kids, text(s))
		case "span":
			kids = append(kids, elem("span", elem("span", text(s))), elem("span"))
		case "bold":
			kids = append(kids, elem("b", text(s)))
		case "img":
			kids = append(kids, attr(elem("img"), "src", "i"))
		case "comment":
			kids = append(kids, &html.Node{Type: html.CommentNode, Data: "c"})
		case "br":
			kids = append(kids, text(s), elem("br"))
		}
		n := elem(tag, kids...)
		if tag == "a" {
			if href != "none" {
				attr(n, "href", href)
			}
			if title != "" {
				attr(n, "title", title)
			}
		}
		return doc(elem("p", text("x"), n, text("y")))
	}
	switch kind {
	case "none", "comment":
		want = ""
	case "img":
		want = "![](i)"
	case "br":
		sym.Assume(want != "")
	}
	target := strings.TrimSpace(href)
	if href == "none" {
		target = ""
	}
	out := mustConvert(stdConv(opts...), mkTree("a"))
	sym.Observe("out", out)
	if target == "" && hb == "skip" || want == "" && cb == "skip" {
		sym.Assert(out == mustConvert(stdConv(), mkTree("span")), "the content without a link")
		return
	}
	if title != "" && target != "" {
		target += " \"t\""
	}
	if kind == "br" {
		sym.Assert(strings.Contains(out, "["+want) && strings.Contains(out, "]("+target+")"), "a link")
		return
	}
	got := out
	if want == "" {
		got = strings.ReplaceAll(out, " ", "")
		target = strings.ReplaceAll(target, " ", "")
	}
	sym.Assert(got == "x["+want+"]("+target+")y", "a link")
}

// C26: the options that switch something on.
func C26_switches() {
	on := sym.Bool("on")
	k := sym.Choice("option", "comment", "presentation", "delimiter", "rows")
	p := func(kids ...*html.Node) *html.Node { return elem("p", kids...) }
	var out, want string
	switch k {
	case "comment":
		d := doc(elem("ul", elem("li", text("a"))), elem("ul", elem("li", text("b"))), p(text("c")))
		out, want = mustConvert(stdConv(commonmark.WithListEndComment(on)), d), "- a\n\n- b\n\nc"
		if on {
			want = "- a\n\n<!--THE END-->\n\n- b\n\nc"
		}
	case "presentation":
		tab := attr(elem("table", elem("tbody", elem("tr", elem("th", text("a")), elem("th", text("b"))), elem("tr", elem("td", text("c")), elem("td", text("d"))))), "role", sym.Choice("role", "presentation", "grid", ""))
		role := tab.Attr[0].Val
		out = mustConvert(converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), table.NewTablePlugin(table.WithPresentationTables(on)))), doc(tab))
		want = "| a | b |\n|---|---|\n| c | d |"
		if !on && role == "presentation" {
			sym.Assert(!strings.Contains(out, "|"), "no table")
			want = out
		}
	case "delimiter":
		v := "~~"
		if on {
			v = "~"
		}
		c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(v))))
		out = mustConvert(c, doc(p(text("x "), elem(sym.Choice("tag", "del", "s", "strike"), text("a ")), text("y"))))
		want = "x " + v + "a" + v + " y"
	case "rows":
		c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), table.NewTablePlugin(table.WithSkipEmptyRows(on))))
		e := func() *html.Node { return elem("tr", elem("td"), elem("td", text(" "))) }
		out = mustConvert(c, doc(elem("table", elem("tbody", elem("tr", elem("th", text("a")), elem("th", text("b"))), e(), elem("tr", elem("td", text("c")), elem("td", text("d"))), e()))))
		want = "| a | b |\n|---|---|\n|   |   |\n| c | d |\n|   |   |"
		if on {
			want = "| a | b |\n|---|---|\n| c | d |"
		}
	}
	sym.Observe("out", out)
	sym.Assert(out == want, "the option is honoured")
}
