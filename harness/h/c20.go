package h

import (
	"math"
	"strconv"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// plug is a plugin made of a function.
type plug struct {
	name string
	init func(conv *converter.Converter) error
}

func (p plug) Name() string                         { return p.name }
func (p plug) Init(conv *converter.Converter) error { return p.init(conv) }

func id(i int) string { return string(rune('a' + i)) }

// prios gives k handlers a priority: every step-th one any of 0..hi, the
// others 1.
func prios(k int) []int {
	step, lo, hi := sym.Param("step", 1), 0, sym.Param("hi", 2)
	if hi == 0 {
		lo, hi = math.MinInt, math.MaxInt
	}
	p := make([]int, k)
	for i := range p {
		p[i] = 1
		if i%step == 0 {
			p[i] = sym.Int("prio"+strconv.Itoa(i), lo, hi)
		}
	}
	return p
}

// inOrder is the reference: by priority, those of one priority as registered.
func inOrder(p []int) []int {
	var out []int
	for i := range p {
		j := len(out)
		for j > 0 && p[out[j-1]] > p[i] {
			j--
		}
		out = append(out, 0)
		copy(out[j+1:], out[j:])
		out[j] = i
	}
	return out
}

func ids(order []int) string {
	s := ""
	for _, i := range order {
		s += id(i)
	}
	return s
}

// spread registers one after the other: some while the converter is made, as
// parts of plugins, the others later.
func spread(k int, reg func(conv *converter.Converter, i int)) *converter.Converter {
	cut := sym.Param("cut", 0)
	conv := converter.NewConverter(converter.WithPlugins(plug{"one", func(conv *converter.Converter) error {
		for i := 0; i < cut; i++ {
			reg(conv, i)
		}
		return nil
	}}))
	for i := cut; i < k; i++ {
		reg(conv, i)
	}
	return conv
}

// C20: the handlers run by priority, those of the same one in the order of
// their registration, and each gets what the one before it made.
func C20_order() {
	k, kind := sym.Param("k", 3), sym.Param("kind", 0)
	p := prios(k)
	calls := ""
	on := true
	note := func(i int) {
		if on {
			calls += id(i)
		}
	}
	conv := spread(k, func(conv *converter.Converter, i int) {
		switch kind {
		case 0:
			conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { note(i) }, p[i])
		case 1:
			conv.Register.TextTransformer(func(ctx converter.Context, s string) string { note(i); return s + id(i) }, p[i])
		case 2:
			conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				if n.Data == "zz" {
					note(i)
				}
				return converter.RenderTryNext
			}, p[i])
		case 3:
			conv.Register.UnEscaper(func(chars []byte, at int) int { note(i); return -1 }, p[i])
		case 4:
			conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { note(i); return append(b, id(i)...) }, p[i])
		}
	})
	if kind == 3 {
		conv.Register.EscapedChar('*')
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
			return ctx.UnEscapeContent(ctx.EscapeContent(b))
		}, 5)
	}
	if kind != 2 {
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, 5)
	}
	for round := 0; round < 2; round++ {
		calls = ""
		out := mustConvert(conv, doc(elem("zz", text("*"))))
		sym.Observe("out", out)
		sym.Observe("calls", calls)
		want := ids(inOrder(p))
		sym.Assert(calls == want, "the handlers run in the order of their priorities")
		if kind == 1 || kind == 4 {
			sym.Assert(out == "*"+want, "every handler gets what the one before it made")
		} else {
			sym.Assert(out == "*", "handlers that do nothing change nothing")
		}
	}
}

// C20: the first renderer that reports success is the last one called for a
// node.
func C20_first() {
	k := sym.Param("k", 3)
	p := prios(k)
	names := []string{"zz", "p"}
	success := make([][]bool, k)
	for i := range success {
		for j := range names {
			success[i] = append(success[i], sym.Bool("success"+strconv.Itoa(i)+names[j]))
		}
	}
	done := func(i int, n *html.Node) bool {
		for j, x := range names {
			if n.Data == x {
				return success[i][j]
			}
		}
		return false
	}
	calls := ""
	conv := spread(k, func(conv *converter.Converter, i int) {
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			if n.Data == "zz" || n.Data == "p" {
				calls += id(i)
			}
			if done(i, n) {
				w.WriteString("<" + id(i) + n.Data)
				if sym.Param("kids", 0) == 1 {
					ctx.RenderChildNodes(ctx, w, n)
				}
				w.WriteString(">")
				return converter.RenderSuccess
			}
			return converter.RenderTryNext
		}, p[i])
	})
	d := doc(elem("p", text("x"), elem("zz", text("y"), elem("p", text("z")))), elem("zz", text("v")))
	order := inOrder(p)
	wantCalls, want := "", ""
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if n.Type == html.TextNode {
			want += n.Data
			return
		}
		all := n.Data == "zz" || n.Data == "p"
		hit := -1
		for _, i := range order {
			if all {
				wantCalls += id(i)
			}
			if done(i, n) {
				hit = i
				break
			}
		}
		if hit >= 0 {
			want += "<" + id(hit) + n.Data
		}
		if hit < 0 || sym.Param("kids", 0) == 1 {
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				walk(c)
			}
		}
		if hit >= 0 {
			want += ">"
		}
	}
	walk(d)
	out := strings.ReplaceAll(mustConvert(conv, d), "\n", "")
	sym.Observe("out", out)
	sym.Observe("calls", calls)
	sym.Assert(calls == wantCalls, "the renderers are called up to the first success")
	sym.Assert(out == want, "the first success makes the output")
}

// C20: a renderer of the user against those of the plugins.
func C20_override() {
	tags := []string{"b", "ul", "table", "del", "pre", "zz", "h2", "img", "a", "video", "div"}
	tag := sym.Pick("tag", tags...)
	p1, p2 := sym.Int("prio1", 498, 502), sym.Int("prio2", 498, 502)
	s1, s2 := sym.Bool("success1"), sym.Bool("success2")
	first := sym.Param("first", 0) == 1 // registered in front of the plugins
	mk := func(name string, s bool) converter.HandleRenderFunc {
		return func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			if s {
				w.WriteString(name)
				return converter.RenderSuccess
			}
			return converter.RenderTryNext
		}
	}
	kid := func() *html.Node {
		n := elem(tag, text("a"))
		decorate(n)
		switch tag {
		case "ul":
			n = elem("ul", elem("li", text("a")))
		case "table":
			n = elem("table", elem("tbody", elem("tr", elem("td", text("a")))))
		}
		return doc(elem("p", text("x")), n)
	}
	reg := func(conv *converter.Converter) {
		conv.Register.RendererFor(tag, converter.TagTypeInline, mk("FIRST", s1), p1)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			if n.Data == tag {
				return mk("SECOND", s2)(ctx, w, n)
			}
			return converter.RenderTryNext
		}, p2)
	}
	var conv *converter.Converter
	if first {
		conv = fullConv(plug{"mine", func(conv *converter.Converter) error { reg(conv); return nil }})
	} else {
		conv = fullConv()
		reg(conv)
	}
	out := mustConvert(conv, kid())
	sym.Observe("out", out)
	plain := fullConv()
	// the tag type counts even if the renderer declines
	plain.Register.TagType(tag, converter.TagTypeInline, p1)
	none := mustConvert(plain, kid())
	limit := 500
	mine := func(p int) bool { return p < limit || p == limit && first }
	handled := tag != "zz" && tag != "video" && tag != "div" // by a plugin
	a, b := s1 && (mine(p1) || !handled), s2 && (mine(p2) || !handled)
	switch {
	case a && (!b || p1 <= p2):
		sym.Assert(strings.Contains(out, "FIRST") && !strings.Contains(out, "SECOND"), "the first handler renders the element")
	case b:
		sym.Assert(strings.Contains(out, "SECOND") && !strings.Contains(out, "FIRST"), "the second handler renders the element")
	default:
		sym.Assert(out == none, "handlers that decline or come later change nothing")
	}
}

// C20: the type of a tag is the one of the lowest priority.
func C20_type() {
	tag := sym.Pick("tag", strings.Split(sym.ParamStr("tags", "zz,span,div,script,head,input"), ",")...)
	k := sym.Param("k", 3)
	p := make([]int, k)
	kinds := make([]string, k)
	conv := stdConv()
	lo := sym.Param("lo", 0)
	for i := range p {
		p[i] = sym.Int("prio"+strconv.Itoa(i), lo, lo+2)
		kinds[i] = sym.Pick("kind"+strconv.Itoa(i), "block", "inline", "remove")
		t := converter.TagTypeBlock
		switch kinds[i] {
		case "inline":
			t = converter.TagTypeInline
		case "remove":
			t = converter.TagTypeRemove
		}
		if i == 1 {
			conv.Register.RendererFor(tag, t, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				return converter.RenderTryNext
			}, p[i])
		} else {
			conv.Register.TagType(tag, t, p[i])
		}
	}
	got := ""
	conv.Register.PreRenderer(func(ctx converter.Context, d *html.Node) {
		t, ok := ctx.GetTagType(tag)
		if ok {
			got = string(t)
		}
	}, 1)
	removed := tag == "script" || tag == "head" || tag == "input" // by the base plugin, priority 500
	want := ""
	best := 1 << 30
	if removed {
		want, best = "remove", 500
	}
	for i := range p {
		if p[i] < best {
			want, best = kinds[i], p[i]
		}
	}
	out := mustConvert(conv, doc(elem("p", text("a"), elem(tag, text("b")), text("c"))))
	sym.Observe("out", out)
	sym.Observe("type", got)
	sym.Assert(got == want, "the type with the lowest priority wins")
	md := map[string]string{"block": "a\n\nb\n\nc", "inline": "abc", "remove": "ac"}[want]
	if tag == "head" || tag == "input" {
		return
	}
	sym.Assert(out == md, "the element is rendered by its type")
}

// C20: the first unescaper with an answer is the last one asked.
func C20_unescape() {
	k := sym.Param("k", 3)
	p := prios(k)
	ans := make([]int, k)
	for i := range ans {
		ans[i] = -1
		if sym.Bool("answer" + strconv.Itoa(i)) {
			ans[i] = 1
		}
	}
	calls := ""
	conv := spread(k, func(conv *converter.Converter, i int) {
		conv.Register.UnEscaper(func(chars []byte, at int) int {
			calls += id(i)
			return ans[i]
		}, p[i])
	})
	conv.Register.EscapedChar('*')
	conv.Register.TextTransformer(func(ctx converter.Context, s string) string { return string(ctx.EscapeContent([]byte(s))) }, 1)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { return ctx.UnEscapeContent(b) }, 1)
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		return converter.RenderTryNext
	}, 5)
	out := mustConvert(conv, doc(text("a*b*")))
	sym.Observe("out", out)
	sym.Observe("calls", calls)
	want, hit := "", false
	for _, i := range inOrder(p) {
		want += id(i)
		if ans[i] != -1 {
			hit = true
			break
		}
	}
	sym.Assert(calls == want+want, "the unescapers are asked up to the first answer")
	if hit {
		sym.Assert(out == `a\*b\*`, "an answer means that the character is escaped")
	} else {
		sym.Assert(out == "a*b*", "without an answer nothing is escaped")
	}
}

// C20: whether a plugin was given to NewConverter or registered later makes no difference.
func C20_plugins() {
	tag := sym.Pick("tag", "b", "del", "table", "ul", "zz")
	k := sym.Index("later", 4)
	var opts []converter.Plugin
	all := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()}
	opts = append(opts, all[:k]...)
	conv := converter.NewConverter(converter.WithPlugins(opts...))
	for _, p := range all[k:] {
		conv.Register.Plugin(p)
	}
	d := func() *html.Node {
		n := elem(tag, text("a* b"))
		if tag == "table" {
			n = elem("table", elem("tbody", elem("tr", elem("td", text("a|")))))
		}
		return doc(elem("p", text("x")), n)
	}
	out := mustConvert(conv, d())
	sym.Observe("out", out)
	sym.Assert(out == mustConvert(fullConv(), d()), "the output is the same")
}
