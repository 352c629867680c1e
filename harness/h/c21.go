package h

import (
	"context"
	"errors"
	"io"
	"strconv"
	"strings"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"golang.org/x/net/html"
)

// C21: whatever a converter converted before, it gives what a fresh one gives.
func C21_again() {
	p1 := &shaper{src: sym.ParamStr("shape", "aT(b)")}
	p2 := &shaper{src: sym.ParamStr("shape2", "U(a)")}
	build2 := p2.build()
	conv := treeConv()
	var first []byte
	for i := 0; i < sym.Param("rounds", 1); i++ {
		b, err := conv.ConvertNode(p1.build(), converter.WithDomain("http://x.y/z/"), converter.WithContext(context.WithValue(context.Background(), ctxKey("k"), "v")))
		sym.Assert(err == nil, "no error")
		first = b
	}
	copied := string(first)
	got := mustConvert(conv, build2)
	sym.Assert(string(first) == copied, "a result is not changed by the next conversion")
	want := mustConvert(treeConv(), p2.build())
	sym.Observe("got", got)
	sym.Assert(got == want, "the same as with a fresh converter")
}

type ctxKey string

// C21: two conversions of copies of a tree give the same, although Go leaves
// the order of maps open.
func C21_maps() {
	p := &shaper{src: sym.ParamStr("shape", "aT(b)")}
	d := p.build()
	tries := 1
	if !sym.Symbolic() {
		tries = 200
	}
	first := ""
	for i := 0; i <= tries; i++ {
		if i > 0 {
			d = p.build()
		}
		b, err := treeConv().ConvertNode(d, converter.WithDomain("http://x.y/z/"))
		sym.Assert(err == nil, "no error")
		if i == 0 {
			first = string(b)
		}
		sym.Assert(string(b) == first, "the same again")
	}
}

// C21: the options of a call are not there in the next one.
func C21_options() {
	hrefs := []string{"/a", "b?c", "#d", "http://q/r", "", "mailto:x", "../e"}
	h := sym.Pick("href", hrefs...)
	h2 := sym.Pick("href2", hrefs...)
	domains := []string{"", "http://x.y/z/", "q.r", "https://s", "a b", "/none"}
	tree := func(h string) *html.Node {
		return doc(elem("p", attr(elem("a", text("t")), "href", h), attr(attr(elem("img"), "src", h2), "alt", "i")))
	}
	run := func(c *converter.Converter, h, dom string) string {
		var opts []converter.ConvertOptionFunc
		if dom != "" {
			opts = append(opts, converter.WithDomain(dom))
		}
		b, err := c.ConvertNode(tree(h), opts...)
		sym.Assert(err == nil, "no error")
		return string(b)
	}
	conv := stdConv()
	for i := 0; i < 3; i++ {
		dom := sym.Pick("domain"+strconv.Itoa(i), domains...)
		got := run(conv, h, dom)
		sym.Observe("got", got)
		sym.Assert(got == run(stdConv(), h, dom), "the domain is the one of the call")
	}
}

// C21: the state of a conversion begins empty, is seen by all of its handlers
// and by no other conversion; a value in the context is seen by the children only.
func C21_state() {
	k := sym.Param("k", 3)
	log := ""
	conv := stdConv()
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		if len(n.Data) != 2 || n.Data[0] != 'z' {
			return converter.RenderTryNext
		}
		if v, ok := ctx.Value(ctxKey("in")).(string); ok {
			log += "(" + v + ")"
		}
		if v, ok := ctx.Value(ctxKey("user")).(string); ok {
			log += "<" + v + ">"
		}
		switch n.Data {
		case "zs":
			converter.SetState(ctx, "n", 40)
		case "zu":
			converter.UpdateState(ctx, "n", func(i int) int { return i + 1 })
		case "zo":
			converter.SetState(ctx, "other", 7)
		case "zg":
			log += strconv.Itoa(converter.GetState[int](ctx, "n")) + "/" + strconv.Itoa(converter.GetState[int](ctx, "other"))
		case "zw":
			ctx = ctx.WithValue(ctxKey("in"), "w")
		}
		ctx.RenderChildNodes(ctx, w, n)
		return converter.RenderSuccess
	}, 1)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
		log += "." + strconv.Itoa(converter.GetState[int](ctx, "n"))
		return b
	}, 1)
	want := ""
	for round := 0; round < 2; round++ {
		n, other := 0, 0
		user := sym.Bool("user" + strconv.Itoa(round))
		u := ""
		var opts []converter.ConvertOptionFunc
		if user {
			opts = append(opts, converter.WithContext(context.WithValue(context.Background(), ctxKey("user"), "u")))
			u = "<u>"
		}
		p := elem("p")
		at := p
		in := false
		for i := 0; i < k; i++ {
			tag := sym.Pick("tag"+strconv.Itoa(round)+strconv.Itoa(i), "zs", "zu", "zo", "zg", "zw")
			e := elem(tag, text("a"))
			if in {
				want += "(w)"
			}
			want += u
			switch tag {
			case "zs":
				n = 40
			case "zu":
				n++
			case "zo":
				other = 7
			case "zg":
				want += strconv.Itoa(n) + "/" + strconv.Itoa(other)
			}
			at.AppendChild(e)
			if tag == "zw" && sym.Param("nest", 0) == 1 {
				at, in = e, true
			}
		}
		want += "." + strconv.Itoa(n)
		_, err := conv.ConvertNode(doc(p), opts...)
		sym.Assert(err == nil, "no error")
	}
	sym.Observe("log", log)
	sym.Assert(log == want, "state and context values are those of the conversion")
}

// pieces gives the data in pieces of the given sizes.
type pieces struct {
	s     string
	sizes []int
	end   bool // the last piece comes with the end
	err   error
}

func (r *pieces) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, r.err
	}
	n := len(r.s)
	if len(r.sizes) > 0 {
		n, r.sizes = min(n, r.sizes[0]), r.sizes[1:]
	}
	n = copy(b, r.s[:n])
	r.s = r.s[n:]
	if r.s == "" && r.end {
		return n, r.err
	}
	return n, nil
}

// C21: all the ways to convert agree, however a reader gives its data.
func C21_entry() {
	s := ""
	if a := sym.ParamStr("alpha", ""); a != "" {
		s = sym.StrIn("html", sym.Param("n", 2), a)
	} else {
		s = sym.Str("html", sym.Param("n", 2))
	}
	s = sym.ParamStr("pre", "") + s + sym.ParamStr("post", "")
	var opts []converter.ConvertOptionFunc
	if sym.Param("domain", 0) == 1 {
		opts = append(opts, converter.WithDomain("http://x.y/z/"))
	}
	conv := stdConv()
	want, err := conv.ConvertString(s, opts...)
	sym.Assert(err == nil, "no error")
	sym.Observe("out", want)
	parsed := func() *html.Node {
		d, err := html.Parse(strings.NewReader(s))
		sym.Assert(err == nil, "no error")
		return d
	}
	check := func(b []byte, err error) {
		sym.Assert(err == nil && string(b) == want, "all ways give the same")
	}
	t, err := htmltomarkdown.ConvertString(s, opts...)
	check([]byte(t), err)
	check(conv.ConvertReader(strings.NewReader(s), opts...))
	check(htmltomarkdown.ConvertReader(strings.NewReader(s), opts...))
	check(conv.ConvertNode(parsed(), opts...))
	check(htmltomarkdown.ConvertNode(parsed(), opts...))
	check(conv.ConvertReader(&pieces{s: s, sizes: []int{sym.Index("piece", 3), 1, 2}, end: sym.Bool("end"), err: io.EOF}, opts...))
}

// C21: a reader that fails makes the conversion fail, without Markdown, and
// the next conversion is not affected.
func C21_reader() {
	s := "<p>a<b>b</b>c</p>"
	k := sym.Index("after", len(s)+1)
	conv := stdConv()
	broken := errors.New("broken")
	b, err := conv.ConvertReader(&pieces{s: s[:k], sizes: []int{sym.Index("piece", 4)}, end: sym.Bool("end"), err: broken})
	sym.Assert(errors.Is(err, broken) && len(b) == 0, "the error of the reader and no Markdown")
	b, err = htmltomarkdown.ConvertReader(&pieces{s: s[:k], end: sym.Bool("end2"), err: broken})
	sym.Assert(errors.Is(err, broken) && len(b) == 0, "the error of the reader and no Markdown")
	out, err := conv.ConvertString(s)
	sym.Assert(err == nil && out == "a**b**c", "the next conversion")
}

// C21: a handler that panics does not harm the next conversion.
func C21_panic() {
	p := &shaper{src: sym.ParamStr("shape", "aT(b{zz}(c))d")}
	d := p.build()
	conv := treeConv()
	on := sym.Bool("panics")
	at := sym.Index("at", 3)
	boom := func(i int) {
		if on && at == i {
			panic("boom")
		}
	}
	conv.Register.PreRenderer(func(ctx converter.Context, d *html.Node) { boom(0) }, 700)
	conv.Register.RendererFor("zz", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		boom(1)
		ctx.RenderChildNodes(ctx, w, n)
		return converter.RenderSuccess
	}, 100)
	conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { boom(2); return b }, 510)
	func() {
		defer func() { recover() }()
		conv.ConvertNode(d, converter.WithDomain("http://x.y/"))
	}()
	on = false
	got := mustConvert(conv, p.build())
	sym.Observe("got", got)
	fresh := treeConv()
	fresh.Register.TagType("zz", converter.TagTypeInline, 100)
	sym.Assert(got == mustConvert(fresh, p.build()), "the same as with a fresh converter")
}
