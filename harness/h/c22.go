package h

import (
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// race states that no schedule of the two functions has a data race or a
// deadlock. The executor runs one after the other, in either order, and asks
// the solver for a bad reordering; natively both run at once, many times,
// under the race detector. setup makes fresh objects for every round.
func race(setup func() (a, b func())) {
	swap := sym.Bool("swap")
	if sym.Symbolic() {
		a, b := setup()
		if swap {
			a, b = b, a
		}
		sym.Thread(1)
		a()
		sym.Thread(2)
		b()
		sym.Thread(0)
		sym.NoRace()
		return
	}
	before := sym.RaceErrors()
	// to confirm a schedule of the solver takes longer
	end := time.Now()
	if os.Getenv("VERIF_CONFIRM") != "" {
		end = end.Add(10 * time.Second)
	}
	for i := 0; (i < 30 || time.Now().Before(end)) && sym.RaceErrors() == before; i++ {
		a, b := setup()
		start := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(2)
		for j, f := range []func(){a, b} {
			first := (j == 0) == (i%3 == 0)
			go func() {
				defer wg.Done()
				<-start
				if first {
					for k := 0; k < i%4; k++ {
						runtime.Gosched()
					}
				}
				f()
			}()
		}
		close(start)
		wg.Wait()
	}
	sym.Assert(sym.RaceErrors() == before, "race")
}

// plugged is a converter with all plugins and handlers of the user that are
// not in the order of their priorities.
func plugged() *converter.Converter {
	conv := fullConv()
	for _, p := range []int{900, 50, 700, 50, 300} {
		conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {}, p)
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, p)
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { return b }, p)
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string { return s }, p)
		conv.Register.UnEscaper(func(chars []byte, i int) int { return -1 }, p)
		conv.Register.TagType("zz", converter.TagTypeInline, p)
		conv.Register.TagType("div", converter.TagTypeBlock, p)
		conv.Register.TagType("q", converter.TagTypeRemove, p)
	}
	return conv
}

const richShape = "{h2}(a){p}({b}(b)_{em}(c){a}(d){code}(e){br}{img}f*|{q}(g)){ul}({li}({p}(h){ol}({li}(i))){li}(j{pre}({code}(k)))){blockquote}(l{hr}){table}({tr}({th}(m){th}(n)){tr}({td}(o){td}({del}(p)))){zz}(q){div}(r!(x)){iframe}"

func use(c *converter.Converter, d *html.Node) {
	c.ConvertNode(d, converter.WithDomain("http://x.y/z/"))
}

// C22: two conversions by one converter.
func C22_convert() {
	p1 := &shaper{src: sym.ParamStr("shape", "T(a)")}
	p2 := &shaper{src: sym.ParamStr("shape2", richShape)}
	p1.build()
	p2.build()
	race(func() (a, b func()) {
		conv := plugged()
		d1, d2 := p1.build(), p2.build()
		return func() { use(conv, d1) }, func() { use(conv, d2) }
	})
}

// registration does one of the things a user can do to a converter.
func registration(conv *converter.Converter, what int) {
	switch what {
	case 0:
		conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {}, 60)
	case 1:
		conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, 60)
	case 2:
		conv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { return b }, 60)
	case 3:
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string { return s }, 60)
	case 4:
		conv.Register.UnEscaper(func(chars []byte, i int) int { return -1 }, 60)
	case 5:
		conv.Register.EscapedChar('%', '*')
	case 6:
		conv.Register.TagType("div", converter.TagTypeInline, 60)
	case 7:
		conv.Register.TagType("qq", converter.TagTypeRemove, 60)
	case 8:
		conv.Register.RendererFor("zz", converter.TagTypeBlock, base.RenderAsPlaintextWrapper, 60)
	case 9:
		conv.Register.Plugin(table.NewTablePlugin())
	case 10:
		conv.Register.Plugin(strikethrough.NewStrikethroughPlugin())
	case 11:
		conv.Register.Plugin(plug{"", nil})
	case 12:
		conv.Register.Plugin(commonmark.NewCommonmarkPlugin(commonmark.WithBulletListMarker("?")))
	case 13:
		conv.Register.Plugin(commonmark.NewCommonmarkPlugin())
	case 14:
		conv.Register.Plugin(base.NewBasePlugin())
	}
}

const registrations = 15

// C22: a conversion while something is registered.
func C22_register() {
	what := sym.Index("what", registrations)
	p1 := &shaper{src: sym.ParamStr("shape", richShape)}
	p1.build()
	race(func() (a, b func()) {
		conv := plugged()
		d1 := p1.build()
		return func() { use(conv, d1) }, func() { registration(conv, what) }
	})
}

// C22: two registrations at once.
func C22_both() {
	w1, w2 := sym.Index("what", registrations), sym.Index("what2", registrations)
	race(func() (a, b func()) {
		conv := plugged()
		return func() { registration(conv, w1) }, func() { registration(conv, w2) }
	})
}

// C22: two converters, or the functions of the package, share nothing.
func C22_package() {
	p1 := &shaper{src: sym.ParamStr("shape", "T(a)")}
	p2 := &shaper{src: sym.ParamStr("shape2", richShape)}
	p1.build()
	p2.build()
	ways := []func(p *shaper){
		func(p *shaper) { htmltomarkdown.ConvertNode(p.build()) },
		func(p *shaper) { use(fullConv(), p.build()) },
		func(p *shaper) { htmltomarkdown.ConvertString("<p>a<b>&amp;c</b><ul><li>d<li>e&notit;</ul>") },
		func(p *shaper) {
			htmltomarkdown.ConvertReader(strings.NewReader("<table><tr><td>a</table><a href=/b title=c>d"), converter.WithDomain("q.r"))
		},
	}
	w1, w2 := sym.Index("way1", len(ways)), sym.Index("way2", len(ways))
	race(func() (a, b func()) {
		q1, q2 := *p1, *p2
		return func() { ways[w1](&q1) }, func() { ways[w2](&q2) }
	})
}

// C22: plugins made once and used by two converters.
func C22_plugins() {
	p1 := &shaper{src: sym.ParamStr("shape", "T(a)")}
	p2 := &shaper{src: sym.ParamStr("shape2", richShape)}
	p1.build()
	p2.build()
	race(func() (a, b func()) {
		bp, cp, sp, tp := base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()
		c1 := converter.NewConverter(converter.WithPlugins(bp, cp, sp, tp))
		c2 := converter.NewConverter(converter.WithPlugins(bp, cp, sp, tp))
		d1, d2 := p1.build(), p2.build()
		return func() { use(c1, d1) }, func() { use(c2, d2) }
	})
}
