package h

import (
	"strconv"

	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/ast"
	"github.com/yuin/goldmark/extension"
	extast "github.com/yuin/goldmark/extension/ast"
	gtext "github.com/yuin/goldmark/text"
)

// The CommonMark reader: goldmark, the independent implementation that the
// repository's own tests use. It runs inside the symbolic executor.
var (
	gm      = goldmark.New()
	gmStrik = goldmark.New(goldmark.WithExtensions(extension.Strikethrough))
	gmAll   = goldmark.New(goldmark.WithExtensions(extension.Strikethrough, extension.Table))
	gmTable = goldmark.New(goldmark.WithExtensions(extension.Table))
)

func init() {
	for _, g := range []goldmark.Markdown{gm, gmStrik, gmTable, gmAll} {
		g.Parser().Parse(gtext.NewReader([]byte("a *b* `c` [d](e)\n\n| a |\n|---|\n| b |")))
	}
}

func parseMD(g goldmark.Markdown, md string) (ast.Node, []byte) {
	src := []byte(md)
	return g.Parser().Parse(gtext.NewReader(src)), src
}

func isPunct(c byte) bool {
	return c >= '!' && c <= '/' || c >= ':' && c <= '@' || c >= '[' && c <= '`' || c >= '{' && c <= '~'
}

// decodeInline undoes the backslash escapes and the &lt; and &gt; entities.
func decodeInline(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && i+1 < len(b) && isPunct(b[i+1]) {
			out = append(out, b[i+1])
			i++
			continue
		}
		if b[i] == '&' && i+3 < len(b) && b[i+2] == 't' && b[i+3] == ';' {
			if b[i+1] == 'l' {
				out = append(out, '<')
				i += 3
				continue
			}
			if b[i+1] == 'g' {
				out = append(out, '>')
				i += 3
				continue
			}
		}
		out = append(out, b[i])
	}
	return out
}

// dumper prints the structure of a Markdown document. Structure marks are
// control characters, so that text cannot imitate them unnoticed.
type dumper struct {
	src    []byte
	out    []byte
	blocks bool // only block structure
}

const (
	mOpen  = "\x01"
	mClose = "\x02"
)

func (d *dumper) mark(s string) { d.out = append(append(d.out, mOpen...), s...) }
func (d *dumper) end()          { d.out = append(d.out, mClose...) }

func (d *dumper) kids(n ast.Node) {
	for c := n.FirstChild(); c != nil; c = c.NextSibling() {
		d.node(c)
	}
}

func (d *dumper) node(n ast.Node) {
	switch x := n.(type) {
	case *ast.Document:
		d.kids(n)
	case *ast.Paragraph:
		d.mark("p:")
		d.inl(n)
		d.end()
	case *ast.TextBlock:
		d.mark("p:")
		d.inl(n)
		d.end()
	case *ast.Heading:
		d.mark("h" + strconv.Itoa(x.Level) + ":")
		d.inl(n)
		d.end()
	case *ast.Blockquote:
		d.mark("q:")
		d.kids(n)
		d.end()
	case *ast.List:
		if x.IsOrdered() {
			d.mark("ol" + strconv.Itoa(x.Start) + ":")
		} else {
			d.mark("ul:")
		}
		d.kids(n)
		d.end()
	case *ast.ListItem:
		d.mark("li:")
		d.kids(n)
		d.end()
	case *ast.ThematicBreak:
		d.mark("hr")
		d.end()
	case *ast.FencedCodeBlock:
		d.mark("pre:")
		if !d.blocks {
			if x.Info != nil {
				d.out = append(d.out, x.Info.Segment.Value(d.src)...)
			}
			d.out = append(d.out, ':')
			d.lines(n)
		}
		d.end()
	case *ast.CodeBlock:
		d.mark("indented:")
		if !d.blocks {
			d.lines(n)
		}
		d.end()
	case *ast.HTMLBlock:
		d.mark("html:")
		if !d.blocks {
			d.lines(n)
		}
		d.end()
	case *ast.Text:
		d.out = append(d.out, decodeInline(x.Segment.Value(d.src))...)
		if x.HardLineBreak() {
			d.mark("br")
			d.end()
		} else if x.SoftLineBreak() {
			d.out = append(d.out, '\n')
		}
	case *ast.String:
		d.out = append(d.out, x.Value...)
	case *ast.Emphasis:
		if x.Level == 2 {
			d.mark("strong:")
		} else {
			d.mark("em:")
		}
		d.kids(n)
		d.end()
	case *ast.CodeSpan:
		d.mark("code:")
		for c := n.FirstChild(); c != nil; c = c.NextSibling() {
			v := c.(*ast.Text).Segment.Value(d.src)
			for _, b := range v {
				if b == '\n' {
					b = ' '
				}
				d.out = append(d.out, b)
			}
		}
		d.end()
	case *ast.Link:
		d.mark("a:")
		d.out = append(d.out, x.Destination...)
		d.mark("t:")
		d.out = append(d.out, decodeTitle(x.Title)...)
		d.end()
		d.kids(n)
		d.end()
	case *ast.Image:
		d.mark("img:")
		d.out = append(d.out, x.Destination...)
		d.mark("t:")
		d.out = append(d.out, decodeTitle(x.Title)...)
		d.end()
		d.kids(n)
		d.end()
	case *ast.AutoLink:
		d.mark("autolink")
		d.end()
	case *ast.RawHTML:
		d.mark("rawhtml")
		d.end()
	case *extast.Strikethrough:
		d.mark("del:")
		d.kids(n)
		d.end()
	case *extast.Table:
		d.mark("table:")
		d.kids(n)
		d.end()
	case *extast.TableHeader:
		d.mark("tr:")
		d.kids(n)
		d.end()
	case *extast.TableRow:
		d.mark("tr:")
		d.kids(n)
		d.end()
	case *extast.TableCell:
		d.mark("td:")
		d.kids(n)
		d.end()
	default:
		d.mark("?" + n.Kind().String())
		d.end()
	}
}

func (d *dumper) inl(n ast.Node) {
	if !d.blocks {
		d.kids(n)
	}
}

func (d *dumper) lines(n ast.Node) {
	l := n.Lines()
	for i := 0; i < l.Len(); i++ {
		s := l.At(i)
		d.out = append(d.out, s.Value(d.src)...)
	}
}

func decodeTitle(b []byte) []byte { return decodeInline(b) }

// readMD is the structure a CommonMark reader sees in md.
func readMD(md string) string { return readWith(gm, md) }

func readWith(g goldmark.Markdown, md string) string {
	n, src := parseMD(g, md)
	d := &dumper{src: src}
	d.node(n)
	return string(d.out)
}

// readBlocks is the block structure only.
func readBlocks(md string) string {
	n, src := parseMD(gm, md)
	d := &dumper{src: src, blocks: true}
	d.node(n)
	return string(d.out)
}

// Builders for the expected structure.
func mk(kind string, kids ...string) string {
	s := mOpen + kind + ":"
	for _, k := range kids {
		s += k
	}
	return s + mClose
}
func mP(kids ...string) string { return mk("p", kids...) }

const mBR = mOpen + "br" + mClose
const mHR = mOpen + "hr" + mClose
