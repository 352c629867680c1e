package h

import (
	"bytes"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/ast"
)

// C12: every visible text appears once and in order, in the Markdown and for
// whoever reads it.
func C12_order() {
	d, _ := shaped()
	want := letters(textOf(d))
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	sym.Assert(letters(out) == want, "every letter once and in order")
	if sym.Param("gm", 0) == 1 {
		g := gm
		if sym.Param("clean", 0) == 1 {
			g = gmAll
		}
		seen := readText(g, out)
		sym.Observe("seen", seen)
		sym.Assert(letters(seen) == want, "a CommonMark reader sees every letter once and in order")
		if sym.Param("clean", 0) == 1 {
			sym.Assert(!strings.ContainsAny(seen, "#>*_~-`|<"), "no Markdown is left as text")
		}
	}
}

// readText is the text a CommonMark reader shows.
func readText(g goldmark.Markdown, md string) string {
	n, src := parseMD(g, md)
	return readNode(n, src)
}

func readNode(n ast.Node, src []byte) string {
	var out []byte
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		switch x := n.(type) {
		case *ast.Text:
			out = append(out, decodeInline(x.Segment.Value(src))...)
		case *ast.String:
			out = append(out, x.Value...)
		case *ast.FencedCodeBlock, *ast.CodeBlock:
			l := n.Lines()
			for i := 0; i < l.Len(); i++ {
				s := l.At(i)
				out = append(out, s.Value(src)...)
			}
		}
		for c := n.FirstChild(); c != nil; c = c.NextSibling() {
			walk(c)
		}
	}
	walk(n)
	return string(out)
}

// C10: the output is trimmed and has at most one blank line between blocks.
func C10_hygiene() {
	d, _ := shaped()
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	sym.Assert(string(bytes.TrimSpace([]byte(out))) == out, "the output is trimmed")
	sym.Assert(!strings.Contains(out, "\n\n\n"), "at most one blank line between blocks")
}
