package h

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
)

// C02: undoing the escapes gives the text back.
func C02_text() {
	i := sym.Param("ctx", 0)
	s := freeText("text", sym.Param("n", 2))
	p := spotOf(i, s)
	out := mustConvert(stdConv(), p.tree)
	sym.Observe("out", out)
	t := p.inBlock(s)
	if p.open() && t == "" {
		return
	}
	sym.Assert(strings.HasPrefix(out, p.pre), "the text stands where it should")
	out = out[len(p.pre):]
	sym.Assert(strings.HasSuffix(out, p.post), "the text ends where it should")
	out = out[:len(out)-len(p.post)]
	got := string(decodeInline([]byte(out)))
	// Space at the edges of a block is not content.
	if p.l == "" {
		got, t = strings.TrimLeftFunc(got, unicode.IsSpace), strings.TrimLeftFunc(t, unicode.IsSpace)
	}
	if p.r == "" {
		got, t = strings.TrimRightFunc(got, unicode.IsSpace), strings.TrimRightFunc(t, unicode.IsSpace)
	}
	sym.Assert(got == t, "undoing the escapes gives the text")
}

// C03: the block structure is the one of the elements.
func C03_text() {
	i := sym.Param("ctx", 0)
	s := freeText("text", sym.Param("n", 2))
	p := spotOf(i, s)
	out := mustConvert(stdConv(), p.tree)
	sym.Observe("out", out)
	t := p.inBlock(s)
	got := readBlocks(out)
	if p.open() && t == "" {
		sym.Assert(got == blocksOnly(p.empty(i)), "a text without content adds no block")
		return
	}
	sym.Assert(got == blocksOnly(p.want("")), "the text adds no block structure")
}

// blocksOnly drops the inline content of an expected structure.
func blocksOnly(s string) string {
	n := 0
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if n > 0 {
			if s[i] == mOpen[0] {
				n++
			} else if s[i] == mClose[0] {
				n--
				if n == 0 {
					out = append(out, s[i])
				}
			}
			continue
		}
		out = append(out, s[i])
		if s[i] == mOpen[0] {
			j := i + 1
			for s[j] != ':' && s[j] != mClose[0] {
				j++
			}
			k := s[i+1 : j]
			if k == "p" || len(k) == 2 && k[0] == 'h' && k != "hr" {
				out = append(out, s[i+1:j+1]...)
				i = j
				n = 1
			}
		}
	}
	return string(out)
}

// C04: the inline structure is the one of the elements.
func C04_text() {
	i := sym.Param("ctx", 0)
	s := freeText("text", sym.Param("n", 2))
	plainEdges(s)
	closerInEmphasis(i, s)
	p := spotOf(i, s)
	out := mustConvert(stdConv(), p.tree)
	sym.Observe("out", out)
	t := p.inBlock(s)
	got := readMD(out)
	if p.open() && t == "" {
		sym.Assert(got == p.empty(i), "a text without content adds nothing")
		return
	}
	sym.Assert(got == p.want(t), "a CommonMark reader sees the text and no inline structure in it")
}

// plainEdges leaves out texts with Unicode space that is no HTML space at an
// edge: it is kept or trimmed depending on the element.
func plainEdges(s string) {
	sym.Assume(strings.TrimFunc(s, unicode.IsSpace) == strings.Trim(s, " \t\n\r"))
}

// closerInEmphasis marks the known finding: a delimiter in front of a space is
// not escaped, although it can close the emphasis it stands in.
func closerInEmphasis(i int, s string) {
	if i != 8 && i != 13 {
		return
	}
	for k := 0; k+1 < len(s); k++ {
		r, _ := utf8.DecodeRuneInString(s[k+1:])
		sym.Known("KF1", s[k] == '*' && unicode.IsSpace(r))
	}
}
