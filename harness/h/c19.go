package h

import (
	"slices"
	"strconv"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// C19: the grid of a table with spanning cells.

// gridOf is the table model of the HTML standard: the cell of every position,
// and whether it is the position the cell starts at. Rows grow when a cell spans
// beyond the last one.
type gridCell struct {
	text string
	main bool
}

type tcell struct {
	text       string
	cols, rows int
}

func gridOf(rows [][]tcell) [][]gridCell {
	var g [][]gridCell
	set := func(y, x int, c gridCell) {
		for len(g) <= y {
			g = append(g, nil)
		}
		for len(g[y]) <= x {
			g[y] = append(g[y], gridCell{})
		}
		if g[y][x].text == "" {
			g[y][x] = c
		}
	}
	used := func(y, x int) bool { return y < len(g) && x < len(g[y]) && g[y][x].text != "" }
	for y, r := range rows {
		for len(g) <= y {
			g = append(g, nil)
		}
		x := 0
		for _, c := range r {
			for used(y, x) {
				x++
			}
			for dy := 0; dy < c.rows; dy++ {
				for dx := 0; dx < c.cols; dx++ {
					set(y+dy, x+dx, gridCell{c.text, dy == 0 && dx == 0})
				}
			}
			x += c.cols
		}
	}
	return g
}

// pipeRows splits a table without escapes into its cells.
func pipeRows(out string) ([][]string, bool) {
	var rows [][]string
	for _, l := range strings.Split(out, "\n") {
		if len(l) < 2 || l[0] != '|' || l[len(l)-1] != '|' {
			return nil, false
		}
		cells := strings.Split(l[1:len(l)-1], "|")
		for i := range cells {
			cells[i] = strings.Trim(cells[i], " ")
		}
		rows = append(rows, cells)
	}
	return rows, true
}

// delimRow says whether the cells are those of a delimiter row.
func delimRow(cells []string) bool {
	for _, c := range cells {
		if c == "" || strings.Trim(strings.TrimSuffix(strings.TrimPrefix(c, ":"), ":"), "-") != "" {
			return false
		}
	}
	return true
}

func spanAttr(n *html.Node, key, name string) int {
	v := sym.Choice(name, strings.Split(sym.ParamStr("spans", "1,2,3"), ",")...)
	attr(n, key, v)
	num, err := strconv.Atoi(v)
	if err != nil || num < 1 {
		return 1
	}
	return num
}

func C19_grid() {
	mirror := sym.Param("mirror", 0) == 1
	promote := sym.Param("promote", 0) == 1
	skip := sym.Param("skip", 0) == 1
	// The shape: rows of cells; an upper case letter has spans of its own, H is a header cell.
	shape := sym.ParamStr("rows", "Ab,cd")
	tbody := elem("tbody")
	var rows [][]tcell
	header := strings.HasPrefix(shape, "^")
	shape = strings.TrimPrefix(shape, "^")
	for y, r := range strings.Split(shape, ",") {
		tr := elem("tr")
		var cells []tcell
		for i := 0; i < len(r); i++ {
			tag := "td"
			if header && y == 0 {
				tag = "th"
			}
			n := elem(tag)
			c := tcell{text: string(r[i]), cols: 1, rows: 1}
			if r[i] == '-' {
				c.text = "-" // no content
			} else {
				n.AppendChild(text(c.text))
			}
			if r[i] >= 'A' && r[i] <= 'Z' {
				c.cols = spanAttr(n, "colspan", "cols"+c.text)
				c.rows = spanAttr(n, "rowspan", "rows"+c.text)
			}
			cells = append(cells, c)
			tr.AppendChild(n)
		}
		rows = append(rows, cells)
		tbody.AppendChild(tr)
	}
	span := table.SpanBehaviorEmpty
	if mirror {
		span = table.SpanBehaviorMirror
	}
	pad := []table.CellPaddingBehavior{table.CellPaddingBehaviorAligned, table.CellPaddingBehaviorMinimal, table.CellPaddingBehaviorNone}[sym.Param("pad", 0)]
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(),
		table.NewTablePlugin(table.WithSpanCellBehavior(span), table.WithHeaderPromotion(promote), table.WithSkipEmptyRows(skip), table.WithCellPaddingBehavior(pad))))
	var tab *html.Node
	first := tbody.FirstChild
	switch sym.Param("head", 0) {
	default:
		tab = elem("table", tbody)
	case 1: // a head without rows
		tab = elem("table", elem("thead"), tbody)
	case 2: // the first row in the head
		header = true
		tbody.RemoveChild(first)
		tab = elem("table", elem("thead", first), tbody)
	case 3: // the last row in the foot
		last := tbody.LastChild
		tbody.RemoveChild(last)
		tab = elem("table", elem("colgroup", elem("col")), tbody, elem("tfoot", last))
	case 4: // two bodies
		tbody.RemoveChild(first)
		tab = elem("table", elem("tbody", first), tbody)
	case 5: // an empty body first, and text that is none
		tab = elem("table", text("\n "), elem("tbody", text(" ")), text("\n"), tbody, text("\n"))
	case 6: // no body
		tab = elem("table")
		for first != nil {
			next := first.NextSibling
			tbody.RemoveChild(first)
			tab.AppendChild(first)
			first = next
		}
	}
	out := mustConvert(conv, doc(tab))
	sym.Observe("out", out)

	grid := gridOf(rows)
	width := 0
	for _, r := range grid {
		width = max(width, len(r))
	}
	var want []string
	if !header {
		want = append(want, strings.Repeat("|", width))
	}
	for _, r := range grid {
		line := ""
		for x := 0; x < width; x++ {
			if x < len(r) && (r[x].main || mirror) && r[x].text != "-" {
				line += r[x].text
			}
			line += "|"
		}
		want = append(want, line)
	}
	if skip {
		keep := want[:1]
		for _, l := range want[1:] {
			if strings.Trim(l, "|") != "" {
				keep = append(keep, l)
			}
		}
		want = keep
	}
	if promote && strings.Trim(want[0], "|") == "" && len(want) > 1 {
		want = want[1:]
	}
	got, ok := pipeRows(out)
	sym.Assert(ok, "every line is a row")
	sym.Assert(len(got) > 1, "there is a header and a delimiter row")
	for _, r := range got {
		sym.Assert(len(r) == width, "all rows have the same number of cells")
	}
	sym.Assert(delimRow(got[1]), "the second row is the delimiter row")
	var lines []string
	for i, r := range got {
		if i != 1 {
			lines = append(lines, strings.Join(r, "|")+"|")
		}
	}
	sym.Observe("want", strings.Join(want, "\n"))
	sym.Assert(strings.Join(lines, "\n") == strings.Join(want, "\n"), "every cell is in its row and column")
}

// C19: whatever a cell contains, it stays one cell.
func C19_cell() {
	s := freeText("text", sym.Param("n", 2))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	pre, post := sym.ParamStr("pre", ""), sym.ParamStr("post", "")
	var cell *html.Node
	kind := sym.Param("kind", 0)
	switch kind {
	case 0:
		cell = text(pre + s + post)
	case 1:
		cell = elem("code", text(pre+s+post))
	case 2:
		cell = attr(elem("a", text(pre+s+post)), "href", "u")
	case 3:
		cell = elem("b", text(pre+s+post))
	case 4:
		cell = attr(attr(elem("img"), "src", "u"), "alt", pre+s+post)
	case 5:
		cell = attr(elem("a", text("x")), "href", "u"+pre+s+post)
	case 6:
		cell = attr(attr(elem("a", text("x")), "href", "u"), "title", pre+s+post)
	case 7:
		cell = elem("pre", elem("code", text(pre+s+post)))
	case 8:
		cell = elem("p", text(pre+s+post))
	}
	nl := table.NewlineBehaviorSkip
	if sym.Param("preserve", 0) == 1 {
		nl = table.NewlineBehaviorPreserve
	}
	conv := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), table.NewTablePlugin(table.WithNewlineBehavior(nl))))
	tr := func(n ...*html.Node) *html.Node {
		r := elem("tr")
		for _, k := range n {
			r.AppendChild(elem("td", k))
		}
		return r
	}
	d := doc(elem("table", elem("tbody", tr(text("A"), text("B"), text("C")), tr(text("D"), cell, text("E")), tr(text("F"), text("G"), text("H")))))
	out := mustConvert(conv, d)
	sym.Observe("out", out)
	if !strings.Contains(out, "|---") {
		// the fallback
		sym.Assert(nl == table.NewlineBehaviorSkip && (kind == 7 || kind == 1 && strings.TrimSpace(s) == ""), "the table is a table")
		sym.Assert(letters(out) == letters("ABCD"+pre+s+post+"EFGH"), "the text is kept")
		sym.Reach("fallback")
		return
	}
	read := readWith(gmTable, out)
	sym.Observe("read", read)
	td := func(s string) string { return mk("td", s) }
	head := mk("tr", td(""), td(""), td("")) + mk("tr", td("A"), td("B"), td("C"))
	tail := mk("tr", td("F"), td("G"), td("H"))
	a := mOpen + "table:" + head + mOpen + "tr:" + td("D") + mOpen + "td:"
	b := mClose + td("E") + mClose + tail + mClose
	sym.Assert(strings.HasPrefix(read, a) && strings.HasSuffix(read, b), "the neighbours of the cell are as before")
	mid := read[len(a) : len(read)-len(b)]
	sym.Assert(!strings.Contains(mid, mOpen+"td:") && !strings.Contains(mid, mOpen+"tr:"), "one cell")
	if kind == 0 || kind == 8 {
		t := strings.TrimSpace(collapsed(pre + s + post))
		sym.Assert(mid == t, "the text of the cell is kept")
	}
}

// C19: any content is either in the table or in the fallback.
func C19_tree() {
	d, _ := shaped()
	want := letters(textOf(d))
	out := mustConvert(treeConv(), d)
	sym.Observe("out", out)
	// rows of the table, if there is one
	w := -1
	rows := 0
	for _, l := range strings.Split(out, "\n") {
		// inside of a list or quote
		if k := strings.IndexByte(l, '|'); k >= 0 {
			l = l[k:]
			sym.Assert(l[len(l)-1] == '|', "a row ends with a pipe")
			c := strings.Count(l, "|")
			sym.Assert(w < 0 || c == w, "all rows have the same number of cells")
			w = c
			rows++
		}
	}
	sym.Assert(rows != 1, "no table of one line")
	got := letters(strings.ReplaceAll(out, "<br />", ""))
	if sym.Param("caption", 0) == 1 {
		// the caption follows the table
		g := []byte(got)
		slices.Sort(g)
		got = string(g)
	}
	sym.Assert(got == want, "the text is there once and in order")
	read := readWith(gmTable, out)
	sym.Observe("read", read)
	sym.Assert(strings.Contains(read, mOpen+"table:") == (rows > 0), "the table is read as a table")
	sym.Assert(strings.Count(read, mOpen+"tr:") == max(rows-1, 0), "every row is read as a row")
	// a list, quote or heading that could not be read in a cell
	read = strings.ReplaceAll(read, "<!--THE END-->", "")
	sym.Assert(!strings.ContainsAny(read, "#>-`") && !strings.Contains(read, "1."), "no Markdown is left as text")
}
