package hc

import (
	"io/fs"
	"path/filepath"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// C24_dir: the exit status of runs with several inputs and a directory.
func C24_dir() {
	f := &files{}
	f.scene()
	defer f.w.done()
	f.run()
	f.status()
	out := filepath.Clean(sym.ParamStr("out", "out/"))
	if f.r.exit == 0 {
		sym.Reach("success")
		sym.Assert(!f.broken, "an input that cannot be read is an error")
		sym.Assert(same(f.written(func(p string) bool { return filepath.Dir(p) == out }), f.inputs), "success means that every input is converted and written")
		return
	}
	sym.Reach("error")
	long := false
	for _, m := range f.inputs {
		long = long || f.limit > 0 && len(m) > f.limit
	}
	sym.Assert(f.broken || long || sym.Param("old", 0) > 0, "nothing failed")
}

// C24_file: the exit status of runs with one input and an output path.
func C24_file() {
	f := &files{}
	_, ok := f.single()
	defer f.w.done()
	f.run()
	f.status()
	sym.Assert((f.r.exit == 0) == ok, "the exit status says whether the file is written")
}

// status: what every run has to show.
func (f *files) status() {
	status(f.r)
	sym.Assert(f.r.stdout == "", "the Markdown is in files")
}

func status(r result) {
	sym.Assert(r.exit == 0 || r.exit == 1, "exit status 0 or 1")
	if r.exit == 1 {
		sym.Assert(r.stdout == "", "no output after an error")
		sym.Assert(strings.TrimSpace(r.stderr) != "", "errors have a message")
	} else {
		sym.Assert(r.stderr == "", "no message after success")
	}
}

// C24_input: inputs that are missing, directories, patterns, several without a
// directory for the output.
func C24_input() {
	w := newWorld()
	defer w.done()
	w.file("a.html", "<b>qaz</b>")
	w.file("d/b.html", "<b>qbz</b>")
	w.file("d/c.htm", "<b>qcz</b>")
	w.file("e", "")
	w.mkdir("f.html")
	w.link("l.html")
	type in struct {
		path string
		out  string // Markdown; "!" an error; "+" several inputs
	}
	ins := []in{{"a.html", "**qaz**"}, {"./a.html", "**qaz**"}, {"d/../a.html", "**qaz**"}, {"*.html", "!"}, {"a*", "**qaz**"}, {"d/*.html", "**qbz**"}, {"d/*", "+"}, {"**/c.*", "**qcz**"}, {"e", ""},
		{"missing.html", "!"}, {"d", "!"}, {"d/", "!"}, {"f.html", "!"}, {"l.html", "!"}, {"x*", "!"}, {"[", "!"}, {"d/[", "!"}, {"{a,d/b}.html", "+"}, {" a.html ", "**qaz**"}, {"", "!"}, {" ", "!"}, {"e/x", "!"}, {"d/?.htm", "**qcz**"}, {"d/[bc].html", "**qbz**"}}
	x := ins[sym.Index("input", len(ins))]
	as := []string{"--input", x.path}
	switch o := sym.Index("output", 5); o {
	case 1:
		as = append(as, "--output", "o.md")
	case 2:
		as = append(as, "--output=o")
	case 3:
		as = append(as, "--output", "o/")
	case 4:
		as = append(as, "--output", " ")
	}
	r := runWith(&stream{data: []byte("<b>qzz</b>"), mode: sym2mode("stdin")}, &stream{mode: pipe}, &stream{mode: pipe}, as...)
	sym.Observe("args", strings.Join(as, " "))
	sym.Observe("exit", r.exit)
	sym.Observe("stdout", r.stdout)
	status(r)
	toDir := len(as) == 4 && as[3] == "o/"
	switch {
	case len(as) == 4 && as[3] == " ", x.out == "!", x.out == "+" && !toDir:
		sym.Assert(r.exit == 1, "an error")
		sym.Assert(at(w.list(), "o.md") == nil, "nothing is written")
		sym.Reach("error")
	default:
		sym.Assert(r.exit == 0, "a success")
		if len(as) == 2 {
			sym.Assert(r.stdout == x.out+"\n", "the Markdown on the standard output")
		} else {
			sym.Assert(r.stdout == "", "no Markdown on the standard output")
		}
		sym.Reach("success")
	}
}

// C24_streams: the standard streams fail at any operation.
func C24_streams() {
	data := "<p>qaz</p><p>" + sym.StrIn("text", 2, "ab") + "</p>"
	in := &stream{data: []byte(data), mode: sym2mode("stdin"), fail: sym.Index("failIn", 4), piece: sym.Index("piece", 3) * 7}
	out := &stream{mode: sym2mode("stdout"), fail: sym.Index("failOut", 3), short: sym.Bool("short")}
	err := &stream{mode: sym2mode("stderr")}
	r := runWith(in, out, err)
	sym.Observe("exit", r.exit)
	sym.Observe("stdout", r.stdout)
	switch {
	case in.mode == terminal:
		sym.Reach("terminal")
		sym.Assert(in.n == 0, "nothing is read from a terminal")
		status(r)
		sym.Assert(r.exit == 1, "no input is an error")
	case in.failed:
		sym.Reach("read fails")
		status(r)
		sym.Assert(r.exit == 1, "a failed read is an error")
	case out.failed:
		sym.Reach("write fails")
		sym.Assert(r.exit == 1, "a failed write is an error")
		sym.Assert(strings.TrimSpace(r.stderr) != "", "a failed write has a message")
	default:
		sym.Reach("success")
		status(r)
		sym.Assert(r.exit == 0, "a success")
		md, e := mdOf(data, options{})
		sym.Assert(e == nil && r.stdout == md+"\n", "all of the Markdown is written")
	}
}

func sym2mode(name string) fs.FileMode {
	if sym.Bool(name) {
		return terminal
	}
	return pipe
}

// options is what a command line asks for.
type options struct {
	help, version        bool
	domain               string
	strong               string
	strike, table        bool
	skip, promote, pres  bool
	span, newline, pad   string
	tableOption, invalid bool
}

// mdOf converts with the library, without the command line program.
func mdOf(input string, o options) (string, error) {
	if o.strong == "" {
		o.strong = "**"
	}
	ps := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter(o.strong))}
	if o.strike {
		ps = append(ps, strikethrough.NewStrikethroughPlugin())
	}
	if o.table {
		ps = append(ps, table.NewTablePlugin(table.WithSkipEmptyRows(o.skip), table.WithHeaderPromotion(o.promote), table.WithPresentationTables(o.pres),
			table.WithSpanCellBehavior(table.SpanCellBehavior(o.span)), table.WithNewlineBehavior(table.NewlineBehavior(o.newline)), table.WithCellPaddingBehavior(table.CellPaddingBehavior(o.pad))))
	}
	return converter.NewConverter(converter.WithPlugins(ps...)).ConvertString(input, converter.WithDomain(o.domain))
}

const sample = `<p><b>qaz</b> <del>qbz</del> <a href="/x">qcz</a> <img src="y" alt="qdz"></p>` +
	`<table><tr><td>qez</td><td colspan="2">qfz</td></tr><tr><td></td><td></td><td></td></tr><tr><td>qgz</td><td>qhz<br>qiz</td><td>qjzzzz</td></tr></table>` +
	`<table role="presentation"><tr><td>qkz</td></tr></table><table><tr><th>qlz</th></tr><tr><td>qm<br>z</td></tr></table>`

// setting is one flag of the program.
type setting struct {
	flag   string
	isBool bool
	set    func(o *options, v string) bool // false: the value is refused
}

func boolVal(v string) (b, ok bool) {
	switch v {
	case "1", "t", "T", "true", "TRUE", "True":
		return true, true
	case "0", "f", "F", "false", "FALSE", "False":
		return false, true
	}
	return false, false
}

func bset(f func(o *options) *bool, dep bool) func(o *options, v string) bool {
	return func(o *options, v string) bool {
		b, ok := boolVal(v)
		*f(o) = b
		if dep && ok {
			o.tableOption = o.tableOption || b
		}
		return ok
	}
}

func sset(f func(o *options) *string) func(o *options, v string) bool {
	return func(o *options, v string) bool {
		*f(o) = v
		return true
	}
}

var settings = []setting{
	{"domain", false, sset(func(o *options) *string { return &o.domain })},
	{"opt-strong-delimiter", false, sset(func(o *options) *string { return &o.strong })},
	{"plugin-strikethrough", true, bset(func(o *options) *bool { return &o.strike }, false)},
	{"plugin-table", true, bset(func(o *options) *bool { return &o.table }, false)},
	{"opt-table-skip-empty-rows", true, bset(func(o *options) *bool { return &o.skip }, true)},
	{"opt-table-header-promotion", true, bset(func(o *options) *bool { return &o.promote }, true)},
	{"opt-table-presentation-tables", true, bset(func(o *options) *bool { return &o.pres }, true)},
	{"opt-table-span-cell-behavior", false, sset(func(o *options) *string { return &o.span })},
	{"opt-table-newline-behavior", false, sset(func(o *options) *string { return &o.newline })},
	{"opt-table-cell-padding-behavior", false, sset(func(o *options) *string { return &o.pad })},
	{"version", true, bset(func(o *options) *bool { return &o.version }, false)},
	{"include-selector", false, func(o *options, v string) bool { return false }},
	{"exclude-selector", false, func(o *options, v string) bool { return false }},
	{"v", true, bset(func(o *options) *bool { return &o.version }, false)},
}

// parse reads a command line as documented for package flag. A string is what
// the program has to do about it: "" convert, "!" an error, "help".
func parse(as []string) (o options, what string) {
	o.strong = "**"
	for len(as) > 0 {
		a := as[0]
		as = as[1:]
		if a == "" || a[0] != '-' || a == "-" {
			return o, "!" // an argument
		}
		if a == "--" {
			if len(as) > 0 {
				return o, "!"
			}
			break
		}
		f := a[1:]
		if f[0] == '-' {
			f = f[1:]
		}
		if f == "" || f[0] == '-' || f[0] == '=' {
			return o, "!"
		}
		val, has := "", false
		if i := strings.IndexByte(f, '='); i >= 0 {
			f, val, has = f[:i], f[i+1:], true
		}
		var s *setting
		for i := range settings {
			if settings[i].flag == f {
				s = &settings[i]
			}
		}
		if s == nil {
			if f == "help" || f == "h" {
				return o, "help"
			}
			return o, "!"
		}
		switch {
		case has:
		case s.isBool:
			val = "true"
		case len(as) == 0:
			return o, "!"
		default:
			val, as = as[0], as[1:]
		}
		if !s.set(&o, val) {
			return o, "!"
		}
	}
	if !o.table && (o.skip || o.promote || o.pres || o.span != "" || o.newline != "" || o.pad != "") {
		return o, "!"
	}
	return o, ""
}

// C24_flags: a command line of flags and values.
func C24_flags() {
	var as []string
	k := sym.Param("k", 2)
	pool := strings.Split(sym.ParamStr("pool", "domain=,plugin-table,plugin-strikethrough,opt-strong-delimiter ,help,x"), ",")
	for i := 0; i < k; i++ {
		c := string(rune('0' + i))
		p := sym.Pick("arg"+c, pool...)
		dash := "--"
		if sym.Param("dash", 0) > 0 {
			dash = sym.Pick("dash"+c, "--", "-", "", "---")
		}
		val := ""
		if j := strings.IndexByte(p, '?'); j >= 0 { // a free value
			n := int(p[j+1] - '0')
			p, val = p[:j], sym.StrIn("value"+c, n, sym.ParamStr("alpha", "a*_=- "))
			if j > 0 && p[j-1] == ' ' {
				as = append(as, dash+p[:j-1], val)
				continue
			}
		}
		if p != "" && p[0] == '!' { // without dashes
			as = append(as, p[1:]+val)
		} else {
			as = append(as, dash+p+val)
		}
	}
	r := run(sample, as...)
	sym.Observe("args", strings.Join(as, "|"))
	sym.Observe("exit", r.exit)
	status(r)
	o, what := parse(as)
	switch {
	case what == "help":
		sym.Reach("help")
		sym.Assert(r.exit == 0, "help is no error")
		sym.Assert(len(words(r.stdout)) == 0, "help converts nothing")
	case what == "!":
		sym.Observe("stderr", r.stderr)
		sym.Reach("error")
		sym.Assert(r.exit == 1, "a wrong command line is an error")
	case o.version:
		sym.Reach("version")
		sym.Assert(r.exit == 0 && strings.Contains(r.stdout, "1"), "the version is shown")
		sym.Assert(len(words(r.stdout)) == 0, "nothing is converted")
	default:
		md, err := mdOf(sample, o)
		if err != nil {
			sym.Reach("refused")
			sym.Assert(r.exit == 1, "a wrong option is an error")
			return
		}
		sym.Observe("stdout", r.stdout)
		sym.Reach("converted")
		sym.Assert(r.exit == 0, "a success")
		sym.Assert(r.stdout == md+"\n", "the options reach the converter")
	}
}
