package hc

import (
	"io/fs"
	"path/filepath"
	"sort"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
)

// files is a scene: inputs below in/, other things where the program writes,
// and a command line.
type files struct {
	w      *world
	args   []string
	stdin  string
	inputs []string // the Markdown of every input, as the program should write it
	broken bool     // an input cannot be read
	before []entry
	after  []entry
	r      result
	limit  int
	over   bool
}

// text gives an input's content and its Markdown.
func text(i int) (string, string) {
	c := string(rune('a' + i))
	if sym.Param("empty", 0) > 0 && sym.Bool("empty"+c) {
		return "", ""
	}
	return "<b>q" + c + "z</b>", "**q" + c + "z**"
}

// name is a file name of free characters.
func name(id string, n int) string {
	s := sym.StrIn("name"+id, n, sym.ParamStr("alpha", "ab."))
	sym.Assume(s != "." && s != "..")
	return s
}

func (f *files) scene() {
	f.w = newWorld()
	dirs := strings.Fields(sym.ParamStr("dirs", "in/ in/s/ in/t/"))
	k := sym.Param("k", 2)
	var paths []string
	for i := 0; i < k; i++ {
		c := string(rune('0' + i))
		n := sym.Param("len"+c, sym.Param("len", 3))
		p := sym.Pick("dir"+c, dirs...) + name(c, n) + sym.ParamStr("ext", "")
		for _, q := range paths {
			sym.Assume(q != p && !strings.HasPrefix(q, p+"/") && !strings.HasPrefix(p, q+"/"))
		}
		paths = append(paths, p)
		data, md := text(i)
		if sym.Param("links", 0) > i && sym.Bool("link"+c) {
			f.w.link(p)
			f.broken = true
			continue
		}
		f.w.file(p, data)
		f.inputs = append(f.inputs, md)
	}
	// things that are there already
	for i := 0; i < sym.Param("old", 0); i++ {
		c := string(rune('5' + i))
		p := sym.ParamStr("olddir", "out/") + name(c, sym.Param("oldlen", 1)) + sym.ParamStr("oldext", ".md")
		for _, q := range paths {
			sym.Assume(q != p && !strings.HasPrefix(p, q+"/"))
		}
		paths = append(paths, p)
		switch sym.Pick("old"+c, strings.Fields(sym.ParamStr("kinds", "file dir link"))...) {
		case "file":
			f.w.file(p, "old content "+c)
		case "dir":
			f.w.mkdir(p)
		case "link":
			f.w.link(p)
		}
	}
	f.args = []string{"--input", sym.ParamStr("in", "in/**"), "--output", sym.ParamStr("out", "out/")}
	f.over = sym.Bool("overwrite")
	if f.over {
		f.args = append(f.args, "--output-overwrite")
	}
	f.limit = sym.Param("limit", 0)
}

func (f *files) run() {
	f.before = f.w.list()
	f.w.limit(f.limit)
	f.r = run(f.stdin, f.args...)
	f.w.limit(0)
	f.after = f.w.list()
	sym.Observe("args", strings.Join(f.args, " "))
	sym.Observe("exit", f.r.exit)
	sym.Observe("stdout", f.r.stdout)
	sym.Observe("before", show(f.before))
	sym.Observe("after", show(f.after))
}

func show(es []entry) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(e.path + " " + e.kind.String()[:1] + " " + e.data + "\n")
	}
	return b.String()
}

func at(es []entry, path string) *entry {
	for i := range es {
		if es[i].path == path {
			return &es[i]
		}
	}
	return nil
}

// untouched: what was there is there, except that files in the directory may
// have got new content when that was asked for.
func (f *files) untouched(target func(path string) bool) {
	for _, e := range f.before {
		a := at(f.after, e.path)
		sym.Assert(a != nil, "nothing is removed")
		sym.Assert(a.kind == e.kind, "nothing becomes something else")
		if !f.over || !target(e.path) {
			sym.Assert(a.data == e.data, "no other file is modified")
		}
	}
}

// written gives the content of the files that are new or changed.
func (f *files) written(target func(path string) bool) []string {
	var got []string
	for _, a := range f.after {
		if a.kind != 0 {
			continue
		}
		if b := at(f.before, a.path); b == nil || b.data != a.data {
			sym.Assert(target(a.path), "files are written only where the output is")
			got = append(got, a.data)
		}
	}
	return got
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C23_dir: several inputs, one directory.
func C23_dir() {
	f := &files{}
	f.scene()
	defer f.w.done()
	f.run()
	f.dir()
}

func (f *files) dir() {
	out := filepath.Clean(sym.ParamStr("out", "out/"))
	target := func(p string) bool { return filepath.Dir(p) == out }
	f.untouched(target)
	if f.r.exit == 0 {
		sym.Reach("written")
		sym.Assert(same(f.written(target), f.inputs), "every input has an output file of its own with its Markdown")
		return
	}
	sym.Reach("failed")
	if f.limit > 0 {
		return // pieces of files
	}
	for _, g := range f.written(target) {
		ok := false
		for _, m := range f.inputs {
			ok = ok || g == m
		}
		sym.Assert(ok, "what is written is the Markdown of an input")
	}
}

// C23_collide: the names that the program gives to inputs of the same name are
// taken by other inputs as well.
func C23_collide() {
	f := &files{over: sym.Bool("overwrite")}
	f.w = newWorld()
	stem := name("0", sym.Param("len", 1))
	mk := func(w *world, more ...string) {
		f.inputs = nil
		for i, p := range append([]string{"in/" + stem + ".html", "in/s/" + stem + ".html"}, more...) {
			data, md := text(i)
			w.file(p, data)
			f.inputs = append(f.inputs, md)
		}
	}
	mk(f.w)
	f.args = []string{"--input", "in/**", "--output", "out/"}
	f.run()
	sym.Assert(f.r.exit == 0, "the first run succeeds")
	var taken []string
	for _, e := range f.after {
		if filepath.Dir(e.path) == "out" && e.path != "out/"+stem+".md" {
			taken = append(taken, strings.TrimSuffix(filepath.Base(e.path), ".md"))
		}
	}
	sym.Assert(len(taken) == 1, "the second of two inputs has a name of its own")
	f.w.done()

	f.w = newWorld()
	defer f.w.done()
	mk(f.w, sym.Pick("dir", "in/", "in/a/", "in/t/", "in/s/")+taken[0]+sym.Pick("ext", ".html", ".htm", ".md"))
	if f.over {
		f.args = append(f.args, "--output-overwrite")
	}
	f.run()
	sym.Assert(f.r.exit == 0, "the second run succeeds")
	f.dir()
}

// C23_file: one input and one output path.
func C23_file() {
	f := &files{}
	out, _ := f.single()
	defer f.w.done()
	f.run()
	target := func(p string) bool { return p == out }
	f.untouched(target)
	if f.r.exit == 0 {
		sym.Reach("written")
		a := at(f.after, out)
		sym.Assert(a != nil && a.kind == 0 && a.data == f.inputs[0], "the file has exactly the new content")
		f.written(target)
		if b := at(f.before, out); b != nil {
			sym.Assert(f.over, "a file that exists is replaced only when asked")
		}
		return
	}
	sym.Reach("failed")
	f.written(target)
	if f.limit == 0 {
		a, b := at(f.after, out), at(f.before, out)
		sym.Assert(a == nil && b == nil || a != nil && b != nil && a.data == b.data, "a run that fails before it writes leaves the file as it was")
	}
}

// single makes the scene of one input. It gives the path that is to be written
// and whether that can succeed.
func (f *files) single() (out string, ok bool) {
	f.w = newWorld()
	data, md := text(0)
	f.inputs = []string{md}
	f.w.file("in/x.html", data)
	f.w.file("d/old.md", "old content 1")
	f.w.file("old", "old content 2")
	f.w.mkdir("d/e")
	f.w.link("d/link.md")
	f.w.file("d/x.md", "old content 3")
	if sym.Bool("stdin") {
		f.stdin = data
		f.w.file("d/output.md", "old content 4")
	} else {
		f.args = []string{"--input", "in/x.html"}
	}
	o := sym.Pick("output", "new.md", "new", "n/m/new.md", "n/m/", "d", "d/", "d/e", "d/e/", "d/e/new.md", "old", "old/", "old/new.md", "d/old.md", "./d//old.md", "d/link.md", "d/link.md/", "in/x.html", "in/", ".", "./", "d/e/../new.md", "d/new.html", "in/x.html/")
	f.args = append(f.args, "--output="+o)
	f.over = sym.Bool("overwrite")
	if f.over {
		f.args = append(f.args, "--output-overwrite")
	}
	f.limit = sym.Param("limit", 0)
	out = filepath.Clean(o)
	if o[len(o)-1] == '/' {
		if f.stdin != "" || len(f.args) > 0 && f.args[0] != "--input" {
			out = filepath.Join(o, "output.md")
		} else {
			out = filepath.Join(o, "x.md")
		}
	}
	f.before = f.w.list()
	ok = f.limit == 0 || len(md) <= f.limit
	for i := 0; i < len(out); i++ {
		if out[i] == '/' {
			if e := at(f.before, out[:i]); e != nil && e.kind&fs.ModeDir == 0 {
				ok = false
			}
		}
	}
	if e := at(f.before, out); e != nil && (!f.over || e.kind != 0) {
		ok = false
	}
	if out == "." {
		ok = false
	}
	return
}
