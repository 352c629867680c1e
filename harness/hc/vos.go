package hc

import (
	"crypto/sha256"
	"hash"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"
)

// A small file system in memory. The engine sends the program's calls into
// package os to the vos functions; the native replay uses a scratch directory
// (see world) and never calls them.

func init() {
	os.ErrInvalid, os.ErrPermission, os.ErrExist, os.ErrNotExist, os.ErrClosed = fs.ErrInvalid, fs.ErrPermission, fs.ErrExist, fs.ErrNotExist, fs.ErrClosed
	filepath.SkipDir, filepath.SkipAll = fs.SkipDir, fs.SkipAll
}

const (
	errNoEnt   = vosErr("no such file or directory")
	errExist   = vosErr("file exists")
	errNotDir  = vosErr("not a directory")
	errIsDir   = vosErr("is a directory")
	errFull    = vosErr("file too large")
	errInvalid = vosErr("invalid argument")
	errBadF    = vosErr("bad file descriptor")
)

type vosErr string

func (e vosErr) Error() string { return string(e) }
func (e vosErr) Is(t error) bool {
	switch e {
	case errNoEnt:
		return t == fs.ErrNotExist
	case errExist:
		return t == fs.ErrExist
	case errInvalid:
		return t == fs.ErrInvalid
	}
	return false
}

type vnode struct {
	path string // clean, relative to the working directory
	kind fs.FileMode
	data []byte
}

type vfile struct {
	node *vnode
	flag int
	pos  int
	name string
	done bool
}

type vdisk struct {
	nodes []*vnode
	open  map[*os.File]*vfile
	max   int // largest size of a file; 0 no limit
	temp  int
}

var disk = &vdisk{open: map[*os.File]*vfile{}}

func (d *vdisk) find(path string) *vnode {
	p := filepath.Clean(path)
	if p == "." {
		return &vnode{path: ".", kind: fs.ModeDir}
	}
	for _, n := range d.nodes {
		if n.path == p {
			return n
		}
	}
	return nil
}

// lookup resolves the path like the system does: every component before the
// last one must be a directory.
func (d *vdisk) lookup(path string) (*vnode, error) {
	if path == "" {
		return nil, errNoEnt
	}
	clean := filepath.Clean(path)
	for i := 0; i < len(clean); i++ {
		if clean[i] == '/' && i > 0 {
			n := d.find(clean[:i])
			if n == nil || n.kind&fs.ModeSymlink != 0 {
				return nil, errNoEnt
			}
			if n.kind&fs.ModeDir == 0 {
				return nil, errNotDir
			}
		}
	}
	n := d.find(clean)
	if n == nil {
		return nil, errNoEnt
	}
	if strings.HasSuffix(path, "/") && n.kind&fs.ModeDir == 0 {
		if n.kind&fs.ModeSymlink != 0 {
			return nil, errNoEnt
		}
		return nil, errNotDir
	}
	return n, nil
}

func (d *vdisk) add(path string, kind fs.FileMode, data string) *vnode {
	n := &vnode{path: filepath.Clean(path), kind: kind, data: []byte(data)}
	d.nodes = append(d.nodes, n)
	return n
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

type vinfo struct{ n *vnode }

func (i vinfo) Name() string               { return filepath.Base(i.n.path) }
func (i vinfo) Size() int64                { return int64(len(i.n.data)) }
func (i vinfo) Mode() fs.FileMode          { return i.n.kind | 0644 }
func (i vinfo) ModTime() time.Time         { return time.Time{} }
func (i vinfo) IsDir() bool                { return i.n.kind&fs.ModeDir != 0 }
func (i vinfo) Sys() any                   { return nil }
func (i vinfo) Type() fs.FileMode          { return i.n.kind }
func (i vinfo) Info() (fs.FileInfo, error) { return i, nil }

func vosLstat(path string) (fs.FileInfo, error) {
	n, err := disk.lookup(path)
	if err != nil {
		return nil, perr("lstat", path, err)
	}
	return vinfo{n}, nil
}

func vosStat(path string) (fs.FileInfo, error) {
	n, err := disk.lookup(path)
	if err == nil && n.kind&fs.ModeSymlink != 0 {
		err = errNoEnt // every link points to nothing
	}
	if err != nil {
		return nil, perr("stat", path, err)
	}
	return vinfo{n}, nil
}

func vosReadFile(path string) ([]byte, error) {
	f, err := vosOpenFile(path, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	n := disk.open[f].node
	if n.kind&fs.ModeDir != 0 {
		return nil, perr("read", path, errIsDir)
	}
	return append([]byte{}, n.data...), nil
}

func vosWriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := vosOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = vosWrite(f, data)
	return err
}

func vosOpen(path string) (*os.File, error) { return vosOpenFile(path, os.O_RDONLY, 0) }
func vosCreate(path string) (*os.File, error) {
	return vosOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func vosCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	disk.temp++
	name := strings.Replace(pattern, "*", "", 1) + "0123456789" + string(rune('0'+disk.temp))
	return vosOpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func vosOpenFile(path string, flag int, perm fs.FileMode) (*os.File, error) {
	n, err := disk.lookup(path)
	if err != nil && (err != error(errNoEnt) || flag&os.O_CREATE == 0) {
		return nil, perr("open", path, err)
	}
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case n == nil:
		if strings.HasSuffix(path, "/") {
			return nil, perr("open", path, errIsDir)
		}
		if _, err := disk.dir(path); err != nil {
			return nil, perr("open", path, err)
		}
		if l := disk.find(path); l != nil { // a link to nothing in a directory that is none
			return nil, perr("open", path, errNoEnt)
		}
		n = disk.add(path, 0, "")
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", path, errExist)
	case n.kind&fs.ModeSymlink != 0:
		return nil, perr("open", path, errNoEnt)
	case n.kind&fs.ModeDir != 0 && (write || flag&os.O_CREATE != 0):
		return nil, perr("open", path, errIsDir)
	}
	if flag&os.O_TRUNC != 0 && n.kind == 0 {
		n.data = nil
	}
	f := new(os.File)
	disk.open[f] = &vfile{node: n, flag: flag, name: path}
	return f, nil
}

// dir finds the directory that a new entry goes into.
func (d *vdisk) dir(path string) (*vnode, error) {
	p := filepath.Dir(filepath.Clean(path))
	n, err := d.lookup(p)
	if err != nil {
		return nil, err
	}
	if n.kind&fs.ModeSymlink != 0 {
		return nil, errNoEnt
	}
	if n.kind&fs.ModeDir == 0 {
		return nil, errNotDir
	}
	return n, nil
}

func vosMkdir(path string, perm fs.FileMode) error {
	if _, err := disk.lookup(path); err == nil {
		return perr("mkdir", path, errExist)
	}
	if _, err := disk.dir(path); err != nil {
		return perr("mkdir", path, err)
	}
	disk.add(path, fs.ModeDir, "")
	return nil
}

func vosMkdirAll(path string, perm fs.FileMode) error {
	clean := filepath.Clean(path)
	for i := 1; i <= len(clean); i++ {
		if i < len(clean) && clean[i] != '/' {
			continue
		}
		n := disk.find(clean[:i])
		switch {
		case n == nil:
			disk.add(clean[:i], fs.ModeDir, "")
		case n.kind&fs.ModeSymlink != 0:
			return perr("mkdir", clean[:i], errExist)
		case n.kind&fs.ModeDir == 0:
			return perr("mkdir", clean[:i], errNotDir)
		}
	}
	return nil
}

func (d *vdisk) list(dir string) []fs.DirEntry {
	clean := filepath.Clean(dir)
	var names []string
	for _, n := range d.nodes {
		if filepath.Dir(n.path) == clean {
			names = append(names, n.path)
		}
	}
	sort.Strings(names)
	var es []fs.DirEntry
	for _, n := range names {
		es = append(es, vinfo{d.find(n)})
	}
	return es
}

func vosReadDir(path string) ([]fs.DirEntry, error) {
	n, err := disk.lookup(path)
	if err == nil && n.kind&fs.ModeSymlink != 0 {
		err = errNoEnt
	}
	if err == nil && n.kind&fs.ModeDir == 0 {
		err = errNotDir
	}
	if err != nil {
		return nil, perr("open", path, err)
	}
	return disk.list(path), nil
}

func vosRemove(path string) error {
	if _, err := disk.lookup(path); err != nil {
		return perr("remove", path, err)
	}
	clean := filepath.Clean(path)
	var rest []*vnode
	for _, n := range disk.nodes {
		if n.path != clean && !strings.HasPrefix(n.path, clean+"/") {
			rest = append(rest, n)
		}
	}
	disk.nodes = rest
	return nil
}

func vosRename(from, to string) error {
	n, err := disk.lookup(from)
	if err != nil {
		return perr("rename", from, err)
	}
	if _, err := disk.dir(to); err != nil {
		return perr("rename", to, err)
	}
	if t, err := disk.lookup(to); err == nil {
		if t == n {
			return nil
		}
		if t.kind&fs.ModeDir != 0 {
			return perr("rename", to, errIsDir)
		}
		vosRemove(to)
	}
	if n.kind&fs.ModeDir != 0 {
		panic("rename of a directory")
	}
	n.path = filepath.Clean(to)
	return nil
}

func vosTruncate(path string, size int64) error {
	n, err := disk.lookup(path)
	if err == nil && n.kind != 0 {
		err = errInvalid
	}
	if err != nil {
		return perr("truncate", path, err)
	}
	n.resize(int(size))
	return nil
}

func (n *vnode) resize(size int) {
	for len(n.data) < size {
		n.data = append(n.data, 0)
	}
	n.data = append([]byte{}, n.data[:size]...)
}

func vosFTruncate(f *os.File, size int64) error {
	disk.open[f].node.resize(int(size))
	return nil
}

func vosSameFile(a, b fs.FileInfo) bool {
	x, ok := a.(vinfo)
	y, ok2 := b.(vinfo)
	return ok && ok2 && x.n == y.n
}

func vosGetwd() (string, error)                        { return "/", nil }
func vosChmodPath(path string, mode fs.FileMode) error { return nil }

func vosWrite(f *os.File, b []byte) (int, error) {
	v := disk.open[f]
	if v == nil || v.done {
		return 0, perr("write", "", fs.ErrClosed)
	}
	if v.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", v.name, errBadF)
	}
	n := v.node
	if v.flag&os.O_APPEND != 0 {
		v.pos = len(n.data)
	}
	k := len(b)
	if disk.max > 0 && v.pos+k > disk.max {
		k = disk.max - v.pos
		if k < 0 {
			k = 0
		}
	}
	d := append([]byte{}, n.data...)
	for len(d) < v.pos {
		d = append(d, 0)
	}
	d = append(d[:v.pos], b[:k]...)
	if v.pos+k < len(n.data) {
		d = append(d, n.data[v.pos+k:]...)
	}
	n.data = d
	v.pos += k
	if k < len(b) {
		return k, perr("write", v.name, errFull)
	}
	return k, nil
}

func vosWriteString(f *os.File, s string) (int, error) { return vosWrite(f, []byte(s)) }

func vosRead(f *os.File, b []byte) (int, error) {
	v := disk.open[f]
	if v == nil || v.done {
		return 0, perr("read", "", fs.ErrClosed)
	}
	if v.node.kind&fs.ModeDir != 0 {
		return 0, perr("read", v.name, errIsDir)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if v.pos >= len(v.node.data) {
		return 0, io.EOF
	}
	n := copy(b, v.node.data[v.pos:])
	v.pos += n
	return n, nil
}

func vosClose(f *os.File) error {
	v := disk.open[f]
	if v == nil || v.done {
		return perr("close", "", fs.ErrClosed)
	}
	v.done = true
	return nil
}

func vosFstat(f *os.File) (fs.FileInfo, error)    { return vinfo{disk.open[f].node}, nil }
func vosSync(f *os.File) error                    { return nil }
func vosName(f *os.File) string                   { return disk.open[f].name }
func vosChmod(f *os.File, mode fs.FileMode) error { return nil }
func vosFReadDir(f *os.File, n int) ([]fs.DirEntry, error) {
	v := disk.open[f]
	if v.node.kind&fs.ModeDir == 0 {
		return nil, perr("readdir", v.name, errNotDir)
	}
	return disk.list(v.node.path), nil
}

// vosFS stands for os.DirFS.
type vosFS string

func vosDirFS(dir string) fs.FS { return vosFS(dir) }

func (d vosFS) path(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", perr(op, name, fs.ErrInvalid)
	}
	if d == "" {
		return "", perr(op, name, errInvalid)
	}
	return string(d) + "/" + name, nil
}

type vosFSFile struct{ f *os.File }

func (f vosFSFile) Stat() (fs.FileInfo, error)           { return vosFstat(f.f) }
func (f vosFSFile) Read(b []byte) (int, error)           { return vosRead(f.f, b) }
func (f vosFSFile) Close() error                         { return vosClose(f.f) }
func (f vosFSFile) ReadDir(n int) ([]fs.DirEntry, error) { return vosFReadDir(f.f, n) }
func (d vosFS) Open(name string) (fs.File, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	f, err := vosOpen(p)
	if err != nil {
		return nil, err
	}
	return vosFSFile{f}, nil
}
func (d vosFS) ReadFile(name string) ([]byte, error) {
	p, err := d.path("readfile", name)
	if err != nil {
		return nil, err
	}
	return vosReadFile(p)
}
func (d vosFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.path("readdir", name)
	if err != nil {
		return nil, err
	}
	return vosReadDir(p)
}
func (d vosFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.path("stat", name)
	if err != nil {
		return nil, err
	}
	return vosStat(p)
}
func (d vosFS) Lstat(name string) (fs.FileInfo, error) {
	p, err := d.path("lstat", name)
	if err != nil {
		return nil, err
	}
	return vosLstat(p)
}

// vosSHA256 stands for sha256.New.
type vosHash struct{ b []byte }

func vosSHA256() hash.Hash                     { return &vosHash{} }
func (h *vosHash) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *vosHash) Reset()                      { h.b = nil }
func (h *vosHash) Size() int                   { return 32 }
func (h *vosHash) BlockSize() int              { return 64 }
func (h *vosHash) Sum(b []byte) []byte {
	s := sha256.Sum256(h.b)
	return append(b, s[:]...)
}

// world is the directory the program works in.
type world struct {
	dir string
	old syscall.Rlimit
}

// newWorld makes an empty directory and enters it.
func newWorld() *world {
	w := &world{}
	if sym.Symbolic() {
		disk = &vdisk{open: map[*os.File]*vfile{}}
		return w
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	dir, err := os.MkdirTemp(base, "cli")
	must(err)
	w.dir = dir
	must(os.Chdir(dir))
	return w
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// done leaves the directory and removes it.
func (w *world) done() {
	if w.dir != "" {
		w.limit(0)
		os.Chdir("/")
		os.RemoveAll(w.dir)
	}
}

// limit bounds the size of every file written from now on.
func (w *world) limit(n int) {
	if sym.Symbolic() {
		disk.max = n
		return
	}
	var l syscall.Rlimit
	must(syscall.Getrlimit(rlimitFsize, &l))
	if n == 0 {
		l.Cur = l.Max
	} else {
		l.Cur = uint64(n)
	}
	must(syscall.Setrlimit(rlimitFsize, &l))
}

const rlimitFsize = 1

// file makes a file and the directories above it.
func (w *world) file(path, data string) {
	w.mkdir(filepath.Dir(path))
	if sym.Symbolic() {
		disk.add(path, 0, data)
		return
	}
	must(os.WriteFile(path, []byte(data), 0644))
}

func (w *world) mkdir(path string) {
	if sym.Symbolic() {
		must(vosMkdirAll(path, 0755))
		return
	}
	must(os.MkdirAll(path, 0755))
}

// link makes a link that points to nothing.
func (w *world) link(path string) {
	w.mkdir(filepath.Dir(path))
	if sym.Symbolic() {
		disk.add(path, fs.ModeSymlink, "")
		return
	}
	must(os.Symlink("nothing/here", path))
}

// entry is one thing in the directory.
type entry struct {
	path string
	kind fs.FileMode // type bits
	data string
}

// list gives everything in the directory, sorted by path.
func (w *world) list() []entry {
	var es []entry
	if sym.Symbolic() {
		for _, n := range disk.nodes {
			es = append(es, entry{n.path, n.kind, string(n.data)})
		}
	} else {
		must(filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
			must(err)
			if path == "." {
				return nil
			}
			e := entry{path: path, kind: d.Type()}
			if d.Type() == 0 {
				b, err := os.ReadFile(path)
				must(err)
				e.data = string(b)
			}
			es = append(es, e)
			return nil
		}))
	}
	sort.Slice(es, func(i, j int) bool { return es[i].path < es[j].path })
	return es
}
