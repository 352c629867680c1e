// Package hc holds the harness of the command line program.
package hc

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown/cmd"
)

type info struct{ mode fs.FileMode }

func (i info) Name() string       { return "" }
func (i info) Size() int64        { return 1 }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

const (
	pipe     = fs.FileMode(33554864) // prw-rw----
	terminal = fs.FileMode(69206416) // Dcrw--w----
)

var errIO = errors.New("input/output error")

// stream is one of the standard streams.
type stream struct {
	data   []byte
	pos    int
	mode   fs.FileMode
	fail   int // the operation that fails, counted from 1; 0 none
	n      int // operations so far
	piece  int // most bytes per read
	failed bool
	short  bool // a failing write takes half of the bytes
}

func (s *stream) Stat() (fs.FileInfo, error) { return info{s.mode}, nil }

func (s *stream) Read(p []byte) (int, error) {
	s.n++
	if s.n == s.fail {
		s.failed = true
		return 0, errIO
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	n := len(s.data) - s.pos
	if s.piece > 0 && n > s.piece {
		n = s.piece
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

func (s *stream) Write(p []byte) (int, error) {
	s.n++
	if s.fail > 0 && s.n >= s.fail {
		s.failed = true
		n := 0
		if s.short {
			n = len(p) / 2
			s.data = append(s.data, p[:n]...)
		}
		return n, errIO
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

// result is what one run of the program shows.
type result struct {
	exit   int // -1: the program did not exit
	stdout string
	stderr string
}

type exited struct{ code int }

// runWith runs the program with the streams.
func runWith(in, out, err *stream, args ...string) (r result) {
	r.exit = -1
	old := cmd.OsExiter
	cmd.OsExiter = func(code int) { panic(exited{code}) }
	defer func() {
		cmd.OsExiter = old
		e := recover()
		x, ok := e.(exited)
		if e != nil && !ok {
			panic(e)
		}
		if ok {
			r.exit = x.code
		}
		r.stdout, r.stderr = string(out.data), string(err.data)
	}()
	cmd.Run(in, out, err, append([]string{"html2markdown"}, args...), cmd.Release{Version: "1", Commit: "2", Date: "3"})
	return
}

// run gives the program its input by a pipe.
func run(input string, args ...string) result {
	return runWith(&stream{data: []byte(input), mode: pipe}, &stream{mode: pipe}, &stream{mode: pipe}, args...)
}
