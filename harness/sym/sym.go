// Package sym is the interface between the harnesses and the symbolic
// executor. Under the executor every function here is replaced by the engine;
// the bodies below are the native semantics, used to replay a path with
// concrete inputs on the real code.
package sym

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
)

type input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Hex  string `json:"hex"`
	Int  int64  `json:"int"`
}

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type tcase struct {
	Fn      string            `json:"fn"`
	Params  map[string]int    `json:"params"`
	SParams map[string]string `json:"sparams"`
	Inputs  []input           `json:"inputs"`
}

type result struct {
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Obs    []obs  `json:"obs"`
}

type assumeFail struct{}
type assertFail struct{ msg string }
type misfit struct{ msg string }

var cur tcase
var pos int
var res result

func next(name, kind string) input {
	if pos >= len(cur.Inputs) {
		panic(misfit{"no input left for " + name})
	}
	in := cur.Inputs[pos]
	pos++
	if in.Name != name || in.Kind != kind {
		panic(misfit{"input " + in.Name + "/" + in.Kind + " where " + name + "/" + kind + " is asked for"})
	}
	return in
}

// Symbolic reports whether the symbolic executor is running the code.
func Symbolic() bool { return false }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next(name, "byte").Int) }

// ByteIn is an arbitrary byte of the alphabet.
func ByteIn(name, alphabet string) byte { return byte(next(name, "byte").Int) }

// Str is a string of n arbitrary bytes.
func Str(name string, n int) string {
	b, _ := hex.DecodeString(next(name, "str").Hex)
	return string(b)
}

// StrIn is a string of n arbitrary bytes of the alphabet.
func StrIn(name string, n int, alphabet string) string { return Str(name, n) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next(name, "bool").Int != 0 }

// Int is an arbitrary number in [lo,hi].
func Int(name string, lo, hi int) int { return int(next(name, "int").Int) }

// Pick is one of the strings; the executor explores each one separately.
func Pick(name string, opts ...string) string { return opts[next(name, "pick").Int] }

// Index is a number in [0,n); the executor explores each one separately.
func Index(name string, n int) int { return int(next(name, "int").Int) }

// Choice is one of the strings, kept symbolic.
func Choice(name string, opts ...string) string { return opts[next(name, "pick").Int] }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFail{msg})
	}
}

// Known marks a path on which the listed known finding applies.
func Known(id string, c bool) {}

// Reach records that a point was reached.
func Reach(label string) {}

// Observe records a value for comparison between the executor and the native run.
func Observe(name string, v any) {
	var s string
	switch x := v.(type) {
	case string:
		s = hex.EncodeToString([]byte(x))
	case []byte:
		s = hex.EncodeToString(x)
	case int:
		s = strconv.Itoa(x)
	case bool:
		s = strconv.FormatBool(x)
	default:
		s = "nil"
	}
	res.Obs = append(res.Obs, obs{name, s})
}

// Param is a bound set in checks.json.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

// ParamStr is a text parameter set in checks.json.
func ParamStr(name, def string) string {
	if v, ok := cur.SParams[name]; ok {
		return v
	}
	return def
}

// Concrete forks until the string is concrete.
func Concrete(s string) string { return s }

// ConcreteInt forks until the number is concrete.
func ConcreteInt(i int) int { return i }

func runCase(f func()) (r result) {
	defer func() {
		if e := recover(); e != nil {
			res.Status = "panic"
			switch x := e.(type) {
			case assumeFail:
				res.Status = "assume"
			case assertFail:
				res.Status, res.Msg = "assert", x.msg
			case misfit:
				res.Status, res.Msg = "misfit", x.msg
			default:
				res.Msg = fmt.Sprint(e)
				if os.Getenv("SYM_TRACE") != "" {
					res.Msg += "\n" + string(debug.Stack())
				}
			}
		}
		if res.Obs == nil {
			res.Obs = []obs{}
		}
		r = res
	}()
	res = result{}
	pos = 0
	f()
	res.Status = "ok"
	return res
}

// RunAll replays the cases in the file given as the first argument.
func RunAll(fns map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cases []tcase
	if err := json.Unmarshal(b, &cases); err != nil {
		// a single replay file holds the case in the field "case"
		var one struct {
			Case tcase `json:"case"`
		}
		if json.Unmarshal(b, &one) != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		cases = []tcase{one.Case}
	}
	real := os.Stdout
	w := bufio.NewWriter(real)
	for _, c := range cases {
		cur = c
		f := fns[c.Fn]
		var r result
		if f == nil {
			r = result{Status: "misfit", Msg: "no such harness " + c.Fn}
		} else {
			r = runCase(f)
		}
		j, _ := json.Marshal(r)
		w.Write(j)
		w.WriteByte('\n')
		w.Flush()
	}
}

// Thread says which thread (1 or 2) what follows belongs to; 0 is none. The
// executor runs the threads one after the other and logs their accesses.
func Thread(i int) {}

// NoRace states that no schedule of threads 1 and 2 has a data race or a deadlock.
func NoRace() {}
