package main

import (
	"crypto/sha256"
	"go/types"
)

// The operating system of the command line checks: calls into package os are
// answered by the functions vos… of the harness, where it has one.

var vosNames = map[string]string{
	"os.Stat":                "vosStat",
	"os.Lstat":               "vosLstat",
	"os.ReadFile":            "vosReadFile",
	"os.WriteFile":           "vosWriteFile",
	"os.OpenFile":            "vosOpenFile",
	"os.Open":                "vosOpen",
	"os.Create":              "vosCreate",
	"os.CreateTemp":          "vosCreateTemp",
	"os.Mkdir":               "vosMkdir",
	"os.MkdirAll":            "vosMkdirAll",
	"os.ReadDir":             "vosReadDir",
	"os.Remove":              "vosRemove",
	"os.RemoveAll":           "vosRemove",
	"os.Rename":              "vosRename",
	"os.Truncate":            "vosTruncate",
	"os.DirFS":               "vosDirFS",
	"os.SameFile":            "vosSameFile",
	"os.Getwd":               "vosGetwd",
	"crypto/sha256.New":      "vosSHA256",
	"(*os.File).Write":       "vosWrite",
	"(*os.File).WriteString": "vosWriteString",
	"(*os.File).Read":        "vosRead",
	"(*os.File).Close":       "vosClose",
	"(*os.File).Stat":        "vosFstat",
	"(*os.File).Sync":        "vosSync",
	"(*os.File).Name":        "vosName",
	"(*os.File).Chmod":       "vosChmod",
	"(*os.File).ReadDir":     "vosFReadDir",
	"(*os.File).Truncate":    "vosFTruncate",
	"os.Chmod":               "vosChmodPath",
}

func init() {
	for n, h := range vosNames {
		h := h
		natives[n] = func(vm *VM, a []Value) Value {
			fn, err := harnessFn(h)
			if err != nil {
				panic(unsupported{"no " + h + " in the harness"})
			}
			return vm.callSync(fnOf(fn), a, nil)
		}
	}
	// the usage text: not interpreted
	natives["text/template.New"] = func(vm *VM, a []Value) Value { return Value{p: &Value{p: &Struct{}}} }
	natives["(*text/template.Template).Funcs"] = func(vm *VM, a []Value) Value { return a[0] }
	natives["(*text/template.Template).Parse"] = func(vm *VM, a []Value) Value { return tuple(a[0], Value{}) }
	natives["(*text/template.Template).Execute"] = func(vm *VM, a []Value) Value {
		r := vm.ioWrite(a[1], strVal("(usage)\n"))
		return r.p.(*Struct).f[1]
	}
	natives["(*flag.FlagSet).PrintDefaults"] = func(vm *VM, a []Value) Value {
		fn := lookupMethod(rtypeOf(types.NewPointer(namedType("flag", "FlagSet"))), "Output")
		vm.ioWrite(vm.callSync(fn, []Value{a[0]}, nil), strVal("(defaults)\n"))
		return Value{}
	}
	// SHA-256 over bytes whose values are decided
	natives["crypto/sha256.Sum256"] = func(vm *VM, a []Value) Value {
		s := sha256.Sum256([]byte(vm.concStr(bytesStr(sliceOf(a[0])))))
		st := &Struct{f: make([]Value, len(s))}
		for i, b := range s {
			st.f[i] = Value{n: uint64(b)}
		}
		return Value{p: st}
	}
}
