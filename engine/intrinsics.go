package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

var natives = map[string]nativeFn{}

// skipInit lists packages whose initialisation is not interpreted.
var skipInit = []string{"runtime", "errors", "internal/", "os", "syscall", "reflect", "time", "net", "crypto", "log", "testing", "flag", "text/template", "sync", "unsafe", "vendor/", "encoding", "hash", "compress", "math/rand", "math/big", "context0", "html/template", "github.com/muesli", "golang.org/x/sys", "io/fs", "path/filepath", "golang.org/x/tools", "embed", "mime", "weak", "unique", "iter", "github.com/andybalholm/cascadia0", "github.com/sebdah", "github.com/agnivade", "golang.org/x/term", "github.com/lucasb-eyer", "github.com/mattn", "github.com/aymanbagabas", "github.com/rivo"}

func initSkipped(path string) bool {
	if path == "net/url" || path == "net/netip" || path == "encoding/hex" || path == "internal/oserror" || path == "io/fs" || path == "flag" {
		return false
	}
	for _, p := range skipInit {
		if strings.HasSuffix(p, "/") {
			if strings.HasPrefix(path, p) {
				return true
			}
		} else if path == p || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	return false
}

func lookupNative(f *ssa.Function, name string) nativeFn {
	if n, ok := natives[name]; ok {
		return n
	}
	if f.Name() == "init" && f.Pkg != nil && f.Synthetic != "" {
		if initSkipped(f.Pkg.Pkg.Path()) {
			return func(vm *VM, a []Value) Value { return Value{} }
		}
	}
	return nil
}

func errIface(vm *VM, msg Value) Value {
	t := namedType("errors", "errorString")
	cell := &Value{p: &Struct{f: []Value{msg}}}
	return Value{p: &Iface{t: rtypeOf(types.NewPointer(t)), v: Value{p: cell}}}
}

func namedType(pkg, name string) types.Type {
	progMu.Lock()
	defer progMu.Unlock()
	p := theProg.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package " + pkg})
	}
	return p.Type(name).Type()
}

func nop(vm *VM, a []Value) Value { return Value{} }

func (vm *VM) symCount(b []Value, c Value) Value {
	n := vm.tc.konst(64, 0)
	base := 0
	for i := range b {
		if b[i].p == nil && c.p == nil {
			if b[i].n == c.n {
				base++
			}
			continue
		}
		e := vm.tc.mk(OpEq, 1, vm.term(b[i], 8), vm.term(c, 8), nil)
		n = vm.tc.mk(OpAdd, 64, n, vm.tc.mk(OpZext, 64, e, nil, nil), nil)
	}
	return termVal(vm.tc.mk(OpAdd, 64, n, vm.tc.konst(64, uint64(base)), nil))
}

func (vm *VM) indexByte(b []Value, c Value) Value {
	for i := range b {
		if vm.byteEq(b[i], c) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func (vm *VM) indexBytes(s, sep []Value) Value {
	for i := 0; i+len(sep) <= len(s); i++ {
		if vm.bytesEq(s[i:i+len(sep)], sep) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func isConcStr(v Value) (string, bool) {
	if v.p == nil {
		return "", true
	}
	s, ok := v.p.(string)
	return s, ok
}

func cellOf(v Value) *Value {
	c, _ := v.p.(*Value)
	return c
}

func (vm *VM) logFnRace() {}

// atomics and the like operate on the cell behind the pointer
func atomLoad(vm *VM, a []Value) Value {
	c := vm.ptrCell(a[0])
	if vm.race != nil {
		vm.race.atomic(vm, c, false)
	}
	return *c
}
func atomStore(vm *VM, a []Value) Value {
	c := vm.ptrCell(a[0])
	if vm.race != nil {
		vm.race.atomic(vm, c, true)
	}
	vm.store(c, a[1])
	return Value{}
}
func atomCAS(vm *VM, a []Value) Value {
	c := vm.ptrCell(a[0])
	if vm.race != nil {
		vm.race.atomic(vm, c, true)
	}
	if identical(*c, a[1]) {
		vm.store(c, a[2])
		return boolVal(true)
	}
	return boolVal(false)
}
func atomSwap(vm *VM, a []Value) Value {
	c := vm.ptrCell(a[0])
	if vm.race != nil {
		vm.race.atomic(vm, c, true)
	}
	old := *c
	vm.store(c, a[1])
	return old
}
func atomAdd(w uint8) nativeFn {
	return func(vm *VM, a []Value) Value {
		c := vm.ptrCell(a[0])
		if vm.race != nil {
			vm.race.atomic(vm, c, true)
		}
		v := Value{n: (c.n + a[1].n) & mask(w)}
		vm.store(c, v)
		return v
	}
}

func reg(n nativeFn, names ...string) {
	for _, x := range names {
		natives[x] = n
	}
}

// fieldCell gives the memory cell of field i behind a struct pointer.
func (vm *VM) fieldCell(p Value, i int) *Value { return &vm.ptrCell(p).p.(*Struct).f[i] }

func init() {
	// ---- internal/bytealg, strings, bytes ----
	reg(func(vm *VM, a []Value) Value { return vm.indexByte(sliceOf(a[0]), a[1]) }, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(vm *VM, a []Value) Value {
		if s, ok := isConcStr(a[0]); ok && a[1].p == nil {
			return intVal(strings.IndexByte(s, byte(a[1].n)))
		}
		return vm.indexByte(strBytes(vm.str(a[0])), a[1])
	}, "internal/bytealg.IndexByteString", "strings.IndexByte")
	reg(func(vm *VM, a []Value) Value {
		b := sliceOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if vm.byteEq(b[i], a[1]) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}, "internal/bytealg.LastIndexByte", "bytes.LastIndexByte")
	reg(func(vm *VM, a []Value) Value {
		b := strBytes(vm.str(a[0]))
		for i := len(b) - 1; i >= 0; i-- {
			if vm.byteEq(b[i], a[1]) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}, "internal/bytealg.LastIndexByteString", "strings.LastIndexByte")
	reg(func(vm *VM, a []Value) Value { return vm.symCount(sliceOf(a[0]), a[1]) }, "internal/bytealg.Count")
	reg(func(vm *VM, a []Value) Value { return vm.symCount(strBytes(vm.str(a[0])), a[1]) }, "internal/bytealg.CountString")
	reg(func(vm *VM, a []Value) Value { return boolVal(vm.bytesEq(sliceOf(a[0]), sliceOf(a[1]))) }, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(vm *VM, a []Value) Value { return intVal(vm.bytesCmp(sliceOf(a[0]), sliceOf(a[1]))) }, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(vm *VM, a []Value) Value {
		b, c := sliceOf(a[0]), sliceOf(a[1])
		if len(b) == 0 || len(c) == 0 {
			return boolVal(false)
		}
		at := func(v *Value) uintptr { return uintptr(unsafe.Pointer(v)) }
		return boolVal(at(&b[0]) <= at(&c[len(c)-1]) && at(&c[0]) <= at(&b[len(b)-1]))
	}, "slices.overlaps")
	natives["unique.Make"] = func(vm *VM, a []Value) Value {
		k, ok := hashKey(a[0])
		if !ok {
			panic(unsupported{"unique.Make of a symbolic value"})
		}
		u, _ := vm.misc["unique"].(map[any]*Value)
		if u == nil {
			u = map[any]*Value{}
			vm.misc["unique"] = u
		}
		c := u[k]
		if c == nil {
			v := a[0]
			c = &v
			u[k] = c
		}
		return Value{p: &Struct{f: []Value{{p: c}}}}
	}
	reg(func(vm *VM, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone")
	reg(func(vm *VM, a []Value) Value { return intVal(vm.strCmp(vm.str(a[0]), vm.str(a[1]))) }, "internal/bytealg.CompareString", "strings.Compare", "internal/stringslite.Compare")
	reg(func(vm *VM, a []Value) Value { return vm.indexBytes(sliceOf(a[0]), sliceOf(a[1])) }, "internal/bytealg.Index", "bytes.Index")
	reg(func(vm *VM, a []Value) Value {
		if s, ok := isConcStr(a[0]); ok {
			if t, ok := isConcStr(a[1]); ok {
				return intVal(strings.Index(s, t))
			}
		}
		return vm.indexBytes(strBytes(vm.str(a[0])), strBytes(vm.str(a[1])))
	}, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(vm *VM, a []Value) Value {
		b, c := sliceOf(a[0]), sliceOf(a[1])
		for i := len(b) - len(c); i >= 0; i-- {
			if vm.bytesEq(b[i:i+len(c)], c) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}, "bytes.LastIndex")
	reg(func(vm *VM, a []Value) Value {
		b, c := strBytes(vm.str(a[0])), strBytes(vm.str(a[1]))
		for i := len(b) - len(c); i >= 0; i-- {
			if vm.bytesEq(b[i:i+len(c)], c) {
				return intVal(i)
			}
		}
		return intVal(-1)
	}, "strings.LastIndex")
	reg(func(vm *VM, a []Value) Value {
		n := vm.concInt(a[0])
		return Value{p: make([]Value, n, roundup(n))}
	}, "internal/bytealg.MakeNoZero")
	reg(func(vm *VM, a []Value) Value { return Value{} }, "(*strings.Builder).copyCheck")
	toCase := func(up bool) nativeFn {
		return func(vm *VM, a []Value) Value {
			if s, ok := isConcStr(a[0]); ok {
				if up {
					return strVal(strings.ToUpper(s))
				}
				return strVal(strings.ToLower(s))
			}
			v := vm.str(a[0])
			f := unicode.ToLower
			if up {
				f = unicode.ToUpper
			}
			b := strBytes(v)
			var out []Value
			for i := 0; i < len(b); {
				r, sz := vm.decodeRune(b[i:])
				m := vm.runeMap(r, f)
				if t, ok := m.p.(*Term); ok {
					if sz == 1 {
						out = append(out, termVal(vm.tc.mk(OpTrunc, 8, t, nil, nil)))
					} else {
						out = append(out, vm.encodeRune(t, rtypeOf(types.Typ[types.Int32]))...)
					}
				} else {
					for _, c := range []byte(string(rune(int32(m.n)))) {
						out = append(out, Value{n: uint64(c)})
					}
				}
				i += sz
			}
			return bytesStr(out)
		}
	}
	reg(toCase(false), "strings.ToLower")
	reg(toCase(true), "strings.ToUpper")
	reg(func(vm *VM, a []Value) Value {
		n := vm.concInt(a[1])
		if n < 0 {
			vm.rtPanic("strings: negative Repeat count")
		}
		if s, ok := isConcStr(a[0]); ok {
			if len(s)*n > 1<<26 {
				panic(pathKill{"memory"})
			}
			return strVal(strings.Repeat(s, n))
		}
		b := strBytes(vm.str(a[0]))
		var out []Value
		for i := 0; i < n; i++ {
			out = append(out, b...)
		}
		return bytesStr(out)
	}, "strings.Repeat")

	// ---- unicode ----
	pred := func(name string, f func(rune) bool) {
		natives["unicode."+name] = func(vm *VM, a []Value) Value { return vm.runePred(name, a[0], f) }
	}
	pred("IsSpace", unicode.IsSpace)
	pred("IsLetter", unicode.IsLetter)
	pred("IsDigit", unicode.IsDigit)
	pred("IsNumber", unicode.IsNumber)
	pred("IsPunct", unicode.IsPunct)
	pred("IsSymbol", unicode.IsSymbol)
	pred("IsControl", unicode.IsControl)
	pred("IsUpper", unicode.IsUpper)
	pred("IsLower", unicode.IsLower)
	pred("IsMark", unicode.IsMark)
	pred("IsGraphic", unicode.IsGraphic)
	pred("IsPrint", unicode.IsPrint)
	natives["unicode.ToLower"] = func(vm *VM, a []Value) Value { return vm.runeMap(a[0], unicode.ToLower) }
	natives["unicode.ToUpper"] = func(vm *VM, a []Value) Value { return vm.runeMap(a[0], unicode.ToUpper) }
	natives["unicode.SimpleFold"] = func(vm *VM, a []Value) Value { return vm.runeMap(a[0], unicode.SimpleFold) }
	natives["strconv.IsPrint"] = func(vm *VM, a []Value) Value { return vm.runePred("strconv.IsPrint", a[0], strconv.IsPrint) }

	// ---- utf8 ----
	natives["unicode/utf8.DecodeRune"] = func(vm *VM, a []Value) Value {
		b := sliceOf(a[0])
		if len(b) == 0 {
			return tuple(Value{n: utf8.RuneError}, Value{})
		}
		r, n := vm.decodeRune(b)
		return tuple(r, intVal(n))
	}
	natives["unicode/utf8.DecodeRuneInString"] = func(vm *VM, a []Value) Value {
		if s, ok := isConcStr(a[0]); ok {
			r, n := utf8.DecodeRuneInString(s)
			return tuple(Value{n: uint64(uint32(r))}, intVal(n))
		}
		b := strBytes(vm.str(a[0]))
		if len(b) == 0 {
			return tuple(Value{n: utf8.RuneError}, Value{})
		}
		r, n := vm.decodeRune(b)
		return tuple(r, intVal(n))
	}
	natives["unicode/utf8.DecodeLastRune"] = func(vm *VM, a []Value) Value {
		r, n := vm.decodeLastRune(sliceOf(a[0]))
		return tuple(r, intVal(n))
	}
	natives["unicode/utf8.DecodeLastRuneInString"] = func(vm *VM, a []Value) Value {
		r, n := vm.decodeLastRune(strBytes(vm.str(a[0])))
		return tuple(r, intVal(n))
	}
	runeCount := func(vm *VM, b []Value) Value {
		n := 0
		for i := 0; i < len(b); n++ {
			_, sz := vm.decodeRune(b[i:])
			i += sz
		}
		return intVal(n)
	}
	natives["unicode/utf8.RuneCount"] = func(vm *VM, a []Value) Value { return runeCount(vm, sliceOf(a[0])) }
	natives["unicode/utf8.RuneCountInString"] = func(vm *VM, a []Value) Value {
		if s, ok := isConcStr(a[0]); ok {
			return intVal(utf8.RuneCountInString(s))
		}
		return runeCount(vm, strBytes(vm.str(a[0])))
	}
	valid := func(vm *VM, b []Value) Value {
		for i := 0; i < len(b); {
			r, sz := vm.decodeRune(b[i:])
			if r.p == nil && r.n == utf8.RuneError && sz == 1 {
				return boolVal(false)
			}
			i += sz
		}
		return boolVal(true)
	}
	natives["unicode/utf8.Valid"] = func(vm *VM, a []Value) Value { return valid(vm, sliceOf(a[0])) }
	natives["unicode/utf8.ValidString"] = func(vm *VM, a []Value) Value { return valid(vm, strBytes(vm.str(a[0]))) }
	natives["unicode/utf8.FullRune"] = func(vm *VM, a []Value) Value {
		b := sliceOf(a[0])
		if len(b) == 0 {
			return boolVal(false)
		}
		buf := make([]byte, 0, 4)
		for i := 0; i < len(b) && i < 4; i++ {
			buf = append(buf, byte(vm.conc(b[i])))
		}
		return boolVal(utf8.FullRune(buf))
	}

	// ---- math ----
	natives["math.Float64bits"] = func(vm *VM, a []Value) Value { return a[0] }
	natives["math.Float64frombits"] = func(vm *VM, a []Value) Value { return a[0] }
	f1 := func(name string, f func(float64) float64) {
		natives["math."+name] = func(vm *VM, a []Value) Value { return f64Val(f(a[0].f64())) }
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Abs", math.Abs)
	f1("Log10", math.Log10)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Sqrt", math.Sqrt)
	f1("Trunc", math.Trunc)
	f1("Round", math.Round)
	f1("Exp", math.Exp)
	natives["math.Max"] = func(vm *VM, a []Value) Value { return f64Val(math.Max(a[0].f64(), a[1].f64())) }
	natives["math.Min"] = func(vm *VM, a []Value) Value { return f64Val(math.Min(a[0].f64(), a[1].f64())) }
	natives["math.Pow"] = func(vm *VM, a []Value) Value { return f64Val(math.Pow(a[0].f64(), a[1].f64())) }
	natives["math/bits.TrailingZeros64"] = func(vm *VM, a []Value) Value { return intVal(bits.TrailingZeros64(vm.conc(a[0]))) }
	natives["math/bits.TrailingZeros32"] = func(vm *VM, a []Value) Value { return intVal(bits.TrailingZeros32(uint32(vm.conc(a[0])))) }
	natives["math/bits.Len64"] = func(vm *VM, a []Value) Value { return intVal(bits.Len64(vm.conc(a[0]))) }
	natives["math/bits.Len"] = func(vm *VM, a []Value) Value { return intVal(bits.Len64(vm.conc(a[0]))) }

	// ---- strconv on concrete or concretised numbers ----
	natives["strconv.Itoa"] = func(vm *VM, a []Value) Value { return vm.itoa(a[0]) }
	natives["strconv.FormatInt"] = func(vm *VM, a []Value) Value {
		if vm.conc(a[1]) == 10 {
			return vm.itoa(a[0])
		}
		return strVal(strconv.FormatInt(int64(vm.conc(a[0])), vm.concInt(a[1])))
	}
	natives["strconv.AppendInt"] = func(vm *VM, a []Value) Value {
		s := vm.itoa(a[1])
		b := append(append([]Value(nil), sliceOf(a[0])...), strBytes(s)...)
		return Value{p: b}
	}
	natives["strconv.Quote"] = func(vm *VM, a []Value) Value { return strVal(strconv.Quote(vm.concStr(a[0]))) }
	natives["strconv.ParseFloat"] = func(vm *VM, a []Value) Value {
		f, err := strconv.ParseFloat(vm.concStr(a[0]), int(vm.conc(a[1])))
		e := Value{}
		if err != nil {
			e = errIface(vm, strVal(err.Error()))
		}
		return tuple(f64Val(f), e)
	}

	// ---- sync ----
	lock := func(kind string) nativeFn {
		return func(vm *VM, a []Value) Value {
			if a[0].p == nil {
				vm.rtPanic("invalid memory address or nil pointer dereference (mutex)")
			}
			if vm.race != nil {
				vm.race.lock(vm, vm.ptrCell(a[0]), kind)
			}
			vm.lockState(vm.ptrCell(a[0]), kind)
			return Value{}
		}
	}
	reg(lock("L"), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(lock("U"), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(lock("RL"), "(*sync.RWMutex).RLock")
	reg(lock("RU"), "(*sync.RWMutex).RUnlock")
	reg(func(vm *VM, a []Value) Value { vm.impure(); return boolVal(true) }, "(*sync.Mutex).TryLock")
	natives["(*sync.Pool).Get"] = func(vm *VM, a []Value) Value {
		vm.impure()
		c := vm.ptrCell(a[0])
		vm.raceAtomic(c, true)
		if l := vm.pools[c]; len(l) > 0 {
			v := l[len(l)-1]
			vm.pools[c] = l[: len(l)-1 : len(l)-1]
			vm.logFn(func() { vm.pools[c] = l })
			return v
		}
		st := c.p.(*Struct)
		f := st.f[len(st.f)-1]
		if f.p == nil {
			return Value{}
		}
		return vm.callClosure(f.p.(*Closure), nil)
	}
	natives["(*sync.Pool).Put"] = func(vm *VM, a []Value) Value {
		vm.impure()
		c := vm.ptrCell(a[0])
		vm.raceAtomic(c, true)
		l := vm.pools[c]
		vm.logFn(func() { vm.pools[c] = l })
		vm.pools[c] = append(l[:len(l):len(l)], a[1])
		return Value{}
	}
	for _, t := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		reg(atomLoad, "sync/atomic.Load"+t)
		reg(atomStore, "sync/atomic.Store"+t)
		reg(atomCAS, "sync/atomic.CompareAndSwap"+t)
		reg(atomSwap, "sync/atomic.Swap"+t)
	}
	reg(atomAdd(32), "sync/atomic.AddInt32", "sync/atomic.AddUint32")
	reg(atomAdd(64), "sync/atomic.AddInt64", "sync/atomic.AddUint64")
	// atomic.Pointer[T]: the last field holds the pointer
	natives["(*sync/atomic.Pointer[T]).Load"] = func(vm *VM, a []Value) Value {
		st := vm.ptrCell(a[0]).p.(*Struct)
		vm.raceAtomic(&st.f[len(st.f)-1], false)
		return st.f[len(st.f)-1]
	}
	natives["(*sync/atomic.Pointer[T]).Store"] = func(vm *VM, a []Value) Value {
		st := vm.ptrCell(a[0]).p.(*Struct)
		vm.raceAtomic(&st.f[len(st.f)-1], true)
		vm.store(&st.f[len(st.f)-1], a[1])
		return Value{}
	}
	natives["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(vm *VM, a []Value) Value {
		st := vm.ptrCell(a[0]).p.(*Struct)
		vm.raceAtomic(&st.f[len(st.f)-1], true)
		if identical(st.f[len(st.f)-1], a[1]) {
			vm.store(&st.f[len(st.f)-1], a[2])
			return boolVal(true)
		}
		return boolVal(false)
	}
	natives["(*sync/atomic.Value).Load"] = func(vm *VM, a []Value) Value {
		vm.raceAtomic(&vm.ptrCell(a[0]).p.(*Struct).f[0], false)
		return vm.ptrCell(a[0]).p.(*Struct).f[0]
	}
	natives["(*sync/atomic.Value).Store"] = func(vm *VM, a []Value) Value {
		vm.raceAtomic(&vm.ptrCell(a[0]).p.(*Struct).f[0], true)
		vm.store(&vm.ptrCell(a[0]).p.(*Struct).f[0], a[1])
		return Value{}
	}
	// sync.Map as an ordinary map kept beside the cell
	natives["(*sync.Map).Load"] = func(vm *VM, a []Value) Value {
		m := vm.syncMap(a[0])
		hk, _ := mapKey(vm.concKey(a[1], m.kt), m.kt)
		if i, ok := m.idx[hk]; ok {
			return tuple(m.ents[i].val, boolVal(true))
		}
		return tuple(Value{}, boolVal(false))
	}
	natives["(*sync.Map).Store"] = func(vm *VM, a []Value) Value {
		m := vm.syncMap(a[0])
		vm.mapUpdate(Value{p: m}, a[1], a[2], m.kt)
		return Value{}
	}
	natives["(*sync.Map).LoadOrStore"] = func(vm *VM, a []Value) Value {
		m := vm.syncMap(a[0])
		hk, _ := mapKey(vm.concKey(a[1], m.kt), m.kt)
		if i, ok := m.idx[hk]; ok {
			return tuple(m.ents[i].val, boolVal(true))
		}
		vm.mapUpdate(Value{p: m}, a[1], a[2], m.kt)
		return tuple(a[2], boolVal(false))
	}
	natives["(*sync.Map).Delete"] = func(vm *VM, a []Value) Value {
		vm.mapDelete(Value{p: vm.syncMap(a[0])}, a[1])
		return Value{}
	}
	reg(nop, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable")

	// ---- reflectlite, errors, context ----
	natives["internal/reflectlite.Swapper"] = func(vm *VM, a []Value) Value {
		s := sliceOf(a[0].p.(*Iface).v)
		return Value{p: &Closure{native: func(vm *VM, b []Value) Value {
			i, j := vm.concInt(b[0]), vm.concInt(b[1])
			x, y := clone(s[i]), clone(s[j])
			if vm.race != nil {
				vm.race.access(vm, &s[i], true)
				vm.race.access(vm, &s[j], true)
			}
			vm.store(&s[i], y)
			vm.store(&s[j], x)
			return Value{}
		}}}
	}
	natives["internal/reflectlite.ValueOf"] = func(vm *VM, a []Value) Value { return Value{p: &Struct{f: []Value{a[0]}}} }
	natives["(internal/reflectlite.Value).Len"] = func(vm *VM, a []Value) Value {
		v := a[0].p.(*Struct).f[0].p.(*Iface).v
		switch v.p.(type) {
		case string, *SymStr:
			return intVal(strLen(v))
		}
		return intVal(len(sliceOf(v)))
	}
	natives["context.WithValue"] = func(vm *VM, a []Value) Value {
		if a[0].p == nil {
			vm.rtPanic("cannot create context from nil parent")
		}
		if a[1].p == nil {
			vm.rtPanic("nil key")
		}
		t := namedType("context", "valueCtx")
		cell := &Value{p: &Struct{f: []Value{a[0], a[1], a[2]}}}
		return Value{p: &Iface{t: rtypeOf(types.NewPointer(t)), v: Value{p: cell}}}
	}
	natives["errors.Is"] = func(vm *VM, a []Value) Value { return boolVal(vm.errorsIs(a[0], a[1])) }
	natives["errors.As"] = func(vm *VM, a []Value) Value { return boolVal(vm.errorsAs(a[0], a[1])) }

	// ---- fmt ----
	natives["fmt.Sprintf"] = func(vm *VM, a []Value) Value { return vm.sprintf(a[0], sliceOf(a[1])) }
	natives["fmt.Sprint"] = func(vm *VM, a []Value) Value { return vm.sprint(sliceOf(a[0]), false) }
	natives["fmt.Sprintln"] = func(vm *VM, a []Value) Value { return vm.sprint(sliceOf(a[0]), true) }
	natives["fmt.Errorf"] = func(vm *VM, a []Value) Value {
		msg := vm.sprintf(a[0], sliceOf(a[1]))
		f := vm.concStr(a[0])
		if i := strings.Index(f, "%w"); i >= 0 {
			k := strings.Count(f[:i], "%") - 2*strings.Count(f[:i], "%%")
			args := sliceOf(a[1])
			if k < len(args) && args[k].p != nil {
				t := namedType("fmt", "wrapError")
				cell := &Value{p: &Struct{f: []Value{msg, args[k]}}}
				return Value{p: &Iface{t: rtypeOf(types.NewPointer(t)), v: Value{p: cell}}}
			}
		}
		return errIface(vm, msg)
	}
	fpr := func(mk func(vm *VM, a []Value) Value) nativeFn {
		return func(vm *VM, a []Value) Value {
			s := mk(vm, a[1:])
			return vm.ioWrite(a[0], s)
		}
	}
	natives["fmt.Fprintf"] = fpr(func(vm *VM, a []Value) Value { return vm.sprintf(a[0], sliceOf(a[1])) })
	natives["fmt.Fprint"] = fpr(func(vm *VM, a []Value) Value { return vm.sprint(sliceOf(a[0]), false) })
	natives["fmt.Fprintln"] = fpr(func(vm *VM, a []Value) Value { return vm.sprint(sliceOf(a[0]), true) })
	reg(func(vm *VM, a []Value) Value { return tuple(Value{}, Value{}) }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(nop, "log.Printf", "log.Println", "log.Print")

	// ---- misc ----
	natives["internal/abi.NoEscape"] = func(vm *VM, a []Value) Value { return a[0] }
	natives["github.com/JohannesKaufmann/html-to-markdown/v2/collapse.byteSliceToString"] = func(vm *VM, a []Value) Value { return bytesStr(sliceOf(a[0])) }
	natives["github.com/yuin/goldmark/util.BytesToReadOnlyString"] = func(vm *VM, a []Value) Value { return bytesStr(sliceOf(a[0])) }
	natives["github.com/yuin/goldmark/util.StringToReadOnlyBytes"] = func(vm *VM, a []Value) Value {
		b := strBytes(vm.str(a[0]))
		return Value{p: append([]Value(nil), b...)}
	}
	natives["runtime.Caller"] = func(vm *VM, a []Value) Value { return tuple(Value{}, Value{}, Value{}, boolVal(false)) }
	natives["internal/godebug.New"] = func(vm *VM, a []Value) Value { return Value{p: new(Value)} }
	natives["internal/godebug.(*Setting).Value"] = func(vm *VM, a []Value) Value { return Value{} }
	natives["(*internal/godebug.Setting).Value"] = func(vm *VM, a []Value) Value { return Value{} }
	natives["(*internal/godebug.Setting).IncNonDefault"] = nop
	natives["internal/bisect.New"] = nop
	natives["os.Getenv"] = func(vm *VM, a []Value) Value { return Value{} }
}

func (vm *VM) lockState(c *Value, kind string) {
	vm.impure()
	// a second Lock on a held mutex would block forever
	h, _ := vm.misc["locks"].(map[*Value]int)
	if h == nil {
		h = map[*Value]int{}
		vm.misc["locks"] = h
	}
	old := h[c]
	nw := old
	switch kind {
	case "L":
		if old != 0 {
			panic(pathKill{"deadlock"})
		}
		nw = -1
	case "U":
		if old != -1 {
			vm.rtPanic("sync: unlock of unlocked mutex")
		}
		nw = 0
	case "RL":
		if old < 0 {
			panic(pathKill{"deadlock"})
		}
		nw = old + 1
	case "RU":
		if old <= 0 {
			vm.rtPanic("sync: RUnlock of unlocked RWMutex")
		}
		nw = old - 1
	}
	vm.logFn(func() {
		if old == 0 {
			delete(h, c)
		} else {
			h[c] = old
		}
	})
	if nw == 0 {
		delete(h, c)
	} else {
		h[c] = nw
	}
}

func (vm *VM) syncMap(p Value) *Map {
	vm.impure()
	c := vm.ptrCell(p)
	vm.raceAtomic(c, true)
	ms, _ := vm.misc["syncmaps"].(map[*Value]*Map)
	if ms == nil {
		ms = map[*Value]*Map{}
		vm.misc["syncmaps"] = ms
	}
	m, ok := ms[c]
	if !ok {
		m = &Map{idx: map[any]int{}, kt: rtypeOf(types.NewInterfaceType(nil, nil)), sync: true}
		ms[c] = m
		vm.logFn(func() { delete(ms, c) })
	}
	return m
}

func (vm *VM) itoa(v Value) Value {
	t, ok := v.p.(*Term)
	if !ok {
		return strVal(strconv.FormatInt(int64(v.n), 10))
	}
	if t.op == OpTbl {
		// one string per value, chosen lazily
		dom := vm.pc.doms[t.v]
		keys, sets := groupsOf(dom, func(i int) any { return len(strconv.FormatInt(sext64(t.at(i), t.w), 10)) })
		if len(keys) > 1 {
			vm.forkSets(t.v, sets)
		}
		n := keys[0].(int)
		out := make([]Value, n)
		for p := 0; p < n; p++ {
			var tbl [256]uint64
			def := uint64(strconv.FormatInt(sext64(t.at(dom.first()), t.w), 10)[p])
			same := true
			for i := range tbl {
				tbl[i] = def
				if dom.has(i) {
					tbl[i] = uint64(strconv.FormatInt(sext64(t.at(i), t.w), 10)[p])
				}
				if tbl[i] != def {
					same = false
				}
			}
			if same {
				out[p] = Value{n: def}
			} else {
				out[p] = Value{p: newTbl(t.v, 8, &tbl)}
			}
		}
		return bytesStr(out)
	}
	if t.w != 64 {
		return strVal(strconv.FormatInt(sext64(vm.concretize(t), t.w), 10))
	}
	// wide: split by sign and number of digits
	tc := vm.tc
	k := func(c uint64) *Term { return tc.konst(64, c) }
	neg := vm.decide(tc.mk(OpSlt, 1, t, k(0), nil))
	a := t
	if neg {
		a = tc.mk(OpSub, 64, k(0), t, nil)
	}
	p := uint64(1)
	n := 1
	for n < 19 {
		p *= 10
		if vm.decide(tc.mk(OpUlt, 1, a, k(p), nil)) {
			break
		}
		n++
	}
	out := make([]Value, n)
	d := uint64(1)
	for i := n - 1; i >= 0; i-- {
		x := tc.mk(OpURem, 64, tc.mk(OpUDiv, 64, a, k(d), nil), k(10), nil)
		out[i] = termVal(tc.mk(OpTrunc, 8, tc.mk(OpAdd, 64, x, k('0'), nil), nil, nil))
		d *= 10
	}
	if neg {
		out = append([]Value{{n: '-'}}, out...)
	}
	return bytesStr(out)
}

// callMethod calls a method by name on an interface value; ok is false if it does not exist.
func (vm *VM) callMethod(iv Value, name string, args ...Value) (Value, bool) {
	ifc, _ := iv.p.(*Iface)
	if ifc == nil {
		return Value{}, false
	}
	fn := lookupMethod(ifc.t, name)
	if fn == nil {
		return Value{}, false
	}
	return vm.callSync(fn, append([]Value{ifc.v}, args...), nil), true
}

func lookupMethod(t *RType, name string) *Fn {
	t.mu.Lock()
	fn, ok := t.methods[name]
	t.mu.Unlock()
	if ok {
		return fn
	}
	sel := theProg.MethodSets.MethodSet(t.t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	progMu.Lock()
	sf := theProg.MethodValue(sel)
	progMu.Unlock()
	if sf == nil {
		return nil
	}
	fn = fnOf(sf)
	t.mu.Lock()
	t.methods[name] = fn
	t.mu.Unlock()
	return fn
}

func (vm *VM) errorsIs(err, target Value) bool {
	if err.p == nil || target.p == nil {
		return err.p == nil && target.p == nil
	}
	x, y := err.p.(*Iface), target.p.(*Iface)
	comparable := types.Comparable(y.t.t)
	if comparable && x.t == y.t && vm.decideV(vm.eq(x.v, y.v, x.t)) {
		return true
	}
	if fn := lookupMethod(x.t, "Is"); fn != nil && len(fn.ssa.Params) == 2 {
		if vm.decideV(vm.callSync(fn, []Value{x.v, target}, nil)) {
			return true
		}
	}
	if fn := lookupMethod(x.t, "Unwrap"); fn != nil {
		r := vm.callSync(fn, []Value{x.v}, nil)
		if l, ok := r.p.([]Value); ok {
			for _, e := range l {
				if vm.errorsIs(e, target) {
					return true
				}
			}
			return false
		}
		if r.p == nil {
			return false
		}
		return vm.errorsIs(r, target)
	}
	return false
}

func (vm *VM) errorsAs(err, target Value) bool {
	ti := target.p.(*Iface)
	want := rtypeOf(deref(ti.t.t))
	for err.p != nil {
		x := err.p.(*Iface)
		if want.kind == kIface && implements(x.t, want) {
			vm.storeTo(ti.v, err)
			return true
		}
		if x.t == want {
			vm.storeTo(ti.v, x.v)
			return true
		}
		fn := lookupMethod(x.t, "Unwrap")
		if fn == nil {
			return false
		}
		r := vm.callSync(fn, []Value{x.v}, nil)
		if _, ok := r.p.([]Value); ok {
			panic(unsupported{"errors.As on joined errors"})
		}
		err = r
	}
	return false
}

// ioWrite writes a string to an io.Writer.
func (vm *VM) ioWrite(w, s Value) Value {
	ifc, _ := w.p.(*Iface)
	if ifc == nil {
		vm.rtPanic("nil writer")
	}
	fn := lookupMethod(ifc.t, "Write")
	b := append([]Value(nil), strBytes(vm.str(s))...)
	return vm.callSync(fn, []Value{ifc.v, {p: b}}, nil)
}

// ---- formatting ----

func (vm *VM) sprint(args []Value, ln bool) Value {
	var out Value
	prevStr := true
	for i, a := range args {
		ifc, _ := a.p.(*Iface)
		isStr := ifc != nil && ifc.t.kind == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			out = concat(out, strVal(" "))
		}
		out = concat(out, vm.format('v', false, a, 0))
		prevStr = isStr
	}
	if ln {
		out = concat(out, strVal("\n"))
	}
	return out
}

func (vm *VM) sprintf(fv Value, args []Value) Value {
	f := vm.concStr(fv)
	var out Value
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = concat(out, strVal(f[i:]))
			break
		}
		out = concat(out, strVal(f[i:i+j]))
		i += j + 1
		start := i
		plus, minus, zero, sharp, space := false, false, false, false, false
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '+':
				plus = true
			case '-':
				minus = true
			case '0':
				zero = true
			case '#':
				sharp = true
			case ' ':
				space = true
			default:
				break flags
			}
		}
		width, prec := -1, -1
		num := func() int {
			if i < len(f) && f[i] == '*' {
				i++
				v := args[ai].p.(*Iface).v
				ai++
				return int(int64(vm.conc(v)))
			}
			s := i
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				i++
			}
			if s == i {
				return -1
			}
			n, _ := strconv.Atoi(f[s:i])
			return n
		}
		width = num()
		if i < len(f) && f[i] == '.' {
			i++
			prec = num()
			if prec < 0 {
				prec = 0
			}
		}
		if i >= len(f) {
			out = concat(out, strVal("%!(NOVERB)"))
			break
		}
		verb, sz := utf8.DecodeRuneInString(f[i:])
		i += sz
		if verb == '%' {
			out = concat(out, strVal("%"))
			continue
		}
		if ai >= len(args) {
			out = concat(out, strVal("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		_ = space
		if sharp || prec >= 0 {
			// rare: only for concrete arguments
			out = concat(out, strVal(fmt.Sprintf("%"+f[start:i], vm.native(a))))
			continue
		}
		s := vm.format(verb, plus, a, 0)
		if width > 0 {
			n := vm.runeLen(s)
			pad := " "
			if zero && !minus {
				pad = "0"
			}
			if n < width {
				p := strVal(strings.Repeat(pad, width-n))
				if minus {
					s = concat(s, p)
				} else if pad == "0" && n > 0 && strAt(s, 0).p == nil && strAt(s, 0).n == '-' {
					s = concat(strVal("-"), concat(p, subStr(s, 1, strLen(s))))
				} else {
					s = concat(p, s)
				}
			}
		}
		out = concat(out, s)
	}
	if ai < len(args) {
		out = concat(out, strVal("%!(EXTRA)"))
	}
	return out
}

func (vm *VM) runeLen(s Value) int {
	if x, ok := isConcStr(s); ok {
		return utf8.RuneCountInString(x)
	}
	b := strBytes(s)
	n := 0
	for i := 0; i < len(b); n++ {
		_, sz := vm.decodeRune(b[i:])
		i += sz
	}
	return n
}

// native turns a concrete interface value into a Go value for formatting.
func (vm *VM) native(a Value) any {
	ifc, _ := a.p.(*Iface)
	if ifc == nil {
		return nil
	}
	switch ifc.t.kind {
	case kString:
		return vm.concStr(ifc.v)
	case kInt:
		n := vm.conc(ifc.v)
		if ifc.t.sgn {
			return sext64(n, ifc.t.w)
		}
		return n
	case kBool:
		return vm.decideV(ifc.v)
	case kFloat:
		return ifc.v.f64()
	}
	return vm.concStr(vm.format('v', false, a, 0))
}

func (vm *VM) format(verb rune, plus bool, a Value, depth int) Value {
	ifc, _ := a.p.(*Iface)
	if ifc == nil {
		if verb == 'v' || verb == 's' {
			return strVal("<nil>")
		}
		return strVal("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return strVal(types.TypeString(ifc.t.t, func(p *types.Package) string { return p.Name() }))
	}
	switch verb {
	case 'v', 's', 'q', 'w':
		nilPtr := ifc.t.kind == kPtr && ifc.v.p == nil
		for _, m := range []string{"Error", "String"} {
			if fn := lookupMethod(ifc.t, m); fn != nil && fn.ssa.Signature.Params().Len() == 0 && fn.ssa.Signature.Results().Len() == 1 {
				if nilPtr {
					return strVal("<nil>")
				}
				s := vm.callSync(fn, []Value{ifc.v}, nil)
				if verb == 'q' {
					return strVal(strconv.Quote(vm.concStr(s)))
				}
				return vm.str(s)
			}
		}
	}
	return vm.formatT(verb, plus, ifc.v, ifc.t, depth)
}

func (vm *VM) formatT(verb rune, plus bool, v Value, t *RType, depth int) Value {
	switch t.kind {
	case kString:
		switch verb {
		case 'q':
			return vm.quote(v)
		case 'x':
			return strVal(fmt.Sprintf("%x", vm.concStr(v)))
		}
		return vm.str(v)
	case kBool:
		return strVal(strconv.FormatBool(vm.decideV(v)))
	case kInt:
		switch verb {
		case 'v', 'd':
			if t.sgn {
				if tt, ok := v.p.(*Term); ok {
					return vm.itoa(termVal(vm.convTerm(tt, t.w, true, 64)))
				}
				s := strconv.FormatInt(sext64(v.n, t.w), 10)
				if plus && s[0] != '-' {
					s = "+" + s
				}
				return strVal(s)
			}
			return strVal(strconv.FormatUint(vm.conc(v), 10))
		case 'c':
			if tt, ok := v.p.(*Term); ok {
				return bytesStr(vm.encodeRune(tt, t))
			}
			return strVal(string(rune(sext64(v.n, t.w))))
		}
		n := vm.conc(v)
		if t.sgn {
			return strVal(fmt.Sprintf("%"+string(verb), sext64(n, t.w)))
		}
		return strVal(fmt.Sprintf("%"+string(verb), n))
	case kFloat:
		return strVal(fmt.Sprintf("%"+string(verb), v.f64()))
	case kSlice, kArray:
		var el []Value
		if t.kind == kSlice {
			el = sliceOf(v)
		} else {
			el = v.p.(*Struct).f
		}
		var et *RType
		if s, ok := t.t.Underlying().(*types.Slice); ok {
			et = rtypeOf(s.Elem())
		} else {
			et = rtypeOf(t.t.Underlying().(*types.Array).Elem())
		}
		if et.kind == kInt && et.w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			s := bytesStr(el)
			switch verb {
			case 'q':
				return vm.quote(s)
			case 'x':
				return vm.hex(el)
			}
			return s
		}
		out := strVal("[")
		for i, e := range el {
			if i > 0 {
				out = concat(out, strVal(" "))
			}
			if et.kind == kIface {
				out = concat(out, vm.format(verb, plus, e, depth+1))
			} else {
				out = concat(out, vm.format(verb, plus, Value{p: &Iface{t: et, v: e}}, depth+1))
			}
		}
		return concat(out, strVal("]"))
	case kStruct:
		st := t.t.Underlying().(*types.Struct)
		out := strVal("{")
		for i, e := range v.p.(*Struct).f {
			if i > 0 {
				out = concat(out, strVal(" "))
			}
			if plus {
				out = concat(out, strVal(st.Field(i).Name()+":"))
			}
			ft := rtypeOf(st.Field(i).Type())
			if ft.kind == kIface {
				out = concat(out, vm.format(verb, plus, e, depth+1))
			} else {
				out = concat(out, vm.formatT(verb, plus, e, ft, depth+1))
			}
		}
		return concat(out, strVal("}"))
	case kPtr:
		if v.p == nil {
			return strVal("<nil>")
		}
		return strVal("0xc000012345")
	case kMap, kFunc, kChan, kUnsafe:
		return strVal("0xc000012345")
	}
	panic(unsupported{"format %" + string(verb) + " of " + t.t.String()})
}

// hex formats bytes in hexadecimal; symbolic bytes stay symbolic.
func (vm *VM) hex(b []Value) Value {
	const d = "0123456789abcdef"
	var out []Value
	for _, x := range b {
		if x.p == nil {
			out = append(out, Value{n: uint64(d[x.n>>4])}, Value{n: uint64(d[x.n&15])})
			continue
		}
		t := x.p.(*Term)
		if t.op != OpTbl {
			c := vm.concretize(t)
			out = append(out, Value{n: uint64(d[c>>4])}, Value{n: uint64(d[c&15])})
			continue
		}
		var hi, lo [256]uint64
		for i := range hi {
			hi[i] = uint64(d[t.at(i)>>4&15])
			lo[i] = uint64(d[t.at(i)&15])
		}
		out = append(out, Value{p: newTbl(t.v, 8, &hi)}, Value{p: newTbl(t.v, 8, &lo)})
	}
	return bytesStr(out)
}

// quote formats %q. Symbolic printable bytes stay symbolic; others are made concrete.
func (vm *VM) quote(v Value) Value {
	v = vm.str(v)
	if s, ok := isConcStr(v); ok {
		return strVal(strconv.Quote(s))
	}
	b := strBytes(v)
	plain := true
	for i := range b {
		if b[i].p == nil {
			if b[i].n < 0x20 || b[i].n >= 0x7f || b[i].n == '"' || b[i].n == '\\' {
				plain = false
			}
			continue
		}
		if !(vm.inRange(b[i], 0x20, 0x7e) && !vm.inRange(b[i], '"', '"') && !vm.inRange(b[i], '\\', '\\')) {
			plain = false
		}
	}
	if plain {
		out := append([]Value{{n: '"'}}, b...)
		return bytesStr(append(out, Value{n: '"'}))
	}
	return strVal(strconv.Quote(vm.concStr(v)))
}
