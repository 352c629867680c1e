package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a Go value inside the VM. The static type (known from the SSA)
// says how it is to be read:
//
//	bool, integers:  n, or p = *Term when symbolic
//	floats:          n = bits of the float64
//	string:          p = string, *SymStr or *ChoiceStr (nil: "")
//	pointer:         p = *Value (a memory cell), *SymPtr or *ElemPtr; nil
//	slice:           p = []Value; nil
//	struct, array:   p = *Struct
//	tuple:           p = *Struct
//	interface:       p = *Iface; nil
//	func:            p = *Closure; nil
//	map:             p = *Map; nil
type Value struct {
	n uint64
	p any
}

type Struct struct{ f []Value }

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn     *Fn
	bind   []Value
	native func(vm *VM, args []Value) Value
}

// SymStr is a string of fixed length with symbolic bytes.
type SymStr struct{ b []Value }

// ChoiceStr is one of several strings, selected by the value of one variable.
type ChoiceStr struct {
	idx  *Term // OpTbl, w 8
	strs []string
}

// SymPtr is the address of an element at a symbolic index (already in range).
type SymPtr struct {
	a   []Value
	idx *Term
}

// ElemPtr is a pointer to the first element of a slice (unsafe.SliceData).
type ElemPtr struct{ a []Value }

// StrPtr is unsafe.StringData
type StrPtr struct{ s Value }

type MapEnt struct {
	key Value
	hk  any
	val Value
	del bool
}

type Map struct {
	idx  map[any]int
	ents []*MapEnt
	live int
	kt   *RType
	sync bool // a sync.Map
}

type MapIter struct {
	m    *Map
	ents []*MapEnt
	pos  *Value // cell, undo-logged
	str  bool
	s    Value
}

type RType struct {
	t    types.Type
	id   int
	kind rkind
	w    uint8
	sgn  bool
	// caches
	mu      sync.Mutex
	methods map[string]*Fn
	impl    map[*RType]bool
}

type rkind uint8

const (
	kOther rkind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kStruct
	kArray
	kIface
	kFunc
	kMap
	kChan
	kTuple
	kComplex
	kUnsafe
)

var (
	rtMu  sync.Mutex
	rtMap typeutil.Map
	rtSeq int
)

func rtypeOf(t types.Type) *RType {
	rtMu.Lock()
	defer rtMu.Unlock()
	if x := rtMap.At(t); x != nil {
		return x.(*RType)
	}
	rtSeq++
	r := &RType{t: t, id: rtSeq, methods: map[string]*Fn{}, impl: map[*RType]bool{}}
	r.kind, r.w, r.sgn = kindOf(t)
	rtMap.Set(t, r)
	return r
}

func kindOf(t types.Type) (rkind, uint8, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool, 1, false
		case types.Int, types.Int64, types.UntypedInt:
			return kInt, 64, true
		case types.Int8:
			return kInt, 8, true
		case types.Int16:
			return kInt, 16, true
		case types.Int32, types.UntypedRune:
			return kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			return kInt, 64, false
		case types.Uint8:
			return kInt, 8, false
		case types.Uint16:
			return kInt, 16, false
		case types.Uint32:
			return kInt, 32, false
		case types.Float32:
			return kFloat, 32, true
		case types.Float64, types.UntypedFloat:
			return kFloat, 64, true
		case types.String, types.UntypedString:
			return kString, 0, false
		case types.UnsafePointer, types.UntypedNil:
			return kUnsafe, 0, false
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return kComplex, 0, false
		}
	case *types.Pointer:
		return kPtr, 0, false
	case *types.Slice:
		return kSlice, 0, false
	case *types.Struct:
		return kStruct, 0, false
	case *types.Array:
		return kArray, 0, false
	case *types.Interface:
		return kIface, 0, false
	case *types.Signature:
		return kFunc, 0, false
	case *types.Map:
		return kMap, 0, false
	case *types.Chan:
		return kChan, 0, false
	case *types.Tuple:
		return kTuple, 0, false
	}
	return kOther, 0, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zero(u.Field(i).Type())
		}
		return Value{p: s}
	case *types.Array:
		n := int(u.Len())
		s := &Struct{f: make([]Value, n)}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range s.f {
				s.f[i] = zero(u.Elem())
			}
		}
		return Value{p: s}
	case *types.Tuple:
		s := &Struct{f: make([]Value, u.Len())}
		for i := range s.f {
			s.f[i] = zero(u.At(i).Type())
		}
		return Value{p: s}
	}
	return Value{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func clone(v Value) Value {
	if s, ok := v.p.(*Struct); ok {
		n := &Struct{f: make([]Value, len(s.f))}
		for i := range s.f {
			if _, agg := s.f[i].p.(*Struct); agg {
				n.f[i] = clone(s.f[i])
			} else {
				n.f[i] = s.f[i]
			}
		}
		return Value{p: n}
	}
	return v
}

func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func intVal(i int) Value { return Value{n: uint64(i)} }
func boolVal(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func f64Val(f float64) Value { return Value{n: math.Float64bits(f)} }
func (v Value) f64() float64 { return math.Float64frombits(v.n) }

func termVal(t *Term) Value {
	if t.op == OpConst {
		return Value{n: t.c}
	}
	return Value{p: t}
}

func tuple(vs ...Value) Value { return Value{p: &Struct{f: vs}} }

func (v Value) isSym() bool {
	_, ok := v.p.(*Term)
	return ok
}

// strLen returns the length of a string value (SymStr and concrete only).
func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func strAt(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

// bytesStr makes a string value from bytes (copies).
func bytesStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].p != nil {
			return Value{p: &SymStr{b: append([]Value(nil), b...)}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return Value{p: sb.String()}
}

func sliceOf(v Value) []Value {
	if v.p == nil {
		return nil
	}
	return v.p.([]Value)
}

// hashKey gives a comparable Go key for a concrete map key.
func hashKey(v Value) (any, bool) {
	switch p := v.p.(type) {
	case nil:
		return v.n, true
	case string:
		return p, true
	case *Term, *SymStr, *ChoiceStr:
		return nil, false
	case *Value:
		return p, true
	case *Closure, *Map, []Value:
		return fmt.Sprintf("%p", p), true
	case *Iface:
		k, ok := hashKey(p.v)
		if !ok {
			return nil, false
		}
		return [2]any{p.t, k}, true
	case *Struct:
		var sb strings.Builder
		for i := range p.f {
			k, ok := hashKey(p.f[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "struct:" + sb.String(), true
	}
	panic(fmt.Sprintf("hashKey %T", v.p))
}

func mapKey(v Value, kt *RType) (any, bool) {
	if kt != nil && kt.kind == kString && v.p == nil {
		return "", true
	}
	return hashKey(v)
}

// identical says whether two values are represented identically.
func identical(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case []Value:
		y, ok := b.p.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return false
		}
		if cap(x) == 0 {
			return true
		}
		return &x[:1][0] == &y[:1][0]
	case *Struct:
		y, ok := b.p.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !identical(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && (x == y || x.t == y.t && identical(x.v, y.v))
	case *Term:
		y, ok := b.p.(*Term)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.op == OpTbl && y.op == OpTbl && x.v == y.v && x.w == y.w && x.set == y.set {
			return x.w == 1 || *x.tbl == *y.tbl
		}
		return false
	case *SymStr:
		y, ok := b.p.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if !identical(x.b[i], y.b[i]) {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.p.(*Closure)
		if !ok {
			return false
		}
		return x == y || (x.native == nil && y.native == nil && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0)
	default:
		return a.p == b.p
	}
}

var theProg *ssa.Program

func tupleElem(t *RType, i int) *RType { return rtypeOf(t.t.(*types.Tuple).At(i).Type()) }

var progMu sync.Mutex
