package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract machine value:
//
//	bool, ABool                booleans
//	uint64, *BV                integers (masked to their width)
//	float64, *FT               floating point
//	complex128, *CT            complex
//	string, *AStr, *OStr       strings (constant, per-byte abstract, opaque)
//	*Value                     pointers (to cells)
//	Struct, Array              aggregates (immutable in registers)
//	Slice                      slices (share cells)
//	*Map                       maps
//	Iface                      interfaces
//	*ssa.Function, *Closure, *Native   functions
//	Tuple                      multiple results
//	RV, RT                     reflect.Value and *reflect.rtype
type Value = interface{}

type ABool struct{ b Bit }
type AStr struct{ b []Value }
type OStr struct{ desc string }
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type Native struct {
	name string
	f    func(e *Engine, fr *frame, args []Value) Value
}

type mapEntry struct {
	k, v Value
}

type Map struct {
	m      map[string]*mapEntry
	keys   []string
	synced bool // a sync.Map: accesses are synchronised
}

func newMap() *Map { return &Map{m: map[string]*mapEntry{}} }

// RT is the dynamic value behind a reflect.Type.
type RT struct{ T types.Type }

// RV models reflect.Value. P always points at a cell holding the value.
type RV struct {
	T    types.Type
	P    *Value
	addr bool
	ro   uint8 // 1: unexported field, 2: unexported embedded field
}

type vkind uint8

const (
	kOther vkind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kTuple
	kChan
	kUnsafe
)

func basicInfo(t types.Type) (k vkind, w int, signed bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool, 1, false
		case types.Int, types.UntypedInt:
			return kInt, 64, true
		case types.Int8:
			return kInt, 8, true
		case types.Int16:
			return kInt, 16, true
		case types.Int32, types.UntypedRune:
			return kInt, 32, true
		case types.Int64:
			return kInt, 64, true
		case types.Uint, types.Uintptr, types.Uint64:
			return kInt, 64, false
		case types.Uint8:
			return kInt, 8, false
		case types.Uint16:
			return kInt, 16, false
		case types.Uint32:
			return kInt, 32, false
		case types.Float32:
			return kFloat, 32, true
		case types.Float64, types.UntypedFloat:
			return kFloat, 64, true
		case types.Complex64:
			return kComplex, 64, true
		case types.Complex128, types.UntypedComplex:
			return kComplex, 128, true
		case types.String, types.UntypedString:
			return kString, 0, false
		case types.UnsafePointer:
			return kUnsafe, 64, false
		}
		return kOther, 0, false
	case *types.Pointer:
		return kPtr, 64, false
	case *types.Struct:
		return kStruct, 0, false
	case *types.Array:
		return kArray, 0, false
	case *types.Slice:
		return kSlice, 0, false
	case *types.Map:
		return kMap, 0, false
	case *types.Interface:
		return kIface, 0, false
	case *types.Signature:
		return kFunc, 0, false
	case *types.Tuple:
		return kTuple, 0, false
	case *types.Chan:
		return kChan, 0, false
	}
	return kOther, 0, false
}

var reflectValueType types.Type // set by load

func zero(t types.Type) Value {
	if n, ok := t.(*types.Named); ok && reflectValueType != nil && n == reflectValueType {
		return RV{}
	}
	if a, ok := t.(*types.Alias); ok {
		return zero(types.Unalias(a))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch k, _, _ := basicInfo(u); k {
		case kBool:
			return false
		case kInt:
			return uint64(0)
		case kFloat:
			return float64(0)
		case kComplex:
			return complex128(0)
		case kString:
			return ""
		case kUnsafe:
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			if k, _, _ := basicInfo(u.Elem()); k == kStruct || k == kArray {
				for i := range a {
					a[i] = zero(u.Elem())
				}
			} else {
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*Native)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero: %s", t))
}

// copyVal copies aggregates so that cells never share storage.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				x = copyVal(x)
			}
			r[i] = x
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				x = copyVal(x)
			}
			r[i] = x
		}
		return r
	}
	return v
}

func newCell(v Value) *Value {
	c := new(Value)
	*c = copyVal(v)
	return c
}

// strFromBytes builds the most precise string for the byte values.
func strFromBytes(bs []Value) Value {
	buf := make([]byte, len(bs))
	for i, b := range bs {
		c, ok := b.(uint64)
		if !ok {
			return &AStr{append([]Value(nil), bs...)}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}

// strBytes returns the bytes of a string, or false for an opaque string.
func strBytes(v Value) ([]Value, bool) {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r, true
	case *AStr:
		return v.b, true
	}
	return nil, false
}

func isNil(v Value) bool {
	switch v := v.(type) {
	case *Value:
		return v == nil
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case Iface:
		return v.T == nil
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	case *Native:
		return v == nil
	case nil:
		return true
	}
	return false
}

func fRound(v float64, w int) float64 {
	if w == 32 {
		return float64(float32(v))
	}
	return v
}

// ---- integer arithmetic

func sext(c uint64, w int) int64 {
	return int64(c<<uint(64-w)) >> uint(64-w)
}

func popcount(v uint64) int {
	n := 0
	for ; v != 0; v &= v - 1 {
		n++
	}
	return n
}

func symBits(x Value) int {
	n := 0
	if bv, ok := x.(*BV); ok {
		for _, b := range bv.b {
			if !isConstBit(b) {
				n++
			}
		}
	}
	return n
}

func (d *Dom) ripple(x, y Value, w int, carry Bit) Value {
	a, b := lift(x, w), lift(y, w)
	r := &BV{make([]Bit, w)}
	for i := 0; i < w; i++ {
		p := d.Xor(a.b[i], b.b[i])
		r.b[i] = d.Xor(p, carry)
		carry = d.Or(d.And(a.b[i], b.b[i]), d.And(p, carry))
	}
	return lower(r)
}

func (d *Dom) arith(op string, x, y Value, w int) Value {
	xc, xok := x.(uint64)
	yc, yok := y.(uint64)
	if xok && yok {
		m := mask(w)
		if yc == 0 && (strings.HasSuffix(op, "div") || strings.HasSuffix(op, "rem")) {
			return uint64(0)
		}
		switch op {
		case "add":
			return (xc + yc) & m
		case "sub":
			return (xc - yc) & m
		case "mul":
			return (xc * yc) & m
		case "udiv":
			return xc / yc
		case "urem":
			return xc % yc
		case "sdiv":
			a, b := sext(xc, w), sext(yc, w)
			if b == -1 {
				return uint64(-a) & m
			}
			return uint64(a/b) & m
		case "srem":
			a, b := sext(xc, w), sext(yc, w)
			if b == -1 {
				return uint64(0)
			}
			return uint64(a%b) & m
		case "shl":
			return (xc << yc) & m
		case "ushr":
			return xc >> yc
		case "sshr":
			return uint64(sext(xc, w)>>yc) & m
		}
		panic("arith " + op)
	}
	small := symBits(x)+symBits(y) <= 8
	switch op {
	case "add":
		if small {
			return d.ripple(x, y, w, bFalse)
		}
		return d.add(x, y, w)
	case "sub":
		if small {
			return d.ripple(x, d.not(y, w), w, bTrue)
		}
		if yok {
			return d.add(x, (-yc)&mask(w), w)
		}
		if d.argKey(x) == d.argKey(y) {
			return uint64(0)
		}
	case "mul":
		if xok {
			x, y = y, x
			yc, yok = xc, true
		}
		if yok {
			switch {
			case yc == 0:
				return uint64(0)
			case yc == 1:
				return x
			case popcount(yc) == 1:
				n := 0
				for yc>>uint(n) != 1 {
					n++
				}
				return d.shl(x, uint64(n), w)
			}
		}
	case "udiv", "urem", "sdiv", "srem":
		if yok && popcount(yc) == 1 && sext(yc, w) > 0 {
			if op[0] == 's' && lift(x, w).b[w-1] != bFalse {
				break
			}
			n := 0
			for yc>>uint(n) != 1 {
				n++
			}
			if op[1:] == "div" {
				return d.shr(x, uint64(n), w, false)
			}
			return d.bitwise("and", x, yc-1, w)
		}
	case "shl":
		if yok {
			return d.shl(x, yc, w)
		}
	case "ushr":
		if yok {
			return d.shr(x, yc, w, false)
		}
	case "sshr":
		if yok {
			return d.shr(x, yc, w, true)
		}
	}
	return d.TermBV(op, w, x, y)
}

// ---- floats

func (d *Dom) farith(op string, x, y Value, w int) Value {
	if a, ok := x.(float64); ok {
		if b, ok := y.(float64); ok {
			var r float64
			if w == 32 {
				p, q := float32(a), float32(b)
				switch op {
				case "fadd":
					r = float64(p + q)
				case "fsub":
					r = float64(p - q)
				case "fmul":
					r = float64(p * q)
				case "fdiv":
					r = float64(p / q)
				}
				return r
			}
			switch op {
			case "fadd":
				r = a + b
			case "fsub":
				r = a - b
			case "fmul":
				r = a * b
			case "fdiv":
				r = a / b
			}
			return r
		}
	}
	return &FT{w, d.Term(op, w, x, y)}
}

func (d *Dom) fneg(x Value, w int) Value {
	if a, ok := x.(float64); ok {
		return -a
	}
	return &FT{w, d.Term("fneg", w, x)}
}

func (d *Dom) fcmp(op string, x, y Value, w int) Bit {
	if a, ok := x.(float64); ok {
		if b, ok := y.(float64); ok {
			var r bool
			switch op {
			case "feq":
				r = a == b
			case "flt":
				r = a < b
			case "fle":
				r = a <= b
			}
			if r {
				return bTrue
			}
			return bFalse
		}
	}
	return d.TermBit(d.Term(op, 1, x, y), 0)
}

// i2f converts an integer to a float of width w.
func (d *Dom) i2f(x Value, iw int, signed bool, w int) Value {
	if c, ok := x.(uint64); ok {
		if signed {
			v := sext(c, iw)
			if w == 32 {
				return float64(float32(v))
			}
			return float64(v)
		}
		if w == 32 {
			return float64(float32(c))
		}
		return float64(c)
	}
	x64 := d.resize(x, iw, 64, signed)
	op := "u2f"
	if signed {
		op = "s2f"
	}
	return &FT{w, d.Term(op, w, x64)}
}

// f2i converts a float to an integer of width iw.
func (d *Dom) f2i(x Value, w int, iw int, signed bool) Value {
	if c, ok := x.(float64); ok {
		if signed {
			return uint64(int64(c)) & mask(iw)
		}
		if c < 0 {
			return uint64(int64(c)) & mask(iw)
		}
		return uint64(c) & mask(iw)
	}
	op := "f2u"
	if signed {
		op = "f2s"
	}
	return d.TermBV(op, iw, x)
}

// abool wraps a literal as a boolean value.
func abool(b Bit) Value {
	switch b {
	case bTrue:
		return true
	case bFalse:
		return false
	}
	return ABool{b}
}

func boolBit(v Value) Bit {
	switch v := v.(type) {
	case bool:
		if v {
			return bTrue
		}
		return bFalse
	case ABool:
		return v.b
	}
	panic(fmt.Sprintf("boolBit %T", v))
}

func realImag(v Value) (Value, Value) {
	switch v := v.(type) {
	case complex128:
		return real(v), imag(v)
	case *CT:
		return v.re, v.im
	}
	panic(fmt.Sprintf("realImag %T", v))
}

func mkComplex(re, im Value) Value {
	a, ok1 := re.(float64)
	b, ok2 := im.(float64)
	if ok1 && ok2 {
		return complex(a, b)
	}
	return &CT{re, im}
}

// ---- concrete evaluation of abstract values under a valuation

type valuation struct {
	d    *Dom
	vars map[int32]bool
	memo map[int32]bool
	// base64 words per term
	tm map[int]Value
}

func (v *valuation) bit(b Bit) bool {
	n := int32(b >> 1)
	neg := b&1 != 0
	if n == 0 {
		return neg
	}
	if r, ok := v.memo[n]; ok {
		return r != neg
	}
	nd := v.d.nodes[n]
	var r bool
	switch nd.kind {
	case nkVar:
		r = v.vars[n]
	case nkAnd:
		r = v.bit(nd.a) && v.bit(nd.b)
	case nkXor:
		r = v.bit(nd.a) != v.bit(nd.b)
	case nkTerm:
		switch t := v.term(nd.term).(type) {
		case uint64:
			r = t>>uint(nd.i)&1 != 0
		default:
			panic(undecidable{"uninterpreted term " + nd.term.op})
		}
	}
	v.memo[n] = r
	return r != neg
}

type undecidable struct{ why string }

func (v *valuation) val(x Value) Value {
	switch x := x.(type) {
	case *BV:
		var c uint64
		for i, b := range x.b {
			if v.bit(b) {
				c |= 1 << uint(i)
			}
		}
		return c
	case ABool:
		return v.bit(x.b)
	case *FT:
		return v.term(x.t)
	case *CT:
		return complex(v.val(x.re).(float64), v.val(x.im).(float64))
	case *AStr:
		bs := make([]Value, len(x.b))
		for i, b := range x.b {
			bs[i] = v.val(b)
		}
		return strFromBytes(bs)
	}
	return x
}

func (v *valuation) term(t *Term) Value {
	if r, ok := v.tm[t.id]; ok {
		return r
	}
	args := make([]Value, len(t.args))
	for i, a := range t.args {
		args[i] = v.val(a)
	}
	r := v.d.foldTerm(t, args)
	v.tm[t.id] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// foldTerm evaluates a term whose arguments are constants.
func (d *Dom) foldTerm(t *Term, args []Value) Value {
	switch t.op {
	case "add", "sub", "mul", "shl", "ushr", "sshr":
		return d.arith(t.op, args[0], args[1], t.w)
	case "udiv", "sdiv", "urem", "srem":
		if args[1].(uint64) == 0 {
			return uint64(0)
		}
		return d.arith(t.op, args[0], args[1], t.w)
	case "ult":
		return b2u(args[0].(uint64) < args[1].(uint64))
	case "slt":
		w := 64
		for _, a := range t.args {
			if bv, ok := a.(*BV); ok {
				w = len(bv.b)
			}
		}
		return b2u(sext(args[0].(uint64), w) < sext(args[1].(uint64), w))
	case "ffrom":
		return d.floatFromBits(args[0], t.w)
	case "fbits":
		return d.floatBits(args[0], t.w)
	case "f32to64":
		return args[0]
	case "f64to32":
		return float64(float32(args[0].(float64)))
	case "fadd", "fsub", "fmul", "fdiv":
		return d.farith(t.op, args[0], args[1], t.w)
	case "fneg":
		return -args[0].(float64)
	case "feq", "flt", "fle":
		return b2u(d.fcmp(t.op, args[0], args[1], 64) == bTrue)
	case "s2f":
		return d.i2f(args[0], 64, true, t.w)
	case "u2f":
		return d.i2f(args[0], 64, false, t.w)
	case "f2s":
		return d.f2i(args[0], 64, t.w, true)
	case "f2u":
		return d.f2i(args[0], 64, t.w, false)
	case "strlt":
		return b2u(args[0].(string) < args[1].(string))
	}
	if f, ok := termFolds[t.op]; ok {
		return f(args, t.w)
	}
	panic(undecidable{"uninterpreted term " + t.op})
}

// termFolds gives constants meaning to additional named terms.
var termFolds = map[string]func(args []Value, w int) Value{}

func valEqConst(a, b Value) bool {
	switch a := a.(type) {
	case float64:
		bf, ok := b.(float64)
		return ok && math.Float64bits(a) == math.Float64bits(bf)
	case complex128:
		bc, ok := b.(complex128)
		return ok && math.Float64bits(real(a)) == math.Float64bits(real(bc)) && math.Float64bits(imag(a)) == math.Float64bits(imag(bc))
	}
	return a == b
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
