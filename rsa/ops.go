package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneHost(b []byte) (rune, int) { return utf8.DecodeRune(b) }

// sdata is the result of unsafe.SliceData and unsafe.StringData.
type sdata struct{ s Slice }

type binfn func(e *Engine, x, y Value) Value

func binop(o token.Token, t, yt types.Type) binfn {
	k, w, signed := basicInfo(t)
	switch o {
	case token.EQL:
		return func(e *Engine, x, y Value) Value { return e.equal(t, x, y) }
	case token.NEQ:
		return func(e *Engine, x, y Value) Value { return abool(boolBit(e.equal(t, x, y)).Not()) }
	case token.LSS:
		return func(e *Engine, x, y Value) Value { return abool(e.less(k, w, signed, x, y)) }
	case token.GTR:
		return func(e *Engine, x, y Value) Value { return abool(e.less(k, w, signed, y, x)) }
	case token.LEQ:
		if k == kFloat {
			return func(e *Engine, x, y Value) Value { return abool(e.dom.fcmp("fle", x, y, w)) }
		}
		return func(e *Engine, x, y Value) Value { return abool(e.less(k, w, signed, y, x).Not()) }
	case token.GEQ:
		if k == kFloat {
			return func(e *Engine, x, y Value) Value { return abool(e.dom.fcmp("fle", y, x, w)) }
		}
		return func(e *Engine, x, y Value) Value { return abool(e.less(k, w, signed, x, y).Not()) }
	}
	switch k {
	case kInt:
		switch o {
		case token.ADD:
			return func(e *Engine, x, y Value) Value {
				if a, ok := x.(uint64); ok {
					if b, ok := y.(uint64); ok {
						return (a + b) & mask(w)
					}
				}
				return e.dom.arith("add", x, y, w)
			}
		case token.SUB:
			return func(e *Engine, x, y Value) Value { return e.dom.arith("sub", x, y, w) }
		case token.MUL:
			return func(e *Engine, x, y Value) Value { return e.dom.arith("mul", x, y, w) }
		case token.QUO, token.REM:
			name := "udiv"
			switch {
			case o == token.QUO && signed:
				name = "sdiv"
			case o == token.REM && signed:
				name = "srem"
			case o == token.REM:
				name = "urem"
			}
			return func(e *Engine, x, y Value) Value {
				if e.decide(e.dom.eq(y, uint64(0), w)) {
					e.rtPanic("integer divide by zero")
				}
				return e.dom.arith(name, x, e.dom.normVal(y), w)
			}
		case token.AND:
			return func(e *Engine, x, y Value) Value { return e.dom.bitwise("and", x, y, w) }
		case token.OR:
			return func(e *Engine, x, y Value) Value { return e.dom.bitwise("or", x, y, w) }
		case token.XOR:
			return func(e *Engine, x, y Value) Value { return e.dom.bitwise("xor", x, y, w) }
		case token.AND_NOT:
			return func(e *Engine, x, y Value) Value { return e.dom.bitwise("andnot", x, y, w) }
		case token.SHL, token.SHR:
			_, yw, ys := basicInfo(yt)
			name := "shl"
			if o == token.SHR {
				name = "ushr"
				if signed {
					name = "sshr"
				}
			}
			return func(e *Engine, x, y Value) Value {
				y = e.dom.normVal(y)
				if ys {
					if e.decide(lift(y, yw).b[yw-1]) {
						e.rtPanic("negative shift amount")
					}
					y = e.dom.normVal(y)
				}
				y64 := e.dom.resize(y, yw, 64, false)
				return e.dom.arith(name, x, y64, w)
			}
		}
	case kFloat:
		name := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[o]
		return func(e *Engine, x, y Value) Value { return e.dom.farith(name, x, y, w) }
	case kComplex:
		return func(e *Engine, x, y Value) Value {
			a, b := realImag(x)
			c, d := realImag(y)
			switch o {
			case token.ADD:
				return mkComplex(e.dom.farith("fadd", a, c, w/2), e.dom.farith("fadd", b, d, w/2))
			case token.SUB:
				return mkComplex(e.dom.farith("fsub", a, c, w/2), e.dom.farith("fsub", b, d, w/2))
			}
			e.unsupported("complex %s", o)
			return nil
		}
	case kString:
		if o == token.ADD {
			return func(e *Engine, x, y Value) Value { return concat(x, y) }
		}
	}
	return func(e *Engine, x, y Value) Value {
		e.unsupported("binary %s on %s", o, t)
		return nil
	}
}

func concat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	a, ok1 := strBytes(x)
	b, ok2 := strBytes(y)
	if ok1 && ok2 {
		return strFromBytes(append(append([]Value(nil), a...), b...))
	}
	return &OStr{descStr(x) + descStr(y)}
}

func descStr(x Value) string {
	switch x := x.(type) {
	case string:
		return x
	case *OStr:
		return x.desc
	}
	return "?"
}

func (e *Engine) less(k vkind, w int, signed bool, x, y Value) Bit {
	switch k {
	case kInt:
		if a, ok := x.(uint64); ok {
			if b, ok := y.(uint64); ok {
				if signed {
					return Bit(b2u(sext(a, w) < sext(b, w)))
				}
				return Bit(b2u(a < b))
			}
		}
		return e.dom.lt(x, y, w, signed)
	case kFloat:
		return e.dom.fcmp("flt", x, y, w)
	case kString:
		a, ok1 := x.(string)
		b, ok2 := y.(string)
		if ok1 && ok2 {
			return Bit(b2u(a < b))
		}
		return e.dom.TermBit(e.dom.Term("strlt", 1, x, y), 0)
	}
	e.unsupported("ordering on kind %d", k)
	return 0
}

// equal compares two values of static type t (Go ==).
func (e *Engine) equal(t types.Type, x, y Value) Value {
	if a, ok := x.(uint64); ok {
		if b, ok := y.(uint64); ok {
			return a == b
		}
	}
	k, w, _ := basicInfo(t)
	switch k {
	case kBool:
		return abool(e.dom.Xor(boolBit(x), boolBit(y)).Not())
	case kInt:
		return abool(e.dom.eq(x, y, w))
	case kFloat:
		return abool(e.dom.fcmp("feq", x, y, w))
	case kComplex:
		a, b := realImag(x)
		c, d := realImag(y)
		return abool(e.dom.And(e.dom.fcmp("feq", a, c, w/2), e.dom.fcmp("feq", b, d, w/2)))
	case kString:
		a, ok1 := x.(string)
		b, ok2 := y.(string)
		if ok1 && ok2 {
			return a == b
		}
		p, ok1 := strBytes(x)
		q, ok2 := strBytes(y)
		if !ok1 || !ok2 {
			if x == y {
				return true
			}
			// opaque texts (messages) are never branched on meaningfully;
			// comparing one with the empty string is.
			if y == Value("") || x == Value("") {
				return false
			}
			e.unsupported("comparison of opaque strings")
		}
		if len(p) != len(q) {
			return false
		}
		r := bTrue
		for i := range p {
			r = e.dom.And(r, e.dom.eq(p[i], q[i], 8))
		}
		return abool(r)
	case kPtr, kUnsafe:
		return x.(*Value) == y.(*Value)
	case kMap:
		return x.(*Map) == y.(*Map)
	case kSlice:
		// only comparable with nil
		return isNil(x) && isNil(y)
	case kFunc:
		return isNil(x) && isNil(y)
	case kChan:
		return x == y
	case kIface:
		var a, b Iface
		if i, ok := x.(Iface); ok {
			a = i
		} else {
			e.unsupported("mixed comparison")
		}
		if i, ok := y.(Iface); ok {
			b = i
		} else {
			e.unsupported("mixed comparison")
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		if ra, ok := a.V.(RT); ok {
			return types.Identical(ra.T, b.V.(RT).T)
		}
		if !types.Comparable(a.T) {
			e.rtPanic("comparing uncomparable type " + a.T.String())
		}
		return e.equal(a.T, a.V, b.V)
	case kStruct:
		if a, ok := x.(RV); ok {
			return rvIdentical(a, y.(RV))
		}
		st := t.Underlying().(*types.Struct)
		r := bTrue
		a, b := x.(Struct), y.(Struct)
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = e.dom.And(r, boolBit(e.equal(st.Field(i).Type(), a[i], b[i])))
		}
		return abool(r)
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		r := bTrue
		a, b := x.(Array), y.(Array)
		for i := range a {
			r = e.dom.And(r, boolBit(e.equal(et, a[i], b[i])))
		}
		return abool(r)
	}
	panic(fmt.Sprintf("equal %s %T %T", t, x, y))
}

func rvIdentical(a, b RV) bool {
	if (a.T == nil) != (b.T == nil) {
		return false
	}
	if a.T == nil {
		return true
	}
	if !types.Identical(a.T, b.T) || a.addr != b.addr || a.ro != b.ro {
		return false
	}
	if a.addr {
		return a.P == b.P
	}
	if a.P == b.P {
		return true
	}
	switch x := (*a.P).(type) {
	case *Value:
		y, ok := (*b.P).(*Value)
		return ok && x == y
	case *Map:
		y, ok := (*b.P).(*Map)
		return ok && x == y
	}
	return false
}

func (e *Engine) convert(x Value, from, to types.Type) Value {
	fk, fw, fs := basicInfo(from)
	tk, tw, ts := basicInfo(to)
	switch {
	case fk == kInt && tk == kInt:
		if c, ok := x.(uint64); ok && tw <= fw {
			return c & mask(tw)
		}
		return e.dom.resize(x, fw, tw, fs)
	case fk == kInt && tk == kFloat:
		return e.dom.i2f(x, fw, fs, tw)
	case fk == kFloat && tk == kInt:
		return e.dom.f2i(x, fw, tw, ts)
	case fk == kFloat && tk == kFloat:
		return e.dom.floatConv(x, fw, tw)
	case fk == kComplex && tk == kComplex:
		a, b := realImag(x)
		return mkComplex(e.dom.floatConv(a, fw/2, tw/2), e.dom.floatConv(b, fw/2, tw/2))
	case fk == kString && tk == kString:
		return x
	case fk == kInt && tk == kString:
		return e.runeString(e.dom.resize(x, fw, 32, fs))
	case fk == kString && tk == kSlice:
		bs, ok := strBytes(x)
		if !ok {
			e.unsupported("bytes of opaque string")
		}
		if _, w, _ := basicInfo(to.Underlying().(*types.Slice).Elem()); w == 32 {
			r := Slice{}
			for i := 0; i < len(bs); {
				c, n := e.decodeRune(bs[i:])
				r = append(r, c)
				i += n
			}
			return r
		}
		return append(Slice{}, bs...)
	case fk == kSlice && tk == kString:
		s := x.(Slice)
		if _, w, _ := basicInfo(from.Underlying().(*types.Slice).Elem()); w == 32 {
			var r Value = ""
			for _, c := range s {
				r = concat(r, e.runeString(c))
			}
			return r
		}
		if e.onAccess != nil {
			for i := range s {
				e.onAccess(&s[i], false)
			}
		}
		return strFromBytes(s)
	case tk == kUnsafe && fk == kPtr, fk == kUnsafe && tk == kPtr, fk == kPtr && tk == kPtr:
		return x
	}
	if fk == tk {
		return x
	}
	e.unsupported("conversion %s to %s", from, to)
	return nil
}

// runeString encodes a rune as UTF-8.
func (e *Engine) runeString(r Value) Value {
	r = e.dom.normVal(r)
	if c, ok := r.(uint64); ok {
		return string(rune(int32(c)))
	}
	bv := r.(*BV)
	hi := bFalse
	for i := 7; i < 32; i++ {
		hi = e.dom.Or(hi, bv.b[i])
	}
	if !e.decide(hi) {
		return strFromBytes([]Value{e.dom.resize(e.dom.normVal(r), 32, 8, false)})
	}
	return string(rune(int32(e.concretize(r))))
}

func (e *Engine) appendSlice(s Slice, et types.Type, vs []Value) Slice {
	if len(vs) == 0 {
		return s
	}
	n := len(s) + len(vs)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range vs {
			p := &r[len(s)+i]
			e.setRaw(p, copyVal(v))
		}
		return r
	}
	c := 2 * cap(s)
	if c < n {
		c = n
	}
	if c < 4 {
		c = 4
	}
	if c > 1<<20 {
		panic(abort{"budget", "append grows without bound"})
	}
	r := make(Slice, n, c)
	for i := range s {
		if e.onAccess != nil {
			e.access(&s[i])
		}
		r[i] = copyVal(s[i])
	}
	for i, v := range vs {
		r[len(s)+i] = copyVal(v)
	}
	full := r[:c]
	var z Value
	for i := n; i < c; i++ {
		if z == nil {
			z = zero(et)
		}
		full[i] = copyVal(z)
	}
	return r
}

// setRaw replaces a whole cell.
func (e *Engine) setRaw(p *Value, v Value) {
	switch (*p).(type) {
	case Struct, Array:
		e.store(p, v)
		return
	}
	e.set(p, v)
}

func (e *Engine) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		var vs []Value
		switch y := args[1].(type) {
		case Slice:
			vs = make([]Value, len(y))
			for i := range y {
				vs[i] = e.load(&y[i])
			}
		default:
			bs, ok := strBytes(y)
			if !ok {
				e.unsupported("append of opaque string")
			}
			vs = bs
		}
		return e.appendSlice(args[0].(Slice), et, vs)
	case "copy":
		dst := args[0].(Slice)
		var vs []Value
		switch y := args[1].(type) {
		case Slice:
			n := len(y)
			if len(dst) < n {
				n = len(dst)
			}
			vs = make([]Value, n)
			for i := range vs {
				vs[i] = e.load(&y[i])
			}
		default:
			bs, ok := strBytes(y)
			if !ok {
				e.unsupported("copy of opaque string")
			}
			vs = bs
		}
		n := len(vs)
		if len(dst) < n {
			n = len(dst)
		}
		for i := 0; i < n; i++ {
			e.store(&dst[i], vs[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			if e.onAccess != nil {
				e.mapAccess(x, false)
			}
			return uint64(len(x.m))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		case *OStr:
			e.unsupported("length of opaque string")
		}
		bs, _ := strBytes(args[0])
		return uint64(len(bs))
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "delete":
		m := args[0].(*Map)
		if m == nil {
			return nil
		}
		ks, ok := e.mapFind(m, cc.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
		if ok {
			e.mapDelete(m, ks)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, k := range append([]string(nil), x.keys...) {
					e.mapDelete(x, k)
				}
			}
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				e.store(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		if v.T == nil {
			panic(targetPanic{e.prog.runtimeError("panic called with nil argument")})
		}
		panic(targetPanic{v})
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.pv.(targetPanic).v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "real":
		re, _ := realImag(args[0])
		return re
	case "imag":
		_, im := realImag(args[0])
		return im
	case "complex":
		return mkComplex(args[0], args[1])
	case "min", "max":
		k, w, signed := basicInfo(cc.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			var l Bit
			if b.Name() == "min" {
				l = e.less(k, w, signed, a, r)
			} else {
				l = e.less(k, w, signed, r, a)
			}
			if e.decide(l) {
				r = a
			}
		}
		return r
	case "SliceData":
		return sdata{args[0].(Slice)}
	case "StringData":
		bs, ok := strBytes(args[0])
		if !ok {
			e.unsupported("data of opaque string")
		}
		return sdata{Slice(bs)}
	case "String":
		n := e.concretize(args[1])
		if n == 0 {
			return ""
		}
		if sd, ok := args[0].(sdata); ok {
			return strFromBytes(sd.s[:n])
		}
	case "Slice":
		n := e.concretize(args[1])
		if sd, ok := args[0].(sdata); ok {
			return append(Slice{}, sd.s[:n]...)
		}
	case "ssa:wrapnilchk":
		if args[0].(*Value) == nil {
			e.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	e.unsupported("builtin %s", b.Name())
	return nil
}
