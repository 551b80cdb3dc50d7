package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
)

// A model of package reflect over go/types.

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

var sizes = types.SizesFor("gc", "amd64")

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (e *Engine) valueError(method string, k reflect.Kind) {
	ve := types.NewPointer(e.prog.pkgs["reflect"].Type("ValueError").Type())
	panic(targetPanic{Iface{ve, newCell(Struct{method, uint64(k)})}})
}

func toRT(v Value) types.Type {
	i := v.(Iface)
	if i.T == nil {
		return nil
	}
	return i.V.(RT).T
}

func (e *Engine) mustRT(v Value) types.Type {
	t := toRT(v)
	if t == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	return t
}

func (e *Engine) structField(st *types.Struct, i int, index []int) Value {
	sf := e.prog.pkgs["reflect"].Type("StructField").Type().Underlying().(*types.Struct)
	f := st.Field(i)
	r := make(Struct, sf.NumFields())
	for j := range r {
		var v Value
		switch sf.Field(j).Name() {
		case "Name":
			v = f.Name()
		case "PkgPath":
			v = ""
			if !f.Exported() {
				v = "p"
				if f.Pkg() != nil {
					v = f.Pkg().Path()
				}
			}
		case "Type":
			v = e.prog.reflectType(f.Type())
		case "Tag":
			v = st.Tag(i)
		case "Offset":
			var fs []*types.Var
			for k := 0; k < st.NumFields(); k++ {
				fs = append(fs, st.Field(k))
			}
			v = uint64(0)
			if !recursiveSize(st) {
				v = uint64(sizes.Offsetsof(fs)[i])
			}
		case "Index":
			var s Slice
			for _, x := range index {
				s = append(s, uint64(x))
			}
			v = s
		case "Anonymous":
			v = f.Embedded()
		default:
			v = zero(sf.Field(j).Type())
		}
		r[j] = v
	}
	return r
}

func recursiveSize(types.Type) bool { return false }

// findField implements Go's depth-first-by-level promoted field lookup the way
// reflect does (package paths are ignored).
func findField(t types.Type, name string) ([]int, bool) {
	type ent struct {
		t   types.Type
		idx []int
	}
	cur := []ent{{t, nil}}
	seen := map[types.Type]bool{}
	for len(cur) > 0 {
		var next []ent
		var hits [][]int
		for _, c := range cur {
			if seen[c.t] {
				continue
			}
			seen[c.t] = true
			st, ok := c.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				idx := append(append([]int(nil), c.idx...), i)
				if f.Name() == name {
					hits = append(hits, idx)
					continue
				}
				if f.Embedded() {
					ft := types.Unalias(f.Type())
					if p, ok := ft.(*types.Pointer); ok {
						ft = p.Elem()
					}
					next = append(next, ent{ft, idx})
				}
			}
		}
		if len(hits) == 1 {
			return hits[0], true
		}
		if len(hits) > 1 {
			return nil, false
		}
		cur = next
	}
	return nil, false
}

type rtMethod func(e *Engine, fr *frame, t types.Type, args []Value) Value

var rtypeMethods map[string]rtMethod

func init() {
	rtypeMethods = map[string]rtMethod{
		"Kind":   func(e *Engine, fr *frame, t types.Type, a []Value) Value { return uint64(rkind(t)) },
		"String": func(e *Engine, fr *frame, t types.Type, a []Value) Value { return typeString(t) },
		"Name": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			switch t := types.Unalias(t).(type) {
			case *types.Named:
				return t.Obj().Name()
			case *types.Basic:
				return t.Name()
			}
			return ""
		},
		"PkgPath": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		},
		"Size":       func(e *Engine, fr *frame, t types.Type, a []Value) Value { return uint64(sizes.Sizeof(t)) },
		"Align":      func(e *Engine, fr *frame, t types.Type, a []Value) Value { return uint64(sizes.Alignof(t)) },
		"FieldAlign": func(e *Engine, fr *frame, t types.Type, a []Value) Value { return uint64(sizes.Alignof(t)) },
		"Bits": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			k := rkind(t)
			if k < reflect.Int || k > reflect.Complex128 {
				e.strPanic("reflect: Bits of non-arithmetic Type " + typeString(t))
			}
			return uint64(sizes.Sizeof(t) * 8)
		},
		"Elem": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			el := elemType(t)
			if el == nil {
				e.strPanic("reflect: Elem of invalid type " + typeString(t))
			}
			return e.prog.reflectType(el)
		},
		"Key": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				e.strPanic("reflect: Key of non-map type " + typeString(t))
			}
			return e.prog.reflectType(m.Key())
		},
		"Len": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			m, ok := t.Underlying().(*types.Array)
			if !ok {
				e.strPanic("reflect: Len of non-array type " + typeString(t))
			}
			return uint64(m.Len())
		},
		"NumField": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			m, ok := t.Underlying().(*types.Struct)
			if !ok {
				e.strPanic("reflect: NumField of non-struct type " + typeString(t))
			}
			return uint64(m.NumFields())
		},
		"Field": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			m, ok := t.Underlying().(*types.Struct)
			if !ok {
				e.strPanic("reflect: Field of non-struct type " + typeString(t))
			}
			i := int(e.concretize(a[0]))
			if i < 0 || i >= m.NumFields() {
				e.strPanic("reflect: Field index out of bounds")
			}
			return e.structField(m, i, []int{i})
		},
		"FieldByName": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			name, ok := a[0].(string)
			if !ok {
				e.unsupported("field lookup by abstract name")
			}
			if _, ok := t.Underlying().(*types.Struct); !ok {
				e.strPanic("reflect: FieldByName of non-struct type " + typeString(t))
			}
			sft := e.prog.pkgs["reflect"].Type("StructField").Type()
			idx, ok := findField(t, name)
			if !ok {
				return Tuple{zero(sft), false}
			}
			cur := t
			for _, i := range idx[:len(idx)-1] {
				cur = cur.Underlying().(*types.Struct).Field(i).Type()
				if p, ok := types.Unalias(cur).(*types.Pointer); ok {
					cur = p.Elem()
				}
			}
			return Tuple{e.structField(cur.Underlying().(*types.Struct), idx[len(idx)-1], idx), true}
		},
		"NumIn": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			return uint64(e.sig(t, "NumIn").Params().Len())
		},
		"NumOut": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			return uint64(e.sig(t, "NumOut").Results().Len())
		},
		"IsVariadic": func(e *Engine, fr *frame, t types.Type, a []Value) Value { return e.sig(t, "IsVariadic").Variadic() },
		"In": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			s := e.sig(t, "In")
			i := e.index(a[0], types.Typ[types.Int], s.Params().Len())
			return e.prog.reflectType(s.Params().At(i).Type())
		},
		"Out": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			s := e.sig(t, "Out")
			i := e.index(a[0], types.Typ[types.Int], s.Results().Len())
			return e.prog.reflectType(s.Results().At(i).Type())
		},
		"Implements": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			u := toRT(a[0])
			if u == nil {
				e.strPanic("reflect: nil type passed to Type.Implements")
			}
			it, ok := u.Underlying().(*types.Interface)
			if !ok {
				e.strPanic("reflect: non-interface type passed to Type.Implements")
			}
			return e.implements(t, it)
		},
		"AssignableTo": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			u := toRT(a[0])
			if u == nil {
				e.strPanic("reflect: nil type passed to Type.AssignableTo")
			}
			return types.AssignableTo(t, u)
		},
		"ConvertibleTo": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			u := toRT(a[0])
			if u == nil {
				e.strPanic("reflect: nil type passed to Type.ConvertibleTo")
			}
			return types.ConvertibleTo(t, u)
		},
		"Comparable": func(e *Engine, fr *frame, t types.Type, a []Value) Value { return types.Comparable(t) },
		"NumMethod": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			ms := e.msets.MethodSet(t)
			n := 0
			for i := 0; i < ms.Len(); i++ {
				if token.IsExported(ms.At(i).Obj().Name()) {
					n++
				}
			}
			return uint64(n)
		},
		"MethodByName": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			ms := e.msets.MethodSet(t)
			name, _ := a[0].(string)
			mt := e.prog.pkgs["reflect"].Type("Method").Type()
			found := false
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name && token.IsExported(name) {
					found = true
				}
			}
			return Tuple{zero(mt), found}
		},
		"OverflowInt": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			return e.overflow(t, a[0], true)
		},
		"OverflowUint": func(e *Engine, fr *frame, t types.Type, a []Value) Value {
			return e.overflow(t, a[0], false)
		},
	}
}

func (e *Engine) sig(t types.Type, m string) *types.Signature {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		e.strPanic("reflect: " + m + " of non-func type " + typeString(t))
	}
	return s
}

func (e *Engine) overflow(t types.Type, x Value, signed bool) Value {
	_, w, _ := basicInfo(t)
	tr := e.dom.resize(e.dom.resize(x, 64, w, false), w, 64, signed)
	return abool(boolBit(e.equal(types.Typ[types.Uint64], tr, x)).Not())
}

// ---- reflect.Value

func (e *Engine) get(v RV) Value { return e.load(v.P) }

func roOf(f uint8) uint8 {
	if f != 0 {
		return 1
	}
	return 0
}

func (e *Engine) mkRV(t types.Type, v Value, ro uint8) RV {
	return RV{T: types.Unalias(t), P: newCell(v), ro: ro}
}

func (e *Engine) valueOf(i Iface) RV {
	if i.T == nil {
		return RV{}
	}
	return e.mkRV(i.T, i.V, 0)
}

func (e *Engine) kind(v RV) reflect.Kind {
	if v.T == nil {
		return reflect.Invalid
	}
	return rkind(v.T)
}

func (e *Engine) mustExported(v RV, m string) {
	if v.T == nil {
		e.valueError(m, 0)
	}
	if v.ro != 0 {
		e.strPanic("reflect: " + m + " using value obtained using unexported field")
	}
}

func (e *Engine) mustAssignable(v RV, m string) {
	e.mustExported(v, m)
	if !v.addr {
		e.strPanic("reflect: " + m + " using unaddressable value")
	}
}

func (e *Engine) rvInterface(v RV) Iface {
	if v.T == nil {
		e.valueError("reflect.Value.Interface", 0)
	}
	if v.ro != 0 {
		e.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	return e.packIface(v)
}

func (e *Engine) packIface(v RV) Iface {
	x := e.get(v)
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return x.(Iface)
	}
	return Iface{v.T, x}
}

func (e *Engine) rvElem(v RV) RV {
	switch e.kind(v) {
	case reflect.Interface:
		i := e.get(v).(Iface)
		if i.T == nil {
			return RV{}
		}
		return e.mkRV(i.T, i.V, roOf(v.ro))
	case reflect.Ptr:
		p := e.get(v).(*Value)
		if p == nil {
			return RV{}
		}
		return RV{T: types.Unalias(elemType(v.T)), P: p, addr: true, ro: v.ro}
	}
	e.valueError("reflect.Value.Elem", e.kind(v))
	return RV{}
}

func (e *Engine) rvField(v RV, i int) RV {
	st, ok := v.typeUnder().(*types.Struct)
	if !ok {
		e.valueError("reflect.Value.Field", e.kind(v))
	}
	if i < 0 || i >= st.NumFields() {
		e.strPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	ro := v.ro & 1
	if !f.Exported() {
		if f.Embedded() {
			ro |= 2
		} else {
			ro |= 1
		}
	}
	s, ok := (*v.P).(Struct)
	if !ok {
		e.unsupported("field of opaque %s", v.T)
	}
	return RV{T: types.Unalias(f.Type()), P: &s[i], addr: v.addr, ro: ro}
}

func (v RV) typeUnder() types.Type {
	if v.T == nil {
		return nil
	}
	return v.T.Underlying()
}

func (e *Engine) rvIndex(v RV, iv Value) RV {
	switch e.kind(v) {
	case reflect.Array:
		a := (*v.P).(Array)
		i := e.rindex(iv, len(a), "reflect: array index out of range")
		return RV{T: types.Unalias(elemType(v.T)), P: &a[i], addr: v.addr, ro: roOf(v.ro)}
	case reflect.Slice:
		s := e.get(v).(Slice)
		i := e.rindex(iv, len(s), "reflect: slice index out of range")
		return RV{T: types.Unalias(elemType(v.T)), P: &s[i], addr: true, ro: roOf(v.ro)}
	case reflect.String:
		bs, ok := strBytes(e.get(v))
		if !ok {
			e.unsupported("index of opaque string")
		}
		i := e.rindex(iv, len(bs), "reflect: string index out of range")
		return e.mkRV(types.Typ[types.Uint8], bs[i], roOf(v.ro))
	}
	e.valueError("reflect.Value.Index", e.kind(v))
	return RV{}
}

func (e *Engine) rindex(iv Value, n int, msg string) int {
	iv = e.dom.normVal(iv)
	c, ok := iv.(uint64)
	if !ok {
		if !e.decide(e.dom.lt(iv, uint64(n), 64, false)) {
			e.strPanic(msg)
		}
		for i := 0; i < n-1; i++ {
			if e.decide(e.dom.eq(iv, uint64(i), 64)) {
				return i
			}
		}
		return n - 1
	}
	if int64(c) < 0 || int64(c) >= int64(n) {
		e.strPanic(msg)
	}
	return int(c)
}

func (e *Engine) rvLen(v RV) Value {
	switch e.kind(v) {
	case reflect.Slice:
		return uint64(len(e.get(v).(Slice)))
	case reflect.Array:
		return uint64(v.typeUnder().(*types.Array).Len())
	case reflect.String:
		bs, ok := strBytes(e.get(v))
		if !ok {
			e.unsupported("length of opaque string")
		}
		return uint64(len(bs))
	case reflect.Map:
		m := e.get(v).(*Map)
		if m == nil {
			return uint64(0)
		}
		return uint64(len(m.m))
	case reflect.Ptr:
		if a, ok := elemType(v.T).Underlying().(*types.Array); ok {
			return uint64(a.Len())
		}
		e.strPanic("reflect: call of reflect.Value.Len on ptr to non-array Value")
	}
	e.valueError("reflect.Value.Len", e.kind(v))
	return nil
}

// assignTo returns x as a value of type dst.
func (e *Engine) assignTo(x RV, dst types.Type, ctx string) Value {
	if it, ok := dst.Underlying().(*types.Interface); ok {
		if e.kind(x) == reflect.Interface {
			i := e.get(x).(Iface)
			if i.T == nil {
				return Iface{}
			}
			if e.implements(i.T, it) {
				return i
			}
		} else if e.implements(x.T, it) {
			return Iface{x.T, e.get(x)}
		}
	} else if types.AssignableTo(x.T, dst) {
		return e.get(x)
	}
	e.strPanic(ctx + ": value of type " + typeString(x.T) + " is not assignable to type " + typeString(dst))
	return nil
}

func (e *Engine) rvSet(v RV, x Value) { e.store(v.P, x) }

func (e *Engine) fieldByName(v RV, name string) RV {
	if e.kind(v) != reflect.Struct {
		e.valueError("reflect.Value.FieldByName", e.kind(v))
	}
	idx, ok := findField(v.T, name)
	if !ok {
		return RV{}
	}
	for i, x := range idx {
		if i > 0 && e.kind(v) == reflect.Ptr {
			if e.get(v).(*Value) == nil {
				e.strPanic("reflect: indirection through nil pointer to embedded struct")
			}
			v = e.rvElem(v)
		}
		v = e.rvField(v, x)
	}
	return v
}

func (e *Engine) rvConvert(v RV, t types.Type) RV {
	if v.ro != 0 {
		// conversion keeps the read-only flag
	}
	if !types.ConvertibleTo(v.T, t) {
		e.strPanic("reflect.Value.Convert: value of type " + typeString(v.T) + " cannot be converted to type " + typeString(t))
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		return e.mkRV(t, e.packIface(v), roOf(v.ro))
	}
	return e.mkRV(t, e.convert(e.get(v), v.T, t), roOf(v.ro))
}

func (e *Engine) rvCall(fr *frame, v RV, in Slice) Value {
	if e.kind(v) != reflect.Func {
		e.valueError("reflect.Value.Call", e.kind(v))
	}
	e.mustExported(v, "reflect.Value.Call")
	fn := e.get(v)
	if isNil(fn) {
		e.strPanic("reflect.Value.Call: call of nil function")
	}
	sig := v.typeUnder().(*types.Signature)
	n := sig.Params().Len()
	if sig.Variadic() {
		if len(in) < n-1 {
			e.strPanic("reflect: Call with too few input arguments")
		}
	} else {
		if len(in) < n {
			e.strPanic("reflect: Call with too few input arguments")
		}
		if len(in) > n {
			e.strPanic("reflect: Call with too many input arguments")
		}
	}
	var args []Value
	fixed := n
	if sig.Variadic() {
		fixed = n - 1
	}
	for i := 0; i < fixed; i++ {
		x := in[i].(RV)
		if x.T == nil {
			e.strPanic("reflect: Call using zero Value argument")
		}
		e.mustExported(x, "reflect.Value.Call")
		pt := sig.Params().At(i).Type()
		if !types.AssignableTo(x.T, pt) {
			e.strPanic("reflect: Call using " + typeString(x.T) + " as type " + typeString(pt))
		}
		args = append(args, e.assignTo(x, pt, "reflect.Value.Call"))
	}
	if sig.Variadic() {
		st := sig.Params().At(n - 1).Type().Underlying().(*types.Slice)
		s := Slice{}
		for _, y := range in[fixed:] {
			x := y.(RV)
			if x.T == nil {
				e.strPanic("reflect: Call using zero Value argument")
			}
			if !types.AssignableTo(x.T, st.Elem()) {
				e.strPanic("reflect: cannot use " + typeString(x.T) + " as type " + typeString(st.Elem()) + " in Call")
			}
			s = append(s, e.assignTo(x, st.Elem(), "reflect.Value.Call"))
		}
		args = append(args, s)
	}
	r := e.callValue(fr, fn, args)
	switch sig.Results().Len() {
	case 0:
		return Slice{}
	case 1:
		return Slice{e.mkRV(sig.Results().At(0).Type(), r, 0)}
	}
	out := Slice{}
	for i, x := range r.(Tuple) {
		out = append(out, e.mkRV(sig.Results().At(i).Type(), x, 0))
	}
	return out
}

// deepEqual models reflect.DeepEqual on two values of the same type.
func (e *Engine) deepEqual(t types.Type, x, y Value, seen map[[2]interface{}]bool) Bit {
	switch rkind(t) {
	case reflect.Ptr:
		p, q := x.(*Value), y.(*Value)
		if p == q {
			return bTrue
		}
		if p == nil || q == nil {
			return bFalse
		}
		k := [2]interface{}{p, q}
		if seen[k] {
			return bTrue
		}
		seen[k] = true
		return e.deepEqual(elemType(t), e.load(p), e.load(q), seen)
	case reflect.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return bFalse
		}
		if len(a) > 0 && &a[0] == &b[0] {
			return bTrue
		}
		r := bTrue
		for i := range a {
			r = e.dom.And(r, e.deepEqual(elemType(t), e.load(&a[i]), e.load(&b[i]), seen))
			if r == bFalse {
				return r
			}
		}
		return r
	case reflect.Array:
		a, b := x.(Array), y.(Array)
		r := bTrue
		for i := range a {
			r = e.dom.And(r, e.deepEqual(elemType(t), a[i], b[i], seen))
			if r == bFalse {
				return r
			}
		}
		return r
	case reflect.Struct:
		if _, ok := x.(RV); ok {
			if rvIdentical(x.(RV), y.(RV)) {
				return bTrue
			}
			return bFalse
		}
		a, b := x.(Struct), y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := bTrue
		for i := range a {
			r = e.dom.And(r, e.deepEqual(st.Field(i).Type(), a[i], b[i], seen))
			if r == bFalse {
				return r
			}
		}
		return r
	case reflect.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return bFalse
		}
		if a == b {
			return bTrue
		}
		if e.onAccess != nil {
			e.mapAccess(a, false)
			e.mapAccess(b, false)
		}
		if len(a.m) != len(b.m) {
			return bFalse
		}
		k := [2]interface{}{a, b}
		if seen[k] {
			return bTrue
		}
		seen[k] = true
		r := bTrue
		for _, ks := range a.keys {
			o, ok := b.m[ks]
			if !ok {
				return bFalse
			}
			r = e.dom.And(r, e.deepEqual(elemType(t), a.m[ks].v, o.v, seen))
			if r == bFalse {
				return r
			}
		}
		return r
	case reflect.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			if a.T == nil && b.T == nil {
				return bTrue
			}
			return bFalse
		}
		if !types.Identical(a.T, b.T) {
			return bFalse
		}
		if ra, ok := a.V.(RT); ok {
			if types.Identical(ra.T, b.V.(RT).T) {
				return bTrue
			}
			return bFalse
		}
		return e.deepEqual(a.T, a.V, b.V, seen)
	case reflect.Func:
		if isNil(x) && isNil(y) {
			return bTrue
		}
		return bFalse
	}
	return boolBit(e.equal(t, x, y))
}

func asRV(v Value) RV { return v.(RV) }

func asName(e *Engine, v Value) string {
	s, ok := v.(string)
	if !ok {
		e.unsupported("abstract name")
	}
	return s
}

type nativeFn = func(e *Engine, fr *frame, a []Value) Value

func rvMethod(f func(e *Engine, fr *frame, v RV, a []Value) Value) nativeFn {
	return func(e *Engine, fr *frame, a []Value) Value { return f(e, fr, a[0].(RV), a[1:]) }
}

func registerReflect(n map[string]nativeFn) {
	m := func(name string, f func(e *Engine, fr *frame, v RV, a []Value) Value) {
		n["(reflect.Value)."+name] = rvMethod(f)
	}
	n["reflect.TypeOf"] = func(e *Engine, fr *frame, a []Value) Value { return e.prog.reflectType(a[0].(Iface).T) }
	n["reflect.ValueOf"] = func(e *Engine, fr *frame, a []Value) Value { return e.valueOf(a[0].(Iface)) }
	n["reflect.Zero"] = func(e *Engine, fr *frame, a []Value) Value {
		t := toRT(a[0])
		if t == nil {
			e.strPanic("reflect: Zero(nil)")
		}
		return e.mkRV(t, zero(t), 0)
	}
	n["reflect.New"] = func(e *Engine, fr *frame, a []Value) Value {
		t := toRT(a[0])
		if t == nil {
			e.strPanic("reflect: New(nil)")
		}
		return e.mkRV(types.NewPointer(t), newCell(zero(t)), 0)
	}
	n["reflect.NewAt"] = func(e *Engine, fr *frame, a []Value) Value { e.unsupported("reflect.NewAt"); return nil }
	n["reflect.Indirect"] = func(e *Engine, fr *frame, a []Value) Value {
		v := asRV(a[0])
		if e.kind(v) != reflect.Ptr {
			return v
		}
		return e.rvElem(v)
	}
	ptr := func(e *Engine, fr *frame, a []Value) Value {
		return e.prog.reflectType(types.NewPointer(e.mustRT(a[0])))
	}
	n["reflect.PtrTo"] = ptr
	n["reflect.PointerTo"] = ptr
	n["reflect.SliceOf"] = func(e *Engine, fr *frame, a []Value) Value {
		return e.prog.reflectType(types.NewSlice(e.mustRT(a[0])))
	}
	n["reflect.ArrayOf"] = func(e *Engine, fr *frame, a []Value) Value {
		l := int64(e.concretize(a[0]))
		if l < 0 {
			e.strPanic("reflect: negative length passed to ArrayOf")
		}
		return e.prog.reflectType(types.NewArray(e.mustRT(a[1]), l))
	}
	n["reflect.MapOf"] = func(e *Engine, fr *frame, a []Value) Value {
		k := e.mustRT(a[0])
		if !types.Comparable(k) {
			e.strPanic("reflect.MapOf: invalid key type " + typeString(k))
		}
		return e.prog.reflectType(types.NewMap(k, e.mustRT(a[1])))
	}
	n["reflect.FuncOf"] = func(e *Engine, fr *frame, a []Value) Value {
		mk := func(s Slice) *types.Tuple {
			var vs []*types.Var
			for _, x := range s {
				vs = append(vs, types.NewVar(token.NoPos, nil, "", e.mustRT(x)))
			}
			return types.NewTuple(vs...)
		}
		return e.prog.reflectType(types.NewSignatureType(nil, nil, nil, mk(a[0].(Slice)), mk(a[1].(Slice)), a[2].(bool)))
	}
	n["reflect.StructOf"] = func(e *Engine, fr *frame, a []Value) Value {
		sf := e.prog.pkgs["reflect"].Type("StructField").Type().Underlying().(*types.Struct)
		get := func(s Struct, name string) Value {
			for i := 0; i < sf.NumFields(); i++ {
				if sf.Field(i).Name() == name {
					return s[i]
				}
			}
			return nil
		}
		var fs []*types.Var
		var tags []string
		for _, x := range a[0].(Slice) {
			s := x.(Struct)
			name := get(s, "Name").(string)
			if name == "" {
				e.strPanic("reflect.StructOf: field has no name")
			}
			if !token.IsExported(name) && get(s, "PkgPath") == Value("") {
				e.strPanic("reflect.StructOf: field \"" + name + "\" is unexported but missing PkgPath")
			}
			t := toRT(get(s, "Type"))
			if t == nil {
				e.strPanic("reflect.StructOf: field has no type")
			}
			fs = append(fs, types.NewField(token.NoPos, nil, name, t, get(s, "Anonymous").(bool)))
			tag, _ := get(s, "Tag").(string)
			tags = append(tags, tag)
		}
		return e.prog.reflectType(types.NewStruct(fs, tags))
	}
	n["reflect.MakeSlice"] = func(e *Engine, fr *frame, a []Value) Value {
		t := e.mustRT(a[0])
		if rkind(t) != reflect.Slice {
			e.strPanic("reflect.MakeSlice of non-slice type")
		}
		l, c := e.bounded(a[1], e.allocLimit()), e.bounded(a[2], e.allocLimit())
		if l < 0 {
			e.strPanic("reflect.MakeSlice: negative len")
		}
		if c < 0 {
			e.strPanic("reflect.MakeSlice: negative cap")
		}
		if l > c {
			e.strPanic("reflect.MakeSlice: len > cap")
		}
		return e.mkRV(t, e.makeSlice(elemType(t), l, c), 0)
	}
	mkmap := func(e *Engine, fr *frame, a []Value) Value { return e.mkRV(e.mustRT(a[0]), newMap(), 0) }
	n["reflect.MakeMap"] = mkmap
	n["reflect.MakeMapWithSize"] = mkmap
	n["reflect.Append"] = func(e *Engine, fr *frame, a []Value) Value {
		s := asRV(a[0])
		if e.kind(s) != reflect.Slice {
			e.valueError("reflect.Append", e.kind(s))
		}
		e.mustExported(s, "reflect.Append")
		var vs []Value
		for _, x := range a[1].(Slice) {
			vs = append(vs, e.assignTo(asRV(x), elemType(s.T), "reflect.Set"))
		}
		return e.mkRV(s.T, e.appendSlice(e.get(s).(Slice), elemType(s.T), vs), 0)
	}
	n["reflect.AppendSlice"] = func(e *Engine, fr *frame, a []Value) Value {
		s, t := asRV(a[0]), asRV(a[1])
		var vs []Value
		for _, x := range e.get(t).(Slice) {
			vs = append(vs, x)
		}
		return e.mkRV(s.T, e.appendSlice(e.get(s).(Slice), elemType(s.T), vs), 0)
	}
	n["reflect.Copy"] = func(e *Engine, fr *frame, a []Value) Value {
		cells := func(v RV) Slice {
			switch x := (*v.P).(type) {
			case Array:
				return Slice(x)
			case Slice:
				return x
			}
			bs, ok := strBytes(*v.P)
			if !ok {
				e.valueError("reflect.Copy", e.kind(v))
			}
			return Slice(bs)
		}
		dst, src := asRV(a[0]), asRV(a[1])
		if e.kind(dst) == reflect.Array {
			e.mustAssignable(dst, "reflect.Copy")
		}
		d, s := cells(dst), cells(src)
		cnt := len(d)
		if len(s) < cnt {
			cnt = len(s)
		}
		tmp := make([]Value, cnt)
		for i := range tmp {
			tmp[i] = e.load(&s[i])
		}
		for i := range tmp {
			e.store(&d[i], tmp[i])
		}
		return uint64(cnt)
	}
	n["reflect.DeepEqual"] = func(e *Engine, fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return abool(e.deepEqual(x.T, x.V, y.V, map[[2]interface{}]bool{}))
	}

	n["(reflect.Kind).String"] = func(e *Engine, fr *frame, a []Value) Value {
		k := e.concretize(a[0])
		if int(k) < len(kindNames) {
			return kindNames[k]
		}
		return fmt.Sprintf("kind%d", k)
	}
	n["(reflect.StructTag).Get"] = func(e *Engine, fr *frame, a []Value) Value {
		return reflect.StructTag(asName(e, a[0])).Get(asName(e, a[1]))
	}
	n["(reflect.StructTag).Lookup"] = func(e *Engine, fr *frame, a []Value) Value {
		v, ok := reflect.StructTag(asName(e, a[0])).Lookup(asName(e, a[1]))
		return Tuple{v, ok}
	}
	n["(reflect.StructField).IsExported"] = func(e *Engine, fr *frame, a []Value) Value {
		sf := e.prog.pkgs["reflect"].Type("StructField").Type().Underlying().(*types.Struct)
		for i := 0; i < sf.NumFields(); i++ {
			if sf.Field(i).Name() == "PkgPath" {
				return a[0].(Struct)[i] == Value("")
			}
		}
		return false
	}

	m("Kind", func(e *Engine, fr *frame, v RV, a []Value) Value { return uint64(e.kind(v)) })
	m("Type", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if v.T == nil {
			e.valueError("reflect.Value.Type", 0)
		}
		return e.prog.reflectType(v.T)
	})
	m("IsValid", func(e *Engine, fr *frame, v RV, a []Value) Value { return v.T != nil })
	m("CanSet", func(e *Engine, fr *frame, v RV, a []Value) Value { return v.addr && v.ro == 0 })
	m("CanAddr", func(e *Engine, fr *frame, v RV, a []Value) Value { return v.addr })
	m("CanInterface", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if v.T == nil {
			e.valueError("reflect.Value.CanInterface", 0)
		}
		return v.ro == 0
	})
	inRange := func(lo, hi reflect.Kind) func(e *Engine, fr *frame, v RV, a []Value) Value {
		return func(e *Engine, fr *frame, v RV, a []Value) Value { k := e.kind(v); return k >= lo && k <= hi }
	}
	m("CanInt", inRange(reflect.Int, reflect.Int64))
	m("CanUint", inRange(reflect.Uint, reflect.Uintptr))
	m("CanFloat", inRange(reflect.Float32, reflect.Float64))
	m("CanComplex", inRange(reflect.Complex64, reflect.Complex128))
	m("CanConvert", func(e *Engine, fr *frame, v RV, a []Value) Value { return types.ConvertibleTo(v.T, e.mustRT(a[0])) })
	m("Comparable", func(e *Engine, fr *frame, v RV, a []Value) Value { return v.T == nil || types.Comparable(v.T) })
	m("Equal", func(e *Engine, fr *frame, v RV, a []Value) Value {
		u := asRV(a[0])
		if v.T == nil || u.T == nil {
			return v.T == nil && u.T == nil
		}
		if !types.Identical(v.T, u.T) {
			return false
		}
		return e.equal(v.T, e.get(v), e.get(u))
	})
	m("Addr", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if !v.addr {
			e.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return RV{T: types.NewPointer(v.T), P: newCell(v.P), ro: v.ro}
	})
	m("Elem", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.rvElem(v) })
	m("Field", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.rvField(v, int(e.concretize(a[0]))) })
	m("FieldByIndex", func(e *Engine, fr *frame, v RV, a []Value) Value {
		for i, x := range a[0].(Slice) {
			if i > 0 && e.kind(v) == reflect.Ptr {
				v = e.rvElem(v)
			}
			v = e.rvField(v, int(x.(uint64)))
		}
		return v
	})
	m("FieldByName", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.fieldByName(v, asName(e, a[0])) })
	m("NumField", func(e *Engine, fr *frame, v RV, a []Value) Value {
		st, ok := v.typeUnder().(*types.Struct)
		if !ok {
			e.valueError("reflect.Value.NumField", e.kind(v))
		}
		return uint64(st.NumFields())
	})
	m("Index", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.rvIndex(v, a[0]) })
	m("Len", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.rvLen(v) })
	m("Cap", func(e *Engine, fr *frame, v RV, a []Value) Value {
		switch e.kind(v) {
		case reflect.Slice:
			return uint64(cap(e.get(v).(Slice)))
		case reflect.Array:
			return uint64(v.typeUnder().(*types.Array).Len())
		}
		e.valueError("reflect.Value.Cap", e.kind(v))
		return nil
	})
	m("Interface", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.rvInterface(v) })
	m("IsNil", func(e *Engine, fr *frame, v RV, a []Value) Value {
		switch e.kind(v) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return isNil(e.get(v))
		}
		e.valueError("reflect.Value.IsNil", e.kind(v))
		return nil
	})
	m("IsZero", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if v.T == nil {
			e.valueError("reflect.Value.IsZero", 0)
		}
		return abool(e.isZero(v.T, e.get(v)))
	})
	m("Bool", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if e.kind(v) != reflect.Bool {
			e.valueError("reflect.Value.Bool", e.kind(v))
		}
		return e.get(v)
	})
	m("Int", func(e *Engine, fr *frame, v RV, a []Value) Value {
		k := e.kind(v)
		if k < reflect.Int || k > reflect.Int64 {
			e.valueError("reflect.Value.Int", k)
		}
		_, w, _ := basicInfo(v.T)
		return e.dom.resize(e.get(v), w, 64, true)
	})
	m("Uint", func(e *Engine, fr *frame, v RV, a []Value) Value {
		k := e.kind(v)
		if k < reflect.Uint || k > reflect.Uintptr {
			e.valueError("reflect.Value.Uint", k)
		}
		_, w, _ := basicInfo(v.T)
		return e.dom.resize(e.get(v), w, 64, false)
	})
	m("Float", func(e *Engine, fr *frame, v RV, a []Value) Value {
		switch e.kind(v) {
		case reflect.Float32:
			return e.dom.floatConv(e.get(v), 32, 64)
		case reflect.Float64:
			return e.get(v)
		}
		e.valueError("reflect.Value.Float", e.kind(v))
		return nil
	})
	m("Complex", func(e *Engine, fr *frame, v RV, a []Value) Value {
		switch e.kind(v) {
		case reflect.Complex64:
			re, im := realImag(e.get(v))
			return mkComplex(e.dom.floatConv(re, 32, 64), e.dom.floatConv(im, 32, 64))
		case reflect.Complex128:
			return e.get(v)
		}
		e.valueError("reflect.Value.Complex", e.kind(v))
		return nil
	})
	m("String", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if v.T == nil {
			return "<invalid Value>"
		}
		if e.kind(v) == reflect.String {
			return e.get(v)
		}
		return "<" + typeString(v.T) + " Value>"
	})
	m("Bytes", func(e *Engine, fr *frame, v RV, a []Value) Value {
		switch e.kind(v) {
		case reflect.Slice:
			if rkind(elemType(v.T)) != reflect.Uint8 {
				e.strPanic("reflect.Value.Bytes of non-byte slice")
			}
			return e.get(v)
		case reflect.Array:
			if rkind(elemType(v.T)) != reflect.Uint8 {
				e.strPanic("reflect.Value.Bytes of non-byte array")
			}
			if !v.addr {
				e.strPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			return Slice((*v.P).(Array))
		}
		e.valueError("reflect.Value.Bytes", e.kind(v))
		return nil
	})
	m("Slice", func(e *Engine, fr *frame, v RV, a []Value) Value {
		lo, hi := int64(e.concretize(a[0])), int64(e.concretize(a[1]))
		var x Value
		t := v.T
		switch e.kind(v) {
		case reflect.Array:
			if !v.addr {
				e.strPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			x = v.P
			t = types.NewSlice(elemType(v.T))
		default:
			x = e.get(v)
		}
		n := int64(0)
		switch y := x.(type) {
		case Slice:
			n = int64(cap(y))
		case *Value:
			n = int64(len((*y).(Array)))
		default:
			bs, _ := strBytes(x)
			n = int64(len(bs))
		}
		if lo < 0 || hi < lo || hi > n {
			e.strPanic("reflect.Value.Slice: slice index out of bounds")
		}
		return e.mkRV(t, e.slice(x, &lo, &hi, nil), roOf(v.ro))
	})
	m("Set", func(e *Engine, fr *frame, v RV, a []Value) Value {
		x := asRV(a[0])
		e.mustAssignable(v, "reflect.Set")
		e.mustExported(x, "reflect.Set")
		e.rvSet(v, e.assignTo(x, v.T, "reflect.Set"))
		return nil
	})
	m("SetZero", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetZero")
		e.rvSet(v, zero(v.T))
		return nil
	})
	m("SetBool", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetBool")
		if e.kind(v) != reflect.Bool {
			e.valueError("reflect.Value.SetBool", e.kind(v))
		}
		e.rvSet(v, a[0])
		return nil
	})
	m("SetInt", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetInt")
		k := e.kind(v)
		if k < reflect.Int || k > reflect.Int64 {
			e.valueError("reflect.Value.SetInt", k)
		}
		_, w, _ := basicInfo(v.T)
		e.rvSet(v, e.dom.resize(a[0], 64, w, false))
		return nil
	})
	m("SetUint", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetUint")
		k := e.kind(v)
		if k < reflect.Uint || k > reflect.Uintptr {
			e.valueError("reflect.Value.SetUint", k)
		}
		_, w, _ := basicInfo(v.T)
		e.rvSet(v, e.dom.resize(a[0], 64, w, false))
		return nil
	})
	m("SetFloat", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetFloat")
		switch e.kind(v) {
		case reflect.Float32:
			e.rvSet(v, e.dom.floatConv(a[0], 64, 32))
		case reflect.Float64:
			e.rvSet(v, a[0])
		default:
			e.valueError("reflect.Value.SetFloat", e.kind(v))
		}
		return nil
	})
	m("SetComplex", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetComplex")
		switch e.kind(v) {
		case reflect.Complex64:
			re, im := realImag(a[0])
			e.rvSet(v, mkComplex(e.dom.floatConv(re, 64, 32), e.dom.floatConv(im, 64, 32)))
		case reflect.Complex128:
			e.rvSet(v, a[0])
		default:
			e.valueError("reflect.Value.SetComplex", e.kind(v))
		}
		return nil
	})
	m("SetString", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetString")
		if e.kind(v) != reflect.String {
			e.valueError("reflect.Value.SetString", e.kind(v))
		}
		e.rvSet(v, a[0])
		return nil
	})
	m("SetBytes", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetBytes")
		if e.kind(v) != reflect.Slice {
			e.valueError("reflect.Value.SetBytes", e.kind(v))
		}
		if rkind(elemType(v.T)) != reflect.Uint8 {
			e.strPanic("reflect.Value.SetBytes of non-byte slice")
		}
		e.rvSet(v, a[0])
		return nil
	})
	m("SetLen", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.SetLen")
		s := e.get(v).(Slice)
		k := int(e.concretize(a[0]))
		if k < 0 || k > cap(s) {
			e.strPanic("reflect: slice length out of range in SetLen")
		}
		e.rvSet(v, s[:k])
		return nil
	})
	m("Grow", func(e *Engine, fr *frame, v RV, a []Value) Value {
		e.mustAssignable(v, "reflect.Value.Grow")
		s := e.get(v).(Slice)
		k := int(int64(e.concretize(a[0])))
		if k < 0 {
			e.strPanic("reflect.Value.Grow: negative len")
		}
		if len(s)+k > cap(s) {
			ns := e.makeSlice(elemType(v.T), int64(len(s)), int64(len(s)+k))
			for i := range s {
				ns[i] = copyVal(s[i])
			}
			e.rvSet(v, ns)
		}
		return nil
	})
	m("OverflowInt", func(e *Engine, fr *frame, v RV, a []Value) Value {
		k := e.kind(v)
		if k < reflect.Int || k > reflect.Int64 {
			e.valueError("reflect.Value.OverflowInt", k)
		}
		return e.overflow(v.T, a[0], true)
	})
	m("OverflowUint", func(e *Engine, fr *frame, v RV, a []Value) Value {
		k := e.kind(v)
		if k < reflect.Uint || k > reflect.Uintptr {
			e.valueError("reflect.Value.OverflowUint", k)
		}
		return e.overflow(v.T, a[0], false)
	})
	m("Convert", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if v.T == nil {
			e.valueError("reflect.Value.Convert", 0)
		}
		return e.rvConvert(v, e.mustRT(a[0]))
	})
	m("Call", func(e *Engine, fr *frame, v RV, a []Value) Value { return e.rvCall(fr, v, a[0].(Slice)) })
	m("MapIndex", func(e *Engine, fr *frame, v RV, a []Value) Value {
		mt, ok := v.typeUnder().(*types.Map)
		if !ok {
			e.valueError("reflect.Value.MapIndex", e.kind(v))
		}
		k := asRV(a[0])
		if k.T == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		kv := e.assignTo(k, mt.Key(), "reflect.Value.MapIndex")
		r, found := e.mapGet(e.get(v).(*Map), mt.Key(), kv)
		if !found {
			return RV{}
		}
		return e.mkRV(mt.Elem(), r, roOf(v.ro|k.ro))
	})
	m("SetMapIndex", func(e *Engine, fr *frame, v RV, a []Value) Value {
		mt := v.typeUnder().(*types.Map)
		k, x := asRV(a[0]), asRV(a[1])
		kv := e.assignTo(k, mt.Key(), "reflect.Value.SetMapIndex")
		if x.T == nil {
			ks, ok := e.mapFind(e.get(v).(*Map), mt.Key(), kv)
			if ok {
				e.mapDelete(e.get(v).(*Map), ks)
			}
			return nil
		}
		e.mapPut(e.get(v).(*Map), mt.Key(), kv, e.assignTo(x, mt.Elem(), "reflect.Value.SetMapIndex"))
		return nil
	})
	m("MapKeys", func(e *Engine, fr *frame, v RV, a []Value) Value {
		mt := v.typeUnder().(*types.Map)
		r := Slice{}
		if mm := e.get(v).(*Map); mm != nil {
			for _, k := range mm.keys {
				r = append(r, e.mkRV(mt.Key(), mm.m[k].k, roOf(v.ro)))
			}
		}
		return r
	})
	m("NumMethod", func(e *Engine, fr *frame, v RV, a []Value) Value {
		if v.T == nil {
			e.valueError("reflect.Value.NumMethod", 0)
		}
		return rtypeMethods["NumMethod"](e, fr, v.T, nil)
	})
	m("MethodByName", func(e *Engine, fr *frame, v RV, a []Value) Value {
		name := asName(e, a[0])
		if v.T == nil {
			e.valueError("reflect.Value.MethodByName", 0)
		}
		f := e.methodByName(v.T, nil, name)
		if f == nil || !token.IsExported(name) {
			return RV{}
		}
		sel := e.msets.MethodSet(v.T).Lookup(nil, name)
		recv := e.get(v)
		sg := sel.Obj().Type().(*types.Signature)
		t := types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
		return e.mkRV(t, &Native{name, func(e *Engine, fr *frame, args []Value) Value {
			return e.callValue(fr, f, append([]Value{recv}, args...))
		}}, roOf(v.ro))
	})
	m("Pointer", func(e *Engine, fr *frame, v RV, a []Value) Value { e.unsupported("Value.Pointer"); return nil })
	m("UnsafePointer", func(e *Engine, fr *frame, v RV, a []Value) Value { e.unsupported("Value.UnsafePointer"); return nil })
}

func (e *Engine) isZero(t types.Type, v Value) Bit {
	switch x := v.(type) {
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := bTrue
		for i := range x {
			r = e.dom.And(r, e.isZero(st.Field(i).Type(), x[i]))
		}
		return r
	case Array:
		r := bTrue
		for i := range x {
			r = e.dom.And(r, e.isZero(elemType(t), x[i]))
		}
		return r
	case Iface, *Value, Slice, *Map:
		return Bit(b2u(isNil(v)))
	case float64, *FT:
		_, w, _ := basicInfo(t)
		b := e.dom.floatBits(v, w)
		return e.dom.eq(b, uint64(0), w)
	case complex128, *CT:
		_, w, _ := basicInfo(t)
		re, im := realImag(v)
		return e.dom.And(e.dom.eq(e.dom.floatBits(re, w/2), uint64(0), w/2), e.dom.eq(e.dom.floatBits(im, w/2), uint64(0), w/2))
	}
	if isNil(v) {
		return bTrue
	}
	switch v.(type) {
	case bool, ABool, uint64, *BV, string, *AStr:
		return boolBit(e.equal(t, v, zero(t)))
	}
	return bFalse
}
