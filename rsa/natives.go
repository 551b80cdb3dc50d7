package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/parser"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions the analysis does not look into. Everything else
// in the standard library is analysed from its own source.
var natives = map[string]nativeFn{}

// hosts lists pure functions that are folded when every argument is a
// constant; on abstract arguments their source is analysed.
var hosts = map[string]interface{}{
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune,
	"strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Split": strings.Split,
	"strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.Join": strings.Join, "strings.Trim": strings.Trim,
	"strings.TrimSpace": strings.TrimSpace, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.ToLower": strings.ToLower,
	"strings.ToUpper": strings.ToUpper, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold,
	"strings.Cut": strings.Cut, "strings.SplitAfter": strings.SplitAfter, "strings.Compare": strings.Compare,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.FormatFloat": strconv.FormatFloat,
	"unicode.IsLetter":    unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsPunct": unicode.IsPunct,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"unicode/utf8.ValidRune": utf8.ValidRune,
	"go/token.IsExported":    func(s string) bool { r, _ := utf8.DecodeRuneInString(s); return unicode.IsUpper(r) },
}

// termHosts are pure functions kept as uninterpreted (Herbrand) terms on
// abstract arguments.
var termHosts = map[string]interface{}{
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsPrint": unicode.IsPrint,
	"unicode.IsControl": unicode.IsControl, "unicode.IsPunct": unicode.IsPunct, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
	"math/bits.LeadingZeros": bits.LeadingZeros, "math/bits.LeadingZeros8": bits.LeadingZeros8, "math/bits.LeadingZeros16": bits.LeadingZeros16,
	"math/bits.LeadingZeros32": bits.LeadingZeros32, "math/bits.LeadingZeros64": bits.LeadingZeros64,
	"math/bits.Len": bits.Len, "math/bits.Len8": bits.Len8, "math/bits.Len16": bits.Len16, "math/bits.Len32": bits.Len32, "math/bits.Len64": bits.Len64,
	"math/bits.OnesCount": bits.OnesCount, "math/bits.OnesCount8": bits.OnesCount8, "math/bits.OnesCount16": bits.OnesCount16,
	"math/bits.OnesCount32": bits.OnesCount32, "math/bits.OnesCount64": bits.OnesCount64,
	"math/bits.TrailingZeros": bits.TrailingZeros, "math/bits.TrailingZeros8": bits.TrailingZeros8, "math/bits.TrailingZeros16": bits.TrailingZeros16,
	"math/bits.TrailingZeros32": bits.TrailingZeros32, "math/bits.TrailingZeros64": bits.TrailingZeros64,
	"math/bits.RotateLeft": bits.RotateLeft, "math/bits.RotateLeft8": bits.RotateLeft8, "math/bits.RotateLeft16": bits.RotateLeft16,
	"math/bits.RotateLeft32": bits.RotateLeft32, "math/bits.RotateLeft64": bits.RotateLeft64,
	"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Pow": math.Pow, "math.Mod": math.Mod,
	"math.Sqrt": math.Sqrt, "math.Max": math.Max, "math.Min": math.Min, "math.FMA": math.FMA, "math.Round": math.Round,
	"math.RoundToEven": math.RoundToEven, "math.Copysign": math.Copysign, "math.Log2": math.Log2, "math.Ldexp": math.Ldexp,
}

// hostArg converts an abstract constant to a host value.
func hostArg(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		c, ok := v.(uint64)
		return reflect.ValueOf(sext(c, t.Bits())).Convert(t), ok
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		c, ok := v.(uint64)
		return reflect.ValueOf(c).Convert(t), ok
	case reflect.Float64, reflect.Float32:
		c, ok := v.(float64)
		return reflect.ValueOf(c).Convert(t), ok
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			x, ok := hostArg(s[i], t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func hostRes(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int()) & mask(v.Type().Bits())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint()
	case reflect.Float64, reflect.Float32:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := Slice{}
		for i := 0; i < v.Len(); i++ {
			s = append(s, hostRes(v.Index(i)))
		}
		return s
	}
	panic("hostRes " + v.Kind().String())
}

func hostCall(f interface{}, args []Value) (res Value, ok bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		x, ok := hostArg(a, ft.In(i))
		if !ok {
			return nil, false
		}
		in[i] = x
	}
	defer func() {
		if r := recover(); r != nil {
			res, ok = nil, false
		}
	}()
	out := fv.Call(in)
	if len(out) == 1 {
		return hostRes(out[0]), true
	}
	t := Tuple{}
	for _, o := range out {
		t = append(t, hostRes(o))
	}
	return t, true
}

func termResult(d *Dom, name string, f interface{}, args []Value) Value {
	rt := reflect.TypeOf(f).Out(0)
	switch rt.Kind() {
	case reflect.Bool:
		return abool(d.TermBit(d.Term(name, 1, args...), 0))
	case reflect.Float64:
		return &FT{64, d.Term(name, 64, args...)}
	}
	w := rt.Bits()
	return d.TermBV(name, w, args...)
}

func init() {
	registerReflect(natives)
	for name, f := range termHosts {
		f, name := f, name
		natives[name] = func(e *Engine, fr *frame, a []Value) Value {
			a = e.normAll(a)
			if r, ok := hostCall(f, a); ok {
				return r
			}
			if strings.HasPrefix(name, "math/bits.RotateLeft") {
				if k, ok := a[1].(uint64); ok {
					bv := a[0].(*BV)
					w := len(bv.b)
					s := int(((sext(k, 64) % int64(w)) + int64(w)) % int64(w))
					r := &BV{make([]Bit, w)}
					for i := range r.b {
						r.b[(i+s)%w] = bv.b[i]
					}
					return lower(r)
				}
			}
			return termResult(e.dom, name, f, a)
		}
		termFolds[name] = func(args []Value, w int) Value {
			r, ok := hostCall(f, args)
			if !ok {
				panic(undecidable{name})
			}
			if b, ok := r.(bool); ok {
				return b2u(b)
			}
			return r
		}
	}
	rev := func(f func(w, i int) int) nativeFn {
		return func(e *Engine, fr *frame, a []Value) Value {
			x := e.dom.normVal(a[0])
			bv := lift(x, fr.nativeWidth)
			r := &BV{make([]Bit, len(bv.b))}
			for i := range bv.b {
				r.b[f(len(bv.b), i)] = bv.b[i]
			}
			return lower(r)
		}
	}
	for _, s := range []struct {
		n string
		w int
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		w := s.w
		withW := func(f nativeFn) nativeFn {
			return func(e *Engine, fr *frame, a []Value) Value {
				return f(e, &frame{nativeWidth: w}, a)
			}
		}
		natives["math/bits.Reverse"+s.n] = withW(rev(func(w, i int) int { return w - 1 - i }))
		if s.n != "8" {
			natives["math/bits.ReverseBytes"+s.n] = withW(rev(func(w, i int) int { return (w/8-1-i/8)*8 + i%8 }))
		}
	}

	natives["math.Float32bits"] = func(e *Engine, fr *frame, a []Value) Value { return e.dom.floatBits(e.dom.normVal(a[0]), 32) }
	natives["math.Float64bits"] = func(e *Engine, fr *frame, a []Value) Value { return e.dom.floatBits(e.dom.normVal(a[0]), 64) }
	natives["math.Float32frombits"] = func(e *Engine, fr *frame, a []Value) Value {
		return e.dom.floatFromBits(e.dom.normVal(a[0]), 32)
	}
	natives["math.Float64frombits"] = func(e *Engine, fr *frame, a []Value) Value {
		return e.dom.floatFromBits(e.dom.normVal(a[0]), 64)
	}

	for _, n := range []string{"Float32bits", "Float64bits", "Float32frombits", "Float64frombits"} {
		natives["internal/strconv.f"+n[1:]] = natives["math."+n]
	}

	registerSync(natives)
	registerText(natives)

	natives["go/parser.ParseExpr"] = func(e *Engine, fr *frame, a []Value) Value {
		src, ok := a[0].(string)
		if !ok {
			e.unsupported("parsing an abstract type expression")
		}
		x, err := parser.ParseExpr(src)
		if err != nil {
			return Tuple{Iface{}, e.prog.newError(err.Error())}
		}
		return Tuple{e.hostIface(reflect.ValueOf(&x).Elem()), Iface{}}
	}
	wrap := func(e *Engine, fr *frame, a []Value) Value {
		err := a[0].(Iface)
		if err.T == nil {
			return Iface{}
		}
		return e.prog.newError(concat(concat(a[1], ": "), e.errorText(fr, err)))
	}
	natives["github.com/pkg/errors.Wrap"] = wrap
	natives["github.com/pkg/errors.WithMessage"] = wrap
	natives["github.com/pkg/errors.WithStack"] = func(e *Engine, fr *frame, a []Value) Value { return a[0] }
	natives["github.com/pkg/errors.New"] = func(e *Engine, fr *frame, a []Value) Value { return e.prog.newError(a[0]) }
	natives["github.com/pkg/errors.Errorf"] = func(e *Engine, fr *frame, a []Value) Value {
		return e.prog.newError(e.sprintf(fr, a[0], a[1].(Slice)))
	}
	natives["github.com/pkg/errors.Wrapf"] = func(e *Engine, fr *frame, a []Value) Value {
		err := a[0].(Iface)
		if err.T == nil {
			return Iface{}
		}
		return e.prog.newError(concat(concat(e.sprintf(fr, a[1], a[2].(Slice)), ": "), e.errorText(fr, err)))
	}
	natives["errors.Is"] = func(e *Engine, fr *frame, a []Value) Value {
		err, target := a[0].(Iface), a[1].(Iface)
		for err.T != nil {
			if target.T != nil && types.Identical(err.T, target.T) && e.decideV(e.equal(err.T, err.V, target.V)) {
				return true
			}
			f := e.methodByName(err.T, nil, "Unwrap")
			if f == nil {
				return false
			}
			n, ok := e.callValue(fr, f, []Value{err.V}).(Iface)
			if !ok {
				return false
			}
			err = n
		}
		return target.T == nil
	}
	natives["sort.Slice"] = sortSlice
	natives["sort.SliceStable"] = sortSlice
	natives["internal/abi.NoEscape"] = func(e *Engine, fr *frame, a []Value) Value { return a[0] }
	natives["internal/abi.Escape"] = func(e *Engine, fr *frame, a []Value) Value { return a[0] }
	for _, s := range []string{"strings.Clone", "internal/stringslite.Clone"} {
		natives[s] = func(e *Engine, fr *frame, a []Value) Value { return a[0] }
	}
	natives["strings.noescape"] = func(e *Engine, fr *frame, a []Value) Value { return a[0] }
	natives["internal/reflectlite.TypeOf"] = natives["reflect.TypeOf"]
	natives["runtime.KeepAlive"] = func(e *Engine, fr *frame, a []Value) Value { return nil }
	natives["runtime.GC"] = func(e *Engine, fr *frame, a []Value) Value { return nil }
	natives["runtime.Gosched"] = func(e *Engine, fr *frame, a []Value) Value { return nil }
	natives["internal/godebug.New"] = func(e *Engine, fr *frame, a []Value) Value { return (*Value)(nil) }
	natives["internal/race.Enabled"] = func(e *Engine, fr *frame, a []Value) Value { return false }
}

func sortSlice(e *Engine, fr *frame, a []Value) Value {
	i := a[0].(Iface)
	s := i.V.(Slice)
	for x := 1; x < len(s); x++ {
		for y := x; y > 0; y-- {
			if !e.decideV(e.callValue(fr, a[1], []Value{uint64(y), uint64(y - 1)})) {
				break
			}
			p, q := e.load(&s[y]), e.load(&s[y-1])
			e.store(&s[y], q)
			e.store(&s[y-1], p)
		}
	}
	return nil
}

func (e *Engine) normAll(a []Value) []Value {
	r := make([]Value, len(a))
	for i := range a {
		r[i] = e.dom.normVal(a[i])
	}
	return r
}

// hostIface converts a host interface value (a syntax tree) to abstract heap
// objects.
func (e *Engine) hostIface(v reflect.Value) Iface {
	if v.IsNil() {
		return Iface{}
	}
	d := v.Elem()
	t := e.hostType(d.Type())
	if t == nil {
		e.unsupported("host type %s", d.Type())
	}
	return Iface{t, e.hostVal(d, t)}
}

func (e *Engine) hostType(t reflect.Type) types.Type {
	if t.Kind() == reflect.Ptr {
		el := e.hostType(t.Elem())
		if el == nil {
			return nil
		}
		return types.NewPointer(el)
	}
	if t.PkgPath() != "" {
		if p := e.prog.pkgs[t.PkgPath()]; p != nil {
			if m := p.Type(t.Name()); m != nil {
				return m.Type()
			}
		}
	}
	return nil
}

func (e *Engine) hostVal(v reflect.Value, t types.Type) Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return (*Value)(nil)
		}
		return newCell(e.hostVal(v.Elem(), elemType(t)))
	case reflect.Struct:
		st := t.Underlying().(*types.Struct)
		s := zero(t).(Struct)
		for i := 0; i < v.NumField(); i++ {
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == v.Type().Field(i).Name {
					s[j] = e.hostVal(v.Field(i), st.Field(j).Type())
				}
			}
		}
		return s
	case reflect.Interface:
		return e.hostIface(v)
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := Slice{}
		for i := 0; i < v.Len(); i++ {
			s = append(s, e.hostVal(v.Index(i), elemType(t)))
		}
		return s
	case reflect.Map:
		return newMap()
	}
	return hostRes(v)
}

// ---- sync

// quiet writes a cell without reporting an access (synchronised operations).
func (e *Engine) quiet(p *Value, v Value) {
	e.journal = append(e.journal, undo{p: p, old: *p})
	*p = v
}

// atomic records an atomic access.
func (e *Engine) atomic(p *Value, write bool, v Value) *Value {
	if e.mon != nil {
		e.mon.atomic(p, write, v)
	}
	return p
}

func (e *Engine) lockOf(p *Value) *lockState {
	if p == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := e.locks[p]
	if l == nil {
		l = &lockState{}
		e.locks[p] = l
	}
	return l
}

func registerSync(n map[string]nativeFn) {
	lock := func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		l := e.lockOf(p)
		if l.writer || l.readers > 0 {
			panic(abort{"deadlock", fmt.Sprintf("lock acquired at %s is acquired again at %s while held", l.where, e.where())})
		}
		l.writer, l.where = true, e.where()
		if e.onLock != nil {
			e.onLock(p, "Lock")
		}
		return nil
	}
	unlock := func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		l := e.lockOf(p)
		if !l.writer {
			panic(abort{"deadlock", "fatal error: unlock of unlocked mutex at " + e.where()})
		}
		if e.onLock != nil {
			e.onLock(p, "Unlock")
		}
		l.writer = false
		return nil
	}
	for _, t := range []string{"sync.Mutex", "sync.RWMutex", "internal/sync.Mutex"} {
		n["(*"+t+").Lock"] = lock
		n["(*"+t+").Unlock"] = unlock
		n["(*"+t+").TryLock"] = func(e *Engine, fr *frame, a []Value) Value {
			l := e.lockOf(a[0].(*Value))
			if l.writer || l.readers > 0 {
				return false
			}
			lock(e, fr, a)
			return true
		}
	}
	n["(*sync.RWMutex).RLock"] = func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		l := e.lockOf(p)
		if l.writer {
			panic(abort{"deadlock", fmt.Sprintf("lock acquired at %s is read-acquired at %s while held", l.where, e.where())})
		}
		if l.readers > 0 {
			e.lockErr = append(e.lockErr, fmt.Sprintf("read lock acquired at %s is acquired again at %s while held; a waiting writer in between deadlocks", l.where, e.where()))
		}
		l.readers++
		l.where = e.where()
		if e.onLock != nil {
			e.onLock(p, "RLock")
		}
		return nil
	}
	n["(*sync.RWMutex).RUnlock"] = func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		l := e.lockOf(p)
		if l.readers == 0 {
			panic(abort{"deadlock", "fatal error: RUnlock of unlocked RWMutex at " + e.where()})
		}
		if e.onLock != nil {
			e.onLock(p, "RUnlock")
		}
		l.readers--
		return nil
	}
	n["(*sync.Once).Do"] = func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if e.mon != nil {
			defer e.mon.acquire(p)
		}
		if e.oncePtr[p] {
			return nil
		}
		l := e.lockOf(p)
		if l.writer {
			panic(abort{"deadlock", "recursive Once.Do at " + e.where()})
		}
		l.writer, l.where = true, e.where()
		if e.onLock != nil {
			e.onLock(p, "Lock")
		}
		done := func() {
			e.oncePtr[p] = true
			e.undoable(func() { delete(e.oncePtr, p) })
			if e.onLock != nil {
				e.onLock(p, "Unlock")
			}
			l.writer = false
		}
		ok := false
		defer func() {
			if !ok {
				done()
			}
		}()
		e.callValue(fr, a[1], nil)
		ok = true
		done()
		return nil
	}
	n["(*sync.WaitGroup).Add"] = func(e *Engine, fr *frame, a []Value) Value { return nil }
	n["(*sync.WaitGroup).Done"] = n["(*sync.WaitGroup).Add"]
	n["(*sync.WaitGroup).Wait"] = n["(*sync.WaitGroup).Add"]
	n["(*sync.Pool).Get"] = func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if l := e.pools[p]; len(l) > 0 {
			v := l[len(l)-1]
			e.pools[p] = l[: len(l)-1 : len(l)-1]
			e.undoable(func() { e.pools[p] = l })
			if e.mon != nil {
				e.mon.get(v)
			}
			return v
		}
		s := (*p).(Struct)
		f := s[len(s)-1]
		if isNil(f) {
			return Iface{}
		}
		return e.callValue(fr, f, nil)
	}
	n["(*sync.Pool).Put"] = func(e *Engine, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		l := e.pools[p]
		e.pools[p] = append(l[:len(l):len(l)], a[1])
		if e.mon != nil {
			e.mon.put(a[1])
		}
		e.undoable(func() { e.pools[p] = l })
		return nil
	}
	anyT := types.NewInterfaceType(nil, nil)
	sm := func(e *Engine, a Value) *Map {
		p := a.(*Value)
		if p == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		if e.syncMaps == nil {
			e.syncMaps = map[*Value]*Map{}
		}
		m := e.syncMaps[p]
		if m == nil {
			m = newMap()
			m.synced = true
			e.syncMaps[p] = m
			if e.mon != nil {
				e.mon.publish(p, m)
			}
		}
		return m
	}
	n["(*sync.Map).Load"] = func(e *Engine, fr *frame, a []Value) Value {
		v, ok := e.mapGet(sm(e, a[0]), anyT, a[1])
		if !ok {
			v = Iface{}
		}
		return Tuple{v, ok}
	}
	n["(*sync.Map).Store"] = func(e *Engine, fr *frame, a []Value) Value {
		e.mapPut(sm(e, a[0]), anyT, a[1], a[2])
		return nil
	}
	n["(*sync.Map).LoadOrStore"] = func(e *Engine, fr *frame, a []Value) Value {
		if v, ok := e.mapGet(sm(e, a[0]), anyT, a[1]); ok {
			return Tuple{v, true}
		}
		e.mapPut(sm(e, a[0]), anyT, a[1], a[2])
		return Tuple{a[2], false}
	}
	n["(*sync.Map).Delete"] = func(e *Engine, fr *frame, a []Value) Value {
		m := sm(e, a[0])
		if ks, ok := e.mapFind(m, anyT, a[1]); ok {
			e.mapDelete(m, ks)
		}
		return nil
	}
	n["(*sync.Map).Range"] = func(e *Engine, fr *frame, a []Value) Value {
		it := e.rangeOver(sm(e, a[0]))
		for {
			t := it.next(e).(Tuple)
			if !t[0].(bool) {
				return nil
			}
			if !e.decideV(e.callValue(fr, a[1], []Value{t[1], t[2]})) {
				return nil
			}
		}
	}
	for _, ty := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := ty.w
		n["sync/atomic.Load"+ty.n] = func(e *Engine, fr *frame, a []Value) Value { return *(e.atomic(e.nn(a[0]), false, nil)) }
		n["sync/atomic.Store"+ty.n] = func(e *Engine, fr *frame, a []Value) Value {
			e.quiet(e.atomic(e.nn(a[0]), true, a[1]), a[1])
			return nil
		}
		n["sync/atomic.Swap"+ty.n] = func(e *Engine, fr *frame, a []Value) Value {
			p := e.atomic(e.nn(a[0]), true, a[1])
			o := *p
			e.quiet(p, a[1])
			return o
		}
		n["sync/atomic.CompareAndSwap"+ty.n] = func(e *Engine, fr *frame, a []Value) Value {
			p := e.atomic(e.nn(a[0]), true, a[2])
			var eq bool
			if w == 0 {
				eq = *p == a[1]
			} else {
				eq = e.decide(e.dom.eq(*p, a[1], w))
			}
			if eq {
				e.quiet(p, a[2])
			}
			return eq
		}
		if w != 0 {
			n["sync/atomic.Add"+ty.n] = func(e *Engine, fr *frame, a []Value) Value {
				p := e.atomic(e.nn(a[0]), true, nil)
				e.quiet(p, e.dom.arith("add", *p, a[1], w))
				return *p
			}
		}
	}
	n["(*sync/atomic.Value).Load"] = func(e *Engine, fr *frame, a []Value) Value {
		return *e.atomic(&(*(e.nn(a[0]))).(Struct)[0], false, nil)
	}
	n["(*sync/atomic.Value).Store"] = func(e *Engine, fr *frame, a []Value) Value {
		e.quiet(e.atomic(&(*(e.nn(a[0]))).(Struct)[0], true, a[1]), a[1])
		return nil
	}
}

func (e *Engine) nn(v Value) *Value {
	p := v.(*Value)
	if p == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// ---- text

func (e *Engine) errorText(fr *frame, err Iface) Value {
	f := e.methodByName(err.T, nil, "Error")
	if f == nil {
		return &OStr{"error"}
	}
	return e.callValue(fr, f, []Value{err.V})
}

func (e *Engine) fmtArg(fr *frame, verb byte, a Iface) (string, bool) {
	if a.T == nil {
		if verb == 'v' || verb == 'T' {
			return "<nil>", true
		}
		return "%!" + string(verb) + "(<nil>)", true
	}
	if verb == 'T' {
		if rt, ok := a.V.(RT); ok {
			_ = rt
			return "*reflect.rtype", true
		}
		return typeString(a.T), true
	}
	if rt, ok := a.V.(RT); ok {
		return typeString(rt.T), true
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if f := e.methodByName(a.T, nil, m); f != nil && !isNil(a.V) {
				if sel := e.msets.MethodSet(a.T).Lookup(nil, m); sel.Type().(*types.Signature).Params().Len() == 0 {
					s, ok := e.callValue(fr, f, []Value{a.V}).(string)
					if ok && verb == 'q' {
						s = strconv.Quote(s)
					}
					return s, ok
				}
			}
		}
	}
	k, w, signed := basicInfo(a.T)
	switch v := a.V.(type) {
	case string:
		if verb == 's' || verb == 'v' || verb == 'q' {
			return fmt.Sprintf("%"+string(verb), v), true
		}
	case bool:
		return fmt.Sprint(v), true
	case uint64:
		if k == kInt {
			if signed {
				return fmt.Sprintf("%"+string(verb), sext(v, w)), true
			}
			return fmt.Sprintf("%"+string(verb), v), true
		}
	case float64:
		return fmt.Sprintf("%"+string(verb), v), true
	}
	return "", false
}

// sprintf formats a message; the result is an opaque text when it depends on
// abstract values.
func (e *Engine) sprintf(fr *frame, format Value, args Slice) Value {
	f, ok := format.(string)
	if !ok {
		return &OStr{"message"}
	}
	var sb strings.Builder
	n := 0
	opaque := false
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			sb.WriteByte(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if n >= len(args) {
			sb.WriteString("%!" + string(f[i]) + "(MISSING)")
			continue
		}
		a, _ := args[n].(Iface)
		n++
		verb := f[i]
		if verb == 'w' {
			verb = 'v'
		}
		s, ok := e.fmtArg(fr, verb, a)
		if !ok {
			opaque = true
			s = "?"
		}
		sb.WriteString(s)
	}
	if opaque {
		return &OStr{sb.String()}
	}
	return sb.String()
}

func registerText(n map[string]nativeFn) {
	n["fmt.Errorf"] = func(e *Engine, fr *frame, a []Value) Value {
		args := a[1].(Slice)
		msg := e.sprintf(fr, a[0], args)
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				if i, ok := x.(Iface); ok && i.T != nil {
					if e.methodByName(i.T, nil, "Error") != nil {
						we := e.prog.pkgs["fmt"].Type("wrapError")
						if we != nil {
							return Iface{types.NewPointer(we.Type()), newCell(Struct{msg, i})}
						}
					}
				}
			}
		}
		return e.prog.newError(msg)
	}
	n["fmt.Sprintf"] = func(e *Engine, fr *frame, a []Value) Value { return e.sprintf(fr, a[0], a[1].(Slice)) }
	sprint := func(sep bool, nl string) nativeFn {
		return func(e *Engine, fr *frame, a []Value) Value {
			var r Value = ""
			for i, x := range a[0].(Slice) {
				if i > 0 && sep {
					r = concat(r, " ")
				}
				s, ok := e.fmtArg(fr, 'v', x.(Iface))
				if !ok {
					r = concat(r, &OStr{"?"})
				} else {
					r = concat(r, s)
				}
			}
			return concat(r, nl)
		}
	}
	n["fmt.Sprint"] = sprint(false, "")
	n["fmt.Sprintln"] = sprint(true, "\n")

	bytesOf := func(e *Engine, v Value) []Value {
		switch v := v.(type) {
		case Slice:
			if e.onAccess != nil {
				for i := range v {
					e.onAccess(&v[i], false)
				}
			}
			return v
		}
		bs, ok := strBytes(v)
		if !ok {
			e.unsupported("bytes of opaque string")
		}
		return bs
	}
	indexByte := func(e *Engine, fr *frame, a []Value) Value {
		for i, b := range bytesOf(e, a[0]) {
			if e.decide(e.dom.eq(b, a[1], 8)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	lastIndexByte := func(e *Engine, fr *frame, a []Value) Value {
		bs := bytesOf(e, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if e.decide(e.dom.eq(bs[i], a[1], 8)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	for _, s := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		n[s] = indexByte
	}
	for _, s := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		n[s] = lastIndexByte
	}
	eqBytes := func(e *Engine, p, q []Value) Bit {
		if len(p) != len(q) {
			return bFalse
		}
		r := bTrue
		for i := range p {
			r = e.dom.And(r, e.dom.eq(p[i], q[i], 8))
		}
		return r
	}
	equal := func(e *Engine, fr *frame, a []Value) Value {
		return abool(eqBytes(e, bytesOf(e, a[0]), bytesOf(e, a[1])))
	}
	n["bytes.Equal"] = equal
	n["internal/bytealg.Equal"] = equal
	index := func(e *Engine, fr *frame, a []Value) Value {
		p, q := bytesOf(e, a[0]), bytesOf(e, a[1])
		for i := 0; i+len(q) <= len(p); i++ {
			if e.decide(eqBytes(e, p[i:i+len(q)], q)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	for _, s := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		n[s] = index
	}
	count := func(e *Engine, fr *frame, a []Value) Value {
		c := uint64(0)
		for _, b := range bytesOf(e, a[0]) {
			if e.decide(e.dom.eq(b, a[1], 8)) {
				c++
			}
		}
		return c
	}
	n["internal/bytealg.Count"] = count
	n["internal/bytealg.CountString"] = count
	compare := func(e *Engine, fr *frame, a []Value) Value {
		p, q := bytesOf(e, a[0]), bytesOf(e, a[1])
		x, ok1 := strFromBytes(p).(string)
		y, ok2 := strFromBytes(q).(string)
		if !ok1 || !ok2 {
			e.unsupported("comparison of abstract byte strings")
		}
		return uint64(int64(strings.Compare(x, y)))
	}
	n["bytes.Compare"] = compare
	n["internal/bytealg.Compare"] = compare
	n["internal/bytealg.CompareString"] = compare
	n["internal/bytealg.MakeNoZero"] = func(e *Engine, fr *frame, a []Value) Value {
		k := int64(e.concretize(a[0]))
		return e.makeSlice(types.Typ[types.Uint8], k, k)
	}
	decode := func(e *Engine, fr *frame, a []Value) Value {
		bs := bytesOf(e, a[0])
		if len(bs) == 0 {
			return Tuple{uint64(utf8.RuneError), uint64(0)}
		}
		r, k := e.decodeRune(bs)
		return Tuple{r, uint64(k)}
	}
	n["unicode/utf8.DecodeRune"] = decode
	n["unicode/utf8.DecodeRuneInString"] = decode
	n["unicode/utf8.FullRune"] = func(e *Engine, fr *frame, a []Value) Value {
		bs := bytesOf(e, a[0])
		if len(bs) > 0 && !e.decide(lift(e.dom.normVal(bs[0]), 8).b[7]) {
			return true
		}
		var buf []byte
		for _, b := range bs {
			buf = append(buf, byte(e.concretize(b)))
		}
		return utf8.FullRune(buf)
	}
}

var _ = bytes.Equal
var _ = errors.New
var _ = (*ssa.Function)(nil)
