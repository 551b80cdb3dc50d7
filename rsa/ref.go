package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// An independent reference model of the wire format: what the documentation of
// the struct tag language says a declaration means, evaluated on abstract
// values. It shares no code with the analysed package.

type rfield struct {
	name    string
	idx     int
	nat     types.Type
	bin     types.Type
	order   int // 0 inherit, 1 little, 2 big
	skip    int
	bits    int
	variant bool
	invert  bool
	root    bool
	parent  bool
	def     bool
	count   int // index of the field that holds this field's count, or -1
	target  int // index of the field this one counts, or -1
	hints   map[string]string

	ifE, sizeE, bitsE, inE, outE, whileE, switchE, caseE *rx
}

func splitTop(s string) []string {
	var parts []string
	depth := 0
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case '"', '\'':
			q := s[i]
			for i++; i < len(s) && s[i] != q; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case ',':
			if depth == 0 {
				parts = append(parts, s[start:i])
				start = i + 1
			}
		}
	}
	return append(parts, s[start:])
}

// refType is the type a type string spells.
func refType(s string) types.Type {
	switch s {
	case "string":
		return types.NewSlice(types.Typ[types.Uint8])
	case "byte":
		return types.Typ[types.Uint8]
	case "rune":
		return types.Typ[types.Int32]
	}
	if strings.HasPrefix(s, "*") {
		if t := refType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := refType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[") {
		j := strings.IndexByte(s, ']')
		if j < 0 {
			return nil
		}
		n, err := strconv.ParseInt(s[1:j], 0, 32)
		if err != nil {
			return nil
		}
		if t := refType(s[j+1:]); t != nil {
			return types.NewArray(t, n)
		}
		return nil
	}
	for _, b := range types.Typ {
		if b.Name() == s && b.Info()&types.IsUntyped == 0 && b.Kind() != types.Invalid {
			return b
		}
	}
	return nil
}

func refFields(t types.Type) []rfield {
	st := t.Underlying().(*types.Struct)
	var fs []rfield
	sizeof := map[string][]int{}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if !v.Exported() && v.Name() != "_" {
			continue
		}
		tag := reflect.StructTag(st.Tag(i))
		opt := tag.Get("struct")
		if opt == "-" {
			continue
		}
		f := rfield{name: v.Name(), idx: i, nat: v.Type(), bin: v.Type(), count: -1, target: -1, hints: map[string]string{}}
		for _, h := range strings.Split(tag.Get("ref"), ",") {
			if k, val, ok := strings.Cut(h, "="); ok {
				f.hints[k] = val
			} else if h != "" {
				f.hints[h] = ""
			}
		}
		exprs := map[string]string{}
		for _, k := range []string{"if", "size", "bits", "in", "out", "while", "switch", "case"} {
			if s := tag.Get("struct-" + k); s != "" {
				exprs[k] = s
			}
		}
		var sizefrom string
		if opt != "" {
			for _, o := range splitTop(opt) {
				k, val, hasVal := strings.Cut(o, "=")
				if !hasVal {
					k = o
				}
				switch k {
				case "little", "lsb":
					f.order = 1
				case "big", "msb", "network":
					f.order = 2
				case "variantbool":
					f.variant = true
				case "invertedbool":
					f.invert = true
				case "root":
					f.root = true
				case "parent":
					f.parent = true
				case "default":
					f.def = true
				case "sizeof":
					sizeof[val] = append(sizeof[val], i)
				case "sizefrom":
					sizefrom = val
				case "skip":
					n, _ := strconv.ParseInt(val, 0, 64)
					f.skip = int(n)
				case "if", "size", "bits", "in", "out", "while", "switch", "case":
					exprs[k] = val
				default:
					ts, bs, hasBits := strings.Cut(o, ":")
					f.bin = refType(ts)
					if hasBits {
						n, _ := strconv.ParseUint(bs, 0, 8)
						f.bits = int(n)
					}
				}
			}
		}
		for _, j := range sizeof[f.name] {
			f.count = j // the last of several counts is the one decoding goes by
			for k := range fs {
				if fs[k].idx == j {
					fs[k].target = i
				}
			}
		}
		if sizefrom != "" {
			for k := range fs {
				if fs[k].name == sizefrom {
					f.count = fs[k].idx
					fs[k].target = i
				}
			}
		}
		px := func(k string) *rx {
			if s, ok := exprs[k]; ok {
				return parseRefExpr(s)
			}
			return nil
		}
		f.ifE, f.sizeE, f.bitsE, f.inE, f.outE = px("if"), px("size"), px("bits"), px("in"), px("out")
		f.whileE, f.switchE, f.caseE = px("while"), px("switch"), px("case")
		fs = append(fs, f)
	}
	return fs
}

type rframe struct {
	t types.Type
	v Struct
	p *Value // cell of the structure where it has one
}

type refc struct {
	e        *Engine
	fields   map[types.Type][]rfield
	out      []Bit // encoding
	in       []Bit // decoding
	pos      int
	stack    []rframe
	little   bool
	free     bool // leave don't-care bits and booleans unconstrained
	nfree    int
	growing  int // frames from here on are elements of a slice still growing
	packing  bool
	decoding bool
	custom   map[string]customRef
	// the recorded finding: int8:n is extended from its lowest bit
	int8Low bool
}

// customRef is the reference behaviour of a catalogue type with its own
// methods.
type customRef struct {
	enc  func(r *refc, v Value)
	dec  func(r *refc) Value
	fail bool
}

func newRef(e *Engine) *refc {
	return &refc{e: e, fields: map[types.Type][]rfield{}, custom: customs}
}

func (r *refc) fieldsOf(t types.Type) []rfield {
	if f, ok := r.fields[t]; ok {
		return f
	}
	f := refFields(t)
	r.fields[t] = f
	return f
}

func (r *refc) lookup(name string) (xval, bool) {
	if name == "_eof" {
		if r.decoding {
			return xval{r.pos >= len(r.in), types.Typ[types.Bool]}, true
		}
		return xval{r.packing, types.Typ[types.Bool]}, true
	}
	if len(r.stack) == 0 {
		return xval{}, false
	}
	top := r.stack[len(r.stack)-1]
	st := top.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			v := top.v[i]
			return xval{v, st.Field(i).Type()}, true
		}
	}
	return xval{}, false
}

// ancestor is the enclosing structure that fits a root or parent field, or
// nil; the field is left alone then.
func (r *refc) ancestor(f rfield) (c *Value, moved bool) {
	fits := func(t types.Type) bool { return types.AssignableTo(types.NewPointer(t), f.nat) }
	cell := func(k int) *Value {
		c := new(Value)
		*c = r.stack[k].v
		return c
	}
	if f.root {
		if len(r.stack) > 0 && fits(r.stack[0].t) {
			return cell(0), false
		}
		return nil, false
	}
	for i := len(r.stack) - 2; i >= 0; i-- {
		if fits(r.stack[i].t) {
			return cell(i), r.growing > 0 && i >= r.growing
		}
	}
	return nil, false
}

// xAnc stands for a pointer to the root or to the enclosing structure.
type xAnc struct {
	root  bool
	c     *Value
	moved bool // the structure lies in an element of a slice that grows while it is decoded
}

// xFresh stands for a pointer to a newly allocated value; an existing target
// may be kept where a custom unmarshaler rewrites it.
type xFresh struct {
	v    Value
	keep bool
}

func (r *refc) cond(x *rx) bool {
	if x == nil {
		return true
	}
	v := r.e.xeval(r, x)
	if k, _, _ := basicInfo(v.t); k != kBool {
		refErr("condition is not boolean")
	}
	return r.e.decideV(v.v)
}

func (r *refc) intExpr(x *rx) int {
	v := r.e.xeval(r, x)
	k, w, signed := basicInfo(v.t)
	if k != kInt {
		refErr("integer expected")
	}
	c := r.e.concretize(v.v)
	if signed {
		return int(sext(c, w))
	}
	return int(c)
}

func (r *refc) zeros(n int) {
	for i := 0; i < n; i++ {
		if r.free {
			r.out = append(r.out, r.e.dom.Var("free."+strconv.Itoa(r.nfree)))
			r.nfree++
		} else {
			r.out = append(r.out, bFalse)
		}
	}
}

// emit appends n bits of a word of width w.
func (r *refc) emit(v Value, w, n int) {
	b := lift(v, w).b
	if !r.little {
		for i := n - 1; i >= 0; i-- {
			r.out = append(r.out, b[i])
		}
		return
	}
	for lo := 0; lo < n; lo += 8 {
		hi := lo + 8
		if hi > n {
			hi = n
		}
		for i := hi - 1; i >= lo; i-- {
			r.out = append(r.out, b[i])
		}
	}
}

func (r *refc) take(n int) []Bit {
	if n < 0 || r.pos+n > len(r.in) {
		refErr("input too short")
	}
	b := r.in[r.pos : r.pos+n]
	r.pos += n
	return b
}

// word reads n bits as a word of width w.
func (r *refc) word(w, n int, signed bool) Value {
	s := r.take(n)
	b := make([]Bit, w)
	k := 0
	if !r.little {
		for i := n - 1; i >= 0; i-- {
			b[i] = s[k]
			k++
		}
	} else {
		for lo := 0; lo < n; lo += 8 {
			hi := lo + 8
			if hi > n {
				hi = n
			}
			for i := hi - 1; i >= lo; i-- {
				b[i] = s[k]
				k++
			}
		}
	}
	if signed {
		for i := n; i < w; i++ {
			b[i] = b[n-1]
		}
	}
	return lower(&BV{b})
}

func (r *refc) byteAt(i int) Value {
	b := make([]Bit, 8)
	for j := range b {
		b[7-j] = r.in[i*8+j]
	}
	return lower(&BV{b})
}

// width is the number of bits a scalar occupies.
func scalarBits(t types.Type) int {
	switch rkind(t) {
	case reflect.Bool:
		return 8
	case reflect.Int, reflect.Uint:
		return 32
	}
	_, w, _ := basicInfo(t)
	return w
}

func isScalar(t types.Type) bool {
	switch k, _, _ := basicInfo(t); k {
	case kBool, kInt, kFloat, kComplex:
		return true
	}
	return false
}

func (r *refc) fieldBits(f rfield) int {
	n := f.bits
	if f.bitsE != nil {
		n = r.intExpr(f.bitsE)
		if _, w, _ := basicInfo(f.bin); n < 0 || n > w {
			refErr("bit count out of range")
		}
	}
	return n
}

func elemField(f rfield) rfield {
	el := func(t types.Type) types.Type {
		if k, _, _ := basicInfo(t); k == kString {
			return types.Typ[types.Uint8]
		}
		return types.Unalias(elemType(t))
	}
	return rfield{name: "*" + f.name, idx: -1, nat: el(f.nat), bin: el(f.bin), count: -1, target: -1, hints: map[string]string{}}
}

func topField(t types.Type) rfield {
	return rfield{idx: -1, nat: t, bin: t, count: -1, target: -1, hints: map[string]string{}}
}

func customName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// encode appends the encoding of v (a field's native value); set is called
// when the value itself is changed (counts).
func (r *refc) encode(f rfield, v Value, set func(Value)) {
	if f.root || f.parent {
		if a, moved := r.ancestor(f); set != nil && a != nil {
			set(xAnc{f.root, a, moved})
		}
		return
	}
	if !r.cond(f.ifE) {
		return
	}
	if f.order != 0 {
		old := r.little
		r.little = f.order == 1
		defer func() { r.little = old }()
	}
	r.zeros(f.skip * 8)
	if f.name == "_" {
		r.zeros(r.sizeOf(f))
		return
	}
	if f.switchE != nil {
		m, ok := r.selectCase(f)
		if ok {
			s := v.(Struct)
			r.encode(m, s[m.idx], func(x Value) { s[m.idx] = x })
		}
		return
	}
	if c, ok := r.custom[customName(f.nat)]; ok && (c.enc != nil || c.fail) {
		var cv Value = v
		if _, isP := f.nat.Underlying().(*types.Pointer); isP {
			p := v.(*Value)
			if p == nil {
				return
			}
			cv = *p
		}
		if c.fail {
			refErr("custom marshaler fails")
		}
		c.enc(r, cv)
		return
	}
	if f.target >= 0 {
		top := r.stack[len(r.stack)-1]
		n := uint64(lenOf(top.v[f.target]))
		_, w, signed := basicInfo(f.bin)
		_, nw, nsigned := basicInfo(f.nat)
		b := r.fieldBits(f)
		if b == 0 {
			b = w
		}
		if signed {
			b--
		}
		if nsigned {
			nw--
		}
		if n>>uint(b) != 0 || n>>uint(nw) != 0 {
			refErr("count does not fit")
		}
		v = n
		set(v)
	}
	ov, ot := v, f.nat
	if f.outE != nil {
		x := r.e.xeval(r, f.outE)
		if isUntyped(x.t) {
			x = r.e.xconv(x, defaultType(x.t))
		}
		ov, ot = x.v, x.t
	}
	if isScalar(f.bin) {
		n := r.fieldBits(f)
		if n == 0 {
			n = scalarBits(f.bin)
			if k, w, _ := basicInfo(f.bin); k == kComplex {
				n = w / 2
			}
		}
		r.scalar(f, ov, ot, n)
		return
	}
	switch rkind(f.bin) {
	case reflect.Ptr:
		p := v.(*Value)
		if p == nil {
			return
		}
		r.encode(elemField(f), *p, func(x Value) { *p = x })
	case reflect.Array, reflect.Slice, reflect.String:
		n := lenOf(ov)
		if f.sizeE != nil {
			if k := r.intExpr(f.sizeE); k != n {
				refErr("length differs from size expression")
			}
		} else if k, _, _ := basicInfo(f.nat); f.count >= 0 && (k == kSlice || k == kString) {
			// a count that several fields share, or that is absent
			top := r.stack[len(r.stack)-1]
			_, w, _ := basicInfo(top.t.Underlying().(*types.Struct).Field(f.count).Type())
			if !r.e.decide(r.e.dom.eq(top.v[f.count], uint64(n), w)) {
				refErr("length differs from count")
			}
		}
		ef := elemField(f)
		cp := n
		if a, ok := f.bin.Underlying().(*types.Array); ok {
			cp = int(a.Len())
		}
		if n > cp {
			refErr("value longer than its binary array")
		}
		for i := 0; i < n; i++ {
			r.encode(ef, elemAt(ov, i), func(x Value) { setElem(ov, i, x) })
		}
		for i := n; i < cp; i++ {
			zf := ef
			zf.nat = ef.bin
			if r.free {
				r.zeros(r.sizeOf(topField(ef.bin)))
				continue
			}
			r.encode(zf, zero(ef.bin), func(Value) {})
		}
	case reflect.Struct:
		s := ov.(Struct)
		r.stack = append(r.stack, rframe{t: f.bin, v: s})
		for _, sf := range r.fieldsOf(f.bin) {
			r.encode(sf, s[sf.idx], func(x Value) { s[sf.idx] = x })
		}
		r.stack = r.stack[:len(r.stack)-1]
	default:
		panic("reference encode " + f.bin.String())
	}
}

func defaultType(t types.Type) types.Type {
	return types.Default(t)
}

func lenOf(v Value) int {
	switch v := v.(type) {
	case Slice:
		return len(v)
	case Array:
		return len(v)
	}
	bs, _ := strBytes(v)
	return len(bs)
}

func elemAt(v Value, i int) Value {
	switch v := v.(type) {
	case Slice:
		return v[i]
	case Array:
		return v[i]
	}
	bs, _ := strBytes(v)
	return bs[i]
}

func setElem(v Value, i int, x Value) {
	switch v := v.(type) {
	case Slice:
		v[i] = x
	case Array:
		v[i] = x
	}
}

func (r *refc) boolWord(f rfield, v Value, n int) Value {
	b := boolBit(v)
	if f.invert {
		b = b.Not()
	}
	w := &BV{make([]Bit, n)}
	for i := range w.b {
		if i == 0 || f.variant {
			w.b[i] = b
		}
	}
	return lower(w)
}

func (r *refc) scalar(f rfield, v Value, vt types.Type, n int) {
	e := r.e
	vk, vw, vs := basicInfo(vt)
	bk, bw, _ := basicInfo(f.bin)
	switch {
	case vk == kBool:
		if r.free {
			r.zeros(n)
			return
		}
		r.emit(r.boolWord(f, v, n), n, n)
	case bk == kInt || bk == kBool:
		if vk != kInt {
			refErr("number expected")
		}
		w := 64
		r.emit(e.dom.resize(v, vw, w, vs), w, n)
	case bk == kFloat:
		r.emit(e.dom.floatBits(e.dom.floatConv(v, vw, bw), bw), bw, n)
	case bk == kComplex:
		re, im := realImag(v)
		r.emit(e.dom.floatBits(e.dom.floatConv(re, vw/2, bw/2), bw/2), bw/2, n)
		r.emit(e.dom.floatBits(e.dom.floatConv(im, vw/2, bw/2), bw/2), bw/2, n)
	default:
		panic("reference scalar " + f.bin.String())
	}
}

// sizeOf is the size in bits of a constant-size declaration.
func (r *refc) sizeOf(f rfield) int {
	if isScalar(f.bin) {
		n := r.fieldBits(f)
		if n == 0 {
			return scalarBits(f.bin)
		}
		if k, _, _ := basicInfo(f.bin); k == kComplex {
			n *= 2
		}
		return n
	}
	switch u := f.bin.Underlying().(type) {
	case *types.Array:
		return int(u.Len()) * r.sizeOf(topField(u.Elem()))
	case *types.Struct:
		n := 0
		for _, sf := range r.fieldsOf(f.bin) {
			n += sf.skip*8 + r.sizeOf(sf)
		}
		return n
	}
	return 0
}

func (r *refc) selectCase(f rfield) (rfield, bool) {
	on := r.e.xeval(r, f.switchE)
	var def *rfield
	for _, m := range r.fieldsOf(f.bin) {
		m := m
		if m.def {
			if def != nil {
				refErr("second default")
			}
			def = &m
			continue
		}
		if m.caseE == nil {
			refErr("member is neither case nor default")
		}
		c := r.e.xeval(r, m.caseE)
		var eq Value
		ck, cw, cs := basicInfo(c.t)
		ok, ow, os := basicInfo(on.t)
		if isUntyped(c.t) && ck == kInt {
			cs = true
		}
		if ck == kInt && ok == kInt {
			// mathematical equality
			a := r.e.dom.resize(c.v, cw, 64, cs)
			b := r.e.dom.resize(on.v, ow, 64, os)
			x := r.e.dom.eq(a, b, 64)
			if cs != os {
				x = r.e.dom.And(x, lift(a, 64).b[63].Not())
			}
			eq = abool(x)
		} else {
			if ck != ok {
				eq = false
			} else {
				eq = r.e.equal(on.t, c.v, on.v)
			}
		}
		if r.e.decideV(eq) {
			return m, true
		}
	}
	if def != nil {
		return *def, true
	}
	return rfield{}, false
}

// decode returns the value a field must hold after decoding, given its
// previous content.
func (r *refc) decode(f rfield, old Value, set func(Value)) {
	if f.root || f.parent {
		if a, moved := r.ancestor(f); a != nil {
			set(xAnc{f.root, a, moved})
		}
		return
	}
	if !r.cond(f.ifE) {
		return
	}
	if f.order != 0 {
		o := r.little
		r.little = f.order == 1
		defer func() { r.little = o }()
	}
	r.take(f.skip * 8)
	if f.name == "_" {
		r.take(r.sizeOf(f))
		return
	}
	if f.switchE != nil {
		s := old.(Struct)
		for _, m := range r.fieldsOf(f.bin) {
			s[m.idx] = zero(m.nat)
		}
		if m, ok := r.selectCase(f); ok {
			r.decode(m, s[m.idx], func(x Value) { s[m.idx] = x })
		}
		return
	}
	if c, ok := r.custom[customName(f.nat)]; ok && !isPtr(f.nat) && (c.dec != nil || c.fail) {
		if c.fail {
			refErr("custom unmarshaler fails")
		}
		set(c.dec(r))
		return
	}
	if isScalar(f.bin) {
		n := r.fieldBits(f)
		r.decScalar(f, n, set)
	} else {
		r.decComposite(f, old, set)
	}
	if f.inE != nil {
		x := r.e.xeval(r, f.inE)
		if isUntyped(x.t) {
			x = r.e.xconv(x, defaultType(x.t))
		}
		if !types.AssignableTo(x.t, f.nat) {
			refErr("in expression of another type")
		}
		set(x.v)
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *refc) decScalar(f rfield, n int, set func(Value)) {
	e := r.e
	nk, nw, _ := basicInfo(f.nat)
	bk, bw, bs := basicInfo(f.bin)
	if n == 0 {
		n = scalarBits(f.bin)
		if bk == kComplex {
			n = bw / 2
		}
	}
	switch {
	case nk == kBool:
		w := r.word(64, n, false)
		b := bFalse
		for _, x := range lift(w, 64).b {
			b = e.dom.Or(b, x)
		}
		if f.invert {
			b = b.Not()
		}
		set(abool(b))
	case bk == kInt || bk == kBool:
		quirk := r.int8Low && bs && bw == 8 && n < 8
		w := r.word(64, n, bs && !quirk)
		if quirk {
			b := append([]Bit(nil), lift(w, 64).b...)
			for i := n; i < len(b); i++ {
				b[i] = b[0]
			}
			w = lower(&BV{b})
		}
		set(e.dom.resize(w, 64, nw, false))
	case bk == kFloat:
		set(e.dom.floatConv(e.dom.floatFromBits(r.word(bw, n, false), bw), bw, nw))
	case bk == kComplex:
		re := e.dom.floatConv(e.dom.floatFromBits(r.word(bw/2, n, false), bw/2), bw/2, nw/2)
		im := e.dom.floatConv(e.dom.floatFromBits(r.word(bw/2, n, false), bw/2), bw/2, nw/2)
		set(mkComplex(re, im))
	}
}

func (r *refc) decComposite(f rfield, old Value, set func(Value)) {
	ef := elemField(f)
	natK := rkind(f.nat)
	switch rkind(f.bin) {
	case reflect.Ptr:
		v := zero(elemType(f.nat))
		_, keep := r.custom[customName(elemType(f.nat))]
		fr := &xFresh{v, keep}
		set(fr)
		r.decode(ef, v, func(x Value) { fr.v = x })
	case reflect.Struct:
		s := old.(Struct)
		r.stack = append(r.stack, rframe{t: f.bin, v: s})
		for _, sf := range r.fieldsOf(f.bin) {
			r.decode(sf, s[sf.idx], func(x Value) { s[sf.idx] = x })
		}
		r.stack = r.stack[:len(r.stack)-1]
		set(s)
	case reflect.Array:
		n := int(f.bin.Underlying().(*types.Array).Len())
		switch natK {
		case reflect.String:
			bs := Array(make([]Value, n))
			for i := range bs {
				r.decode(ef, uint64(0), func(x Value) { bs[i] = x })
			}
			end := n
			for i := range bs {
				if r.e.decide(r.e.dom.eq(bs[i], uint64(0), 8)) {
					end = i
					break
				}
			}
			set(strFromBytes(bs[:end]))
		case reflect.Slice:
			s := make(Slice, n)
			for i := range s {
				s[i] = zero(ef.nat)
			}
			set(s)
			for i := range s {
				r.decode(ef, s[i], func(x Value) { s[i] = x })
			}
		case reflect.Array:
			s := old.(Array)
			if n > len(s) {
				refErr("binary array longer than the native array")
			}
			for i := 0; i < n; i++ {
				r.decode(ef, s[i], func(x Value) { s[i] = x })
			}
		default:
			refErr("invalid array cast")
		}
	case reflect.Slice, reflect.String:
		if f.whileE != nil {
			s := Slice(nil)
			set(s)
			grow := r.growing
			if grow == 0 && natK == reflect.Slice {
				r.growing = len(r.stack)
			}
			defer func() { r.growing = grow }()
			for i := 0; r.cond(f.whileE); i++ {
				if i > 64 {
					panic(abort{"budget", "reference while loop"})
				}
				x := zero(ef.nat)
				r.decode(ef, x, func(y Value) { x = y })
				s = append(s, x)
				set(s)
			}
			return
		}
		n := 0
		if f.sizeE != nil {
			n = r.intExpr(f.sizeE)
		} else if f.count >= 0 {
			top := r.stack[len(r.stack)-1]
			st := top.t.Underlying().(*types.Struct)
			_, w, signed := basicInfo(st.Field(f.count).Type())
			c := r.e.concretize(top.v[f.count])
			n = int(c)
			if signed {
				n = int(sext(c, w))
			}
		}
		if n < 0 {
			refErr("negative length")
		}
		if n > 1<<16 {
			if r.pos+n > len(r.in) && (natK == reflect.String || rkind(ef.bin) != reflect.Struct && rkind(ef.bin) != reflect.Ptr && rkind(ef.bin) != reflect.Slice) {
				refErr("count beyond the input")
			}
			panic(abort{"budget", "count of more than 65536"})
		}
		s := make(Slice, n)
		for i := range s {
			s[i] = zero(ef.nat)
		}
		if natK == reflect.String {
			for i := range s {
				r.decode(ef, s[i], func(x Value) { s[i] = x })
			}
			set(strFromBytes(s))
			return
		}
		set(s)
		for i := range s {
			r.decode(ef, s[i], func(x Value) { s[i] = x })
		}
	}
}

// ---- abstract values of a declaration

type gen struct {
	e      *Engine
	r      *refc
	pre    string
	dirty  bool // previous destination content
	stale  bool // references point elsewhere beforehand
	parsed map[types.Type][]rfield
}

func (g *gen) hintInts(f *rfield, k string, def string) []int64 {
	s, ok := f.hints[k]
	if !ok {
		s = def
	}
	var r []int64
	for _, x := range strings.Split(s, "|") {
		n, err := strconv.ParseInt(x, 0, 64)
		if err != nil {
			panic("hint " + k + "=" + s)
		}
		r = append(r, n)
	}
	return r
}

// value builds an abstract value of type t whose scalars are unknown.
func (g *gen) value(t types.Type, f *rfield, name string, depth int) Value {
	e := g.e
	k, w, _ := basicInfo(t)
	if f == nil {
		f = &rfield{hints: map[string]string{}, bin: t}
	}
	if s, ok := f.hints["vals"]; ok && !g.dirty && k != kStruct {
		opts := strings.Split(s, "|")
		o := opts[e.choose(len(opts), g.pre+name)]
		if o != "*" {
			switch k {
			case kString:
				return o
			case kBool:
				return o == "true"
			}
			n, err := strconv.ParseInt(o, 0, 64)
			if err != nil {
				panic("hint vals=" + s)
			}
			return uint64(n) & mask(w)
		}
	}
	switch k {
	case kBool:
		return ABool{e.dom.Var(g.pre + name + ".0")}
	case kInt:
		bw := w
		signed := false
		if f.bin != nil {
			if bk, x, bs := basicInfo(f.bin); bk == kInt && scalarBits(f.bin) < bw {
				_ = x
				bw = scalarBits(f.bin)
				signed = bs
			}
		}
		if f.bits > 0 && f.hints["wide"] != "" {
			bw = w
		}
		if _, ok := f.hints["full"]; ok {
			bw = w
		}
		if f.target >= 0 && f.nat != nil && f.nat == t {
			// stale counts
		}
		return e.dom.resize(e.dom.SymBV(g.pre+name, bw), bw, w, signed)
	case kFloat:
		bw := w
		if f.bin != nil {
			if bk, x, _ := basicInfo(f.bin); bk == kFloat && x < w {
				bw = x
			}
		}
		return e.dom.floatConv(e.dom.floatFromBits(e.dom.SymBV(g.pre+name, bw), bw), bw, w)
	case kComplex:
		bw := w
		if f.bin != nil {
			if bk, x, _ := basicInfo(f.bin); bk == kComplex && x < w {
				bw = x
			}
		}
		part := func(s string) Value {
			return e.dom.floatConv(e.dom.floatFromBits(e.dom.SymBV(g.pre+name+s, bw/2), bw/2), bw/2, w/2)
		}
		return mkComplex(part("re"), part("im"))
	case kString:
		n := g.length(f, name, depth)
		bs := make([]Value, n)
		for i := range bs {
			bs[i] = e.dom.SymBV(g.pre+name+"["+strconv.Itoa(i)+"]", 8)
		}
		if _, ok := f.hints["nonul"]; ok && !g.dirty {
			for i := range bs {
				if e.decide(e.dom.eq(bs[i], uint64(0), 8)) {
					panic(abort{"infeasible", ""})
				}
			}
		}
		return strFromBytes(bs)
	case kSlice:
		n := g.length(f, name, depth)
		if n < 0 {
			return Slice(nil)
		}
		s := make(Slice, n)
		for i := range s {
			s[i] = g.value(elemType(t), g.elemHint(f), name+"["+strconv.Itoa(i)+"]", depth+1)
		}
		return s
	case kArray:
		a := make(Array, t.Underlying().(*types.Array).Len())
		for i := range a {
			a[i] = g.value(elemType(t), g.elemHint(f), name+"["+strconv.Itoa(i)+"]", depth+1)
		}
		return a
	case kPtr:
		if f.root || f.parent {
			if g.stale {
				// a reference left over from another value
				return newCell(zero(elemType(t)))
			}
			return (*Value)(nil)
		}
		c := 1
		switch f.hints["nil"] {
		case "1":
			c = 0
		case "0":
		default:
			if _, ok := f.hints["nonnil"]; !ok {
				c = e.choose(2, g.pre+name+"?")
			}
		}
		if depth > 6 {
			c = 0
		}
		if c == 0 {
			return (*Value)(nil)
		}
		return newCell(g.value(elemType(t), g.elemHint(f), name+"*", depth+1))
	case kStruct:
		st := t.Underlying().(*types.Struct)
		s := make(Struct, st.NumFields())
		fs := g.r.fieldsOf(t)
		for i := range s {
			var ff *rfield
			for j := range fs {
				if fs[j].idx == i {
					ff = &fs[j]
				}
			}
			fn := name + "." + st.Field(i).Name()
			if name == "" {
				fn = st.Field(i).Name()
			}
			s[i] = g.value(st.Field(i).Type(), ff, fn, depth+1)
		}
		return s
	}
	return zero(t)
}

func (g *gen) elemHint(f *rfield) *rfield {
	h := map[string]string{}
	for k, v := range f.hints {
		if k != "len" && k != "vals" {
			h[k] = v
		}
		if k == "elemlen" {
			h["len"] = v
		}
		if k == "elemvals" {
			h["vals"] = v
		}
	}
	r := &rfield{hints: h, target: -1}
	if f.bin != nil {
		switch b := f.bin.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Pointer:
			r.bin = elemType(b)
		}
	}
	return r
}

func (g *gen) length(f *rfield, name string, depth int) int {
	def := "0|1|2"
	if f.bin != nil {
		if a, ok := f.bin.Underlying().(*types.Array); ok {
			def = "0|" + strconv.FormatInt(a.Len(), 10)
		}
	}
	if g.dirty {
		def = "1"
		if s, ok := f.hints["oldlen"]; ok {
			def = s
		}
		f = &rfield{hints: map[string]string{}}
	}
	ns := g.hintInts(f, "len", def)
	if g.dirty && depth > 3 {
		return 0
	}
	if depth > 5 {
		for _, n := range ns {
			if n == 0 {
				return 0
			}
		}
	}
	return int(ns[g.e.choose(len(ns), g.pre+name+"#")])
}

var _ = token.ADD
