package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// law is one named case of a check that is not a codec declaration.
type law struct {
	name string
	f    func(r *run)
}

func (c *Ctx) laws(ls []law) *Result {
	if c.filter != "" {
		var f []law
		for _, x := range ls {
			if strings.Contains(x.name, c.filter) {
				f = append(f, x)
			}
		}
		ls = f
	}
	const batch = 8
	return c.parallel((len(ls)+batch-1)/batch, func(e *Engine, res *Result, i int) {
		for j := i * batch; j < (i+1)*batch && j < len(ls); j++ {
			l := ls[j]
			r := &run{e: e, res: res, prop: c.prop, thorough: c.thorough, name: l.name}
			c.budget(e)
			res.cases++
			r.explore(func() {
				defer func() {
					if x := recover(); x != nil {
						if p, ok := x.(exprPanic); ok {
							r.requireB("no-panic", false, "panics: "+e.describe(p.p), nil, p.trace...)
							return
						}
						panic(x)
					}
				}()
				l.f(r)
			})
			e.stop = nil
			if len(res.samples) < 4 {
				res.samples = append(res.samples, r.name)
			}
		}
	})
}

// plus adds the results of a second family of cases.
func (a *Result) plus(b *Result) *Result {
	a.merge(b)
	for f, m := range b.cov {
		if a.cov == nil {
			a.cov = b.cov
			break
		}
		if a.cov[f] == nil {
			a.cov[f] = m
			continue
		}
		for k := range m {
			a.cov[f][k] = true
		}
	}
	return a
}

// meth calls a method of an interface value of package expr.
func (e *Engine) meth(v Iface, name string, args ...Value) callResult {
	f := e.methodByName(v.T, e.prog.pkgs[repoPath+"/expr"].Pkg, name)
	if f == nil {
		panic(abort{"unsupported", fmt.Sprintf("no method %s on %s", name, v.T)})
	}
	return e.call(f, append([]Value{v.V}, args...)...)
}

// must is the value of a call that is required not to panic.
func (r *run) must(what string, c callResult) Value {
	if c.panic != nil {
		r.requireB("no-panic", false, what+" panics: "+r.e.describe(*c.panic), nil, c.trace...)
		panic(abort{"infeasible", ""})
	}
	r.decided("no-panic", "nf")
	return c.v
}

// ---- type mapping

var exprKindNames = map[types.BasicKind]string{
	types.Bool: "Bool", types.Int: "Int", types.Int8: "Int8", types.Int16: "Int16", types.Int32: "Int32", types.Int64: "Int64",
	types.Uint: "Uint", types.Uint8: "Uint8", types.Uint16: "Uint16", types.Uint32: "Uint32", types.Uint64: "Uint64", types.Uintptr: "Uintptr",
	types.Float32: "Float32", types.Float64: "Float64", types.String: "String",
}

// exprKind is the kind of package expr for a Go type, and the name of the
// exported type that represents it.
func exprKind(t types.Type) (kind, typ string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return exprKindNames[u.Kind()], "PrimitiveType"
	case *types.Array:
		return "Array", "ArrayType"
	case *types.Slice:
		return "Slice", "SliceType"
	case *types.Struct:
		return "Struct", "StructType"
	case *types.Map:
		return "Map", "MapType"
	case *types.Pointer:
		return "Ptr", "PtrType"
	case *types.Signature:
		return "Func", "FuncType"
	}
	return "", ""
}

func (e *Engine) exprConst(name string) uint64 {
	o := e.prog.pkgs[repoPath+"/expr"].Pkg.Scope().Lookup(name)
	c, ok := o.(*types.Const)
	if !ok {
		panic(abort{"unsupported", "constant expr." + name + " not found"})
	}
	v, _ := constant.Int64Val(c.Val())
	return uint64(v)
}

type mirrorKey struct {
	t types.Type
	v Value
}

// mirror decides that the expression type et has the structure of t.
func (r *run) mirror(t types.Type, et Value, path string, seen map[mirrorKey]bool) {
	e := r.e
	i, _ := et.(Iface)
	bad := func(f string, a ...interface{}) {
		r.requireB("mirror", false, path+": "+fmt.Sprintf(f, a...), nil)
		panic(abort{"infeasible", ""})
	}
	if i.T == nil {
		bad("no type for %s", typeString(t))
	}
	k := mirrorKey{t, i.V}
	if seen[k] {
		return
	}
	seen[k] = true
	kind, typ := exprKind(t)
	if kind == "" {
		bad("%s is not representable, yet it has type %s", typeString(t), typeString(i.T))
	}
	if g := r.must(path+".Kind()", e.meth(i, "Kind")); g != e.exprConst(kind) {
		bad("kind is %v, expected %s for %s", g, kind, typeString(t))
	}
	p, ok := i.T.(*types.Pointer)
	if n, ok2 := types.Type(nil), false; ok {
		n = p.Elem()
		if nn, isN := n.(*types.Named); isN && nn.Obj().Name() == typ {
			ok2 = true
		}
		ok = ok2
	}
	if !ok {
		bad("represented by %s, expected *%s for %s", typeString(i.T), typ, typeString(t))
	}
	r.decided("mirror", "nf")
	sub := func(t types.Type, name string, args ...Value) {
		p := path + "." + name + "()"
		if len(args) > 0 {
			p = fmt.Sprintf("%s.%s(%v)", path, name, args[0])
		}
		r.mirror(t, r.must(p, e.meth(i, name, args...)), p, seen)
	}
	num := func(name string, want int) {
		if g := r.must(path+"."+name, e.meth(i, name)); g != uint64(want) {
			bad("%s() is %v, expected %d for %s", name, g, want, typeString(t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		num("Len", int(u.Len()))
		sub(u.Elem(), "Elem")
	case *types.Slice:
		sub(u.Elem(), "Elem")
	case *types.Pointer:
		sub(u.Elem(), "Elem")
	case *types.Map:
		sub(u.Key(), "Key")
		sub(u.Elem(), "Value")
	case *types.Struct:
		num("NumFields", u.NumFields())
		field := func(v Value) (string, Value) {
			f, ok := v.(Struct)
			if !ok || len(f) != 2 {
				panic(abort{"unsupported", "shape of expr.Field"})
			}
			n, _ := f[0].(string)
			return n, f[1]
		}
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			n, ft := field(r.must(path+".Field", e.meth(i, "Field", uint64(j))))
			if n != f.Name() {
				bad("field %d is named %q, expected %q", j, n, f.Name())
			}
			r.mirror(f.Type(), ft, path+"."+f.Name(), seen)
			tu := r.must(path+".FieldByName", e.meth(i, "FieldByName", f.Name())).(Tuple)
			if tu[1] != true {
				bad("FieldByName(%q) finds nothing", f.Name())
			}
			n, ft = field(tu[0])
			if n != f.Name() {
				bad("FieldByName(%q) yields %q", f.Name(), n)
			}
			r.mirror(f.Type(), ft, path+"."+f.Name(), seen)
		}
		for _, n := range []string{"", "Nope", "nope"} {
			if tu := r.must(path+".FieldByName", e.meth(i, "FieldByName", n)).(Tuple); tu[1] != false {
				bad("FieldByName(%q) finds a field", n)
			}
		}
	case *types.Signature:
		num("NumIn", u.Params().Len())
		num("NumOut", u.Results().Len())
		if g := r.must(path+".IsVariadic", e.meth(i, "IsVariadic")); g != u.Variadic() {
			bad("IsVariadic() is %v for %s", g, typeString(t))
		}
		for j := 0; j < u.Params().Len(); j++ {
			sub(u.Params().At(j).Type(), "In", uint64(j))
		}
		for j := 0; j < u.Results().Len(); j++ {
			sub(u.Results().At(j).Type(), "Out", uint64(j))
		}
	}
}

// sameShape is whether two Go types have the same structure.
func sameShape(a, b types.Type, seen map[[2]types.Type]bool) bool {
	k := [2]types.Type{a, b}
	if seen[k] {
		return true
	}
	seen[k] = true
	ka, _ := exprKind(a)
	kb, _ := exprKind(b)
	if ka != kb {
		return false
	}
	switch x := a.Underlying().(type) {
	case *types.Array:
		y := b.Underlying().(*types.Array)
		return x.Len() == y.Len() && sameShape(x.Elem(), y.Elem(), seen)
	case *types.Slice:
		return sameShape(x.Elem(), b.Underlying().(*types.Slice).Elem(), seen)
	case *types.Pointer:
		return sameShape(x.Elem(), b.Underlying().(*types.Pointer).Elem(), seen)
	case *types.Map:
		y := b.Underlying().(*types.Map)
		return sameShape(x.Key(), y.Key(), seen) && sameShape(x.Elem(), y.Elem(), seen)
	case *types.Struct:
		y := b.Underlying().(*types.Struct)
		if x.NumFields() != y.NumFields() {
			return false
		}
		for i := 0; i < x.NumFields(); i++ {
			if x.Field(i).Name() != y.Field(i).Name() || !sameShape(x.Field(i).Type(), y.Field(i).Type(), seen) {
				return false
			}
		}
	case *types.Signature:
		y := b.Underlying().(*types.Signature)
		if x.Variadic() != y.Variadic() || x.Params().Len() != y.Params().Len() || x.Results().Len() != y.Results().Len() {
			return false
		}
		for i := 0; i < x.Params().Len(); i++ {
			if !sameShape(x.Params().At(i).Type(), y.Params().At(i).Type(), seen) {
				return false
			}
		}
		for i := 0; i < x.Results().Len(); i++ {
			if !sameShape(x.Results().At(i).Type(), y.Results().At(i).Type(), seen) {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) goodTypes() []types.Type {
	ts := primEnvTypes()
	for _, n := range append(append([]string{}, xNamed...), "XIn", "XIn2", "XIn3", "XFlip", "XEmb", "XSt", "XRec", "XRecB", "XRecC", "XS", "XP", "XM", "XF", "XFV", "XMutA", "XMutB", "XNode", "XNode2", "XNode3", "XEmpty", "XDeep") {
		ts = append(ts, c.catType(n))
	}
	in := c.catType("XIn")
	str, u8 := types.Typ[types.String], types.Typ[types.Uint8]
	sig := func(v bool, in []types.Type, out ...types.Type) types.Type {
		tup := func(ts []types.Type) *types.Tuple {
			var vs []*types.Var
			for _, t := range ts {
				vs = append(vs, types.NewParam(0, nil, "", t))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(in), tup(out), v)
	}
	for _, n := range []string{"XInc", "XSub", "XMix", "XTwo", "XNone", "XZero", "XPtr", "XStruct", "XFunc"} {
		ts = append(ts, c.prog.cat.Func(n).Signature)
	}
	return append(ts,
		types.NewArray(u8, 0), types.NewArray(u8, 1), types.NewArray(u8, 3), types.NewArray(types.Typ[types.Int8], 3), types.NewArray(types.NewArray(u8, 3), 2), types.NewArray(types.NewArray(u8, 2), 3), types.NewArray(in, 2),
		types.NewSlice(u8), types.NewSlice(str), types.NewSlice(in), types.NewSlice(types.NewSlice(in)), types.NewSlice(types.NewPointer(in)), types.NewSlice(types.NewArray(u8, 4)),
		types.NewPointer(u8), types.NewPointer(in), types.NewPointer(types.NewPointer(in)), types.NewPointer(types.NewSlice(u8)), types.NewPointer(c.catType("XRec")), types.NewPointer(c.catType("XIn2")),
		types.NewMap(str, u8), types.NewMap(u8, str), types.NewMap(str, in), types.NewMap(in, types.NewPointer(in)), types.NewMap(str, types.NewMap(str, u8)), types.NewMap(c.catType("XString"), c.catType("XUint8")),
		sig(false, nil), sig(false, []types.Type{u8}), sig(false, nil, u8), sig(false, []types.Type{str, u8}, u8), sig(false, []types.Type{u8, str}, u8), sig(false, []types.Type{u8}, str, u8), sig(true, []types.Type{str, types.NewSlice(u8)}, u8), sig(true, []types.Type{types.NewSlice(u8)}, u8), sig(false, []types.Type{types.NewSlice(u8)}, u8), sig(true, []types.Type{types.NewSlice(u8)}), sig(true, []types.Type{u8, str, types.NewSlice(types.NewSlice(u8))}, u8), sig(false, []types.Type{str, types.NewSlice(u8)}, u8), sig(false, []types.Type{sig(false, []types.Type{u8}, u8)}, sig(false, nil, in)),
	)
}

func (c *Ctx) badTypes() []types.Type {
	var ts []types.Type
	for _, n := range []string{"XBadChan", "XBadIf", "XBadCpx", "XBadRec", "XBadMut", "XBadOther", "XBadLater"} {
		ts = append(ts, c.catType(n))
	}
	ch := types.NewChan(types.SendRecv, types.Typ[types.Int])
	iface := types.NewInterfaceType(nil, nil)
	iface.Complete()
	cp := types.Typ[types.Complex64]
	vars := func(ts ...types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewParam(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	u8 := types.Typ[types.Uint8]
	return append(ts, ch, cp, types.Typ[types.Complex128], types.Typ[types.UnsafePointer],
		types.NewSlice(iface), types.NewPointer(iface), types.NewArray(ch, 2), types.NewMap(types.Typ[types.String], iface), types.NewMap(iface, u8), types.NewSlice(types.NewPointer(c.catType("XBadRec"))),
		types.NewSignatureType(nil, nil, nil, vars(u8, iface), vars(u8), false), types.NewSignatureType(nil, nil, nil, vars(u8), vars(cp), false), types.NewPointer(types.NewSlice(cp)), types.NewSlice(ch), types.NewArray(c.catType("XBadMut"), 1), types.NewPointer(c.catType("XBadLater")))
}

func (e *Engine) zeroIface(t types.Type) Iface { return Iface{t, zero(t)} }

func (r *run) typeOf(t types.Type) callResult {
	return r.e.call(r.e.exprFn("TypeOf"), r.e.zeroIface(t))
}

func (r *run) good(t types.Type) Iface {
	v := r.must("TypeOf("+typeString(t)+")", r.typeOf(t))
	r.must("TypeOf("+typeString(t)+").String()", r.e.meth(v.(Iface), "String"))
	r.mirror(t, v, "TypeOf("+typeString(t)+")", map[mirrorKey]bool{})
	return v.(Iface)
}

func (r *run) bad(t types.Type) {
	c := r.typeOf(t)
	if c.panic == nil {
		r.requireB("rejects", false, fmt.Sprintf("TypeOf accepts %s, which is not representable", typeString(t)), nil)
		return
	}
	r.decided("rejects", "nf")
}

func (c *Ctx) e08() []law {
	var ls []law
	goods, bads := c.goodTypes(), c.badTypes()
	for _, t := range goods {
		t := t
		ls = append(ls, law{"mirror " + typeString(t), func(r *run) {
			a := r.good(t)
			b := r.good(t)
			r.typeEqual(t, t, a, b)
			// the type of a value is the type of its Go type
			v := r.must("ValueOf", r.e.call(r.e.exprFn("ValueOf"), r.e.zeroIface(t)))
			r.mirror(t, r.must("Type()", r.e.meth(v.(Iface), "Type")), "ValueOf("+typeString(t)+").Type()", map[mirrorKey]bool{})
		}})
	}
	for _, b := range bads {
		for _, g := range goods {
			b, g := b, g
			if _, ok := g.Underlying().(*types.Basic); ok && !c.thorough {
				continue
			}
			ls = append(ls, law{"reject " + typeString(b) + " around " + typeString(g), func(r *run) {
				r.bad(b)
				r.bad(b)
				r.good(g)
				r.bad(b)
				r.good(g)
			}})
		}
		for _, b2 := range bads {
			b, b2 := b, b2
			ls = append(ls, law{"reject " + typeString(b) + " and " + typeString(b2), func(r *run) {
				r.good(c.catType("XMutB"))
				r.bad(b)
				r.bad(b2)
				r.bad(b)
				r.good(c.catType("XMutA"))
				r.good(c.catType("XNode"))
			}})
		}
	}
	for i, a := range goods {
		for j, b := range goods {
			if j < i && !c.thorough {
				continue
			}
			a, b := a, b
			ls = append(ls, law{"equality of " + typeString(a) + " and " + typeString(b), func(r *run) {
				x, y := r.good(a), r.good(b)
				r.typeEqual(a, b, x, y)
			}})
		}
	}
	return ls
}

func (r *run) typeEqual(a, b types.Type, x, y Iface) {
	g := r.must("TypeEqual", r.e.call(r.e.exprFn("TypeEqual"), x, y))
	want := sameShape(a, b, map[[2]types.Type]bool{})
	r.requireB("equal", g == want, fmt.Sprintf("TypeEqual of %s and %s is %v, expected %v", typeString(a), typeString(b), g, want), nil)
}

func init() {
	checks["E08"] = checkFn{func(c *Ctx) *Result { return c.laws(c.e08()) },
		"abstract interpretation of the SSA of the type mapping for each Go type of an enumerated family, walking the resulting type through its exported methods in step with the Go type; sequences of accepted and rejected types on one process state"}
}
