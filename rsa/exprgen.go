package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Generation of the expression texts of E01 to E09.

const exprRule = "abstract interpretation of the SSA of the expression scanner, parser and evaluator for each text of an enumerated family over symbolic operands, compared with an independent reference implementation of Go's lexical rules, precedence, typing and operators"

var (
	xArith = []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^"}
	xShift = []string{"<<", ">>"}
	xComp  = []string{"==", "!=", "<", "<=", ">", ">="}
	xLogic = []string{"&&", "||"}
	xUnary = []string{"-", "+", "!", "^", "*", "&"}
)

var xNamed = []string{"XBool", "XInt", "XInt8", "XUint8", "XUint16", "XInt64", "XFloat32", "XFloat64", "XString"}

func (c *Ctx) catType(name string) types.Type {
	return c.prog.cat.Pkg.Scope().Lookup(name).Type()
}

// xvar builds the variables the expression cases use, by name.
func (c *Ctx) xvars() map[string]func(e *Engine) xbind {
	m := map[string]func(e *Engine) xbind{}
	add := func(name string, t types.Type, f func(e *Engine) Value) {
		m[name] = func(e *Engine) xbind { return xbind{name: name, t: t, v: f(e)} }
	}
	prim := func(n string, t types.Type) {
		for _, p := range []string{"a", "b", "c"} {
			name := p + n
			l := map[string]int{"a": 2, "b": 2, "c": 0}[p]
			add(name, t, func(e *Engine) Value { return e.symOf(t, name, l) })
		}
	}
	for _, t := range primEnvTypes() {
		prim(t.String(), t)
	}
	for _, n := range xNamed {
		prim(n, c.catType(n))
	}
	// short names for the grammar cases
	for _, n := range []string{"a", "b", "c", "d"} {
		add(n, types.Typ[types.Uint8], func(e *Engine) Value { return e.symOf(types.Typ[types.Uint8], n, 0) })
	}
	for _, n := range []string{"p", "q", "r"} {
		add(n, types.Typ[types.Bool], func(e *Engine) Value { return e.symOf(types.Typ[types.Bool], n, 0) })
	}
	add("i", types.Typ[types.Int], func(e *Engine) Value { return e.dom.concreteBelow(e, "i", 5, 1) })
	add("one", types.Typ[types.Int], func(e *Engine) Value { return uint64(1) })
	u8 := types.Typ[types.Uint8]
	u16 := types.Typ[types.Uint16]
	xin := func(e *Engine, p string) Struct {
		return Struct{e.symOf(u8, p+".P", 0), e.symOf(u16, p+".Q", 0)}
	}
	xst := c.catType("XSt")
	fn := func(n string) *ssa.Function { return c.prog.cat.Func(n) }
	mkMap := func(e *Engine, kv ...Value) *Map {
		mm := newMap()
		for i := 0; i < len(kv); i += 2 {
			e.mapPut(mm, types.Typ[types.String], kv[i], kv[i+1])
		}
		return mm
	}
	mkSt := func(e *Engine, p string) Struct {
		return Struct{
			e.symOf(u8, p+".A", 0), e.symOf(u16, p+".B", 0), e.symOf(types.Typ[types.String], p+".S", 3),
			xin(e, p+".In"), newCell(xin(e, p+".PIn")),
			Array{e.symOf(u8, p+".x0", 0), e.symOf(u8, p+".x1", 0), e.symOf(u8, p+".x2", 0)},
			Slice{e.symOf(u16, p+".s0", 0), e.symOf(u16, p+".s1", 0)},
			newCell(Slice{e.symOf(u8, p+".p0", 0), e.symOf(u8, p+".p1", 0)}),
			fn("XInc"), (*Value)(nil),
			mkMap(e, "k", e.symOf(u8, p+".mk", 0), "", e.symOf(u8, p+".me", 0)),
			Struct{e.symOf(u8, p+".E", 0), e.symOf(types.Typ[types.Int], p+".V", 0)},
			e.symOf(u8, p+".N", 0), uint64(9),
		}
	}
	add("st", xst, func(e *Engine) Value { return mkSt(e, "st") })
	add("ps", types.NewPointer(xst), func(e *Engine) Value { return newCell(mkSt(e, "ps")) })
	add("in", c.catType("XIn"), func(e *Engine) Value { return xin(e, "in") })
	add("in2", c.catType("XIn"), func(e *Engine) Value { return xin(e, "in2") })
	add("pin", types.NewPointer(c.catType("XIn")), func(e *Engine) Value { return newCell(xin(e, "pin")) })
	add("nilp", types.NewPointer(c.catType("XIn")), func(e *Engine) Value { return (*Value)(nil) })
	add("ppin", types.NewPointer(types.NewPointer(c.catType("XIn"))), func(e *Engine) Value { return newCell(newCell(xin(e, "ppin"))) })
	xrec := c.catType("XRec")
	rec := func(e *Engine, p string) Struct {
		return Struct{e.symOf(u8, p+".V", 0), newCell(Struct{e.symOf(u8, p+".n.V", 0), (*Value)(nil), Slice(nil)}), Slice{Struct{e.symOf(u8, p+".k.V", 0), (*Value)(nil), Slice{}}}}
	}
	add("rv", xrec, func(e *Engine) Value { return rec(e, "rv") })
	add("rn", types.NewPointer(xrec), func(e *Engine) Value { return newCell(rec(e, "rn")) })
	add("rs", c.catType("XS"), func(e *Engine) Value { return Slice{Slice{}, Slice(nil)} })
	add("rp", c.catType("XP"), func(e *Engine) Value { return newCell((*Value)(nil)) })
	add("rm", c.catType("XM"), func(e *Engine) Value { return mkMap(e, "k", (*Map)(nil)) })
	add("rf", c.catType("XF"), func(e *Engine) Value { return (*ssa.Function)(nil) })
	add("pu", types.NewPointer(u8), func(e *Engine) Value { return newCell(e.symOf(u8, "pu", 0)) })
	add("arr", types.NewArray(u8, 3), func(e *Engine) Value {
		return Array{e.symOf(u8, "arr0", 0), e.symOf(u8, "arr1", 0), e.symOf(u8, "arr2", 0)}
	})
	add("arr2", types.NewArray(u8, 3), func(e *Engine) Value {
		return Array{e.symOf(u8, "brr0", 0), e.symOf(u8, "brr1", 0), e.symOf(u8, "brr2", 0)}
	})
	add("sl", types.NewSlice(u8), func(e *Engine) Value {
		return Slice{e.symOf(u8, "sl0", 0), e.symOf(u8, "sl1", 0), e.symOf(u8, "sl2", 0)}
	})
	add("sl2", types.NewSlice(c.catType("XIn")), func(e *Engine) Value { return Slice{xin(e, "sl2.0"), xin(e, "sl2.1")} })
	add("sla", types.NewSlice(types.NewSlice(u16)), func(e *Engine) Value {
		return Slice{Slice{e.symOf(u16, "sla00", 0)}, Slice{e.symOf(u16, "sla10", 0), e.symOf(u16, "sla11", 0)}}
	})
	add("nils", types.NewSlice(u8), func(e *Engine) Value { return Slice(nil) })
	add("emps", types.NewSlice(u8), func(e *Engine) Value { return Slice{} })
	add("nilm", types.NewMap(types.Typ[types.String], u8), func(e *Engine) Value { return (*Map)(nil) })
	add("m", types.NewMap(types.Typ[types.String], u8), func(e *Engine) Value {
		return mkMap(e, "k", e.symOf(u8, "m.k", 0), "z", e.symOf(u8, "m.z", 0))
	})
	add("mi", types.NewMap(types.Typ[types.Int], u16), func(e *Engine) Value {
		mm := newMap()
		e.mapPut(mm, types.Typ[types.Int], uint64(1), e.symOf(u16, "mi.1", 0))
		e.mapPut(mm, types.Typ[types.Int], uint64(2), e.symOf(u16, "mi.2", 0))
		return mm
	})
	add("mu", types.NewMap(u8, types.Typ[types.String]), func(e *Engine) Value {
		mm := newMap()
		e.mapPut(mm, u8, uint64(1), "one")
		e.mapPut(mm, u8, uint64(255), "max")
		return mm
	})
	for _, n := range []string{"XInc", "XSub", "XMix", "XTwo", "XNone", "XZero", "XPtr", "XNamed", "XStruct", "XFunc", "XPanics"} {
		f := fn(n)
		add(strings.ToLower(n[1:]), f.Signature, func(e *Engine) Value { return f })
	}
	add("nilf", types.NewSignatureType(nil, nil, nil, fn("XInc").Signature.Params(), fn("XInc").Signature.Results(), false), func(e *Engine) Value { return (*ssa.Function)(nil) })
	m["pkg"] = func(e *Engine) xbind {
		return xbind{name: "pkg", pkg: []xbind{
			{name: "X", t: u8, v: e.symOf(u8, "pkg.X", 0)},
			{name: "Y", t: u16, v: e.symOf(u16, "pkg.Y", 0)},
			{name: "Inc", t: fn("XInc").Signature, v: fn("XInc")},
			{name: "In", t: c.catType("XIn"), v: xin(e, "pkg.In")},
			{name: "Sub", pkg: []xbind{{name: "Z", t: u8, v: e.symOf(u8, "pkg.Sub.Z", 0)}}},
		}}
	}
	return m
}

// concreteBelow is one of the integers from -lo to n-1, one partition each.
func (d *Dom) concreteBelow(e *Engine, name string, n, lo int) Value {
	k := e.choose(n+lo, name)
	return uint64(int64(k - lo))
}

// xbase is the environment of the expression cases: only the variables a text
// mentions are built.
func (c *Ctx) xbase() func(e *Engine, text string) []xbind {
	vars := c.xvars()
	return func(e *Engine, text string) []xbind {
		var bs []xbind
		seen := map[string]bool{}
		toks, _ := rxLex(text)
		if toks == nil {
			toks = strings.FieldsFunc(text, func(r rune) bool {
				return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
			})
		}
		for _, t := range toks {
			if f := vars[t]; f != nil && !seen[t] {
				seen[t] = true
				bs = append(bs, f(e))
			}
		}
		return bs
	}
}

func tx(f string, a ...interface{}) exprCase { return exprCase{text: fmt.Sprintf(f, a...)} }

func primNames() []string {
	var r []string
	for _, t := range primEnvTypes() {
		r = append(r, t.String())
	}
	return r
}

func (c *Ctx) e01() []exprCase {
	var cs []exprCase
	names := append(primNames(), xNamed...)
	for _, n := range names {
		for _, o := range xArith {
			cs = append(cs, tx("a%s %s b%s", n, o, n))
		}
		for _, o := range []string{"-", "+", "!", "^"} {
			cs = append(cs, tx("%sa%s", o, n), tx("%s%sa%s", o, o, n), tx("%s(a%s)", o, n))
		}
		for _, o := range xShift {
			for _, m := range append(primNames(), "XUint8", "XUint16", "XInt8", "XString", "XFloat64") {
				cs = append(cs, tx("a%s %s b%s", n, o, m))
			}
			for _, l := range []int{0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 200} {
				cs = append(cs, tx("a%s %s %d", n, o, l))
			}
		}
	}
	for _, n := range xNamed {
		u := strings.ToLower(n[1:])
		for _, o := range xArith {
			cs = append(cs, tx("a%s %s b%s", n, o, u), tx("a%s %s b%s", u, o, n))
		}
	}
	for _, o := range append(append([]string{}, xArith...), xShift...) {
		for _, x := range []string{"st", "arr", "sl", "m", "pu", "inc", "pkg", "nilp", "nil", "in"} {
			cs = append(cs, tx("%s %s %s", x, o, x), tx("%s %s 1", x, o), tx("auint8 %s %s", o, x))
		}
	}
	for _, o := range []string{"-", "+", "!", "^"} {
		for _, x := range []string{"st", "arr", "sl", "m", "pu", "inc", "pkg", "nilp", "nil", "\"s\"", "true", "5", "1.5", "(-5)", "0", "255"} {
			cs = append(cs, tx("%s%s", o, x), tx("%s %s", o, x), tx("%s(%s)", o, x))
		}
		for _, n := range []string{"int", "int64", "float32", "float64"} {
			for _, l := range []string{"5", "0", "200", "1.5"} {
				cs = append(cs, tx("a%s + %s(%s)", n, o, l), tx("%s %s * a%s", o, l, n))
			}
		}
	}
	// chains keep the operand type
	for _, n := range primNames() {
		cs = append(cs, tx("(a%s + b%s) * a%s", n, n, n), tx("a%s - (b%s - c%s)", n, n, n), tx("-(a%s & b%s)", n, n))
	}
	return cs
}

func (c *Ctx) e02() []exprCase {
	var cs []exprCase
	ops := append(append([]string{}, xComp...), xLogic...)
	for _, n := range append(primNames(), xNamed...) {
		for _, o := range ops {
			cs = append(cs, tx("a%s %s b%s", n, o, n), tx("a%s %s a%s", n, o, n))
		}
	}
	for _, n := range xNamed {
		u := strings.ToLower(n[1:])
		for _, o := range ops {
			cs = append(cs, tx("a%s %s b%s", n, o, u), tx("a%s %s b%s", u, o, n))
		}
	}
	for _, n := range primNames() {
		for _, m := range primNames() {
			if n != m {
				for _, o := range ops {
					cs = append(cs, tx("a%s %s b%s", n, o, m))
				}
			}
		}
	}
	for _, x := range []string{"pin", "nilp", "sl", "nils", "emps", "m", "nilm", "inc", "nilf", "st", "arr", "pkg", "auint8", "abool", "astring", "5", "1.5", "true", "\"\"", "nil", "ps", "in"} {
		for _, o := range ops {
			cs = append(cs, tx("%s %s nil", x, o), tx("nil %s %s", o, x))
		}
	}
	for _, o := range ops {
		for _, l := range []string{"astring %s \"\"", "astring %s \"ab\"", "\"ab\" %s bstring", "\"abc\" %s bstring", "cstring %s \"\"", "\"a\" %s \"a\"", "\"a\" %s \"b\"", "astring %s cstring",
			"abool %s true", "false %s abool", "true %s true", "true %s false", "false %s false", "false %s true", "aXBool %s true", "false %s aXBool",
			"auint8 %s true", "true %s 1", "abool %s 1", "abool %s 1.5", "astring %s 1", "\"a\" %s 97", "astring %s true", "'a' %s \"a\"",
			"in %s in2", "in %s in", "arr %s arr2", "st %s st", "sl %s sl", "m %s m", "inc %s inc", "pin %s pin", "pin %s nilp", "nilp %s nilp", "pu %s pin", "in %s arr", "pkg %s pkg", "in %s 1", "sl %s 1",
			"(auint8 < buint8) %s (aint == bint)", "abool %s (auint8 == buint8)", "(p || q) %s r", "p %s !q"} {
			cs = append(cs, tx(l, o))
		}
	}
	return cs
}

var xLits = []string{"0", "1", "5", "127", "128", "200", "255", "256", "-1", "-5", "- 5", "-128", "0x10", "017", "'a'", "'\\xff'", "1.5", "0.25", "-1.5", "2.0", "1e3", "true", "false", "\"s\"", "nil", "9223372036854775807", "18446744073709551615"}

func (c *Ctx) e03() []exprCase {
	var cs []exprCase
	all := append(append(append([]string{}, xArith...), xComp...), xLogic...)
	for _, n := range append(primNames(), xNamed...) {
		for _, o := range all {
			for _, l := range xLits {
				if !c.thorough && len(n) > 4 && n[0] == 'X' && n != "XUint8" && n != "XFloat64" {
					continue
				}
				cs = append(cs, tx("a%s %s %s", n, o, l), tx("%s %s a%s", l, o, n))
			}
		}
	}
	for _, n := range primNames() {
		for _, m := range primNames() {
			if n != m {
				for _, o := range xArith {
					cs = append(cs, tx("a%s %s b%s", n, o, m))
				}
			}
		}
	}
	lits := []string{"7", "2", "-3", "0", "1.5", "0.25", "true", "false", "\"s\"", "'a'", "nil"}
	if c.thorough {
		lits = xLits
	}
	for _, l := range lits {
		for _, k := range lits {
			for _, o := range append(append([]string{}, all...), xShift...) {
				cs = append(cs, tx("%s %s %s", l, o, k))
			}
		}
	}
	for _, l := range xLits {
		for _, s := range []string{"(%s) + auint8", "auint8 + (%s)", "(1 + %s) * aint", "aint * (%s + 1)", "p ? %s : 1", "(p ? %s : 2) == aint", "%s << 3", "(%s)", "-(%s)", "aint64 == -(%s)", "%s == %[1]s"} {
			cs = append(cs, tx(s, l))
		}
	}
	return cs
}

func init() {
	e := func(id string, gen func(c *Ctx) []exprCase) {
		checks[id] = checkFn{func(c *Ctx) *Result { return c.exprRun(gen(c), "") }, exprRule}
	}
	e("E01", (*Ctx).e01)
	e("E02", (*Ctx).e02)
	e("E03", (*Ctx).e03)
}
