package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Resolvers, programs and termination of the expression language.

// structEnv is the environment a structure gives to an expression.
func structEnv(t types.Type, v Value) []xbind {
	st := t.Underlying().(*types.Struct)
	var bs []xbind
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Exported() {
			bs = append(bs, xbind{name: f.Name(), t: f.Type(), v: v.(Struct)[i]})
		}
	}
	return bs
}

// chainEnv looks names up in several environments in order.
type chainEnv []rxBinds

func (c chainEnv) find(name string) (xv, bool) {
	for _, b := range c {
		if v, ok := b.find(name); ok {
			return v, true
		}
	}
	return xv{}, false
}

func (r *run) newResolver(name string, args ...Value) Iface {
	f := r.e.exprFn(name)
	v := r.must(name, r.e.call(f, args...))
	return Iface{f.Signature.Results().At(0).Type(), v}
}

func (r *run) meta(rs ...Iface) Iface {
	m := r.newResolver("NewMetaResolver")
	for _, x := range rs {
		r.must("AddResolver", r.e.meth(m, "AddResolver", x))
	}
	return m
}

func (r *run) structResolver(t types.Type, v Value) Iface {
	return r.newResolver("NewStructResolver", r.e.valueOf(Iface{t, v}))
}

// lookup decides that a type resolver yields the type t (nil: nothing).
func (r *run) typeLookup(res Iface, name string, t types.Type) {
	v := r.must("TypeResolve", r.e.meth(res, "TypeResolve", name))
	i, _ := v.(Iface)
	if t == nil {
		r.requireB("unknown", i.T == nil, fmt.Sprintf("TypeResolve(%q) yields a type for an unknown name", name), nil)
		return
	}
	r.mirror(t, i, fmt.Sprintf("TypeResolve(%q)", name), map[mirrorKey]bool{})
}

func (c *Ctx) e09laws() []law {
	var ls []law
	vars := c.xvars()
	one := func(e *Engine, n string) xbind { return vars[n](e) }
	st := c.catType("XSt")
	judge := func(r *run, env rxEnv, res Iface, text string) {
		r.exprJudge(exprCase{text: text}, env, r.e.exprEval(res, text), "")
	}
	// structure fields as names
	texts := []string{"A", "B", "S", "In", "PIn", "Arr", "Sl", "PSl", "Fn", "Nl", "M", "XEmb", "N", "In.P", "In.Q", "PIn.P", "PIn.Q", "Arr[0]", "Arr[2]", "Arr[3]", "Sl[1]", "(*PSl)[0]", "Fn(A)", "Nl", "Nl.P", "M[\"k\"]", "M[\"\"]", "XEmb.E", "XEmb.V", "N + A", "A + A", "A + B", "S == S", "S + \"x\"", "S[0]", "Nope", "a", "in", "A.B", "In.Nope", "B - 1", "A == 1 ? B : 2", "Fn(In.P) + Arr[1]", "PIn == nil", "Nl == nil", "hid", "st", "_"}
	for _, t := range texts {
		t := t
		ls = append(ls, law{"structure field " + t, func(r *run) {
			b := one(r.e, "st")
			judge(r, rxBinds(structEnv(st, b.v)), r.structResolver(st, b.v), t)
			// two structures one after another do not affect each other
			b2 := one(r.e, "ps")
			v2 := r.e.load(b2.v.(*Value))
			judge(r, rxBinds(structEnv(st, v2)), r.structResolver(st, v2), t)
		}})
	}
	// order of resolvers
	mk := func(e *Engine, k int) []xbind {
		u8, u16, s := types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.String]
		switch k {
		case 0:
			return []xbind{{name: "A", t: u16, v: e.symOf(u16, "m0.A", 0)}, {name: "Z", t: u8, v: e.symOf(u8, "m0.Z", 0)}, {name: "In", t: s, v: e.symOf(s, "m0.In", 2)}}
		case 1:
			return []xbind{{name: "B", t: u8, v: e.symOf(u8, "m1.B", 0)}, {name: "Z", t: u16, v: e.symOf(u16, "m1.Z", 0)}, {name: "Y", t: types.Typ[types.Bool], v: false}}
		}
		return nil
	}
	names := []string{"A", "B", "Z", "Y", "In", "S", "Nope", "Arr[1]", "In.P", "A + A", "Z - 1"}
	for m := 0; m < 125; m++ {
		order := []int{m % 5, m / 5 % 5, m / 25}
		var used []int
		dup := false
		for _, o := range order {
			if o == 4 {
				continue
			}
			for _, u := range used {
				dup = dup || u == o
			}
			used = append(used, o)
		}
		if dup {
			continue
		}
		for _, n := range names {
			n := n
			used := used
			ls = append(ls, law{fmt.Sprintf("resolver order %v name %s", used, n), func(r *run) {
				e := r.e
				var rs []Iface
				var env chainEnv
				for _, o := range used {
					switch o {
					case 0, 1:
						bs := mk(e, o)
						rs = append(rs, e.mapResolver(bs))
						env = append(env, rxBinds(bs))
					case 2:
						b := one(e, "st")
						rs = append(rs, r.structResolver(st, b.v))
						env = append(env, rxBinds(structEnv(st, b.v)))
					case 3:
						rs = append(rs, e.mapResolver(nil))
					}
				}
				if len(rs) == 0 && strings.Contains(n, "+") {
					return
				}
				res := r.meta(rs...)
				judge(r, env, res, n)
				// a chain inside a chain behaves like its members in place
				judge(r, env, r.meta(res), n)
				if len(rs) == 3 {
					judge(r, env, r.meta(r.meta(rs[0]), r.meta(rs[1], rs[2])), n)
				}
				// the static view finds the type of the same value
				if !strings.ContainsAny(n, "[.+-") {
					var want types.Type
					if v, ok := env.find(n); ok {
						want = v.t
					}
					r.typeLookup(r.newResolver("NewTypeResolverAdapter", res), n, want)
				}
			}})
		}
	}
	// type resolvers
	for _, tn := range []string{"XSt", "XIn", "XMutA", "XNode", "XDeep", "XEmpty"} {
		t := c.catType(tn)
		ls = append(ls, law{"types of the fields of " + tn, func(r *run) {
			res := r.newResolver("NewStructTypeResolver", r.e.zeroIface(t))
			s := t.Underlying().(*types.Struct)
			meta := r.newResolver("NewMetaTypeResolver")
			r.typeLookup(meta, "A", nil)
			r.must("AddResolver", r.e.meth(meta, "AddResolver", res))
			for _, x := range []Iface{res, meta} {
				for i := 0; i < s.NumFields(); i++ {
					if f := s.Field(i); f.Exported() {
						r.typeLookup(x, f.Name(), f.Type())
					}
				}
				for _, n := range []string{"", "Nope", "nope", "x"} {
					r.typeLookup(x, n, nil)
				}
			}
		}})
	}
	ls = append(ls, law{"order of type resolvers", func(r *run) {
		e := r.e
		mt := func(kv map[string]types.Type, order ...string) Iface {
			m := newMap()
			for _, k := range order {
				e.mapPut(m, types.Typ[types.String], k, r.good(kv[k]))
			}
			return r.newResolver("NewMapTypeResolver", m)
		}
		t1 := map[string]types.Type{"A": types.Typ[types.String], "Z": types.NewSlice(types.Typ[types.Uint8]), "In": types.Typ[types.Bool]}
		t2 := map[string]types.Type{"A": types.Typ[types.Int], "Y": types.Typ[types.Float64]}
		for m := 0; m < 6; m++ {
			parts := []int{0, 1, 2}
			if m >= 3 {
				parts = []int{1, 0, 2}
			}
			parts = append(parts[m%3:], parts[:m%3]...)
			meta := r.newResolver("NewMetaTypeResolver")
			env := []map[string]types.Type{}
			for _, p := range parts {
				var x Iface
				switch p {
				case 0:
					x = mt(t1, "A", "Z", "In")
					env = append(env, t1)
				case 1:
					x = mt(t2, "A", "Y")
					env = append(env, t2)
				case 2:
					x = r.newResolver("NewStructTypeResolver", e.zeroIface(st))
					t3 := map[string]types.Type{}
					s := st.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Exported() {
							t3[s.Field(i).Name()] = s.Field(i).Type()
						}
					}
					env = append(env, t3)
				}
				r.must("AddResolver", e.meth(meta, "AddResolver", x))
			}
			for _, n := range []string{"A", "B", "Z", "Y", "In", "Nope", "Arr"} {
				var want types.Type
				for _, m := range env {
					if t := m[n]; t != nil && want == nil {
						want = t
					}
				}
				r.typeLookup(meta, n, want)
			}
		}
	}})
	// a parsed program means the same as its text, whenever and with whatever
	// environment it is evaluated
	progs := []string{"A", "A + B", "A + 1", "-A", "A == B ? A : B", "In.P", "S[1]", "Fn(A)", "A ? 1 : 2", "Nope", "1 + 2", "A <<", "\"x\" + S", "Arr[1] * 2", "(A + A) * A", "A && A", "nil", "M[\"k\"]", "PIn.Q - 1", "-1", "^A & 0x0f", "'a' + A", "A != 3 && A < 200"}
	for _, t := range progs {
		t := t
		ls = append(ls, law{"program " + t, func(r *run) {
			e := r.e
			envs := []func() (Iface, rxEnv){
				func() (Iface, rxEnv) {
					b := one(e, "st")
					return r.structResolver(st, b.v), rxBinds(structEnv(st, b.v))
				},
				func() (Iface, rxEnv) { bs := mk(e, 0); return e.mapResolver(bs), rxBinds(bs) },
				func() (Iface, rxEnv) { bs := mk(e, 1); return e.mapResolver(bs), rxBinds(bs) },
			}
			pr := e.call(e.exprFn("ParseString"), t)
			if pr.panic != nil {
				// parsing reports malformed text by panicking; Eval recovers
				return
			}
			for k := 0; k < 6; k++ {
				res, env := envs[[]int{0, 1, 2, 0, 0, 1}[k]]()
				c := e.call(e.exprFn("EvalProgram"), res, pr.v)
				out := exprOut{panic: c.panic, trace: c.trace}
				if c.panic == nil {
					tu := c.v.(Tuple)
					ev := tu[1].(Iface)
					out.v, _ = tu[0].(Iface)
					out.err, out.errV = ev.T != nil, ev
				}
				r.exprJudge(exprCase{text: t}, env, out, "")
				judge(r, env, res, t)
			}
		}})
	}
	// packages expose their symbols
	ls = append(ls, law{"package types", func(r *run) {
		e := r.e
		b := one(e, "pkg")
		v := e.exprValue(b).(Iface)
		t := r.must("Type()", e.meth(v, "Type")).(Iface)
		if g := r.must("Kind()", e.meth(t, "Kind")); g != e.exprConst("Pkg") {
			r.requireB("mirror", false, "the type of a package is not of kind Pkg", nil)
		}
		for _, s := range b.pkg {
			x := r.must("Symbol", e.meth(t, "Symbol", s.name)).(Iface)
			if s.pkg != nil {
				g := Value(nil)
				if x.T != nil {
					g = r.must("Kind()", e.meth(x, "Kind"))
				}
				r.requireB("mirror", g == e.exprConst("Pkg"), "the type of a nested package is not of kind Pkg", nil)
				continue
			}
			r.mirror(s.t, x, "Symbol("+s.name+")", map[mirrorKey]bool{})
		}
		x, _ := r.must("Symbol", e.meth(t, "Symbol", "Nope")).(Iface)
		r.requireB("unknown", x.T == nil, "a package has a type for an unknown symbol", nil)
	}})
	return ls
}

// ---- termination

func (c *Ctx) e06() []law {
	var ls []law
	base := c.xbase()
	eval := func(r *run, text Value, show string) {
		e := r.e
		res := e.mapResolver(base(e, "a p st arr inc sl pkg m pin"))
		got := e.exprEval(res, text)
		if got.panic != nil {
			r.requireB("no-panic", false, fmt.Sprintf("evaluating %s panics: %s", show, e.describe(*got.panic)), nil, got.trace...)
			return
		}
		r.decided("terminates", "nf")
	}
	// every prefix of every text of the grammar and literal families
	seen := map[string]bool{}
	add := func(t string) {
		for i := 0; i <= len(t); i++ {
			if p := t[:i]; !seen[p] {
				seen[p] = true
				ls = append(ls, law{fmt.Sprintf("prefix %q", p), func(r *run) { eval(r, p, fmt.Sprintf("%q", p)) }})
			}
		}
	}
	for i, x := range c.e05() {
		if c.thorough || i%3 == 0 {
			add(x.text)
		}
	}
	for _, x := range c.e09() {
		add(x.text)
	}
	for _, x := range append(c.e04(), c.e07()...) {
		if len(x.text) > 9 && (c.thorough || len(x.text) > 14) {
			add(x.text)
		}
	}
	// every byte, and every pair of bytes, at the end of and inside each kind
	// of unfinished text
	pre := []string{"", "a", "a ", "a+", "a + ", "1", "12", "0", "0x", "0x1", "1.", "1.5", "1e", ".", "'", "'a", "'\\", "'\\x", "'\\x1", "'\\0", "'\\01", "'\\u", "'\\u00", "'\\u006", "'\\U", "'\\U0000000", "\"", "\"a", "\"\\", "\"\\x", "\"\\x4", "\"\\1", "\"\\u123", "$", "$'", "$'a", "$'\\", "$'\\u0", "(", "(a", "arr[", "arr[1", "inc(", "inc(a", "inc(a,", "st.", "st", "p?", "p?a", "p?a:", "!", "-", "&", "a&", "a<", "a=", "a!", "a|", "-1", "- ", "a-", "tru", "nil", "i", "\xc3", "\xe2\x82", "'\xc3", "\"\xe2\x82", "é"}
	suf := []string{"", "a", ")", "'", "\"", " "}
	one := func(t string) {
		if !seen[t] {
			seen[t] = true
			ls = append(ls, law{fmt.Sprintf("text %q", t), func(r *run) { eval(r, t, fmt.Sprintf("%q", t)) }})
		}
	}
	alpha := "\x00\t\n 09aefxXuU_p.,:?()[]'\"\\$+-*/%&|^<>=!{#~\x7f\x80\xc3\xe2\xff"
	for _, p := range pre {
		for c0 := 0; c0 < 256; c0++ {
			for i, s := range suf {
				if i < 2 || c.thorough {
					one(p + string([]byte{byte(c0)}) + s)
				}
			}
		}
		for i := 0; i < len(alpha); i++ {
			for j := 0; j < len(alpha) && c.thorough; j++ {
				one(p + alpha[i:i+1] + alpha[j:j+1])
			}
		}
	}
	return ls
}

// ---- the built-in package

// bitsFuncs are the documented functions of the built-in bits package.
var bitsFuncs = []string{"LeadingZeros", "LeadingZeros8", "LeadingZeros16", "LeadingZeros32", "LeadingZeros64", "Len", "Len8", "Len16", "Len32", "Len64", "OnesCount", "OnesCount8", "OnesCount16", "OnesCount32", "OnesCount64", "Reverse", "Reverse8", "Reverse16", "Reverse32", "Reverse64", "ReverseBytes", "ReverseBytes16", "ReverseBytes32", "ReverseBytes64", "RotateLeft", "RotateLeft8", "RotateLeft16", "RotateLeft32", "RotateLeft64", "TrailingZeros", "TrailingZeros8", "TrailingZeros16", "TrailingZeros32", "TrailingZeros64"}

func init() {
	checks["E06"] = checkFn{func(c *Ctx) *Result { return c.laws(c.e06()) },
		"abstract interpretation of the SSA of the expression scanner, parser and evaluator for every prefix of an enumerated family of texts, and for texts with arbitrary bytes after each kind of unfinished token; any path on which a loop or recursion does not end is reported"}
	checks["E09"] = checkFn{func(c *Ctx) *Result { return c.exprRun(c.e09(), "").plus(c.laws(c.e09laws())) },
		exprRule + "; resolvers, type resolvers and reused programs over the same operands"}
}
