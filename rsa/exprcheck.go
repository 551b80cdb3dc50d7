package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Checks of the expression language (package expr).

func (e *Engine) exprFn(name string) *ssa.Function {
	p := e.prog.pkgs[repoPath+"/expr"]
	if p != nil {
		if f := p.Func(name); f != nil {
			return f
		}
	}
	panic(abort{"unsupported", "function expr." + name + " not found"})
}

// xenvFn builds an environment of abstract values.
type xenvFn func(e *Engine) []xbind

// exprCase is one expression text in one environment.
type exprCase struct {
	text string
	toks []string // reference tokens, if the text is not to be re-lexed
	note string
	ids  []string // further variables of type uint8
}

type exprOut struct {
	v     Iface
	err   bool
	errV  Iface
	panic *Iface
	trace []string
}

func (e *Engine) exprValue(b xbind) Value {
	if b.pkg != nil {
		m := newMap()
		for _, s := range b.pkg {
			e.mapPut(m, types.Typ[types.String], s.name, e.exprValue(s))
		}
		r := e.call(e.exprFn("NewPackage"), m)
		if r.panic != nil {
			panic(abort{"unsupported", "NewPackage panics"})
		}
		return e.exprValueOf(Iface{e.exprFn("NewPackage").Signature.Results().At(0).Type(), r.v})
	}
	return e.exprValueOf(Iface{b.t, copyVal(b.v)})
}

func (e *Engine) exprValueOf(i Iface) Value {
	r := e.call(e.exprFn("ValueOf"), i)
	if r.panic != nil {
		panic(exprPanic{*r.panic, r.trace})
	}
	return r.v
}

type exprPanic struct {
	p     Iface
	trace []string
}

func (e *Engine) mapResolver(bs []xbind) Iface {
	m := newMap()
	for _, b := range bs {
		e.mapPut(m, types.Typ[types.String], b.name, e.exprValue(b))
	}
	f := e.exprFn("NewMapResolver")
	r := e.call(f, m)
	if r.panic != nil {
		panic(exprPanic{*r.panic, r.trace})
	}
	return Iface{f.Signature.Results().At(0).Type(), r.v}
}

func (e *Engine) exprEval(res Iface, text Value) exprOut {
	r := e.call(e.exprFn("Eval"), res, text)
	if r.panic != nil {
		return exprOut{panic: r.panic, trace: r.trace}
	}
	t := r.v.(Tuple)
	ev := t[1].(Iface)
	v, _ := t[0].(Iface)
	return exprOut{v: v, err: ev.T != nil, errV: ev}
}

// sameVal is the condition under which two values of type t are the same.
func (e *Engine) sameVal(t types.Type, a, b Value) Bit {
	k, w, _ := basicInfo(t)
	switch k {
	case kBool, kInt, kFloat, kComplex, kString:
		return Bit(e.sameLeaf(k, w, a, b))
	case kStruct:
		st := t.Underlying().(*types.Struct)
		r := bTrue
		x, y := a.(Struct), b.(Struct)
		for i := range x {
			r = e.dom.And(r, e.sameVal(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case kArray:
		x, y := a.(Array), b.(Array)
		r := bTrue
		for i := range x {
			r = e.dom.And(r, e.sameVal(elemType(t), x[i], y[i]))
		}
		return r
	case kSlice:
		x, _ := a.(Slice)
		y, _ := b.(Slice)
		if len(x) != len(y) || (x == nil) != (y == nil) || len(x) > 0 && &x[0] != &y[0] {
			return bFalse
		}
		return bTrue
	case kFunc:
		if a == b {
			return bTrue
		}
		return bFalse
	}
	if a == b {
		return bTrue
	}
	return bFalse
}

// exprOne decides one case on the current partition.
func (r *run) exprOne(cs exprCase, env xenvFn, aspect string) {
	e := r.e
	bs := env(e)
	res := e.mapResolver(bs)
	got := e.exprEval(res, cs.text)
	r.exprJudge(cs, rxBinds(bs), got, aspect)
}

func (r *run) exprJudge(cs exprCase, env rxEnv, got exprOut, aspect string) {
	e := r.e
	if got.panic != nil {
		r.requireB("no-panic", false, fmt.Sprintf("evaluating %q panics: %s", cs.text, e.describe(*got.panic)), nil, got.trace...)
		return
	}
	r.decided("no-panic", "nf")
	r.message(fmt.Sprintf("%q", cs.text), got.errV)
	var exp xv
	failed, why, skipped := false, "", false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(refSkip); ok {
					skipped = true
					r.res.notes["no claim: "+s.why]++
					return
				}
				panic(x)
			}
		}()
		failed, why = refRun(func() {
			toks := cs.toks
			if toks == nil {
				var ok bool
				if toks, ok = rxLex(cs.text); !ok {
					refErr("malformed literal")
				}
			}
			exp = e.rxEval(env, rxParse(toks))
			if exp.nil_ {
				refErr("untyped nil")
			}
			if exp.pkg != nil {
				skipRef("package as result")
			}
		})
	}()
	if skipped {
		return
	}
	if failed {
		if !got.err {
			r.requireB("rejected", false, fmt.Sprintf("%q yields %s where an error is required (%s)", cs.text, e.describe(got.v), why), nil)
			return
		}
		r.decided("rejected", "nf")
		return
	}
	if aspect == "reject" {
		return
	}
	if got.err {
		r.requireB("accepted", false, fmt.Sprintf("%q fails: %s", cs.text, e.describe(got.errV)), nil, r.errorSites()...)
		return
	}
	r.decided("accepted", "nf")
	if isUnt(exp) {
		r.untypedResult(cs, exp, got.v)
		return
	}
	if got.v.T == nil || !types.Identical(got.v.T, exp.t) {
		tn := "nothing"
		if got.v.T != nil {
			tn = typeString(got.v.T)
		}
		r.requireB("type", false, fmt.Sprintf("%q has type %s, expected %s", cs.text, tn, typeString(exp.t)), nil)
		return
	}
	r.decided("type", "nf")
	r.require("value", e.sameVal(exp.t, got.v.V, exp.v), func(v *valuation) string {
		return fmt.Sprintf("%q: got %s, expected %s", cs.text, showAt(e, v, got.v.V), showAt(e, v, exp.v))
	}, nil)
}

func (r *run) untypedResult(cs exprCase, exp xv, got Iface) {
	e := r.e
	ok := false
	if got.T != nil {
		k, w, signed := basicInfo(got.T)
		switch v := got.V.(type) {
		case bool:
			ok = exp.c.Kind() == constant.Bool && v == constant.BoolVal(exp.c)
		case uint64:
			if k == kInt && exp.t == types.Typ[types.UntypedInt] {
				c := constant.MakeUint64(v)
				if signed {
					c = constant.MakeInt64(sext(v, w))
				}
				ok = constant.Compare(c, token.EQL, exp.c)
			}
		case float64:
			f, _ := constant.Float64Val(exp.c)
			ok = k == kFloat && exp.t == types.Typ[types.UntypedFloat] && (v == f || math.IsNaN(v) && math.IsNaN(f))
		}
	}
	r.requireB("literal", ok, fmt.Sprintf("%q: got %s, expected %s", cs.text, e.describe(got), exp.c.ExactString()), nil)
}

// exprRun decides a list of cases in parallel.
func (c *Ctx) exprRun(cases []exprCase, aspect string) *Result {
	base := c.xbase()
	if c.filter != "" {
		var f []exprCase
		for _, x := range cases {
			if strings.Contains(x.text, c.filter) {
				f = append(f, x)
			}
		}
		cases = f
	}
	const batch = 16
	n := (len(cases) + batch - 1) / batch
	return c.parallel(n, func(e *Engine, res *Result, i int) {
		for j := i * batch; j < (i+1)*batch && j < len(cases); j++ {
			cs := cases[j]
			r := &run{e: e, res: res, prop: c.prop, thorough: c.thorough, name: strings.TrimSpace("expression " + cs.text + " " + cs.note)}
			env := func(e *Engine) []xbind {
				bs := base(e, cs.text)
				for _, id := range cs.ids {
					if strings.Contains(cs.text, id) && !hasBind(bs, id) {
						bs = append(bs, xbind{name: id, t: types.Typ[types.Uint8], v: e.symOf(types.Typ[types.Uint8], "id."+id, 0)})
					}
				}
				if c.prop == "E09" {
					bs = decoys(e, bs, cs.text)
				}
				return bs
			}
			c.budget(e)
			res.cases++
			r.explore(func() {
				defer func() {
					if x := recover(); x != nil {
						if p, ok := x.(exprPanic); ok {
							r.requireB("no-panic", false, "building the environment panics: "+e.describe(p.p), nil, p.trace...)
							return
						}
						panic(x)
					}
				}()
				r.exprOne(cs, env, aspect)
			})
			e.stop = nil
			if len(res.samples) < 4 {
				res.samples = append(res.samples, r.name)
			}
		}
	})
}

// decoys binds names that resemble the ones a text uses.
func decoys(e *Engine, bs []xbind, text string) []xbind {
	words := strings.FieldsFunc(text, func(r rune) bool {
		return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
	})
	used := map[string]bool{"nil": true, "true": true, "false": true, "struct": true, "func": true, "map": true, "": true, "_": true}
	for _, w := range words {
		used[w] = true
	}
	u8 := types.Typ[types.Uint8]
	for _, w := range words {
		if w[0] >= '0' && w[0] <= '9' {
			continue
		}
		for _, d := range []string{string(w[0]^0x20) + w[1:], strings.ToUpper(w), strings.ToLower(w), w + "x", w + "_", "_" + w, "x" + w, w[:len(w)-1], w[1:], w + w} {
			if used[d] || hasBind(bs, d) || d[0] >= '0' && d[0] <= '9' || d[0] == '_'^0x20 {
				continue
			}
			used[d] = true
			bs = append(bs, xbind{name: d, t: u8, v: e.symOf(u8, "decoy."+d, 0)})
		}
	}
	return bs
}

func primEnvTypes() []types.Type {
	var ts []types.Type
	for _, k := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr, types.Float32, types.Float64, types.String} {
		ts = append(ts, types.Typ[k])
	}
	return ts
}

func (e *Engine) symOf(t types.Type, name string, strLen int) Value {
	k, w, _ := basicInfo(t)
	switch k {
	case kBool:
		return ABool{e.dom.Var(name)}
	case kInt:
		return lower(e.dom.SymBV(name, w))
	case kFloat:
		return e.dom.SymFloat(name, w)
	case kString:
		bs := make([]Value, strLen)
		for i := range bs {
			bs[i] = lower(e.dom.SymBV(fmt.Sprintf("%s.%d", name, i), 8))
		}
		return strFromBytes(bs)
	}
	panic("symOf " + t.String())
}

func hasBind(bs []xbind, n string) bool {
	for _, b := range bs {
		if b.name == n {
			return true
		}
	}
	return false
}
