package main

import (
	"go/constant"
	"go/types"
)

// Expressions in tags, for the layout model: the reference expression language
// over the fields of the structure being encoded or decoded.

type xval struct {
	v Value
	t types.Type
}

// refFail marks an outcome the specification calls an error.
type refFail struct{ why string }

func refErr(why string) { panic(refFail{why}) }

type xenv interface {
	lookup(name string) (xval, bool)
}

// fieldEnv is the environment of a tag expression; the built-in names come
// before the fields.
type fieldEnv struct {
	e *Engine
	x xenv
}

func (f fieldEnv) find(name string) (xv, bool) {
	if name == "bits" {
		p := f.e.prog.pkgs["math/bits"]
		var bs []xbind
		for _, n := range bitsFuncs {
			fn := p.Func(n)
			bs = append(bs, xbind{name: n, t: fn.Signature, v: fn})
		}
		return xv{pkg: bs}, true
	}
	v, ok := f.x.lookup(name)
	return xv{v: v.v, t: v.t, addr: 2}, ok
}

// parseRefExpr is the reference meaning of an expression text; malformed text
// is a refFail.
func parseRefExpr(src string) *rx {
	toks, ok := rxLex(src)
	if !ok {
		refErr("malformed literal")
	}
	return rxParse(toks)
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (e *Engine) xeval(env xenv, x *rx) xval {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(refSkip); ok {
				panic(abort{"unsupported", "no claim: " + s.why})
			}
			panic(r)
		}
	}()
	v := e.rxEval(fieldEnv{e, env}, x)
	switch {
	case v.nil_ || v.pkg != nil:
		refErr("no value")
	case !isUnt(v):
		return xval{v.v, v.t}
	}
	switch v.c.Kind() {
	case constant.Bool:
		return xval{constant.BoolVal(v.c), types.Typ[types.UntypedBool]}
	case constant.Int:
		if v.t == types.Typ[types.UntypedInt] {
			i, ok := constant.Int64Val(v.c)
			if !ok {
				u, _ := constant.Uint64Val(v.c)
				i = int64(u)
			}
			return xval{uint64(i), types.Typ[types.UntypedInt]}
		}
	}
	f, _ := constant.Float64Val(v.c)
	return xval{f, types.Typ[types.UntypedFloat]}
}

// xconv gives an untyped operand the type t.
func (e *Engine) xconv(a xval, t types.Type) xval {
	if !isUntyped(a.t) {
		return a
	}
	k, w, _ := basicInfo(t)
	ak, _, _ := basicInfo(a.t)
	switch {
	case k == kInt && ak == kInt:
		return xval{a.v.(uint64) & mask(w), t}
	case k == kFloat && ak == kInt:
		return xval{e.dom.i2f(a.v, 64, true, w), t}
	case k == kFloat && ak == kFloat:
		return xval{e.dom.floatConv(a.v, 64, w), t}
	case k == ak:
		return xval{a.v, t}
	}
	refErr("mismatched literal")
	return xval{}
}
