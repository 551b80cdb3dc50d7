package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Tag options and type strings (T01, T02).

// declType is the type spelled by a Go type expression in the catalogue.
func (c *Ctx) declType(src string) types.Type {
	tv, err := types.Eval(token.NewFileSet(), c.prog.cat.Pkg, token.NoPos, src)
	if err != nil {
		panic("catalogue type " + src + ": " + err.Error())
	}
	return tv.Type
}

func tagLit(key, v string) string { return key + ":" + strconv.Quote(v) }

// verdict of the documented grammar on a tag text.
type verdict int

const (
	vReject verdict = iota
	vAccept
	vNoClaim
)

// intVerdict reads a Go integer literal.
func intVerdict(s string) (uint64, verdict) {
	if s == "" {
		return 0, vReject
	}
	if strings.ContainsAny(s, "_") {
		return 0, vNoClaim
	}
	for i := 0; i < len(s); i++ {
		if c := s[i]; !('0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') {
			return 0, vReject
		}
	}
	v := constant.MakeFromLiteral(s, token.INT, 0)
	if v.Kind() != constant.Int {
		return 0, vReject
	}
	n, ok := constant.Uint64Val(v)
	if !ok || n > 1<<62 {
		return 0, vReject
	}
	if len(s) > 1 && s[0] == '0' && strings.ContainsAny(s[1:2], "bBoO") {
		return 0, vNoClaim
	}
	return n, vAccept
}

// typeVerdict reads a type string.
func typeVerdict(s string) (types.Type, verdict) {
	if strings.ContainsAny(s, " \t\n;/") {
		// blanks and comments inside a type are not claimed if the rest is fine
		t := strings.NewReplacer(" ", "", "\t", "").Replace(s)
		if strings.ContainsAny(t, "\n;/") || !strings.ContainsAny(s, " \t") {
			return nil, vNoClaim
		}
		if x, v := typeVerdict(t); v != vReject {
			return x, vNoClaim
		}
		// joining words can only turn a rejected text into an accepted one
		return nil, vReject
	}
	if strings.HasPrefix(s, "*") {
		t, v := typeVerdict(s[1:])
		if t != nil {
			t = types.NewPointer(t)
		}
		return t, v
	}
	if strings.HasPrefix(s, "[") {
		j := strings.IndexByte(s, ']')
		if j < 0 {
			return nil, vReject
		}
		t, v := typeVerdict(s[j+1:])
		if v != vAccept {
			return nil, v
		}
		if j == 1 {
			return types.NewSlice(t), v
		}
		n, v := intVerdict(s[1:j])
		if v == vReject {
			// constant expressions are not claimed
			if tv, err := types.Eval(token.NewFileSet(), nil, token.NoPos, s[1:j]); err == nil && tv.Value != nil && constant.ToInt(tv.Value).Kind() == constant.Int && constant.Sign(tv.Value) >= 0 && !strings.HasPrefix(s[1:j], "99") {
				return nil, vNoClaim
			}
			return nil, vReject
		}
		if n > 1<<20 {
			return nil, vNoClaim
		}
		return types.NewArray(t, int64(n)), v
	}
	if t := refType(s); t != nil {
		if b, ok := t.(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.String) {
			return nil, vNoClaim
		}
		return t, vAccept
	}
	if strings.HasPrefix(s, "(") {
		return nil, vNoClaim
	}
	return nil, vReject
}

func exprVerdict(s string) (v verdict) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case refSkip:
				v = vNoClaim
			case refFail:
				v = vReject
			default:
				panic(r)
			}
		}
	}()
	toks, ok := rxLex(s)
	if !ok {
		return vReject
	}
	rxParse(toks)
	return vAccept
}

// splitTag splits a tag at the commas outside of brackets and literals.
func splitTag(s string) ([]string, bool) {
	var parts []string
	var open []byte
	start := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '(', '[', '{':
			open = append(open, map[byte]byte{'(': ')', '[': ']', '{': '}'}[c])
		case ')', ']', '}':
			if len(open) == 0 || open[len(open)-1] != c {
				return nil, false
			}
			open = open[:len(open)-1]
		case '"', '\'':
			for i++; ; i++ {
				if i >= len(s) {
					return nil, false
				}
				if s[i] == '\\' {
					i++
				} else if s[i] == c {
					break
				}
			}
		case ',':
			if len(open) == 0 {
				parts = append(parts, s[start:i])
				start = i + 1
			}
		}
	}
	return append(parts, s[start:]), len(open) == 0
}

// tagVerdict is the documented grammar of the struct tag.
func tagVerdict(tag string) verdict {
	if tag == "" || tag == "-" {
		return vAccept
	}
	if strings.IndexByte(tag, 0) >= 0 {
		return vReject
	}
	// An expression that a later option replaces, or on a field that is not
	// part of the message, is never used.
	keys := map[string]bool{}
	for _, o := range strings.Split(tag, ",") {
		k, _, eq := strings.Cut(o, "=")
		if eq && keys[k] {
			return vNoClaim
		}
		keys[k] = true
	}
	if (keys["root"] || keys["parent"]) && strings.ContainsAny(tag, "=") {
		return vNoClaim
	}
	parts, ok := splitTag(tag)
	if !ok {
		return vReject
	}
	res := vAccept
	for _, o := range parts {
		v := optVerdict(o)
		if v == vReject {
			return vReject
		}
		if v == vNoClaim {
			res = vNoClaim
		}
	}
	return res
}

func optVerdict(o string) verdict {
	switch o {
	case "little", "lsb", "big", "msb", "network", "variantbool", "invertedbool", "root", "parent", "default":
		return vAccept
	}
	if k, v, ok := strings.Cut(o, "="); ok {
		switch k {
		case "sizeof", "sizefrom":
			if v == "" {
				return vReject
			}
			for i, r := range v {
				switch {
				case r >= utf8.RuneSelf:
					return vNoClaim
				case r == '_' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || i > 0 && '0' <= r && r <= '9':
				default:
					return vReject
				}
			}
			return vAccept
		case "skip":
			_, x := intVerdict(v)
			return x
		case "if", "size", "bits", "in", "out", "while", "switch", "case":
			return exprVerdict(v)
		}
		return vReject
	}
	ts, bs, bits := strings.Cut(o, ":")
	t, v := typeVerdict(ts)
	if v != vAccept || !bits {
		return v
	}
	k, w, _ := basicInfo(t)
	if _, ok := t.(*types.Basic); !ok {
		return vReject
	}
	b := t.(*types.Basic)
	n, x := intVerdict(bs)
	switch {
	case x != vAccept:
		return x
	case k == kFloat && b.Kind() == types.Float64 || k == kBool:
		return vReject
	case k == kFloat || k == kComplex || b.Kind() == types.Uintptr:
		if n == 0 {
			return vReject
		}
		return vNoClaim
	case n < 1 || n >= uint64(w):
		return vReject
	}
	return vAccept
}

// rejecting decides that every operation on a value of type t fails.
func (r *run) rejecting(t types.Type, what string) {
	e := r.e
	{
		for k := 0; k < 2; k++ {
			big := k == 0
			pi := Iface{types.NewPointer(t), newCell(zero(t))}
			data := make(Slice, 64)
			for i := range data {
				data[i] = uint64(0)
			}
			for _, op := range []struct {
				name string
				a    func() apiResult
			}{
				{"Pack", func() apiResult { return e.doPack(big, pi) }},
				{"Unpack", func() apiResult { return e.doUnpack(data, big, pi) }},
				{"SizeOf", func() apiResult { return e.doSize("SizeOf", pi) }},
				{"BitSize", func() apiResult { return e.doSize("BitSize", pi) }},
			} {
				a := op.a()
				if !r.noPanic(op.name, a) {
					return
				}
				if !a.err {
					r.requireB("rejected", false, op.name+" accepts a field with the tag "+what, nil)
					return
				}
				r.decided("rejected", "nf")
			}
		}
	}
}

func (c *Ctx) tagStruct(nat types.Type, tag string) types.Type {
	pkg := c.prog.cat.Pkg
	u8 := types.Typ[types.Uint8]
	f := func(n string, t types.Type) *types.Var { return types.NewField(0, pkg, n, t, false) }
	return types.NewStruct([]*types.Var{f("N", u8), f("F", types.Typ[types.Bool]), f("A", nat), f("Z", u8)}, []string{"", "", tag, ""})
}

func (c *Ctx) rejectLaw(nat types.Type, tag string) law {
	return law{"tag " + tag, func(r *run) { r.rejecting(c.tagStruct(nat, tag), tag) }}
}

// tagWords are the documented options, each with a field type it suits.
var tagWords = []struct{ opt, nat string }{
	{"uint8", "uint8"}, {"uint16", "uint16"}, {"int32", "int32"}, {"uint64", "uint64"}, {"float32", "float32"}, {"complex64", "complex64"}, {"bool", "bool"}, {"byte", "uint8"}, {"rune", "int32"}, {"int", "int"}, {"uint", "uint"},
	{"[]uint8", "[]uint8"}, {"[4]uint16", "[4]uint16"}, {"*uint8", "*uint8"}, {"[]*[2]int8", "[]*[2]int8"}, {"string", "[]uint8"},
	{"uint16:3", "uint16"}, {"int32:31", "int32"}, {"uint:12", "uint"}, {"uint8:3", "bool"},
	{"little", "uint16"}, {"lsb", "uint16"}, {"big", "uint16"}, {"msb", "uint16"}, {"network", "uint16"},
	{"variantbool", "bool"}, {"invertedbool", "bool"}, {"root", "*struct{}"}, {"parent", "*struct{}"},
	{"sizefrom=N", "[]uint8"}, {"skip=1", "uint8"}, {"skip=0x10", "uint8"}, {"if=F", "uint8"}, {"if=N==1", "uint8"}, {"size=N", "[]uint8"}, {"size=(N+1)", "[]uint8"}, {"bits=N+1", "uint8"}, {"in=A+1", "uint8"}, {"out=A-1", "uint8"}, {"while=!_eof", "[]uint8"}, {"if=\"a\"==\"b\"", "uint8"}, {"if=N=='x'", "uint8"}, {"if=bits.Len8(N)==2", "uint8"}, {"if=$'a,b'==\"a\"", "uint8"},
}

func (c *Ctx) t01() []law {
	var ls []law
	for _, sk := range []string{"0", "1", "7", "010", "0x10", "0X1f", "255", "256", "65535", "65536", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "0x7fffffffff", "1099511627776"} {
		sk := sk
		n, err := strconv.ParseInt(sk, 0, 64)
		if err != nil {
			panic(err)
		}
		for _, o := range []string{"", ",little", ",uint16:9"} {
			for _, pre := range []string{"", "big,"} {
				tag, bits := tagLit("struct", pre+"skip="+sk+o), uint64(40+8*n)
				if o == ",uint16:9" {
					bits -= 7
				}
				ls = append(ls, law{"skip " + tag, func(r *run) {
					t := c.tagStruct(types.Typ[types.Uint16], tag)
					pi := Iface{types.NewPointer(t), newCell(zero(t))}
					for fn, want := range map[string]uint64{"BitSize": bits, "SizeOf": (bits + 7) / 8} {
						s := r.e.doSize(fn, pi)
						if r.noPanic(fn, s) && r.requireB("skip", !s.err, fn+" rejects the tag "+tag, nil) {
							r.requireB("skip", r.e.concretize(s.n) == want, fmt.Sprintf("%s gives %s for a structure of %d bits with the tag %s", fn, showAt(r.e, nil, s.n), want, tag), nil)
						}
					}
				}})
			}
		}
	}
	seen := map[string]bool{}
	add := func(nat, tag string) {
		k := nat + "\x00" + tag
		if seen[k] {
			return
		}
		seen[k] = true
		if tagVerdict(tag) == vReject {
			ls = append(ls, c.rejectLaw(c.declType(nat), tagLit("struct", tag)))
		}
	}
	subst := "a1=:,-([\"' \x00A;"
	for _, w := range tagWords {
		o := w.opt
		add(w.nat, strings.ToUpper(o))
		for i := 0; i <= len(o); i++ {
			for j := 0; j < len(subst); j++ {
				add(w.nat, o[:i]+subst[j:j+1]+o[i:])
				if i < len(o) && (c.thorough || j < 8) {
					add(w.nat, o[:i]+subst[j:j+1]+o[i+1:])
				}
			}
			if i < len(o) {
				add(w.nat, o[:i]+o[i+1:])
			}
			if i+1 < len(o) {
				add(w.nat, o[:i]+o[i+1:i+2]+o[i:i+1]+o[i+2:])
			}
			add(w.nat, o[:i])
			add(w.nat, o[i:])
		}
		// options next to good ones
		for _, x := range []string{"", ",", "-", "bogus", "BIG", "uint8:8", "uint8:0", "uint16:16", "uint16:x", "skip", "skip=", "skip=x", "skip=-1", "skip=08", "skip=1.5", "sizeof", "sizeof=", "sizeof=1", "sizeof=A-B", "sizefrom=", "sizefrom=N+1", "if", "if=", "if= ", "if=(", "if=)", "if=(F", "if=F)", "if=[F)", "if={F", "if=\"F", "if='F", "if=1 +", "if=1 2", "if==", "size=", "bits=", "in=", "out=", "while=", "switch=", "case=", "in=(A", "out=A]", "while=(", "switch=N[", "case=\"", "root=1", "big=1", "map[int]int", "chan int", "func()", "struct{}", "interface{}", "map[", "[", "[]", "[3", "[3]", "[-1]int8", "[x]int8", "[]int9", "*", "**", "*int9", "uint8:3:4", "\x00", "big\x00", "int8 int16"} {
			add(w.nat, o+","+x)
			add(w.nat, x+","+o)
			add(w.nat, x)
			if c.thorough {
				add(w.nat, o+x)
				add(w.nat, "little,"+o+","+x+",skip=1")
			}
		}
	}
	// every bit count around the valid range
	for _, t := range []string{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int", "uint", "byte", "rune"} {
		k, w, _ := basicInfo(refType(t))
		_ = k
		for _, n := range []int{0, w, w + 1, w + 8, 2 * w, 64, 65, 127, 128, 255, 256, 256 + 1, 256 + w/2, 511, 512 + 3, 65536 + 1} {
			add(t, fmt.Sprintf("%s:%d", t, n))
			add(t, fmt.Sprintf("%s:0x%x", t, n))
			add(t, fmt.Sprintf("skip=1,%s:%d,big", t, n))
		}
		for _, s := range []string{"", "-1", "+1", " 1", "1 ", "x", "08", "0x", "1.0", "1e0", "0xg", "３", "N", "''"} {
			add(t, t+":"+s)
		}
	}
	for _, t := range []string{"bool", "float64", "[]uint8", "[2]uint8", "*uint8", "string"} {
		for _, n := range []string{"1", "3", "7", "0", "x"} {
			add(map[string]string{"string": "[]uint8"}[t]+strings.Repeat(t, map[bool]int{true: 0, false: 1}[t == "string"]), t+":"+n)
		}
	}
	// bracket and literal balance in expressions
	var rec func(p string, n int)
	alpha := "N([{)]}'\","
	n := 3
	if c.thorough {
		n = 4
	}
	rec = func(p string, n int) {
		add("uint8", "if="+p)
		if n > 0 {
			for i := range alpha {
				rec(p+alpha[i:i+1], n-1)
			}
		}
	}
	rec("", n)
	for _, x := range []string{"F,big", "F,bogus", "(F", "(F,big", "F),big", "F,(big)", "(F],big", "\"F,big", "'F',x", "F ?", "F ? 1", "N=1", "N==", "F!", "!", "F F", "F,,big", ",", "F,", "\\", "F\\", "\"\\\"", "'\\'", "$", "$'", "$'F", "$\"F\"", "08", "1.2.3", "'ab'", "N..A", "N.", ".N", "#", "F;", "F\x00"} {
		for _, k := range []string{"if", "size", "bits", "in", "out", "while", "switch", "case"} {
			add("uint8", k+"="+x)
			add("[]uint8", k+"="+x)
		}
	}
	// dedicated keys
	for _, x := range []string{" ", "(", ")", "(F", "F)", "[F)", "\"F", "'F", "1 +", "1 2", "=", "F ?", "F ? 1", "F,", ",F", "{F}", "08", "'ab'", "N.", "$", "F F", "!", "-", "F;", "#", "\\"} {
		if exprVerdict(x) != vReject {
			continue
		}
		for _, k := range []string{"if", "size", "bits", "in", "out", "while", "switch", "case"} {
			for _, nat := range []string{"uint8", "[]uint8"} {
				tag := tagLit("struct-"+k, x)
				t := c.declType(nat)
				ls = append(ls, c.rejectLaw(t, tag), c.rejectLaw(t, tagLit("struct", "big")+" "+tag))
			}
		}
	}
	return append(ls, c.t01links()...)
}

// t01links are options that do not suit the field or name no field.
func (c *Ctx) t01links() []law {
	var ls []law
	for _, x := range []struct{ nat, tag string }{
		{"uint8", "size=N"}, {"bool", "size=N"}, {"struct{ X uint8 }", "size=N"}, {"[2]uint8", "size=N"}, {"*uint8", "size=N"}, {"uint8", "sizefrom=N"}, {"[2]uint8", "sizefrom=N"}, {"struct{ X uint8 }", "sizefrom=N"}, {"[]uint8", "sizefrom=M"}, {"[]uint8", "sizefrom=Z"}, {"[]uint8", "sizefrom=A"}, {"[]uint8", "sizefrom=n"}, {"string", "sizefrom=Nope"},
		{"uint8", "sizeof=Nope"}, {"uint8", "sizeof=Z"}, {"uint8", "sizeof=N"}, {"uint8", "sizeof=A"}, {"uint8", "sizeof=z"}, {"[]uint8", "bits=N"}, {"bool", "bits=N"}, {"float64", "bits=N"}, {"string", "bits=N"}, {"[2]uint8", "bits=3"}, {"struct{ X uint8 }", "bits=3"}, {"*uint8", "bits=3"}} {
		t := c.declType(x.nat)
		ls = append(ls, c.rejectLaw(t, tagLit("struct", x.tag)), c.rejectLaw(t, tagLit("struct", "little,"+x.tag)), c.rejectLaw(t, tagLit("struct", x.tag+",skip=1")))
		if k, v, _ := strings.Cut(x.tag, "="); k == "size" || k == "bits" {
			ls = append(ls, c.rejectLaw(t, tagLit("struct-"+k, v)))
		}
	}
	return ls
}

// perms is every order of the options.
func perms(o []string) [][]string {
	if len(o) <= 1 {
		return [][]string{o}
	}
	var r [][]string
	for i := range o {
		rest := append(append([]string{}, o[:i]...), o[i+1:]...)
		for _, p := range perms(rest) {
			r = append(r, append([]string{o[i]}, p...))
		}
	}
	return r
}

// t01cases are accepted tags, whose meaning the layout model gives.
func (c *Ctx) t01cases() []*Case {
	var cs []*Case
	seen := map[string]bool{}
	add := func(src string, dir ...string) {
		if seen[src] {
			return
		}
		seen[src] = true
		d := map[string]string{"props": "T01"}
		for _, x := range dir {
			k, v, _ := strings.Cut(x, "=")
			d[k] = v
		}
		cs = append(cs, &Case{name: src, typ: c.declType(src), dir: d})
	}
	field := func(nat string, opts []string, ref string) {
		size := 3
		if c.thorough {
			size = 4
		}
		if len(opts) > size {
			return
		}
		for _, p := range perms(opts) {
			tag := tagLit("struct", strings.Join(p, ","))
			if ref != "" {
				tag += " " + tagLit("ref", ref)
			}
			add(fmt.Sprintf("struct { N uint8 `ref:\"vals=1|2\"`; F bool; A %s %s; Z uint16 }", nat, strconv.Quote(tag)))
		}
	}
	pick := func(nat string, ref string, pools ...[]string) {
		var rec func(i int, cur []string)
		rec = func(i int, cur []string) {
			if i == len(pools) {
				if len(cur) > 0 {
					field(nat, cur, ref)
				}
				return
			}
			rec(i+1, cur)
			for _, o := range pools[i] {
				rec(i+1, append(cur[:len(cur):len(cur)], o))
			}
		}
		rec(0, nil)
	}
	order := []string{"little", "lsb", "big", "msb", "network"}
	pick("uint16", "full", []string{"uint16:11", "uint32", "uint8", "uint64:40", "byte"}, order, []string{"skip=1", "skip=0x2", "skip=02"}, []string{"if=F"}, []string{"out=A+1"})
	pick("int32", "full", []string{"int16", "int32:20", "rune", "int"}, order[:3], []string{"skip=3"}, []string{"in=A*2"})
	pick("bool", "", []string{"uint8:3", "uint32", "bool", "int16", "uint8"}, order[1:3], []string{"variantbool"}, []string{"invertedbool"}, []string{"skip=1"})
	pick("[]uint16", "len=0|2", []string{"[]uint8", "[]uint32"}, order[1:3], []string{"sizefrom=N"}, []string{"skip=1"})
	pick("[]uint8", "len=2", order[:1], []string{"size=2", "size=N+1-N+1", "size=bits.RotateLeft8(1, 1)"}, []string{"skip=2"}, []string{"if=N == 1", "if=(N == 1) || F", "if=bits.OnesCount8(N) == 1"})
	pick("uint8", "", []string{"bits=N+2", "bits=(N * (1+2))", "uint8:5"}, []string{"if=F", "if=\"a,b\"==\"a,b\"", "if=N==','", "if=')'==N||F", "if=$'x)'==\"x)\"", "if=$'\\'('==\"'(\"", "if=\"\\\",\"==\"\\\",\"", "if=N=='\\''||N=='\\x01'", "if='\"'==N||F", "if=F?true:N==2"}, []string{"skip=1"})
	pick("[2]uint16", "", []string{"[2]uint8", "[2]uint32", "[0x2]uint8", "[02]uint8"}, order[1:3], []string{"skip=1"})
	pick("[]uint8", "len=0|1", []string{"string"}, []string{"sizefrom=N"}, []string{"skip=1"})
	pick("*uint16", "", []string{"*uint8", "*uint32"}, order[1:3])
	pick("float64", "", []string{"float32"}, order[1:3], []string{"skip=1"})
	// counts, flags and switches with options in any order
	for _, src := range []string{
		"struct { N uint16 `struct:\"%s\"`; A []uint8 `ref:\"len=0|2\"`; Z uint8 }",
	} {
		for _, o := range [][]string{{"sizeof=A"}, {"sizeof=A", "little"}, {"sizeof=A", "uint8", "skip=1"}, {"big", "sizeof=A", "uint32"}, {"sizeof=A", "uint16:9"}, {"uint8", "sizeof=A"}} {
			for _, p := range perms(o) {
				add(fmt.Sprintf(src, strings.Join(p, ",")))
			}
		}
	}
	for _, sw := range [][2]string{{"struct:\"switch=N\"", ""}, {"struct-switch:\"N\"", ""}, {"struct:\"little,switch=N\"", ""}, {"struct:\"switch=N,little\"", ""}, {"struct:\"skip=1,switch=N,little\"", ""}, {"struct:\"switch=bits.Len8(N)\"", ""}} {
		for _, m := range []string{"A uint16 `struct:\"case=1\"`; B uint32 `struct:\"case=2,little\"`", "A uint16 `struct:\"case=1,uint8\"`; B uint8 `struct:\"default\"`", "A uint16 `struct-case:\"1\"`; B uint8 `struct:\"default,uint16,little\"`", "A uint16 `struct:\"uint32,little,case=1\"`; B uint8 `struct:\"uint16,default\"`"} {
			add(fmt.Sprintf("struct { N uint8 `ref:\"vals=1|2\"`; U struct { %s } `%s`; Z uint8 }", m, sw[0]))
		}
	}
	// expressions in dedicated keys mean the same as inline ones
	for _, x := range []struct{ nat, key, ex, ref string }{
		{"uint8", "if", "F", ""}, {"uint8", "if", "N == 1", ""}, {"uint8", "if", "N==1&&F", ""}, {"uint8", "if", "(N==1)||(N==2)", ""}, {"uint8", "if", "\"a,b\"==\"a\"", ""}, {"uint8", "if", "N==','", ""}, {"uint8", "if", "bits.RotateLeft8(N, 1) == 2", ""}, {"uint8", "if", "F ? N == 1 : N == 2", ""},
		{"[]uint8", "size", "N", "len=0|1|2"}, {"[]uint8", "size", "N+1", "len=2|3"}, {"[]uint16", "size", "2", "len=2"}, {"string", "size", "N", "len=0|1|2"},
		{"uint16", "bits", "N+5", "full"}, {"uint16", "bits", "13", "full"}, {"int16", "bits", "N*4", "full"},
		{"uint16", "in", "A+1", ""}, {"uint16", "out", "A-1", ""}, {"uint16", "in", "A^0x5", ""}, {"bool", "in", "!A", ""}, {"bool", "out", "A==F", ""},
		{"[]uint8", "while", "!_eof", "len=0"}, {"[]uint8", "while", "N == 3", "len=0"},
	} {
		for _, pre := range []string{"", "little", "skip=1", "uint32"} {
			if pre == "uint32" && !strings.HasPrefix(x.nat, "u") {
				continue
			}
			in, ded := x.key+"="+x.ex, ""
			if pre != "" {
				in, ded = pre+","+in, tagLit("struct", pre)+" "
			}
			ref := ""
			if x.ref != "" {
				ref = " " + tagLit("ref", x.ref)
			}
			for _, tag := range []string{tagLit("struct", in), ded + tagLit("struct-"+x.key, x.ex), tagLit("struct-"+x.key, x.ex) + " " + strings.TrimSpace(ded)} {
				add(fmt.Sprintf("struct { N uint8 `ref:\"vals=1|2\"`; F bool; A %s %s; Z uint16 }", x.nat, strconv.Quote(strings.TrimSpace(tag)+ref)))
			}
		}
	}
	// ignored, unexported and untagged fields
	add("struct { N uint8; A uint32 `struct:\"-\"`; Z uint8 }")
	add("struct { N uint8; A chan int `struct:\"-\"`; Z uint8 }")
	add("struct { N uint8; a uint32 `struct:\"bogus\"`; Z uint8 }")
	add("struct { N uint8; A uint32 `json:\"x,y\"`; Z uint8 `json:\"-\" struct:\"uint16\"` }")
	add("struct { N uint8; A uint32 `struct:\"\"`; Z uint8 }")
	return cs
}

// ---- type strings

// shapes of a type string around a leaf type, with a field type it suits.
func (c *Ctx) t02cases() []*Case {
	var cs []*Case
	u := []string{"uint8", "uint16", "uint32", "uint64", "byte", "uint"}
	i := []string{"int8", "int16", "int32", "int64", "rune", "int"}
	add := func(nat, ts, ref string) {
		tag := tagLit("struct", ts)
		if ref != "" {
			tag += " " + tagLit("ref", ref)
		}
		src := fmt.Sprintf("struct { A %s %s; Z uint8 }", nat, strconv.Quote(tag))
		cs = append(cs, &Case{name: src, typ: c.declType(src), dir: map[string]string{"props": "T02"}})
	}
	shapes := []struct{ s, ref string }{{"%s", ""}, {"*%s", ""}, {"**%s", ""}, {"[2]%s", ""}, {"[1]%s", ""}, {"[0]%s", ""}, {"[13]%s", ""}, {"[2][3]%s", ""}, {"[3][2]%s", ""}, {"[2]*%s", ""}, {"*[2]%s", ""}, {"[]%s", "len=0|2"}, {"[2][]%s", "len=1"}, {"[]*%s", "len=2"}, {"[][2]%s", "len=2"}, {"*[]%s", "len=2"}, {"[][]%s", "len=1"}, {"*[2]*[1]%s", ""}}
	for _, sh := range shapes {
		for _, g := range [][]string{u, i} {
			for k, l := range g {
				for j, n := range g[:4] {
					if !c.thorough && sh.s != "%s" && (k+j)%3 != 1 {
						continue
					}
					add(fmt.Sprintf(sh.s, n), fmt.Sprintf(sh.s, l), sh.ref)
				}
			}
		}
		for _, g := range [][]string{{"float32", "float64"}, {"complex64", "complex128"}} {
			for _, l := range g {
				for _, n := range g {
					add(fmt.Sprintf(sh.s, n), fmt.Sprintf(sh.s, l), sh.ref)
				}
			}
		}
		for _, l := range []string{"bool", "uint8", "int16", "uint32", "int64"} {
			if strings.Contains(sh.s, "3") {
				continue
			}
			add(fmt.Sprintf(sh.s, "bool"), fmt.Sprintf(sh.s, l), sh.ref)
		}
	}
	add("[]uint8", "string", "len=0|2")
	add("string", "string", "len=0|2")
	add("string", "[]uint8", "len=0|2")
	add("string", "[3]uint8", "")
	add("[][]uint8", "[]string", "len=1")
	add("[2]uint32", "[0x2]uint8", "")
	add("[8]uint32", "[010]uint8", "")
	add("[16]uint8", "[0x10]uint16", "")
	return cs
}

func (c *Ctx) t02() []law {
	var ls []law
	seen := map[string]bool{}
	reject := func(ts string) {
		if seen[ts] {
			return
		}
		seen[ts] = true
		if _, v := typeVerdict(ts); v != vReject || tagVerdict(ts) != vReject {
			return
		}
		for _, nat := range []string{"uint8", "[]uint8"} {
			ls = append(ls, c.rejectLaw(c.declType(nat), tagLit("struct", ts)))
		}
	}
	bad := []string{"", "map[string]int", "map[int]int", "chan int", "chan<- int", "<-chan int", "func()", "func(int) int", "struct{}", "struct{X int}", "interface{}", "any", "error", "uint128", "int9", "float", "double", "Uint8", "UINT8", "uint8x", "xuint8", "uint_8", "uint 8", "u", "time.Time", "a.B", "unsafe.Pointer", "5", "\"x\"", "'a'", "1+2", "uint8+1", "uint8(3)", "uint8[]", "uint8[3]", "uint8*", "&uint8", "-uint8", "!bool", "nil", "true", "iota", "len", "complex", "complex32", "byte8", "runes", "strings", "[]", "[", "]", "*", "**", "[3]", "[3", "3]uint8", "[]]uint8", "[[]uint8", "[-1]uint8", "[1.5]uint8", "[1.0e]uint8", "[\"a\"]uint8", "['a]uint8", "[x]uint8", "[N]uint8", "[]uint8[]", "[...]uint8", "[..]uint8", "[08]uint8", "[0x]uint8", "[0xg]uint8", "[1 2]uint8", "[1a]uint8", "[99999999999999999999]uint8", "[9999999999999999999]uint8", "{}", "()", "(", ")", "uint8)", "(uint8", "?", "uint8?", "@", "\\", "$"}
	leaf := []string{}
	for _, b := range bad {
		reject(b)
		leaf = append(leaf, b)
	}
	for _, pre := range []string{"*", "[]", "[3]", "**", "[][]", "*[]", "[]*", "[2][2]", "*[4]*"} {
		for _, b := range leaf {
			reject(pre + b)
		}
	}
	for _, a := range []string{"map[%s]uint8", "map[uint8]%s", "chan %s", "func(%s)", "func() %s", "struct{X %s}"} {
		for _, b := range []string{"uint8", "[]uint8", "*uint8", "string", "bogus"} {
			for _, pre := range []string{"", "*", "[]", "[2]", "[][2]*"} {
				reject(pre + fmt.Sprintf(a, b))
			}
		}
	}
	good := []string{"bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "complex64", "complex128", "byte", "rune", "uint", "int", "uintptr", "string"}
	// every one-character edit of the type names
	for _, g := range good {
		for i := 0; i <= len(g); i++ {
			for _, s := range "a0U_-.[*8e " {
				reject(g[:i] + string(s) + g[i:])
				if i < len(g) {
					reject(g[:i] + string(s) + g[i+1:])
				}
			}
			if i < len(g) {
				reject(g[:i] + g[i+1:])
			}
		}
	}
	// the parser itself, where it keeps its shape
	fn := c.prog.pkgs[repoPath].Func("parseType")
	if fn != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 2 {
		var rec func(s string, n int)
		check := func(s string) {
			want, v := typeVerdict(s)
			if v == vNoClaim {
				return
			}
			ls = append(ls, law{"type string " + s, func(r *run) {
				x := r.e.call(fn, s)
				if x.panic != nil {
					return
				}
				tu := x.v.(Tuple)
				ev, ok := tu[1].(Iface)
				ti, ok2 := tu[0].(Iface)
				if !ok || !ok2 {
					return
				}
				if v == vReject {
					r.requireB("rejected", ev.T != nil, fmt.Sprintf("type string %q is accepted", s), nil)
					return
				}
				if ev.T != nil {
					r.requireB("accepted", false, fmt.Sprintf("type string %q is rejected: %s", s, r.e.describe(ev)), nil)
					return
				}
				rt, ok := ti.V.(RT)
				r.requireB("denotes", ok && types.Identical(rt.T, want), fmt.Sprintf("type string %q denotes %s, expected %s", s, r.e.describe(ti), typeString(want)), nil)
			}})
		}
		depth := 3
		if c.thorough {
			depth = 4
		}
		rec = func(s string, n int) {
			for _, g := range good {
				check(s + g)
			}
			for _, b := range []string{"bogus", "map[int]int", "chan int", "func()", ""} {
				check(s + b)
			}
			if n > 0 {
				for _, p := range []string{"*", "[]", "[0]", "[1]", "[7]", "[0x1F]", "[017]"} {
					rec(s+p, n-1)
				}
			}
		}
		rec("", depth)
		for _, b := range bad {
			check(b)
			check("[]" + b)
			check("[3]*" + b)
		}
	}
	return ls
}

func init() {
	rule := "; tags and type strings outside the documented grammar, enumerated by editing documented ones, must make every operation fail"
	checks["T01"] = checkFn{func(c *Ctx) *Result {
		return c.laws(c.t01()).plus(c.codecOn(c.t01cases(), "pack unpack err bytes len tree dirty size presize"))
	}, codecRule + rule}
	checks["T02"] = checkFn{func(c *Ctx) *Result {
		return c.laws(c.t02()).plus(c.codecOn(c.t02cases(), "pack unpack err bytes len tree dirty size presize"))
	}, codecRule + rule}
}
