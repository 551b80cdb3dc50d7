package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// The entry points on arguments that are not what they ask for (C14, C22).

func (r *run) allOps(what string, v func() Iface, f func(op string, a apiResult, v Iface)) {
	e := r.e
	data := make(Slice, 64)
	for i := range data {
		data[i] = uint64(i + 1)
	}
	for _, big := range []bool{true, false} {
		x := v()
		f(what+": Unpack", e.doUnpack(data, big, x), x)
		x = v()
		f(what+": Pack", e.doPack(big, x), x)
	}
	for _, fn := range []string{"SizeOf", "BitSize"} {
		x := v()
		f(what+": "+fn, e.doSize(fn, x), x)
	}
}

func isUnpack(op string) bool { return len(op) > 6 && op[len(op)-6:] == "Unpack" }

// fails requires the documented failure: an error, no panic, no data.
func (r *run) fails(op string, a apiResult) {
	if !r.noPanic(op, a) {
		return
	}
	r.requireB("error-reported", a.err, op+" reports success", nil)
	if a.data != nil {
		r.requireB("no-data-with-error", len(a.data) == 0, op+" returns data with its error", nil)
	}
}

func (c *Ctx) entryLaws() *Result {
	var ls []law
	add := func(name string, f func(r *run)) { ls = append(ls, law{name, f}) }
	named := func(n string) types.Type { return c.catType(n) }
	var ts []types.Type
	for _, n := range []string{"Pt", "Emb", "St1", "Ar1", "Cu1", "CVal", "CPtr", "CNum", "CVar", "CBits", "CSlice", "CByte", "CInt", "CFlag", "CText", "CArr"} {
		ts = append(ts, named(n))
	}
	for _, s := range []string{"struct { A uint8 }", "struct{}", "struct { A []byte `struct:\"size=2\"` }", "struct { N uint8 `struct:\"sizeof=B\"`; B string }", "[2]uint8", "[]uint16", "uint32", "string", "bool", "float64", "struct { A *uint8 }", "*struct { A uint8 }"} {
		ts = append(ts, c.declType(s))
	}
	add("nil interface", func(r *run) {
		r.allOps("nil", func() Iface { return Iface{} }, func(op string, a apiResult, _ Iface) { r.fails(op, a) })
	})
	for _, t := range ts {
		t := t
		pt := types.NewPointer(t)
		add("nil *"+t.String(), func(r *run) {
			r.allOps("nil *"+t.String(), func() Iface { return Iface{pt, (*Value)(nil)} }, func(op string, a apiResult, _ Iface) { r.fails(op, a) })
		})
		add("value of "+t.String(), func(r *run) {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return
			}
			r.allOps("by-value "+t.String(), func() Iface { return Iface{t, zero(t)} }, func(op string, a apiResult, _ Iface) {
				if isUnpack(op) {
					r.fails(op, a)
				}
			})
		})
	}
	for _, t := range ts {
		t := t
		add("nil order for "+t.String(), func(r *run) {
			r.e.via = "nil"
			defer func() { r.e.via = "" }()
			r.allOps("nil order", func() Iface { return Iface{types.NewPointer(t), newCell(zero(t))} }, func(op string, a apiResult, _ Iface) {
				if r.noPanic(op, a) && a.err && a.data != nil {
					r.requireB("no-data-with-error", len(a.data) == 0, op+" returns data with its error", nil)
				}
			})
		})
	}
	// settable destinations are accepted
	for _, t := range ts[:16] {
		t := t
		add("pointer to "+t.String(), func(r *run) {
			e := r.e
			data := make(Slice, 96)
			for i := range data {
				data[i] = uint64(1)
			}
			a := e.doUnpack(data, true, Iface{types.NewPointer(t), newCell(zero(t))})
			if r.noPanic("Unpack", a) {
				r.requireB("accepted", !a.err, "Unpack into a *"+t.String()+" fails", nil)
			}
		})
	}
	return c.laws(ls)
}

// badTags are rejected by every operation wherever the field occurs.
var badTags = []string{
	"uint8:0", "uint8:8", "uint8:9", "uint16:16", "uint8:-1", "uint8:x", "uint8:", "nosuch", "map[int]int", "chan int", "func()", "[x]int", "[", "skip=x", "skip=", "skip=-", "sizeof=", "sizefrom=", "sizeof=Nope", "sizefrom=Nope",
	"if=", "if=(", "if=1 +", "if=]", "size=", "bits=(", "in=", "out=)", "while=", "switch=", "case=", "bogus", "bogus=1", "-,big", "-,uint8", "uint8,,,x", "bits=1 2", "size='", "case=\\\"", "in=$",
}

func (c *Ctx) failureLaws() *Result {
	var ls []law
	field := func(name string, t types.Type) *types.Var {
		return types.NewField(token.NoPos, c.prog.cat.Pkg, name, t, false)
	}
	u8 := types.Typ[types.Uint8]
	strct := func(tag string, t types.Type) *types.Struct {
		return types.NewStruct([]*types.Var{field("A", u8), field("B", t), field("C", u8)}, []string{"", tag, ""})
	}
	for _, bt := range badTags {
		in := strct("struct:\""+bt+"\"", u8)
		places := []types.Type{
			in,
			strct("", in),
			strct("", types.NewArray(in, 2)),
			strct("", types.NewPointer(in)),
			strct("struct:\"size=1\"", types.NewSlice(in)),
			strct("struct:\"if=A==1\"", in),
		}
		for i, t := range places {
			t, i, bt := t, i, bt
			ls = append(ls, law{fmt.Sprintf("tag %s at %d", bt, i), func(r *run) {
				r.allOps(fmt.Sprintf("tag %q, place %d", bt, i), func() Iface {
					p := newCell(zero(t))
					s := (*p).(Struct)
					s[0] = uint64(1)
					switch i {
					case 3:
						s[1] = newCell(zero(in))
					case 4:
						s[1] = Slice{zero(in)}
					}
					return Iface{types.NewPointer(t), p}
				}, func(op string, a apiResult, _ Iface) { r.fails(op, a) })
			}})
		}
	}
	// binary types that cannot represent the field
	for _, p := range [][2]string{{"int", "string"}, {"string", "uint8"}, {"float32", "uint8"}, {"float64", "int64"}, {"uint8", "float32"}, {"int", "float64"}, {"bool", "float32"}, {"bool", "[2]uint8"}, {"bool", "string"},
		{"[2]int", "uint8"}, {"[2]uint8", "uint16"}, {"uint8", "[2]uint8"}, {"int32", "[]int32"}, {"struct { X int8 }", "uint8"}, {"*uint8", "uint8"}, {"complex64", "uint64"}, {"complex128", "float64"}, {"float32", "complex64"}, {"interface{}", "uint8"}, {"map[int]int", "uint8"}, {"chan int", "uint16"}, {"func()", "uint32"}} {
		p := p
		nt := c.declType(p[0])
		t := strct("struct:\""+p[1]+"\"", nt)
		ls = append(ls, law{fmt.Sprintf("tag %s on %s", p[1], p[0]), func(r *run) {
			r.allOps(fmt.Sprintf("%s as %s", p[0], p[1]), func() Iface {
				return Iface{types.NewPointer(t), newCell(zero(t))}
			}, func(op string, a apiResult, _ Iface) {
				if isUnpack(op) || strings.HasSuffix(op, ": Pack") {
					r.fails(op, a)
				} else {
					r.noPanic(op, a)
				}
			})
		}})
	}
	return c.laws(ls)
}

// countLaws decode counts of every value from inputs that hold a few elements:
// the outcome is an error exactly when the input is too short, and no memory
// is set aside for elements that are not there.
func (c *Ctx) countLaws() *Result { return c.countForms("sizeof", "sizefrom", "size") }

func (c *Ctx) countForms(forms ...string) *Result {
	var ls []law
	type elem struct {
		typ, tag string
		bits     int
	}
	elems := []elem{{"[]uint8", "", 8}, {"string", "", 8}, {"[]uint16", "", 16}, {"[]uint64", "[]uint8", 8}, {"[]int32", "", 32}, {"[]bool", "", 8}, {"[]float64", "", 64}, {"[][3]uint16", "", 48}, {"[]struct { X uint8 `struct:\"uint8:3\"`; Y uint16 `struct:\"uint16:10\"` }", "", 13}, {"[]struct { X uint8 `struct:\"skip=1\"`; _ uint16; z uint32; S struct { A, B uint8 } }", "", 48}}
	for _, ct := range []string{"uint8", "uint16", "uint32", "uint64", "uint", "int8", "int16", "int32", "int64", "int"} {
		_, w, signed := basicInfo(c.declType(ct))
		if ct == "int" || ct == "uint" {
			w = 32 // their encoding
		}
		for _, el := range elems {
			for _, lead := range []int{0, 3} {
				for have := 0; have <= 3; have++ {
					for _, form := range forms {
						if form != "size" && (ct == "int" || ct == "uint") || have == 3 && w > 8 && !c.thorough {
							continue
						}
						ntag, tag := "", el.tag
						opt := map[string]string{"sizeof": "", "sizefrom": "sizefrom=N", "size": "size=N"}[form]
						if form == "sizeof" {
							ntag = "`struct:\"sizeof=A\"`"
						}
						if tag != "" && opt != "" {
							tag += ","
						}
						pad := ""
						if lead > 0 {
							pad = fmt.Sprintf("L uint8 `struct:\"uint8:%d\"`; ", lead)
						}
						src := fmt.Sprintf("struct { %sN %s %s; A %s `struct:%q` }", pad, ct, ntag, el.typ, tag+opt)
						bits := lead + w + have*el.bits
						bytes := (bits + 7) / 8
						avail := (bytes*8 - lead - w) / el.bits
						t, lead := c.declType(src), lead
						ls = append(ls, law{fmt.Sprintf("count %s, input of %d bytes", src, bytes), func(r *run) {
							e := r.e
							n := e.dom.SymBV("n", w)
							in := make(Slice, bytes)
							for i := range in {
								v := &BV{make([]Bit, 8)}
								for b := 0; b < 8; b++ {
									v.b[b] = bFalse
									// the count is big-endian, most significant bit first
									if k := i*8 + (7 - b) - lead; k >= 0 && k < w {
										v.b[b] = n.b[w-1-k]
									}
								}
								in[i] = lower(v)
							}
							e.maxAlloc = int64(bytes) * 8
							defer func() { e.maxAlloc = 0 }()
							p := newCell(zero(t))
							a := e.doUnpack(in, true, Iface{types.NewPointer(t), p})
							if !r.noPanic("Unpack", a) {
								return
							}
							fits := e.dom.lt(n, uint64(avail+1), w, false)
							if signed {
								fits = e.dom.And(fits, n.b[w-1]^1)
							}
							if a.err {
								fits ^= 1
							}
							r.require("truncation", fits, func(v *valuation) string {
								if a.err {
									return "Unpack rejects a count that the input satisfies: " + e.describe(a.errV)
								}
								return fmt.Sprintf("Unpack accepts a count beyond the %d elements the input holds", avail)
							}, nil)
						}})
					}
				}
			}
		}
	}
	return c.laws(ls)
}
