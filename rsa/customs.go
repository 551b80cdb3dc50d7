package main

import "strconv"

// customs is the reference behaviour of the catalogue's marshaler types.
var customs = map[string]customRef{}

func (r *refc) b8(v Value) {
	l := r.little
	r.little = false
	r.emit(v, 8, 8)
	r.little = l
}

func (r *refc) rb8() Value {
	l := r.little
	r.little = false
	v := r.word(8, 8, false)
	r.little = l
	return v
}

func init() {
	customs["CVal"] = customRef{
		enc: func(r *refc, v Value) {
			if r.free {
				r.zeros(8)
			} else {
				r.b8(uint64(0xa5))
			}
			r.emit(v.(Struct)[0], 16, 16)
		},
		dec: func(r *refc) Value {
			r.need(3)
			r.take(8)
			return Struct{r.word(16, 16, false)}
		},
	}
	customs["CPtr"] = customRef{
		enc: func(r *refc, v Value) {
			s := v.(Struct)
			r.emit(s[0], 16, 16)
			r.b8(r.e.dom.not(s[1], 8))
			if r.free {
				r.zeros(8)
			} else {
				r.b8(uint64(0x5a))
			}
		},
		dec: func(r *refc) Value {
			r.need(4)
			a := r.word(16, 16, false)
			b := r.e.dom.not(r.rb8(), 8)
			r.take(8)
			return Struct{a, b}
		},
	}
	seq := func(r *refc) Slice {
		r.need(1)
		n := int(r.e.concretize(r.rb8()))
		r.need(n)
		s := make(Slice, n)
		for i := range s {
			s[i] = r.rb8()
		}
		return s
	}
	unseq := func(r *refc, s Slice) {
		r.b8(uint64(len(s)))
		for _, b := range s {
			r.b8(b)
		}
	}
	customs["CVar"] = customRef{
		enc: func(r *refc, v Value) { unseq(r, v.(Struct)[0].(Slice)) },
		dec: func(r *refc) Value { return Struct{seq(r)} },
	}
	customs["CSlice"] = customRef{
		enc: func(r *refc, v Value) { unseq(r, v.(Slice)) },
		dec: func(r *refc) Value { return seq(r) },
	}
	customs["CNum"] = customRef{
		enc: func(r *refc, v Value) {
			r.b8(r.e.dom.arith("add", r.e.dom.resize(v, 32, 8, false), uint64(1), 8))
		},
		dec: func(r *refc) Value {
			return r.e.dom.resize(r.e.dom.arith("sub", r.rb8(), uint64(1), 8), 8, 32, false)
		},
	}
	customs["CBits"] = customRef{
		enc: func(r *refc, v Value) {
			if r.free {
				r.zeros(8)
			} else {
				r.b8(v.(Struct)[0])
			}
			r.b8(v.(Struct)[0])
		},
		dec: func(r *refc) Value { r.need(2); r.take(8); return Struct{r.rb8()} },
	}
	customs["CByte"] = customRef{
		enc: func(r *refc, v Value) { r.b8(r.e.dom.not(v, 8)) },
		dec: func(r *refc) Value { r.need(1); return r.e.dom.not(r.rb8(), 8) },
	}
	flip := func(r *refc, v Value) Value { return r.e.dom.bitwise("xor", v, uint64(0x8001), 16) }
	customs["CInt"] = customRef{
		enc: func(r *refc, v Value) { r.emit(flip(r, v), 16, 16) },
		dec: func(r *refc) Value { r.need(2); return flip(r, r.word(16, 16, false)) },
	}
	customs["CFlag"] = customRef{
		enc: func(r *refc, v Value) {
			if r.free {
				r.zeros(8)
			} else {
				r.b8(uint64(0))
			}
			b := &BV{make([]Bit, 8)}
			b.b[7] = boolBit(v)
			b.b[4] = bTrue
			if r.free {
				for i := 0; i < 7; i++ {
					b.b[i] = r.e.dom.Var("free." + strconv.Itoa(r.nfree))
					r.nfree++
				}
			}
			r.b8(lower(b))
		},
		dec: func(r *refc) Value {
			r.need(2)
			r.take(8)
			return abool(lift(r.rb8(), 8).b[7])
		},
	}
	customs["CText"] = customRef{
		enc: func(r *refc, v Value) {
			bs, _ := strBytes(v)
			unseq(r, bs)
		},
		dec: func(r *refc) Value { return strFromBytes(seq(r)) },
	}
	customs["CArr"] = customRef{
		enc: func(r *refc, v Value) { a := v.(Array); r.b8(a[1]); r.b8(a[0]) },
		dec: func(r *refc) Value { r.need(2); b := r.rb8(); return Array{r.rb8(), b} },
	}
	customs["CDec"] = customRef{
		dec: func(r *refc) Value {
			r.need(2)
			a := r.rb8()
			return Struct{a, r.e.dom.arith("add", r.rb8(), uint64(1), 8)}
		},
	}
	for _, n := range []string{"CFail", "CPanic", "CPanic2", "CShort", "CEOF", "CUEOF", "CErr", "CErr2"} {
		customs[n] = customRef{fail: true}
	}
}

// need is the length check of a marshaler.
func (r *refc) need(n int) {
	if r.pos+n*8 > len(r.in) {
		refErr("input too short for custom type")
	}
}
