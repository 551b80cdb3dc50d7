package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The PNG structures (F01), against the layout of the PNG specification.

// member is the cell of a field, by its Go name.
func member(t types.Type, cell *Value, name string) (types.Type, *Value) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type(), &(*cell).(Struct)[i]
		}
	}
	panic(abort{"unsupported", fmt.Sprintf("%s has no field %s", t, name)})
}

type pngChunk struct {
	kind string // IHDR, IDAT, IEND, a type name, or ? for any other
	n    int    // payload length
}

func (k pngChunk) String() string { return fmt.Sprintf("%s(%d)", k.kind, k.n) }

// pngStream is the stream of a chunk sequence with arbitrary contents.
type pngStream struct {
	data   Slice
	types  [][]Value
	bodies []Slice
	crcs   []Value
	ends   map[int]bool // lengths at which a chunk sequence is complete
}

func (e *Engine) pngStream(cs []pngChunk) *pngStream {
	s := &pngStream{ends: map[int]bool{}}
	sym := func(name string, n int) Slice {
		var r Slice
		for i := 0; i < n; i++ {
			r = append(r, Value(e.dom.SymBV(fmt.Sprintf("%s%d", name, i), 8)))
		}
		return r
	}
	s.data = append(s.data, sym("magic", 8)...)
	for i, k := range cs {
		n := uint64(k.n)
		s.data = append(s.data, n>>24, n>>16&255, n>>8&255, n&255)
		var ty []Value
		if k.kind == "?" {
			// type codes are letters: 01xxxxxx
			for _, x := range sym(fmt.Sprintf("type%d.", i), 4) {
				b := append([]Bit(nil), x.(*BV).b...)
				b[6], b[7] = bTrue, bFalse
				ty = append(ty, &BV{b})
			}
			for _, known := range []string{"IHDR", "IDAT", "IEND"} {
				all := bTrue
				for j := 0; j < 4; j++ {
					all = e.dom.And(all, e.dom.eq(ty[j], uint64(known[j]), 8))
				}
				if e.decide(all) {
					panic(abort{"infeasible", ""})
				}
			}
		} else {
			for j := 0; j < 4; j++ {
				ty = append(ty, uint64(k.kind[j]))
			}
		}
		body := sym(fmt.Sprintf("body%d.", i), k.n)
		crc := sym(fmt.Sprintf("crc%d.", i), 4)
		s.data = append(s.data, ty...)
		s.data = append(s.data, body...)
		s.data = append(s.data, crc...)
		s.types = append(s.types, ty)
		s.bodies = append(s.bodies, body)
		s.crcs = append(s.crcs, e.bigEndian(crc))
		s.ends[len(s.data)] = true
	}
	return s
}

func (e *Engine) bigEndian(b Slice) Value {
	w := 8 * len(b)
	r := &BV{make([]Bit, w)}
	for i, x := range b {
		for j := 0; j < 8; j++ {
			r.b[w-8*(i+1)+j] = bitOf(x, j)
		}
	}
	return lower(r)
}

func bitOf(v Value, j int) Bit {
	switch v := v.(type) {
	case uint64:
		return Bit(v >> uint(j) & 1)
	case *BV:
		return v.b[j]
	}
	panic(fmt.Sprintf("bit of %T", v))
}

func (r *run) pngEq(what string, got, want Value, w int) {
	e := r.e
	if _, ok := got.(*OStr); ok {
		e.unsupported("opaque %s", what)
	}
	r.require("decoded value", e.dom.eq(got, want, w), func(v *valuation) string {
		return what + " is not what the stream holds"
	}, nil)
}

// pngTree compares a decoded file with the stream.
func (r *run) pngTree(T types.Type, cell *Value, cs []pngChunk, s *pngStream) bool {
	e := r.e
	_, magic := member(T, cell, "Magic")
	for i := 0; i < 8; i++ {
		r.pngEq("Magic", (*magic).(Array)[i], s.data[i], 8)
	}
	ht, h := member(T, cell, "Header")
	st, l := member(T, cell, "Chunks")
	list := (*l).(Slice)
	if !r.requireB("decoded value", len(list) == len(cs)-1, fmt.Sprintf("%d chunks after the header are decoded, the stream has %d", len(list), len(cs)-1), nil) {
		return false
	}
	et := st.Underlying().(*types.Slice).Elem()
	for i, k := range cs {
		ct, c := ht, h
		if i > 0 {
			ct, c = et, &list[i-1]
		}
		what := fmt.Sprintf("chunk %d", i)
		_, n := member(ct, c, "Len")
		r.pngEq(what+" Len", *n, uint64(k.n), 32)
		_, crc := member(ct, c, "CRC")
		r.pngEq(what+" CRC", *crc, s.crcs[i], 32)
		_, ty := member(ct, c, "Type")
		bs, ok := strBytes(*ty)
		if !r.requireB("decoded value", ok && len(bs) == 4, what+" Type does not have four bytes", nil) {
			return false
		}
		for j := range bs {
			r.pngEq(what+" Type", bs[j], s.types[i][j], 8)
		}
		dt, d := member(ct, c, "Data")
		sel := "Raw"
		switch k.kind {
		case "IHDR", "IDAT", "IEND":
			sel = k.kind
		}
		ds := dt.Underlying().(*types.Struct)
		for j := 0; j < ds.NumFields(); j++ {
			name := ds.Field(j).Name()
			p, _ := (*d).(Struct)[j].(*Value)
			if !r.requireB("decoded value", (p != nil) == (name == sel), fmt.Sprintf("%s of type %s: member %s is set: %v", what, k.kind, name, p != nil), nil) {
				return false
			}
			if name != sel {
				continue
			}
			mt := ds.Field(j).Type().Underlying().(*types.Pointer).Elem()
			switch sel {
			case "IHDR":
				off := 0
				for _, f := range []struct {
					n string
					w int
				}{{"Width", 4}, {"Height", 4}, {"BitDepth", 1}, {"ColorType", 1}, {"CompressionMethod", 1}, {"FilterMethod", 1}, {"InterlaceMethod", 1}} {
					_, x := member(mt, p, f.n)
					r.pngEq(what+" "+f.n, *x, e.bigEndian(s.bodies[i][off:off+f.w]), 8*f.w)
					off += f.w
				}
			case "IDAT", "Raw":
				_, x := member(mt, p, "Data")
				b, _ := (*x).(Slice)
				if !r.requireB("decoded value", len(b) == k.n, fmt.Sprintf("%s holds %d bytes, its length is %d", what, len(b), k.n), nil) {
					return false
				}
				for j := range b {
					r.pngEq(fmt.Sprintf("%s byte %d", what, j), b[j], s.bodies[i][j], 8)
				}
				_, par := member(mt, p, "Parent")
				pp, _ := (*par).(*Value)
				r.requireB("decoded value", pp == c || i > 0 && pp != nil, what+" has no parent", nil)
			}
		}
	}
	return true
}

func (c *Ctx) f01() []law {
	tn, ok := c.prog.png.Pkg.Scope().Lookup("File").(*types.TypeName)
	if !ok {
		return nil
	}
	T := tn.Type()
	var ls []law
	seq := func(cs []pngChunk) {
		var names []string
		for _, k := range cs {
			names = append(names, k.String())
		}
		name := strings.Join(names, " ")
		ls = append(ls, law{"png " + name, func(r *run) {
			e := r.e
			s := e.pngStream(cs)
			pi := func() (Iface, *Value) {
				p := newCell(zero(T))
				return Iface{types.NewPointer(T), p}, p
			}
			v, p := pi()
			a := e.doUnpack(append(Slice{}, s.data...), true, v)
			if !r.noPanic("Unpack", a) {
				return
			}
			if !r.requireB("error", !a.err, "a well-formed stream is rejected: "+e.describe(a.errV), nil, e.lastTrace...) {
				return
			}
			if !r.pngTree(T, p, cs, s) {
				return
			}
			// the order passed to the operations is the one of the format
			b := e.doPack(true, v)
			if !r.noPanic("Pack", b) || !r.requireB("error", !b.err, "the decoded file cannot be encoded: "+e.describe(b.errV), nil) {
				return
			}
			if r.requireB("encoding", len(b.data) == len(s.data), fmt.Sprintf("%d bytes are encoded, the stream has %d", len(b.data), len(s.data)), nil) {
				for i := range s.data {
					i := i
					r.require("encoding", e.dom.eq(b.data[i], s.data[i], 8), func(v *valuation) string {
						return fmt.Sprintf("byte %d of the encoded file differs from the stream", i)
					}, nil)
				}
			}
			for _, f := range []struct {
				n string
				m int
			}{{"SizeOf", 1}, {"BitSize", 8}} {
				z := e.doSize(f.n, v)
				if r.noPanic(f.n, z) {
					r.requireB("size", !z.err && z.n == uint64(f.m*len(s.data)), fmt.Sprintf("%s of the decoded file is wrong", f.n), nil)
				}
			}
			// truncated streams
			for n := 0; n < len(s.data); n++ {
				if s.ends[n] || n > 60 && n%37 != 0 && n < len(s.data)-6 {
					continue
				}
				v, _ := pi()
				a := e.doUnpack(append(Slice{}, s.data[:n]...), true, v)
				if !r.noPanic("Unpack", a) {
					return
				}
				r.requireB("error", a.err, fmt.Sprintf("the first %d of %d bytes are accepted", n, len(s.data)), nil)
			}
			for n := range s.ends {
				if n == len(s.data) {
					continue
				}
				v, _ := pi()
				a := e.doUnpack(append(Slice{}, s.data[:n]...), true, v)
				if r.noPanic("Unpack", a) {
					r.requireB("error", !a.err, fmt.Sprintf("the stream of the chunks in the first %d bytes is rejected", n), nil)
				}
			}
		}})
	}
	pool := []pngChunk{{"IHDR", 13}, {"IDAT", 0}, {"IDAT", 1}, {"IDAT", 5}, {"IEND", 0}, {"tEXt", 3}, {"idat", 2}, {"IHDr", 1}, {"?", 0}, {"?", 2}}
	var rec func(cs []pngChunk, n int)
	rec = func(cs []pngChunk, n int) {
		seq(cs)
		if n == 0 {
			return
		}
		for _, k := range pool {
			rec(append(cs[:len(cs):len(cs)], k), n-1)
		}
	}
	n := 2
	if c.thorough {
		n = 3
	}
	rec([]pngChunk{{"IHDR", 13}}, n)
	for _, k := range pool {
		rec([]pngChunk{k}, 1)
	}
	// a length that differs from what the stream holds
	for _, k := range []string{"IDAT", "tEXt", "IEND", "IHDR"} {
		for _, have := range []int{0, 4, 13} {
			k, have := k, have
			ls = append(ls, law{fmt.Sprintf("png %s with any length over %d bytes", k, have), func(r *run) {
				e := r.e
				s := e.pngStream([]pngChunk{{"IHDR", 13}, {k, have}})
				n := Slice{}
				at := len(s.data) - have - 12
				for i := 0; i < 4; i++ {
					n = append(n, Value(e.dom.SymBV(fmt.Sprintf("len%d", i), 8)))
					s.data[at+i] = n[i]
				}
				length := e.bigEndian(n)
				v := Iface{types.NewPointer(T), newCell(zero(T))}
				a := e.doUnpack(append(Slice{}, s.data...), true, v)
				if !r.noPanic("Unpack", a) {
					return
				}
				// fixed bodies have the length of their type
				if k == "IEND" || k == "IHDR" {
					return
				}
				eq := e.dom.eq(length, uint64(have), 32)
				for m := 0; m < have; m++ {
					// a shorter chunk leaves bytes that may make up further chunks
					if e.decide(e.dom.eq(length, uint64(m), 32)) {
						return
					}
				}
				r.require("error", e.dom.Or(eq, boolBit(a.err)), func(v *valuation) string {
					return fmt.Sprintf("a chunk that announces more than the %d bytes of its body is accepted", have)
				}, nil)
			}})
		}
	}
	for _, n := range []int{255, 256, 257, 4096, 65535, 65536, 65537, 131073} {
		for _, k := range []string{"IDAT", "tEXt"} {
			n, k := n, k
			if n > 4096 && !c.thorough && (n != 65537 || k != "IDAT") {
				continue
			}
			ls = append(ls, law{fmt.Sprintf("png %s of %d bytes", k, n), func(r *run) {
				e := r.e
				old := e.maxSteps
				defer func() { e.maxSteps = old }()
				e.maxSteps = 200 * old
				s := e.pngStream([]pngChunk{{"IHDR", 13}, {k, n}, {"IEND", 0}})
				p := newCell(zero(T))
				a := e.doUnpack(append(Slice{}, s.data...), true, Iface{types.NewPointer(T), p})
				if r.noPanic("Unpack", a) && r.requireB("error", !a.err, "a well-formed stream is rejected: "+e.describe(a.errV), nil) {
					r.pngTree(T, p, []pngChunk{{"IHDR", 13}, {k, n}, {"IEND", 0}}, s)
				}
			}})
		}
	}
	seq([]pngChunk{{"IHDR", 13}, {"gAMA", 4}, {"IDAT", 16}, {"IDAT", 255}, {"IEND", 0}})
	seq([]pngChunk{{"IHDR", 13}, {"IDAT", 300}, {"IEND", 0}})
	return ls
}

func init() {
	checks["F01"] = checkFn{func(c *Ctx) *Result { return c.laws(c.f01()) },
		"abstract interpretation of Unpack, Pack, SizeOf and BitSize on the PNG structures, for chunk sequences with arbitrary contents, compared bit by bit with the chunk layout of the PNG specification; every truncation must fail"}
}
