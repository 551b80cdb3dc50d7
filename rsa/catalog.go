package main

import (
	"fmt"
	"strings"
)

const codecRule = "abstract interpretation of the SSA of Pack, Unpack, SizeOf and BitSize and everything they call, specialised to each catalogue declaration, compared field by field and bit by bit with an independent model of the documented layout"

func init() {
	codec := func(id, aspects string) {
		checks[id] = checkFn{func(c *Ctx) *Result { return c.codec(aspects) }, codecRule}
	}
	full := "pack unpack err bytes len tree dirty"
	codec("C01", full)
	codec("C02", full)
	codec("C03", "unpack err tree dirty")
	codec("C04", full)
	codec("C05", full)
	codec("C06", "pack unpack presize size len probe")
	codec("C07", full)
	codec("C08", full+" size presize")
	codec("C09", full+" size presize")
	codec("C10", full+" size src")
	codec("C11", full+" size")
	codec("C12", full+" src")
	codec("C13", "unpack trunc errreq")
	codec("C14", "pack unpack errreq nodata trunc")
	codec("C15", "pack unpack src srconly input alias")
	codec("C16", full+" size presize")
	codec("C17", full+" size presize")
	codec("C18", full+" size src")
	codec("C19", full+" size presize src")
	codec("C20", full+" size presize")
	codec("C21", "unpack diff idem")
	codec("C22", "pack byval")
	extra := func(id, more string, f func(c *Ctx) *Result) {
		old := checks[id]
		checks[id] = checkFn{func(c *Ctx) *Result { return old.run(c).plus(f(c)) }, old.rule + more}
	}
	extra("C13", "; plus counts of every value against inputs that hold a few elements", (*Ctx).countLaws)
	extra("C11", "; plus size expressions of every value against inputs that hold a few elements", func(c *Ctx) *Result { return c.countForms("size") })
	extra("C10", "; plus counts of every value against inputs that hold a few elements", func(c *Ctx) *Result { return c.countForms("sizeof", "sizefrom") })
	extra("C22", "; plus nil, nil-pointer and by-value arguments of each shape", (*Ctx).entryLaws)
	extra("C14", "; plus nil, nil-pointer and by-value arguments and malformed tags at every place of a declaration", func(c *Ctx) *Result { return c.entryLaws().plus(c.failureLaws()) })
	codec("E10", full+" size presize")
	codec("X", full+" size presize src input alias trunc idem diff byval nodata reenc packagain")
}

// generated is the systematically enumerated part of the catalogue.
func generated() string {
	var b strings.Builder
	n := 0
	decl := func(dir, body string, args ...interface{}) {
		n++
		fmt.Fprintf(&b, "//rsa:%s\ntype G%d struct {%s}\n\n", dir, n, fmt.Sprintf(body, args...))
	}
	ints := []string{"int8", "int16", "int32", "int64", "int"}
	uints := []string{"uint8", "uint16", "uint32", "uint64", "uint"}
	width := map[string]int{"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64, "bool": 8}
	scal := append(append([]string{"float32", "float64", "complex64", "complex128", "bool"}, ints...), uints...)

	// C01: every scalar kind, every native/binary pairing, every position
	for _, k := range scal {
		decl("props=C01,C06,C13 off=all", "A %s; B uint8", k)
	}
	for _, g := range [][]string{ints, uints} {
		for _, a := range g {
			for _, c := range g {
				decl("props=C01,C06 off=0,3", "A %s `struct:\"%s\"`; B uint8", a, c)
			}
		}
	}
	for _, g := range [][]string{{"float32", "float64"}, {"complex64", "complex128"}} {
		for _, a := range g {
			for _, c := range g {
				decl("props=C01 off=0,3", "A %s `struct:\"%s\"`; B uint8", a, c)
			}
		}
	}

	// E10: every built-in function, its argument and result types
	for _, f := range bitsFuncs {
		base := strings.TrimRight(f, "0123456789")
		ut := "uint" + f[len(base):]
		tag := map[string]string{"uint": "uint64"}[ut]
		if tag == "" {
			tag = ut
		}
		args, k := "A", ""
		if base == "RotateLeft" {
			args, k = "A, K", "; K int `struct:\"int8\"`"
		}
		rt, rtag := "int", "int32"
		if base == "RotateLeft" || strings.HasPrefix(base, "Reverse") {
			rt, rtag = ut, tag
		}
		decl("props=E10", "A %s `struct:\"%s\"`%s; R %s `struct:\"%s,in=bits.%s(%s)\"`", ut, tag, k, rt, rtag, f, args)
		decl("props=E10", "A %s `struct:\"%s\"`%s; R %s `struct:\"%s,out=bits.%s(%s)\"`", ut, tag, k, rt, rtag, f, args)
		decl("props=E10", "bits uint8 `struct:\"-\"`; A %s `struct:\"%s\"`%s; R %s `struct:\"%s\"`; S %s `struct:\"%s,in=bits.%s(%s) - R\"`", ut, tag, k, rt, rtag, rt, rtag, f, args)
	}
	for _, b := range []string{"A uint8; B bool `struct:\"in=_eof\"`", "A uint8; B bool `struct:\"in=_eof\"`; C uint8", "A uint8; B uint8 `struct:\"if=!_eof\"`", "A uint8; B uint16 `struct:\"if=_eof\"`; C uint8 `struct:\"if=!_eof\"`", "A uint8; B []uint8 `struct:\"size=2\" ref:\"len=2\"`; C uint8 `struct:\"if=!_eof\"`", "A []uint16 `struct:\"while=!_eof\"`", "A uint8 `struct:\"skip=1\"`; B uint8 `struct:\"if=!_eof\"`", "A struct { X uint8; E bool `struct:\"in=_eof\"` }; B uint8 `struct:\"if=!_eof\"`", "A uint8 `struct:\"uint8:4\"`; C uint8 `struct:\"uint8:4\"`; B uint8 `struct:\"if=!_eof\"`", "_eof uint8 `struct:\"-\"`; A uint8; B uint8 `struct:\"if=!_eof\"`"} {
		for raw := 1; raw <= 4; raw++ {
			decl(fmt.Sprintf("props=E10 modes=dec raw=%d", raw), "%s", b)
		}
	}

	// C02, C03: every bit count
	for _, k := range uints {
		for w := 1; w < width[k]; w++ {
			decl("props=C02 off=all", "A %s `struct:\"%s:%d\" ref:\"full\"`; B uint8 `struct:\"uint8:3\"`; C uint16", k, k, w)
		}
	}
	// C07: byte orders of other types
	for _, k := range append(append([]string{}, uints...), "int16", "int32", "int64", "float32", "float64", "complex64", "bool") {
		decl("props=C07 off=0,3 foreign", "A %s; B uint8", k)
		decl("props=C07 off=0,3 foreign", "A [2]%s; B *%s `ref:\"nonnil\"`; C struct { D %s; E %s `struct:\"big\"`; F %s `struct:\"little\"` }", k, k, k, k, k)
		for _, w := range []int{1, 5, 8, 9, 13, 16, 17, 24, 31, 33, 63} {
			if w >= width[k] || k == "bool" {
				continue
			}
			decl("props=C07,C02 off=0,3 foreign modes=enc", "A %s `struct:\"%s:%d\" ref:\"full\"`; B uint8 `struct:\"uint8:3\"`; C uint16", k, k, w)
			if k[0] == 'u' {
				decl("props=C07,C02 off=0,3 foreign", "A %s `struct:\"%s:%d\"`; B uint8 `struct:\"uint8:3\"`; C uint16; D uint32 `struct:\"uint32:19,big\"`; E uint32 `struct:\"uint32:19,little\"`", k, k, w)
			} else {
				decl("props=C07,C03 off=0,3 foreign modes=dec", "A %s `struct:\"%s:%d\"`; B uint8 `struct:\"uint8:3\"`; C uint16", k, k, w)
			}
		}
		if k[0] == 'u' && k != "uint" {
			decl("props=C07 off=0,3 foreign", "T bool `struct:\"%s:%d\"`; U bool `struct:\"%s,variantbool\"`; N uint8 `ref:\"vals=1|%d\"`; V %s `struct:\"bits=N\" ref:\"full\"`; W uint8", k, width[k]-1, k, width[k]-1, k)
		}
	}
	for _, k := range ints {
		for w := 1; w < width[k]; w++ {
			decl("props=C02 off=0,3,5 modes=enc", "A %s `struct:\"%s:%d\" ref:\"full\"`; B uint8 `struct:\"uint8:3\"`; C uint16", k, k, w)
			x := ""
			if k == "int8" {
				x = " int8known"
			}
			decl("props=C03 off=all modes=dec"+x, "A %s `struct:\"%s:%d\"`; B uint8 `struct:\"uint8:3\"`; C uint16", k, k, w)
		}
	}
	for _, k := range uints {
		for w := 1; w < width[k]; w++ {
			decl("props=C03 off=0,3 modes=dec", "A %s `struct:\"%s:%d\"`; B uint8 `struct:\"uint8:3\"`; C int16 `struct:\"int16:9\"`; D uint64 `struct:\"%s:%d\"`", k, k, w, k, w)
		}
		decl("props=C03 off=0,3 modes=dec", "B int16 `struct:\"int16:9\"`; A %s; C %s", k, k)
	}
	for _, g := range [][]string{ints, uints} {
		p := "C02"
		if g[0] == "int8" {
			p = "C03"
		}
		for _, a := range g {
			for _, c := range g {
				if a != c && c != "int8" {
					for _, w := range []int{5, width[c] - 1} {
						if w < width[a] {
							decl("props="+p+" off=0,3 modes=dec", "A %s `struct:\"%s:%d\"`; B uint8 `struct:\"uint8:3\"`", a, c, w)
						}
					}
				}
			}
		}
	}

	// C04: every binary type, flag and width of a boolean
	for _, k := range append(append([]string{"bool"}, ints...), uints...) {
		for _, fl := range []string{"", ",variantbool", ",invertedbool", ",variantbool,invertedbool"} {
			decl("props=C04 off=0,5", "A bool `struct:\"%s%s\"`; B uint8 `struct:\"uint8:3\"`", k, fl)
			if k == "bool" {
				continue
			}
			for _, w := range []int{1, 5, 9, width[k] - 1} {
				if w < width[k] {
					decl("props=C04 off=0,6", "A bool `struct:\"%s:%d%s\"`; B uint8 `struct:\"uint8:3\"`", k, w, fl)
				}
			}
		}
	}

	// C05: skips and padding of every size from every position
	for _, sk := range []int{1, 2, 3, 7, 32, 40} {
		for _, k := range []string{"uint8|", "uint32|", "uint16|,uint16:9", "Pt|", "[]byte|,[2]byte", "[2]uint16|", "bool|", "string|,[2]byte", "float64|"} {
			t, o, _ := strings.Cut(k, "|")
			if sk > 3 && t != "uint8" && t != "[2]uint16" {
				continue
			}
			hint := ""
			if t == "[]byte" || t == "string" {
				hint = " ref:\"len=2,nonul\""
			}
			decl("props=C05,C06 off=all", "A %s `struct:\"skip=%d%s\"%s`; B uint8", t, sk, o, hint)
		}
	}
	for _, k := range scal {
		decl("props=C05,C06,C13 off=all", "_ %s; B uint8", k)
	}
	for _, k := range []string{"uint8", "uint16", "int32", "uint64"} {
		for w := 1; w < width[k]; w++ {
			if w > 17 && w%8 != 0 && w%8 != 1 && w%8 != 7 {
				continue
			}
			decl("props=C05,C06 off=all", "_ %s `struct:\"%s:%d\"`; B uint8 `struct:\"uint8:5\"`", k, k, w)
		}
	}
	for _, t := range []string{"[3]uint8", "[2]uint16", "[2][3]uint8", "struct { X uint8; Y uint16 }", "[3]struct { X uint8 `struct:\"uint8:3\"` }", "struct{}", "[0]uint64"} {
		decl("props=C05,C06 off=all", "_ %s; B uint8", t)
		decl("props=C05,C06 off=0,3", "_ %s `struct:\"skip=1\"`; B uint8", t)
	}

	// C05: skips and padding whose bit counts exceed 8, 16 and more bits
	for _, sk := range []int{255, 256, 300, 4096, 8191, 8192, 9000, 65536, 70000} {
		decl("props=C05 off=0,3", "A uint8; B uint8 `struct:\"skip=%d\"`; C uint8", sk)
		decl("props=C05 off=0,3", "A uint8 `struct:\"uint8:5\"`; B uint16 `struct:\"little,skip=%d\"`; C uint8", sk)
		decl("props=C05 off=0,5", "A uint8; _ [%d]uint8; C uint8", sk)
		decl("props=C05", "A uint8; _ uint8 `struct:\"skip=%d\"`; C uint8", sk)
	}

	// C05: skips before fields that hold nothing
	for _, t := range []string{"struct{}|", "[0]uint16|", "[]byte|size=0,", "[]Pt|size=0,", "string|size=0,", "[2]struct{}|", "*struct{}|", "[0]Pt|"} {
		t, o, _ := strings.Cut(t, "|")
		hint := ""
		if t[0] == '*' {
			hint = " ref:\"nonnil\""
		}
		if o != "" {
			hint = " ref:\"len=0\""
		}
		for _, sk := range []int{1, 2} {
			decl("props=C05,C06,C13,C14 off=0,3", "A uint8; B %s `struct:\"%sskip=%d\"%s`", t, o, sk, hint)
			decl("props=C05,C06,C13,C14", "A uint8 `struct:\"uint8:4\"`; B %s `struct:\"%sskip=%d\"%s`", t, o, sk, hint)
			decl("props=C05,C06,C13,C14", "B %s `struct:\"%sskip=%d\"%s`; A uint8 `struct:\"uint8:4\"`; C %s `struct:\"%sskip=1\"%s`", t, o, sk, hint, t, o, hint)
			decl("props=C05,C06,C13,C08", "A uint8; B %s `struct:\"%sskip=%d,if=A<9\"%s`", t, o, sk, hint)
		}
	}

	// C11: while conditions that outlive the input, or stop before its end
	for _, x := range []string{"A uint8; B []uint8 `struct:\"while=A==1\"`", "A uint8; B []uint8 `struct:\"while=A==1\"`; C uint8", "A uint8; B []uint16 `struct:\"while=A>1\"`", "B []Pt `struct:\"while=true\"`", "A uint8; B []Pt `struct:\"while=A<3 && !_eof\"`; C uint8", "B []uint8 `struct:\"while=false\"`; C uint16", "A uint8; S struct { B []uint16 `struct:\"while=!_eof\"` }", "A uint8 `struct:\"uint8:1\"`; P uint8 `struct:\"uint8:7\"`; B []struct { X uint8 `struct:\"uint8:4\"`; Y uint8 `struct:\"uint8:4\"` } `struct:\"while=A==1\"`", "A uint8; B []*uint8 `struct:\"while=A==1\"`", "B []uint16 `struct:\"while=!_eof,skip=1\"`", "B [][]uint8 `struct:\"while=true\"`; N uint8"} {
		for raw := 0; raw <= 5; raw++ {
			if strings.HasPrefix(x, "B [][]") {
				continue
			}
			decl(fmt.Sprintf("props=C11,C14 modes=dec raw=%d", raw), "%s", x)
		}
	}

	// C12: embedded fields
	for _, l := range []string{"Emb", "*Emb", "emb", "*emb", "Nu16", "*Nu16", "nu16", "*nu16"} {
		h := ""
		if l[0] == '*' {
			h = " `ref:\"nonnil\"`"
		}
		decl("props=C12,C16,C06,C15,C21", "A uint8; %s%s; B uint8", l, h)
		decl("props=C12,C06", "%s%s; B uint8", l, h)
		decl("props=C12,C06", "A uint8; S struct { X uint8; %s%s }; B uint8", l, h)
		decl("props=C12,C06", "A uint8; S [2]struct { %s%s; X uint8 }; B uint8", l, h)
		decl("props=C12,C06", "A uint8; %s `struct:\"-\"`; B uint8", l)
		decl("props=C12,C07,C05,C06", "A uint8; %s `struct:\"big,skip=1\"%s`; B uint8", l, strings.TrimSuffix(strings.TrimPrefix(h, " `"), "`"))
		if l[0] != '*' {
			decl("props=C12,C06 modes=enc", "A uint8; *%s; B uint8", l)
		}
	}

	// C20: element conversions of arrays and slices at every position
	for _, g := range [][]string{ints, uints} {
		for _, a := range g {
			for _, c := range g {
				decl("props=C20 off=0,3", "A [2]%s `struct:\"[2]%s\"`; B []%s `struct:\"[]%s,size=2\" ref:\"len=2\"`; C uint8", a, c, a, c)
				decl("props=C20 off=0,3", "A []%s `struct:\"[2]%s\" ref:\"len=2|1\"`; B uint8", a, c)
			}
		}
	}
	for _, k := range scal {
		decl("props=C20,C06 off=all", "A [2]%s; B uint8", k)
		decl("props=C20,C06,C13 off=0,5", "A []%s `struct:\"size=2\" ref:\"len=2\"`; B uint8", k)
		decl("props=C20,C06 off=0,5", "A []%s `struct:\"[2]%s\" ref:\"len=0|1|2\"`; B uint8", k, k)
		// C16: pointers to every kind
		decl("props=C16,C06,C13 off=0,3", "A *%s `ref:\"nonnil\"`; B uint8", k)
		decl("props=C16,C06 off=0,3 modes=enc", "A *%s; B **%s; C []*%s `ref:\"len=0|1\"`; D uint8", k, k, k)
	}
	for _, l := range []int{1, 7, 8, 9, 16, 17, 33} {
		decl("props=C20,C06,C21 off=0,3", "A []byte `struct:\"[%d]byte\" ref:\"len=%d|%d|0\"`; B uint8", l, l, l-1)
		decl("props=C20,C06,C21 off=0,3", "N uint8; A []byte `struct:\"size=%d\" ref:\"len=%d\"`; B uint8", l, l)
		decl("props=C20,C06 off=0,3", "A [%d]byte; B uint8", l)
		decl("props=C20,C06 off=0,3", "N uint8 `struct:\"sizeof=A\"`; A string `ref:\"len=%d\"`; B uint8", l)
		decl("props=C10,C06 off=0,3", "N uint16 `struct:\"sizeof=A\"`; A []byte `ref:\"len=%d\"`; B uint8", l)
		decl("props=C10,C06 off=0,3", "N uint8; A []uint16 `struct:\"sizefrom=N\" ref:\"len=%d\"`; B uint8", l)
	}

	// C10: count fields of every type and width, with lengths around the limit
	for _, k := range append(append([]string{}, ints[:4]...), uints[:4]...) {
		for _, el := range []string{"[]uint8", "[]uint16", "string", "[]Pt"} {
			decl("props=C10,C06 off=0,3", "N %s `struct:\"sizeof=A\"`; A %s `ref:\"len=0|1|3\"`; B uint8", k, el)
			decl("props=C10 off=0,3", "N %s; M uint8; A %s `struct:\"sizefrom=N\" ref:\"len=0|2\"`; B uint8", k, el)
		}
		for _, w := range []int{1, 2, 3, 7, 9, 15} {
			if w >= width[k] {
				continue
			}
			m := 1 << uint(w)
			if k[0] == 'i' {
				m = 1 << uint(w-1)
			}
			if m > 8 {
				m = 4
			}
			decl("props=C10,C06,C14 off=0,3", "N %s `struct:\"%s:%d,sizeof=A\"`; A []uint8 `ref:\"len=0|%d|%d\"`; B uint8", k, k, w, m-1, m)
		}
	}
	for _, k := range []string{"int8", "uint8"} {
		m := 255
		if k == "int8" {
			m = 127
		}
		decl("props=C10,C14 off=0", "N %s `struct:\"sizeof=A\"`; A []uint8 `ref:\"len=%d|%d\"`; B uint8", k, m, m+1)
		decl("props=C10 off=0", "N %s64 `struct:\"%s,sizeof=A\"`; A string `ref:\"len=%d|%d\"`; B uint8", k[:len(k)-1], k, m, m+1)
	}

	// C08: conditions on every kind of field
	for _, t := range []string{"uint8|", "uint16|uint16:9,", "bool|", "float32|", "complex64|", "[]byte|[2]byte,", "string|[2]byte,", "[2]uint16|", "Pt|", "*uint16|", "*Pt|", "[]Pt|size=1,", "int|", "uint64|skip=1,", "uint16|little,", "uint16|big,", "_", "_bits"} {
		t, o, _ := strings.Cut(t, "|")
		hint := ""
		switch {
		case t[0] == '*':
			hint = " ref:\"nonnil\""
		case t == "[]Pt":
			hint = " ref:\"len=1\""
		case t == "[]byte" || t == "string":
			hint = " ref:\"len=2,nonul\""
		}
		switch t {
		case "_":
			decl("props=C08,C05 off=0,3", "F uint8; _ uint16 `struct:\"if=F==1\"`; B uint8")
		case "_bits":
			decl("props=C08,C05 off=0,3", "F uint8; _ uint16 `struct:\"uint16:11,if=F==1\"`; B uint8")
		default:
			decl("props=C08 off=0,3", "F uint8; A %s `struct:\"%sif=F==1\"%s`; B uint8", t, o, hint)
			decl("props=C08", "F uint8; A %s `struct:\"%sskip=2,if=F<3\"%s`; B uint8", t, strings.Replace(o, "skip=1,", "", 1), hint)
		}
	}

	// C11: widths and lengths from expressions
	for _, k := range []string{"uint8", "uint16", "uint32", "uint64"} {
		w := width[k]
		decl("props=C11,C06 off=0,3", "N uint8 `ref:\"vals=1|3|%d|%d\"`; A %s `struct:\"bits=N\" ref:\"full\"`; B uint8", w/2+1, w, k)
	}
	for _, el := range []string{"[]uint8", "[]uint16", "[]Pt", "string", "[]bool", "[]int32"} {
		decl("props=C11,C06,C13 off=0,3", "N uint8 `ref:\"vals=0|1|3\"`; A %s `struct:\"size=N+1\" ref:\"len=0|1|2|4\"`; B uint8", el)
	}

	// C09: case values of every type against switch values of every type
	for _, k := range append(append([]string{}, ints...), uints...) {
		decl("props=C09,C06", "T %s; S struct { A uint8 `struct:\"case=1\"`; B uint16 `struct:\"case=100\"`; C uint32 `struct:\"default\"` } `struct:\"switch=T\"`; D uint8", k)
		decl("props=C09", "T %s; S struct { D uint32 `struct:\"default\"`; A uint8 `struct:\"case=2\"`; B uint16 `struct:\"case=3\"`; C uint64 `struct:\"case=2\"` } `struct:\"switch=T\"`; D uint8", k)
		decl("props=C09", "T %s; S struct { A uint8 `struct:\"case=0\"`; B *uint16 `struct:\"case=7\" ref:\"nonnil\"`; C []byte `struct:\"case=9,size=2\" ref:\"len=2\"` } `struct:\"switch=T+1\"`; D uint8", k)
	}
	for _, k := range []string{"int8", "int16", "int64", "int"} {
		decl("props=C09", "T %s; S struct { A uint8 `struct:\"case=-1\"`; B uint16 `struct:\"case=5\"` } `struct:\"switch=T\"`; D uint8", k)
	}
	for _, k := range append(append([]string{}, ints...), uints...) {
		decl("props=C09", "T %s; S struct { A uint8 `struct:\"case=-1\"`; B uint16 `struct:\"default\"` } `struct:\"switch=T\"`; D uint8", k)
		decl("props=C09", "T %s; N %s; S struct { A uint8 `struct:\"case=N\"`; B uint16 `struct:\"default\"` } `struct:\"switch=T\"`; D uint8", k, k)
		for _, c := range []string{"int8", "int64", "uint8", "uint64"} {
			decl("props=C09", "T %s; N %s; S struct { A uint8 `struct:\"case=N\"`; B uint16 `struct:\"default\"` } `struct:\"switch=T\"`; D uint8", k, c)
		}
	}

	// C19: in and out expressions on every kind, at every value
	for _, k := range scal {
		switch {
		case k == "bool":
			decl("props=C19 off=0,3", "A bool `struct:\"in=!A,out=!A\"`; B bool `struct:\"in=A\"`; C bool `struct:\"uint8:3,out=A && C\"`")
		case strings.HasPrefix(k, "complex"):
		case strings.HasPrefix(k, "float"):
			decl("props=C19 off=0,3", "A %s `struct:\"in=A+1.5,out=A-1.5\"`; B %s `struct:\"in=-B,out=-B\"`", k, k)
			decl("props=C19 off=0,3 modes=dec", "A uint8; B %s `struct:\"in=B*2.0,big\"`; C %s `struct:\"in=A==1 ? B : C,little\"`", k, k)
		default:
			decl("props=C19 off=0,3", "A %s `struct:\"in=A+3,out=A-3\"`; B uint8", k)
			decl("props=C19 off=0,3", "A %s `struct:\"in=^A,out=^A,little\"`; B %s `struct:\"in=A,out=A,big\"`", k, k)
			decl("props=C19 modes=dec", "K uint8; A %s `struct:\"in=A<5 ? A+1 : A\"`; B %s `struct:\"if=K==1,in=A\"`; C uint8 `struct:\"in=K\"`", k, k)
			decl("props=C19 off=0,3 modes=enc", "K uint8; A %s `struct:\"out=A+1,if=K>1\"`; B %s `struct:\"out=A\"`; C uint8 `struct:\"out=K\"`", k, k)
		}
	}

	// C11: bit counts out of range
	for _, k := range append(append([]string{}, ints...), uints...) {
		decl("props=C11,C14,X", "N int8 `ref:\"vals=-1|-8|-9|-128|%d|127\"`; A %s `struct:\"bits=N\"`; B uint8", width[k]+1, k)
		decl("props=C11,C14", "N uint8 `ref:\"vals=%d|%d|255\"`; A %s `struct:\"little,bits=N\"`; B uint8", width[k]+1, width[k]+8, k)
		if k == "int16" || k == "uint64" {
			decl("props=C11,C14", "N int8; A %s `struct:\"bits=N\"`; B uint8", k)
		}
	}

	// C11: numbers that narrower types would cut to something acceptable
	for _, k := range []string{"uint16", "int32", "uint64", "int64"} {
		for _, t := range []string{"uint8", "int16", "uint64", "int32"} {
			vals := "256|257|260|32767"
			if k != "uint16" {
				vals += "|65537|65536|0x10000003|0x7fffffff"
			}
			if strings.HasSuffix(k, "64") {
				vals += "|0x100000000|0x100000003|0x7fffffffffffffff|0x4000000000000001"
			}
			decl("props=C11", "N %s `ref:\"vals=1|5|%s\"`; A %s `struct:\"bits=N\"`; B uint8", k, vals, t)
			decl("props=C11 modes=enc", "N %s `ref:\"vals=1|3|%s\"`; A []%s `struct:\"size=N\" ref:\"len=0|1|3|4\"`; B uint8", k, vals, t)
		}
	}

	// C10: counts whose width an expression gives
	for _, k := range []string{"uint8", "uint16", "int16", "uint32", "int64"} {
		for _, t := range []string{"[]byte|", "string|", "[]Pt|"} {
			t, _, _ := strings.Cut(t, "|")
			decl("props=C10", "N %s `struct:\"bits=4,sizeof=D\"`; P uint8 `struct:\"uint8:4\"`; D %s `ref:\"len=0|2|7|8|15|16|17\"`; E uint8", k, t)
			decl("props=C10", "W uint8 `ref:\"vals=2|3|5\"`; N %s `struct:\"bits=W\"`; D %s `struct:\"sizefrom=N\" ref:\"len=0|1|2|3|4|7|8|16\"`; E uint8", k, t)
			decl("props=C10", "F bool; N %s `struct:\"%s:5,bits=3,sizeof=D\"`; D %s `ref:\"len=0|3|4|7|8\"`; E uint8", k, k, t)
		}
	}

	// C07: an order on one field says nothing about its neighbours
	for _, t := range []string{"uint16|", "int|", "bool|int32,", "*uint16|", "*uint16|N", "*Pt|", "*Pt|N", "**uint16|", "Pt|", "[2]uint16|", "[]uint16|size=2,", "[]uint16|size=0,", "string|[2]byte,", "string|size=0,", "CVal|", "*CPtr|", "*CPtr|N", "[2]*uint16|", "float32|", "complex64|", "[0]uint16|", "struct{}|", "If4in|", "Sw7in|", "*struct { X *uint16 `struct:\"big\"`; Y uint16 }|"} {
		t, o, _ := strings.Cut(t, "|")
		hint := " ref:\"nonnil\""
		switch {
		case o == "N":
			o, hint = "", ""
		case o == "size=0,":
			hint = " ref:\"len=0\""
		case o != "" && o != "int32,":
			hint = " ref:\"len=2,nonul\""
		case t[0] != '*' && t[0] != '[':
			hint = ""
		}
		m := ""
		if strings.Contains(t, "*") {
			m = " modes=enc"
		}
		decl("props=C07"+m, "A uint16; B %s `struct:\"%slittle\"%s`; C uint16; D struct { E %s `struct:\"%sbig\"%s`; F uint32 }; G [2]uint16", t, o, hint, t, o, hint)
		decl("props=C07"+m, "S struct { B %s `struct:\"%slittle\"%s`; C uint16 } `struct:\"big\"`; D uint32; T struct { B %s `struct:\"%sbig\"%s`; C uint16 } `struct:\"little\"`; E uint32", t, o, hint, t, o, hint)
		decl("props=C07"+m, "F uint8; B %s `struct:\"%slittle,if=F>3\"%s`; C uint16; S struct { X %s `struct:\"%sbig,case=2\"%s`; Y uint16 `struct:\"default\"` } `struct:\"switch=F,little\"`; D uint16", t, o, hint, t, o, hint)
	}
	bulk := func(dir, body string, args ...interface{}) { decl(dir+" bulk", body, args...) }
	scale(bulk, func(src string) { b.WriteString(src + "\n") })
	custom(bulk)
	mixed(bulk)
	return b.String()
}
