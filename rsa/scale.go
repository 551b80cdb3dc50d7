package main

import (
	"fmt"
	"strings"
)

// scale adds declarations whose size lies past every constant a codec could
// plausibly contain: long skips, wide structs, deep nesting, long data.
func scale(decl func(dir, body string, args ...interface{}), raw func(string)) {
	rep := func(n int, f func(i int) string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, "; ")
	}
	for _, n := range []int{63, 64, 127, 128, 255, 256, 257, 1000} {
		p := ""
		if n <= 129 || n == 257 {
			p = ",C13"
		}
		decl("props=C05,C06"+p+" off=0,3", "A uint8 `struct:\"skip=%d\"`; B uint8", n)
	}
	for _, n := range []int{16, 33, 40, 70, 130} {
		decl("props=C12,C06,C01 off=0,3", "%s", rep(n, func(i int) string { return fmt.Sprintf("F%d uint8", i) }))
		decl("props=C12,C06 off=0,3", "%s", rep(n, func(i int) string {
			if i%3 == 1 {
				return fmt.Sprintf("F%d uint8 `struct:\"-\"`", i)
			}
			if i%5 == 2 {
				return fmt.Sprintf("f%d uint16", i)
			}
			return fmt.Sprintf("F%d uint8", i)
		}))
		decl("props=C02,C06 off=0,5", "%s; Z uint16", rep(n, func(i int) string {
			return fmt.Sprintf("F%d uint16 `struct:\"uint16:%d\"`", i, 1+(i*7)%15)
		}))
		decl("props=C10,C06", "%s; %s", rep(n/2, func(i int) string {
			return fmt.Sprintf("N%d uint8 `struct:\"sizeof=A%d\"`", i, i)
		}), rep(n/2, func(i int) string { return fmt.Sprintf("A%d []uint8 `ref:\"len=%d\"`", i, i%3) }))
		decl("props=C09,C06", "T uint8 `ref:\"vals=1|2|8|9|16|17|%d|%d\"`; S struct { %s } `struct:\"switch=T\"`; Z uint8", n, n+1, rep(n, func(i int) string {
			return fmt.Sprintf("F%d uint%d `struct:\"case=%d\"`", i, 8<<uint(i%4), i+1)
		}))
		decl("props=C11,C06", "N uint8; %s", rep(n/3, func(i int) string {
			return fmt.Sprintf("F%d uint16 `struct:\"if=N==%d\"`", i, i)
		}))
	}
	for _, n := range []int{64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513} {
		p := ""
		if n <= 129 || n == 257 {
			p = ",C13"
		}
		decl("props=C20,C06"+p+" off=0,3", "A [%d]uint8; B uint8", n)
		decl("props=C20,C06 off=0", "A [%d]uint16; B uint8", n)
		decl("props=C20,C06,C21 off=0", "A []byte `struct:\"[%d]byte\" ref:\"len=%d|%d\"`; B uint8", n, n, n-1)
		m := ""
		if n > 129 {
			m = " modes=enc"
		}
		decl("props=C20,C06 off=0"+m, "A string `struct:\"[%d]byte\" ref:\"len=%d|3,nonul\"`; B uint8", n, n)
		decl("props=C10,C06,C14 off=0,3", "N uint16 `struct:\"sizeof=A\"`; A []byte `ref:\"len=%d\"`; B uint8", n)
		decl("props=C10,C06 off=0", "N uint16 `struct:\"sizeof=A\"`; A []uint16 `ref:\"len=%d\"`; B uint8", n)
		decl("props=C10,C06 off=0", "N uint32 `struct:\"sizeof=A\"`; A string `ref:\"len=%d\"`; B uint8", n)
		decl("props=C11,C06 off=0", "A []uint8 `struct:\"size=%d\" ref:\"len=%d\"`; B uint8", n, n)
		if n <= 129 {
			decl("props=C20,C06 off=0", "A [%d]struct { X uint8 `struct:\"uint8:3\"`; Y uint8 `struct:\"uint8:5\"` }; B uint8", n)
			decl("props=C16,C06 off=0", "A [%d]*uint8 `ref:\"nonnil\"`; B uint8", n)
			decl("props=C10,C06 off=0", "N uint8 `struct:\"sizeof=A\"`; A []struct { X uint8; Y uint16 } `ref:\"len=%d\"`; B uint8", n)
			decl("props=C20,C06 off=0,3", "A [%d]bool; B [%d]uint64; C uint8", n, n)
		}
	}
	decl("props=C20,C06 off=0,3", "A [20][20]uint8; B uint8")
	decl("props=C20,C06 off=0,3", "A [2][2][2][2][2][2]uint16; B uint8")
	for _, n := range []int{2, 4, 6, 9, 12} {
		open := ""
		for i := 0; i < n; i++ {
			open += fmt.Sprintf("S%d struct { X%d uint8; ", i, i)
		}
		decl("props=C12,C06,C01 off=0,3", "%sL uint16%s; Z uint8", open, strings.Repeat(" }", n))
		decl("props=C16,C06", "A %suint16 `ref:\"nonnil\"`; B uint8", strings.Repeat("*", n))
		for k, leaf := range []string{
			"L []uint8 `struct:\"size=R.Q\" ref:\"len=0|1|2\"`",
			"L uint8 `struct:\"if=R.Q == P.X\"`; M uint16 `struct:\"if=P.X == 1\"`",
			"L uint8 `struct:\"in=L + R.Q\"`; M uint8 `struct:\"out=P.X + R.Q\"`",
			"L uint8 `struct:\"uint8:3,if=" + strings.Repeat("P.", n) + "Q == 1\"`; M uint8 `struct:\"uint8:5\"`",
		} {
			for i := 1; i <= n; i++ {
				nm, par, in := fmt.Sprintf("Ne%d_%d_%d", n, k, i), fmt.Sprintf("Ne%d_%d_%d", n, k, i-1), fmt.Sprintf("In Ne%d_%d_%d", n, k, i+1)
				if i == n {
					in = leaf
				}
				raw(fmt.Sprintf("type %s struct { R *Ne%d_%d_0 `struct:\"root\"`; P *%s `struct:\"parent\"`; X uint8; %s; Y uint8 }", nm, n, k, par, in))
			}
			raw(fmt.Sprintf("//rsa:props=C18,C06\ntype Ne%d_%d_0 struct { Q uint8 `ref:\"vals=0|1|2\"`; X uint8; In Ne%d_%d_1; Z uint8 }", n, k, n, k))
		}
	}
}

// custom places every marshaler type of the catalogue wherever a type can occur.
func custom(decl func(dir, body string, args ...interface{})) {
	for _, t := range []string{"CVal", "CPtr", "CNum", "CBits", "CVar", "CSlice", "CByte", "CInt", "CFlag", "CText", "CArr"} {
		h, e, n := "", "", ""
		if t == "CSlice" || t == "CText" {
			h, e, n = " `ref:\"len=0|2\"`", ",elemlen=1", " ref:\"len=2\""
		}
		el := "`ref:\"elemlen=1\"`"
		d := "props=C17,C06,C13,C15,C21,C22"
		decl(d, "A uint8; V %s%s; B uint16", t, h)
		decl(d, "V %s%s", t, h)
		decl(d, "A [3]%s %s; B uint16", t, el)
		decl(d, "A []%s `struct:\"size=2\" ref:\"len=2%s\"`; B uint16", t, e)
		decl(d, "N uint8 `struct:\"sizeof=A\"`; A []%s `ref:\"len=0|1|3%s\"`; B uint16", t, e)
		decl(d+",C16", "A *%s `ref:\"nonnil,len=1\"`; B **%s `ref:\"nonnil,len=1\"`; C uint8", t, t)
		decl(d+",C16 modes=enc", "A *%s; B **%s; C uint8", t, t)
		decl(d, "A [2][2]%s %s; B []*%s `struct:\"size=2\" ref:\"len=2,nonnil%s\"`; C uint8", t, el, t, e)
		decl(d, "S struct { X uint8; V %s%s; Y uint8 }; B uint16", t, h)
		decl(d, "S [2]struct { V %s%s; Y uint8 }; T []struct { V %s%s } `struct:\"size=1\" ref:\"len=1\"`; B uint16", t, h, t, h)
		decl(d+",C05", "A uint8 `struct:\"uint8:3\"`; P uint8 `struct:\"uint8:5\"`; V %s `struct:\"skip=2\"%s`; B uint8", t, n)
		decl(d+",C07", "A uint16; V %s `struct:\"big\"%s`; W %s `struct:\"little\"%s`; B uint16", t, n, t, n)
		decl(d+",C07", "S struct { V %s%s; W [1]%s %s } `struct:\"big\"`; T struct { V %s%s } `struct:\"little\"`; U %s%s; B uint16", t, h, t, el, t, h, t, h)
		decl(d+",C07", "S []%s `struct:\"big,size=1\" ref:\"len=1%s\"`; T [1]%s `struct:\"little\" ref:\"elemlen=1\"`; P *%s `struct:\"big\" ref:\"nonnil,len=1\"`; Q %s%s", t, e, t, t, t, h)
		decl(d+",C08", "F uint8; V %s `struct:\"if=F==1\"%s`; W []%s `struct:\"if=F>0,size=1\" ref:\"len=1%s\"`; B uint8", t, n, t, e)
		decl(d+",C08,C05", "F uint8; V *%s `struct:\"if=F==1,skip=1\" ref:\"nonnil,len=1\"`; B uint8", t)
		decl(d+",C09", "T uint8; S struct { A uint8 `struct:\"case=1\"`; V %s `struct:\"case=2\"%s`; W []%s `struct:\"default,size=1\" ref:\"len=1%s\"` } `struct:\"switch=T\"`; B uint8", t, n, t, e)
		decl(d+",C12", "A uint8; I %s `struct:\"-\"`; v %s; B uint8", t, t)
	}
}
