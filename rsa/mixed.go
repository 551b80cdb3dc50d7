package main

import (
	"fmt"
	"sort"
	"strings"
)

// mixed adds declarations that combine independently drawn features: what one
// feature does to the next is decided here rather than feature by feature.
func mixed(decl func(dir, body string, args ...interface{})) {
	for i := 0; i < 1400; i++ {
		m := &mixer{seed: uint64(i)*0x9e3779b97f4a7c15 + 12345, props: map[string]bool{}, aligned: i%4 == 3}
		body := m.body(2+m.n(6), 0)
		m.use("C06", "C13", "C14", "C15", "C21", "C22")
		var ps []string
		for p := range m.props {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		dir := "props=" + strings.Join(ps, ",") + " nowrap off=0"
		if m.n(3) == 0 && !m.aligned {
			dir = "props=" + strings.Join(ps, ",") + " off=" + []string{"3", "5", "1", "7"}[m.n(4)]
		}
		if i%2 == 1 {
			dir += " order=big"
		} else {
			dir += " order=little"
		}
		if i >= 200 {
			dir += " thorough"
		}
		decl(dir, "%s", body)
	}
}

type mixer struct {
	seed  uint64
	id    int
	paths int
	props map[string]bool
	// aligned declarations use whole bytes only, so that custom types fit anywhere
	aligned bool
}

// n draws a number below k.
func (m *mixer) n(k int) int {
	m.seed ^= m.seed << 13
	m.seed ^= m.seed >> 7
	m.seed ^= m.seed << 17
	return int((m.seed >> 11) % uint64(k))
}

func (m *mixer) pick(l ...string) string { return l[m.n(len(l))] }

func (m *mixer) use(ps ...string) {
	for _, p := range ps {
		m.props[p] = true
	}
}

func (m *mixer) name() string {
	m.id++
	return fmt.Sprintf("F%d", m.id)
}

// split says whether another case distinction is affordable.
func (m *mixer) split(k int) bool {
	if m.paths == 0 {
		m.paths = 1
	}
	if m.paths*k > 24 {
		return false
	}
	m.paths *= k
	return true
}

var mixInts = []string{"int8", "int16", "int32", "int64", "int"}
var mixUints = []string{"uint8", "uint16", "uint32", "uint64", "uint"}
var mixWidth = map[string]int{"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64, "bool": 8}

func mixTag(opts []string, hint string) string {
	t := ""
	if len(opts) > 0 {
		t = " `struct:\"" + strings.Join(opts, ",") + "\""
	}
	if hint != "" {
		if t == "" {
			t = " `"
		} else {
			t += " "
		}
		t += "ref:\"" + hint + "\""
	}
	if t != "" {
		t += "`"
	}
	return t
}

// body is the field list of a structure of about k fields.
func (m *mixer) body(k, depth int) string {
	var fs []string
	var num, num8 []string // fields usable as small numbers
	f := func(name, typ string, opts []string, hint string) {
		fs = append(fs, name+" "+typ+mixTag(opts, hint))
	}
	common := func(opts []string) []string {
		switch m.n(10) {
		case 0:
			m.use("C05")
			opts = append(opts, fmt.Sprintf("skip=%d", 1+m.n(3)))
		case 1, 2:
			m.use("C07")
			opts = append(opts, m.pick("big", "little", "msb", "lsb"))
		}
		if len(num) > 0 && m.n(6) == 0 && m.split(2) {
			m.use("C08")
			v := num[m.n(len(num))]
			opts = append(opts, m.pick("if="+v+" == 1", "if="+v+" < 2", "if=!("+v+" > 1)", "if="+v+" != 0"))
		}
		return opts
	}
	scalar := func() (typ string, opts []string) {
		switch m.n(6) {
		case 0:
			t := m.pick("float32", "float64", "complex64", "complex128")
			m.use("C01")
			return t, nil
		case 1:
			m.use("C04")
			if m.n(2) == 0 {
				return "bool", nil
			}
			b := m.pick("uint8", "uint16", "uint32", "int8", "int16")
			o := b
			if m.n(2) == 0 && !m.aligned {
				o += fmt.Sprintf(":%d", 1+m.n(mixWidth[b]-1))
			}
			opts = append(opts, o)
			if m.n(3) == 0 {
				opts = append(opts, "variantbool")
			}
			if m.n(3) == 0 {
				opts = append(opts, "invertedbool")
			}
			return "bool", opts
		case 2:
			a, b := mixInts[m.n(5)], mixInts[m.n(5)]
			m.use("C01")
			if m.n(2) == 0 {
				return a, nil
			}
			return a, []string{b}
		default:
			a, b := mixUints[m.n(5)], mixUints[m.n(5)]
			switch k := m.n(4); {
			case k == 0:
				m.use("C01")
				return a, nil
			case k == 1 || m.aligned:
				m.use("C01")
				return a, []string{b}
			}
			m.use("C02")
			return a, []string{fmt.Sprintf("%s:%d", b, 1+m.n(mixWidth[b]-1))}
		}
	}
	for len(fs) < k {
		nm := m.name()
		switch m.n(17) {
		case 0, 1: // a small number others refer to
			t := m.pick("uint8", "uint16", "uint32")
			var opts []string
			if m.n(2) == 0 && !m.aligned {
				opts = append(opts, t+":"+m.pick("2", "3", "5"))
			}
			f(nm, t, opts, "")
			num = append(num, nm)
			if t == "uint8" {
				num8 = append(num8, nm)
			}
		case 2, 3, 4:
			t, o := scalar()
			f(nm, t, common(o), "")
		case 5: // fixed arrays
			t, _ := scalar()
			m.use("C20")
			f(nm, fmt.Sprintf("[%d]%s", m.n(4), t), common(nil), "")
		case 6: // padded slices and strings
			m.use("C20")
			l := 1 + m.n(4)
			if m.n(2) == 0 {
				f(nm, "string", common([]string{fmt.Sprintf("[%d]byte", l)}), fmt.Sprintf("len=%d,nonul", m.n(l+1)))
			} else {
				a, b := mixUints[m.n(5)], mixUints[m.n(5)]
				f(nm, "[]"+a, common([]string{fmt.Sprintf("[%d]%s", l, b)}), fmt.Sprintf("len=%d", m.n(l+1)))
			}
		case 7, 8: // counted data
			m.use("C10")
			n2 := m.name()
			ct := m.pick("uint8", "uint16", "int8", "int32", "uint64")
			copts := []string{}
			if m.n(3) == 0 && !m.aligned {
				copts = append(copts, ct+":"+m.pick("3", "5", "7"))
			}
			dt := m.pick("[]uint8", "[]uint16", "string", "[]bool", "[]Pt", "[]int32")
			hint := "len=" + m.pick("0", "1", "2", "3")
			if m.split(2) {
				hint = "len=" + m.pick("0|2", "1|3", "0|1")
			}
			if m.n(2) == 0 {
				f(nm, ct, append(copts, "sizeof="+n2), "")
				if m.n(3) == 0 {
					m.use("C12")
					fs = append(fs, m.pick("x", "y", "z")+fmt.Sprint(m.id)+" uint32")
				}
				f(n2, dt, common(nil), hint)
			} else {
				f(nm, ct, copts, "")
				if m.n(3) == 0 {
					m.use("C12")
					fs = append(fs, "I"+fmt.Sprint(m.id)+" []uint8 `struct:\"-\"`")
				}
				f(n2, dt, append(common(nil), "sizefrom="+nm), hint)
			}
		case 9: // padding
			m.use("C05")
			t := m.pick("uint8", "uint16", "[3]uint8", "uint32")
			var o []string
			if t[0] != '[' && m.n(2) == 0 && !m.aligned {
				o = append(o, fmt.Sprintf("%s:%d", t, 1+m.n(mixWidth[t]-1)))
			}
			f("_", t, o, "")
		case 10: // unexported and ignored
			m.use("C12")
			if m.n(2) == 0 {
				f("u"+nm, m.pick("uint8", "string", "[]uint16"), nil, "")
			} else {
				f(nm, m.pick("uint8", "string", "*Pt"), []string{"-"}, "")
			}
		case 11: // nested structures
			if depth >= 2 {
				continue
			}
			in := "struct { " + m.body(1+m.n(3), depth+1) + " }"
			m.use("C12")
			switch m.n(4) {
			case 0:
				f(nm, "[2]"+in, common(nil), "")
			case 1:
				m.use("C16")
				f(nm, "*"+in, common(nil), "nonnil")
			default:
				f(nm, in, common(nil), "")
			}
		case 12: // sizes and bits from expressions
			if len(num) == 0 {
				continue
			}
			m.use("C11")
			v := num[m.n(len(num))]
			if m.n(2) == 0 || m.aligned {
				if !m.split(4) {
					continue
				}
				f(nm, m.pick("[]uint8", "string", "[]uint16"), common([]string{"size=" + v + " & 3"}), "len=0|1|2|3")
			} else {
				if !m.split(4) {
					continue
				}
				f(nm, m.pick("uint8", "uint16", "uint64"), common([]string{"bits=" + v + " & 3 + " + m.pick("1", "4", "5")}), "")
			}
		case 13: // in and out
			m.use("C19")
			if m.n(2) == 0 || len(num8) == 0 {
				f(nm, "uint8", common([]string{m.pick("in="+nm+" + 1", "out="+nm+" ^ 255", "in="+nm+" * 2,out="+nm+" / 2")}), "")
			} else {
				f(nm, "uint8", common([]string{"out=" + nm + " + " + num8[m.n(len(num8))]}), "")
			}
		case 14: // switches
			if len(num) == 0 || depth >= 2 || !m.split(3) {
				continue
			}
			m.use("C09")
			v := num[m.n(len(num))]
			in := fmt.Sprintf("A uint8 `struct:\"case=%d\"`; B uint16 `struct:\"case=%d\"`", m.n(2), 2+m.n(2))
			if m.n(2) == 0 {
				in += "; C struct { " + m.body(1+m.n(2), depth+1) + " } `struct:\"default\"`"
			}
			f(nm, "struct { "+in+" }", common([]string{"switch=" + v}), "")
		case 16: // custom types
			if !m.aligned {
				continue
			}
			m.use("C17")
			t := m.pick("CVal", "CPtr", "CNum", "CBits", "CVar", "CSlice", "CByte", "CInt", "CFlag", "CText", "CArr")
			h := "len=0|1"
			if !m.split(2) || t != "CSlice" && t != "CText" {
				h = "len=1"
			}
			switch m.n(5) {
			case 0:
				f(nm, "[2]"+t, common(nil), "elemlen=1")
			case 1:
				f(nm, "[]"+t, append(common(nil), "size=2"), "len=2,elemlen=1")
			case 2:
				f(nm, "*"+t, common(nil), "nonnil,len=1")
			default:
				f(nm, t, common(nil), h)
			}
		case 15: // pointers
			m.use("C16")
			t, o := scalar()
			f(nm, "*"+t, common(o[:0]), "nonnil")
		}
	}
	return strings.Join(fs, "; ")
}
