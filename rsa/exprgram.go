package main

import (
	"fmt"
	"go/types"
	"strings"
)

var xAllBin = []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "^", "*", "/", "%", "<<", ">>", "&", "&^"}

// leafType infers whether a reference tree over uint8 and bool leaves is well
// typed: 'u', 'b' or 0.
func leafType(n *rx, leaf map[string]byte) byte {
	switch n.op {
	case "()":
		return leafType(n.x[0], leaf)
	case "id":
		return leaf[n.id]
	case "u-", "u+", "u^":
		if leafType(n.x[0], leaf) == 'u' {
			return 'u'
		}
		return 0
	case "u!":
		if leafType(n.x[0], leaf) == 'b' {
			return 'b'
		}
		return 0
	case "?":
		c, a, b := leafType(n.x[0], leaf), leafType(n.x[1], leaf), leafType(n.x[2], leaf)
		if c == 'b' && a == b {
			return a
		}
		return 0
	}
	if len(n.x) != 2 {
		return 0
	}
	a, b := leafType(n.x[0], leaf), leafType(n.x[1], leaf)
	if a == 0 || a != b {
		return 0
	}
	switch n.op {
	case "||", "&&":
		if a == 'b' {
			return 'b'
		}
		return 0
	case "==", "!=":
		return 'b'
	}
	if a != 'u' {
		return 0
	}
	switch n.op {
	case "<", "<=", ">", ">=":
		return 'b'
	}
	return 'u'
}

var xLeafU = []string{"a", "b", "c", "d"}
var xLeafB = []string{"p", "q", "r", "s"}

// typings expands a pattern with leaves @0..@n over uint8 and bool leaves.
// Well typed ones are all kept; ill typed ones only if ill is set.
func typings(pattern string, n int, ill bool) []exprCase {
	var cs []exprCase
	for m := 0; m < 1<<n; m++ {
		leaf := map[string]byte{}
		t := pattern
		for i := 0; i < n; i++ {
			name, ty := xLeafU[i], byte('u')
			if m>>i&1 == 1 {
				name, ty = xLeafB[i], 'b'
			}
			leaf[name] = ty
			t = strings.ReplaceAll(t, fmt.Sprintf("@%d", i), name)
		}
		if !ill {
			toks, _ := rxLex(t)
			ok := false
			refRun(func() { ok = leafType(rxParse(toks), leaf) != 0 })
			if !ok {
				continue
			}
		}
		cs = append(cs, exprCase{text: t})
	}
	return cs
}

func (c *Ctx) e04() []exprCase {
	var cs []exprCase
	add := func(x ...exprCase) { cs = append(cs, x...) }
	for _, o := range xAllBin {
		for _, q := range xAllBin {
			add(typings(fmt.Sprintf("@0 %s @1 %s @2", o, q), 3, true)...)
			add(typings(fmt.Sprintf("(@0 %s @1) %s @2", o, q), 3, false)...)
			add(typings(fmt.Sprintf("@0 %s (@1 %s @2)", o, q), 3, false)...)
			for _, x := range xAllBin {
				add(typings(fmt.Sprintf("@0 %s @1 %s @2 %s @3", o, q, x), 4, c.thorough)...)
			}
			add(typings(fmt.Sprintf("@0 %s @1 ? @2 : @3", o), 4, true)...)
			add(typings(fmt.Sprintf("@0 ? @1 %s @2 : @3", o), 4, true)...)
			add(typings(fmt.Sprintf("@0 ? @1 : @2 %s @3", o), 4, true)...)
			add(typings(fmt.Sprintf("@0 %s @1 ? @2 : @3 %s @2", o, q), 4, c.thorough)...)
			add(typings(fmt.Sprintf("@0 ? @1 %s @2 : @3 %s @2", o, q), 4, c.thorough)...)
		}
		for _, u := range []string{"-", "+", "!", "^"} {
			add(typings(fmt.Sprintf("%s@0 %s @1", u, o), 2, true)...)
			add(typings(fmt.Sprintf("@0 %s %s@1", o, u), 2, true)...)
			for _, w := range []string{"-", "+", "!", "^"} {
				add(typings(fmt.Sprintf("%s@0 %s %s@1", u, o, w), 2, true)...)
				add(typings(fmt.Sprintf("%s %s@0 %s @1", u, w, o), 2, true)...)
				add(typings(fmt.Sprintf("@0 %s %s %s@1", o, u, w), 2, true)...)
				add(typings(fmt.Sprintf("%s(@0 %s %s@1)", w, o, u), 2, true)...)
			}
		}
	}
	// postfix binds tighter than prefix, prefix tighter than binary
	post := []string{"st.A", "st.In.P", "ps.A", "ps.In.P", "ps.PIn.P", "arr[1]", "sl[one]", "st.Arr[2]", "st.Sl[1]", "inc(a)", "st.Fn(b)", "pkg.X", "pkg.Inc(a)", "sl2[1].P", "sla[1][0]", "m[\"k\"]", "ps.M[\"k\"]", "inc(inc(a))", "(st).A", "(*ps).A", "(arr)[0]", "(inc)(a)", "*pu", "*st.PSl", "(*st.PSl)[1]", "*st.PIn", "(*st.PIn).P", "*&sl[1]", "&sl[1]", "(&sl[1])", "&sl2[0].P", "*&sl2[0].P", "&sl2[0]", "(&sl2[0]).P", "*&sl2[0]", "&ps.PIn.P", "&*ps", "*pin", "(*pin).Q", "**ppin", "(**ppin).P", "astring[1]", "st.S[2]", "arr[arr[0] - arr[0] == 0 ? 1 : 2]", "inc(p ? a : b)", "arr[one + 1]", "arr[one - 1]", "arr[1 - one]"}
	for _, x := range post {
		add(tx("%s", x), tx("(%s)", x), tx("((%s))", x))
		for _, u := range []string{"-", "^", "!", "+", "*", "&", "--", "- -", "-^", "**"} {
			add(tx("%s%s", u, x))
		}
		for _, o := range xAllBin {
			add(tx("%s %s a", x, o), tx("a %s %s", o, x), tx("-%s %s a", x, o), tx("a %s -%s", o, x), tx("a + b %s %s", o, x), tx("%s %s b * a", x, o))
			if c.thorough {
				for _, y := range post {
					add(tx("%s %s %s", x, o, y))
				}
			}
		}
		add(tx("p ? %s : a", x), tx("p ? a : %s", x), tx("p?%s:a", x))
	}
	// ternaries: right associative, below every operator, only one branch evaluated
	for _, t := range []string{
		"p ? a : q ? b : c", "p ? q ? a : b : c", "p ? q ? a : b : r ? c : d", "p ? a : q ? b : r ? c : d", "(p ? a : b) + c", "a + (p ? b : c)", "a + p ? b : c", "p ? a : b + c", "(p ? q : r) ? a : b", "p ? q : r ? a : b", "p ? (q ? a : b) : c",
		"p ? q : r", "!p ? a : b", "p || q ? a : b", "p && q ? a : b", "a == b ? c : d", "a < b ? a : b", "p ? a, b : c", "p ? arr[one] : a", "p ? inc(a) : inc(b)", "arr[p ? 0 : 1]", "inc(p ? a : b)", "sub(p ? 1 : 2, q ? 3 : 4)",
		"p ? a : nope", "p ? nope : a", "p ? a : a / 0", "p ? a / 0 : a", "d == 0 ? a : a / d", "d != 0 ? a / d : 0", "p ? a : nilp.P", "p ? nilp.P : a", "p ? arr[7] : a", "p ? a : arr[7]", "p ? a : panics(3)", "p ? panics(3) : a", "p ? a : !a", "p ? -q : a", "true ? a : nope", "false ? nope : a", "true ? nope : a", "false ? a : nope", "p ? q ? nope : a : b", "p ? a : q ? nope : b", "(p ? nope : q) ? a : b", "i == 0 ? a : arr[i]", "i < 0 ? a : i > 2 ? b : arr[i]",
		"p ? a : b ? c : d", "a ? b : c", "1 ? a : b", "nil ? a : b", "st ? a : b", "p ? 1 : 2", "p ? 1 : 2.5", "p ? true : a", "p ? nil : nil", "true ? 1 : ", "true ? : 1", "? 1 : 2", "p ? a", "p ? a :", "p ? a : b : c", "p : a ? b", "p ? ? a : b", "p ? a : : b", "p ? (a : b)", "(p ? a) : b", "p ? a) : b", "XBool ? a : b", "aXBool ? a : b",
	} {
		add(tx("%s", t))
	}
	// brackets and malformed texts
	for _, t := range []string{
		"", " ", "(", ")", "()", "(())", "((a)", "(a))", "(a", "a)", "[", "]", "a[", "arr[", "arr[]", "arr[1", "arr]1]", "arr[1)", "arr(1]", "(arr[1)]", "inc(", "inc(a", "inc(a]", "inc[a)", "inc(a,", "inc(,a)", "inc(a,)", "inc((a)", "inc(a))", "inc(a)(b)", "inc a", "a b", "a 1", "1 a", "1 2", "a + ", "+", "* ", "a *", "a **", "a ++", "a + + b", "a + * b", "/ a", "a / / b", "a && && p", "p && ", "&& p", "p || || q", "a == == b", "a < < b", "a <", "a ? b", "a.", ".a", "st.", "st..A", "st.(A)", "st.[A]", "st.1", "st.\"A\"", "st.true", "st.A.", "st.-A", "st.nil", "st. A", "st .A", "a : b", ":", "?", "a ?: b", ",", "a,", ",a", "()-1", "() - a", "()+a", "() * pu", "()!p", "()^a", "()&a", "()a", "a()", "a()()", "() ? a : b", "p ? () : a", "(,)", "[a]", "[1]", "(a)(b)", "(a)[0]", "arr[0][0]", "st.A.B", "arr[0", "arr[(0]", "arr[0)]", "a$b", "a#b", "a@b", "a;b", "{a}", "a=b", "a := b", "a = = b", "a ! = b", "a & & b", "a | | b", "!", "-", "^", "&", "!!", "a!", "a-", "a^", "- ", "(-)", "-()", "-)", "a != ", "&^ a", "a &^", "a &^ ^ b", "a & ^b", "a & ^ b", "a &^ b", "a &^b", "a ^ b", "a ^^b", "a - - b", "a --b", "a - -1", "a -1", "a -1 - 1", "a*-1", "a--1", "a<<1+1", "a<<1<<1", "a>>1&b", "a|b&c", "a^b&c", "a|b^c", "a+b|c", "a&^b*c",
	} {
		add(tx("%s", t))
	}
	// every token sequence up to a length
	n := 4
	if c.thorough {
		n = 5
	}
	add(sequences([]string{"a", "p", "1", "-", "*", "!", "+", "<", "&&", "(", ")", "?", ":"}, n)...)
	add(sequences([]string{"st", "arr", "inc", "a", "1", ".", "A", "[", "]", "(", ")", ",", "*", "&"}, n)...)
	return cs
}

// sequences is every token sequence of at most n tokens.
func sequences(alpha []string, n int) []exprCase {
	var cs []exprCase
	var rec func(pre []string)
	rec = func(pre []string) {
		if len(pre) > 0 {
			cs = append(cs, exprCase{text: strings.Join(pre, " ")})
		}
		if len(pre) == n {
			return
		}
		for _, a := range alpha {
			rec(append(pre[:len(pre):len(pre)], a))
		}
	}
	rec(nil)
	return cs
}

func (c *Ctx) e05() []exprCase {
	var cs []exprCase
	add := func(f string, a ...interface{}) { cs = append(cs, tx(f, a...)) }
	// rune and string literals
	quote := func(body string, isRune bool) {
		if isRune {
			add("'%s'", body)
		}
		add("\"%s\"", body)
		add("$'%s'", body)
		add("\"x%sy\"", body)
		add("$'x%sy'", body)
	}
	for ch := rune(0); ch < 128; ch++ {
		if ch == '\n' || ch == '\r' {
			continue // raw line ends cannot appear in a tag
		}
		if ch != '\\' && ch != '\'' && ch != '"' {
			quote(string(ch), true)
		}
		quote("\\"+string(ch), true)
	}
	add("'\"'")
	add("\"'\"")
	add("$'\"'")
	add("'''")
	add("''")
	add("\"\"")
	add("$''")
	add("'ab'")
	add("'\\'")
	add("\"\\\"")
	add("'a")
	add("\"a")
	add("$'a")
	add("$\"a\"")
	add("$")
	add("$a")
	add("'")
	add("\"")
	for i := 0; i < 256; i++ {
		quote(fmt.Sprintf("\\x%02x", i), true)
		if i%7 == 0 {
			quote(fmt.Sprintf("\\x%02X", i), true)
		}
		add("aint == '\\x%02x'", i)
	}
	for i := 0; i < 512; i++ {
		quote(fmt.Sprintf("\\%03o", i), true)
	}
	for _, b := range []string{"\\x", "\\x1", "\\xg0", "\\x0g", "\\0", "\\00", "\\08", "\\080", "\\400", "\\777", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\U1234567", "\\U0010000g", "\\X00", "\\z", "\\ ", "\\"} {
		quote(b, true)
	}
	step := 257
	if c.thorough {
		step = 17
	}
	for i := 0; i < 0x10000; i += step {
		quote(fmt.Sprintf("\\u%04x", i), true)
	}
	for _, i := range []int{0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff} {
		if i < 0x10000 {
			quote(fmt.Sprintf("\\u%04X", i), true)
		}
		quote(fmt.Sprintf("\\U%08x", i), true)
		if i <= 0x10ffff && (i < 0xd800 || i >= 0xe000) && i >= 0x80 {
			quote(string(rune(i)), true)
		}
	}
	for _, s := range []string{"abc", "a b", " a ", "a\\nb", "\\\\n", "\\\\", "tab\\tq", "héllo", "日本", "a,b", "(", "]", "?:", "a\\x41b", "\\101\\102", "\\u00e9\\u00e8"} {
		add("\"%s\"", s)
		add("$'%s'", s)
		add("astring == \"%s\"", s)
		add("$'%s' == astring", s)
		add("\"%s\" + $'%s'", s, s)
		add("astring + \"%s\"", s)
	}
	add("\"it's\"")
	add("$'it\\'s'")
	add("$'say \"x\"'")
	add("\"say \\\"x\\\"\"")
	add("\"it\\'s\"")
	add("$'say \\\"x\\\"'")

	// integers and floats
	nums := []string{"0", "1", "7", "8", "9", "10", "42", "99", "127", "128", "255", "256", "1000", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999",
		"0x0", "0x1", "0xa", "0xF", "0xff", "0XFF", "0xDeadBeef", "0x7fffffffffffffff", "0xffffffffffffffff", "0x10000000000000000", "0x", "0xg", "00", "01", "07", "010", "017", "0777", "08", "09", "018", "0128", "01777777777777777777777", "00x1",
		"0.0", "0.5", "1.0", "1.5", "3.14159", "1.", ".5", "0.1", "1e3", "1E3", "2e0", "1.5e3", "1.5E2", "1e", "1.e2", "1.2.3", "1..2", "1.5.", "..5", "0.1e1", "123456789.125", "1e308", "4e400", "09.5", "08.0", "1x", "1a", "0xfg", "12ab", "1z", "1_0", "0b1", "0o7", "1e+3", "1e-3", "0x1p4", "1i", "0.30000000000000004", "5e", "e5", "0e0", "00.5", "1ee3"}
	for i := 0; i < 300; i++ {
		nums = append(nums, fmt.Sprint(i), fmt.Sprintf("0x%x", i), fmt.Sprintf("0%o", i))
	}
	for _, n := range nums {
		add("%s", n)
		add("-%s", n)
		add(" %s ", n)
		add("(%s)", n)
	}
	for _, n := range nums[:110] {
		for _, f := range []string{"aint64 == %s", "auint64==%s", "afloat64 + %s", "%s - aint64", "%s-aint64", "aint64-%s", "aint64 -%s", "aint64- %s", "aint64 * -%s", "aint64*-%s", "p ? %s : 1", "p?-%s:1", "arr[one-%s]", "-%s-%[1]s", "%s+%[1]s", "!%s", "true==%s"} {
			add(f, n)
		}
	}
	// identifiers and reserved words
	ids := []string{"x", "X", "_", "_x", "x_", "x1", "x1y2", "X9", "longIdentifierName", "é", "日本", "xé1", "x٣", "ñandú", "trueX", "true1", "falsey", "nilx", "Nil", "True", "integer", "int9", "boolx", "bytes", "uint65", "float", "string", "abc", "x0x1", "e5", "a1e5"}
	for _, w := range ids {
		cs = append(cs, exprCase{text: w, ids: ids}, exprCase{text: w + "+1", ids: ids}, exprCase{text: "1+" + w, ids: ids}, exprCase{text: "-" + w, ids: ids}, exprCase{text: w + "-1", ids: ids}, exprCase{text: w + "==" + w, ids: ids}, exprCase{text: "(" + w + ")", ids: ids}, exprCase{text: w + "?1:2", ids: ids}, exprCase{text: "\t" + w + "\t", ids: ids})
	}
	for _, w := range []string{"true", "false", "nil", "bool", "byte", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "1x", "x-y", "x.y", "x y", "#x", "x#", "٣x", "$x", "x$", "x'", "x\"", "\\x", "x\\", "x\x00", "\x7f", "x\u00a0y", "\u2028", "x€", "€"} {
		cs = append(cs, exprCase{text: w, ids: append([]string{"y", "true", "false", "nil", "int", "bool", "byte", "uint8"}, ids...)})
	}
	// blanks around operators
	for _, o := range xAllBin {
		l, r := "a", "b"
		if o == "&&" || o == "||" {
			l, r = "p", "q"
		}
		for _, f := range []string{"%s%s%s", "%s %s%s", "%s%s %s", " %s %s %s ", "%s\t%s\t%s", "\t%s%s%s\t", "%s   %s   %s", "(%s)%s(%s)", "(%s)%s%s", "%s%s(%s)"} {
			add(f, l, o, r)
		}
		if l == "a" {
			for _, f := range []string{"%s%s1", "%s %s1", "%s%s 1", "1%[2]s%[1]s", "1 %[2]s%[1]s", "1%[2]s %[1]s", "%s%s-1", "%s%s -1", "-1%[2]s%[1]s", "st.A%[2]s1", "arr[1]%[2]s1", "inc(%s)%s1", "(%s)%s1", "%s%s0x1F", "%s%s'a'", "'a'%[2]s%[1]s", "%s%s-%[1]s", "-%s%s-%[1]s", "%s%s^%[1]s"} {
				add(f, l, o)
			}
		}
		add("astring%s\"ab\"", o)
		add("\"ab\"%sastring", o)
		add("$'ab'%sastring", o)
	}
	for _, t := range []string{"p?a:b", "p ?a :b", "p? a: b", " p?a:b ", "p?-1:1", "p?1:-1", "st.A", "st . A", "st. A", "st .A", "arr[1]", "arr [1]", "arr[ 1 ]", "inc(a)", "inc (a)", "inc( a )", "sub(1,2)", "sub( 1 , 2 )", "sub(1 ,2)", "!p", "! p", "- a", "-a", "^ a", "* pu", "*pu", "& sl[1]", "&sl[1]", "a- -1", "a - - 1", "a --1", "-1-1", "- 1 - 1", "-1 -1", "1-1-1", "(a)-1", "arr[1]-1", "inc(a)-1", "a-1.5", "afloat64-1.5", "afloat64-.5", "-.5", "- .5", "afloat64*.5", "a&&b", "a& &b", "a<<2", "a< <2", "a&^b", "a& ^b", "a&^ b", "p&&!q", "p||!q", "p==!q", "!p==q", "a!=b", "a! =b", "a\nb", "a\n", "a\r\n", "a\vb", "a//b", "a/*b*/", "a/ *pu", "a/-b"} {
		add("%s", t)
	}
	return cs
}

func (c *Ctx) e07() []exprCase {
	var cs []exprCase
	add := func(f string, a ...interface{}) { cs = append(cs, tx(f, a...)) }
	for _, n := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "XInt8", "XUint16"} {
		for _, o := range []string{"/", "%"} {
			add("a%s %s b%s", n, o, n)
			add("a%s %s 0", n, o)
			add("1 %s b%s", o, n)
			add("a%s %s (b%s - b%s)", n, o, n, n)
			add("(a%s %s b%s) == 0", n, o, n)
			add("p ? a%s %s b%s : 0", n, o, n)
			add("1 + a%s %s b%s", n, o, n)
		}
	}
	add("1 / 0")
	add("1 %% 0")
	add("afloat64 / 0")
	for _, x := range []string{"arr", "sl", "st.Arr", "st.Sl", "*st.PSl", "astring", "st.S", "cstring", "nils", "emps", "\"abc\"", "sla", "sla[0]", "sla[1]"} {
		for _, i := range []string{"i", "-1", "0", "1", "2", "3", "4", "100", "i + 1", "i - 1", "aint * 0", "9223372036854775807", "-9223372036854775808", "aint8", "auint8", "astring", "1.5", "true", "nil", "p", "arr", "\"a\""} {
			add("(%s)[%s]", x, i)
		}
	}
	for _, t := range []string{"nope", "nope + a", "a + nope", "-nope", "nope.A", "nope(a)", "nope[1]", "arr[nope]", "inc(nope)", "st.Nope", "st.In.Nope", "ps.Nope", "pkg.Nope", "pkg.Sub.Nope", "pkg.nope.Z", "a.A", "arr.A", "sl.len", "m.k", "inc.A", "1.A", "nil.A", "true.A", "\"s\".A", "st.A.P", "st.hid", "ps.hid",
		"*nilp", "nilp.P", "st.Nl.P", "ps.Nl.Q", "*st.Nl", "(*nilp).P", "*a", "*1", "*nil", "*st", "*arr", "*\"s\"", "**pin", "&1", "&nil", "&(a + b)", "&inc(a)", "&arr[1]", "&st.A", "&true", "&\"s\"",
		"a(1)", "st(1)", "1(a)", "nil(a)", "\"s\"(a)", "arr(a)", "nilf(a)", "inc(a, b)", "sub(1)", "sub(1, 2, 3)", "sub(1, 2, 3, 4)", "inc(p)", "inc(\"s\")", "inc(1.5)", "inc(true)", "inc(nil)", "inc(st)", "inc(auint16)", "inc(aint)", "inc(arr)", "sub(a, 1)", "sub(1, a)", "mix(a, 1, \"s\", true)", "mix(a, 1, \"s\", 1)", "mix(a, 1, 1, true)", "mix(\"s\", 1, \"s\", true)", "two(a)", "none(a)", "ptr(pin)", "ptr(nil)", "ptr(nilp)", "ptr(pu)", "ptr(in)", "ptr(1)", "named(a)", "named(1)", "struct(in)", "struct(arr)", "struct(nil)", "func(inc)", "func(nil)", "func(sub)", "panics(3)", "panics(a)", "panics(4)", "1 + panics(3)", "inc(panics(3))", "arr[panics(3)]", "p ? panics(3) : 1", "zero(1)", "zero(a)", "inc()", "sub()",
		"a[0]", "1[0]", "nil[0]", "st[0]", "inc[0]", "pkg[0]", "pin[0]", "true[0]", "auint8[0]", "mu[\"a\"]", "m[1]", "m[nil]", "m[true]", "m[st]", "mi[\"a\"]", "mi[1.5]", "mu[p]", "m[arr]",
		"!a", "!1", "!nil", "!st", "-p", "-true", "-nil", "-\"s\"", "-st", "-arr", "+p", "+nil", "^p", "^1.5", "^afloat64", "^true", "^nil", "^\"s\"", "nil", "nil + nil", "nil == nil", "nil && nil", "a && p", "p && a", "a || p", "1 && p", "p || 1", "nil || p", "p && nil",
		"a ? 1 : 2", "1 ? 1 : 2", "nil ? 1 : 2", "\"s\" ? 1 : 2", "st ? 1 : 2", "1.5 ? 1 : 2", "arr ? 1 : 2", "inc ? 1 : 2", "pkg ? 1 : 2", "pkg", "pkg + 1", "pkg == pkg", "-pkg", "pkg(1)", "pkg[1]", "inc(pkg)", "&pkg", "*pkg",
		"st + st", "st == sl", "sl == sl", "m == m", "inc == inc", "sl == sl2", "arr == sl", "arr < arr2", "st < st", "p < q", "p + q", "pin < pin", "pin + 1", "m + m", "astring - bstring", "astring * 2", "astring && p", "astring << 1", "1 << \"s\"", "1 << 1.5", "1 << -1", "a << -1", "a << p", "a << nil", "a << st", "1.5 << 1", "afloat64 << 1", "1.5 % 1.5", "afloat64 % bfloat64", "afloat64 & bfloat64", "1.5 | 1.5",
	} {
		add("%s", t)
	}
	// operands of recursive types
	for _, x := range []string{"rv", "rn", "*rn", "rn.Next", "rn.Kids", "rn.Kids[0]", "rn.Next.Next", "rs", "rs[0]", "rp", "*rp", "rm", "rm[\"k\"]", "rf", "&rn.Kids[0]"} {
		for _, f := range []string{"%s", "-%s", "!%s", "^%s", "+%s", "*%s", "**%s", "&%s", "(%s)[0]", "(%s)[nil]", "(%s)[a]", "(%s).V", "(%s).Next.V", "(%s).Nope", "(%s)(1)", "(%s)(nil, 1)", "inc(%s)", "ptr(%s)", "struct(%s)", "func(%s)", "arr[%s]", "m[%s]", "%s ? 1 : 2", "p ? %s : nil", "1 << %s", "%s << 1", "a << %s"} {
			add(f, x)
		}
		for _, o := range []string{"==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "&&", "||"} {
			for _, y := range []string{"nil", "1", "1.5", "a", "p", "\"s\"", "rn", "rs", x} {
				add("%s %s %s", x, o, y)
				add("%s %s %s", y, o, x)
			}
		}
	}
	// lexical errors wherever they occur
	for ch := 0; ch < 256; ch++ {
		s := string(rune(ch))
		if ch >= 128 {
			s = string([]byte{byte(ch)})
		}
		if ch == '\n' || ch == '\r' {
			continue
		}
		add("%s", s)
		add("a%s", s)
		add("%sa", s)
		add("a + %s", s)
		add("a %s b", s)
	}
	// malformed texts
	n := 3
	if c.thorough {
		n = 4
	}
	cs = append(cs, sequences([]string{"a", "arr", "1", "-", "/", "==", "(", ")", "[", "]", ".", ",", "?", ":", "'", "\"", "$", "=", "nope"}, n)...)
	return cs
}

func (c *Ctx) e09() []exprCase {
	var cs []exprCase
	add := func(f string, a ...interface{}) { cs = append(cs, tx(f, a...)) }
	for _, b := range []string{"st", "ps", "(*ps)", "(st)", "sl2[0]", "sl2[1]", "(&sl2[1])", "in", "pin", "st.In", "st.PIn", "ps.In", "ps.PIn", "(*ps.PIn)", "pkg", "pkg.In", "pkg.Sub", "nilp", "st.Nl", "ppin", "(*ppin)", "st.XEmb", "a", "arr", "sl", "m", "inc", "\"s\"", "1", "nil"} {
		for _, m := range []string{"A", "B", "S", "In", "PIn", "Arr", "Sl", "PSl", "Fn", "Nl", "M", "XEmb", "N", "hid", "P", "Q", "E", "V", "X", "Y", "Inc", "Sub", "Z", "Nope", "a", "p", "_"} {
			add("%s.%s", b, m)
			add("%s . %s", b, m)
		}
	}
	for _, t := range []string{"st.In.P", "st.In.Q", "st.PIn.P", "st.PIn.Q", "ps.In.Q", "ps.PIn.Q", "(*ps.PIn).Q", "st.XEmb.E", "st.XEmb.V", "ps.XEmb.V", "pkg.In.P", "pkg.In.Q", "pkg.Sub.Z", "pkg.Inc(a)", "pkg.Inc(pkg.X)", "st.Fn(a)", "ps.Fn(ps.A)", "st.Fn(st.A) + st.A", "st.M[\"k\"]", "st.M[\"\"]", "ps.M[\"k\"]", "st.Arr[0]", "st.Arr[1]", "st.Arr[2]", "st.Sl[0]", "st.Sl[1]", "(*st.PSl)[0]", "(*ps.PSl)[1]", "st.S[0]", "st.S[1]", "st.S[2]", "ps.S[2]", "st.Arr[one]", "st.Sl[one]", "sl2[0].P", "sl2[1].Q", "sl2[one].Q", "sla[0][0]", "sla[1][1]", "sla[one][one]", "sla[1][0]", "m[\"k\"]", "m[\"z\"]", "m[$'k']", "m[\"k\"] + m[\"z\"]", "mi[1]", "mi[2]", "mi[one]", "mi[one + 1]", "mu[1]", "mu[255]", "mu[auint8]", "m[astring]",
		"*pu", "*pin", "*ps", "*nilp", "**ppin", "*ppin", "*&sl[0]", "*&sl[2]", "&sl[0]", "&sl[1]", "&sl[2]", "&sl2[1]", "&sl2[1].P", "&sl2[0].Q", "*&sl2[0].Q", "(*&sl2[1]).P", "&ps.A", "&ps.B", "*&ps.B", "&ps.In", "&ps.In.Q", "*&ps.In.Q", "&ps.Arr[1]", "*&ps.Arr[1]", "&st.PIn.Q", "*&st.PIn.Q", "&(*pin).Q", "&pin.Q", "&(*ps).B", "&*pin", "*&*pin", "&sla[1][0]", "*&sla[1][0]", "(&sl2[0]).Q", "&ps.PIn", "*&ps.PIn", "(*&ps.PIn).P", "&st.Sl[1]", "&(*st.PSl)[1]", "&arr[1]", "&st.A", "&1", "&inc(a)",
		"inc(a)", "inc(1)", "inc(255)", "inc(st.A)", "inc(arr[1])", "inc(inc(a))", "inc(-a)", "inc(p ? a : b)", "inc(aXUint8)", "inc('a')", "inc((a))", "(inc)(a)", "sub(1, 2)", "sub(2, 1)", "sub(auint16, buint16)", "sub(buint16, auint16)", "sub(st.B, 1)", "sub(1, st.B)", "sub(sub(auint16, 1), sub(1, buint16))", "sub(p ? 1 : 2, 3)", "mix(a, 1, \"x\", true)", "mix(1, aint64, astring, p)", "mix(a, -1, bstring, q)", "mix(a, 1, $'x', a == b)", "named(a)", "named(aXUint8)", "named(5)", "zero()", "zero() + a", "inc(zero())", "zero ()", "zero( )", "st.Fn()", "zero(1)", "zero()()", "ptr(nil)", "ptr(pin)", "ptr(nilp)", "struct(in)", "struct(*pin)", "struct(sl2[1])", "func(nil)", "func(inc)", "func(st.Fn)", "panics(a)",
		"arr[0]", "arr[1]", "arr[2]", "arr[3]", "arr[-1]", "arr[i]", "sl[i]", "astring[i]", "astring[0]", "astring[1]", "\"abc\"[0]", "\"abc\"[2]", "\"abc\"[i]", "(\"a\" + \"b\")[1]", "$'abc'[1]", "nils[0]", "emps[0]", "arr", "sl", "st", "ps", "m", "inc", "a", "p", "in", "aXUint8", "st.N", "st.N + a", "st.N == aXUint8", "-st.N", "nope", "A", "St", "ST", "sT", "aa", "a1",
		"\"a\" == \"a\"[0]", "arr[arr[0] - arr[0]]", "arr[one]", "arr[one - 1]", "arr[one+1]", "arr[1+1]", "sl[2-1]", "arr[p ? 0 : 2]",
	} {
		add("%s", t)
	}
	return cs
}

func init() {
	e := func(id string, gen func(c *Ctx) []exprCase) {
		checks[id] = checkFn{func(c *Ctx) *Result { return c.exprRun(gen(c), "") }, exprRule}
	}
	e("E04", (*Ctx).e04)
	e("E05", (*Ctx).e05)
	e("E07", (*Ctx).e07)
}

var _ = types.Typ
