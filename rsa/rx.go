package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Reference expression language: lexical rules and precedence of Go, plus the
// ternary and $'...' strings, evaluated over abstract values.

// rx is a node of a reference expression.
type rx struct {
	op  string // id, lit, nil, u<op>, ".", "[]", "call", "?", or a binary operator
	x   []*rx
	id  string
	lit xv
}

// xv is a reference value. t is nil for untyped nil and for packages.
type xv struct {
	v    Value
	t    types.Type
	c    constant.Value // untyped constant
	nil_ bool
	pkg  []xbind
	cell *Value
	addr int // 0 not addressable, 1 addressable, 2 not claimed
}

type xbind struct {
	name string
	t    types.Type
	v    Value
	pkg  []xbind
}

// refSkip marks an outcome the properties make no claim about.
type refSkip struct{ why string }

func skipRef(why string) { panic(refSkip{why}) }

// ---- lexical structure

func rxLex(s string) (toks []string, ok bool) {
	i := 0
	letter := func(c byte) bool {
		return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
	}
	// word is the length of the identifier character at j, or 0
	word := func(j int, first bool) int {
		r, n := utf8.DecodeRuneInString(s[j:])
		if r == '_' || unicode.IsLetter(r) || !first && unicode.IsDigit(r) {
			if r != utf8.RuneError || n > 1 {
				return n
			}
		}
		return 0
	}
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	for i < len(s) {
		c := s[i]
		j := i
		switch {
		case c == ' ' || c == '\t':
			i++
			continue
		case word(i, true) > 0:
			for j < len(s) && word(j, false) > 0 {
				j += word(j, false)
			}
		case digit(c) || c == '.' && i+1 < len(s) && digit(s[i+1]):
			for j < len(s) && (letter(s[j]) || digit(s[j]) || s[j] == '.') {
				j++
			}
		case c == '"' || c == '\'' || c == '$':
			q := c
			j++
			if c == '$' {
				if j >= len(s) || s[j] != '\'' {
					return nil, false
				}
				q = '\''
				j++
			}
			for {
				if j >= len(s) {
					return nil, false
				}
				if s[j] == '\\' {
					j += 2
					continue
				}
				if s[j] == q {
					break
				}
				j++
			}
			j++
		default:
			_, n := utf8.DecodeRuneInString(s[i:])
			j += n
			for _, o := range []string{"&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "&^"} {
				if strings.HasPrefix(s[i:], o) {
					j = i + 2
				}
			}
		}
		if j > len(s) {
			return nil, false
		}
		toks = append(toks, s[i:j])
		i = j
	}
	return toks, true
}

var rxPrec = map[string]int{
	"||": token.LOR.Precedence(), "&&": token.LAND.Precedence(),
	"==": token.EQL.Precedence(), "!=": token.NEQ.Precedence(), "<": token.LSS.Precedence(), "<=": token.LEQ.Precedence(), ">": token.GTR.Precedence(), ">=": token.GEQ.Precedence(),
	"+": token.ADD.Precedence(), "-": token.SUB.Precedence(), "|": token.OR.Precedence(), "^": token.XOR.Precedence(),
	"*": token.MUL.Precedence(), "/": token.QUO.Precedence(), "%": token.REM.Precedence(), "<<": token.SHL.Precedence(), ">>": token.SHR.Precedence(), "&": token.AND.Precedence(), "&^": token.AND_NOT.Precedence(),
}

var rxTok = map[string]token.Token{
	"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ,
	"+": token.ADD, "-": token.SUB, "|": token.OR, "^": token.XOR, "*": token.MUL, "/": token.QUO, "%": token.REM,
	"<<": token.SHL, ">>": token.SHR, "&": token.AND, "&^": token.AND_NOT,
}

type rxParser struct {
	t []string
	i int
}

func (p *rxParser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}

func (p *rxParser) eat(s string) bool {
	if p.peek() == s {
		p.i++
		return true
	}
	return false
}

func (p *rxParser) need(s string) {
	if !p.eat(s) {
		refErr("malformed: expected " + s)
	}
}

// rxParse parses a token list; malformed input is a refFail.
func rxParse(toks []string) *rx {
	p := &rxParser{t: toks}
	n := p.ternary()
	if p.peek() == "," {
		p.rest()
	}
	if p.i != len(toks) {
		refErr("malformed: trailing " + p.peek())
	}
	return n
}

// rest handles a comma outside of an argument list, which the language
// accepts as a sequence operator without documenting it.
func (p *rxParser) rest() {
	// only if everything else is well formed is nothing claimed
	q := *p
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(refSkip); ok {
				panic(r)
			}
			panic(r)
		}
	}()
	for q.eat(",") {
		q.ternary()
	}
	if c := q.peek(); c == "" || c == ")" || c == "]" {
		skipRef("comma outside of an argument list")
	}
	refErr("malformed")
}

func (p *rxParser) ternary() *rx {
	c := p.binary(1)
	if !p.eat("?") {
		return c
	}
	a := p.ternary()
	p.need(":")
	b := p.ternary()
	return &rx{op: "?", x: []*rx{c, a, b}}
}

func (p *rxParser) binary(prec int) *rx {
	l := p.unary()
	for {
		o := p.peek()
		q, ok := rxPrec[o]
		if !ok || q < prec {
			return l
		}
		p.i++
		l = &rx{op: o, x: []*rx{l, p.binary(q + 1)}}
	}
}

func (p *rxParser) unary() *rx {
	switch o := p.peek(); o {
	case "-", "+", "!", "^", "*", "&":
		p.i++
		x := p.unary()
		if o == "-" && x.op == "lit" && x.lit.t == types.Typ[types.UntypedInt] {
			if _, ok := constant.Int64Val(constant.UnaryOp(token.SUB, x.lit.c, 0)); !ok {
				skipRef("literal out of range")
			}
		}
		return &rx{op: "u" + o, x: []*rx{x}}
	}
	return p.postfix()
}

func rxIdentStart(c byte) bool {
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c >= 0x80
}

func (p *rxParser) postfix() *rx {
	n := p.primary()
	for {
		switch {
		case p.eat("."):
			id := p.peek()
			if id == "" || !rxIdentStart(id[0]) || id == "true" || id == "false" || rxKeyword[id] {
				refErr("malformed: expected a member name")
			}
			p.i++
			n = &rx{op: ".", x: []*rx{n}, id: id}
		case p.eat("["):
			ix := p.ternary()
			if p.peek() == "," {
				p.rest()
			}
			p.need("]")
			n = &rx{op: "[]", x: []*rx{n, ix}}
		case p.eat("("):
			c := &rx{op: "call", x: []*rx{n}}
			if p.peek() == ")" {
				p.i++
				c.op = "call0"
				n = c
				continue
			}
			for {
				c.x = append(c.x, p.ternary())
				if !p.eat(",") {
					break
				}
				if p.peek() == ")" {
					skipRef("trailing comma")
				}
			}
			p.need(")")
			n = c
		default:
			return n
		}
	}
}

// rxKeyword lists reserved type names that cannot be used as identifiers.
var rxKeyword = map[string]bool{"bool": true, "byte": true, "float32": true, "float64": true, "int": true, "int8": true, "int16": true, "int32": true, "int64": true, "uint": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true, "uintptr": true, "nil": true}

func (p *rxParser) primary() *rx {
	t := p.peek()
	if t == "" {
		refErr("malformed: expression expected")
	}
	switch c := t[0]; {
	case t == "(":
		p.i++
		n := p.ternary()
		if p.peek() == "," {
			p.rest()
		}
		p.need(")")
		return &rx{op: "()", x: []*rx{n}}
	case t == "true" || t == "false":
		p.i++
		return &rx{op: "lit", lit: xv{t: types.Typ[types.UntypedBool], c: constant.MakeBool(t == "true"), v: t == "true"}}
	case t == "nil":
		p.i++
		return &rx{op: "lit", lit: xv{nil_: true}}
	case rxIdentStart(c):
		p.i++
		if rxKeyword[t] {
			refErr("malformed: reserved word")
		}
		for i, r := range t {
			if !(r == '_' || unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r)) {
				refErr("malformed identifier")
			}
		}
		return &rx{op: "id", id: t}
	case '0' <= c && c <= '9' || c == '.' && len(t) > 1:
		p.i++
		if strings.ContainsAny(t, "_pP") || len(t) > 1 && t[0] == '0' && strings.ContainsAny(t[1:2], "bBoO") {
			skipRef("number form")
		}
		if c := t[len(t)-1]; (c == 'e' || c == 'E') && (p.peek() == "+" || p.peek() == "-") && !strings.HasPrefix(t, "0x") {
			skipRef("signed exponent")
		}
		k := token.INT
		if strings.ContainsAny(t, ".") || !strings.HasPrefix(t, "0x") && !strings.HasPrefix(t, "0X") && strings.ContainsAny(t, "eE") {
			k = token.FLOAT
		}
		v := constant.MakeFromLiteral(t, k, 0)
		if v.Kind() == constant.Unknown {
			refErr("malformed number " + t)
		}
		ut := types.Typ[types.UntypedInt]
		if k == token.INT {
			if _, ok := constant.Uint64Val(v); !ok {
				skipRef("oversized integer literal")
			}
		}
		if f, _ := constant.Float64Val(v); math.IsInf(f, 0) {
			refErr("literal overflows")
		}
		if k == token.FLOAT {
			ut = types.Typ[types.UntypedFloat]
			v = constant.ToFloat(v)
		}
		return &rx{op: "lit", lit: xv{t: ut, c: v}}
	case c == '\'':
		p.i++
		if _, err := strconv.Unquote(t); err != nil || len(t) < 3 {
			refErr("malformed rune " + t)
		}
		v := constant.MakeFromLiteral(t, token.CHAR, 0)
		return &rx{op: "lit", lit: xv{t: types.Typ[types.UntypedInt], c: v}}
	case c == '"' || c == '$':
		p.i++
		q := t
		if c == '$' {
			q = requote(t[2 : len(t)-1])
		}
		s, err := strconv.Unquote(q)
		if err != nil {
			refErr("malformed string " + t)
		}
		return &rx{op: "lit", lit: xv{t: types.Typ[types.String], v: s}}
	}
	refErr("malformed: unexpected " + t)
	return nil
}

// requote turns the body of a single-quoted string into a double-quoted one.
func requote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			if s[i+1] == '\'' {
				b.WriteByte('\'')
			} else if s[i+1] == '"' {
				b.WriteString("\\q") // \" is not an escape of a single-quoted literal
			} else {
				b.WriteByte('\\')
				b.WriteByte(s[i+1])
			}
			i++
		case s[i] == '"':
			b.WriteString("\\\"")
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('"')
	return b.String()
}

// ---- evaluation

type rxEnv interface{ find(name string) (xv, bool) }

type rxBinds []xbind

func (bs rxBinds) find(name string) (xv, bool) {
	for _, b := range bs {
		if b.name == name {
			return bindVal(b), true
		}
	}
	return xv{}, false
}

func bindVal(b xbind) xv {
	if b.pkg != nil {
		return xv{pkg: b.pkg}
	}
	return xv{v: b.v, t: b.t, addr: 2}
}

func isUnt(a xv) bool { return a.c != nil }

func basicOf(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// fit converts an untyped constant to the type t.
func (e *Engine) fit(a xv, t types.Type) xv {
	k, w, signed := basicInfo(t)
	switch a.c.Kind() {
	case constant.Bool:
		if k != kBool {
			refErr("mismatched literal")
		}
		return xv{v: constant.BoolVal(a.c), t: t}
	case constant.Int, constant.Float:
		isF := a.t == types.Typ[types.UntypedFloat]
		switch {
		case k == kInt && isF:
			if constant.ToInt(a.c).Kind() == constant.Int {
				skipRef("integral float literal for an integer")
			}
			refErr("float literal for an integer")
		case k == kInt:
			if i, ok := constant.Int64Val(a.c); ok {
				if signed && (w == 64 || i >= -(1<<uint(w-1)) && i < 1<<uint(w-1)) || !signed && i >= 0 && (w == 64 || i < 1<<uint(w)) {
					return xv{v: uint64(i) & mask(w), t: t}
				}
			} else if u, ok := constant.Uint64Val(a.c); ok && !signed && w == 64 {
				return xv{v: u, t: t}
			}
			skipRef("literal out of range")
		case k == kFloat:
			f, _ := constant.Float64Val(a.c)
			if w == 32 {
				g, _ := constant.Float32Val(a.c)
				f = float64(g)
				if float64(float32(f)) != f {
					skipRef("rounding")
				}
			}
			return xv{v: f, t: t}
		}
		refErr("mismatched literal")
	}
	refErr("mismatched literal")
	return xv{}
}

// settle gives a remaining untyped operand its default type.
func (e *Engine) settle(a xv) xv {
	if !isUnt(a) {
		return a
	}
	switch {
	case a.c.Kind() == constant.Bool:
		return e.fit(a, types.Typ[types.Bool])
	case a.t == types.Typ[types.UntypedFloat]:
		return e.fit(a, types.Typ[types.Float64])
	}
	return e.fit(a, types.Typ[types.Int])
}

func (e *Engine) rxEval(env rxEnv, n *rx) xv {
	switch n.op {
	case "()":
		return e.rxEval(env, n.x[0])
	case "lit":
		return n.lit
	case "id":
		v, ok := env.find(n.id)
		if !ok {
			refErr("unresolved name " + n.id)
		}
		return v
	case "u-", "u+", "u!", "u^", "u*", "u&":
		return e.rxUnary(n.op[1:], e.rxEval(env, n.x[0]))
	case "?":
		c := e.rxEval(env, n.x[0])
		if c.nil_ || c.pkg != nil {
			refErr("condition is not boolean")
		}
		if k, _, _ := basicInfo(c.t); k != kBool {
			refErr("condition is not boolean")
		}
		if e.decideV(c.v) {
			return e.rxEval(env, n.x[1])
		}
		return e.rxEval(env, n.x[2])
	case ".":
		return e.rxMember(e.rxEval(env, n.x[0]), n.id)
	case "[]":
		return e.rxIndex(e.rxEval(env, n.x[0]), e.rxEval(env, n.x[1]))
	case "call0":
		return e.rxCall(e.rxEval(env, n.x[0]), nil)
	case "call":
		f := e.rxEval(env, n.x[0])
		var args []xv
		for _, a := range n.x[1:] {
			if a.op == "()" {
				// a parenthesised sequence is flattened; nothing is claimed
			}
			args = append(args, e.rxEval(env, a))
		}
		return e.rxCall(f, args)
	case "&&", "||":
		a := e.rxEval(env, n.x[0])
		var b xv
		if failed, _ := refRun(func() { b = e.rxEval(env, n.x[1]) }); failed {
			if !e.isBool(a) {
				refErr("operand is not boolean")
			}
			skipRef("failing right operand of a logical operator")
		}
		if !e.isBool(a) || !e.isBool(b) {
			refErr("operand is not boolean")
		}
		if isUnt(a) && isUnt(b) {
			x, y := constant.BoolVal(a.c), constant.BoolVal(b.c)
			return xv{v: n.op == "&&" && x && y || n.op == "||" && (x || y), t: types.Typ[types.Bool]}
		}
		op := e.dom.And
		if n.op == "||" {
			op = e.dom.Or
		}
		return xv{v: abool(op(boolBit(a.v), boolBit(b.v))), t: types.Typ[types.Bool]}
	}
	a := e.rxEval(env, n.x[0])
	b := e.rxEval(env, n.x[1])
	return e.rxBinary(n.op, a, b)
}

func (e *Engine) isBool(a xv) bool {
	if a.nil_ || a.pkg != nil {
		return false
	}
	k, _, _ := basicInfo(a.t)
	return k == kBool
}

func (e *Engine) rxUnary(op string, a xv) (r xv) {
	if op == "&" {
		switch a.addr {
		case 1:
			return xv{v: a.cell, t: types.NewPointer(a.t)}
		case 2:
			skipRef("address of a plain variable")
		}
		refErr("cannot take the address")
	}
	if op == "*" {
		if a.nil_ || a.pkg != nil || isUnt(a) {
			refErr("cannot dereference")
		}
		p, ok := a.t.Underlying().(*types.Pointer)
		if !ok {
			refErr("cannot dereference")
		}
		var c *Value
		switch v := a.v.(type) {
		case *Value:
			c = v
		case xAnc:
			c = v.c
		case *xFresh:
			c = &v.v
		}
		if c == nil {
			refErr("nil dereference")
		}
		return xv{v: e.load(c), t: p.Elem(), cell: c, addr: 1}
	}
	if a.nil_ || a.pkg != nil {
		refErr("operator not defined")
	}
	if isUnt(a) {
		defer func() {
			if r.c != nil && r.c.Kind() == constant.Int {
				_, ok1 := constant.Int64Val(r.c)
				_, ok2 := constant.Uint64Val(r.c)
				if !ok1 && !ok2 {
					skipRef("literal out of range")
				}
			}
		}()
		isInt := a.t == types.Typ[types.UntypedInt]
		isNum := isInt || a.t == types.Typ[types.UntypedFloat]
		switch {
		case op == "!" && a.c.Kind() == constant.Bool:
			b := !constant.BoolVal(a.c)
			return xv{v: b, t: a.t, c: constant.MakeBool(b)}
		case op == "-" && isNum:
			if !isInt && constant.Sign(a.c) == 0 {
				skipRef("negative zero")
			}
			return xv{t: a.t, c: constant.UnaryOp(token.SUB, a.c, 0)}
		case op == "+" && isNum:
			return a
		case op == "^" && isInt:
			return xv{t: a.t, c: constant.UnaryOp(token.XOR, a.c, 0)}
		}
		refErr("operator " + op + " not defined")
	}
	k, w, _ := basicInfo(a.t)
	bt, _ := basicOf(a.t)
	switch {
	case op == "!" && k == kBool:
		return xv{v: abool(boolBit(a.v).Not()), t: bt}
	case op == "-" && k == kInt:
		return xv{v: e.dom.arith("sub", uint64(0), a.v, w), t: bt}
	case op == "-" && k == kFloat:
		return xv{v: e.dom.fneg(a.v, w), t: bt}
	case op == "+" && (k == kInt || k == kFloat):
		return xv{v: a.v, t: a.t}
	case op == "^" && k == kInt:
		return xv{v: e.dom.not(a.v, w), t: bt}
	}
	refErr("operator " + op + " not defined")
	return xv{}
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature:
		return true
	}
	return false
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case *Value:
		return v == nil
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case nil:
		return true
	}
	return isNil(v)
}

func (e *Engine) rxBinary(op string, a, b xv) xv {
	if a.pkg != nil || b.pkg != nil {
		refErr("operator not defined on packages")
	}
	bt := types.Typ[types.Bool]
	eq := op == "==" || op == "!="
	if a.nil_ || b.nil_ {
		if a.nil_ && b.nil_ || !eq {
			refErr("operator not defined on nil")
		}
		x := a
		if a.nil_ {
			x = b
		}
		if isUnt(x) || !nilable(x.t) {
			refErr("comparison with nil")
		}
		return xv{v: isNilVal(x.v) == (op == "=="), t: bt}
	}
	if op == "<<" || op == ">>" {
		var n xv
		switch {
		case isUnt(b) && b.t == types.Typ[types.UntypedInt]:
			if constant.Sign(b.c) < 0 {
				refErr("negative shift count")
			}
			n = e.fit(b, types.Typ[types.Uint64])
		case isUnt(b):
			if b.t == types.Typ[types.UntypedFloat] {
				skipRef("float shift count")
			}
			refErr("shift count")
		default:
			k, _, signed := basicInfo(b.t)
			if k != kInt {
				refErr("shift count is not an integer")
			}
			if signed {
				skipRef("signed shift count")
			}
			n = b
		}
		if isUnt(a) && a.t == types.Typ[types.UntypedFloat] {
			skipRef("shifted float literal")
		}
		a = e.settle(a)
		if k, _, _ := basicInfo(a.t); k != kInt {
			refErr("shifted operand is not an integer")
		}
		t, _ := basicOf(a.t)
		return xv{v: binop(rxTok[op], t, n.t)(e, a.v, n.v), t: t}
	}
	switch {
	case isUnt(a) && isUnt(b):
		if a.t != b.t {
			ab, bb := a.c.Kind() == constant.Bool, b.c.Kind() == constant.Bool
			if ab || bb {
				refErr("mismatched literals")
			}
			skipRef("integer and float literal")
		}
		a, b = e.settle(a), e.settle(b)
	case isUnt(a):
		a = e.fit(a, e.litTarget(b.t))
	case isUnt(b):
		b = e.fit(b, e.litTarget(a.t))
	}
	ta, oka := basicOf(a.t)
	tb, okb := basicOf(b.t)
	if oka != okb {
		refErr("mismatched types")
	}
	if !oka {
		if !eq {
			refErr("operator not defined")
		}
		if !types.Identical(a.t, b.t) {
			if types.Identical(a.t.Underlying(), b.t.Underlying()) {
				skipRef("equality of different types of one structure")
			}
			_, ok := a.t.Underlying().(*types.Struct)
			_, ok2 := b.t.Underlying().(*types.Struct)
			if ok && ok2 {
				skipRef("equality of different structure types")
			}
			refErr("mismatched types")
		}
		if !types.Comparable(a.t) {
			refErr("not comparable")
		}
		return xv{v: binop(rxTok[op], a.t, b.t)(e, a.v, b.v), t: bt}
	}
	if !types.Identical(ta, tb) {
		refErr("mismatched types")
	}
	k, w, _ := basicInfo(ta)
	switch op {
	case "==", "!=":
		return xv{v: binop(rxTok[op], ta, tb)(e, a.v, b.v), t: bt}
	case "<", "<=", ">", ">=":
		if k == kString {
			skipRef("string ordering")
		}
		if k != kInt && k != kFloat {
			refErr("operator not defined")
		}
		return xv{v: binop(rxTok[op], ta, tb)(e, a.v, b.v), t: bt}
	case "+":
		if k != kInt && k != kFloat && k != kString {
			refErr("operator not defined")
		}
	case "-", "*":
		if k != kInt && k != kFloat {
			refErr("operator not defined")
		}
	case "/", "%":
		if k == kFloat && op == "/" {
			break
		}
		if k != kInt {
			refErr("operator not defined")
		}
		if e.decide(e.dom.eq(b.v, uint64(0), w)) {
			refErr("division by zero")
		}
	default:
		if k != kInt {
			refErr("operator not defined")
		}
	}
	return xv{v: binop(rxTok[op], ta, tb)(e, a.v, b.v), t: ta}
}

func (e *Engine) litTarget(t types.Type) types.Type {
	b, ok := basicOf(t)
	if !ok {
		refErr("mismatched literal")
	}
	return b
}

func (e *Engine) rxMember(a xv, name string) xv {
	if a.pkg != nil {
		for _, b := range a.pkg {
			if b.name == name {
				return bindVal(b)
			}
		}
		refErr("no symbol " + name)
	}
	if a.nil_ || isUnt(a) {
		refErr("no member")
	}
	if p, ok := a.t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Pointer); ok {
			skipRef("member through several pointers")
		}
		a = e.rxUnary("*", a)
	}
	st, ok := a.t.Underlying().(*types.Struct)
	if !ok {
		refErr("member of a non-structure")
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			if !f.Exported() {
				skipRef("unexported member")
			}
			r := xv{v: a.v.(Struct)[i], t: f.Type(), addr: a.addr}
			if a.cell != nil {
				r.cell = &(*a.cell).(Struct)[i]
			}
			return r
		}
	}
	// promoted fields, one level
	var found []xv
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			in := xv{v: a.v.(Struct)[i], t: f.Type(), addr: a.addr}
			if a.cell != nil {
				in.cell = &(*a.cell).(Struct)[i]
			}
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				ft = p.Elem()
			}
			if es, ok := ft.Underlying().(*types.Struct); ok {
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Name() == name {
						found = append(found, e.rxMember(in, name))
					}
				}
			}
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	if len(found) > 1 {
		skipRef("ambiguous member")
	}
	refErr("no member " + name)
	return xv{}
}

func (e *Engine) rxIndexInt(i xv) int64 {
	if i.nil_ || i.pkg != nil {
		refErr("index is not an integer")
	}
	if isUnt(i) {
		if i.t == types.Typ[types.UntypedFloat] {
			if constant.ToInt(i.c).Kind() == constant.Int {
				skipRef("integral float index")
			}
			refErr("index is not an integer")
		}
		if i.c.Kind() == constant.Bool {
			refErr("index is not an integer")
		}
		n, ok := constant.Int64Val(i.c)
		if !ok {
			refErr("index out of range")
		}
		return n
	}
	k, w, signed := basicInfo(i.t)
	if k != kInt {
		refErr("index is not an integer")
	}
	if b, _ := basicOf(i.t); b != types.Typ[types.Int] {
		skipRef("index of another integer type")
	}
	_ = signed
	return sext(e.concretize(i.v), w)
}

func (e *Engine) rxIndex(a, i xv) xv {
	if a.pkg != nil || a.nil_ || isUnt(a) {
		refErr("cannot index")
	}
	switch t := a.t.Underlying().(type) {
	case *types.Array:
		n := e.rxIndexInt(i)
		s := a.v.(Array)
		if n < 0 || n >= int64(len(s)) {
			refErr("index out of range")
		}
		r := xv{v: s[n], t: t.Elem(), addr: a.addr}
		if a.cell != nil {
			r.cell = &(*a.cell).(Array)[n]
		}
		return r
	case *types.Slice:
		n := e.rxIndexInt(i)
		s := a.v.(Slice)
		if n < 0 || n >= int64(len(s)) {
			refErr("index out of range")
		}
		return xv{v: e.load(&s[n]), t: t.Elem(), cell: &s[n], addr: 1}
	case *types.Basic:
		if t.Info()&types.IsString == 0 {
			refErr("cannot index")
		}
		n := e.rxIndexInt(i)
		bs, _ := strBytes(a.v)
		if n < 0 || n >= int64(len(bs)) {
			refErr("index out of range")
		}
		return xv{v: bs[n], t: types.Typ[types.Uint8]}
	case *types.Map:
		k := e.rxArg(i, t.Key())
		m := a.v.(*Map)
		if m == nil {
			skipRef("nil map")
		}
		for _, key := range m.keys {
			ent := m.m[key]
			if ent == nil {
				continue
			}
			if e.decideV(e.equal(t.Key(), ent.k, k.v)) {
				return xv{v: ent.v, t: t.Elem()}
			}
		}
		skipRef("missing map key")
	case *types.Pointer:
		if _, ok := t.Elem().Underlying().(*types.Array); ok {
			skipRef("index through a pointer")
		}
	}
	refErr("cannot index")
	return xv{}
}

// rxArg converts a value for a parameter or key of type t.
func (e *Engine) rxArg(a xv, t types.Type) xv {
	if a.pkg != nil {
		refErr("package used as value")
	}
	if a.nil_ {
		if !nilable(t) {
			refErr("nil argument")
		}
		return xv{v: zero(t), t: t}
	}
	if isUnt(a) {
		bt, ok := basicOf(t)
		if !ok {
			refErr("mismatched argument")
		}
		r := e.fit(a, bt)
		return xv{v: r.v, t: t}
	}
	if ba, ok := basicOf(a.t); ok {
		if bt, ok := basicOf(t); ok && types.Identical(ba, bt) {
			return xv{v: a.v, t: t}
		}
		refErr("mismatched argument")
	}
	if !types.Identical(a.t, t) {
		if types.Identical(a.t.Underlying(), t.Underlying()) || types.AssignableTo(a.t, t) {
			skipRef("argument of another named type")
		}
		_, s1 := a.t.Underlying().(*types.Struct)
		_, s2 := t.Underlying().(*types.Struct)
		if s1 && s2 {
			skipRef("argument of another structure type")
		}
		refErr("mismatched argument")
	}
	return a
}

func (e *Engine) rxCall(f xv, args []xv) xv {
	if f.pkg != nil || f.nil_ || isUnt(f) {
		refErr("not a function")
	}
	sig, ok := f.t.Underlying().(*types.Signature)
	if !ok {
		refErr("not a function")
	}
	if sig.Variadic() {
		skipRef("variadic function")
	}
	if len(args) != sig.Params().Len() {
		refErr("wrong number of arguments")
	}
	if sig.Results().Len() != 1 {
		refErr("function without a single result")
	}
	var in []Value
	for i, a := range args {
		in = append(in, e.rxArg(a, sig.Params().At(i).Type()).v)
	}
	if isNil(f.v) {
		refErr("nil function")
	}
	r := e.call(f.v, in...)
	if r.panic != nil {
		refErr("function panics")
	}
	return xv{v: r.v, t: sig.Results().At(0).Type()}
}
