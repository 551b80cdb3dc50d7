package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Bit is a literal over the bit-provenance domain: 0 is constant false, 1 is
// constant true, otherwise node<<1|negated.
type Bit int32

const (
	bFalse Bit = 0
	bTrue  Bit = 1
)

type nodeKind uint8

const (
	nkConst nodeKind = iota
	nkVar            // an input bit: name
	nkAnd
	nkXor
	nkTerm // bit i of a word-level term
)

type node struct {
	kind nodeKind
	a, b Bit
	name string
	term *Term
	i    int
}

// Term is a hash-consed word-level expression (Herbrand domain).
type Term struct {
	id   int
	op   string
	w    int
	args []Value
	key  string
}

// BV is an abstract machine word: one provenance literal per bit, least
// significant first.
type BV struct {
	b []Bit
}

// FT is an abstract floating point value of width w.
type FT struct {
	w int
	t *Term
}

// CT is an abstract complex value (parts are float64 or *FT).
type CT struct {
	re, im Value
}

// Dom owns the hash-consing tables of the abstract domains.
type Dom struct {
	conc  func(name string) bool // concrete valuation of new variables
	nodes []node
	vars  map[string]Bit
	ands  map[[2]Bit]Bit
	xors  map[[2]Bit]Bit
	tbits map[[2]int]Bit
	terms map[string]*Term
	tlist []*Term

	// path assumptions
	assume  map[int32]bool
	asList  []Bit // assumptions as literals that hold
	version int
	memo    map[int32]Bit
}

func newDom() *Dom {
	d := &Dom{
		vars:  map[string]Bit{},
		ands:  map[[2]Bit]Bit{},
		xors:  map[[2]Bit]Bit{},
		tbits: map[[2]int]Bit{},
		terms: map[string]*Term{},
	}
	d.nodes = append(d.nodes, node{kind: nkConst})
	d.resetPath()
	return d
}

func (d *Dom) resetPath() {
	d.assume = map[int32]bool{}
	d.asList = nil
	d.memo = map[int32]Bit{}
}

func (d *Dom) mk(n node) Bit {
	d.nodes = append(d.nodes, n)
	return Bit(len(d.nodes)-1) << 1
}

func (d *Dom) Var(name string) Bit {
	if d.conc != nil {
		if d.conc(name) {
			return bTrue
		}
		return bFalse
	}
	if b, ok := d.vars[name]; ok {
		return b
	}
	b := d.mk(node{kind: nkVar, name: name})
	d.vars[name] = b
	return b
}

func (d *Dom) TermBit(t *Term, i int) Bit {
	k := [2]int{t.id, i}
	if b, ok := d.tbits[k]; ok {
		return b
	}
	b := d.mk(node{kind: nkTerm, term: t, i: i})
	d.tbits[k] = b
	return b
}

func (b Bit) Not() Bit { return b ^ 1 }

func isConstBit(b Bit) bool { return b == bFalse || b == bTrue }

func (d *Dom) And(a, b Bit) Bit {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == bFalse:
		return bFalse
	case a == bTrue:
		return b
	case a == b:
		return a
	case a == b^1:
		return bFalse
	}
	// absorption
	for _, p := range [2][2]Bit{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		n := d.nodes[y>>1]
		if n.kind == nkAnd {
			if y&1 == 0 {
				if n.a == x || n.b == x {
					return y
				}
				if n.a == x^1 || n.b == x^1 {
					return bFalse
				}
			} else {
				if n.a == x^1 || n.b == x^1 {
					return x
				}
				if n.a == x {
					return d.And(x, n.b^1)
				}
				if n.b == x {
					return d.And(x, n.a^1)
				}
			}
		}
	}
	k := [2]Bit{a, b}
	if r, ok := d.ands[k]; ok {
		return r
	}
	r := d.mk(node{kind: nkAnd, a: a, b: b})
	d.ands[k] = r
	return r
}

func (d *Dom) Or(a, b Bit) Bit { return d.And(a^1, b^1) ^ 1 }

func (d *Dom) Xor(a, b Bit) Bit {
	neg := (a ^ b) & 1
	a, b = a&^1, b&^1
	if a > b {
		a, b = b, a
	}
	if a == 0 {
		return b ^ neg
	}
	if a == b {
		return neg
	}
	k := [2]Bit{a, b}
	if r, ok := d.xors[k]; ok {
		return r ^ neg
	}
	r := d.mk(node{kind: nkXor, a: a, b: b})
	d.xors[k] = r
	return r ^ neg
}

func (d *Dom) Mux(c, t, f Bit) Bit {
	if t == f {
		return t
	}
	return d.Or(d.And(c, t), d.And(c^1, f))
}

// ---- terms

func (d *Dom) argKey(v Value) string {
	switch v := v.(type) {
	case uint64:
		return fmt.Sprintf("c%x", v)
	case float64:
		return fmt.Sprintf("f%x", math.Float64bits(v))
	case *BV:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, b := range v.b {
			fmt.Fprintf(&sb, "%d,", b)
		}
		sb.WriteByte(']')
		return sb.String()
	case *FT:
		return fmt.Sprintf("F%d", v.t.id)
	case string:
		return fmt.Sprintf("%q", v)
	case *AStr:
		var sb strings.Builder
		sb.WriteString("s(")
		for _, b := range v.b {
			sb.WriteString(d.argKey(b))
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
		return sb.String()
	case bool:
		if v {
			return "T"
		}
		return "N"
	case ABool:
		return fmt.Sprintf("b%d", v.b)
	}
	panic(fmt.Sprintf("argKey %T", v))
}

func (d *Dom) Term(op string, w int, args ...Value) *Term {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = d.argKey(a)
	}
	switch op { // commutative operators
	case "add", "mul", "fadd", "fmul", "feq":
		if len(ks) == 2 && ks[0] > ks[1] {
			ks[0], ks[1] = ks[1], ks[0]
			args = []Value{args[1], args[0]}
		}
	}
	key := fmt.Sprintf("%s/%d(%s)", op, w, strings.Join(ks, ";"))
	if t, ok := d.terms[key]; ok {
		return t
	}
	t := &Term{id: len(d.tlist), op: op, w: w, args: args, key: key}
	d.tlist = append(d.tlist, t)
	d.terms[key] = t
	return t
}

// TermBV returns the word denoted by a term.
func (d *Dom) TermBV(op string, w int, args ...Value) *BV {
	t := d.Term(op, w, args...)
	r := &BV{make([]Bit, w)}
	for i := range r.b {
		r.b[i] = d.TermBit(t, i)
	}
	return r
}

func (d *Dom) SymBV(name string, w int) *BV {
	r := &BV{make([]Bit, w)}
	for i := range r.b {
		r.b[i] = d.Var(fmt.Sprintf("%s.%d", name, i))
	}
	return r
}

func (d *Dom) SymFloat(name string, w int) *FT {
	return d.floatFromBits(d.SymBV(name, w), w).(*FT)
}

func (d *Dom) floatFromBits(v Value, w int) Value {
	if c, ok := v.(uint64); ok {
		if w == 32 {
			return float64(math.Float32frombits(uint32(c)))
		}
		return math.Float64frombits(c)
	}
	bv := v.(*BV)
	// recognise fbits(t)
	if n := d.nodes[bv.b[0]>>1]; n.kind == nkTerm && n.term.op == "fbits" {
		ok := true
		for i, b := range bv.b {
			m := d.nodes[b>>1]
			if b&1 != 0 || m.kind != nkTerm || m.term != n.term || m.i != i {
				ok = false
				break
			}
		}
		if ok {
			return n.term.args[0]
		}
	}
	return &FT{w, d.Term("ffrom", w, bv)}
}

func (d *Dom) floatBits(v Value, w int) Value {
	if c, ok := v.(float64); ok {
		if w == 32 {
			return uint64(math.Float32bits(float32(c)))
		}
		return math.Float64bits(c)
	}
	f := v.(*FT)
	if f.t.op == "ffrom" {
		return f.t.args[0]
	}
	return d.TermBV("fbits", w, f)
}

func (d *Dom) floatConv(v Value, from, to int) Value {
	if c, ok := v.(float64); ok {
		if to == 32 {
			return float64(float32(c))
		}
		return c
	}
	f := v.(*FT)
	if from == to {
		return f
	}
	if to == 64 {
		return &FT{64, d.Term("f32to64", 64, f)}
	}
	if f.t.op == "f32to64" {
		// the value again, except that conversions quieten signaling NaNs
		x, ok := f.t.args[0].(*FT)
		if !ok || x.t.op != "ffrom" {
			return f.t.args[0]
		}
		b := append([]Bit(nil), lift(x.t.args[0], 32).b...)
		nan := bTrue
		for _, e := range b[23:31] {
			nan = d.And(nan, e)
		}
		zero := bTrue
		for _, m := range b[:22] {
			zero = d.And(zero, m^1)
		}
		b[22] = d.And(b[22]^1, d.And(nan, zero^1)^1) ^ 1
		return d.floatFromBits(lower(&BV{b}), 32)
	}
	return &FT{32, d.Term("f64to32", 32, f)}
}

// ---- words

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func lift(v Value, w int) *BV {
	switch v := v.(type) {
	case *BV:
		return v
	case uint64:
		r := &BV{make([]Bit, w)}
		for i := range r.b {
			if v>>uint(i)&1 != 0 {
				r.b[i] = bTrue
			}
		}
		return r
	}
	panic(fmt.Sprintf("lift %T", v))
}

// lower turns a fully constant word into uint64.
func lower(v *BV) Value {
	var c uint64
	for i, b := range v.b {
		switch b {
		case bTrue:
			c |= 1 << uint(i)
		case bFalse:
		default:
			return v
		}
	}
	return c
}

func (d *Dom) bitwise(op string, x, y Value, w int) Value {
	a, b := lift(x, w), lift(y, w)
	r := &BV{make([]Bit, w)}
	for i := range r.b {
		switch op {
		case "and":
			r.b[i] = d.And(a.b[i], b.b[i])
		case "or":
			r.b[i] = d.Or(a.b[i], b.b[i])
		case "xor":
			r.b[i] = d.Xor(a.b[i], b.b[i])
		case "andnot":
			r.b[i] = d.And(a.b[i], b.b[i]^1)
		}
	}
	return lower(r)
}

func (d *Dom) not(x Value, w int) Value {
	a := lift(x, w)
	r := &BV{make([]Bit, w)}
	for i := range r.b {
		r.b[i] = a.b[i] ^ 1
	}
	return lower(r)
}

func (d *Dom) shl(x Value, n uint64, w int) Value {
	a := lift(x, w)
	r := &BV{make([]Bit, w)}
	for i := range r.b {
		if uint64(i) >= n {
			r.b[i] = a.b[uint64(i)-n]
		}
	}
	return lower(r)
}

func (d *Dom) shr(x Value, n uint64, w int, signed bool) Value {
	a := lift(x, w)
	r := &BV{make([]Bit, w)}
	for i := range r.b {
		if n < uint64(w) && uint64(i)+n < uint64(w) {
			r.b[i] = a.b[uint64(i)+n]
		} else if signed {
			r.b[i] = a.b[w-1]
		}
	}
	return lower(r)
}

// resize converts a word between widths; signed selects sign extension.
func (d *Dom) resize(x Value, from, to int, signed bool) Value {
	if c, ok := x.(uint64); ok {
		if signed && from < 64 && c>>uint(from-1)&1 != 0 {
			c |= ^mask(from)
		}
		return c & mask(to)
	}
	a := x.(*BV)
	r := &BV{make([]Bit, to)}
	for i := range r.b {
		switch {
		case i < from:
			r.b[i] = a.b[i]
		case signed:
			r.b[i] = a.b[from-1]
		}
	}
	return lower(r)
}

func (d *Dom) add(x, y Value, w int) Value {
	if c, ok := y.(uint64); ok && c == 0 {
		return x
	}
	if c, ok := x.(uint64); ok && c == 0 {
		return y
	}
	a, b := lift(x, w), lift(y, w)
	disjoint := true
	for i := range a.b {
		if a.b[i] != bFalse && b.b[i] != bFalse {
			disjoint = false
			break
		}
	}
	if disjoint {
		return d.bitwise("or", a, b, w)
	}
	// (t + c1) + c2
	if c, ok := y.(uint64); ok {
		if t := d.asTerm(x); t != nil && t.op == "add" && t.w == w {
			for i, arg := range t.args {
				if c1, ok := arg.(uint64); ok {
					return d.add(t.args[1-i], (c+c1)&mask(w), w)
				}
			}
		}
		// x - (x with low bits...) left symbolic
	} else if _, ok := x.(uint64); ok {
		return d.add(y, x, w)
	}
	return d.TermBV("add", w, x, y)
}

// asTerm recognises a word that is exactly the value of one term.
func (d *Dom) asTerm(v Value) *Term {
	bv, ok := v.(*BV)
	if !ok {
		return nil
	}
	n := d.nodes[bv.b[0]>>1]
	if n.kind != nkTerm || n.term.w != len(bv.b) {
		return nil
	}
	for i, b := range bv.b {
		m := d.nodes[b>>1]
		if b&1 != 0 || m.kind != nkTerm || m.term != n.term || m.i != i {
			return nil
		}
	}
	return n.term
}

func (d *Dom) eq(x, y Value, w int) Bit {
	a, b := lift(x, w), lift(y, w)
	r := bTrue
	for i := range a.b {
		r = d.And(r, d.Xor(a.b[i], b.b[i])^1)
		if r == bFalse {
			return r
		}
	}
	return r
}

// lt is x < y.
func (d *Dom) lt(x, y Value, w int, signed bool) Bit {
	_, xc := x.(uint64)
	_, yc := y.(uint64)
	a, b := lift(x, w), lift(y, w)
	if d.argKey(a) == d.argKey(b) {
		return bFalse
	}
	if !xc && !yc {
		op := "ult"
		if signed {
			op = "slt"
		}
		// identical high bits do not matter to precision here
		return d.TermBit(d.Term(op, 1, x, y), 0)
	}
	r := bFalse
	for i := 0; i < w; i++ {
		p, q := a.b[i], b.b[i]
		if signed && i == w-1 {
			p, q = q, p
		}
		// r = (!p & q) | (p==q & r)
		r = d.Or(d.And(p^1, q), d.And(d.Xor(p, q)^1, r))
	}
	return r
}

// ---- normalisation under path assumptions

func (d *Dom) norm(b Bit) Bit {
	if isConstBit(b) {
		return b
	}
	n := int32(b >> 1)
	if len(d.assume) == 0 {
		return b
	}
	if r, ok := d.memo[n]; ok {
		return r ^ (b & 1)
	}
	r := d.normNode(n)
	d.memo[n] = r
	return r ^ (b & 1)
}

func (d *Dom) normNode(n int32) Bit {
	if v, ok := d.assume[n]; ok {
		if v {
			return bTrue
		}
		return bFalse
	}
	nd := d.nodes[n]
	r := Bit(n) << 1
	switch nd.kind {
	case nkAnd:
		r = d.And(d.norm(nd.a), d.norm(nd.b))
	case nkXor:
		r = d.Xor(d.norm(nd.a), d.norm(nd.b))
	case nkTerm:
		changed := false
		args := make([]Value, len(nd.term.args))
		for i, a := range nd.term.args {
			args[i] = d.normVal(a)
			if d.argKey(args[i]) != d.argKey(a) {
				changed = true
			}
		}
		if changed {
			v := d.evalTerm(nd.term.op, nd.term.w, args)
			switch v := v.(type) {
			case uint64:
				r = Bit(v >> uint(nd.i) & 1)
			case *BV:
				r = v.b[nd.i]
			}
		}
	}
	if r>>1 != Bit(n) && !isConstBit(r) {
		if v, ok := d.assume[int32(r>>1)]; ok {
			if v {
				return bTrue ^ (r & 1)
			}
			return bFalse ^ (r & 1)
		}
	}
	return r
}

func (d *Dom) normVal(v Value) Value {
	switch v := v.(type) {
	case *BV:
		if len(d.assume) == 0 {
			if d.conc != nil {
				return lower(v)
			}
			return v
		}
		var r *BV
		for i, b := range v.b {
			nb := d.norm(b)
			if nb != b && r == nil {
				r = &BV{append([]Bit(nil), v.b...)}
			}
			if r != nil {
				r.b[i] = nb
			}
		}
		if r == nil {
			return lower(v)
		}
		return lower(r)
	case ABool:
		switch b := d.norm(v.b); b {
		case bTrue:
			return true
		case bFalse:
			return false
		default:
			return ABool{b}
		}
	case *FT:
		if len(d.assume) == 0 {
			return v
		}
		args := make([]Value, len(v.t.args))
		for i, a := range v.t.args {
			args[i] = d.normVal(a)
		}
		switch v.t.op {
		case "ffrom":
			return d.floatFromBits(args[0], v.w)
		case "f32to64":
			return d.floatConv(args[0], 32, 64)
		case "f64to32":
			return d.floatConv(args[0], 64, 32)
		}
		return &FT{v.w, d.Term(v.t.op, v.t.w, args...)}
	case *CT:
		return &CT{d.normVal(v.re), d.normVal(v.im)}
	case *AStr:
		bs := make([]Value, len(v.b))
		all := true
		for i, b := range v.b {
			bs[i] = d.normVal(b)
			if _, ok := bs[i].(uint64); !ok {
				all = false
			}
		}
		if all {
			return strFromBytes(bs)
		}
		return &AStr{bs}
	}
	return v
}

// evalTerm recomputes a term on (more) constant arguments.
func (d *Dom) evalTerm(op string, w int, args []Value) Value {
	switch op {
	case "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "ushr", "sshr":
		return d.arith(op, args[0], args[1], w)
	case "ult", "slt":
		aw := 64
		if bv, ok := args[0].(*BV); ok {
			aw = len(bv.b)
		} else if bv, ok := args[1].(*BV); ok {
			aw = len(bv.b)
		}
		return bitVal(d.lt(args[0], args[1], aw, op == "slt"))
	}
	return d.TermBV(op, w, args...)
}

func bitVal(b Bit) Value {
	return lower(&BV{[]Bit{b}})
}

// Support collects the input bits a literal depends on.
func (d *Dom) Support(b Bit, set map[int32]bool, terms *bool) {
	seen := map[int32]bool{}
	var visit func(b Bit)
	var visitVal func(v Value)
	visitVal = func(v Value) {
		switch v := v.(type) {
		case *BV:
			for _, x := range v.b {
				visit(x)
			}
		case *FT:
			for _, a := range v.t.args {
				visitVal(a)
			}
		case *AStr:
			for _, a := range v.b {
				visitVal(a)
			}
		case ABool:
			visit(v.b)
		}
	}
	visit = func(b Bit) {
		n := int32(b >> 1)
		if n == 0 || seen[n] {
			return
		}
		seen[n] = true
		nd := d.nodes[n]
		switch nd.kind {
		case nkVar:
			set[n] = true
		case nkAnd, nkXor:
			visit(nd.a)
			visit(nd.b)
		case nkTerm:
			if terms != nil {
				*terms = true
			}
			for _, a := range nd.term.args {
				visitVal(a)
			}
		}
	}
	visit(b)
}

// Assume records that literal b holds; it reports false when that contradicts
// earlier assumptions.
func (d *Dom) Assume(b Bit) bool {
	work := []Bit{b}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		b = d.norm(b)
		if b == bTrue {
			continue
		}
		if b == bFalse {
			return false
		}
		d.assume[int32(b>>1)] = b&1 == 0
		d.asList = append(d.asList, b)
		d.memo = map[int32]Bit{}
		nd := d.nodes[b>>1]
		if nd.kind == nkAnd && b&1 == 0 {
			work = append(work, nd.a, nd.b)
		}
		// re-examine composite assumptions
		for _, p := range d.asList {
			pn := d.nodes[p>>1]
			if pn.kind == nkVar {
				continue
			}
			val := d.rebuild(int32(p>>1)) ^ (p & 1)
			if val == bFalse {
				return false
			}
			if val != bTrue && val>>1 != p>>1 {
				if _, known := d.assume[int32(val>>1)]; !known {
					work = append(work, val)
				}
			}
		}
	}
	return true
}

// rebuild normalises the children of a node, ignoring an assumption on itself.
func (d *Dom) rebuild(n int32) Bit {
	v, ok := d.assume[n]
	if ok {
		delete(d.assume, n)
		save := d.memo
		d.memo = map[int32]Bit{}
		r := d.normNode(n)
		d.memo = save
		d.assume[n] = v
		return r
	}
	return d.normNode(n)
}

// ---- printing

func (d *Dom) BitString(b Bit) string {
	s := ""
	if b == bFalse {
		return "0"
	}
	if b == bTrue {
		return "1"
	}
	if b&1 != 0 {
		s = "!"
	}
	n := d.nodes[b>>1]
	switch n.kind {
	case nkVar:
		return s + n.name
	case nkAnd:
		return s + "and(..)"
	case nkXor:
		return s + "xor(..)"
	case nkTerm:
		return fmt.Sprintf("%s%s[%d]", s, d.TermString(n.term), n.i)
	}
	return "?"
}

func (d *Dom) TermString(t *Term) string {
	var as []string
	for _, a := range t.args {
		as = append(as, d.ValString(a))
	}
	return fmt.Sprintf("%s%d(%s)", t.op, t.w, strings.Join(as, ", "))
}

func (d *Dom) ValString(v Value) string {
	switch v := v.(type) {
	case uint64:
		return fmt.Sprintf("%#x", v)
	case float64:
		return fmt.Sprint(v)
	case *BV:
		if t := d.asTerm(v); t != nil {
			return d.TermString(t)
		}
		// runs of one symbol
		var parts []string
		for i := len(v.b) - 1; i >= 0; {
			n := d.nodes[v.b[i]>>1]
			if n.kind == nkVar && v.b[i]&1 == 0 {
				base, idx := splitVar(n.name)
				j := i
				for j > 0 {
					m := d.nodes[v.b[j-1]>>1]
					if m.kind != nkVar || v.b[j-1]&1 != 0 {
						break
					}
					b2, i2 := splitVar(m.name)
					if b2 != base || i2 != idx-(i-(j-1)) {
						break
					}
					j--
				}
				parts = append(parts, fmt.Sprintf("%s<%d:%d>", base, idx, idx-(i-j)))
				i = j - 1
				continue
			}
			parts = append(parts, d.BitString(v.b[i]))
			i--
		}
		return strings.Join(parts, "")
	case *FT:
		return d.TermString(v.t)
	case *CT:
		return "(" + d.ValString(v.re) + "," + d.ValString(v.im) + "i)"
	case ABool:
		return d.BitString(v.b)
	case bool:
		return fmt.Sprint(v)
	case string:
		return fmt.Sprintf("%q", v)
	case *AStr:
		var p []string
		for _, b := range v.b {
			p = append(p, d.ValString(b))
		}
		return "str(" + strings.Join(p, " ") + ")"
	case *OStr:
		return "str<" + v.desc + ">"
	}
	return fmt.Sprintf("%T", v)
}

func splitVar(n string) (string, int) {
	i := strings.LastIndexByte(n, '.')
	idx, err := strconv.Atoi(n[i+1:])
	if i < 0 || err != nil {
		return n, 0
	}
	return n[:i], idx
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
