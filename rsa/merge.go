package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: where both arms of an undecided branch have no effects other
// than simple stores, their states are joined instead of partitioning the
// trace, provided that every joined bit stays a literal of the provenance
// domain (no precision is lost and no new expression is built).

type cellType struct {
	k vkind
	w int
}

func scalar(t types.Type) (cellType, bool) {
	k, w, _ := basicInfo(t)
	return cellType{k, w}, k == kBool || k == kInt
}

func pureInstr(ins ssa.Instruction, depth int) bool {
	switch ins := ins.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index,
		*ssa.Extract, *ssa.Phi, *ssa.Slice, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Alloc:
		return true
	case *ssa.UnOp:
		return ins.Op != token.ARROW
	case *ssa.Store:
		_, ok := scalar(ins.Val.Type())
		return ok
	case *ssa.Call:
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		f, ok := ins.Call.Value.(*ssa.Function)
		if !ok || depth == 0 || f.Blocks == nil || f.Recover != nil {
			return false
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !pureInstr(i, depth-1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// ipdoms computes the immediate postdominators of the blocks of fn; the exit
// is len(fn.Blocks).
func ipdoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	sets := make([]map[int]bool, n+1)
	sets[n] = map[int]bool{n: true}
	for i := 0; i < n; i++ {
		sets[i] = map[int]bool{}
		for j := 0; j <= n; j++ {
			sets[i][j] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			succs := []int{n}
			if b := fn.Blocks[i]; len(b.Succs) > 0 {
				succs = succs[:0]
				for _, s := range b.Succs {
					succs = append(succs, s.Index)
				}
			}
			for j := 0; j <= n; j++ {
				if j == i || !sets[i][j] {
					continue
				}
				for _, s := range succs {
					if !sets[s][j] {
						delete(sets[i], j)
						changed = true
						break
					}
				}
			}
		}
	}
	r := make([]int, n)
	for i := range r {
		r[i] = n
		for j := range sets[i] {
			if j != i && len(sets[j]) == len(sets[i])-1 {
				r[i] = j
			}
		}
	}
	return r
}

// mergePoint is the block at which the branch of b can be joined, or -1.
func (c *code) mergePoint(b int) int {
	if c.merge == nil {
		c.merge = make([]int, len(c.blocks))
		for i := range c.merge {
			c.merge[i] = -2
		}
	}
	if c.merge[b] != -2 {
		return c.merge[b]
	}
	c.merge[b] = -1
	if len(c.fn.Blocks) > 400 {
		return -1
	}
	if c.pure == nil {
		c.pure = make([]bool, len(c.blocks))
		for i, bl := range c.fn.Blocks {
			c.pure[i] = true
			for _, ins := range bl.Instrs {
				if !pureInstr(ins, 3) {
					c.pure[i] = false
					break
				}
			}
		}
	}
	var pd []int
	for _, s := range c.fn.Blocks[b].Succs {
		if !c.pure[s.Index] {
			if pd == nil {
				pd = ipdoms(c.fn)
			}
			if pd[b] != s.Index {
				return -1
			}
		}
	}
	if pd == nil {
		pd = ipdoms(c.fn)
	}
	c.merge[b] = pd[b]
	return pd[b]
}

type armState struct {
	phis   []Value
	result Value
	cells  []*Value
	vals   map[*Value]Value
	types  map[*Value]cellType
}

const maxArm = 12

// arm runs one side of a branch up to the join and undoes its effects.
func (e *Engine) arm(fr *frame, from, start, join int) (st armState, ok bool) {
	n := len(e.journal)
	depth := e.depth
	prev, block, cur, result := fr.prev, fr.block, fr.cur, fr.result
	outer := e.specT
	e.specT = map[*Value]cellType{}
	e.spec++
	watch := e.watch
	e.watch = nil
	defer func() {
		r := recover()
		if ok {
			st.vals = map[*Value]Value{}
			st.types = map[*Value]cellType{}
			for _, u := range e.journal[n:] {
				if u.p == nil || u.f != nil {
					ok = false
					break
				}
				if _, w := watch[u.p]; w {
					ok = false
					break
				}
				t, known := e.specT[u.p]
				if !known {
					ok = false
					break
				}
				if _, seen := st.vals[u.p]; !seen {
					st.cells = append(st.cells, u.p)
				}
				st.vals[u.p] = *u.p
				st.types[u.p] = t
			}
		}
		e.rollback(n)
		e.spec--
		e.specT = outer
		e.watch = watch
		fr.prev, fr.block, fr.cur, fr.result = prev, block, cur, result
		e.fr = fr
		e.depth = depth
		switch x := r.(type) {
		case nil:
		case targetPanic:
			ok = false
		case abort:
			ok = false
			if x.kind != "spec" && x.kind != "unsupported" && x.kind != "depth" {
				panic(r)
			}
		default:
			panic(r)
		}
	}()
	fr.prev, fr.block = from, start
	for i := 0; fr.block != join; i++ {
		// a block that dominates the branch defines registers that the other
		// arm and the join may use
		if i > maxArm || !fr.code.pure[fr.block] || fr.code.fn.Blocks[fr.block].Dominates(fr.code.fn.Blocks[from]) {
			return st, false
		}
		e.step(fr)
		if fr.block < 0 {
			if join != len(fr.code.blocks) {
				return st, false
			}
			st.result = fr.result
			return st, true
		}
	}
	b := fr.code.blocks[join]
	for _, p := range b.phis {
		st.phis = append(st.phis, p.edges[b.predIndex(fr.prev)](fr))
	}
	return st, true
}

func (b *block) predIndex(prev int) int {
	for i, p := range b.src.Preds {
		if p.Index == prev {
			return i
		}
	}
	return 0
}

// joinBit is "if c then t else f" when that is a literal.
func (d *Dom) joinBit(c, t, f Bit) (Bit, bool) {
	switch t {
	case c:
		t = bTrue
	case c ^ 1:
		t = bFalse
	}
	switch f {
	case c:
		f = bFalse
	case c ^ 1:
		f = bTrue
	}
	switch {
	case t == f:
		return t, true
	case t == bTrue && f == bFalse:
		return c, true
	case t == bFalse && f == bTrue:
		return c ^ 1, true
	}
	return 0, false
}

func (e *Engine) joinValue(c Bit, x, y Value, ct cellType, known bool) (Value, bool) {
	switch x.(type) {
	case uint64, *BV, bool, ABool:
	default:
		switch a := x.(type) {
		case *Value:
			b, ok := y.(*Value)
			return x, ok && a == b
		case string:
			b, ok := y.(string)
			return x, ok && a == b
		case Iface:
			b, ok := y.(Iface)
			if !ok || a.T == nil && b.T != nil || a.T != nil && b.T == nil {
				return nil, false
			}
			if a.T == nil {
				return x, true
			}
			if !types.Identical(a.T, b.T) {
				return nil, false
			}
			t, sc := scalar(a.T)
			v, ok := e.joinValue(c, a.V, b.V, t, sc)
			return Iface{a.T, v}, ok
		case *ssa.Function:
			b, ok := y.(*ssa.Function)
			return x, ok && a == b
		case Slice:
			b, ok := y.(Slice)
			if !ok || len(a) != len(b) || cap(a) != cap(b) || (a == nil) != (b == nil) {
				return nil, false
			}
			return x, cap(a) == 0 || &a[:1][0] == &b[:1][0]
		case nil:
			return nil, y == nil
		}
		return nil, false
	}
	if x == y {
		return x, true
	}
	if !known {
		return nil, false
	}
	if ct.k == kBool {
		b, ok := e.dom.joinBit(c, e.dom.norm(boolBit(x)), e.dom.norm(boolBit(y)))
		return abool(b), ok
	}
	p, q := lift(e.dom.normVal(x), ct.w), lift(e.dom.normVal(y), ct.w)
	r := &BV{make([]Bit, ct.w)}
	for i := range r.b {
		b, ok := e.dom.joinBit(c, p.b[i], q.b[i])
		if !ok {
			return nil, false
		}
		r.b[i] = b
	}
	return lower(r), true
}

// tryJoin joins the arms of the undecided branch at the end of block b; it
// returns the block to continue with.
func (e *Engine) tryJoin(fr *frame, c Bit, b, t, f int) (int, bool) {
	if e.noJoin {
		return 0, false
	}
	j := fr.code.mergePoint(b)
	if j < 0 {
		return 0, false
	}
	// both arms are run with the same registers; the ones they define are dead
	// in the other arm and after the join, because their blocks do not dominate
	// the branch
	x, ok := e.arm(fr, b, t, j)
	if !ok {
		return 0, false
	}
	y, ok := e.arm(fr, b, f, j)
	if !ok {
		return 0, false
	}
	exit := j == len(fr.code.blocks)
	var phis []Value
	var result Value
	if exit {
		res := fr.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			ct, known := scalar(res.At(0).Type())
			if result, ok = e.joinValue(c, x.result, y.result, ct, known); !ok {
				return 0, false
			}
		default:
			tx, ty := x.result.(Tuple), y.result.(Tuple)
			r := make(Tuple, len(tx))
			for i := range tx {
				ct, known := scalar(res.At(i).Type())
				if r[i], ok = e.joinValue(c, tx[i], ty[i], ct, known); !ok {
					return 0, false
				}
			}
			result = r
		}
	} else {
		i := 0
		for _, ins := range fr.code.blocks[j].src.Instrs {
			p, is := ins.(*ssa.Phi)
			if !is {
				continue
			}
			ct, known := scalar(p.Type())
			v, ok := e.joinValue(c, x.phis[i], y.phis[i], ct, known)
			if !ok {
				return 0, false
			}
			phis = append(phis, v)
			i++
		}
	}
	type write struct {
		p *Value
		v Value
	}
	var ws []write
	join := func(p *Value, ct cellType) bool {
		a, in := x.vals[p]
		if !in {
			a = *p
		}
		b, in := y.vals[p]
		if !in {
			b = *p
		}
		v, ok := e.joinValue(c, a, b, ct, true)
		ws = append(ws, write{p, v})
		return ok
	}
	for _, p := range x.cells {
		if !join(p, x.types[p]) {
			return 0, false
		}
	}
	for _, p := range y.cells {
		if _, in := x.vals[p]; !in && !join(p, y.types[p]) {
			return 0, false
		}
	}
	for _, w := range ws {
		e.set(w.p, w.v)
		if e.spec > 0 {
			if t, in := x.types[w.p]; in {
				e.specT[w.p] = t
			} else {
				e.specT[w.p] = y.types[w.p]
			}
		}
	}
	if exit {
		fr.result = result
		return -1, true
	}
	fr.joined = phis
	fr.hasJoined = true
	return j, true
}
