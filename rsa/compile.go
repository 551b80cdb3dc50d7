package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type getter func(fr *frame) Value
type op func(e *Engine, fr *frame)

type phi struct {
	reg   int
	edges []getter
}

type block struct {
	src   *ssa.BasicBlock
	phis  []phi
	ops   []op
	ins   []ssa.Instruction
	term  func(e *Engine, fr *frame) int // next block, -1 return
	termI ssa.Instruction
}

type code struct {
	fn       *ssa.Function
	native   *Native
	fold     interface{} // host function for constant arguments
	nregs    int
	params   []int
	blocks   []*block
	recover  int
	hasDefer bool
	merge    []int
	pure     []bool
}

func (e *Engine) codeOf(fn *ssa.Function) *code {
	if c, ok := e.code[fn]; ok {
		return c
	}
	c := &code{fn: fn, recover: -1}
	e.code[fn] = c
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if n, ok := natives[name]; ok {
		c.native = &Native{name, n}
		return c
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic != "" && skipInit(fn.Pkg.Pkg.Path()) {
		c.native = &Native{name, func(e *Engine, fr *frame, args []Value) Value { return nil }}
		return c
	}
	if h, ok := hosts[name]; ok && fn.Blocks != nil {
		c.fold = h
	}
	if fn.Blocks == nil {
		c.native = &Native{name, func(e *Engine, fr *frame, args []Value) Value {
			e.unsupported("no model for external function %s", name)
			return nil
		}}
		return c
	}
	e.compile(c)
	return c
}

type compiler struct {
	e    *Engine
	c    *code
	regs map[ssa.Value]int
	fv   map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.c.nregs
	c.c.nregs++
	c.regs[v] = r
	return r
}

func constValue(k *ssa.Const) Value {
	if k.Value == nil {
		return zero(k.Type())
	}
	kind, w, _ := basicInfo(k.Type())
	switch kind {
	case kBool:
		return constant.BoolVal(k.Value)
	case kInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	case kFloat:
		f, _ := constant.Float64Val(k.Value)
		if w == 32 {
			f32, _ := constant.Float32Val(k.Value)
			return float64(f32)
		}
		return f
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	case kString:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case kUnsafe:
		return (*Value)(nil)
	}
	panic(fmt.Sprintf("constValue %s", k))
}

func (c *compiler) get(v ssa.Value) getter {
	switch v := v.(type) {
	case *ssa.Const:
		x := constValue(v)
		return func(*frame) Value { return x }
	case *ssa.Function:
		return func(*frame) Value { return v }
	case *ssa.Global:
		p := c.e.global(v)
		if c.e.prog.uninitialised(v) {
			return func(*frame) Value {
				c.e.unsupported("use of %s, whose initialiser is not analysed", v)
				return nil
			}
		}
		return func(*frame) Value { return p }
	case *ssa.FreeVar:
		i := c.fv[v]
		return func(fr *frame) Value { return fr.env[i] }
	case *ssa.Builtin:
		return func(*frame) Value { return v }
	}
	r := c.reg(v)
	return func(fr *frame) Value { return fr.regs[r] }
}

func (e *Engine) global(g *ssa.Global) *Value {
	if p, ok := e.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	e.globals[g] = p
	return p
}

func (e *Engine) compile(cd *code) {
	fn := cd.fn
	c := &compiler{e: e, c: cd, regs: map[ssa.Value]int{}, fv: map[ssa.Value]int{}}
	for i, f := range fn.FreeVars {
		c.fv[f] = i
	}
	for _, p := range fn.Params {
		cd.params = append(cd.params, c.reg(p))
	}
	for _, b := range fn.Blocks {
		nb := &block{src: b}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				ph := phi{reg: c.reg(p)}
				for _, ed := range p.Edges {
					ph.edges = append(ph.edges, c.get(ed))
				}
				nb.phis = append(nb.phis, ph)
				continue
			}
			switch ins := ins.(type) {
			case *ssa.If:
				cond := c.get(ins.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				nb.termI = ins
				bi := b.Index
				nb.term = func(e *Engine, fr *frame) int {
					v := cond(fr)
					if a, ok := v.(ABool); ok {
						if c := e.dom.norm(a.b); isConstBit(c) {
							v = c == bTrue
						} else if n, ok := e.tryJoin(fr, c, bi, t, f); ok {
							return n
						}
					}
					if e.decideV(v) {
						return t
					}
					return f
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				nb.termI = ins
				nb.term = func(e *Engine, fr *frame) int { return t }
			case *ssa.Return:
				nb.termI = ins
				switch len(ins.Results) {
				case 0:
					nb.term = func(e *Engine, fr *frame) int { fr.result = nil; return -1 }
				case 1:
					g := c.get(ins.Results[0])
					nb.term = func(e *Engine, fr *frame) int { fr.result = g(fr); return -1 }
				default:
					var gs []getter
					for _, r := range ins.Results {
						gs = append(gs, c.get(r))
					}
					nb.term = func(e *Engine, fr *frame) int {
						t := make(Tuple, len(gs))
						for i, g := range gs {
							t[i] = g(fr)
						}
						fr.result = t
						return -1
					}
				}
			case *ssa.Panic:
				g := c.get(ins.X)
				nb.termI = ins
				nb.term = func(e *Engine, fr *frame) int {
					v := g(fr).(Iface)
					if v.T == nil {
						panic(targetPanic{e.prog.runtimeError("panic called with nil argument")})
					}
					panic(targetPanic{v})
				}
			case *ssa.DebugRef:
			case *ssa.Defer:
				cd.hasDefer = true
				nb.ops = append(nb.ops, c.deferOp(ins))
				nb.ins = append(nb.ins, ins)
			default:
				o := c.instr(ins)
				if o != nil {
					nb.ops = append(nb.ops, o)
					nb.ins = append(nb.ins, ins)
				}
			}
		}
		cd.blocks = append(cd.blocks, nb)
	}
	if fn.Recover != nil {
		cd.recover = fn.Recover.Index
		cd.hasDefer = true
	}
}

func (e *Engine) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if fn == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	c := e.codeOf(fn)
	if c.native != nil {
		return c.native.f(e, caller, args)
	}
	if c.fold != nil {
		if r, ok := hostCall(c.fold, e.normAll(args)); ok {
			return r
		}
	}
	e.depth++
	if e.depth > e.maxDepth {
		panic(abort{"depth", "unbounded recursion (call depth " + fmt.Sprint(e.maxDepth) + ") in " + fn.String()})
	}
	fr := &frame{fn: fn, code: c, caller: caller, regs: make([]Value, c.nregs), env: env, prev: -1}
	for i, p := range c.params {
		fr.regs[p] = args[i]
	}
	e.fr = fr
	if !c.hasDefer {
		e.exec(fr)
	} else {
		depth := e.depth
		for fr.block >= 0 {
			e.runProtected(fr, depth)
		}
	}
	e.fr = caller
	e.depth--
	return fr.result
}

func (e *Engine) runProtected(fr *frame, depth int) {
	normal := false
	defer func() {
		if normal {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		if !e.repanic {
			e.lastTrace = e.traceFrom(e.fr, 14)
		}
		e.fr = fr
		e.depth = depth
		fr.panicking = true
		fr.pv = tp
		e.repanic = true
		e.runDefers(fr)
		e.repanic = false
		if fr.code.recover >= 0 {
			fr.prev = -1
			fr.block = fr.code.recover
		} else {
			fr.block = -1
			fr.result = zeroResult(fr.fn)
		}
	}()
	e.exec(fr)
	normal = true
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (e *Engine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		e.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (e *Engine) runDefer(fr *frame, d *deferred) {
	ok := false
	depth := e.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, is := r.(targetPanic); !is {
			panic(r)
		}
		e.fr = fr
		e.depth = depth
		fr.panicking = true
		fr.pv = r
	}()
	if d.builtin != nil {
		e.builtin(fr, d.builtin, d.args, d.call)
	} else if d.inv != nil {
		e.invoke(fr, d.recv, d.inv, d.args)
	} else {
		e.callValue(fr, d.fn, d.args)
	}
	ok = true
}

func (e *Engine) exec(fr *frame) {
	for fr.block >= 0 {
		e.step(fr)
	}
}

// step executes the current block.
func (e *Engine) step(fr *frame) {
	b := fr.code.blocks[fr.block]
	e.steps += int64(len(b.ops)) + 1
	if e.steps > e.maxSteps {
		panic(abort{"steps", fmt.Sprintf("no termination within %d abstract steps", e.maxSteps)})
	}
	if e.steps > 3000000 && e.stop != nil && e.steps-e.asked > 1000000 {
		e.asked = e.steps
		if why := e.stop(); why != "" {
			panic(abort{"budget", why})
		}
	}
	if e.cov != nil {
		e.cov[b.src] = true
	}
	if fr.hasJoined {
		for i, p := range b.phis {
			fr.regs[p.reg] = fr.joined[i]
		}
		fr.hasJoined, fr.joined = false, nil
	} else if len(b.phis) > 0 {
		pi := b.predIndex(fr.prev)
		if len(b.phis) == 1 {
			fr.regs[b.phis[0].reg] = b.phis[0].edges[pi](fr)
		} else {
			tmp := make([]Value, len(b.phis))
			for i, p := range b.phis {
				tmp[i] = p.edges[pi](fr)
			}
			for i, p := range b.phis {
				fr.regs[p.reg] = tmp[i]
			}
		}
	}
	for i, o := range b.ops {
		fr.cur = b.ins[i]
		o(e, fr)
	}
	fr.cur = b.termI
	n := b.term(e, fr)
	fr.prev = fr.block
	fr.block = n
}

// callValue calls any function value.
func (e *Engine) callValue(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return e.callSSA(fr, f, args, nil)
	case *Closure:
		if f == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return e.callSSA(fr, f.Fn, args, f.Env)
	case *Native:
		if f == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return f.f(e, fr, args)
	}
	panic(fmt.Sprintf("callValue %T", fn))
}

// invoke calls an interface method.
func (e *Engine) invoke(fr *frame, recv Iface, m *types.Func, args []Value) Value {
	if recv.T == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	if rt, ok := recv.V.(RT); ok {
		f, ok := rtypeMethods[m.Name()]
		if !ok {
			e.unsupported("reflect.Type.%s", m.Name())
		}
		return f(e, fr, rt.T, args)
	}
	f := e.method(recv.T, m)
	if f == nil {
		panic(fmt.Sprintf("no method %s on %s", m.Name(), recv.T))
	}
	return e.callValue(fr, f, append([]Value{recv.V}, args...))
}

// method finds the function implementing m for dynamic type T; the result
// takes the receiver as its first argument.
func (e *Engine) method(T types.Type, m *types.Func) Value {
	return e.methodByName(T, m.Pkg(), m.Name())
}

func (e *Engine) methodByName(T types.Type, pkg *types.Package, name string) Value {
	ms := e.msets.MethodSet(T)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	obj := sel.Obj().(*types.Func)
	if n, ok := e.prog.catalogMethods[obj]; ok {
		idx := sel.Index()
		return &Native{n.name, func(e *Engine, fr *frame, args []Value) Value {
			recv := e.walkRecv(T, args[0], idx[:len(idx)-1], obj)
			return n.f(e, fr, append([]Value{recv}, args[1:]...))
		}}
	}
	if _, isIface := obj.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isIface {
		idx := sel.Index()
		return &Native{obj.FullName(), func(e *Engine, fr *frame, args []Value) Value {
			recv := e.walkPath(T, args[0], idx[:len(idx)-1])
			return e.invoke(fr, recv.(Iface), obj, args[1:])
		}}
	}
	if f := e.prog.ssa.MethodValue(sel); f != nil {
		return f
	}
	return nil
}

// walkPath follows embedded field indices from a value of type T.
func (e *Engine) walkPath(T types.Type, v Value, idx []int) Value {
	for _, i := range idx {
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T = p.Elem()
			pv := v.(*Value)
			if pv == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			v = *pv
		}
		v = v.(Struct)[i]
		T = T.Underlying().(*types.Struct).Field(i).Type()
	}
	return v
}

// walkRecv finds the receiver for a promoted catalogue method.
func (e *Engine) walkRecv(T types.Type, v Value, idx []int, obj *types.Func) Value {
	recvT := obj.Type().(*types.Signature).Recv().Type()
	_, wantPtr := recvT.(*types.Pointer)
	cur := T
	var addr *Value
	if p, ok := cur.Underlying().(*types.Pointer); ok {
		if _, named := cur.(*types.Named); !named {
			addr = v.(*Value)
			cur = p.Elem()
			if addr == nil && (len(idx) > 0 || !wantPtr) {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			if addr != nil {
				v = *addr
			}
		}
	}
	for _, i := range idx {
		if p, ok := cur.Underlying().(*types.Pointer); ok {
			addr = v.(*Value)
			if addr == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			v = *addr
			cur = p.Elem()
		}
		s := v.(Struct)
		if addr != nil {
			addr = &s[i]
		}
		v = s[i]
		cur = cur.Underlying().(*types.Struct).Field(i).Type()
	}
	if wantPtr {
		if _, ok := cur.Underlying().(*types.Pointer); ok && addr == nil {
			return v
		}
		if p, ok := cur.Underlying().(*types.Pointer); ok && types.Identical(p, recvT) {
			return v
		}
		return addr
	}
	if p, ok := cur.Underlying().(*types.Pointer); ok && !types.Identical(cur, recvT) {
		_ = p
		a := v.(*Value)
		if a == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*a)
	}
	return copyVal(v)
}

func (c *compiler) callArgs(cc *ssa.CallCommon) []getter {
	var gs []getter
	for _, a := range cc.Args {
		gs = append(gs, c.get(a))
	}
	return gs
}

func evalArgs(fr *frame, gs []getter) []Value {
	r := make([]Value, len(gs))
	for i, g := range gs {
		r[i] = g(fr)
	}
	return r
}

func (c *compiler) deferOp(ins *ssa.Defer) op {
	cc := &ins.Call
	gs := c.callArgs(cc)
	if cc.IsInvoke() {
		rg := c.get(cc.Value)
		return func(e *Engine, fr *frame) {
			fr.defers = append(fr.defers, &deferred{inv: cc.Method, recv: rg(fr).(Iface), args: evalArgs(fr, gs)})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(e *Engine, fr *frame) {
			fr.defers = append(fr.defers, &deferred{builtin: b, args: evalArgs(fr, gs), call: cc})
		}
	}
	fg := c.get(cc.Value)
	return func(e *Engine, fr *frame) {
		fr.defers = append(fr.defers, &deferred{fn: fg(fr), args: evalArgs(fr, gs)})
	}
}

func (c *compiler) instr(ins ssa.Instruction) op {
	e := c.e
	_ = e
	switch ins := ins.(type) {
	case *ssa.Alloc:
		r := c.reg(ins)
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		return func(e *Engine, fr *frame) {
			p := new(Value)
			*p = zero(t)
			fr.regs[r] = p
		}
	case *ssa.Call:
		r := c.reg(ins)
		cc := &ins.Call
		gs := c.callArgs(cc)
		if cc.IsInvoke() {
			rg := c.get(cc.Value)
			m := cc.Method
			return func(e *Engine, fr *frame) {
				fr.regs[r] = e.invoke(fr, rg(fr).(Iface), m, evalArgs(fr, gs))
				e.fr = fr
			}
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return func(e *Engine, fr *frame) {
				fr.regs[r] = e.builtin(fr, b, evalArgs(fr, gs), cc)
			}
		}
		if f, ok := cc.Value.(*ssa.Function); ok {
			return func(e *Engine, fr *frame) {
				fr.regs[r] = e.callSSA(fr, f, evalArgs(fr, gs), nil)
				e.fr = fr
			}
		}
		fg := c.get(cc.Value)
		return func(e *Engine, fr *frame) {
			fr.regs[r] = e.callValue(fr, fg(fr), evalArgs(fr, gs))
			e.fr = fr
		}
	case *ssa.BinOp:
		r := c.reg(ins)
		x, y := c.get(ins.X), c.get(ins.Y)
		f := binop(ins.Op, ins.X.Type(), ins.Y.Type())
		return func(e *Engine, fr *frame) { fr.regs[r] = f(e, x(fr), y(fr)) }
	case *ssa.UnOp:
		r := c.reg(ins)
		x := c.get(ins.X)
		switch ins.Op {
		case token.MUL:
			return func(e *Engine, fr *frame) {
				p := x(fr).(*Value)
				if p == nil {
					e.rtPanic("invalid memory address or nil pointer dereference")
				}
				fr.regs[r] = e.load(p)
			}
		case token.NOT:
			return func(e *Engine, fr *frame) { fr.regs[r] = abool(boolBit(x(fr)).Not()) }
		case token.SUB:
			k, w, _ := basicInfo(ins.X.Type())
			switch k {
			case kInt:
				return func(e *Engine, fr *frame) { fr.regs[r] = e.dom.arith("sub", uint64(0), x(fr), w) }
			case kFloat:
				return func(e *Engine, fr *frame) { fr.regs[r] = e.dom.fneg(x(fr), w) }
			case kComplex:
				return func(e *Engine, fr *frame) {
					re, im := realImag(x(fr))
					fr.regs[r] = mkComplex(e.dom.fneg(re, w/2), e.dom.fneg(im, w/2))
				}
			}
		case token.XOR:
			_, w, _ := basicInfo(ins.X.Type())
			return func(e *Engine, fr *frame) { fr.regs[r] = e.dom.not(x(fr), w) }
		}
		return func(e *Engine, fr *frame) { e.unsupported("unary %s", ins) }
	case *ssa.ChangeInterface:
		r, x := c.reg(ins), c.get(ins.X)
		return func(e *Engine, fr *frame) { fr.regs[r] = x(fr) }
	case *ssa.ChangeType:
		r, x := c.reg(ins), c.get(ins.X)
		return func(e *Engine, fr *frame) { fr.regs[r] = x(fr) }
	case *ssa.Convert:
		r, x := c.reg(ins), c.get(ins.X)
		from, to := ins.X.Type(), ins.Type()
		return func(e *Engine, fr *frame) { fr.regs[r] = e.convert(x(fr), from, to) }
	case *ssa.MakeInterface:
		r, x := c.reg(ins), c.get(ins.X)
		t := ins.X.Type()
		return func(e *Engine, fr *frame) { fr.regs[r] = Iface{t, x(fr)} }
	case *ssa.Extract:
		r, x := c.reg(ins), c.get(ins.Tuple)
		i := ins.Index
		return func(e *Engine, fr *frame) { fr.regs[r] = x(fr).(Tuple)[i] }
	case *ssa.Field:
		r, x := c.reg(ins), c.get(ins.X)
		i := ins.Field
		return func(e *Engine, fr *frame) { fr.regs[r] = x(fr).(Struct)[i] }
	case *ssa.FieldAddr:
		r, x := c.reg(ins), c.get(ins.X)
		i := ins.Field
		return func(e *Engine, fr *frame) {
			p := x(fr).(*Value)
			if p == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				e.unsupported("field of opaque %T", *p)
			}
			fr.regs[r] = &s[i]
		}
	case *ssa.Index:
		r, x, ix := c.reg(ins), c.get(ins.X), c.get(ins.Index)
		it := ins.Index.Type()
		return func(e *Engine, fr *frame) {
			v := x(fr)
			switch v := v.(type) {
			case Array:
				i := e.index(ix(fr), it, len(v))
				fr.regs[r] = v[i]
			default:
				bs, ok := strBytes(v)
				if !ok {
					e.unsupported("index of opaque string")
				}
				i := e.index(ix(fr), it, len(bs))
				fr.regs[r] = bs[i]
			}
		}
	case *ssa.IndexAddr:
		r, x, ix := c.reg(ins), c.get(ins.X), c.get(ins.Index)
		it := ins.Index.Type()
		return func(e *Engine, fr *frame) {
			switch v := x(fr).(type) {
			case Slice:
				i := e.index(ix(fr), it, len(v))
				fr.regs[r] = &v[i]
			case *Value:
				if v == nil {
					e.rtPanic("invalid memory address or nil pointer dereference")
				}
				a := (*v).(Array)
				i := e.index(ix(fr), it, len(a))
				fr.regs[r] = &a[i]
			}
		}
	case *ssa.Lookup:
		r, x, ix := c.reg(ins), c.get(ins.X), c.get(ins.Index)
		it := ins.Index.Type()
		if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
			return func(e *Engine, fr *frame) {
				bs, ok := strBytes(x(fr))
				if !ok {
					e.unsupported("index of opaque string")
				}
				fr.regs[r] = bs[e.index(ix(fr), it, len(bs))]
			}
		}
		mt := ins.X.Type().Underlying().(*types.Map)
		return func(e *Engine, fr *frame) {
			m := x(fr).(*Map)
			v, ok := e.mapGet(m, mt.Key(), ix(fr))
			if !ok {
				v = zero(mt.Elem())
			}
			if ins.CommaOk {
				fr.regs[r] = Tuple{v, ok}
			} else {
				fr.regs[r] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.get(ins.Map), c.get(ins.Key), c.get(ins.Value)
		kt := ins.Map.Type().Underlying().(*types.Map).Key()
		return func(e *Engine, fr *frame) { e.mapPut(m(fr).(*Map), kt, k(fr), v(fr)) }
	case *ssa.MakeMap:
		r := c.reg(ins)
		return func(e *Engine, fr *frame) { fr.regs[r] = newMap() }
	case *ssa.MakeSlice:
		r, ln, cp := c.reg(ins), c.get(ins.Len), c.get(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return func(e *Engine, fr *frame) {
			n, m := e.bounded(ln(fr), e.allocLimit()), e.bounded(cp(fr), e.allocLimit())
			fr.regs[r] = e.makeSlice(et, n, m)
		}
	case *ssa.MakeClosure:
		r := c.reg(ins)
		var gs []getter
		for _, b := range ins.Bindings {
			gs = append(gs, c.get(b))
		}
		f := ins.Fn.(*ssa.Function)
		return func(e *Engine, fr *frame) { fr.regs[r] = &Closure{f, evalArgs(fr, gs)} }
	case *ssa.Slice:
		r, x := c.reg(ins), c.get(ins.X)
		var lo, hi, mx getter
		if ins.Low != nil {
			lo = c.get(ins.Low)
		}
		if ins.High != nil {
			hi = c.get(ins.High)
		}
		if ins.Max != nil {
			mx = c.get(ins.Max)
		}
		return func(e *Engine, fr *frame) {
			var l, h, m *int64
			v := x(fr)
			ev := func(g getter) *int64 {
				if g == nil {
					return nil
				}
				i := e.dom.normVal(g(fr))
				max := int64(1 << 20)
				if _, ok := i.(uint64); !ok {
					if s, ok := v.(Slice); ok {
						max = int64(cap(s))
					} else if b, ok := strBytes(v); ok {
						max = int64(len(b))
					}
				}
				n := e.bounded(i, max)
				return &n
			}
			l, h, m = ev(lo), ev(hi), ev(mx)
			fr.regs[r] = e.slice(v, l, h, m)
		}
	case *ssa.Store:
		a, v := c.get(ins.Addr), c.get(ins.Val)
		ct, outside := scalar(ins.Val.Type())
		return func(e *Engine, fr *frame) {
			p := a(fr).(*Value)
			if p == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			if e.spec > 0 && outside {
				e.specT[p] = ct
			}
			e.store(p, v(fr))
		}
	case *ssa.TypeAssert:
		r, x := c.reg(ins), c.get(ins.X)
		return func(e *Engine, fr *frame) { fr.regs[r] = e.typeAssert(x(fr).(Iface), ins.AssertedType, ins.CommaOk) }
	case *ssa.RunDefers:
		return func(e *Engine, fr *frame) { e.runDefers(fr) }
	case *ssa.Range:
		r, x := c.reg(ins), c.get(ins.X)
		return func(e *Engine, fr *frame) { fr.regs[r] = e.rangeOver(x(fr)) }
	case *ssa.Next:
		r, x := c.reg(ins), c.get(ins.Iter)
		return func(e *Engine, fr *frame) { fr.regs[r] = x(fr).(*iter).next(e) }
	case *ssa.SliceToArrayPointer:
		r, x := c.reg(ins), c.get(ins.X)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(e *Engine, fr *frame) {
			s := x(fr).(Slice)
			if len(s) < n {
				e.rtPanic("cannot convert slice to array pointer: length too short")
			}
			if s == nil {
				fr.regs[r] = (*Value)(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[r] = p
		}
	}
	return func(e *Engine, fr *frame) { e.unsupported("instruction %T %s", ins, ins) }
}

// index checks bounds and returns a constant index.
func (e *Engine) index(v Value, t types.Type, n int) int {
	_, w, signed := basicInfo(t)
	v = e.dom.normVal(v)
	if c, ok := v.(uint64); ok {
		i := int64(c)
		if signed {
			i = sext(c, w)
		}
		if i < 0 || i >= int64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	// out of range?
	v64 := e.dom.resize(v, w, 64, signed)
	if !e.decide(e.dom.lt(v64, uint64(n), 64, false)) {
		e.rtPanic("index out of range")
	}
	// partition by equality so that only feasible indices are enumerated
	for i := 0; i < n-1; i++ {
		if e.decide(e.dom.eq(v64, uint64(i), 64)) {
			return i
		}
	}
	return n - 1
}

// bounded is the number v, or some number beyond max if v is that large; the
// trace is partitioned by magnitude first so that only those in range are
// enumerated.
func (e *Engine) bounded(v Value, max int64) int64 {
	v = e.dom.normVal(v)
	if c, ok := v.(uint64); ok {
		return int64(c)
	}
	w := len(v.(*BV).b)
	if w == 64 {
		if e.decide(v.(*BV).b[63]) {
			return -1
		}
	}
	if (w >= 63 || max < 1<<uint(w)) && e.decide(e.dom.lt(uint64(max), v, w, false)) {
		return 1 << 41
	}
	return int64(e.concretize(v))
}

func (e *Engine) allocLimit() int64 {
	if e.maxAlloc > 0 {
		return e.maxAlloc
	}
	return 1 << 20
}

func (e *Engine) makeSlice(et types.Type, n, m int64) Slice {
	if n < 0 {
		e.rtPanic("makeslice: len out of range")
	}
	if m < n {
		e.rtPanic("makeslice: cap out of range")
	}
	if e.maxAlloc > 0 && m > e.maxAlloc {
		panic(abort{"memory", fmt.Sprintf("more than %d elements, for an input that holds fewer", e.maxAlloc)})
	}
	if m > 1<<20 {
		panic(abort{"budget", fmt.Sprintf("allocation of %d elements", m)})
	}
	s := make(Slice, m)
	agg := false
	if k, _, _ := basicInfo(et); k == kStruct || k == kArray {
		agg = true
	}
	var z Value
	if m > 0 {
		z = zero(et)
	}
	for i := range s {
		if agg {
			s[i] = zero(et)
		} else {
			s[i] = z
		}
	}
	return s[:n]
}

func (e *Engine) slice(x Value, l, h, m *int64) Value {
	var n, c int64
	switch v := x.(type) {
	case Slice:
		n, c = int64(len(v)), int64(cap(v))
	case *Value:
		if v == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*v).(Array)
		n = int64(len(a))
		c = n
	default:
		bs, ok := strBytes(x)
		if !ok {
			e.unsupported("slice of opaque string")
		}
		n = int64(len(bs))
		c = n
	}
	lo, hi, mx := int64(0), n, c
	if l != nil {
		lo = *l
	}
	if h != nil {
		hi = *h
	}
	if m != nil {
		mx = *m
	}
	if mx < 0 || mx > c || hi < 0 || hi > mx || lo < 0 || lo > hi {
		e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	switch v := x.(type) {
	case Slice:
		if v == nil {
			return v
		}
		return v[lo:hi:mx]
	case *Value:
		return Slice((*v).(Array))[lo:hi:mx]
	case string:
		return v[lo:hi]
	}
	bs, _ := strBytes(x)
	return strFromBytes(bs[lo:hi])
}

func (e *Engine) typeAssert(x Iface, t types.Type, commaOk bool) Value {
	ok := false
	var v Value
	if x.T != nil {
		if it, isI := t.Underlying().(*types.Interface); isI {
			ok = e.implements(x.T, it)
			v = x
		} else {
			ok = types.Identical(x.T, t)
			v = x.V
		}
	}
	if !ok {
		if !commaOk {
			e.rtPanic(fmt.Sprintf("interface conversion: not %s", t))
		}
		return Tuple{zero(t), false}
	}
	if commaOk {
		return Tuple{v, true}
	}
	return v
}

// ---- range

type iter struct {
	next func(e *Engine) Value
}

func (e *Engine) rangeOver(x Value) *iter {
	switch v := x.(type) {
	case *Map:
		if e.onAccess != nil && v != nil {
			e.mapAccess(v, false)
		}
		i := 0
		var keys []string
		if v != nil {
			keys = append(keys, v.keys...)
			if e.reverseMaps {
				for a, b := 0, len(keys)-1; a < b; a, b = a+1, b-1 {
					keys[a], keys[b] = keys[b], keys[a]
				}
			}
		}
		return &iter{func(e *Engine) Value {
			for i < len(keys) {
				k := keys[i]
				i++
				if ent, ok := v.m[k]; ok {
					return Tuple{true, ent.k, ent.v}
				}
			}
			return Tuple{false, nil, nil}
		}}
	}
	bs, ok := strBytes(x)
	if !ok {
		e.unsupported("range over opaque string")
	}
	i := 0
	return &iter{func(e *Engine) Value {
		if i >= len(bs) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		r, n := e.decodeRune(bs[i:])
		at := i
		i += n
		return Tuple{true, uint64(at), r}
	}}
}

// decodeRune decodes one UTF-8 sequence.
func (e *Engine) decodeRune(bs []Value) (Value, int) {
	b0 := e.dom.normVal(bs[0])
	if c, ok := b0.(uint64); ok && c < 0x80 {
		return c, 1
	}
	if bv, ok := b0.(*BV); ok {
		if !e.decide(bv.b[7]) {
			return e.dom.resize(e.dom.normVal(b0), 8, 32, false), 1
		}
	}
	// multi-byte: needs constants
	var buf []byte
	for i := 0; i < len(bs) && i < 4; i++ {
		c := byte(e.concretize(bs[i]))
		buf = append(buf, c)
		if c < 0x80 {
			break
		}
	}
	r, n := decodeRuneHost(buf)
	return uint64(uint32(r)), n
}

// ---- maps

func (e *Engine) keyString(t types.Type, v Value) (string, bool) {
	switch v := v.(type) {
	case bool:
		return fmt.Sprintf("b%v", v), true
	case uint64:
		return fmt.Sprintf("i%x", v), true
	case float64:
		if v == 0 {
			v = 0
		}
		return fmt.Sprintf("f%x", math.Float64bits(v)), true
	case string:
		return "s" + v, true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case RT:
		return fmt.Sprintf("t%d", e.typeID(v.T)), true
	case Iface:
		if v.T == nil {
			return "nil", true
		}
		k, ok := e.keyString(v.T, v.V)
		return fmt.Sprintf("I%d:%s", e.typeID(v.T), k), ok
	case Struct:
		s := "{"
		st := t.Underlying().(*types.Struct)
		for i, f := range v {
			k, ok := e.keyString(st.Field(i).Type(), f)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return s + "}", true
	case Array:
		s := "["
		et := t.Underlying().(*types.Array).Elem()
		for _, f := range v {
			k, ok := e.keyString(et, f)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s,", len(k), k)
		}
		return s + "]", true
	case RV:
		return fmt.Sprintf("v%p", v.P), true
	case Slice, *Map, *Closure, *ssa.Function, *Native:
		e.rtPanic("hash of unhashable type " + t.String())
	}
	return "", false
}

// mapFind locates the canonical key, deciding equality for abstract keys.
func (e *Engine) mapFind(m *Map, kt types.Type, k Value) (string, bool) {
	if m == nil {
		return "", false
	}
	k = e.dom.normVal(k)
	ks, ok := e.keyString(kt, k)
	if ok {
		concreteOnly := true
		for _, x := range m.keys {
			if len(x) > 0 && x[0] == '?' {
				concreteOnly = false
			}
		}
		if concreteOnly {
			_, found := m.m[ks]
			return ks, found
		}
	} else {
		ks = "?" + e.dom.ValString(k)
	}
	for _, x := range m.keys {
		if e.decideV(e.equal(kt, m.m[x].k, k)) {
			return x, true
		}
	}
	return ks, false
}

func (e *Engine) mapGet(m *Map, kt types.Type, k Value) (Value, bool) {
	if e.onAccess != nil && m != nil {
		e.mapAccess(m, false)
	}
	ks, found := e.mapFind(m, kt, k)
	if !found {
		return nil, false
	}
	return m.m[ks].v, true
}

func (e *Engine) mapPut(m *Map, kt types.Type, k, v Value) {
	if m == nil {
		panic(targetPanic{e.prog.runtimeError("assignment to entry in nil map")})
	}
	ks, _ := e.mapFind(m, kt, k)
	e.mapSet(m, ks, k, v)
}
