package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine abstractly executes SSA: it computes, for every instruction reached,
// values in the constant/provenance/Herbrand product domain, partitioning the
// trace at branches the domain cannot decide.
type Engine struct {
	prog *Program
	dom  *Dom

	globals map[*ssa.Global]*Value
	code    map[*ssa.Function]*code

	journal []undo
	fr      *frame // innermost frame
	depth   int
	steps   int64

	// trace partition
	decs  []decision
	dpos  int
	paths int

	// limits
	maxSteps int64
	via      string // implementation of the byte orders handed to the operations
	asked    int64  // steps at which the budget was last looked at
	maxAlloc int64  // elements an allocation may have, or 0
	maxDepth int
	maxPaths int
	stop     func() string // non-empty: give the case up

	// instrumentation
	watch     map[*Value]string // cells that must not be written
	onWatch   func(p *Value, label string)
	onAccess  func(p *Value, write bool)
	trackW    map[*Value]string // last writer position
	cov       map[*ssa.BasicBlock]bool
	locks     map[*Value]*lockState
	onLock    func(p *Value, op string)
	lockErr   []string
	published map[interface{}]bool
	pools     map[*Value][]Value
	oncePtr   map[*Value]bool

	// native caches
	msets   typeutil.MethodSetCache
	implC   map[[2]types.Type]bool
	typeIDs typeutil.Map
	nextID  int
	catalog map[*types.Func]*Native
	asserts int64

	evalSeed *rand.Rand

	repanic     bool
	lastTrace   []string
	mapHook     func(m *Map, write bool)
	syncMaps    map[*Value]*Map
	reverseMaps bool
	mon         *monitor
	mute        bool
	preludes    int
	amnesia     map[interface{}]string // shared objects, whose changes are undone after every operation
	nested      int
	inPrelude   int
	spec        int // depth of speculation on the arms of a branch
	specT       map[*Value]cellType
	noJoin      bool
}

type lockState struct {
	writer  bool
	readers int
	where   string
}

type undo struct {
	p    *Value
	old  Value
	f    func()
	m    *Map
	glob bool
}

// forget undoes what the operation since n did to the state that operations
// share.
func (e *Engine) forget(n int) {
	for i := len(e.journal) - 1; i >= n; i-- {
		u := e.journal[i]
		_, in := e.amnesia[u.p]
		if u.f != nil {
			_, in = e.amnesia[u.m]
			in = in || u.glob || u.m != nil && u.m.synced
		}
		if !in {
			continue
		}
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		e.journal[i] = undo{f: func() {}}
	}
}

type decision struct {
	val    bool
	forced bool
	flip   bool
}

// targetPanic is a panic of the analysed program.
type targetPanic struct{ v Iface }

// abort ends the current path.
type abort struct {
	kind string // "infeasible", "steps", "depth", "unsupported", "budget", "deadlock"
	msg  string
}

func (a abort) String() string { return a.kind + ": " + a.msg }

type frame struct {
	fn          *ssa.Function
	code        *code
	caller      *frame
	regs        []Value
	env         []Value
	block       int
	prev        int
	cur         ssa.Instruction
	defers      []*deferred
	panicking   bool
	recovered   bool
	pv          interface{}
	result      Value
	isDefer     bool // called by run-defers of caller
	nativeWidth int
	hasJoined   bool
	joined      []Value
}

type deferred struct {
	fn      Value
	args    []Value
	inv     *types.Func
	recv    Iface
	builtin *ssa.Builtin
	call    *ssa.CallCommon
}

func newEngine(p *Program) *Engine {
	return &Engine{
		prog: p, dom: newDom(),
		globals:  map[*ssa.Global]*Value{},
		code:     map[*ssa.Function]*code{},
		cov:      map[*ssa.BasicBlock]bool{},
		locks:    map[*Value]*lockState{},
		implC:    map[[2]types.Type]bool{},
		catalog:  map[*types.Func]*Native{},
		pools:    map[*Value][]Value{},
		oncePtr:  map[*Value]bool{},
		maxSteps: 3000000, maxDepth: 1200, maxPaths: 3000,
		evalSeed: rand.New(rand.NewSource(1)),
	}
}

// ---- heap

func (e *Engine) set(p *Value, v Value) {
	if e.watch != nil {
		if l, ok := e.watch[p]; ok && e.onWatch != nil {
			e.onWatch(p, l)
		}
	}
	if e.onAccess != nil {
		e.onAccess(p, true)
	}
	if e.trackW != nil {
		e.trackW[p] = e.where()
	}
	if e.mon != nil {
		e.mon.publish(p, v)
	}
	e.journal = append(e.journal, undo{p: p, old: *p})
	*p = v
}

func (e *Engine) undoable(f func()) {
	e.journal = append(e.journal, undo{f: f, glob: true})
}

func (e *Engine) rollback(n int) {
	for i := len(e.journal) - 1; i >= n; i-- {
		u := e.journal[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		e.journal[i] = undo{}
	}
	e.journal = e.journal[:n]
}

// store writes an aggregate in place, element by element.
func (e *Engine) store(p *Value, v Value) {
	switch old := (*p).(type) {
	case Struct:
		n := v.(Struct)
		for i := range old {
			e.store(&old[i], n[i])
		}
		if len(old) == 0 && e.onAccess != nil {
			e.onAccess(p, true)
		}
		return
	case Array:
		n := v.(Array)
		for i := range old {
			e.store(&old[i], n[i])
		}
		return
	}
	e.set(p, v)
}

func (e *Engine) load(p *Value) Value {
	if e.onAccess != nil {
		e.access(p)
	}
	switch v := (*p).(type) {
	case Struct, Array:
		return copyVal(v)
	default:
		return v
	}
}

func (e *Engine) access(p *Value) {
	e.onAccess(p, false)
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			e.access(&v[i])
		}
	case Array:
		for i := range v {
			e.access(&v[i])
		}
	}
}

func (e *Engine) mapSet(m *Map, key string, k, v Value) {
	if e.watch != nil || e.onAccess != nil {
		e.mapAccess(m, true)
	}
	if e.mon != nil {
		e.mon.publish(m, k, v)
	}
	if old, ok := m.m[key]; ok {
		e.journal = append(e.journal, undo{f: func() { m.m[key] = old }, m: m})
		m.m[key] = &mapEntry{old.k, v}
		return
	}
	m.m[key] = &mapEntry{k, v}
	m.keys = append(m.keys, key)
	e.journal = append(e.journal, undo{m: m, f: func() {
		delete(m.m, key)
		m.keys = m.keys[:len(m.keys)-1]
	}})
}

func (e *Engine) mapDelete(m *Map, key string) {
	if e.watch != nil || e.onAccess != nil {
		e.mapAccess(m, true)
	}
	if m == nil {
		return
	}
	old, ok := m.m[key]
	if !ok {
		return
	}
	oldKeys := m.keys
	delete(m.m, key)
	m.keys = nil
	for _, k := range oldKeys {
		if k != key {
			m.keys = append(m.keys, k)
		}
	}
	e.journal = append(e.journal, undo{m: m, f: func() { m.m[key] = old; m.keys = oldKeys }})
}

func (e *Engine) mapAccess(m *Map, write bool) {
	if e.mapHook != nil && m != nil && !m.synced {
		e.mapHook(m, write)
	}
}

// ---- positions

func (e *Engine) posOf(fr *frame) string {
	if fr == nil || fr.fn == nil {
		return "?"
	}
	var pos token.Pos
	if fr.cur != nil {
		pos = fr.cur.Pos()
	}
	if !pos.IsValid() {
		pos = fr.fn.Pos()
	}
	if !pos.IsValid() {
		return fr.fn.String()
	}
	return e.prog.relPos(pos) + " (" + fr.fn.String() + ")"
}

func (e *Engine) where() string { return e.posOf(e.fr) }

// trace lists the innermost repository call sites.
func (e *Engine) traceFrom(fr *frame, max int) []string {
	var r []string
	for ; fr != nil && len(r) < max; fr = fr.caller {
		r = append(r, e.posOf(fr))
	}
	return r
}

// ---- panics

func (e *Engine) rtPanic(msg string) {
	panic(targetPanic{e.prog.runtimeError(msg)})
}

func (e *Engine) strPanic(msg string) {
	panic(targetPanic{Iface{types.Typ[types.String], msg}})
}

func (e *Engine) unsupported(format string, args ...interface{}) {
	panic(abort{"unsupported", fmt.Sprintf(format, args...) + " at " + e.where()})
}

// ---- trace partitioning

func (e *Engine) decideV(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case ABool:
		return e.decide(v.b)
	}
	panic(fmt.Sprintf("decide on %T", v))
}

func (e *Engine) decide(b Bit) bool {
	b = e.dom.norm(b)
	if b == bTrue {
		return true
	}
	if b == bFalse {
		return false
	}
	if e.spec > 0 {
		panic(abort{"spec", ""})
	}
	if e.dpos < len(e.decs) {
		v := e.decs[e.dpos].val
		e.dpos++
		l := b
		if !v {
			l = b ^ 1
		}
		if !e.dom.Assume(l) {
			panic(abort{"infeasible", ""})
		}
		return v
	}
	if n := len(e.decs); n > 200 && n&31 == 0 && e.stop != nil {
		if why := e.stop(); why != "" {
			panic(abort{"budget", why})
		}
	}
	snap := e.dom.snapshot()
	if e.dom.Assume(b) {
		e.decs = append(e.decs, decision{val: true})
		e.dpos++
		return true
	}
	e.dom.restore(snap)
	if !e.dom.Assume(b ^ 1) {
		panic(abort{"infeasible", ""})
	}
	e.decs = append(e.decs, decision{val: false, forced: true})
	e.dpos++
	return false
}

// choose is a free choice among n alternatives (catalogue partition).
func (e *Engine) choose(n int, name string) int {
	for i := 0; i < n-1; i++ {
		if e.decide(e.dom.Var(fmt.Sprintf("choice.%s.%d", name, i))) {
			return i
		}
	}
	return n - 1
}

// concretize partitions on the value of a word.
func (e *Engine) concretize(v Value) uint64 {
	v = e.dom.normVal(v)
	if c, ok := v.(uint64); ok {
		return c
	}
	bv := v.(*BV)
	// Decide the inputs a small word depends on, otherwise the bits themselves.
	var c uint64
	for i := len(bv.b) - 1; i >= 0; i-- {
		if e.decide(bv.b[i]) {
			c |= 1 << uint(i)
		}
	}
	return c
}

type pathOutcome struct {
	abort *abort
	panic *targetPanic
	host  interface{}
}

// explore runs job once per trace partition.
func (e *Engine) explore(job func(), onAbort func(a abort)) {
	e.decs = nil
	for {
		e.dpos = 0
		e.dom.resetPath()
		e.steps = 0
		e.asked = 0
		e.depth = 0
		e.fr = nil
		e.nested = 0
		e.locks = map[*Value]*lockState{}
		if e.mon != nil {
			e.mon.reset()
		}
		n := len(e.journal)
		e.paths++
		a := func() (a *abort) {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(abort); ok {
						a = &x
						return
					}
					panic(r)
				}
			}()
			job()
			return nil
		}()
		e.rollback(n)
		e.watch = nil
		if a != nil && a.kind != "infeasible" {
			onAbort(*a)
		}
		// backtrack
		for len(e.decs) > 0 {
			l := &e.decs[len(e.decs)-1]
			if !l.flip && !l.forced {
				l.val = !l.val
				l.flip = true
				break
			}
			e.decs = e.decs[:len(e.decs)-1]
		}
		if len(e.decs) == 0 {
			return
		}
		if e.stop != nil {
			if why := e.stop(); why != "" {
				onAbort(abort{"budget", why})
				return
			}
		}
		if e.paths > e.maxPaths {
			onAbort(abort{"budget", fmt.Sprintf("more than %d trace partitions", e.maxPaths)})
			return
		}
	}
}

// ---- calls from drivers

type callResult struct {
	v     Value
	panic *Iface
	trace []string
}

// call runs fn and captures a panic that escapes it.
func (e *Engine) call(fn Value, args ...Value) (res callResult) {
	depth, fr := e.depth, e.fr
	if depth == 0 {
		e.steps = 0
		e.asked = 0
	}
	e.repanic = false
	e.lastTrace = nil
	if e.mon != nil {
		e.mon.begin(args)
		defer func() { e.mon.end(args, res) }()
	}
	if e.amnesia != nil {
		n := len(e.journal)
		e.nested++
		defer func() {
			if e.nested--; e.nested == 0 {
				e.forget(n)
			}
		}()
	}
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				e.depth = depth
				res.trace = e.lastTrace
				if res.trace == nil {
					res.trace = e.traceFrom(e.fr, 14)
				}
				e.fr = fr
				e.repanic = false
				res.panic = &tp.v
				return
			}
			if _, ok := r.(abort); !ok {
				panic(fmt.Sprintf("%v\n\tat %s", r, strings.Join(e.traceFrom(e.fr, 12), "\n\t   ")))
			}
			panic(r)
		}
	}()
	res.v = e.callValue(nil, fn, args)
	return
}

// witness finds a valuation consistent with the current path assumptions for
// which check holds (check nil: any).
func (e *Engine) witness(check func(v *valuation) bool, vals ...Bit) (*valuation, bool) {
	d := e.dom
	set := map[int32]bool{}
	for _, a := range d.asList {
		d.Support(a, set, nil)
	}
	for _, b := range vals {
		d.Support(b, set, nil)
	}
	var free []int32
	fixed := map[int32]bool{}
	for n := range set {
		if v, ok := d.assume[n]; ok {
			fixed[n] = v
		} else {
			free = append(free, n)
		}
	}
	sort.Slice(free, func(i, j int) bool { return free[i] < free[j] })
	rng := rand.New(rand.NewSource(7))
	tries := 400
	if len(free) <= 10 {
		tries = 1 << uint(len(free))
	}
	groups := map[string][]int32{}
	var gnames []string
	for _, n := range free {
		g, _ := splitVar(d.nodes[n].name)
		if _, ok := groups[g]; !ok {
			gnames = append(gnames, g)
		}
		groups[g] = append(groups[g], n)
	}
	for t := 0; t < tries; t++ {
		vars := map[int32]bool{}
		for n, v := range fixed {
			vars[n] = v
		}
		if len(free) <= 10 {
			for i, n := range free {
				vars[n] = t>>uint(i)&1 != 0
			}
		} else {
			for _, g := range gnames {
				mode := rng.Intn(8)
				k := rng.Intn(256)
				for _, n := range groups[g] {
					_, idx := splitVar(d.nodes[n].name)
					switch mode {
					case 0:
						vars[n] = false
					case 1:
						vars[n] = true
					case 2, 3:
						vars[n] = idx < 8 && k>>uint(idx)&1 != 0
					default:
						vars[n] = rng.Intn(2) == 0
					}
				}
			}
		}
		v := &valuation{d: d, vars: vars, memo: map[int32]bool{}, tm: map[int]Value{}}
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(undecidable); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			for _, a := range d.asList {
				if !v.bit(a) {
					return false
				}
			}
			return check == nil || check(v)
		}()
		if ok {
			return v, true
		}
	}
	return nil, false
}

func (v *valuation) String() string {
	words := map[string]uint64{}
	for n, b := range v.vars {
		name, idx := splitVar(v.d.nodes[n].name)
		if strings.HasPrefix(name, "choice.") {
			continue
		}
		words[name] |= b2u(b) << uint(idx)
	}
	var s []string
	for _, k := range sortedKeys(words) {
		s = append(s, fmt.Sprintf("%s=%#x", k, words[k]))
	}
	return strings.Join(s, " ")
}

type domSnap struct {
	assume map[int32]bool
	n      int
}

func (d *Dom) snapshot() domSnap {
	m := make(map[int32]bool, len(d.assume))
	for k, v := range d.assume {
		m[k] = v
	}
	return domSnap{m, len(d.asList)}
}

func (d *Dom) restore(s domSnap) {
	d.assume = s.assume
	d.asList = d.asList[:s.n]
	d.memo = map[int32]Bit{}
}

// ---- type identity

func (e *Engine) typeID(t types.Type) int {
	if id := e.typeIDs.At(t); id != nil {
		return id.(int)
	}
	e.nextID++
	e.typeIDs.Set(t, e.nextID)
	return e.nextID
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := e.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implC[k] = r
	return r
}
