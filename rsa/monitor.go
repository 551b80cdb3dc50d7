package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The lockset analysis of K01. Every memory object reachable from a package
// variable is shared. Accesses to shared objects during an operation are
// recorded with the locks held; two operations may run concurrently, so any
// two accesses, one of them a write, need a common lock (exclusive for the
// write), or must both be atomic, or be ordered by a sync.Once or an atomic
// release and acquire. Accesses to an object before it is published happen
// before everything else and are not recorded. Memory handed back to the
// caller, or passed by it, is accessed by the caller without locks.

type accKind uint8

const (
	aPlain accKind = iota
	aAtomic
	aPooled // after sync.Pool.Put
	aOwned  // after sync.Pool.Get
)

type access struct {
	kind  accKind
	write bool
	user  int // 1+operation when the caller accesses the object
	op    int
	locks int // lockset
	acq   int // acquired releases, as a lockset id
	rel   map[*Value]bool
	fn    *frameRef
}

type frameRef struct{ at string }

type lockset struct {
	names string
	l     map[*Value]bool // true: exclusive
}

type raceSite struct {
	name, where string
	write       bool
	atomic      bool
	locks       map[string]bool
}

// monAgg collects what engines see of the objects that exist from the start.
type monAgg struct {
	mu    sync.Mutex
	sites map[string]raceSite
	order map[[2]string]string
	objs  map[string]bool
	locks map[string]bool
	nacc  int
}

type monitor struct {
	e      *Engine
	agg    *monAgg
	base   map[interface{}]string
	over   map[interface{}]string
	pool   map[*Value]accKind
	acc    map[interface{}][]*access
	order  []interface{}
	sets   []lockset
	setIDs map[string]int
	curSet int
	acq    map[*Value]bool
	acqID  int
	depth  int
	op     int
	args   map[interface{}]bool
	writes []*access
	bad    []string // lock misuse on this path
}

func newMonitor(e *Engine, agg *monAgg) *monitor {
	m := &monitor{e: e, agg: agg, base: map[interface{}]string{}, setIDs: map[string]int{}}
	var gs []*ssa.Global
	for g := range e.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath) {
			m.reach(e.globals[g], strings.TrimPrefix(g.String(), "github.com/go-restruct/"), m.base)
		}
	}
	m.reset()
	return m
}

func (m *monitor) reset() {
	m.over = map[interface{}]string{}
	m.pool = map[*Value]accKind{}
	m.acc = map[interface{}][]*access{}
	m.order = nil
	m.sets = []lockset{{"", nil}}
	m.setIDs = map[string]int{"": 0}
	m.curSet = 0
	m.acq = nil
	m.acqID = 0
	m.depth = 0
	m.op = 0
	m.bad = nil
}

func (m *monitor) name(o interface{}) (string, bool) {
	if s, ok := m.base[o]; ok {
		return s, true
	}
	s, ok := m.over[o]
	return s, ok
}

// reach marks everything reachable from v as shared.
func (m *monitor) reach(v Value, name string, into map[interface{}]string) {
	seen := map[interface{}]bool{}
	var visit func(v Value, name string)
	cell := func(p *Value, name string) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		if _, ok := m.name(p); ok {
			if _, isAgg := (*p).(Struct); !isAgg {
				return
			}
		} else if into != nil {
			into[p] = name
		}
		visit(*p, name)
		if sm := m.e.syncMaps[p]; sm != nil {
			visit(sm, name)
		}
	}
	visit = func(v Value, name string) {
		if len(name) > 60 {
			name = name[:60]
		}
		switch v := v.(type) {
		case *Value:
			cell(v, name)
		case Struct:
			for i := range v {
				cell(&v[i], fmt.Sprintf("%s.%d", name, i))
			}
		case Array:
			for i := range v {
				cell(&v[i], name+"[]")
			}
		case Slice:
			v = v[:cap(v)]
			for i := range v {
				cell(&v[i], name+"[]")
			}
		case *Map:
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			if _, ok := m.name(v); ok {
				return
			}
			if into != nil {
				into[v] = name + " (map)"
			}
			for _, k := range v.keys {
				visit(v.m[k].k, name+".key")
				visit(v.m[k].v, name+"[]")
			}
		case Iface:
			visit(v.V, name)
		case Tuple:
			for _, x := range v {
				visit(x, name)
			}
		case RV:
			cell(v.P, name)
		case *Closure:
			if seen[v] {
				return
			}
			seen[v] = true
			for _, x := range v.Env {
				visit(x, name+".captured")
			}
		}
	}
	visit(v, name)
}

// cells lists everything reachable from v.
func (m *monitor) cells(v Value) map[interface{}]bool {
	into := map[interface{}]string{}
	mm := &monitor{e: m.e}
	mm.reach(v, "", into)
	r := map[interface{}]bool{}
	for k := range into {
		r[k] = true
	}
	return r
}

func (m *monitor) intern(l map[*Value]bool) int {
	if len(l) == 0 {
		return 0
	}
	var parts []string
	for p, ex := range l {
		parts = append(parts, fmt.Sprintf("%p %v", p, ex))
	}
	sort.Strings(parts)
	k := strings.Join(parts, ",")
	id, ok := m.setIDs[k]
	if !ok {
		id = len(m.sets)
		m.setIDs[k] = id
		m.sets = append(m.sets, lockset{k, l})
	}
	return id
}

func (m *monitor) lock(p *Value, op string) {
	if m.depth == 0 {
		return
	}
	l := map[*Value]bool{}
	for q, s := range m.e.locks {
		if s.writer || s.readers > 0 {
			if q == p && strings.HasSuffix(op, "nlock") {
				continue
			}
			l[q] = s.writer
			if q != p && strings.HasSuffix(op, "ock") && !strings.HasSuffix(op, "nlock") {
				a, ok1 := m.base[q]
				b, ok2 := m.base[p]
				if ok1 && ok2 {
					m.agg.mu.Lock()
					m.agg.order[[2]string{a, b}] = m.e.where()
					m.agg.mu.Unlock()
				}
			}
		}
	}
	for q := range l {
		if _, ok := m.name(q); !ok {
			delete(l, q) // a lock of one operation protects nothing
		}
	}
	m.curSet = m.intern(l)
}

// acquire orders the operation after the releases of p.
func (m *monitor) acquire(p *Value) {
	if m.depth == 0 || m.acq[p] {
		return
	}
	n := map[*Value]bool{p: true}
	for q := range m.acq {
		n[q] = true
	}
	m.acq = n
	m.acqID = m.intern(n)
}

func (m *monitor) release(p *Value) {
	for _, w := range m.writes {
		if w.rel == nil {
			w.rel = map[*Value]bool{}
		}
		w.rel[p] = true
	}
}

func (m *monitor) atomic(p *Value, write bool, v Value) {
	if m.depth == 0 {
		return
	}
	m.acquire(p)
	if write {
		m.release(p)
		if n, ok := m.name(p); ok {
			m.reach(v, n, m.over)
		}
	}
	if _, ok := m.name(p); ok {
		m.record(p, access{kind: aAtomic, write: write})
	}
}

func (m *monitor) touch(p *Value, write bool) {
	if m.depth == 0 || m.args[p] {
		return
	}
	if _, ok := m.base[p]; !ok {
		if _, ok := m.over[p]; !ok {
			if k, ok := m.pool[p]; ok {
				m.record(p, access{kind: k, write: write})
			}
			return
		}
	}
	m.record(p, access{write: write})
}

func (m *monitor) touchMap(mp *Map, write bool) {
	if m.depth == 0 || m.args[mp] {
		return
	}
	if _, ok := m.name(mp); ok {
		m.record(mp, access{write: write})
	}
}

func (m *monitor) publish(p interface{}, vs ...Value) {
	if n, ok := m.name(p); ok {
		for _, v := range vs {
			m.reach(v, n, m.over)
		}
	}
}

func (m *monitor) record(o interface{}, a access) {
	a.locks, a.acq = m.curSet, m.acqID
	if a.write {
		a.op = m.op
	}
	l, ok := m.acc[o]
	for i := range l {
		x := l[i]
		if x.kind == a.kind && x.write == a.write && x.locks == a.locks && x.acq == a.acq && x.user == a.user && (!a.write || x.op == a.op && x.rel == nil) {
			return
		}
	}
	if !ok {
		m.order = append(m.order, o)
	}
	a.fn = &frameRef{}
	if a.user == 0 {
		a.fn.at = m.e.where()
	} else {
		a.fn.at = "the caller, after the call"
	}
	m.acc[o] = append(l, &a)
	if a.write && a.kind == aPlain {
		m.writes = append(m.writes, &a)
	}
}

// begin and end bracket an operation.
func (m *monitor) begin(args []Value) {
	if m.depth++; m.depth > 1 {
		return
	}
	m.op++
	m.writes = nil
	m.acq, m.acqID = nil, 0
	m.curSet = 0
	m.args = map[interface{}]bool{}
	for _, a := range args {
		for o := range m.cells(a) {
			if _, ok := m.base[o]; !ok {
				m.args[o] = true
				if p, ok := o.(*Value); ok {
					delete(m.pool, p)
				}
			}
		}
	}
}

func (m *monitor) end(args []Value, res callResult) {
	if m.depth--; m.depth > 0 {
		return
	}
	m.depth = 1
	m.acq, m.acqID, m.curSet = nil, 0, 0
	user := func(v Value, id int) {
		for o := range m.cells(v) {
			if _, ok := m.base[o]; ok && id == 1 {
				continue
			}
			p, isCell := o.(*Value)
			if _, ok := m.name(o); ok {
				m.record(o, access{write: true, user: id})
			} else if isCell {
				if k, ok := m.pool[p]; ok {
					m.record(o, access{kind: k, write: true, user: id})
				}
			}
		}
	}
	m.args = nil
	for _, a := range args {
		if callerMemory(a) {
			user(a, 1)
		}
	}
	if t, ok := res.v.(Tuple); ok {
		for _, v := range t {
			if s, ok := v.(Slice); ok {
				user(s, 2+m.op)
			}
		}
	}
	for q, s := range m.e.locks {
		if s.writer || s.readers > 0 {
			n, _ := m.name(q)
			how := "returns"
			if res.panic != nil {
				how = "panics"
			}
			m.bad = append(m.bad, fmt.Sprintf("the operation %s with %s held, acquired at %s", how, n, s.where))
			s.writer, s.readers = false, 0
		}
	}
	m.bad = append(m.bad, m.e.lockErr...)
	m.e.lockErr = nil
	m.depth = 0
}

// callerMemory tells values and buffers the caller keeps using from interface
// and function arguments.
func callerMemory(v Value) bool {
	switch v := v.(type) {
	case Slice:
		return true
	case Iface:
		if _, ok := v.V.(*Value); ok {
			_, ok := v.T.Underlying().(*types.Pointer)
			return ok && !strings.HasPrefix(v.T.String(), "*"+repoPath)
		}
	}
	return false
}

func (m *monitor) put(v Value) {
	if m.depth == 0 {
		return
	}
	for o := range m.cells(v) {
		if p, ok := o.(*Value); ok {
			if _, shared := m.name(p); !shared {
				m.pool[p] = aPooled
			}
		}
	}
}

func (m *monitor) get(v Value) {
	if m.depth == 0 {
		return
	}
	for o := range m.cells(v) {
		if p, ok := o.(*Value); ok {
			if m.pool[p] == aPooled {
				m.pool[p] = aOwned
			}
		}
	}
}

func (m *monitor) ordered(a, b *access) bool {
	if a.kind == aAtomic && b.kind == aAtomic {
		return true
	}
	if a.user != 0 && b.user != 0 && (a.user == 1 || b.user == 1 || a.user == b.user) {
		return true
	}
	if a.kind == aOwned && b.kind == aOwned {
		return true
	}
	if (a.kind == aPooled || a.kind == aOwned) != (b.kind == aPooled || b.kind == aOwned) {
		return true // different lives of the object
	}
	la, lb := m.sets[a.locks].l, m.sets[b.locks].l
	for p, ex := range la {
		if bx, ok := lb[p]; ok && (ex || !a.write) && (bx || !b.write) {
			return true
		}
	}
	if a.write != b.write {
		w, r := a, b
		if b.write {
			w, r = b, a
		}
		for p := range m.sets[r.acq].l {
			if w.rel[p] || m.sets[w.locks].l[p] {
				return true
			}
		}
	}
	return false
}

// check reports the races of the path.
func (m *monitor) check(r *run) {
	for _, b := range m.bad {
		r.requireB("locks", false, b, nil)
	}
	reported := map[string]bool{}
	n := 0
	for _, o := range m.order {
		l := m.acc[o]
		name, _ := m.name(o)
		n += len(l)
		m.note(o, name, l)
		wr := false
		for i := range l {
			wr = wr || l[i].write
		}
		if !wr {
			continue
		}
		for i := range l {
			for j := i; j < len(l); j++ {
				a, b := l[i], l[j]
				if !a.write && !b.write || m.ordered(a, b) {
					continue
				}
				w, x := a, b
				if !a.write {
					w, x = b, a
				}
				k := w.fn.at + x.fn.at
				if reported[k] {
					continue
				}
				reported[k] = true
				verb := "read"
				if x.write {
					verb = "written"
				}
				if name == "" {
					name = "an object returned to a sync.Pool"
				}
				r.requireB("race", false, fmt.Sprintf("shared %s is written at %s and %s at %s without a common lock", name, w.fn.at, verb, x.fn.at), nil)
			}
		}
	}
	if len(reported) == 0 && len(m.bad) == 0 {
		r.decided("race-free", "nf")
	}
	m.agg.mu.Lock()
	m.agg.nacc += n
	m.agg.mu.Unlock()
}

// note keeps the accesses to an object that exists from the start.
func (m *monitor) note(o interface{}, name string, l []*access) {
	if _, ok := m.base[o]; !ok {
		return
	}
	m.agg.mu.Lock()
	defer m.agg.mu.Unlock()
	m.agg.objs[name] = true
	for i := range l {
		a := l[i]
		if a.user != 0 {
			continue
		}
		locks := map[string]bool{}
		var ks []string
		for p, ex := range m.sets[a.locks].l {
			if n, ok := m.base[p]; ok {
				locks[n] = ex
				m.agg.locks[n] = true
				ks = append(ks, fmt.Sprintf("%s=%v", n, ex))
			}
		}
		if !a.write {
			for p := range m.sets[a.acq].l {
				if n, ok := m.base[p]; ok {
					ks = append(ks, "acq "+n)
					locks["acq "+n] = true
				}
			}
		}
		for p := range a.rel {
			if n, ok := m.base[p]; ok {
				locks["rel "+n] = true
				ks = append(ks, "rel "+n)
			}
		}
		sort.Strings(ks)
		k := fmt.Sprintf("%s|%v|%d|%s", name, a.write, a.kind, strings.Join(ks, ","))
		if _, ok := m.agg.sites[k]; !ok {
			m.agg.sites[k] = raceSite{name, a.fn.at, a.write, a.kind == aAtomic, locks}
		}
	}
}

// finish compares the accesses of different operations.
func (g *monAgg) finish(res *Result) {
	by := map[string][]raceSite{}
	var names []string
	for _, s := range g.sites {
		if len(by[s.name]) == 0 {
			names = append(names, s.name)
		}
		by[s.name] = append(by[s.name], s)
	}
	sort.Strings(names)
	for _, n := range names {
		l := by[n]
		sort.Slice(l, func(i, j int) bool { return l[i].where < l[j].where })
		for i := range l {
			for j := i; j < len(l); j++ {
				a, b := l[i], l[j]
				if !a.write && !b.write || a.atomic && b.atomic {
					continue
				}
				ok := false
				for k, ex := range a.locks {
					if strings.HasPrefix(k, "acq ") || strings.HasPrefix(k, "rel ") {
						continue
					}
					if bx, in := b.locks[k]; in && (ex || !a.write) && (bx || !b.write) {
						ok = true
					}
				}
				if a.write != b.write {
					w, r := a, b
					if b.write {
						w, r = b, a
					}
					for k := range r.locks {
						if x, is := strings.CutPrefix(k, "acq "); is && (w.locks["rel "+x] || w.locks[x]) {
							ok = true
						}
					}
				}
				res.obligations++
				res.rules["race-free between operations"]++
				if ok {
					res.byNF++
					continue
				}
				res.viols = append(res.viols, Violation{Case: n, Rule: "race", Message: fmt.Sprintf("shared %s is accessed at %s and %s, at least once written, without a common lock", n, a.where, b.where), Where: []string{a.where, b.where}})
			}
		}
	}
	// lock order
	var edges [][2]string
	next := map[string][]string{}
	for k := range g.order {
		edges = append(edges, k)
		next[k[0]] = append(next[k[0]], k[1])
	}
	sort.Slice(edges, func(i, j int) bool { return edges[i][0]+edges[i][1] < edges[j][0]+edges[j][1] })
	for _, k := range edges {
		seen := map[string]bool{}
		var back func(x string) bool
		back = func(x string) bool {
			if x == k[0] {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range next[x] {
				if back(y) {
					return true
				}
			}
			return false
		}
		res.obligations++
		res.rules["lock order"]++
		if back(k[1]) {
			res.viols = append(res.viols, Violation{Case: k[0], Rule: "lock order", Message: fmt.Sprintf("%s is acquired while %s is held, and the other way round: operations can deadlock", k[1], k[0]), Where: []string{g.order[k]}})
			break
		}
		res.byNF++
	}
	res.notes["shared objects accessed"] = len(g.objs)
	res.notes["shared accesses (classes per path)"] = g.nacc
	res.notes["locks"] = len(g.locks)
}
