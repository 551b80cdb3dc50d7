package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"
)

// The histories of K02 and the operations watched by K01.

// over lists the checks whose jobs are repeated, with the share of jobs.
var overQuick = []struct {
	id     string
	sample int
}{{"links", 1}, {"E01", 10}, {"E02", 8}, {"E03", 12}, {"E04", 60}, {"E05", 10}, {"E06", 60}, {"E07", 10}, {"E08", 4}, {"E09", 3}, {"E10", 1},
	{"T01", 40}, {"T02", 20}, {"C02", 8}, {"C04", 4}, {"C05", 4}, {"C06", 8}, {"C07", 1}, {"C08", 8}, {"C11", 8}, {"C12", 1}, {"C13", 8}, {"C15", 8}, {"C16", 5}, {"C17", 2}, {"C18", 4}, {"C19", 1}, {"C20", 8}, {"C21", 8}}

// rerun repeats the jobs of other checks in the setting of c.
func (c *Ctx) rerun() *Result {
	total := newResult()
	step, n := 12, 0
	if c.thorough {
		step = 4
	}
	var cs []*Case
	for _, x := range c.cases {
		if x.has("bulk") {
			if n++; n%step != 0 {
				continue
			}
		}
		cs = append(cs, x)
	}
	c.cases = cs
	c.pool = &pool{}
	for _, o := range overQuick {
		if f := os.Getenv("RSA_ONLY"); f != "" && f != o.id {
			continue
		}
		sub := *c
		sub.prop = o.id
		sub.sample = o.sample
		if c.thorough {
			sub.sample = (o.sample + 5) / 6
		}
		sub.thorough = false
		t := time.Now()
		r := checks[o.id].run(&sub)
		if c.verbose {
			fmt.Fprintf(os.Stderr, "%s %6.2fs %d cases %d partitions\n", o.id, time.Since(t).Seconds(), r.cases, r.paths)
		}
		for i := range r.viols {
			r.viols[i].Case = o.id + " " + r.viols[i].Case
			r.viols[i].Known = ""
		}
		total.plus(r)
	}
	return total
}

// newOnly keeps the violations that do not occur without the history.
func (c *Ctx) newOnly(vs []Violation, job func(*Engine, *Result, int), i int) []Violation {
	sub := *c
	sub.aged, sub.preludes, sub.pool = false, 0, nil
	e, err := sub.newEngine()
	if err != nil {
		panic(err)
	}
	e.amnesia = newMonitor(e, nil).base
	res := newResult()
	job(e, res, i)
	fresh := map[string]bool{}
	for _, v := range res.viols {
		fresh[v.Case+"|"+v.Rule] = true
	}
	var r []Violation
	for _, v := range vs {
		if !fresh[v.Case+"|"+v.Rule] {
			v.Message = "after earlier calls: " + v.Message
			r = append(r, v)
		}
	}
	return r
}

// retag is t with the tags of its fields changed; named types keep their
// names.
func retag(t types.Type, f func(string) string, seen map[*types.Named]*types.Named) types.Type {
	switch x := t.(type) {
	case *types.Named:
		if x.NumMethods() > 0 || x.TypeParams() != nil {
			return t
		}
		if n, ok := seen[x]; ok {
			return n
		}
		if _, ok := x.Underlying().(*types.Struct); !ok {
			return t
		}
		n := types.NewNamed(types.NewTypeName(x.Obj().Pos(), x.Obj().Pkg(), x.Obj().Name(), nil), nil, nil)
		seen[x] = n
		n.SetUnderlying(retag(x.Underlying(), f, seen).Underlying())
		return n
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < x.NumFields(); i++ {
			v := x.Field(i)
			fs = append(fs, types.NewField(v.Pos(), v.Pkg(), v.Name(), retag(v.Type(), f, seen), v.Embedded()))
			tags = append(tags, f(x.Tag(i)))
		}
		return types.NewStruct(fs, tags)
	case *types.Pointer:
		return types.NewPointer(retag(x.Elem(), f, seen))
	case *types.Slice:
		return types.NewSlice(retag(x.Elem(), f, seen))
	case *types.Array:
		return types.NewArray(retag(x.Elem(), f, seen), x.Len())
	}
	return t
}

// swapped is a type of the same name as t and of a different structure.
func swapped(t types.Type, seen map[*types.Named]*types.Named) types.Type {
	switch x := t.(type) {
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			return types.Typ[types.Int64]
		}
		if x.Info()&types.IsNumeric != 0 {
			return types.Typ[types.Uint8]
		}
	case *types.Named:
		if x.NumMethods() > 0 || x.TypeParams() != nil || x.Obj().Pkg() == nil {
			return t
		}
		if n, ok := seen[x]; ok {
			return n
		}
		n := types.NewNamed(types.NewTypeName(x.Obj().Pos(), x.Obj().Pkg(), x.Obj().Name(), nil), nil, nil)
		seen[x] = n
		n.SetUnderlying(swapped(x.Underlying(), seen).Underlying())
		return n
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < x.NumFields(); i++ {
			v := x.Field(i)
			name := v.Name()
			if name != "_" {
				name += "Other"
			}
			fs = append(fs, types.NewField(v.Pos(), v.Pkg(), name, swapped(v.Type(), seen), false))
			tags = append(tags, "")
		}
		return types.NewStruct(fs, tags)
	case *types.Pointer:
		return types.NewPointer(swapped(x.Elem(), seen))
	case *types.Slice:
		return types.NewSlice(swapped(x.Elem(), seen))
	case *types.Array:
		return types.NewArray(swapped(x.Elem(), seen), x.Len()+1)
	case *types.Map:
		return types.NewMap(x.Key(), swapped(x.Elem(), seen))
	}
	return t
}

// age gives the engine a past: every operation on declarations that differ
// from those of the catalogue in their tags only, including failing ones.
func (c *Ctx) age(e *Engine) {
	e.dom.conc = func(string) bool { return false }
	defer func() { e.dom.conc = nil }()
	tags := []func(string) string{
		func(string) string { return "" },
		func(s string) string {
			return strings.Replace("struct:\"\" "+s, "struct:\"", "struct:\"little,skip=1,", 1)
		},
		func(s string) string {
			if s == "" {
				return "struct:\"bogus\""
			}
			return strings.Replace(s, "struct:\"", "struct:\"little,", 1)
		},
	}
	scope := c.prog.cat.Pkg.Scope()
	for _, n := range scope.Names() {
		o, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if nt, ok := o.Type().(*types.Named); !ok || nt.TypeParams() != nil || nt.NumMethods() > 0 {
			continue
		}
		t := swapped(o.Type(), map[*types.Named]*types.Named{})
		e.history(5, t)
		e.history(3, t)
		e.journal = e.journal[:0]
	}
	for k, f := range tags {
		for i, cs := range c.cases {
			if k == 2 && i%4 != 0 && !c.thorough {
				continue
			}
			t := retag(cs.typ, f, map[*types.Named]*types.Named{})
			for _, op := range []int{3, 1} {
				e.history(op, t)
				e.journal = e.journal[:0]
			}
		}
	}
}

func (e *Engine) history(op int, t types.Type) {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case abort, targetPanic:
			default:
				panic(fmt.Sprint("history of ", t, ": ", x))
			}
		}
		e.locks = map[*Value]*lockState{}
		e.depth, e.fr, e.steps = 0, nil, 0
	}()
	e.steps = 0
	pi := Iface{types.NewPointer(t), newCell(zero(t))}
	data := func(b uint64) Slice {
		d := make(Slice, 48)
		for i := range d {
			d[i] = b
		}
		return d
	}
	switch op {
	case 0:
		e.doSize("SizeOf", pi)
	case 1:
		e.doSize("BitSize", pi)
	case 2:
		e.doPack(true, pi)
	case 3:
		e.doUnpack(data(2), false, pi)
		e.doPack(false, pi)
	case 5:
		e.call(e.exprFn("TypeOf"), e.zeroIface(t))
		e.call(e.exprFn("ValueOf"), e.zeroIface(t))
	case 4:
		e.doUnpack(data(0), true, pi)
	}
}

func init() {
	// declarations with options that do not suit the field or name no field
	checks["links"] = checkFn{func(c *Ctx) *Result { return c.laws(c.t01links()) }, ""}
	checks["K01"] = checkFn{func(c *Ctx) *Result {
		c.mon = &monAgg{sites: map[string]raceSite{}, order: map[[2]string]string{}, objs: map[string]bool{}, locks: map[string]bool{}}
		c.mute, c.preludes = true, 1
		r := c.rerun()
		c.mon.finish(r)
		return r
	}, "lockset analysis on the abstract interpretation of every operation: accesses to memory reachable from package variables, by operations and by the caller afterwards, need a common lock, an atomic or a once in between; locks are free when an operation ends; locks are acquired in one order"}
	checks["K02"] = checkFn{func(c *Ctx) *Result {
		c.preludes, c.aged = 2, true
		return c.rerun()
	}, "the jobs of the other checks, after a history of operations on declarations that differ in tags only, of failing operations, and of the same job on other values"}
}
