package main

import (
	"golang.org/x/tools/go/ssa"
	"testing"
)

func TestDbg(t *testing.T) {
	p, err := loadProgram("/repo")
	if err != nil {
		t.Fatal(err)
	}
	c := &Ctx{prog: p}
	cs, sp, err := p.loadCatalogue("catalogue/cat", "package cat\n\nimport \"strconv\"\nfunc F(s string) (float64, error) { return strconv.ParseFloat(s,64) }\n")
	_ = cs
	if err != nil {
		t.Fatal(err)
	}
	p.cat = sp
	e, err := c.newEngine()
	if err != nil {
		t.Fatal(err)
	}
	f := sp.Func("F")
	var _ *ssa.Function = f
	for _, s := range []string{"1.0", "1", "0.5", "1e3"} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Log("abort", r)
				}
			}()
			r := e.call(f, s)
			t.Log(s, e.describe(r.v), r.panic, r.trace)
		}()
	}
}
