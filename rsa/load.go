package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/go-restruct/restruct"

// Program is the type-checked SSA form of the repository and the packages it
// depends on, built from the sources on disk.
type Program struct {
	dir     string
	ssa     *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package // by import path
	root    *ssa.Package
	expr    *ssa.Package
	png     *ssa.Package
	cat     *ssa.Package
	initial []*packages.Package

	rtErr  types.Type
	rtype  types.Type // *reflect.rtype
	errStr types.Type // *errors.errorString

	catalogMethods map[*types.Func]*Native
}

func loadProgram(dir string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  env,
	}
	if _, err := os.Stat(filepath.Join(dir, "vendor")); err == nil {
		for i, v := range env {
			if v == "GOFLAGS=-mod=mod" {
				env[i] = "GOFLAGS="
			}
		}
	} else {
		for i, v := range env {
			if v == "GOFLAGS=-mod=mod" {
				env[i] = "GOFLAGS=-mod=readonly"
			}
		}
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{dir: dir, ssa: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, initial: initial,
		catalogMethods: map[*types.Func]*Native{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.root = p.pkgs[repoPath]
	p.expr = p.pkgs[repoPath+"/expr"]
	p.png = p.pkgs[repoPath+"/formats/png"]
	if p.root == nil || p.expr == nil {
		return nil, fmt.Errorf("packages of %s not found in %s", repoPath, dir)
	}
	p.rtErr = p.pkgs["runtime"].Type("errorString").Type()
	p.rtype = types.NewPointer(p.pkgs["reflect"].Type("rtype").Type())
	reflectValueType = p.pkgs["reflect"].Type("Value").Type()
	p.errStr = types.NewPointer(p.pkgs["errors"].Type("errorString").Type())
	return p, nil
}

func (p *Program) relPos(pos token.Pos) string {
	ps := p.fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if i := strings.Index(f, "/src/"); i >= 0 {
		f = "$GOROOT" + f[i:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Program) runtimeError(msg string) Iface { return Iface{p.rtErr, msg} }

// newError builds an error value with the given text.
func (p *Program) newError(text Value) Iface {
	return Iface{p.errStr, newCell(Struct{text})}
}

// reflectType wraps a type as reflect.Type.
func (p *Program) reflectType(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	return Iface{p.rtype, RT{types.Unalias(t)}}
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), repoPath)
		}
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPath)
}

// skipInit lists packages whose initialisation has no bearing on the analysis
// because every operation on them is modelled or they are never used.
func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "os", "syscall", "time", "sync", "internal/reflectlite",
		"fmt", "go/parser", "go/scanner", "go/ast", "unicode", "internal/poll", "math/rand",
		"internal/godebug", "internal/cpu", "path/filepath", "log", "go/build/constraint", "internal/oserror",
		"io/fs", "testing", "sync/atomic", "unsafe", "github.com/pkg/errors":
		return true
	}
	if path == "internal/strconv" {
		return false
	}
	if strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto") {
		return true
	}
	return false
}

// uninitialised reports whether g is set by a package initialiser that is
// skipped.
func (p *Program) uninitialised(g *ssa.Global) bool {
	if g.Pkg == nil || !skipInit(g.Pkg.Pkg.Path()) {
		return false
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == ssa.Value(g) && g.Name() != "init$guard" {
					return true
				}
			}
		}
	}
	return false
}

// initialise abstractly executes the package initialisers in dependency order.
func (e *Engine) initialise() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abort:
				err = fmt.Errorf("package initialisation: %s", r)
			case targetPanic:
				err = fmt.Errorf("package initialisation panics: %s at %s", e.describe(r.v), strings.Join(e.traceFrom(e.fr, 5), " < "))
			default:
				panic(r)
			}
		}
	}()
	e.maxSteps = 50000000
	for _, sp := range []*ssa.Package{e.prog.root, e.prog.png} {
		if sp != nil {
			e.callSSA(nil, sp.Func("init"), nil, nil)
		}
	}
	e.maxSteps = 3000000
	e.journal = nil
	e.steps = 0
	return nil
}

// describe renders a value for reports.
func (e *Engine) describe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.T == nil {
			return "nil"
		}
		if types.Identical(v.T, e.prog.rtErr) {
			return "runtime error: " + e.describe(v.V)
		}
		if p, ok := v.V.(*Value); ok && p != nil {
			if s, ok := (*p).(Struct); ok && len(s) > 0 {
				return fmt.Sprintf("%s(%s)", v.T, e.describe(s[0]))
			}
		}
		return fmt.Sprintf("%s(%s)", v.T, e.describe(v.V))
	case string:
		return fmt.Sprintf("%q", v)
	case Slice:
		return e.describeList("[", v, "]")
	case Array:
		return e.describeList("[", v, "]")
	case Struct:
		return e.describeList("{", v, "}")
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + short(e.describe(*v), 60)
	case RT:
		return v.T.String()
	case nil:
		return "<none>"
	case *Map:
		if v == nil {
			return "map(nil)"
		}
		return fmt.Sprintf("map[%d]", len(v.m))
	}
	return e.dom.ValString(v)
}

func (e *Engine) describeList(l string, vs []Value, r string) string {
	var s []string
	for i, x := range vs {
		if i == 24 {
			s = append(s, "...")
			break
		}
		s = append(s, e.describe(x))
	}
	return l + strings.Join(s, " ") + r
}

// coverage summarises the repository functions reached.
func (e *Engine) coverage() (fns []string, blocks, total int) {
	by := map[*ssa.Function]int{}
	for b := range e.cov {
		if e.prog.inRepo(b.Parent()) {
			by[b.Parent()]++
		}
	}
	for f, n := range by {
		blocks += n
		total += len(f.Blocks)
		fns = append(fns, f.String())
	}
	sort.Strings(fns)
	return
}
