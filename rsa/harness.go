package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the catalogue: declarations the analysis is specialised to

// Case is one declaration of the catalogue together with what to decide on it.
type Case struct {
	name string
	typ  types.Type
	dir  map[string]string
	off  int // leading bits
	big  bool
	fill bool   // trailing probe field
	via  string // "native" or "own": another implementation of the order
}

func (c *Case) String() string {
	o := "little"
	if c.big {
		o = "big"
	}
	if c.via != "" {
		o += "/" + c.via
	}
	return fmt.Sprintf("%s@%d/%s", c.name, c.off, o)
}

type catalogue struct {
	prog  *Program
	src   strings.Builder
	pkg   *ssa.Package
	types []*Case
}

type progImporter struct{ p *Program }

func (i progImporter) Import(path string) (*types.Package, error) {
	if sp, ok := i.p.pkgs[path]; ok {
		return sp.Pkg, nil
	}
	return nil, fmt.Errorf("package %s is not part of the program", path)
}

// loadCatalogue type-checks catalogue source and adds it to the program, so
// that methods declared there are analysed like any other code.
func (p *Program) loadCatalogue(path, src string) ([]*Case, *ssa.Package, error) {
	f, err := parser.ParseFile(p.fset, path+".go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: progImporter{p}}
	pkg, err := conf.Check(path, p.fset, []*ast.File{f}, info)
	if err != nil {
		return nil, nil, err
	}
	sp := p.ssa.CreatePackage(pkg, []*ast.File{f}, info, true)
	sp.Build()
	var cs []*Case
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.TYPE {
			continue
		}
		dir := map[string]string{}
		if gd.Doc != nil {
			for _, c := range gd.Doc.List {
				if t, ok := strings.CutPrefix(c.Text, "//rsa:"); ok {
					for _, w := range strings.Fields(t) {
						k, v, _ := strings.Cut(w, "=")
						dir[k] = v
					}
				}
			}
		}
		if _, ok := dir["props"]; !ok {
			continue
		}
		ts := gd.Specs[0].(*ast.TypeSpec)
		t := types.Unalias(info.Defs[ts.Name].Type())
		cs = append(cs, &Case{name: ts.Name.Name, typ: t, dir: dir})
	}
	return cs, sp, nil
}

func (c *Case) has(k string) bool { _, ok := c.dir[k]; return ok }

// wrap embeds the declaration after off leading bits and before a probe.
func (c *Case) wrapped() types.Type {
	if c.off == 0 && !c.fill {
		return c.typ
	}
	pkg := types.NewPackage("catalogue/wrap", "wrap")
	var fs []*types.Var
	var tags []string
	if c.off > 0 {
		fs = append(fs, types.NewField(0, pkg, "P", types.Typ[types.Uint8], false))
		tags = append(tags, fmt.Sprintf("struct:\"uint8:%d\"", c.off))
	}
	fs = append(fs, types.NewField(0, pkg, "V", c.typ, false))
	tags = append(tags, c.dir["_tag"])
	fs = append(fs, types.NewField(0, pkg, "Q", types.Typ[types.Uint16], false))
	tags = append(tags, "")
	return types.NewStruct(fs, tags)
}

// broadProps are decided on every declaration of the hand-written catalogue.
var broadProps = map[string]bool{"C06": true, "C13": true, "C14": true, "C15": true, "C21": true, "C22": true, "K02": true}

// expand lists the concrete variants (starting offsets, byte orders) of the
// declarations tagged with prop.
func expand(cs []*Case, prop string, thorough bool) []*Case {
	var r []*Case
	for _, c := range cs {
		ok, broad := false, false
		for _, p := range strings.Split(c.dir["props"], ",") {
			if p == prop {
				ok = true
			} else if p == "X" && broadProps[prop] {
				broad = true
			}
		}
		broad = broad && !ok
		ok = ok || broad
		if !ok || (c.has("thorough") && !thorough) {
			continue
		}
		offs := []int{0}
		o, hasOff := c.dir["off"]
		switch {
		case broad && !thorough:
			if hasOff && o != "0" {
				offs = []int{5}
			}
		case o == "all" || (hasOff && thorough && o != "0"):
			offs = []int{0, 1, 2, 3, 4, 5, 6, 7}
		case hasOff:
			offs = nil
			for _, x := range strings.Split(o, ",") {
				n, _ := strconv.Atoi(x)
				offs = append(offs, n)
			}
		case thorough && !c.has("nowrap"):
			offs = []int{0, 3, 5}
		}
		for _, big := range []bool{true, false} {
			if o := c.dir["order"]; o != "" && o != "both" && (o == "big") != big {
				continue
			}
			for _, off := range offs {
				n := *c
				n.off, n.big = off, big
				n.fill = c.has("probe")
				r = append(r, &n)
				if c.has("foreign") || c.has("own") && !broad {
					m := n
					m.via = "own"
					r = append(r, &m)
				}
				if c.has("foreign") && !big {
					m := n
					m.via = "native"
					r = append(r, &m)
				}
			}
		}
	}
	return r
}

// ---- results

type Violation struct {
	Case    string   `json:"case"`
	Rule    string   `json:"rule"`
	Message string   `json:"message"`
	Where   []string `json:"where,omitempty"`
	Witness string   `json:"witness,omitempty"`
	Path    string   `json:"path,omitempty"`
	Known   string   `json:"known,omitempty"`
}

type Undecided struct {
	Case   string `json:"case"`
	Reason string `json:"reason"`
}

// Result accumulates what one worker decided.
type Result struct {
	cases, paths                    int
	obligations, byNF, byEnum, open int
	viols                           []Violation
	seen                            map[string]bool
	undecided                       []Undecided
	samples                         []string
	rules                           map[string]int
	notes                           map[string]int
	cov                             map[*ssa.Function]map[int]bool
}

func newResult() *Result {
	return &Result{seen: map[string]bool{}, rules: map[string]int{}, notes: map[string]int{}}
}

// run is the state of one case under analysis.
type run struct {
	e         *Engine
	res       *Result
	prop      string
	aspect    map[string]bool
	c         *Case
	name      string
	caseStart int
	thorough  bool
	lowExt    bool

	replaying bool
	pending   []pendingViolation
	calls     []string
	refNote   string
}

type pendingViolation struct {
	decs []decision
	v    Violation
	key  string
}

func (r *run) decided(rule string, how string) {
	if r.e.mute {
		return
	}
	r.res.obligations++
	r.res.rules[rule]++
	switch how {
	case "nf":
		r.res.byNF++
	case "enum":
		r.res.byEnum++
	case "open":
		r.res.open++
	}
}

// violate reports that rule fails here.
func (r *run) violate(rule, msg string, cell *Value, wit *valuation, where ...string) {
	if r.e.mute {
		return
	}
	v := Violation{Case: r.name, Rule: rule, Message: msg, Where: where}
	if wit != nil {
		v.Witness = short(wit.String(), 400)
	}
	key := r.name + "|" + rule + "|" + strings.Join(where, ";")
	if r.replaying {
		if cell != nil && r.e.trackW != nil {
			if s, ok := r.e.trackW[cell]; ok {
				v.Where = append(v.Where, "last written by "+s)
			}
		}
		for i := range r.pending {
			if r.pending[i].key == key {
				r.pending[i].v = v
				return
			}
		}
		return
	}
	if r.res.seen[key] {
		return
	}
	r.res.seen[key] = true
	r.pending = append(r.pending, pendingViolation{append([]decision(nil), r.e.decs[:r.e.dpos]...), v, key})
}

// require decides that cond holds on the current trace partition.
func (r *run) require(rule string, cond Bit, msg func(v *valuation) string, cell *Value, where ...string) bool {
	e := r.e
	b := e.dom.norm(cond)
	if e.mute {
		return b != bFalse
	}
	if b == bTrue {
		r.decided(rule, "nf")
		return true
	}
	v, found, exh := e.witnessX(func(v *valuation) bool { return !v.bit(cond) }, cond)
	if found {
		r.decided(rule, "viol")
		r.violate(rule, msg(v), cell, v, where...)
		return false
	}
	if exh {
		r.decided(rule, "enum")
	} else {
		r.decided(rule, "open")
	}
	return true
}

func (r *run) requireB(rule string, ok bool, msg string, cell *Value, where ...string) bool {
	if ok || r.e.mute {
		r.decided(rule, "nf")
		return ok
	}
	// the failing partition must be feasible
	v, found, exh := r.e.witnessX(nil)
	if found {
		r.decided(rule, "viol")
		r.violate(rule, msg, cell, v, where...)
		return false
	}
	if exh {
		r.decided(rule, "enum")
	} else {
		r.decided(rule, "open")
		r.res.undecided = append(r.res.undecided, Undecided{r.name, rule + ": " + msg + " on a partition not shown feasible"})
	}
	return true
}

func (e *Engine) witnessX(check func(v *valuation) bool, vals ...Bit) (*valuation, bool, bool) {
	set := map[int32]bool{}
	terms := false
	for _, a := range e.dom.asList {
		e.dom.Support(a, set, &terms)
	}
	for _, b := range vals {
		e.dom.Support(b, set, &terms)
	}
	n := 0
	for x := range set {
		if _, ok := e.dom.assume[x]; !ok {
			n++
		}
	}
	v, ok := e.witness(check, vals...)
	return v, ok, n <= 10
}

// explore runs job over all trace partitions and replays violating ones to
// name the constructs involved.
func (r *run) explore(job func()) {
	e := r.e
	before := e.paths
	r.pending = nil
	onAbort := func(a abort) {
		if e.mute && (a.kind == "deadlock") {
			e.mute = false
			defer func() { e.mute = true }()
		}
		switch a.kind {
		case "memory":
			if _, found, _ := e.witnessX(nil); found {
				r.decided("bounded-allocation", "viol")
				r.violate("bounded-allocation", "sets memory aside for "+a.msg, nil, nil)
				return
			}
		case "steps", "depth", "deadlock":
			what := map[string]string{"steps": "does not terminate", "depth": "recurses without bound", "deadlock": "blocks on a lock it already holds"}[a.kind]
			if _, found, _ := e.witnessX(nil); found {
				r.decided("terminates", "viol")
				r.violate("terminates", what+" ("+a.msg+")", nil, nil)
				return
			}
		}
		r.res.undecided = append(r.res.undecided, Undecided{r.name, short(a.String(), 300)})
	}
	wrapped := func() {
		if len(r.pending) > 6 {
			panic(abort{"infeasible", ""})
		}
		for i := 1; i <= e.preludes; i++ {
			r.prelude(i, job)
		}
		job()
		if e.mon != nil {
			e.mute = false
			e.mon.check(r)
			e.mute = true
		}
	}
	e.explore(wrapped, onAbort)
	r.res.paths += e.paths - before
	e.paths = 0
	for i, p := range r.pending {
		if i >= 3 {
			break
		}
		r.replaying = true
		e.trackW = map[*Value]string{}
		e.replay(p.decs, job)
		e.trackW = nil
		r.replaying = false
	}
	for _, p := range r.pending {
		p.v.Path = e.pathString(p.decs)
		r.res.viols = append(r.res.viols, p.v)
	}
	r.pending = nil
}

func (e *Engine) pathString(ds []decision) string {
	var b strings.Builder
	for _, d := range ds {
		if d.forced {
			continue
		}
		if d.val {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	return b.String()
}

// replay re-analyses one partition.
func (e *Engine) replay(decs []decision, job func()) {
	e.decs = append([]decision(nil), decs...)
	e.dpos = 0
	e.dom.resetPath()
	e.steps = 0
	e.depth = 0
	e.fr = nil
	e.locks = map[*Value]*lockState{}
	n := len(e.journal)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				panic(r)
			}
		}()
		job()
	}()
	e.rollback(n)
	e.watch = nil
	e.decs = nil
}

// ---- value comparison

type comparer struct {
	r       *run
	rule    string
	orig    map[*Value]*Value // reference cell -> original cell
	old     map[*Value]bool   // cells that existed before the call
	anc     []ancestor
	only    string // restrict to this path prefix
	done    map[[2]*Value]bool
	skipAnc bool
	counts  *refc
}

func (r *refc) isCount(t types.Type, i int) bool {
	for _, f := range r.fieldsOf(t) {
		if f.idx == i && f.target >= 0 {
			return true
		}
	}
	return false
}

func isAncField(tag string) bool {
	for _, o := range strings.Split(reflect.StructTag(tag).Get("struct"), ",") {
		if o == "root" || o == "parent" {
			return true
		}
	}
	return false
}

type ancestor struct {
	t types.Type
	p *Value
}

// deepCopy copies a tree of values, remembering which cell each copied
// pointer stands for.
func deepCopy(v Value, orig map[*Value]*Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = deepCopy(v[i], orig)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = deepCopy(v[i], orig)
		}
		return n
	case Slice:
		if v == nil {
			return Slice(nil)
		}
		n := make(Slice, len(v))
		for i := range v {
			n[i] = deepCopy(v[i], orig)
		}
		return n
	case *Value:
		if v == nil {
			return v
		}
		for c, o := range orig {
			if o == v {
				return c
			}
		}
		c := new(Value)
		orig[c] = v
		*c = deepCopy(*v, orig)
		return c
	}
	return v
}

// cellsOf collects every cell reachable from v.
func cellsOf(v *Value, set map[*Value]bool) {
	if v == nil || set[v] {
		return
	}
	set[v] = true
	switch x := (*v).(type) {
	case Struct:
		for i := range x {
			cellsOf(&x[i], set)
		}
	case Array:
		for i := range x {
			cellsOf(&x[i], set)
		}
	case Slice:
		for i := range x {
			cellsOf(&x[i], set)
		}
	case *Value:
		cellsOf(x, set)
	}
}

func (c *comparer) fail(path, msg string, cell *Value) {
	if c.only != "" && !strings.HasPrefix(path, c.only) {
		return
	}
	c.r.requireB(c.rule, false, path+": "+msg, cell)
}

// compare decides that the abstract value in cell equals the expected one.
func (c *comparer) compare(path string, t types.Type, cell *Value, exp Value) {
	e := c.r.e
	act := *cell
	k, w, _ := basicInfo(t)
	switch k {
	case kStruct:
		c.anc = append(c.anc, ancestor{t, cell})
		a, x := act.(Struct), exp.(Struct)
		st := t.Underlying().(*types.Struct)
		for i := range a {
			if c.skipAnc && isAncField(st.Tag(i)) || c.counts != nil && c.counts.isCount(t, i) {
				continue
			}
			p := path + "." + st.Field(i).Name()
			if path == "" {
				p = st.Field(i).Name()
			}
			c.compare(p, st.Field(i).Type(), &a[i], x[i])
		}
		c.anc = c.anc[:len(c.anc)-1]
		return
	case kArray:
		a, x := act.(Array), exp.(Array)
		for i := range a {
			c.compare(fmt.Sprintf("%s[%d]", path, i), elemType(t), &a[i], x[i])
		}
		return
	case kSlice:
		a, x := act.(Slice), exp.(Slice)
		if len(a) != len(x) {
			c.fail(path, fmt.Sprintf("has %d elements, expected %d", len(a), len(x)), cell)
			return
		}
		c.ok(path)
		for i := range a {
			c.compare(fmt.Sprintf("%s[%d]", path, i), elemType(t), &a[i], x[i])
		}
		return
	case kPtr:
		a, _ := act.(*Value)
		switch x := exp.(type) {
		case xAnc:
			var want *Value
			if x.root {
				want = c.anc[0].p
			} else {
				for i := len(c.anc) - 2; i >= 0; i-- {
					if types.AssignableTo(types.NewPointer(c.anc[i].t), t) {
						want = c.anc[i].p
						break
					}
				}
			}
			if a != want && x.moved && a != nil {
				if c.r.prop == "C18" && !c.r.e.mute {
					if _, found, _ := c.r.e.witnessX(nil); found {
						c.r.res.viols = append(c.r.res.viols, Violation{Case: c.r.name, Rule: c.rule, Known: movedFinding, Message: path + " refers to a copy of the enclosing element of a while slice"})
					}
				}
				return
			}
			if a != want {
				c.fail(path, "does not refer to the expected enclosing structure", cell)
				return
			}
			c.ok(path)
		case *xFresh:
			if a == nil {
				c.fail(path, "is nil after decoding", cell)
				return
			}
			if c.old[a] && !x.keep {
				c.fail(path, "was not freshly allocated", cell)
				return
			}
			c.ok(path)
			c.compare("(*"+path+")", elemType(t), a, x.v)
		case *Value:
			if x == nil {
				if a != nil {
					c.fail(path, "was set although it has no encoding", cell)
					return
				}
				c.ok(path)
				return
			}
			if a != c.orig[x] {
				c.fail(path, "pointer was changed", cell)
				return
			}
			c.ok(path)
			if c.done[[2]*Value{a, x}] {
				return
			}
			if c.done == nil {
				c.done = map[[2]*Value]bool{}
			}
			c.done[[2]*Value{a, x}] = true
			c.compare("(*"+path+")", elemType(t), a, *x)
		}
		return
	case kString:
		a, ok1 := strBytes(act)
		x, ok2 := strBytes(exp)
		if !ok1 || !ok2 {
			e.unsupported("opaque string compared")
		}
		if len(a) != len(x) {
			c.fail(path, fmt.Sprintf("has %d bytes, expected %d", len(a), len(x)), cell)
			return
		}
		eq := bTrue
		for i := range a {
			eq = e.dom.And(eq, e.dom.eq(a[i], x[i], 8))
		}
		c.leaf(path, t, act, exp, eq, cell)
		return
	case kBool:
		c.leaf(path, t, act, exp, e.dom.Xor(boolBit(act), boolBit(exp)).Not(), cell)
		return
	case kInt:
		c.leaf(path, t, act, exp, e.dom.eq(act, exp, w), cell)
		return
	case kFloat:
		c.leaf(path, t, act, exp, e.dom.eq(e.dom.floatBits(act, w), e.dom.floatBits(exp, w), w), cell)
		return
	case kComplex:
		ar, ai := realImag(act)
		xr, xi := realImag(exp)
		h := w / 2
		eq := e.dom.And(e.dom.eq(e.dom.floatBits(ar, h), e.dom.floatBits(xr, h), h), e.dom.eq(e.dom.floatBits(ai, h), e.dom.floatBits(xi, h), h))
		c.leaf(path, t, act, exp, eq, cell)
		return
	}
}

// differ decides that two decodings agree on everything the input determines:
// the parts on which the reference results agree.
type differ struct {
	r    *run
	rule string
	old  map[*Value]bool
	orig map[*Value]*Value
	done map[[2]*Value]bool
}

func (d *differ) fail(path, msg string, cell *Value) {
	d.r.requireB(d.rule, false, path+": "+msg, cell)
}

func (d *differ) same(path string, t types.Type, c0, c1 *Value, x0, x1 Value) {
	e := d.r.e
	a0, a1 := *c0, *c1
	k, w, _ := basicInfo(t)
	switch k {
	case kStruct:
		s0, s1 := a0.(Struct), a1.(Struct)
		y0, y1 := x0.(Struct), x1.(Struct)
		st := t.Underlying().(*types.Struct)
		for i := range s0 {
			p := path + "." + st.Field(i).Name()
			if path == "" {
				p = st.Field(i).Name()
			}
			d.same(p, st.Field(i).Type(), &s0[i], &s1[i], y0[i], y1[i])
		}
	case kArray:
		s0, s1 := a0.(Array), a1.(Array)
		y0, y1 := x0.(Array), x1.(Array)
		for i := range s0 {
			d.same(fmt.Sprintf("%s[%d]", path, i), elemType(t), &s0[i], &s1[i], y0[i], y1[i])
		}
	case kSlice:
		s0, s1 := a0.(Slice), a1.(Slice)
		y0, y1 := x0.(Slice), x1.(Slice)
		if len(y0) != len(y1) {
			return
		}
		if len(s0) != len(s1) {
			if len(y0) > 0 || d.orig != nil || len(s0) != len(y0) || (y1 != nil) == (y0 != nil) {
				d.fail(path, fmt.Sprintf("has %d elements or %d, depending on what the destination held", len(s0), len(s1)), c1)
			}
			return
		}
		d.r.decided(d.rule, "nf")
		for i := range s0 {
			if i < len(y0) {
				d.same(fmt.Sprintf("%s[%d]", path, i), elemType(t), &s0[i], &s1[i], y0[i], y1[i])
			}
		}
	case kPtr:
		p0, _ := a0.(*Value)
		p1, _ := a1.(*Value)
		if _, ok := x0.(xAnc); ok {
			return
		}
		f0, ok0 := x0.(*xFresh)
		f1, ok1 := x1.(*xFresh)
		if ok0 && ok1 {
			if (p0 == nil) != (p1 == nil) {
				d.fail(path, "is nil or not, depending on what the destination held", c1)
				return
			}
			if p0 == nil {
				return
			}
			if d.old[p1] && !f1.keep {
				d.fail(path, "still refers to the memory the destination referred to before", c1)
				return
			}
			d.r.decided(d.rule, "nf")
			d.same("(*"+path+")", elemType(t), p0, p1, f0.v, f1.v)
			return
		}
		v0, ok0 := x0.(*Value)
		v1, ok1 := x1.(*Value)
		if !ok0 || !ok1 || (v0 == nil) != (v1 == nil) {
			return
		}
		if v0 == nil {
			if (p0 == nil) != (p1 == nil) {
				d.fail(path, "is nil or not, depending on what the destination held", c1)
			}
			return
		}
		if d.orig == nil {
			return
		}
		if p1 != d.orig[p0] {
			d.fail(path, "pointer was changed", c1)
			return
		}
		if d.done == nil {
			d.done = map[[2]*Value]bool{}
		}
		if d.done[[2]*Value{p0, p1}] {
			return
		}
		d.done[[2]*Value{p0, p1}] = true
		d.same("(*"+path+")", elemType(t), p0, p1, *v0, *v1)
	case kString, kBool, kInt, kFloat, kComplex:
		if !e.sameLeaf(k, w, x0, x1).isTrue(e) {
			return
		}
		eq := e.sameLeaf(k, w, a0, a1)
		d.r.require(d.rule, Bit(eq), func(v *valuation) string {
			return fmt.Sprintf("%s: got %s or %s, depending on what the destination held", path, showAt(e, v, a0), showAt(e, v, a1))
		}, c1)
	}
}

type bit Bit

func (b bit) isTrue(e *Engine) bool { return e.dom.norm(Bit(b)) == bTrue }

func (e *Engine) sameLeaf(k vkind, w int, a, b Value) bit {
	switch k {
	case kString:
		x, ok1 := strBytes(a)
		y, ok2 := strBytes(b)
		if !ok1 || !ok2 {
			e.unsupported("opaque string compared")
		}
		if len(x) != len(y) {
			return bit(bFalse)
		}
		eq := bTrue
		for i := range x {
			eq = e.dom.And(eq, e.dom.eq(x[i], y[i], 8))
		}
		return bit(eq)
	case kBool:
		return bit(e.dom.Xor(boolBit(a), boolBit(b)).Not())
	case kInt:
		return bit(e.dom.eq(a, b, w))
	case kFloat:
		return bit(e.dom.eq(e.dom.floatBits(a, w), e.dom.floatBits(b, w), w))
	}
	ar, ai := realImag(a)
	br, bi := realImag(b)
	h := w / 2
	return bit(e.dom.And(e.dom.eq(e.dom.floatBits(ar, h), e.dom.floatBits(br, h), h), e.dom.eq(e.dom.floatBits(ai, h), e.dom.floatBits(bi, h), h)))
}

func (c *comparer) ok(path string) {
	if c.only != "" && !strings.HasPrefix(path, c.only) {
		return
	}
	c.r.decided(c.rule, "nf")
}

func (c *comparer) leaf(path string, t types.Type, act, exp Value, eq Bit, cell *Value) {
	if c.only != "" && !strings.HasPrefix(path, c.only) {
		return
	}
	e := c.r.e
	c.r.require(c.rule, eq, func(v *valuation) string {
		return fmt.Sprintf("%s: got %s, expected %s", path, showAt(e, v, act), showAt(e, v, exp))
	}, cell)
}

func showAt(e *Engine, v *valuation, x Value) (s string) {
	defer func() {
		if recover() != nil {
			s = short(e.describe(x), 80)
		}
	}()
	c := v.val(x)
	if u, ok := c.(uint64); ok {
		return fmt.Sprintf("%#x", u)
	}
	return e.describe(c)
}

// ---- entry points of the analysed package

func (e *Engine) orderIface(big bool) Iface {
	n := "LittleEndian"
	if big {
		n = "BigEndian"
	}
	switch e.via {
	case "native":
		n = "NativeEndian"
	case "own":
		T := e.prog.cat.Pkg.Scope().Lookup("Own" + n).Type()
		return Iface{T, zero(T)}
	case "nil":
		return Iface{}
	}
	g := e.prog.pkgs["encoding/binary"].Var(n)
	return Iface{g.Type().(*types.Pointer).Elem(), *e.global(g)}
}

func (e *Engine) rootFn(name string) *ssa.Function {
	f := e.prog.root.Func(name)
	if f == nil {
		panic(abort{"unsupported", "entry point " + name + " not found"})
	}
	return f
}

type apiResult struct {
	data  Slice
	n     Value
	err   bool
	errV  Iface
	panic *Iface
	trace []string
}

// prelude runs the job once with concrete values, as history.
func (r *run) prelude(i int, job func()) {
	e := r.e
	mute, steps := e.mute, e.steps
	dpos := e.dpos
	e.mute, e.inPrelude = true, i
	e.dom.conc = func(name string) bool {
		h := uint32(2166136261 + i)
		for j := 0; j < len(name); j++ {
			h = (h ^ uint32(name[j])) * 16777619
		}
		h ^= h >> 15
		if i%2 == 1 {
			if k := strings.LastIndexByte(name, '.'); k >= 0 && !strings.HasPrefix(name, "choice.") {
				b, _ := strconv.Atoi(name[k+1:])
				return b == 0 && h&8 != 0 || b == 1 && h&64 != 0
			}
		}
		return h&32 != 0
	}
	defer func() {
		x := recover()
		e.mute, e.inPrelude, e.dom.conc, e.steps = mute, 0, nil, steps
		e.watch, e.reverseMaps = nil, false
		if x != nil {
			switch x := x.(type) {
			case abort:
				if x.kind == "deadlock" {
					panic(x)
				}
				e.locks = map[*Value]*lockState{}
				if e.mon != nil {
					e.mon.depth = 0
				}
				e.depth, e.fr = 0, nil
			case targetPanic, exprPanic, refSkip, refFail:
				e.depth, e.fr = 0, nil
			default:
				panic(x)
			}
		}
		if e.dpos != dpos {
			panic("prelude forks")
		}
	}()
	job()
}

func (e *Engine) doPack(big bool, v Iface) apiResult {
	r := e.call(e.rootFn("Pack"), e.orderIface(big), v)
	if r.panic != nil {
		return apiResult{panic: r.panic, trace: r.trace}
	}
	t := r.v.(Tuple)
	d, _ := t[0].(Slice)
	ev := t[1].(Iface)
	return apiResult{data: d, err: ev.T != nil, errV: ev}
}

func (e *Engine) doUnpack(data Slice, big bool, v Iface) apiResult {
	r := e.call(e.rootFn("Unpack"), data, e.orderIface(big), v)
	if r.panic != nil {
		return apiResult{panic: r.panic, trace: r.trace}
	}
	ev := r.v.(Iface)
	return apiResult{err: ev.T != nil, errV: ev}
}

func (e *Engine) doSize(fn string, v Iface) apiResult {
	r := e.call(e.rootFn(fn), v)
	if r.panic != nil {
		return apiResult{panic: r.panic, trace: r.trace}
	}
	t := r.v.(Tuple)
	ev := t[1].(Iface)
	return apiResult{n: t[0], err: ev.T != nil, errV: ev}
}

// ---- the reference side

// refRun evaluates f and reports whether the specification calls the outcome
// an error.
func refRun(f func()) (failed bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(refFail); ok {
				failed, why = true, x.why
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

func bytesOf(e *Engine, bits []Bit, free bool) Slice {
	for i := 0; len(bits)%8 != 0; i++ {
		b := bFalse
		if free {
			b = e.dom.Var("tail." + strconv.Itoa(i))
		}
		bits = append(bits, b)
	}
	s := make(Slice, len(bits)/8)
	for i := range s {
		b := make([]Bit, 8)
		for j := range b {
			b[7-j] = bits[i*8+j]
		}
		s[i] = lower(&BV{b})
	}
	return s
}

func (r *run) noPanic(op string, a apiResult) bool {
	if a.panic != nil {
		r.requireB("returns", false, op+" panics: "+r.e.describe(*a.panic), nil, a.trace...)
		return false
	}
	r.decided("returns", "nf")
	if r.prop == "C14" {
		r.message(op, a.errV)
	}
	return true
}

// message requires the text of an error of the repository's own types to be
// available: its Error method returns.
func (r *run) message(what string, err Iface) {
	if err.T == nil {
		return
	}
	n, _ := err.T.(*types.Named)
	if p, ok := err.T.(*types.Pointer); ok {
		n, _ = p.Elem().(*types.Named)
	}
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoPath) {
		return
	}
	f := r.e.methodByName(err.T, nil, "Error")
	if f == nil {
		return
	}
	if c := r.e.call(f, err.V); c.panic != nil {
		r.requireB("message", false, "the Error method of the error of "+what+" panics: "+r.e.describe(*c.panic), nil, c.trace...)
		return
	}
	r.decided("message", "nf")
}

func (r *run) errMatch(op string, a apiResult, want bool, why string) bool {
	if a.err && !want && !r.on("err") {
		return false // another property's concern
	}
	if a.err != want {
		if want {
			r.requireB("error", false, op+" succeeds where an error is required ("+why+")", nil)
		} else {
			r.requireB("error", false, op+" fails on a valid input: "+r.e.describe(a.errV), nil, r.errorSites()...)
		}
		return false
	}
	r.decided("error", "nf")
	return !want
}

func (r *run) errorSites() []string { return r.e.lastTrace }

// encodeCase decides Pack, SizeOf and BitSize against the reference.
func (r *run) encodeCase() {
	e := r.e
	T := r.c.wrapped()
	r.explore(func() {
		rf := newRef(e)
		rf.int8Low = r.int8Known()
		rf.little = !r.c.big
		rf.packing = false
		g := &gen{e: e, r: rf}
		if r.prop == "C18" {
			g.stale = e.choose(2, "stale") == 1
		}
		v := g.value(T, nil, "", 0)
		p := newCell(v)
		orig := map[*Value]*Value{}
		exp := deepCopy(*p, orig)
		failed, why := refRun(func() { rf.encode(topField(T), exp, func(x Value) { exp = x }) })
		pi := Iface{types.NewPointer(T), p}
		want := (len(rf.out) + 7) / 8
		if r.on("presize") && !failed && !hasCounts(rf, T, map[types.Type]bool{}) {
			r.sizes(pi, len(rf.out), want)
		}
		if !r.on("pack") {
			return
		}
		a := e.doPack(r.c.big, pi)
		if !r.noPanic("Pack", a) {
			return
		}
		if r.on("nodata") && a.err {
			r.requireB("no data with error", len(a.data) == 0, "Pack returns data together with an error", nil)
		}
		if r.on("err") || r.on("errreq") {
			if !r.errMatch("Pack", a, failed, why) {
				return
			}
		}
		if failed || a.err {
			return
		}
		if r.on("len") {
			r.requireB("packed length", len(a.data) == want, fmt.Sprintf("Pack returns %d bytes, the value encodes to %d bits", len(a.data), len(rf.out)), nil)
		}
		if r.on("bytes") && len(a.data) == want {
			xb := bytesOf(e, rf.out, false)
			for i := range xb {
				i := i
				r.require("encoding", e.dom.eq(a.data[i], xb[i], 8), func(v *valuation) string {
					return fmt.Sprintf("byte %d of the encoding is %s, expected %s", i, showAt(e, v, a.data[i]), showAt(e, v, xb[i]))
				}, &a.data[i])
			}
		}
		if r.on("src") {
			c := &comparer{r: r, rule: "source after Pack", orig: orig}
			if r.on("srconly") {
				// the values of counts and back-references are other properties
				c.skipAnc, c.counts = true, rf
			}
			c.compare("", T, p, exp)
		}
		if r.on("alias") {
			cells := map[*Value]bool{}
			cellsOf(p, cells)
			for i := range a.data {
				if cells[&a.data[i]] {
					r.requireB("result aliasing", false, "the packed bytes share memory with the value", &a.data[i])
					break
				}
			}
		}
		if r.on("size") {
			r.sizes(pi, len(rf.out), want)
		}
		if r.on("byval") {
			r.byValue(T, p, a.data, len(rf.out))
		}
		if r.on("packagain") {
			b := e.doPack(r.c.big, pi)
			if r.noPanic("second Pack", b) && r.errMatch("second Pack", b, false, "") && len(b.data) == len(a.data) {
				for i := range b.data {
					r.require("repeated Pack", e.dom.eq(a.data[i], b.data[i], 8), func(v *valuation) string {
						return fmt.Sprintf("byte %d differs between two Pack calls on the same value", i)
					}, &b.data[i])
				}
			}
		}
	})
}

func hasCounts(rf *refc, t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, f := range rf.fieldsOf(t) {
			if f.target >= 0 || hasCounts(rf, f.nat, seen) || hasCounts(rf, f.bin, seen) {
				return true
			}
		}
	case *types.Array, *types.Slice, *types.Pointer:
		return hasCounts(rf, elemType(u), seen)
	}
	return false
}

func (r *run) sizes(pi Iface, bits, bytes int) {
	e := r.e
	for i, fn := range []string{"SizeOf", "BitSize"} {
		want := uint64(bytes)
		if i == 1 {
			want = uint64(bits)
		}
		s := e.doSize(fn, pi)
		if !r.noPanic(fn, s) || !r.errMatch(fn, s, false, "") {
			continue
		}
		r.require("size", e.dom.eq(s.n, want, 64), func(v *valuation) string {
			return fmt.Sprintf("%s reports %s, the encoding has %d bits", fn, showAt(e, v, s.n), bits)
		}, nil)
	}
}

func (r *run) byValue(T types.Type, p *Value, data Slice, bits int) {
	e := r.e
	arg := copyVal(*p)
	orig := map[*Value]*Value{}
	exp := deepCopy(arg, orig)
	vi := Iface{T, arg}
	a := e.doPack(r.c.big, vi)
	if !r.noPanic("Pack by value", a) || !r.errMatchAlways("Pack by value", a) {
		return
	}
	if r.requireB("by value", len(a.data) == len(data), fmt.Sprintf("Pack gives %d bytes for the value and %d for a pointer to it", len(a.data), len(data)), nil) {
		for i := range data {
			r.require("by value", e.dom.eq(a.data[i], data[i], 8), func(v *valuation) string {
				return fmt.Sprintf("byte %d differs between the value and a pointer to it", i)
			}, &a.data[i])
		}
	}
	c := &comparer{r: r, rule: "by-value argument", orig: orig, skipAnc: true}
	c.compare("", T, newCellRaw(arg), exp)
	for _, fn := range []string{"SizeOf", "BitSize"} {
		sp, sv := e.doSize(fn, Iface{types.NewPointer(T), p}), e.doSize(fn, vi)
		if sp.panic != nil || sp.err || !r.noPanic(fn+" by value", sv) || !r.errMatchAlways(fn+" by value", sv) {
			continue
		}
		r.require("by value", e.dom.eq(sp.n, sv.n, 64), func(v *valuation) string {
			return fmt.Sprintf("%s gives %s for the value and %s for a pointer to it", fn, showAt(e, v, sv.n), showAt(e, v, sp.n))
		}, nil)
	}
}

func (r *run) errMatchAlways(op string, a apiResult) bool {
	if a.err {
		r.requireB("by value", false, op+" fails although it succeeds for a pointer: "+r.e.describe(a.errV), nil, r.errorSites()...)
		return false
	}
	return true
}

func newCellRaw(v Value) *Value {
	c := new(Value)
	*c = v
	return c
}

// decodeCase decides Unpack against the reference: destination, input,
// truncations and repetition.
func (r *run) decodeCase() {
	e := r.e
	T := r.c.wrapped()
	r.explore(func() {
		rf := newRef(e)
		rf.int8Low = r.int8Known()
		rf.little = !r.c.big
		var in Slice
		var bits []Bit
		if s, ok := r.c.dir["raw"]; ok {
			n, _ := strconv.Atoi(s)
			for i := 0; i < n*8; i++ {
				bits = append(bits, e.dom.Var(fmt.Sprintf("in%d.%d", i/8, 7-i%8)))
			}
			in = bytesOf(e, bits, false)
		} else {
			rf.free = true
			g := &gen{e: e, r: rf}
			v := g.value(T, nil, "", 0)
			failed, _ := refRun(func() { rf.encode(topField(T), v, func(x Value) { v = x }) })
			if failed {
				// there is no encoding: decode what was written so far and
				// some bytes more
				for i := 0; i < 8*8; i++ {
					rf.out = append(rf.out, e.dom.Var(fmt.Sprintf("more%d.%d", i/8, 7-i%8)))
				}
			}
			in = bytesOf(e, rf.out, true)
			bits = nil
			for _, b := range in {
				bv := lift(b, 8)
				for j := 7; j >= 0; j-- {
					bits = append(bits, bv.b[j])
				}
			}
		}
		if s, ok := r.c.dir["extra"]; ok {
			n, _ := strconv.Atoi(s)
			for i := 0; i < n*8; i++ {
				bits = append(bits, e.dom.Var(fmt.Sprintf("extra%d.%d", i/8, 7-i%8)))
			}
			in = bytesOf(e, bits, false)
		}
		cuts := []int{len(in)}
		if r.on("trunc") {
			for k := len(in) - 1; k >= 0; k-- {
				cuts = append(cuts, k)
			}
		}
		for _, k := range cuts {
			rd := newRef(e)
			rd.int8Low = r.int8Known()
			rd.little = !r.c.big
			rd.decoding = true
			rd.in = bits[:k*8]
			g := &gen{e: e, r: rd, pre: "old.", dirty: true, stale: r.prop == "C18"}
			var old Value
			if (r.on("dirty") || r.on("diff")) && k == len(in) {
				old = g.value(T, nil, "", 0)
			} else {
				old = zero(T)
			}
			q := newCell(old)
			oldCells := map[*Value]bool{}
			cellsOf(q, oldCells)
			orig := map[*Value]*Value{}
			exp := deepCopy(*q, orig)
			failed, why := refRun(func() { rd.decode(topField(T), exp, func(x Value) { exp = x }) })
			data := in[:k]
			var watched bool
			snap := append(Slice(nil), in...)
			if r.on("input") {
				e.watch = map[*Value]string{}
				for i := range in {
					e.watch[&in[i]] = "input"
				}
				e.onWatch = func(p *Value, l string) {
					if !watched {
						watched = true
						r.requireB("input unmodified", false, "Unpack writes to its input", p, e.traceFrom(e.fr, 4)...)
					}
				}
			}
			a := e.doUnpack(data, r.c.big, Iface{types.NewPointer(T), q})
			e.watch = nil
			if !r.noPanic("Unpack", a) {
				continue
			}
			if r.on("input") && !watched && k == len(in) {
				r.decided("input unmodified", "nf")
				for i := range in {
					r.require("input unmodified", e.dom.eq(in[i], snap[i], 8), func(*valuation) string { return "Unpack changes its input" }, &in[i])
				}
			}
			if k < len(in) && !r.on("trunc") {
				continue
			}
			if r.on("err") || r.on("errreq") {
				if !r.errMatch(fmt.Sprintf("Unpack of %d of %d bytes", k, len(in)), a, failed, why) {
					continue
				}
			}
			if failed || a.err {
				continue
			}
			if r.on("input") {
				// what is appended to a decoded slice goes neither to the
				// input nor to another part of the destination
				cells := map[*Value]bool{}
				cellsOf(q, cells)
				room := ""
				for cell := range cells {
					s, ok := (*cell).(Slice)
					if !ok {
						continue
					}
					for i := len(s); i < cap(s) && room == ""; i++ {
						p := &s[:cap(s)][i]
						if cells[p] {
							room = "another decoded slice"
						}
						for j := range in {
							if p == &in[j] {
								room = "the input"
							}
						}
					}
				}
				r.requireB("room of decoded slices", room == "", "appending to a decoded slice overwrites "+room, nil)
			}
			if r.on("tree") || r.on("probe") {
				c := &comparer{r: r, rule: "decoded value", orig: orig, old: oldCells}
				if !r.on("tree") {
					c.only = "Q"
					c.rule = "consumed bits"
				}
				c.compare("", T, q, exp)
			}
			if r.on("diff") && k == len(in) {
				// the same input decoded into an empty destination
				r0 := newRef(e)
				r0.int8Low, r0.little, r0.decoding, r0.in = r.int8Known(), !r.c.big, true, bits[:k*8]
				exp0 := zero(T)
				f0, _ := refRun(func() { r0.decode(topField(T), exp0, func(x Value) { exp0 = x }) })
				q0 := newCell(zero(T))
				b := e.doUnpack(data, r.c.big, Iface{types.NewPointer(T), q0})
				if !f0 && b.panic == nil && !b.err {
					d := &differ{r: r, rule: "previous content", old: oldCells}
					d.same("", T, q0, q, exp0, exp)
				}
			}
			if r.on("idem") && k == len(in) {
				snapOrig := map[*Value]*Value{}
				snapQ := newCellRaw(deepCopy(*q, snapOrig))
				b := e.doUnpack(data, r.c.big, Iface{types.NewPointer(T), q})
				if r.requireB("repeated decoding", b.panic == nil && !b.err, "decoding the same input again into the same destination fails", nil) {
					d := &differ{r: r, rule: "repeated decoding", orig: snapOrig}
					d.same("", T, snapQ, q, exp, exp)
				}
			}
			if r.on("reenc") && k == len(in) {
				r.reencode(T, q)
			}
		}
	})
}

// reencode decides that packing a decoded value and decoding it again gives
// the same value.
func (r *run) reencode(T types.Type, q *Value) {
	e := r.e
	a := e.doPack(r.c.big, Iface{types.NewPointer(T), q})
	if !r.noPanic("Pack of a decoded value", a) || !r.errMatch("Pack of a decoded value", a, false, "") {
		return
	}
	q2 := newCell(zero(T))
	b := e.doUnpack(a.data, r.c.big, Iface{types.NewPointer(T), q2})
	if !r.noPanic("Unpack of a re-encoded value", b) || !r.errMatch("Unpack of a re-encoded value", b, false, "") {
		return
	}
}

func (r *run) on(a string) bool { return r.aspect[a] }

// int8Known makes the reference extend signed 8-bit-wide bit fields from their
// lowest bit, the recorded exception to C03.
func (r *run) int8Known() bool { return r.prop != "C03" || r.lowExt }

const int8Finding = "int8-low-bit"

// movedFinding: references into the elements of a while slice are taken while
// the slice still grows.
const movedFinding = "while-moved-parent"

func (r *run) runCase(c *Case) {
	if r.prop == "C03" && c.has("int8known") {
		// Either two's complement, or exactly the recorded deviation.
		nv, nu, seen := len(r.res.viols), len(r.res.undecided), r.res.seen
		for _, z := range []bool{false, true} {
			r.res.viols, r.res.undecided, r.res.seen = r.res.viols[:nv], r.res.undecided[:nu], map[string]bool{}
			r.lowExt = z
			r.runCase1(c)
			r.lowExt = false
			if len(r.res.viols) == nv {
				if z {
					r.res.viols = append(r.res.viols, Violation{Case: c.String(), Rule: "decoded value", Known: int8Finding, Message: "signed bit field extended from its lowest bit"})
				}
				r.res.seen = seen
				return
			}
		}
		// Neither: report the difference from two's complement.
		r.res.viols, r.res.undecided, r.res.seen = r.res.viols[:nv], r.res.undecided[:nu], seen
	}
	r.runCase1(c)
}

func (r *run) runCase1(c *Case) {
	r.c = c
	r.e.via = c.via
	defer func() { r.e.via = "" }()
	r.name = c.String()
	r.res.cases++
	n := len(r.res.viols)
	if m := c.dir["modes"]; m == "" || strings.Contains(m, "enc") {
		if r.on("pack") || r.on("presize") {
			r.encodeCase()
		}
	}
	if m := c.dir["modes"]; m == "" || strings.Contains(m, "dec") {
		if r.on("unpack") {
			r.decodeCase()
		}
	}
	if len(r.res.samples) < 4 && len(r.res.viols) == n {
		r.res.samples = append(r.res.samples, r.name+": "+short(types.TypeString(c.typ.Underlying(), func(*types.Package) string { return "" }), 200))
	}
}

func setOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

func (res *Result) merge(o *Result) {
	res.cases += o.cases
	res.paths += o.paths
	res.obligations += o.obligations
	res.byNF += o.byNF
	res.byEnum += o.byEnum
	res.open += o.open
	res.viols = append(res.viols, o.viols...)
	res.undecided = append(res.undecided, o.undecided...)
	res.samples = append(res.samples, o.samples...)
	for k, v := range o.rules {
		res.rules[k] += v
	}
	for k, v := range o.notes {
		res.notes[k] += v
	}
}

func (res *Result) sort() {
	sort.Slice(res.viols, func(i, j int) bool { return res.viols[i].Case+res.viols[i].Rule < res.viols[j].Case+res.viols[j].Rule })
	sort.Slice(res.undecided, func(i, j int) bool {
		return res.undecided[i].Case+res.undecided[i].Reason < res.undecided[j].Case+res.undecided[j].Reason
	})
	sort.Strings(res.samples)
}
