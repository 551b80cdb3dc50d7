package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

//go:embed catalog/*.txt
var catalogFS embed.FS

// Ctx is one run of one check.
type Ctx struct {
	prog     *Program
	prop     string
	thorough bool
	seed     int64
	cases    []*Case
	verbose  bool
	filter   string
	engines  chan *Engine
	start    time.Time

	mute     bool    // only what the monitor finds counts
	mon      *monAgg // record accesses to shared memory
	preludes int     // concrete runs of a job before it, on the same path
	pool     *pool
	aged     bool // engines have a history of other operations
	sample   int  // take every n-th job

	tier, out string
}

func (res *Result) unknown() int {
	n := 0
	for _, v := range res.viols {
		if v.Known == "" {
			n++
		}
	}
	return n
}

// pool keeps engines between the families of one check.
type pool struct {
	sync.Mutex
	idle []*Engine
}

type checkFn struct {
	run  func(c *Ctx) *Result
	rule string
}

var checks = map[string]checkFn{}

func (c *Ctx) newEngine() (*Engine, error) {
	if c.pool != nil {
		c.pool.Lock()
		defer c.pool.Unlock()
		if l := c.pool.idle; len(l) > 0 {
			e := l[len(l)-1]
			c.pool.idle = l[:len(l)-1]
			return e, nil
		}
		c.pool.Unlock()
		defer c.pool.Lock()
	}
	e := newEngine(c.prog)
	if err := e.initialise(); err != nil {
		return nil, err
	}
	if f := c.prog.root.Func("EnableExprBeta"); f != nil {
		if r := e.call(f); r.panic != nil {
			return nil, fmt.Errorf("EnableExprBeta panics")
		}
	}
	if c.aged {
		c.age(e)
	}
	e.journal = nil
	e.cov = map[*blockT]bool{}
	e.mute, e.preludes = c.mute, c.preludes
	if c.mon != nil {
		m := newMonitor(e, c.mon)
		e.mon = m
		e.onAccess, e.mapHook, e.onLock = m.touch, m.touchMap, m.lock
	}
	return e, nil
}

// timeLimit bounds the scheduling of a check; what it does not reach is
// reported as undecided.
const timeLimit = 780 * time.Second

// parallel runs n jobs on a pool of engines.
func (c *Ctx) parallel(n int, job func(e *Engine, res *Result, i int)) *Result {
	total := newResult()
	workers := runtime.GOMAXPROCS(0)
	if workers > 8 {
		workers = 8
	}
	if workers > n {
		workers = n
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	var fatal interface{}
	var covs []map[*blockT]bool
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					fatal = fmt.Sprintf("%v\n%s", r, debug.Stack())
					mu.Unlock()
				}
			}()
			e, err := c.newEngine()
			if err != nil {
				mu.Lock()
				fatal = err
				mu.Unlock()
				return
			}
			res := newResult()
			used, merged := 0, time.Now()
			for {
				mu.Lock()
				i := next
				next++
				stop := fatal != nil || total.unknown() > 40
				mu.Unlock()
				if i >= n || stop {
					break
				}
				if c.sample > 1 && int(uint32(i)*2654435761>>12)%c.sample != 0 {
					continue
				}
				if time.Since(c.start) > timeLimit {
					res.undecided = append(res.undecided, Undecided{Case: fmt.Sprintf("job %d of %d", i, n), Reason: "time: not reached within the time limit"})
					continue
				}
				if used++; len(e.dom.nodes) > 1500000 {
					cov := e.cov
					e, err = c.newEngine()
					if err != nil {
						panic(err)
					}
					e.cov = cov
				}
				nv := len(res.viols)
				job(e, res, i)
				if c.aged && len(res.viols) > nv {
					res.viols = append(res.viols[:nv:nv], c.newOnly(res.viols[nv:], job, i)...)
				}
				if len(res.viols) > 0 || time.Since(merged) > 3*time.Second {
					mu.Lock()
					total.merge(res)
					mu.Unlock()
					res, merged = newResult(), time.Now()
				}
			}
			mu.Lock()
			total.merge(res)
			covs = append(covs, e.cov)
			mu.Unlock()
			if c.pool != nil && len(e.dom.nodes) < 1000000 {
				e.cov = map[*blockT]bool{}
				c.pool.Lock()
				c.pool.idle = append(c.pool.idle, e)
				c.pool.Unlock()
			}
		}()
	}
	done := make(chan bool)
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Until(c.start.Add(timeLimit + 70*time.Second))):
		// some case does not come to an end: report what is decided
		mu.Lock()
		total.undecided = append(total.undecided, Undecided{Case: "cases in progress", Reason: "time: not finished within the time limit"})
		os.Exit(report(c, total, checks[c.prop], c.tier, c.out))
	}
	if fatal != nil {
		fmt.Fprintln(os.Stderr, "rsa: internal error:", fatal)
		os.Exit(2)
	}
	for _, cv := range covs {
		for b := range cv {
			total.addCov(c.prog, b)
		}
	}
	return total
}

// budget bounds the work spent on one case.
func (c *Ctx) budget(e *Engine) {
	t := time.Now()
	n0 := len(e.dom.nodes)
	limit := 30 * time.Second
	if c.thorough {
		limit = 150 * time.Second
	}
	e.stop = func() string {
		if time.Since(t) > limit {
			return "time budget of the declaration used up"
		}
		if len(e.dom.nodes)-n0 > 8000000 {
			return "memory budget of the declaration used up"
		}
		return ""
	}
}

func (c *Ctx) codec(aspects string) *Result { return c.codecOn(c.cases, aspects) }

func (c *Ctx) codecOn(from []*Case, aspects string) *Result {
	cs := expand(from, c.prop, c.thorough)
	if c.filter != "" {
		var f []*Case
		for _, x := range cs {
			if strings.Contains(x.String(), c.filter) {
				f = append(f, x)
			}
		}
		cs = f
	}
	asp := setOf(aspects)
	return c.parallel(len(cs), func(e *Engine, res *Result, i int) {
		r := &run{e: e, res: res, prop: c.prop, aspect: asp, thorough: c.thorough}
		t := time.Now()
		n0 := len(e.dom.nodes)
		c.budget(e)
		p0 := res.paths
		r.runCase(cs[i])
		e.stop = nil
		if c.verbose {
			if d := time.Since(t); d > 500*time.Millisecond {
				fmt.Fprintf(os.Stderr, "%6.2fs %6d paths %9d nodes %s\n", d.Seconds(), res.paths-p0, len(e.dom.nodes)-n0, cs[i])
			}
		}
	})
}

func allCatalogueSource() string {
	var b strings.Builder
	b.WriteString("package cat\n\nimport (\n\t\"encoding/binary\"\n\t\"errors\"\n\t\"io\"\n\trestruct \"" + repoPath + "\"\n)\n\nvar _ binary.ByteOrder\nvar _ = errors.New\nvar _ = io.EOF\nvar _ restruct.Packer\n\n")
	fs, _ := catalogFS.ReadDir("catalog")
	for _, f := range fs {
		d, _ := catalogFS.ReadFile("catalog/" + f.Name())
		b.Write(d)
		b.WriteString("\n")
	}
	b.WriteString(generated())
	return b.String()
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "catalogue" {
		fmt.Print(generated())
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: rsa check ID [-tier quick|thorough] [-repo DIR] [-out DIR] [-v] [-case SUBSTRING]")
		os.Exit(2)
	}
	prop := os.Args[2]
	repo, out := "/repo", "/verif"
	tier := os.Getenv("VERIF_TIER")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	c := &Ctx{prop: prop, seed: seed, start: time.Now()}
	for i := 3; i < len(os.Args); i++ {
		arg := func() string { i++; return os.Args[i] }
		switch os.Args[i] {
		case "-tier":
			tier = arg()
		case "-repo":
			repo = arg()
		case "-out":
			out = arg()
		case "-v":
			c.verbose = true
		case "-case":
			c.filter = arg()
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	c.thorough, c.tier, c.out = tier == "thorough", tier, out
	chk, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "rsa: no check for", prop)
		os.Exit(2)
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(6 << 30)
	debug.SetMaxStack(2 << 30)
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "rsa:", err)
		os.Exit(2)
	}
	c.prog = p
	cs, sp, err := p.loadCatalogue("catalogue/cat", allCatalogueSource())
	if err != nil {
		fmt.Fprintln(os.Stderr, "rsa: catalogue:", err)
		os.Exit(2)
	}
	p.cat = sp
	c.cases = cs
	if pf := os.Getenv("RSA_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer f.Close()
	}
	res := chk.run(c)
	pprof.StopCPUProfile()
	os.Exit(report(c, res, chk, tier, out))
}

// knownFindings reads the listed findings of a property: key to description.
func knownFindings(prop string) map[string]string {
	m := map[string]string{}
	exe, _ := os.Executable()
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "..", "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		t, ok := strings.CutPrefix(l, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		k, what, _ := strings.Cut(t, " ")
		m[k] = what
	}
	return m
}

func report(c *Ctx, res *Result, chk checkFn, tier, out string) int {
	res.sort()
	var viols, known []Violation
	listed := knownFindings(c.prop)
	for _, v := range res.viols {
		if _, ok := listed[v.Known]; ok && v.Known != "" {
			known = append(known, v)
		} else {
			viols = append(viols, v)
		}
	}
	var fns []string
	blocks := 0
	totalBlocks := 0
	for f, n := range res.cov {
		fns = append(fns, f.String())
		blocks += len(n)
		totalBlocks += len(f.Blocks)
	}
	sort.Strings(fns)
	reasons := map[string]int{}
	var open []string
	for _, u := range res.undecided {
		reasons[short(u.Reason, 160)]++
		open = append(open, short(u.Case, 200)+": "+short(u.Reason, 100))
	}
	cov := map[string]interface{}{
		"explanation":               chk.rule,
		"declarations":              res.cases,
		"trace_partitions":          res.paths,
		"obligations":               res.obligations,
		"discharged_normal_form":    res.byNF,
		"discharged_enumeration":    res.byEnum,
		"not_refuted_only":          res.open,
		"undecided":                 len(res.undecided),
		"undecided_reasons":         reasons,
		"undecided_cases":           firstN(open, 60),
		"obligations_by_rule":       res.rules,
		"repository_functions":      len(fns),
		"functions":                 fns,
		"blocks_interpreted":        blocks,
		"blocks_of_those_functions": totalBlocks,
		"samples":                   firstN(res.samples, 8),
		"notes":                     res.notes,
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": tier, "seed": c.seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(viols),
		"assumptions": assumptions,
	}
	if len(viols) > 0 {
		ev["violation_list"] = viols
	}
	dir := filepath.Join(out, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	evPath := filepath.Join(dir, c.prop+".json")
	if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "rsa:", err)
		return 2
	}
	seen := map[string]bool{}
	for _, k := range known {
		if !seen[k.Known] {
			seen[k.Known] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, listed[k.Known])
		}
	}
	fmt.Printf("%s: %d declarations, %d trace partitions, %d obligations (%d by normal form, %d by enumeration, %d not refuted), %d undecided, %d violations, %d repository functions, %.1fs\n",
		c.prop, res.cases, res.paths, res.obligations, res.byNF, res.byEnum, res.open, len(res.undecided), len(viols), len(fns), time.Since(c.start).Seconds())
	if c.verbose {
		for _, k := range sortedKeys(reasons) {
			fmt.Printf("  undecided ×%d: %s\n", reasons[k], k)
		}
		for _, k := range sortedKeys(res.rules) {
			fmt.Printf("  rule %s: %d\n", k, res.rules[k])
		}
	}
	if len(viols) > 0 {
		rp := filepath.Join(dir, c.prop+".violations.json")
		b, _ := json.MarshalIndent(viols, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		for i, v := range viols {
			if i == 12 {
				fmt.Printf("  ... %d more\n", len(viols)-i)
				break
			}
			fmt.Printf("  %s: [%s] %s\n", v.Case, v.Rule, v.Message)
			for _, w := range v.Where {
				fmt.Printf("      at %s\n", w)
			}
			if v.Witness != "" {
				fmt.Printf("      when %s\n", v.Witness)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
		return 1
	}
	if res.obligations == 0 {
		fmt.Fprintln(os.Stderr, "rsa: too little could be decided")
		return 2
	}
	return 0
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var assumptions = []string{
	"go/types and x/tools go/ssa translate the source faithfully",
	"the models of the Go runtime, reflect, sync, fmt and math in the analyser match the standard library",
	"the verdict covers the declarations of the catalogue, for all values of their scalar fields and the listed lengths",
}
