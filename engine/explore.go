package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog        *ssa.Program
	mu          sync.Mutex
	pkg         *ssa.Package
	runtimeErrT types.Type
	sizes       types.Sizes
	targetPath  string
	errorsNew   *ssa.Function
	repo        string
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }

func isTarget(path string) bool { return path == targetPkg || path == cmdPkg || path == progPkg }

func loadEngine(repo, dir string, overlay map[string][]byte) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, BuildFlags: []string{"-tags=noasm"}, Env: buildEnv(false), Overlay: overlay}
	ps, err := packages.Load(cfg, "./"+dir)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(msgs, "\n"))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkg: sp[0], targetPath: sp[0].Pkg.Path(), repo: repo, sizes: types.SizesFor("gc", "amd64")}
	if rt := prog.ImportedPackage("runtime"); rt != nil && rt.Type("errorString") != nil {
		e.runtimeErrT = rt.Type("errorString").Type()
	} else {
		e.runtimeErrT = types.Typ[types.String]
	}
	if er := prog.ImportedPackage("errors"); er != nil {
		e.errorsNew = er.Func("New")
	}
	return e, nil
}

type Config struct {
	fp        bool
	stepLimit int64
	mapOrder  bool
	race      bool
	delay     int // deviation bound; <0: all schedules
	noDedupe  bool
	term      bool
}

type Job struct {
	prefix []Dec
	model  *Model
	delays int
}

type Worker struct {
	id      int
	solver  *Solver
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
}

// Explorer runs one harness
type Explorer struct {
	eng       *Engine
	cfg       Config
	fns       sync.Map
	redirects map[string]*ssa.Function
	natives   map[string]NativeFn
	proto     *Path
	tier      int
	harness   string
	hfn       *ssa.Function
	prop      string
	replayer  *Replayer

	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	active   int
	stop     bool
	timedOut bool
	deadline time.Time
	known    map[string]bool // listed findings: do not end the exploration
	grace    time.Duration

	queryTimeout    int64
	branches        int64
	unknownBranches int64
	trans           int64
	deduped         int64
	paths, aborted, ended int64
	steps           int64
	discharged, trivial, undecided int64

	initMu  sync.Mutex
	initFns map[*ssa.Function]*Fn
	stubs   sync.Map
	fnsUsed sync.Map
	notes   map[string]int
	reached map[string]int
	visited map[[16]byte]bool

	tried     map[string]int
	confirmed map[string]*Violation
	unconf    map[string]int
	traces    []*Trace
	traceSeen int64
	samples   []string
	maxJobs   int
}

// Violation is a counterexample reproduced on the real code
type Violation struct {
	prop, harness, kind, msg string
	inputs                   []string
	sched                    []string
	output                   string
}

// Trace is a completed symbolic path with concrete inputs and predicted observations
type Trace struct {
	inputs []string
	obs    []string
	desc   string
}

func newExplorer(e *Engine, cfg Config, natives map[string]NativeFn) *Explorer {
	x := &Explorer{eng: e, cfg: cfg, natives: natives, redirects: map[string]*ssa.Function{}}
	x.cond = sync.NewCond(&x.mu)
	x.notes = map[string]int{}
	x.initFns = map[*ssa.Function]*Fn{}
	x.reached = map[string]int{}
	x.visited = map[[16]byte]bool{}
	x.tried = map[string]int{}
	x.confirmed = map[string]*Violation{}
	x.unconf = map[string]int{}
	x.proto = &Path{x: x, fp: cfg.fp}
	return x
}

func (x *Explorer) push(j *Job) {
	x.mu.Lock()
	x.jobs = append(x.jobs, j)
	if len(x.jobs) > x.maxJobs {
		x.maxJobs = len(x.jobs)
	}
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) noteStub(n string) {
	if _, ok := x.stubs.Load(n); !ok {
		x.stubs.Store(n, true)
	}
}
func (x *Explorer) noteFn(f *Fn) {
	if _, ok := x.fnsUsed.Load(f); !ok {
		x.fnsUsed.Store(f, true)
	}
}
func (x *Explorer) noteMsg(s string) {
	x.mu.Lock()
	x.notes[s]++
	x.mu.Unlock()
}
func (x *Explorer) addUndecided(msg string) {
	atomic.AddInt64(&x.undecided, 1)
	x.noteMsg("undecided: " + msg)
}
func (x *Explorer) addTrans()  { atomic.AddInt64(&x.trans, 1) }
func (x *Explorer) addDedupe() { atomic.AddInt64(&x.deduped, 1) }
func (x *Explorer) visit(h [16]byte) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.visited[h] {
		return false
	}
	x.visited[h] = true
	return true
}

func (x *Explorer) hardDeadline() time.Time {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.deadline.Add(15 * time.Second)
}

func (x *Explorer) run(nw int, budget time.Duration) {
	x.deadline = time.Now().Add(budget)
	x.jobs = []*Job{{model: newModel()}}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{id: i, solver: &Solver{bin: z3bin()}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}}
			defer w.solver.stop()
			for {
				x.mu.Lock()
				for len(x.jobs) == 0 && x.active > 0 && !x.stop {
					x.cond.Wait()
				}
				if x.stop || len(x.jobs) == 0 {
					x.mu.Unlock()
					x.cond.Broadcast()
					return
				}
				if time.Now().After(x.deadline) {
					x.stop, x.timedOut = true, true
					x.mu.Unlock()
					x.cond.Broadcast()
					return
				}
				j := x.jobs[len(x.jobs)-1]
				x.jobs = x.jobs[:len(x.jobs)-1]
				x.active++
				x.mu.Unlock()
				x.runJob(w, j)
				x.mu.Lock()
				x.active--
				x.mu.Unlock()
				x.cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
	x.finishTraces()
}

func (x *Explorer) runJob(w *Worker, j *Job) {
	p := &Path{x: x, w: w, tc: newTermCtx(), rc: newRealCtx(), fp: x.cfg.fp, pcSeen: map[int]bool{}, model: j.model, prefix: j.prefix,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, reached: map[string]bool{}, notes: map[string]bool{},
		termHash: map[int][]byte{}}
	p.tc.rc = p.rc
	// delays of the prefix are recounted while replaying
	p.sched = newSched(p)
	g := p.sched.gs[0]
	completed := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case endPath:
				atomic.AddInt64(&x.ended, 1)
			case abortPath:
				atomic.AddInt64(&x.aborted, 1)
				where := ""
				if g.top != nil {
					where = " at " + p.posOf(g.top)
				}
				x.noteMsg("path aborted: " + e.why + where)
			case targetPanic:
				if p.feasible() {
					p.violation("panic", "panic: "+p.panicText(g, e.v), nil, nil)
				}
			case crashPanic:
				if p.feasible() {
					p.violation("panic", "panic in goroutine "+e.at+": "+p.panicText(g, e.v), nil, nil)
				}
			case nonTerm:
				if p.feasible() {
					p.violation("steps", "does not terminate within the step bound", nil, nil)
				}
			case deadlock:
				if p.feasible() {
					p.violation("deadlock", "deadlock: "+e.desc, nil, nil)
				}
			default:
				fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", r, debug.Stack())
				atomic.AddInt64(&x.aborted, 1)
				x.noteMsg(fmt.Sprintf("engine error: %v", r))
			}
		}()
		p.callFn(g, nil, x.hfn, nil, nil)
		completed = true
	}()
	p.sched.finish()
	atomic.AddInt64(&x.steps, p.steps)
	atomic.AddInt64(&x.discharged, p.discharged)
	atomic.AddInt64(&x.trivial, p.trivial)
	if completed {
		n := atomic.AddInt64(&x.paths, 1)
		x.mu.Lock()
		for l := range p.reached {
			x.reached[l]++
		}
		x.mu.Unlock()
		if n <= 64 || n&(n-1) == 0 || n%997 == 0 {
			p.recordTrace()
		}
	} else {
		x.mu.Lock()
		for l := range p.reached {
			x.reached[l] += 0
		}
		x.mu.Unlock()
	}
}

func (p *Path) panicText(g *G, v Value) string {
	defer func() { recover() }()
	if i, ok := v.(iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		if i.t != nil {
			g.depth = 0
			if t, ok := p.errText(g, i); ok {
				if s, ok := t.(string); ok {
					return s
				}
			}
			return i.t.String()
		}
	}
	return debugVal(v)
}

// ---------- counterexamples ----------

func (p *Path) candidate(kind, msg string) { p.violation(kind, msg, nil, nil) }

const maxTries = 10

// violation turns the failing path into concrete inputs and replays them on the real code
func (p *Path) violation(kind, msg string, extra []*Term, strong func(*big.Rat) *Term, given ...*Model) {
	x := p.x
	x.mu.Lock()
	if x.confirmed[msg] != nil || x.tried[msg] >= maxTries {
		x.mu.Unlock()
		return
	}
	x.tried[msg]++
	x.mu.Unlock()
	try := func(m *Model) bool {
		ins, ok := p.concreteInputs(m, extra)
		if !ok {
			return false
		}
		v := x.replayer.confirm(x, kind, msg, ins, p.schedLog)
		if v == nil {
			return false
		}
		v.sched = append([]string(nil), p.schedLog...)
		x.mu.Lock()
		if x.confirmed[msg] == nil {
			x.confirmed[msg] = v
			if !x.known[msg] { // look only a little further for other violations
				if d := time.Now().Add(x.grace); d.Before(x.deadline) {
					x.deadline = d
				}
			}
		}
		x.mu.Unlock()
		return true
	}
	hasReal := len(p.rc.atoms) > 0
	if hasReal && !p.fp {
		for _, mg := range []*big.Rat{big.NewRat(1, 50), big.NewRat(1, 10000)} {
			cs := p.strengthen(p.pc, mg)
			if strong != nil {
				cs = append(cs, strong(mg))
			} else {
				cs = append(cs, p.strengthen(extra, mg)...)
			}
			res, m := p.queryRaw(cs)
			if res == Sat && m != nil {
				if p.model != nil {
					m = mergeModels(p.model, m)
				}
				if try(m) {
					return
				}
			}
		}
	}
	var m *Model
	if len(given) > 0 {
		m = given[0]
	} else {
		m = p.model
	}
	if m == nil {
		_, m = p.queryAll(extra)
	}
	if m != nil && try(m) {
		return
	}
	x.mu.Lock()
	x.unconf[msg]++
	x.mu.Unlock()
}

// strengthen replaces strict and weak inequalities by ones that hold with a margin
func (p *Path) strengthen(cs []*Term, mg *big.Rat) []*Term {
	var out []*Term
	for _, c := range cs {
		out = append(out, p.strengthen1(c, mg, 0))
	}
	return out
}

func (p *Path) strengthen1(c *Term, mg *big.Rat, depth int) *Term {
	neg := false
	t := c
	if t.op == ONot {
		neg = true
		t = t.args[0]
	}
	switch t.op {
	case OPLt0, OPLe0:
		if neg { // p >= 0 or p > 0  ->  p >= mg
			return p.tc.polyRel(OPLe0, polySub(polyConst(mg), t.p))
		}
		return p.tc.polyRel(OPLe0, polyAdd(t.p, polyConst(mg)))
	case OPEq0:
		if neg {
			return p.tc.Or(p.tc.polyRel(OPLe0, polySub(polyConst(mg), t.p)), p.tc.polyRel(OPLe0, polyAdd(t.p, polyConst(mg))))
		}
	case OAnd, OOr:
		if depth > 4 {
			return c
		}
		var args []*Term
		for _, a := range t.args {
			if neg {
				a = p.tc.Not(a)
			}
			args = append(args, p.strengthen1(a, mg, depth+1))
		}
		if (t.op == OAnd) != neg {
			return p.tc.And(args...)
		}
		return p.tc.Or(args...)
	}
	return c
}

// concreteInputs renders the input values of a model
func (p *Path) concreteInputs(m *Model, extra []*Term) ([]string, bool) {
	// try to round real inputs to short binary fractions
	best := m
	isIn := map[int]bool{}
	for _, in := range p.inputs {
		switch in.kind {
		case "real", "rfloat", "rnorm":
			isIn[in.atom] = true
		}
	}
	if len(isIn) > 0 {
		for _, k := range []uint{2, 5, 10, 20, 32} {
			mm := newModel()
			for v, b := range m.bv {
				mm.bv[v] = b
			}
			den := new(big.Int).Lsh(big.NewInt(1), k)
			for a := range isIn {
				f := p.atomRat(m, a)
				s := new(big.Rat).Mul(f, new(big.Rat).SetInt(den))
				s.Add(s, big.NewRat(1, 2))
				fl := new(big.Int).Div(s.Num(), s.Denom())
				mm.real[a] = new(big.Rat).SetFrac(fl, den)
			}
			if p.modelHolds(mm, extra) {
				best = mm
				break
			}
		}
	}
	// random numbers in [0,1): prefer the ends, decisions by comparison with exp() are then robust
	for _, in := range p.inputs {
		if in.kind != "rfloat" {
			continue
		}
		old, had := best.real[in.atom]
		done := false
		for _, v := range []*big.Rat{new(big.Rat), big.NewRat(1<<30-1, 1<<30)} {
			best.real[in.atom] = v
			if p.modelHolds(best, extra) {
				done = true
				break
			}
		}
		if !done {
			if had {
				best.real[in.atom] = old
			} else {
				delete(best.real, in.atom)
			}
		}
	}
	var out []string
	for _, in := range p.inputs {
		switch in.kind {
		case "real", "rfloat", "rnorm":
			f, _ := p.atomRat(best, in.atom).Float64()
			out = append(out, fmt.Sprintf("%s %x %v", in.kind, math.Float64bits(f), f))
		case "spec":
			out = append(out, fmt.Sprintf("real %x %v", uint64(in.ival), math.Float64frombits(uint64(in.ival))))
		case "fp":
			b := best.bv[int(in.t.val)]
			out = append(out, fmt.Sprintf("real %x %v", b, math.Float64frombits(b)))
		case "bool":
			out = append(out, fmt.Sprintf("bool %d", best.bv[int(in.t.val)]))
		case "byte":
			out = append(out, fmt.Sprintf("int %d", best.bv[int(in.t.val)]&255))
		case "int", "rint":
			v := in.ival
			if in.t != nil {
				v = int64(best.bv[int(in.t.val)])
			}
			out = append(out, fmt.Sprintf("%s %d", in.kind, v))
		default:
			return nil, false
		}
	}
	return out, true
}

func (p *Path) atomRat(m *Model, a int) *big.Rat {
	if r, ok := m.real[a]; ok {
		return r
	}
	if f, ok := m.inex[a]; ok {
		r := new(big.Rat)
		if r.SetFloat64(f) != nil {
			return r
		}
	}
	return new(big.Rat)
}

// modelHolds evaluates the path condition exactly (atoms with definitions are derived)
func (p *Path) modelHolds(m *Model, extra []*Term) bool {
	save := p.model
	p.model = m
	p.completeModel()
	p.model = save
	for _, t := range append(append([]*Term(nil), p.pc...), extra...) {
		v, ok := p.tc.evalBool(t, m)
		if !ok || !v {
			return false
		}
	}
	return true
}

// recordTrace keeps the inputs and predicted observations of a completed path
func (p *Path) recordTrace() {
	x := p.x
	if x.cfg.delay != 0 && len(p.sched.gs) > 1 {
		// schedules are not forced natively; observations must not depend on them
	}
	m := p.model
	if m == nil {
		var res SatRes
		res, m = p.queryAll(nil)
		if res != Sat || m == nil {
			return
		}
	}
	// prefer a point away from the boundaries
	if !p.fp && len(p.rc.atoms) > 0 {
		if res, mm := p.queryRaw(p.strengthen(p.pc, big.NewRat(1, 100))); res == Sat && mm != nil {
			m = mergeModels(m, mm)
		}
	}
	ins, ok := p.concreteInputs(m, nil)
	if !ok {
		return
	}
	// evaluate observations at the concrete inputs
	mm := newModel()
	for v, b := range m.bv {
		mm.bv[v] = b
	}
	k := 0
	for _, in := range p.inputs {
		if in.kind == "real" || in.kind == "rfloat" || in.kind == "rnorm" {
			var bits uint64
			fmt.Sscanf(strings.Fields(ins[k])[1], "%x", &bits)
			r := new(big.Rat)
			r.SetFloat64(math.Float64frombits(bits))
			mm.real[in.atom] = r
		}
		k++
	}
	for _, at := range p.rc.atoms {
		if at.kind == AFresh {
			return // unconstrained helper values: not comparable
		}
	}
	save := p.model
	p.model = mm
	defer func() { p.model = save }()
	p.completeModel()
	var obs []string
	for _, o := range p.obs {
		s, ok := p.obsText(o.v, mm)
		if !ok {
			return
		}
		obs = append(obs, o.label+" "+s)
	}
	t := &Trace{inputs: ins, obs: obs}
	x.mu.Lock()
	if len(x.traces) < 48 {
		x.traces = append(x.traces, t)
	}
	if len(x.samples) < 3 {
		var cs []string
		for i, c := range p.pc {
			if i >= 6 {
				cs = append(cs, fmt.Sprintf("... %d more", len(p.pc)-i))
				break
			}
			txt, _ := p.tc.buildQuery([]*Term{c})
			if k := strings.LastIndex(txt, "(assert"); k >= 0 {
				txt = strings.TrimSpace(txt[k:])
			}
			if len(txt) > 200 {
				txt = txt[:200] + "..."
			}
			cs = append(cs, txt)
		}
		x.samples = append(x.samples, fmt.Sprintf("path with %d decisions, %d constraints: %s; witness inputs: %s", len(p.log), len(p.pc), strings.Join(cs, " "), strings.Join(ins, ", ")))
	}
	x.mu.Unlock()
}

func (p *Path) obsText(v Value, m *Model) (string, bool) {
	switch y := v.(type) {
	case bool:
		return fmt.Sprintf("b %v", y), true
	case int64:
		return fmt.Sprintf("i %d", y), true
	case float64:
		return fmt.Sprintf("f %v", y), true
	case string:
		return fmt.Sprintf("s %q", y), true
	case *Rl:
		f := evalRlF(y, func(a int) float64 { return p.modelFM(m, a) })
		return fmt.Sprintf("f %v", f), true
	case *Term:
		val, ok := p.tc.eval(y, m)
		if !ok {
			return "", false
		}
		switch y.sort {
		case SBool:
			return fmt.Sprintf("b %v", val == 1), true
		case SFP:
			return fmt.Sprintf("f %v", math.Float64frombits(val)), true
		}
		return fmt.Sprintf("i %d", sext(val, y.w)), true
	case slice:
		return p.obsText(structure(y), m)
	case structure:
		var ss []string
		for _, e := range y {
			s, ok := p.obsText(e, m)
			if !ok {
				return "", false
			}
			ss = append(ss, s)
		}
		return strings.Join(ss, " "), true
	}
	return "", false
}

func (x *Explorer) finishTraces() {}

func (x *Explorer) sortedNotes() []string {
	var out []string
	for n, c := range x.notes {
		out = append(out, fmt.Sprintf("%s (%d)", n, c))
	}
	sort.Strings(out)
	return out
}
