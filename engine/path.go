package main

import (
	"time"
	"fmt"
	"math"
	"math/big"
	"sort"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	c   int32
	aux int64
}

type Input struct {
	kind string // bool, int, pick, f64, fp, byte, num, rand...
	t    *Term
	atom int // for reals
	ival int64
	lo, hi float64
}

type Candidate struct {
	harness string
	msg     string
	inputs  []string
	kind    string // assert, panic, deadlock, race, steps
	sched   []string
	robust  bool
}

type Obs struct {
	label string
	v     Value
}

// Path is one symbolic execution
type Path struct {
	x       *Explorer
	w       *Worker
	tc      *TermCtx
	rc      *RealCtx
	fp      bool
	pc      []*Term
	pcSeen  map[int]bool
	model   *Model
	prefix  []Dec
	pos     int
	log     []Dec
	inputs  []*Input
	obs     []Obs
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	steps   int64
	reached map[string]bool
	cands   []*Candidate
	sched   *Sched
	svds    []*svdEntry
	delays  int
	depth   int
	schedLog []string
	notes   map[string]bool
	nextChan int
	uncertain bool
	discharged, trivial int64
	extra map[string]Value
	termHash map[int][]byte
	files   map[string]*memFile
	fileLimit *int
	fileDeath *int
	handles map[*Value]*fileHandle
}

func (p *Path) addPC(t *Term) {
	if t == p.tc.T {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			p.addPC(a)
		}
		return
	}
	if p.pcSeen[t.id] {
		return
	}
	p.pcSeen[t.id] = true
	p.pc = append(p.pc, t)
}

// slice of the path condition relevant for the given terms
func (p *Path) relevant(cs []*Term) []*Term {
	if len(p.pc) == 0 {
		return cs
	}
	set := map[int32]bool{}
	var work []int32
	add := func(t *Term) {
		for _, v := range t.vars {
			if !set[v] {
				set[v] = true
				work = append(work, v)
			}
		}
	}
	for _, c := range cs {
		add(c)
	}
	used := make([]bool, len(p.pc))
	for {
		for len(work) > 0 {
			v := work[len(work)-1]
			work = work[:len(work)-1]
			if v&1 == 1 {
				for _, c := range p.rc.atoms[v>>1].cons {
					add(c)
				}
			}
		}
		changed := false
		for i, t := range p.pc {
			if used[i] {
				continue
			}
			for _, v := range t.vars {
				if set[v] {
					used[i] = true
					changed = true
					add(t)
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	var out []*Term
	for i, t := range p.pc {
		if used[i] {
			out = append(out, t)
		}
	}
	return append(out, cs...)
}

// query decides satisfiability of pc and cs; the model covers the relevant slice
func (p *Path) query(cs []*Term, wantModel bool) (SatRes, *Model) {
	if time.Now().After(p.x.hardDeadline()) {
		panic(abortPath{"time budget used up"})
	}
	for _, c := range cs {
		if c == p.tc.F {
			return Unsat, nil
		}
		if p.pcSeen[p.tc.Not(c).id] {
			return Unsat, nil
		}
	}
	rel := p.relevant(cs)
	var live []*Term
	for _, c := range rel {
		if c != p.tc.T {
			live = append(live, c)
		}
	}
	if len(live) == 0 {
		return Sat, newModel()
	}
	text, sp := p.tc.buildQuery(live)
	var names []string
	for _, v := range sp.vorder {
		if p.tc.vars[v].sort == SFP {
			names = append(names, fmt.Sprintf("bv%d", v))
		} else {
			names = append(names, fmt.Sprintf("v%d", v))
		}
	}
	for _, a := range sp.order {
		names = append(names, fmt.Sprintf("a%d", a))
	}
	res, raw := p.w.solver.check(text, names, p.x.queryTimeout)
	if res != Sat || raw == nil {
		return res, nil
	}
	m := newModel()
	for _, v := range sp.vorder {
		n := fmt.Sprintf("v%d", v)
		if p.tc.vars[v].sort == SFP {
			n = "b" + n
		}
		if x, ok := raw.bv[n]; ok {
			m.bv[v] = x
		}
	}
	for _, a := range sp.order {
		n := fmt.Sprintf("a%d", a)
		if x, ok := raw.real[n]; ok {
			m.real[a] = x
		} else if f, ok := raw.inex[n]; ok {
			m.inex[a] = f
		}
	}
	return Sat, m
}

func (p *Path) pushAlt(d Dec, m *Model) {
	pre := make([]Dec, len(p.log)+1)
	copy(pre, p.log)
	pre[len(p.log)] = d
	p.x.push(&Job{prefix: pre, model: m, delays: p.delays})
}

// decide returns the truth value chosen for c on this path
func (p *Path) decide(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if p.pcSeen[c.id] {
		return true
	}
	nc := p.tc.Not(c)
	if p.pcSeen[nc.id] {
		return false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		if d.c == 1 {
			p.addPC(c)
		} else {
			p.addPC(nc)
		}
		return d.c == 1
	}
	atomic.AddInt64(&p.x.branches, 1)
	var canT, canF SatRes
	var mT, mF *Model
	if v, ok := p.evalModel(c); ok {
		atomic.AddInt64(&gstats.modelHits, 1)
		if v {
			canT, mT = Sat, p.model
			var m *Model
			canF, m = p.query([]*Term{nc}, true)
			if m != nil {
				mF = mergeModels(p.model, m)
			}
		} else {
			canF, mF = Sat, p.model
			var m *Model
			canT, m = p.query([]*Term{c}, true)
			if m != nil {
				mT = mergeModels(p.model, m)
			}
		}
	} else {
		var m *Model
		canT, m = p.query([]*Term{c}, true)
		if m != nil && p.model != nil {
			mT = mergeModels(p.model, m)
		}
		if canT == Unsat {
			canF = Sat
			mF = p.model
		} else {
			canF, m = p.query([]*Term{nc}, true)
			if m != nil && p.model != nil {
				mF = mergeModels(p.model, m)
			}
		}
	}
	if canT == Unknown || canF == Unknown {
		atomic.AddInt64(&p.x.unknownBranches, 1)
		p.uncertain = true
	}
	t, f := canT != Unsat, canF != Unsat
	if !t && !f {
		panic(endPath{})
	}
	take := t
	if t && f {
		p.pushAlt(Dec{c: 0}, mF)
	}
	if take {
		p.log = append(p.log, Dec{c: 1})
		p.pos++
		p.addPC(c)
		p.model = mT
	} else {
		p.log = append(p.log, Dec{c: 0})
		p.pos++
		p.addPC(nc)
		p.model = mF
	}
	return take
}

func (p *Path) evalModel(c *Term) (bool, bool) {
	if p.model == nil {
		return false, false
	}
	if p.pos < len(p.prefix) {
		return false, false
	}
	p.completeModel()
	return p.tc.evalBool(c, p.model)
}

// completeModel derives values of sqrt atoms from the others where they are rational
func (p *Path) completeModel() {
	own := false
	for _, a := range p.rc.atoms {
		if a.kind != ASqrt {
			continue
		}
		if _, ok := p.model.real[a.id]; ok {
			continue
		}
		if _, ok := p.model.inex[a.id]; ok {
			continue
		}
		v, ok := evalPoly(a.def, func(i int) *big.Rat { return p.model.real[i] })
		if !ok || v.Sign() < 0 {
			continue
		}
		n, d := new(big.Int).Sqrt(v.Num()), new(big.Int).Sqrt(v.Denom())
		if new(big.Int).Mul(n, n).Cmp(v.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(v.Denom()) == 0 {
			if !own { // other paths may hold the same model
				p.model = mergeModels(p.model, nil)
				own = true
			}
			p.model.real[a.id] = new(big.Rat).SetFrac(n, d)
		}
	}
}

// setModel extends the current model with a default value for a new input
func (p *Path) setBV(id int, v uint64) {
	if p.model != nil {
		if _, ok := p.model.bv[id]; !ok {
			p.model = mergeModels(p.model, nil)
			p.model.bv[id] = v
		}
	}
}
func (p *Path) setReal(id int, v *big.Rat) {
	if p.model != nil {
		_, ok := p.model.real[id]
		_, ok2 := p.model.inex[id]
		if !ok && !ok2 {
			p.model = mergeModels(p.model, nil)
			p.model.real[id] = v
		}
	}
}

// choose is an n-way nondeterministic choice without solver involvement
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		return int(d.c)
	}
	for i := n - 1; i >= 1; i-- {
		p.pushAlt(Dec{c: int32(i)}, p.model)
	}
	p.log = append(p.log, Dec{c: 0})
	p.pos++
	return 0
}

// cond turns a bool value into a decision
func (p *Path) cond(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.decide(x)
	}
	panic(abortPath{fmt.Sprintf("cond on %T", v)})
}

func (p *Path) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return p.tc.boolC(x)
	case *Term:
		return x
	}
	panic(abortPath{fmt.Sprintf("bool of %T", v)})
}

func boolVal(t *Term) Value {
	if t.isConst() {
		return t.val == 1
	}
	return t
}

func (p *Path) bvTerm(v Value, k intKind) *Term {
	switch x := v.(type) {
	case int64:
		return p.tc.bvC(uint64(x), k.w)
	case *Term:
		return x
	case *NumTok, *JTok:
		return p.tc.bvC('7', k.w)
	}
	panic(abortPath{fmt.Sprintf("int of %T", v)})
}

func bvVal(t *Term, k intKind) Value {
	if t.isConst() {
		return wrapInt(int64(t.val), k)
	}
	return t
}

// concInt concretises an integer by forking
func (p *Path) concInt(v Value, k intKind) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *NumTok, *JTok:
		return '7'
	case *Term:
		for n := 0; ; n++ {
			if x.isConst() {
				return wrapInt(int64(x.val), k)
			}
			var cv uint64
			if p.pos < len(p.prefix) {
				cv = uint64(p.prefix[p.pos].aux)
				d := p.prefix[p.pos]
				eq := p.tc.Eq(x, p.tc.bvC(cv, x.w))
				p.pos++
				p.log = append(p.log, d)
				if d.c == 1 {
					p.addPC(eq)
					return wrapInt(int64(cv), k)
				}
				p.addPC(p.tc.Not(eq))
				continue
			}
			val, ok := uint64(0), false
			if p.model != nil {
				val, ok = p.tc.eval(x, p.model)
			}
			if !ok {
				res, m := p.query([]*Term{p.tc.T}, true)
				_ = res
				// ask for a model of the slice containing x
				nv := p.tc.Or(p.tc.Eq(x, p.tc.bvC(0, x.w)), p.tc.Not(p.tc.Eq(x, p.tc.bvC(0, x.w))))
				_ = nv
				res, m = p.query([]*Term{p.tc.Cmp(OUle, p.tc.bvC(0, x.w), x)}, true)
				if res != Sat || m == nil {
					panic(abortPath{"cannot concretise"})
				}
				val, ok = p.tc.eval(x, m)
				if !ok {
					panic(abortPath{"cannot concretise"})
				}
				if p.model != nil {
					p.model = mergeModels(p.model, m)
				} else {
					p.model = m
				}
			}
			if n > 300 {
				panic(abortPath{"too many values for a symbolic integer"})
			}
			cv = val
			eq := p.tc.Eq(x, p.tc.bvC(cv, x.w))
			// other values possible?
			res, m := p.query([]*Term{p.tc.Not(eq)}, true)
			if res != Unsat {
				var mm *Model
				if m != nil {
					mm = mergeModels(p.model, m)
				}
				p.pushAlt(Dec{c: 0, aux: int64(cv)}, mm)
			}
			p.log = append(p.log, Dec{c: 1, aux: int64(cv)})
			p.pos++
			p.addPC(eq)
			return wrapInt(int64(cv), k)
		}
	}
	panic(abortPath{fmt.Sprintf("concInt of %T", v)})
}

// ---------- reals ----------

func (p *Path) newReal(kind string, lo, hi float64) *Rl {
	at := p.rc.newAtom(fmt.Sprintf("in%d", len(p.inputs)), AVar)
	r := &Rl{num: polyAtom(at.id)}
	in := &Input{kind: kind, atom: at.id, lo: lo, hi: hi}
	p.inputs = append(p.inputs, in)
	p.constrainRange(at, lo, hi)
	return r
}

func (p *Path) constrainRange(at *Atom, lo, hi float64) {
	x := polyAtom(at.id)
	if !math.IsInf(lo, 0) {
		p.addPC(p.tc.polyRel(OPLe0, polySub(polyConst(floatToRat(lo)), x)))
		if lo >= 0 {
			at.nonneg = true
		}
	}
	if !math.IsInf(hi, 0) {
		p.addPC(p.tc.polyRel(OPLe0, polySub(x, polyConst(floatToRat(hi)))))
	}
	// default value: spread inside the range
	l, h := lo, hi
	if math.IsInf(l, 0) {
		l = -4
	}
	if math.IsInf(h, 0) {
		h = l + 8
	}
	f := []float64{0.5, 0.75, 0.25, 0.625, 0.375, 0.875, 0.125, 0.6875, 0.3125}[at.id%9]
	v := new(big.Rat).Add(floatToRat(l), new(big.Rat).Mul(new(big.Rat).Sub(floatToRat(h), floatToRat(l)), floatToRat(f)))
	p.setReal(at.id, v)
}

func (p *Path) freshReal() *Rl {
	at := p.rc.newAtom("fresh", AFresh)
	return &Rl{num: polyAtom(at.id)}
}

func (p *Path) signDecide(n *Poly) int { // -1, 0, 1
	if n.isConst() {
		return n.constVal().Sign()
	}
	if p.cond(boolVal(p.tc.polyRel(OPLt0, polyNeg(n)))) {
		return 1
	}
	if p.cond(boolVal(p.tc.polyRel(OPLt0, n))) {
		return -1
	}
	return 0
}

func (p *Path) real(v Value) (*Rl, float64, bool) { // value or special
	switch x := v.(type) {
	case *Rl:
		return x, 0, true
	case float64:
		return nil, x, false
	}
	panic(abortPath{fmt.Sprintf("real of %T", v)})
}

func (p *Path) fterm(v Value) *Term {
	switch x := v.(type) {
	case float64:
		return p.tc.fpC(x)
	case *Term:
		return x
	}
	panic(abortPath{fmt.Sprintf("fp of %T", v)})
}

func fpVal(t *Term) Value {
	if t.isConst() {
		return fpv(t)
	}
	return t
}

func (p *Path) fadd(a, b Value) Value {
	if p.fp {
		return p.fbin(OFAdd, a, b)
	}
	x, fx, ok := p.real(a)
	y, fy, ok2 := p.real(b)
	if ok && ok2 {
		return p.rc.add(x, y)
	}
	if ok {
		return fy
	}
	if ok2 {
		return fx
	}
	return fx + fy
}

func (p *Path) fbin(op Op, a, b Value) Value {
	x, ok := a.(float64)
	y, ok2 := b.(float64)
	if ok && ok2 {
		switch op {
		case OFAdd:
			return x + y
		case OFSub:
			return x - y
		case OFMul:
			return x * y
		case OFDiv:
			return x / y
		}
	}
	return fpVal(p.tc.FBin(op, p.fterm(a), p.fterm(b)))
}

func (p *Path) fneg(a Value) Value {
	if p.fp {
		if x, ok := a.(float64); ok {
			return -x
		}
		return fpVal(p.tc.FUn(OFNeg, p.fterm(a)))
	}
	x, f, ok := p.real(a)
	if ok {
		return rlNeg(x)
	}
	return -f
}

func (p *Path) fsub(a, b Value) Value {
	if p.fp {
		return p.fbin(OFSub, a, b)
	}
	return p.fadd(a, p.fneg(b))
}

func (p *Path) fmul(a, b Value) Value {
	if p.fp {
		return p.fbin(OFMul, a, b)
	}
	x, fx, ok := p.real(a)
	y, fy, ok2 := p.real(b)
	if ok && ok2 {
		return p.rc.mul(x, y)
	}
	if !ok && !ok2 {
		return fx * fy
	}
	if ok {
		x, fx, fy = x, fy, 0
	} else {
		x = y
	}
	// x real, fx special
	if math.IsNaN(fx) {
		return fx
	}
	return fx * float64(p.signDecide(x.num)) // Inf*0 = NaN
}

func (p *Path) fdiv(a, b Value) Value {
	if p.fp {
		return p.fbin(OFDiv, a, b)
	}
	x, fx, ok := p.real(a)
	y, fy, ok2 := p.real(b)
	switch {
	case ok && ok2:
		s := p.signDecide(y.num)
		if s == 0 {
			return float64(p.signDecide(x.num)) / 0.0 * 1.0 / 1.0
		}
		return p.rc.div(x, y, s)
	case ok: // finite / special
		if math.IsNaN(fy) {
			return fy
		}
		return rlZero
	case ok2: // special / finite
		if math.IsNaN(fx) {
			return fx
		}
		s := p.signDecide(y.num)
		if s == 0 {
			s = 1
		}
		return fx * float64(s)
	}
	return fx / fy
}

// fcmp compares: op in OFLt, OFLe, OFEq
func (p *Path) fcmp(op Op, a, b Value) Value {
	if p.fp {
		x, ok := a.(float64)
		y, ok2 := b.(float64)
		if ok && ok2 {
			switch op {
			case OFLt:
				return x < y
			case OFLe:
				return x <= y
			default:
				return x == y
			}
		}
		return boolVal(p.tc.FCmp(op, p.fterm(a), p.fterm(b)))
	}
	x, fx, ok := p.real(a)
	y, fy, ok2 := p.real(b)
	if !ok || !ok2 {
		if ok {
			fx = 0
		}
		if ok2 {
			fy = 0
		}
		switch op {
		case OFLt:
			return fx < fy
		case OFLe:
			return fx <= fy
		default:
			return fx == fy && ok == ok2
		}
	}
	return boolVal(p.realRel(op, x, y))
}

func (p *Path) realRel(op Op, x, y *Rl) *Term {
	d := p.rc.sub(x, y)
	pop := map[Op]Op{OFLt: OPLt0, OFLe: OPLe0, OFEq: OPEq0}[op]
	n := d.num
	if len(d.den) == 0 {
		if t, ok := p.logRel(pop, n); ok {
			return t
		}
	}
	return p.tc.polyRel(pop, n)
}

// logRel handles sum n_i*log(a_i) + c rel 0 without logarithms
func (p *Path) logRel(op Op, n *Poly) (*Term, bool) {
	has := false
	type lt struct {
		at *Atom
		c  *big.Rat
	}
	var logs []lt
	c := new(big.Rat)
	for _, t := range n.t {
		if t.m == "" {
			c = t.c
			continue
		}
		if monoPairs(t.m) == 1 && monoExp(t.m, 0) == 1 && p.rc.atoms[monoAtom(t.m, 0)].kind == ALog {
			has = true
			logs = append(logs, lt{p.rc.atoms[monoAtom(t.m, 0)], t.c})
			continue
		}
		return nil, false
	}
	if !has {
		return nil, false
	}
	// scale so that the coefficients become integers with gcd 1
	l := big.NewInt(1)
	g := new(big.Int)
	for _, x := range logs {
		gg := new(big.Int).GCD(nil, nil, l, x.c.Denom())
		l.Mul(l, new(big.Int).Quo(x.c.Denom(), gg))
	}
	for _, x := range logs {
		v := new(big.Rat).Mul(x.c, new(big.Rat).SetInt(l))
		g.GCD(nil, nil, g, new(big.Int).Abs(v.Num()))
	}
	scale := new(big.Rat).SetFrac(l, g)
	cc := new(big.Rat).Mul(c, scale)
	// prod a_i^{n_i} rel exp(-cc)
	lhs, rhs := rlOne, rlOne
	total := 0
	for _, x := range logs {
		v := new(big.Rat).Mul(x.c, scale)
		k := int(v.Num().Int64())
		total += abs(k)
		if total > 40 {
			return nil, false
		}
		for i := 0; i < abs(k); i++ {
			if k > 0 {
				lhs = p.rc.mul(lhs, x.at.defR)
			} else {
				rhs = p.rc.mul(rhs, x.at.defR)
			}
		}
	}
	cf, _ := cc.Float64()
	if cf > 690 { // left side must be below exp(-cc) ~ 0
		switch op {
		case OPLt0, OPLe0, OPEq0:
			return p.tc.F, true
		}
	}
	if cf < -690 {
		if op == OPEq0 {
			return p.tc.F, true
		}
		return p.tc.T, true
	}
	if cc.Sign() != 0 {
		rhs = p.rc.mul(rhs, rlConst(expRat(cc, -1)))
	}
	d := p.rc.sub(lhs, rhs)
	return p.tc.polyRel(op, d.num), true
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// expRat approximates exp(s*c) by a rational with a relative error far below double precision
func expRat(c *big.Rat, s int) *big.Rat {
	const prec = 96
	x := new(big.Float).SetPrec(prec).SetRat(c)
	if s < 0 {
		x.Neg(x)
	}
	neg := x.Sign() < 0
	if neg {
		x.Neg(x)
	}
	// halve until small
	k := 0
	for x.Cmp(big.NewFloat(0.25)) > 0 {
		x.Quo(x, big.NewFloat(2))
		k++
	}
	sum := new(big.Float).SetPrec(prec).SetInt64(1)
	term := new(big.Float).SetPrec(prec).SetInt64(1)
	for i := int64(1); i < 40; i++ {
		term.Mul(term, x)
		term.Quo(term, new(big.Float).SetPrec(prec).SetInt64(i))
		sum.Add(sum, term)
	}
	for i := 0; i < k; i++ {
		sum.Mul(sum, sum)
	}
	if neg {
		sum.Quo(new(big.Float).SetPrec(prec).SetInt64(1), sum)
	}
	// short continued-fraction-free rounding: keep 64 significant bits
	sum.SetPrec(64)
	r, _ := sum.Rat(nil)
	return r
}

func (p *Path) fsqrt(a Value) Value {
	if p.fp {
		if x, ok := a.(float64); ok {
			return math.Sqrt(x)
		}
		return fpVal(p.tc.FUn(OFSqrt, p.fterm(a)))
	}
	x, f, ok := p.real(a)
	if !ok {
		return math.Sqrt(f)
	}
	if x.num.isZero() {
		return rlZero
	}
	if x.isConst() {
		if x.constVal().Sign() < 0 {
			return math.NaN()
		}
		return p.sqrtPoly(x.num)
	}
	if p.cond(boolVal(p.tc.polyRel(OPLt0, x.num))) {
		return math.NaN()
	}
	// sqrt(n/d) = sqrt(n*d)/d
	n := x.num
	res := rlOne
	for _, fac := range x.den {
		e := fac.e
		if e%2 == 1 {
			n = p.rc.polyMul(n, fac.p)
			e++
		}
		res = p.rc.mul(res, &Rl{num: polyOne, den: []Fac{{fac.p, e / 2}}})
	}
	return p.rc.mul(res, p.sqrtPoly(n))
}

// sqrtPoly: square root of a polynomial known to be non-negative
func (p *Path) sqrtPoly(n *Poly) *Rl {
	if n.isZero() {
		return rlZero
	}
	c, pp := polyPrimitive(n)
	if c.Sign() < 0 {
		c = new(big.Rat).Neg(c)
		pp = polyNeg(pp)
	}
	// sqrt(c) = sqrt(num*den)/den
	nd := new(big.Int).Mul(c.Num(), c.Denom())
	s, f := sqrtParts(nd)
	coef := new(big.Rat).SetFrac(s, c.Denom())
	res := rlConst(coef)
	if f.Cmp(big.NewInt(1)) != 0 {
		if pp.isConst() {
			at := p.sqrtAtom(polyConst(new(big.Rat).SetInt(f)))
			return p.rc.mul(res, &Rl{num: polyAtom(at.id)})
		}
		pp = polyScale(pp, new(big.Rat).SetInt(f))
	}
	if pp.isConst() {
		return res
	}
	// perfect square of a monomial: |m|
	if len(pp.t) == 1 && pp.t[0].c.Cmp(ratOne) == 0 {
		m := pp.t[0].m
		allEven := true
		out := Mono("")
		for i := 0; i < monoPairs(m); i++ {
			if monoExp(m, i)%2 != 0 {
				allEven = false
				break
			}
			out += mkMono(monoAtom(m, i), monoExp(m, i)/2)
		}
		if allEven {
			q := &Poly{t: []PTerm{{out, ratOne}}}
			if p.signDecide(q) < 0 {
				q = polyNeg(q)
			}
			return p.rc.mul(res, &Rl{num: q})
		}
	}
	if q, ok := p.polySqrt(pp); ok {
		if p.signDecide(q) < 0 {
			q = polyNeg(q)
		}
		return p.rc.mul(res, &Rl{num: q})
	}
	at := p.sqrtAtom(pp)
	return p.rc.mul(res, &Rl{num: polyAtom(at.id)})
}

// polySqrt finds an exact polynomial square root (leading coefficient positive)
func (p *Path) polySqrt(n *Poly) (*Poly, bool) {
	if len(n.t) > 60 {
		return nil, false
	}
	lead := n.t[0]
	if lead.c.Sign() < 0 {
		return nil, false
	}
	rootMono := func(m Mono) (Mono, bool) {
		out := Mono("")
		for i := 0; i < monoPairs(m); i++ {
			if monoExp(m, i)%2 != 0 || p.rc.atoms[monoAtom(m, i)].kind == ASqrt {
				return "", false
			}
			out += mkMono(monoAtom(m, i), monoExp(m, i)/2)
		}
		return out, true
	}
	lm, ok := rootMono(lead.m)
	if !ok {
		return nil, false
	}
	ns, nf := sqrtParts(lead.c.Num())
	ds, df := sqrtParts(lead.c.Denom())
	if nf.Cmp(big.NewInt(1)) != 0 || df.Cmp(big.NewInt(1)) != 0 {
		return nil, false
	}
	q := &Poly{t: []PTerm{{lm, new(big.Rat).SetFrac(ns, ds)}}}
	for i := 0; i < 30; i++ {
		rem := polySub(n, p.rc.polyMul(q, q))
		if rem.isZero() {
			return q, true
		}
		m, ok := monoDiv(rem.t[0].m, lm)
		if !ok {
			return nil, false
		}
		c := new(big.Rat).Quo(rem.t[0].c, new(big.Rat).Mul(big.NewRat(2, 1), q.t[0].c))
		if !monoLexLess(m, q.t[len(q.t)-1].m) {
			return nil, false
		}
		q = polyAdd(q, &Poly{t: []PTerm{{m, c}}})
	}
	return nil, false
}

func (p *Path) sqrtAtom(def *Poly) *Atom {
	k := def.Key()
	if id, ok := p.rc.sqrts[k]; ok {
		return p.rc.atoms[id]
	}
	at := p.rc.newAtom("sqrt", ASqrt)
	at.def = def
	at.nonneg = true
	p.rc.sqrts[k] = at.id
	if def.isConst() {
		// tight rational bounds so that linear solvers can use it
	}
	return at
}

func (p *Path) flog(a Value) Value {
	if f, ok := concreteFloat(a); ok {
		return p.fl(math.Log(f))
	}
	if p.fp {
		panic(abortPath{"log of a symbolic float"})
	}
	x := a.(*Rl)
	s := p.signDecide(x.num)
	if s < 0 {
		return math.NaN()
	}
	if s == 0 {
		return math.Inf(-1)
	}
	k := x.num.Key()
	for _, f := range x.den {
		k += fmt.Sprintf("/%s^%d", f.p.Key(), f.e)
	}
	if id, ok := p.rc.logs[k]; ok {
		return &Rl{num: polyAtom(id)}
	}
	at := p.rc.newAtom("log", ALog)
	at.defR = x
	at.def = x.num
	p.rc.logs[k] = at.id
	L := &Rl{num: polyAtom(at.id)}
	if x.isConst() {
		// the value of the library function to within its rounding
		if f, _ := x.constVal().Float64(); f > 1e-300 && f < 1e300 {
			l := math.Log(f)
			eps := 1e-13 * (1 + math.Abs(l))
			at.cons = append(at.cons,
				p.tc.polyRel(OPLt0, polySub(L.num, rlConst(new(big.Rat).SetFloat64(l+eps)).num)),
				p.tc.polyRel(OPLt0, polySub(rlConst(new(big.Rat).SetFloat64(l-eps)).num, L.num)))
		}
	}
	// log x <= x-1, monotonicity against other logs
	at.cons = append(at.cons, p.tc.polyRel(OPLe0, p.rc.sub(L, p.rc.sub(x, rlOne)).num))
	for _, o := range p.sortedIDs(p.rc.logs) {
		if o == at.id {
			continue
		}
		oa := p.rc.atoms[o]
		OL := &Rl{num: polyAtom(o)}
		lt := p.tc.polyRel(OPLt0, p.rc.sub(x, oa.defR).num)
		eq := p.tc.polyRel(OPEq0, p.rc.sub(x, oa.defR).num)
		at.cons = append(at.cons,
			p.tc.Or(p.tc.And(lt, p.tc.polyRel(OPLt0, polySub(L.num, OL.num))),
				p.tc.And(eq, p.tc.polyRel(OPEq0, polySub(L.num, OL.num))),
				p.tc.And(p.tc.Not(lt), p.tc.Not(eq), p.tc.polyRel(OPLt0, polySub(OL.num, L.num)))))
	}
	return L
}

func (p *Path) sortedIDs(m map[string]int) []int {
	var out []int
	for _, v := range m {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

func (p *Path) fexp(a Value) Value {
	if f, ok := concreteFloat(a); ok {
		return p.fl(math.Exp(f))
	}
	if p.fp {
		panic(abortPath{"exp of a symbolic float"})
	}
	x := a.(*Rl)
	// exp(sum c_i log a_i + k)
	if len(x.den) == 0 {
		onlyLogs := true
		for _, t := range x.num.t {
			if t.m == "" {
				continue
			}
			if !(monoPairs(t.m) == 1 && monoExp(t.m, 0) == 1 && p.rc.atoms[monoAtom(t.m, 0)].kind == ALog) {
				onlyLogs = false
			}
		}
		if onlyLogs {
			res := rlOne
			for _, t := range x.num.t {
				if t.m == "" {
					res = p.rc.mul(res, rlConst(expRat(t.c, 1)))
					continue
				}
				base := p.rc.atoms[monoAtom(t.m, 0)].defR
				q := t.c.Denom().Int64()
				e := t.c.Num().Int64()
				if q > 12 || e > 12 || e < -12 {
					onlyLogs = false
					break
				}
				var f *Rl = rlOne
				n := e
				if n < 0 {
					n = -n
				}
				for i := int64(0); i < n; i++ {
					f = p.rc.mul(f, base)
				}
				if e < 0 {
					f = p.rc.div(rlOne, f, 1)
				}
				switch {
				case q == 2:
					f = p.fsqrt(f).(*Rl)
				case q > 2:
					k := fmt.Sprintf("root%d:%s", q, f.num.Key())
					for _, d := range f.den {
						k += fmt.Sprintf("/%s^%d", d.p.Key(), d.e)
					}
					id, ok := p.rc.exps[k]
					if !ok {
						at := p.rc.newAtom("root", AExp)
						at.nonneg = true
						at.rootOf, at.rootQ = f, int(q)
						p.rc.exps[k] = at.id
						pw := rlOne
						for i := int64(0); i < q; i++ {
							pw = p.rc.mul(pw, &Rl{num: polyAtom(at.id)})
						}
						at.cons = append(at.cons, p.tc.polyRel(OPLt0, polyNeg(polyAtom(at.id))), p.tc.polyRel(OPEq0, p.rc.sub(pw, f).num))
						id = at.id
					}
					f = &Rl{num: polyAtom(id)}
				}
				res = p.rc.mul(res, f)
			}
			if onlyLogs {
				return res
			}
		}
	}
	k := x.num.Key()
	for _, f := range x.den {
		k += fmt.Sprintf("/%s^%d", f.p.Key(), f.e)
	}
	if id, ok := p.rc.exps[k]; ok {
		return &Rl{num: polyAtom(id)}
	}
	at := p.rc.newAtom("exp", AExp)
	at.defR = x
	at.def = x.num
	at.nonneg = true
	p.rc.exps[k] = at.id
	E := &Rl{num: polyAtom(at.id)}
	at.cons = append(at.cons, p.tc.polyRel(OPLt0, polyNeg(E.num)), p.tc.polyRel(OPLe0, p.rc.sub(p.rc.add(x, rlOne), E).num))
	for _, o := range p.sortedIDs(p.rc.exps) {
		oa := p.rc.atoms[o]
		if o == at.id || oa.defR == nil {
			continue
		}
		lt := p.tc.polyRel(OPLt0, p.rc.sub(x, oa.defR).num)
		eq := p.tc.polyRel(OPEq0, p.rc.sub(x, oa.defR).num)
		ep := polySub(E.num, polyAtom(o))
		at.cons = append(at.cons,
			p.tc.Or(p.tc.And(lt, p.tc.polyRel(OPLt0, ep)), p.tc.And(eq, p.tc.polyRel(OPEq0, ep)),
				p.tc.And(p.tc.Not(lt), p.tc.Not(eq), p.tc.polyRel(OPLt0, polyNeg(ep)))))
	}
	return E
}

func (p *Path) fpow(a, b Value) Value {
	e, ok := concreteFloat(b)
	if !ok {
		panic(abortPath{"pow with symbolic exponent"})
	}
	if x, ok := a.(float64); ok {
		return p.fl(math.Pow(x, e))
	}
	if p.fp {
		if e == 2 {
			return p.fmul(a, a)
		}
		panic(abortPath{"pow of a symbolic float"})
	}
	if e == math.Trunc(e) && math.Abs(e) <= 64 {
		var r Value = rlOne
		n := int(math.Abs(e))
		for i := 0; i < n; i++ {
			r = p.fmul(r, a)
		}
		if e < 0 {
			return p.fdiv(rlOne, r)
		}
		return r
	}
	if e == 0.5 {
		return p.fsqrt(a)
	}
	if x, ok := concreteFloat(a); ok {
		return p.fl(math.Pow(x, e))
	}
	panic(abortPath{"pow with a non-integer exponent"})
}

func (p *Path) fabs(a Value) Value {
	if p.fp {
		if x, ok := a.(float64); ok {
			return math.Abs(x)
		}
		return fpVal(p.tc.FUn(OFAbs, p.fterm(a)))
	}
	x, f, ok := p.real(a)
	if !ok {
		return math.Abs(f)
	}
	if x.isConst() {
		if x.constVal().Sign() < 0 {
			return rlNeg(x)
		}
		return x
	}
	if p.cond(boolVal(p.realRel(OFLt, x, rlZero))) {
		return rlNeg(x)
	}
	return x
}

// realToInt: Go conversion int(x)
func (p *Path) realToInt(v Value, k intKind) Value {
	switch x := v.(type) {
	case float64:
		if p.fp {
			return wrapInt(int64(x), k)
		}
		return int64(math.MinInt64)
	case *Rl:
		if !x.isConst() {
			// concretise the truncated value
			for n := 0; n < 200; n++ {
				var cand int64
				if p.pos < len(p.prefix) {
					d := p.prefix[p.pos]
					cand = d.aux
				} else {
					f := 0.0
					if p.model != nil {
						p.completeModel()
						f = evalRlF(x, func(a int) float64 { return p.modelF(a) })
					}
					if math.IsNaN(f) || math.Abs(f) > 1e15 {
						panic(abortPath{"cannot convert real to int"})
					}
					cand = int64(f)
				}
				in := p.truncIs(x, cand)
				if p.decideAux(in, cand) {
					return wrapInt(cand, k)
				}
			}
			panic(abortPath{"too many int values of a real"})
		}
		r := x.constVal()
		q := new(big.Int).Quo(r.Num(), r.Denom())
		if !q.IsInt64() {
			return int64(math.MinInt64)
		}
		return wrapInt(q.Int64(), k)
	case *Term:
		return bvVal(p.tc.mk(OFToSBV, SBV, k.w, []*Term{x}, 0, "", nil), k)
	}
	panic(abortPath{fmt.Sprintf("realToInt %T", v)})
}

func (p *Path) truncIs(x *Rl, c int64) *Term {
	lo, hi := rlInt(c), rlInt(c+1)
	switch {
	case c > 0:
		return p.tc.And(p.realRel(OFLe, lo, x), p.realRel(OFLt, x, hi))
	case c < 0:
		return p.tc.And(p.realRel(OFLt, rlInt(c-1), x), p.realRel(OFLe, x, lo))
	}
	return p.tc.And(p.realRel(OFLt, rlInt(-1), x), p.realRel(OFLt, x, rlInt(1)))
}

// decideAux is decide with a recorded auxiliary value
func (p *Path) decideAux(c *Term, aux int64) bool {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		if d.c == 1 {
			p.addPC(c)
		} else {
			p.addPC(p.tc.Not(c))
		}
		return d.c == 1
	}
	rT, mT := p.query([]*Term{c}, true)
	rF, mF := p.query([]*Term{p.tc.Not(c)}, true)
	merge := func(m *Model) *Model {
		if m == nil || p.model == nil {
			return nil
		}
		return mergeModels(p.model, m)
	}
	if rT == Unsat && rF == Unsat {
		panic(endPath{})
	}
	if rT != Unsat && rF != Unsat {
		p.pushAlt(Dec{c: 0, aux: aux}, merge(mF))
	}
	if rT != Unsat {
		p.log = append(p.log, Dec{c: 1, aux: aux})
		p.pos++
		p.addPC(c)
		p.model = merge(mT)
		return true
	}
	p.log = append(p.log, Dec{c: 0, aux: aux})
	p.pos++
	p.addPC(p.tc.Not(c))
	p.model = merge(mF)
	return false
}

func (p *Path) modelF(a int) float64 { return p.modelFM(p.model, a) }

func (p *Path) modelFM(m *Model, a int) float64 {
	if m != nil {
		if r, ok := m.real[a]; ok {
			f, _ := r.Float64()
			return f
		}
		if f, ok := m.inex[a]; ok {
			return f
		}
	}
	at := p.rc.atoms[a]
	switch at.kind {
	case ASqrt:
		return math.Sqrt(evalPolyF(at.def, func(i int) float64 { return p.modelFM(m, i) }))
	case ALog:
		return math.Log(evalRlF(at.defR, func(i int) float64 { return p.modelFM(m, i) }))
	case AExp:
		if at.rootOf != nil {
			return math.Pow(evalRlF(at.rootOf, func(i int) float64 { return p.modelFM(m, i) }), 1/float64(at.rootQ))
		}
		if at.defR != nil {
			return math.Exp(evalRlF(at.defR, func(i int) float64 { return p.modelFM(m, i) }))
		}
	}
	return 0
}
