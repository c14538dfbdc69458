package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type SortK uint8

const (
	SBool SortK = iota
	SBV
	SFP
)

type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OIte
	OEq
	// bitvectors
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	ONeg
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OExtract // keep low bits
	OZext
	OSext
	// reals: polynomial constraint
	OPLt0 // p < 0
	OPLe0 // p <= 0
	OPEq0 // p = 0
	// floating point
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFFromSBV
	OFToSBV
	OFSameBits // structural equality
)

type Term struct {
	op   Op
	sort SortK
	w    int // width
	args []*Term
	val  uint64 // constants (bool 0/1, bv bits, fp bits)
	name string
	p    *Poly
	id   int
	vars []int32 // sorted variable ids (bv/fp/bool vars: 2*k, atoms: 2*k+1)
}

type termKey struct {
	op         Op
	sort       SortK
	w          int
	a, b, c    int
	val        uint64
	name       string
}

// TermCtx: hash-consing table of one path
type TermCtx struct {
	tab   map[termKey]*Term
	all   []*Term
	vars  []*Term
	T, F  *Term
	rc    *RealCtx
}

func newTermCtx() *TermCtx {
	tc := &TermCtx{tab: map[termKey]*Term{}, rc: newRealCtx()}
	tc.T = tc.mk(OConst, SBool, 0, nil, 1, "", nil)
	tc.F = tc.mk(OConst, SBool, 0, nil, 0, "", nil)
	return tc
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (tc *TermCtx) polyVars(p *Poly) []int32 {
	seen := map[int]bool{}
	var visit func(p *Poly)
	visit = func(p *Poly) {
		for _, t := range p.t {
			for i := 0; i < monoPairs(t.m); i++ {
				a := monoAtom(t.m, i)
				if !seen[a] {
					seen[a] = true
					if at := tc.rc.atoms[a]; at.def != nil && at.kind == ASqrt {
						visit(at.def)
					}
				}
			}
		}
	}
	visit(p)
	var out []int32
	for a := range seen {
		out = append(out, int32(2*a+1))
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (tc *TermCtx) mk(op Op, s SortK, w int, args []*Term, val uint64, name string, p *Poly) *Term {
	k := termKey{op: op, sort: s, w: w, a: -1, b: -1, c: -1, val: val, name: name}
	if p != nil {
		k.name = p.Key()
	}
	switch len(args) {
	case 0:
	case 1:
		k.a = args[0].id
	case 2:
		k.a, k.b = args[0].id, args[1].id
	case 3:
		k.a, k.b, k.c = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		for _, a := range args {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
		k.name = sb.String()
	}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, w: w, args: args, val: val, name: name, p: p, id: len(tc.all)}
	for _, a := range args {
		t.vars = mergeVars(t.vars, a.vars)
	}
	if p != nil {
		t.vars = tc.polyVars(p)
	}
	tc.all = append(tc.all, t)
	tc.tab[k] = t
	return t
}

func (tc *TermCtx) newVar(name string, s SortK, w int) *Term {
	t := tc.mk(OVar, s, w, nil, uint64(len(tc.vars)), name, nil)
	t.vars = []int32{int32(2 * len(tc.vars))}
	tc.vars = append(tc.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (tc *TermCtx) boolC(b bool) *Term {
	if b {
		return tc.T
	}
	return tc.F
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (tc *TermCtx) bvC(v uint64, w int) *Term {
	return tc.mk(OConst, SBV, w, nil, v&mask(w), "", nil)
}
func (tc *TermCtx) fpC(f float64) *Term {
	return tc.mk(OConst, SFP, 64, nil, math.Float64bits(f), "", nil)
}

func (tc *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tc.boolC(a.val == 0)
	case ONot:
		return a.args[0]
	case OPLt0: // not(p<0) == -p<=0
		return tc.polyRel(OPLe0, polyNeg(a.p))
	case OPLe0:
		return tc.polyRel(OPLt0, polyNeg(a.p))
	}
	return tc.mk(ONot, SBool, 0, []*Term{a}, 0, "", nil)
}

func (tc *TermCtx) And(xs ...*Term) *Term { return tc.nary(OAnd, xs) }
func (tc *TermCtx) Or(xs ...*Term) *Term  { return tc.nary(OOr, xs) }
func (tc *TermCtx) nary(op Op, xs []*Term) *Term {
	unit, absorb := tc.T, tc.F
	if op == OOr {
		unit, absorb = tc.F, tc.T
	}
	var flat []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == unit || seen[t.id] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		flat = append(flat, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return absorb
		}
	}
	for _, x := range flat {
		if seen[tc.Not(x).id] {
			return absorb
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return tc.mk(op, SBool, 0, flat, 0, "", nil)
}

func (tc *TermCtx) Ite(c, a, b *Term) *Term {
	if c == tc.T || a == b {
		return a
	}
	if c == tc.F {
		return b
	}
	if a.sort == SBool {
		if a == tc.T && b == tc.F {
			return c
		}
		return tc.And(tc.Or(tc.Not(c), a), tc.Or(c, b))
	}
	return tc.mk(OIte, a.sort, a.w, []*Term{c, a, b}, 0, "", nil)
}

func (tc *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return tc.T
	}
	if a.isConst() && b.isConst() {
		return tc.boolC(a.val == b.val)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b == tc.T {
			return a
		}
		if b == tc.F {
			return tc.Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OEq, SBool, 0, []*Term{a, b}, 0, "", nil)
}

// polyRel builds p rel 0 in canonical form
func (tc *TermCtx) polyRel(op Op, p *Poly) *Term {
	if p.isConst() {
		s := p.constVal().Sign()
		switch op {
		case OPLt0:
			return tc.boolC(s < 0)
		case OPLe0:
			return tc.boolC(s <= 0)
		default:
			return tc.boolC(s == 0)
		}
	}
	c, pp := polyPrimitive(p)
	if c.Sign() < 0 && op != OPEq0 {
		pp = polyNeg(pp)
	}
	return tc.mk(op, SBool, 0, nil, 0, "", pp)
}

func bvFold(op Op, w int, a, b uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUdiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OUrem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSdiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSrem:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m, true
	}
	return 0, false
}

func (tc *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if v, ok := bvFold(op, a.w, a.val, b.val); ok {
			return tc.bvC(v, a.w)
		}
	}
	switch op {
	case OAdd, OBOr, OBXor:
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OSub, OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if op == OSub && a == b {
			return tc.bvC(0, a.w)
		}
	case OMul:
		if a.isConst() && a.val == 1 {
			return b
		}
		if b.isConst() && b.val == 1 {
			return a
		}
		if (a.isConst() && a.val == 0) || (b.isConst() && b.val == 0) {
			return tc.bvC(0, a.w)
		}
	case OBAnd:
		if (a.isConst() && a.val == 0) || (b.isConst() && b.val == 0) {
			return tc.bvC(0, a.w)
		}
		if b.isConst() && b.val == mask(a.w) {
			return a
		}
		if a.isConst() && a.val == mask(a.w) {
			return b
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tc.mk(op, SBV, a.w, []*Term{a, b}, 0, "", nil)
}

func (tc *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return tc.boolC(a.val < b.val)
		case OUle:
			return tc.boolC(a.val <= b.val)
		case OSlt:
			return tc.boolC(sext(a.val, a.w) < sext(b.val, b.w))
		case OSle:
			return tc.boolC(sext(a.val, a.w) <= sext(b.val, b.w))
		}
	}
	if a == b {
		return tc.boolC(op == OUle || op == OSle)
	}
	return tc.mk(op, SBool, 0, []*Term{a, b}, 0, "", nil)
}

func (tc *TermCtx) Un(op Op, a *Term) *Term {
	if a.isConst() {
		switch op {
		case ONeg:
			return tc.bvC(-a.val, a.w)
		case OBNot:
			return tc.bvC(^a.val, a.w)
		}
	}
	return tc.mk(op, SBV, a.w, []*Term{a}, 0, "", nil)
}

func (tc *TermCtx) Resize(a *Term, w int, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return tc.bvC(uint64(sext(a.val, a.w)), w)
		}
		return tc.bvC(a.val, w)
	}
	if w < a.w {
		return tc.mk(OExtract, SBV, w, []*Term{a}, 0, "", nil)
	}
	if signed {
		return tc.mk(OSext, SBV, w, []*Term{a}, 0, "", nil)
	}
	return tc.mk(OZext, SBV, w, []*Term{a}, 0, "", nil)
}

func fpv(t *Term) float64 { return math.Float64frombits(t.val) }

func (tc *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fpv(a), fpv(b)
		switch op {
		case OFAdd:
			return tc.fpC(x + y)
		case OFSub:
			return tc.fpC(x - y)
		case OFMul:
			return tc.fpC(x * y)
		case OFDiv:
			return tc.fpC(x / y)
		}
	}
	return tc.mk(op, SFP, 64, []*Term{a, b}, 0, "", nil)
}
func (tc *TermCtx) FUn(op Op, a *Term) *Term {
	if a.isConst() {
		x := fpv(a)
		switch op {
		case OFNeg:
			return tc.fpC(-x)
		case OFAbs:
			return tc.fpC(math.Abs(x))
		case OFSqrt:
			return tc.fpC(math.Sqrt(x))
		}
	}
	return tc.mk(op, SFP, 64, []*Term{a}, 0, "", nil)
}
func (tc *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fpv(a), fpv(b)
		switch op {
		case OFLt:
			return tc.boolC(x < y)
		case OFLe:
			return tc.boolC(x <= y)
		case OFEq:
			return tc.boolC(x == y)
		case OFSameBits:
			return tc.boolC(a.val == b.val)
		}
	}
	return tc.mk(op, SBool, 0, []*Term{a, b}, 0, "", nil)
}
func (tc *TermCtx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return tc.boolC(fpv(a) != fpv(a))
	}
	return tc.mk(OFIsNaN, SBool, 0, []*Term{a}, 0, "", nil)
}

// ---------- evaluation under a model ----------

type Model struct {
	bv   map[int]uint64   // by var index
	real map[int]*big.Rat // by atom id
	inex map[int]float64  // irrational atoms (approximation)
}

func newModel() *Model {
	return &Model{bv: map[int]uint64{}, real: map[int]*big.Rat{}, inex: map[int]float64{}}
}

// merged copy: b overrides a
func mergeModels(a, b *Model) *Model {
	m := newModel()
	for _, x := range []*Model{a, b} {
		if x == nil {
			continue
		}
		for k, v := range x.bv {
			m.bv[k] = v
		}
		for k, v := range x.real {
			m.real[k] = v
			delete(m.inex, k)
		}
		for k, v := range x.inex {
			m.inex[k] = v
			delete(m.real, k)
		}
	}
	return m
}

var errNoVal = fmt.Errorf("no value")

func (tc *TermCtx) evalBool(t *Term, m *Model) (bool, bool) {
	v, ok := tc.eval(t, m)
	return v == 1, ok
}

func (tc *TermCtx) eval(t *Term, m *Model) (uint64, bool) {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OConst:
		return t.val, true
	case OVar:
		v, ok := m.bv[int(t.val)]
		return v, ok
	case OPLt0, OPLe0, OPEq0:
		s, ok := evalPoly(t.p, func(a int) *big.Rat { return m.real[a] })
		if !ok {
			return 0, false
		}
		switch t.op {
		case OPLt0:
			return b2u(s.Sign() < 0), true
		case OPLe0:
			return b2u(s.Sign() <= 0), true
		}
		return b2u(s.Sign() == 0), true
	case OAnd, OOr:
		unknown := false
		for _, a := range t.args {
			v, ok := tc.eval(a, m)
			if !ok {
				unknown = true
				continue
			}
			if t.op == OAnd && v == 0 {
				return 0, true
			}
			if t.op == OOr && v == 1 {
				return 1, true
			}
		}
		if unknown {
			return 0, false
		}
		return b2u(t.op == OAnd), true
	}
	var av [3]uint64
	for i, a := range t.args {
		v, ok := tc.eval(a, m)
		if !ok {
			return 0, false
		}
		av[i] = v
	}
	switch t.op {
	case ONot:
		return 1 - av[0], true
	case OIte:
		if av[0] == 1 {
			return av[1], true
		}
		return av[2], true
	case OEq:
		return b2u(av[0] == av[1]), true
	case OAdd, OSub, OMul, OUdiv, OSdiv, OUrem, OSrem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return bvFold(t.op, t.w, av[0], av[1])
	case ONeg:
		return (-av[0]) & mask(t.w), true
	case OBNot:
		return (^av[0]) & mask(t.w), true
	case OUlt:
		return b2u(av[0] < av[1]), true
	case OUle:
		return b2u(av[0] <= av[1]), true
	case OSlt:
		w := t.args[0].w
		return b2u(sext(av[0], w) < sext(av[1], w)), true
	case OSle:
		w := t.args[0].w
		return b2u(sext(av[0], w) <= sext(av[1], w)), true
	case OExtract:
		return av[0] & mask(t.w), true
	case OZext:
		return av[0], true
	case OSext:
		return uint64(sext(av[0], t.args[0].w)) & mask(t.w), true
	}
	f := func(i int) float64 { return math.Float64frombits(av[i]) }
	r := func(x float64) (uint64, bool) { return math.Float64bits(x), true }
	switch t.op {
	case OFAdd:
		return r(f(0) + f(1))
	case OFSub:
		return r(f(0) - f(1))
	case OFMul:
		return r(f(0) * f(1))
	case OFDiv:
		return r(f(0) / f(1))
	case OFNeg:
		return r(-f(0))
	case OFAbs:
		return r(math.Abs(f(0)))
	case OFSqrt:
		return r(math.Sqrt(f(0)))
	case OFLt:
		return b2u(f(0) < f(1)), true
	case OFLe:
		return b2u(f(0) <= f(1)), true
	case OFEq:
		return b2u(f(0) == f(1)), true
	case OFIsNaN:
		return b2u(f(0) != f(0)), true
	case OFSameBits:
		return b2u(av[0] == av[1]), true
	case OFFromSBV:
		return r(float64(sext(av[0], t.args[0].w)))
	}
	return 0, false
}

// ---------- SMT-LIB printing ----------

func ratSMT(r *big.Rat) string {
	s := ""
	if r.IsInt() {
		s = new(big.Int).Abs(r.Num()).String() + ".0"
	} else {
		s = "(/ " + new(big.Int).Abs(r.Num()).String() + ".0 " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

type smtPrinter struct {
	tc     *TermCtx
	decl   strings.Builder
	body   strings.Builder
	defs   map[int]string
	vars   map[int]bool
	atoms  map[int]bool
	order  []int // atoms in order
	vorder []int
	hasReal, hasNonlin, hasBV, hasFP bool
}

func (sp *smtPrinter) atom(a int) string {
	n := fmt.Sprintf("a%d", a)
	if !sp.atoms[a] {
		sp.atoms[a] = true
		sp.order = append(sp.order, a)
		at := sp.tc.rc.atoms[a]
		fmt.Fprintf(&sp.decl, "(declare-const %s Real)\n", n)
		sp.hasReal = true
		if at.kind == ASqrt {
			d := sp.poly(at.def)
			fmt.Fprintf(&sp.body, "(assert (and (>= %s 0.0) (= (* %s %s) %s)))\n", n, n, n, d)
			sp.hasNonlin = true
		}
		for _, c := range at.cons {
			fmt.Fprintf(&sp.body, "(assert %s)\n", sp.term(c))
		}
	}
	return n
}

func (sp *smtPrinter) poly(p *Poly) string {
	if p.isZero() {
		return "0.0"
	}
	var parts []string
	for _, t := range p.t {
		var f []string
		if t.c.Cmp(ratOne) != 0 || t.m == "" {
			f = append(f, ratSMT(t.c))
		}
		nv := 0
		for i := 0; i < monoPairs(t.m); i++ {
			n := sp.atom(monoAtom(t.m, i))
			for k := 0; k < monoExp(t.m, i); k++ {
				f = append(f, n)
				nv++
			}
		}
		if nv > 1 {
			sp.hasNonlin = true
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(* "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func bvLit(v uint64, w int) string { return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w) }

func fpLit(b uint64) string {
	f := math.Float64frombits(b)
	if f != f {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", ONeg: "bvneg", OBNot: "bvnot",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFSameBits: "="}

func (sp *smtPrinter) sortName(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	return "(_ FloatingPoint 11 53)"
}

func (sp *smtPrinter) term(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SBV:
			sp.hasBV = true
			return bvLit(t.val, t.w)
		}
		sp.hasFP = true
		return fpLit(t.val)
	case OVar:
		n := fmt.Sprintf("v%d", t.val)
		if !sp.vars[int(t.val)] {
			sp.vars[int(t.val)] = true
			sp.vorder = append(sp.vorder, int(t.val))
			if t.sort == SFP {
				sp.hasFP = true
				sp.hasBV = true
				fmt.Fprintf(&sp.decl, "(declare-const b%s (_ BitVec 64))\n(define-fun %s () (_ FloatingPoint 11 53) ((_ to_fp 11 53) b%s))\n", n, n, n)
			} else {
				if t.sort == SBV {
					sp.hasBV = true
				}
				fmt.Fprintf(&sp.decl, "(declare-const %s %s)\n", n, sp.sortName(t))
			}
		}
		return n
	}
	if d, ok := sp.defs[t.id]; ok {
		return d
	}
	var s string
	switch t.op {
	case OPLt0, OPLe0, OPEq0:
		rel := map[Op]string{OPLt0: "<", OPLe0: "<=", OPEq0: "="}[t.op]
		s = "(" + rel + " " + sp.poly(t.p) + " 0.0)"
	case OExtract:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, sp.term(t.args[0]))
	case OZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, sp.term(t.args[0]))
	case OSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, sp.term(t.args[0]))
	case OFFromSBV:
		s = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", sp.term(t.args[0]))
	case OFToSBV:
		s = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, sp.term(t.args[0]))
	default:
		var parts []string
		for _, a := range t.args {
			parts = append(parts, sp.term(a))
		}
		s = "(" + opNames[t.op] + " " + strings.Join(parts, " ") + ")"
	}
	name := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&sp.body, "(define-fun %s () %s %s)\n", name, sp.sortName(t), s)
	sp.defs[t.id] = name
	return name
}

// buildQuery prints the conjunction of the given terms
func (tc *TermCtx) buildQuery(cs []*Term) (text string, sp *smtPrinter) {
	sp = &smtPrinter{tc: tc, defs: map[int]string{}, vars: map[int]bool{}, atoms: map[int]bool{}}
	for _, c := range cs {
		s := sp.term(c)
		fmt.Fprintf(&sp.body, "(assert %s)\n", s)
	}
	logic := "ALL"
	switch {
	case sp.hasReal && !sp.hasBV && !sp.hasFP && !sp.hasNonlin:
		logic = "QF_LRA"
	case sp.hasReal && !sp.hasBV && !sp.hasFP:
		logic = "QF_NRA"
	case sp.hasBV && !sp.hasReal && !sp.hasFP:
		logic = "QF_BV"
	case sp.hasFP && !sp.hasReal:
		logic = "QF_FPBV"
		if !sp.hasBV {
			logic = "QF_FP"
		}
	}
	if logic == "QF_FPBV" {
		logic = "QF_BVFP"
	}
	var sb strings.Builder
	if logic != "ALL" {
		fmt.Fprintf(&sb, "(set-logic %s)\n", logic)
	}
	// definitions and assertions: declarations first, but atoms' definitional asserts may be emitted inside body
	sb.WriteString(sp.decl.String())
	sb.WriteString(sp.body.String())
	return sb.String(), sp
}

var _ = bits.Len
