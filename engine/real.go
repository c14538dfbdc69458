package main

import (
	"encoding/binary"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Exact real arithmetic: quotients num / (f1^e1 * f2^e2 ...) of multivariate
// polynomials with rational coefficients over "atoms" (symbolic inputs, square
// roots, logarithms, ...). The denominator factors are always known positive.

type Mono string // sequence of (atom uint16, exp uint16), ascending atoms

func monoPairs(m Mono) int           { return len(m) / 4 }
func monoAtom(m Mono, i int) int     { return int(m[4*i])<<8 | int(m[4*i+1]) }
func monoExp(m Mono, i int) int      { return int(m[4*i+2])<<8 | int(m[4*i+3]) }
func mkMono(atom, exp int) Mono {
	var b [4]byte
	binary.BigEndian.PutUint16(b[0:], uint16(atom))
	binary.BigEndian.PutUint16(b[2:], uint16(exp))
	return Mono(b[:])
}

func monoMul(a, b Mono) Mono {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b):
			out = append(out, a[i:]...)
			i = len(a)
		case i >= len(a):
			out = append(out, b[j:]...)
			j = len(b)
		default:
			ka, kb := a[i:i+2], b[j:j+2]
			if ka == kb {
				e := (int(a[i+2])<<8 | int(a[i+3])) + (int(b[j+2])<<8 | int(b[j+3]))
				out = append(out, a[i], a[i+1], byte(e>>8), byte(e))
				i += 4
				j += 4
			} else if ka < kb {
				out = append(out, a[i:i+4]...)
				i += 4
			} else {
				out = append(out, b[j:j+4]...)
				j += 4
			}
		}
	}
	return Mono(out)
}

// monoDiv returns a/b and whether b divides a
func monoDiv(a, b Mono) (Mono, bool) {
	if b == "" {
		return a, true
	}
	out := make([]byte, 0, len(a))
	j := 0
	for i := 0; i < len(a); i += 4 {
		if j < len(b) && a[i:i+2] == b[j:j+2] {
			e := (int(a[i+2])<<8 | int(a[i+3])) - (int(b[j+2])<<8 | int(b[j+3]))
			if e < 0 {
				return "", false
			}
			if e > 0 {
				out = append(out, a[i], a[i+1], byte(e>>8), byte(e))
			}
			j += 4
		} else {
			out = append(out, a[i:i+4]...)
		}
	}
	if j < len(b) {
		return "", false
	}
	return Mono(out), true
}

func monoDeg(m Mono) int {
	d := 0
	for i := 0; i < monoPairs(m); i++ {
		d += monoExp(m, i)
	}
	return d
}

// lexicographic order usable for polynomial division: compares exponents atom by atom (low atom id first, larger exponent = larger monomial)
func monoLexLess(a, b Mono) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i:i+2] == b[j:j+2] {
			ea, eb := a[i+2:i+4], b[j+2:j+4]
			if ea != eb {
				return ea < eb
			}
			i += 4
			j += 4
		} else if a[i:i+2] < b[j:j+2] {
			return false // a contains an earlier atom
		} else {
			return true
		}
	}
	return i >= len(a) && j < len(b)
}

type PTerm struct {
	m Mono
	c *big.Rat
}

// Poly: terms in descending lex order, non-zero coefficients. Immutable.
type Poly struct {
	t   []PTerm
	key string
}

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)
var ratMinusOne = big.NewRat(-1, 1)

func polyConst(c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return polyZero
	}
	return &Poly{t: []PTerm{{"", c}}}
}

var polyZero = &Poly{}
var polyOne = &Poly{t: []PTerm{{"", ratOne}}}

func polyAtom(a int) *Poly { return &Poly{t: []PTerm{{mkMono(a, 1), ratOne}}} }

func (p *Poly) isZero() bool { return len(p.t) == 0 }
func (p *Poly) isConst() bool {
	return len(p.t) == 0 || (len(p.t) == 1 && p.t[0].m == "")
}
func (p *Poly) constVal() *big.Rat {
	if len(p.t) == 0 {
		return ratZero
	}
	return p.t[0].c
}

func (p *Poly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		for _, t := range p.t {
			sb.WriteString(t.c.RatString())
			sb.WriteByte(':')
			sb.WriteString(string(t.m))
			sb.WriteByte('|')
		}
		p.key = sb.String()
		if p.key == "" {
			p.key = "0"
		}
	}
	return p.key
}

func polyFromMap(m map[Mono]*big.Rat) *Poly {
	p := &Poly{t: make([]PTerm, 0, len(m))}
	for k, c := range m {
		if c.Sign() != 0 {
			p.t = append(p.t, PTerm{k, c})
		}
	}
	sort.Slice(p.t, func(i, j int) bool { return monoLexLess(p.t[j].m, p.t[i].m) })
	return p
}

func polyAdd(a, b *Poly) *Poly {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	out := make([]PTerm, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) && j < len(b.t) {
		if a.t[i].m == b.t[j].m {
			c := new(big.Rat).Add(a.t[i].c, b.t[j].c)
			if c.Sign() != 0 {
				out = append(out, PTerm{a.t[i].m, c})
			}
			i++
			j++
		} else if monoLexLess(b.t[j].m, a.t[i].m) {
			out = append(out, a.t[i])
			i++
		} else {
			out = append(out, b.t[j])
			j++
		}
	}
	out = append(out, a.t[i:]...)
	out = append(out, b.t[j:]...)
	return &Poly{t: out}
}

func polyScale(a *Poly, c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return polyZero
	}
	if c.Cmp(ratOne) == 0 {
		return a
	}
	out := make([]PTerm, len(a.t))
	for i, t := range a.t {
		out[i] = PTerm{t.m, new(big.Rat).Mul(t.c, c)}
	}
	return &Poly{t: out}
}

func polyNeg(a *Poly) *Poly    { return polyScale(a, ratMinusOne) }
func polySub(a, b *Poly) *Poly { return polyAdd(a, polyNeg(b)) }

// RealCtx holds the atoms of one path.
type AtomKind int

const (
	AVar  AtomKind = iota // free symbolic input
	ASqrt                 // s >= 0, s*s = def
	ALog                  // log of def (def > 0)
	AExp                  // exp of something, > 0
	AFresh                // internal nondeterminism
)

type Atom struct {
	id     int
	name   string
	kind   AtomKind
	def    *Poly
	defR   *Rl
	nonneg bool
	rootOf *Rl // this atom is the rootQ-th root
	rootQ  int
	cons   []*Term // definitional constraints
}

type RealCtx struct {
	atoms  []*Atom
	sqrts  map[string]int
	logs   map[string]int
	exps   map[string]int
}

func newRealCtx() *RealCtx {
	return &RealCtx{sqrts: map[string]int{}, logs: map[string]int{}, exps: map[string]int{}}
}

func (rc *RealCtx) newAtom(name string, k AtomKind) *Atom {
	a := &Atom{id: len(rc.atoms), name: name, kind: k}
	rc.atoms = append(rc.atoms, a)
	return a
}

// polyMul multiplies and reduces squares of sqrt atoms.
func (rc *RealCtx) polyMul(a, b *Poly) *Poly {
	if a.isZero() || b.isZero() {
		return polyZero
	}
	if a.isConst() {
		return polyScale(b, a.constVal())
	}
	if b.isConst() {
		return polyScale(a, b.constVal())
	}
	if len(a.t)*len(b.t) > maxPolyProduct {
		panic(abortPath{"polynomial too large"})
	}
	acc := make(map[Mono]*big.Rat, len(a.t)*len(b.t))
	needReduce := false
	for _, x := range a.t {
		for _, y := range b.t {
			m := monoMul(x.m, y.m)
			c := new(big.Rat).Mul(x.c, y.c)
			if o, ok := acc[m]; ok {
				o.Add(o, c)
			} else {
				acc[m] = c
				if !needReduce && rc.hasSqrtSquare(m) {
					needReduce = true
				}
			}
		}
	}
	p := polyFromMap(acc)
	if needReduce {
		p = rc.reduce(p)
	}
	return p
}

var maxPolyProduct = 4000000

func (rc *RealCtx) hasSqrtSquare(m Mono) bool {
	for i := 0; i < monoPairs(m); i++ {
		if monoExp(m, i) >= 2 && rc.atoms[monoAtom(m, i)].kind == ASqrt {
			return true
		}
	}
	return false
}

func (rc *RealCtx) reduce(p *Poly) *Poly {
	var plain []PTerm
	extra := polyZero
	for _, t := range p.t {
		if !rc.hasSqrtSquare(t.m) {
			plain = append(plain, t)
			continue
		}
		base := Mono("")
		factor := polyConst(t.c)
		for i := 0; i < monoPairs(t.m); i++ {
			at, e := monoAtom(t.m, i), monoExp(t.m, i)
			if rc.atoms[at].kind == ASqrt && e >= 2 {
				for k := 0; k < e/2; k++ {
					factor = rc.polyMul(factor, rc.atoms[at].def)
				}
				e = e % 2
			}
			if e > 0 {
				base = monoMul(base, mkMono(at, e))
			}
		}
		q := rc.polyMul(&Poly{t: []PTerm{{base, ratOne}}}, factor)
		extra = polyAdd(extra, q)
	}
	return polyAdd(&Poly{t: plain}, extra)
}

// polyDivExact divides a by b if the division is exact
func (rc *RealCtx) polyDivExact(a, b *Poly) (*Poly, bool) {
	if a.isZero() {
		return a, true
	}
	if b.isConst() {
		return polyScale(a, new(big.Rat).Inv(b.constVal())), true
	}
	lead := b.t[0]
	if len(b.t) == 1 {
		out := make([]PTerm, len(a.t))
		for i, t := range a.t {
			m, ok := monoDiv(t.m, lead.m)
			if !ok {
				return nil, false
			}
			out[i] = PTerm{m, new(big.Rat).Quo(t.c, lead.c)}
		}
		return &Poly{t: out}, true
	}
	if len(a.t) < len(b.t) {
		return nil, false
	}
	// quick rejection: the last terms must divide too
	if _, ok := monoDiv(a.t[len(a.t)-1].m, b.t[len(b.t)-1].m); !ok {
		return nil, false
	}
	rem := a
	quo := polyZero
	for steps := 0; !rem.isZero(); steps++ {
		if steps > 400 {
			return nil, false
		}
		m, ok := monoDiv(rem.t[0].m, lead.m)
		if !ok {
			return nil, false
		}
		q := &Poly{t: []PTerm{{m, new(big.Rat).Quo(rem.t[0].c, lead.c)}}}
		quo = polyAdd(quo, q)
		// plain multiplication without sqrt reduction is required for a true division; reject when reduction would happen
		prod := polyZero
		for _, t := range b.t {
			mm := monoMul(t.m, m)
			if rc.hasSqrtSquare(mm) {
				return nil, false
			}
			prod = polyAdd(prod, &Poly{t: []PTerm{{mm, new(big.Rat).Mul(t.c, q.t[0].c)}}})
		}
		rem = polySub(rem, prod)
	}
	return quo, true
}

// content returns c, p' with p = c*p', p' primitive integer polynomial with positive leading coefficient
func polyPrimitive(p *Poly) (*big.Rat, *Poly) {
	if p.isZero() {
		return ratOne, p
	}
	g := new(big.Int)
	l := big.NewInt(1)
	tmp := new(big.Int)
	for _, t := range p.t {
		g.GCD(nil, nil, g, tmp.Abs(t.c.Num()))
		tmp2 := new(big.Int).GCD(nil, nil, l, t.c.Denom())
		l.Mul(l, new(big.Int).Quo(t.c.Denom(), tmp2))
	}
	// content = g / l up to common factors (g = gcd of numerators, l = lcm of denominators)
	c := new(big.Rat).SetFrac(g, l)
	if p.t[0].c.Sign() < 0 {
		c.Neg(c)
	}
	if c.Cmp(ratOne) == 0 {
		return c, p
	}
	return c, polyScale(p, new(big.Rat).Inv(c))
}

type Fac struct {
	p *Poly // primitive, positive on this path
	e int
}

// Rl is a real value. Immutable.
type Rl struct {
	num *Poly
	den []Fac // sorted by key
}

func rlConst(c *big.Rat) *Rl { return &Rl{num: polyConst(c)} }
func rlInt(i int64) *Rl      { return rlConst(big.NewRat(i, 1)) }
func (r *Rl) isConst() bool  { return len(r.den) == 0 && r.num.isConst() }
func (r *Rl) constVal() *big.Rat {
	return r.num.constVal()
}

var rlZero = rlInt(0)
var rlOne = rlInt(1)

func rlNeg(a *Rl) *Rl { return &Rl{num: polyNeg(a.num), den: a.den} }

func mergeLcm(a, b []Fac) (l, ca, cb []Fac) { // lcm, cofactor for a, cofactor for b
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].p.Key() < b[j].p.Key()):
			l = append(l, a[i])
			cb = append(cb, a[i])
			i++
		case i >= len(a) || b[j].p.Key() < a[i].p.Key():
			l = append(l, b[j])
			ca = append(ca, b[j])
			j++
		default:
			f := a[i]
			if b[j].e > f.e {
				ca = append(ca, Fac{f.p, b[j].e - f.e})
				f.e = b[j].e
			} else if b[j].e < f.e {
				cb = append(cb, Fac{f.p, f.e - b[j].e})
			}
			l = append(l, f)
			i++
			j++
		}
	}
	return
}

func mergeMul(a, b []Fac) []Fac {
	var l []Fac
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].p.Key() < b[j].p.Key()):
			l = append(l, a[i])
			i++
		case i >= len(a) || b[j].p.Key() < a[i].p.Key():
			l = append(l, b[j])
			j++
		default:
			l = append(l, Fac{a[i].p, a[i].e + b[j].e})
			i++
			j++
		}
	}
	return l
}

func (rc *RealCtx) facMul(p *Poly, fs []Fac) *Poly {
	for _, f := range fs {
		for k := 0; k < f.e; k++ {
			p = rc.polyMul(p, f.p)
		}
	}
	return p
}

// cancel removes denominator factors that divide the numerator and reduces sqrt squares in the denominator.
func (rc *RealCtx) cancel(num *Poly, den []Fac) *Rl {
	if num.isZero() {
		return rlZero
	}
	if len(den) == 0 {
		return &Rl{num: num}
	}
	var out []Fac
	var redo []Fac
	for _, f := range den {
		e := f.e
		for e > 0 {
			q, ok := rc.polyDivExact(num, f.p)
			if !ok {
				break
			}
			num = q
			e--
		}
		if e == 0 {
			continue
		}
		// sqrt atom squared in the denominator
		if e >= 2 && len(f.p.t) == 1 && monoPairs(f.p.t[0].m) == 1 && rc.atoms[monoAtom(f.p.t[0].m, 0)].kind == ASqrt && monoExp(f.p.t[0].m, 0) == 1 {
			c, pp := polyPrimitive(rc.atoms[monoAtom(f.p.t[0].m, 0)].def)
			if c.Sign() < 0 {
				c = new(big.Rat).Neg(c)
				pp = polyNeg(pp)
			}
			k := e / 2
			for i := 0; i < k; i++ {
				num = polyScale(num, new(big.Rat).Inv(c))
			}
			if !pp.isConst() {
				redo = append(redo, Fac{pp, k})
			}
			e = e % 2
		}
		if e > 0 {
			out = append(out, Fac{f.p, e})
		}
	}
	if len(redo) > 0 {
		sort.Slice(redo, func(i, j int) bool { return redo[i].p.Key() < redo[j].p.Key() })
		return rc.cancel(num, mergeMul(out, redo))
	}
	// rationalise sqrt of a rational constant in the denominator: 1/s = s/def
	for i, f := range out {
		if len(f.p.t) == 1 && monoPairs(f.p.t[0].m) == 1 && f.e == 1 {
			at := rc.atoms[monoAtom(f.p.t[0].m, 0)]
			if at.kind == ASqrt && at.def.isConst() && monoExp(f.p.t[0].m, 0) == 1 {
				num = rc.polyMul(num, f.p)
				num = polyScale(num, new(big.Rat).Inv(at.def.constVal()))
				rest := append(append([]Fac{}, out[:i]...), out[i+1:]...)
				return rc.cancel(num, rest)
			}
		}
	}
	return &Rl{num: num, den: out}
}

func (rc *RealCtx) add(a, b *Rl) *Rl {
	if len(a.den) == 0 && len(b.den) == 0 {
		return &Rl{num: polyAdd(a.num, b.num)}
	}
	if a.num.isZero() {
		return b
	}
	if b.num.isZero() {
		return a
	}
	l, ca, cb := mergeLcm(a.den, b.den)
	n := polyAdd(rc.facMul(a.num, ca), rc.facMul(b.num, cb))
	return rc.cancel(n, l)
}

func (rc *RealCtx) sub(a, b *Rl) *Rl { return rc.add(a, rlNeg(b)) }

func (rc *RealCtx) mul(a, b *Rl) *Rl {
	n := rc.polyMul(a.num, b.num)
	if len(a.den) == 0 && len(b.den) == 0 {
		return &Rl{num: n}
	}
	return rc.cancel(n, mergeMul(a.den, b.den))
}

// divPos divides a by b where the sign of b's numerator is known (sgn = +1 or -1)
func (rc *RealCtx) div(a, b *Rl, sgn int) *Rl {
	if b.isConst() {
		return &Rl{num: polyScale(a.num, new(big.Rat).Inv(b.constVal())), den: a.den}
	}
	num := rc.facMul(a.num, b.den)
	c, pp := polyPrimitive(b.num)
	// pp has a positive leading coefficient; its sign on this path is sgn*sign(c)
	s := sgn * c.Sign()
	if s < 0 {
		pp = polyNeg(pp)
		c = new(big.Rat).Neg(c)
	}
	num = polyScale(num, new(big.Rat).Inv(c))
	// split non-negative atoms from a common monomial
	var facs []Fac
	if cm := commonMono(pp); cm != "" {
		rest := pp
		for i := 0; i < monoPairs(cm); i++ {
			at := monoAtom(cm, i)
			if rc.atoms[at].nonneg {
				e := monoExp(cm, i)
				facs = append(facs, Fac{polyAtom(at), e})
				rest, _ = rc.polyDivExact(rest, &Poly{t: []PTerm{{mkMono(at, e), ratOne}}})
			}
		}
		pp = rest
	}
	if !pp.isConst() {
		facs = append(facs, Fac{pp, 1})
	} else {
		num = polyScale(num, new(big.Rat).Inv(pp.constVal()))
	}
	sort.Slice(facs, func(i, j int) bool { return facs[i].p.Key() < facs[j].p.Key() })
	return rc.cancel(num, mergeMul(a.den, facs))
}

func commonMono(p *Poly) Mono {
	if len(p.t) == 0 {
		return ""
	}
	cm := p.t[0].m
	for _, t := range p.t[1:] {
		out := Mono("")
		for i := 0; i < monoPairs(cm); i++ {
			at, e := monoAtom(cm, i), monoExp(cm, i)
			for j := 0; j < monoPairs(t.m); j++ {
				if monoAtom(t.m, j) == at {
					e2 := monoExp(t.m, j)
					if e2 < e {
						e = e2
					}
					out += mkMono(at, e)
					break
				}
			}
		}
		cm = out
		if cm == "" {
			return ""
		}
	}
	return cm
}

// floatToRat converts a float64 to the rational denoted by its shortest decimal representation
func floatToRat(f float64) *big.Rat {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return big.NewRat(int64(f), 1)
	}
	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64))
	if !ok {
		panic("floatToRat")
	}
	return r
}

// intSqrtPart: n = s^2 * f with f squarefree up to trial division
func sqrtParts(n *big.Int) (s, f *big.Int) {
	s = big.NewInt(1)
	f = new(big.Int).Set(n)
	r := new(big.Int).Sqrt(n)
	if new(big.Int).Mul(r, r).Cmp(n) == 0 {
		return r, big.NewInt(1)
	}
	for d := int64(2); d < 2000; d++ {
		dd := big.NewInt(d * d)
		for {
			q, m := new(big.Int).QuoRem(f, dd, new(big.Int))
			if m.Sign() != 0 {
				break
			}
			f = q
			s.Mul(s, big.NewInt(d))
		}
		if f.Cmp(dd) < 0 {
			break
		}
	}
	r = new(big.Int).Sqrt(f)
	if new(big.Int).Mul(r, r).Cmp(f) == 0 {
		s.Mul(s, r)
		f = big.NewInt(1)
	}
	return
}

// evalPoly evaluates p under an assignment; ok=false if an atom has no value
func evalPoly(p *Poly, val func(int) *big.Rat) (*big.Rat, bool) {
	sum := new(big.Rat)
	for _, t := range p.t {
		x := new(big.Rat).Set(t.c)
		for i := 0; i < monoPairs(t.m); i++ {
			v := val(monoAtom(t.m, i))
			if v == nil {
				return nil, false
			}
			for k := 0; k < monoExp(t.m, i); k++ {
				x.Mul(x, v)
			}
		}
		sum.Add(sum, x)
	}
	return sum, true
}

func evalPolyF(p *Poly, val func(int) float64) float64 {
	sum := 0.0
	for _, t := range p.t {
		x, _ := t.c.Float64()
		for i := 0; i < monoPairs(t.m); i++ {
			x *= math.Pow(val(monoAtom(t.m, i)), float64(monoExp(t.m, i)))
		}
		sum += x
	}
	return sum
}

func evalRlF(r *Rl, val func(int) float64) float64 {
	x := evalPolyF(r.num, val)
	for _, f := range r.den {
		x /= math.Pow(evalPolyF(f.p, val), float64(f.e))
	}
	return x
}
