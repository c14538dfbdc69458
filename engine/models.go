package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type nativeType struct {
	name    string
	methods map[string]Value
}

func (n *nativeType) Underlying() types.Type { return n }
func (n *nativeType) String() string         { return n.name }

type svdEntry struct {
	m, n    int
	a, u    []Value // row major
	s       []Value
	v       []Value // n x k
}

func str(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(abortPath{"symbolic string where a constant is needed"})
	}
	return s
}

func (p *Path) num(v Value) int { return int(p.concInt(v, intKind{64, true})) }

func fl1(f func(float64) float64, sym func(p *Path, v Value) Value) NativeFn {
	return func(p *Path, g *G, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return p.fl(f(x))
		}
		if sym != nil {
			return sym(p, a[0])
		}
		if x, ok := concreteFloat(a[0]); ok {
			return p.fl(f(x))
		}
		panic(abortPath{"math function of a symbolic value"})
	}
}

func (p *Path) fIsNaN(v Value) Value {
	switch x := v.(type) {
	case float64:
		return math.IsNaN(x)
	case *Rl:
		return false
	case *Term:
		return boolVal(p.tc.FIsNaN(x))
	}
	panic(abortPath{"IsNaN"})
}

func (p *Path) fmaxmin(a, b Value, max bool) Value {
	if p.cond(p.fIsNaN(a)) || p.cond(p.fIsNaN(b)) {
		// math.Max(+Inf, NaN) is +Inf
		inf := math.Inf(1)
		if !max {
			inf = math.Inf(-1)
		}
		if x, ok := a.(float64); ok && x == inf {
			return x
		}
		if x, ok := b.(float64); ok && x == inf {
			return x
		}
		return math.NaN()
	}
	var less Value
	if max {
		less = p.fcmp(OFLt, a, b)
	} else {
		less = p.fcmp(OFLt, b, a)
	}
	if p.cond(less) {
		return b
	}
	return a
}

// floor of a real by concretisation
func (p *Path) ffloor(v Value, mode int) Value { // 0 floor 1 ceil 2 trunc
	switch x := v.(type) {
	case float64:
		switch mode {
		case 0:
			return math.Floor(x)
		case 1:
			return math.Ceil(x)
		}
		return math.Trunc(x)
	case *Rl:
		t := p.realToInt(x, intKind{64, true}).(int64)
		r := rlInt(t)
		switch mode {
		case 0:
			if p.cond(p.fcmp(OFLt, x, r)) {
				return rlInt(t - 1)
			}
		case 1:
			if p.cond(p.fcmp(OFLt, r, x)) {
				return rlInt(t + 1)
			}
		}
		return r
	}
	panic(abortPath{"floor of a symbolic float"})
}

func (p *Path) mkError(g *G, msg Value) Value {
	f := p.x.eng.errorsNew
	return p.callFn(g, g.top, f, []Value{msg}, nil)
}

func sl(v Value) slice {
	s, ok := v.(slice)
	if !ok {
		panic(abortPath{fmt.Sprintf("slice expected, got %T", v)})
	}
	return s
}

func (p *Path) raceReadSlice(g *G, s slice) {
	if p.sched != nil && p.sched.race {
		for i := range s {
			p.sched.read(g, &s[i], g.nativeCaller)
		}
	}
}

func (p *Path) setF(g *G, a *Value, v Value) {
	if p.sched != nil && p.sched.race {
		p.sched.write(g, a, g.nativeCaller)
	}
	*a = v
}

func (p *Path) getF(g *G, a *Value) Value {
	if p.sched != nil && p.sched.race {
		p.sched.read(g, a, g.nativeCaller)
	}
	return *a
}

// concrete Go value of an interface argument for formatting; ok=false if symbolic
func (p *Path) goVal(v Value) (interface{}, bool) {
	i, ok := v.(iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	kc, ik := classify(i.t)
	switch kc {
	case kBool:
		b, ok := i.v.(bool)
		return b, ok
	case kInt:
		n, ok := i.v.(int64)
		if !ok {
			return nil, false
		}
		if !ik.signed {
			return uint64(n), true
		}
		return n, true
	case kString:
		s, ok := i.v.(string)
		return s, ok
	case kFloat:
		if r, ok := i.v.(*Rl); ok && r.isConst() {
			f, _ := r.constVal().Float64()
			return f, true
		}
		if f, ok := i.v.(float64); ok {
			return f, true
		}
	}
	return nil, false
}

// errText evaluates err.Error()
func (p *Path) errText(g *G, i iface) (Value, bool) {
	if i.t == nil {
		return "<nil>", true
	}
	ms := types.NewMethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		if fn, ok := ms.At(k).Obj().(*types.Func); ok && (fn.Name() == "Error" || fn.Name() == "String") {
			if fn.Type().(*types.Signature).Params().Len() == 0 {
				f := p.x.eng.prog.MethodValue(ms.At(k))
				if f != nil {
					return p.callFn(g, g.top, f, []Value{i.v}, nil), true
				}
			}
		}
	}
	return nil, false
}

// sprintf with symbolic numbers printed as tokens
func (p *Path) sprintf(g *G, format string, args []Value) Value {
	var out []Value
	add := func(s string) { out = append(out, strBytes(s)...) }
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, int64(format[i]))
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			add("%!(NOVERB)")
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j
		if verb == '%' {
			add("%")
			continue
		}
		if ai >= len(args) {
			add("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if gv, ok := p.goVal(a); ok {
			add(fmt.Sprintf(spec, gv))
			continue
		}
		ia, _ := a.(iface)
		if s, ok := ia.v.(*SymStr); ok && (verb == 's' || verb == 'v') {
			out = append(out, s.b...)
			continue
		}
		if kc, _ := classify(ia.t); kc == kFloat {
			out = append(out, p.numToken(ia.v, verb, spec))
			continue
		}
		if t, ok := p.errText(g, ia); ok {
			out = append(out, strBytes(t)...)
			continue
		}
		add("<" + fmt.Sprint(ia.t) + ">")
	}
	return mkStr(out)
}

// stdout is the file the harness has put into os.Stdout, if any
func (p *Path) stdout() *Value {
	pk := p.x.eng.prog.ImportedPackage("os")
	if pk == nil {
		return nil
	}
	gl := pk.Var("Stdout")
	if v, ok := p.globals[gl]; ok {
		h, _ := (*v).(*Value)
		return h
	}
	return nil
}

func (p *Path) stdoutT() types.Type {
	return p.x.eng.prog.ImportedPackage("os").Var("Stdout").Type().Underlying().(*types.Pointer).Elem()
}

// numToken is the text of a symbolic number printed with the given verb
func (p *Path) numToken(v Value, verb byte, spec string) Value {
	if p.fp {
		panic(abortPath{"formatting a symbolic float"})
	}
	x := v.(*Rl)
	prec := -1
	if k := strings.IndexByte(spec, '.'); k >= 0 {
		prec, _ = strconv.Atoi(spec[k+1 : len(spec)-1])
	}
	if prec < 0 {
		if verb != 'f' && verb != 'F' && verb != 'e' && verb != 'E' {
			return &NumTok{v: x, txt: -1} // shortest exact text
		}
		prec = 6
	}
	if verb != 'f' && verb != 'F' && verb != 'e' && verb != 'E' {
		panic(abortPath{"number format " + spec})
	}
	r := p.freshReal()
	half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil)))
	if verb == 'e' || verb == 'E' { // the error is relative to the number
		d := p.rc.mul(x, rlConst(half))
		p.assume(p.tc.Or(
			p.tc.And(p.realRel(OFLe, rlConst(new(big.Rat)), x), p.realRel(OFLe, p.rc.sub(r, x), d), p.realRel(OFLe, p.rc.sub(x, r), d)),
			p.tc.And(p.realRel(OFLe, x, rlConst(new(big.Rat))), p.realRel(OFLe, d, p.rc.sub(r, x)), p.realRel(OFLe, d, p.rc.sub(x, r)))))
	} else {
		p.assume(p.realRel(OFLe, p.rc.sub(r, x), rlConst(half)))
		p.assume(p.realRel(OFLe, p.rc.sub(x, r), rlConst(half)))
	}
	if at := r.num; p.model != nil {
		// keep the model consistent: the printed value can be the value itself
		f := evalRlF(x, func(a int) float64 { return p.modelF(a) })
		id := monoAtom(at.t[0].m, 0)
		if ex, ok := p.evalRlExact(x); ok {
			p.setReal(id, ex)
		} else {
			p.model = nil
			_ = f
		}
	}
	return &NumTok{v: r, txt: -1}
}

func (p *Path) evalRlExact(x *Rl) (*big.Rat, bool) {
	if p.model == nil {
		return nil, false
	}
	get := func(i int) *big.Rat { return p.model.real[i] }
	n, ok := evalPoly(x.num, get)
	if !ok {
		return nil, false
	}
	for _, f := range x.den {
		d, ok := evalPoly(f.p, get)
		if !ok || d.Sign() == 0 {
			return nil, false
		}
		for i := 0; i < f.e; i++ {
			n = new(big.Rat).Quo(n, d)
		}
	}
	return n, true
}

// assume adds a fact without checking feasibility
func (p *Path) assume(t *Term) { p.addPC(t) }

func (p *Path) parseFloat(g *G, v Value) Value {
	fail := func(msg string) Value {
		return tuple{p.zeroF(), p.mkError(g, msg)}
	}
	switch s := v.(type) {
	case string:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return tuple{p.fl(f), p.mkError(g, err.Error())}
		}
		return tuple{p.fl(f), iface{}}
	case *SymStr:
		if len(s.b) == 1 {
			if t, ok := s.b[0].(*NumTok); ok {
				return tuple{t.v, iface{}}
			}
		}
		for _, b := range s.b {
			switch b.(type) {
			case *NumTok:
			case int64:
			default:
				panic(abortPath{"ParseFloat of symbolic bytes"})
			}
		}
		// a sign directly before a number text
		if len(s.b) == 2 {
			if t, ok := s.b[1].(*NumTok); ok {
				if c, ok := s.b[0].(int64); ok && (c == '-' || c == '+') {
					panic(abortPath{"ParseFloat of a signed token"})
				}
				_ = t
			}
		}
		return fail("strconv.ParseFloat: invalid syntax")
	}
	panic(abortPath{"ParseFloat"})
}

// toFloat32 rounds concrete values to single precision; symbolic reals are not rounded (as everywhere)
func (p *Path) toFloat32(v Value) Value {
	if f, ok := concreteFloat(v); ok {
		return p.fl(float64(float32(f)))
	}
	if p.fp {
		panic(abortPath{"single precision"})
	}
	return v
}

func (p *Path) zeroF() Value {
	if p.fp {
		return float64(0)
	}
	return rlZero
}

// random inputs
func (p *Path) randInt(n int64) Value {
	if n <= 0 {
		panic(targetPanic{iface{t: types.Typ[types.String], v: "invalid argument to Intn"}})
	}
	if n == 1 {
		p.inputs = append(p.inputs, &Input{kind: "rint", ival: 0})
		return int64(0)
	}
	t := p.newBV("rint", 64, 0, n-1)
	return p.concInt(t, intKind{64, true})
}

func (p *Path) newBV(kind string, w int, lo, hi int64) *Term {
	t := p.tc.newVar(fmt.Sprintf("in%d", len(p.inputs)), SBV, w)
	p.inputs = append(p.inputs, &Input{kind: kind, t: t})
	if lo != math.MinInt64 {
		p.addPC(p.tc.Cmp(OSle, p.tc.bvC(uint64(lo), w), t))
	}
	if hi != math.MaxInt64 {
		p.addPC(p.tc.Cmp(OSle, t, p.tc.bvC(uint64(hi), w)))
	}
	d := lo
	if lo == math.MinInt64 {
		d = 0
	}
	p.setBV(int(t.val), uint64(d)&mask(w))
	return t
}

func (p *Path) randFloat() Value {
	if p.fp {
		panic(abortPath{"rand.Float64 in fp mode"})
	}
	r := p.newReal("rfloat", 0, 1)
	p.addPC(p.realRel(OFLt, r, rlOne))
	return r
}

func (p *Path) shuffle(g *G, n int, swap Value) {
	caller := g.top
	for i := n - 1; i > 0; i-- {
		j := p.randInt(int64(i + 1))
		p.callValue(g, caller, swap, []Value{int64(i), j})
	}
}

// ---------- linear algebra ----------

type nat = map[string]NativeFn

func blasNatives(m nat) {
	const B = "(gonum.org/v1/gonum/blas/gonum.Implementation)."
	tr := func(p *Path, v Value) bool { return p.num(v) != 'N' } // 111..: 'N'
	m[B+"Dgemm"] = func(p *Path, g *G, a []Value) Value {
		ta, tb := tr(p, a[1]), tr(p, a[2])
		M, N, K := p.num(a[3]), p.num(a[4]), p.num(a[5])
		alpha, A, lda, Bm, ldb, beta, C, ldc := a[6], sl(a[7]), p.num(a[8]), sl(a[9]), p.num(a[10]), a[11], sl(a[12]), p.num(a[13])
		for i := 0; i < M; i++ {
			for j := 0; j < N; j++ {
				var sum Value = p.zeroF()
				for k := 0; k < K; k++ {
					ia, ib := i*lda+k, k*ldb+j
					if ta {
						ia = k*lda + i
					}
					if tb {
						ib = j*ldb + k
					}
					sum = p.fadd(sum, p.fmul(p.getF(g, &A[ia]), p.getF(g, &Bm[ib])))
				}
				sum = p.fmul(alpha, sum)
				if f, ok := concreteFloat(beta); !ok || f != 0 {
					sum = p.fadd(sum, p.fmul(beta, p.getF(g, &C[i*ldc+j])))
				}
				p.setF(g, &C[i*ldc+j], sum)
			}
		}
		return nil
	}
	m[B+"Dgemv"] = func(p *Path, g *G, a []Value) Value {
		ta := tr(p, a[1])
		M, N := p.num(a[2]), p.num(a[3])
		alpha, A, lda, X, incX, beta, Y, incY := a[4], sl(a[5]), p.num(a[6]), sl(a[7]), p.num(a[8]), a[9], sl(a[10]), p.num(a[11])
		r, c := M, N
		if ta {
			r, c = N, M
		}
		ix := func(i, n, inc int) int {
			if inc < 0 {
				return (i - (n - 1)) * inc
			}
			return i * inc
		}
		out := make([]Value, r)
		for i := 0; i < r; i++ {
			var sum Value = p.zeroF()
			for k := 0; k < c; k++ {
				ia := i*lda + k
				if ta {
					ia = k*lda + i
				}
				sum = p.fadd(sum, p.fmul(p.getF(g, &A[ia]), p.getF(g, &X[ix(k, c, incX)])))
			}
			sum = p.fmul(alpha, sum)
			if f, ok := concreteFloat(beta); !ok || f != 0 {
				sum = p.fadd(sum, p.fmul(beta, p.getF(g, &Y[ix(i, r, incY)])))
			}
			out[i] = sum
		}
		for i := range out {
			p.setF(g, &Y[ix(i, r, incY)], out[i])
		}
		return nil
	}
	m[B+"Ddot"] = func(p *Path, g *G, a []Value) Value {
		n, X, ix, Y, iy := p.num(a[1]), sl(a[2]), p.num(a[3]), sl(a[4]), p.num(a[5])
		var sum Value = p.zeroF()
		for i := 0; i < n; i++ {
			sum = p.fadd(sum, p.fmul(p.getF(g, &X[i*ix]), p.getF(g, &Y[i*iy])))
		}
		return sum
	}
	m[B+"Dnrm2"] = func(p *Path, g *G, a []Value) Value {
		n, X, inc := p.num(a[1]), sl(a[2]), p.num(a[3])
		var sum Value = p.zeroF()
		for i := 0; i < n; i++ {
			x := p.getF(g, &X[i*inc])
			sum = p.fadd(sum, p.fmul(x, x))
		}
		return p.fsqrt(sum)
	}
	m["gonum.org/v1/gonum/internal/asm/f64.L2NormUnitary"] = func(p *Path, g *G, a []Value) Value {
		var sum Value = p.zeroF()
		X := sl(a[0])
		for i := range X {
			x := p.getF(g, &X[i])
			sum = p.fadd(sum, p.fmul(x, x))
		}
		return p.fsqrt(sum)
	}
	const L = "(gonum.org/v1/gonum/lapack/gonum.Implementation)."
	m[L+"Dlange"] = func(p *Path, g *G, a []Value) Value {
		norm, M, N, A, lda := p.num(a[1]), p.num(a[2]), p.num(a[3]), sl(a[4]), p.num(a[5])
		if M == 0 || N == 0 {
			return p.zeroF()
		}
		switch byte(norm) {
		case 'F', 'E':
			var sum Value = p.zeroF()
			for i := 0; i < M; i++ {
				for j := 0; j < N; j++ {
					x := p.getF(g, &A[i*lda+j])
					sum = p.fadd(sum, p.fmul(x, x))
				}
			}
			return p.fsqrt(sum)
		case 'M':
			var mx Value = p.zeroF()
			for i := 0; i < M; i++ {
				for j := 0; j < N; j++ {
					mx = p.fmaxmin(mx, p.fabs(p.getF(g, &A[i*lda+j])), true)
				}
			}
			return mx
		case 'O', 'I', '1':
			byCol := norm != 'I'
			o, in := M, N
			if byCol {
				o, in = N, M
			}
			var mx Value = p.zeroF()
			for i := 0; i < o; i++ {
				var s Value = p.zeroF()
				for j := 0; j < in; j++ {
					k := i*lda + j
					if byCol {
						k = j*lda + i
					}
					s = p.fadd(s, p.fabs(p.getF(g, &A[k])))
				}
				mx = p.fmaxmin(mx, s, true)
			}
			return mx
		}
		panic(abortPath{"Dlange norm"})
	}
	m[L+"Dgesvd"] = func(p *Path, g *G, a []Value) Value {
		jobU, jobVT, M, N, A, lda, S, U, ldu, VT, ldvt, work, lwork := p.num(a[1]), p.num(a[2]), p.num(a[3]), p.num(a[4]), sl(a[5]), p.num(a[6]), sl(a[7]), sl(a[8]), p.num(a[9]), sl(a[10]), p.num(a[11]), sl(a[12]), p.num(a[13])
		if lwork == -1 {
			work[0] = p.fl(8)
			return true
		}
		if (jobU != 'S' && jobU != 'N') || (jobVT != 'S' && jobVT != 'N') {
			panic(abortPath{"full SVD"})
		}
		mat := make([]Value, M*N)
		for i := 0; i < M; i++ {
			for j := 0; j < N; j++ {
				mat[i*N+j] = A[i*lda+j]
			}
		}
		e := p.exactSVD(mat, M, N)
		k := len(e.s)
		for i := 0; i < k; i++ {
			S[i] = e.s[i]
		}
		if jobU == 'S' {
			for i := 0; i < M; i++ {
				for j := 0; j < k; j++ {
					U[i*ldu+j] = e.u[i*k+j]
				}
			}
		}
		if jobVT == 'S' {
			for i := 0; i < N; i++ {
				for j := 0; j < k; j++ {
					VT[j*ldvt+i] = e.v[i*k+j]
				}
			}
		}
		return true
	}
}

func (p *Path) valEq(a, b Value) bool {
	x, ok := a.(*Rl)
	y, ok2 := b.(*Rl)
	if ok && ok2 {
		return p.rc.sub(x, y).num.isZero()
	}
	return false
}

// exactSVD gives a thin singular value decomposition for matrices where an exact one is known
func (p *Path) exactSVD(A []Value, m, n int) *svdEntry {
	if p.fp {
		panic(abortPath{"SVD in fp mode"})
	}
	for _, e := range p.svds {
		if e.m == m && e.n == n {
			same := true
			for i := range A {
				if !p.valEq(A[i], e.a[i]) {
					same = false
					break
				}
			}
			if same {
				return e
			}
		}
	}
	for _, x := range A {
		if _, ok := x.(*Rl); !ok {
			panic(abortPath{"SVD of a matrix with NaN or Inf"})
		}
	}
	if m < n {
		t := make([]Value, len(A))
		for i := 0; i < m; i++ {
			for j := 0; j < n; j++ {
				t[j*m+i] = A[i*n+j]
			}
		}
		e := p.exactSVD(t, n, m)
		return &svdEntry{m: m, n: n, a: A, s: e.s, u: e.v, v: e.u}
	}
	// Gram matrix
	G := make([]*Rl, n*n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			s := rlZero
			for r := 0; r < m; r++ {
				s = p.rc.add(s, p.rc.mul(A[r*n+i].(*Rl), A[r*n+j].(*Rl)))
			}
			G[i*n+j] = s
		}
	}
	diag, equi := true, true
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				if !G[i*n+j].num.isZero() {
					diag = false
				}
				if !p.valEq(G[i*n+j], G[1]) {
					equi = false
				}
			} else if !p.valEq(G[i*n+i], G[0]) {
				equi = false
			}
		}
	}
	V := make([]*Rl, n*n) // columns are eigenvectors
	lam := make([]*Rl, n)
	for i := range V {
		V[i] = rlZero
	}
	switch {
	case diag:
		for i := 0; i < n; i++ {
			V[i*n+i] = rlOne
			lam[i] = G[i*n+i]
		}
	case equi:
		// Helmert basis
		for j := 0; j < n; j++ {
			if j == 0 {
				nr := p.sqrtPoly(polyConst(big.NewRat(int64(n), 1)))
				for i := 0; i < n; i++ {
					V[i*n] = p.rc.div(rlOne, nr, 1)
				}
				lam[0] = p.rc.add(G[0], p.rc.mul(rlInt(int64(n-1)), G[1]))
				continue
			}
			nr := p.sqrtPoly(polyConst(big.NewRat(int64(j*(j+1)), 1)))
			for i := 0; i < j; i++ {
				V[i*n+j] = p.rc.div(rlOne, nr, 1)
			}
			V[j*n+j] = p.rc.div(rlInt(int64(-j)), nr, 1)
			lam[j] = p.rc.sub(G[0], G[1])
		}
	default:
		panic(abortPath{"no exact SVD"})
	}
	// order by decreasing eigenvalue
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && p.cond(p.fcmp(OFLt, lam[idx[j-1]], lam[idx[j]])); j-- {
			idx[j-1], idx[j] = idx[j], idx[j-1]
		}
	}
	e := &svdEntry{m: m, n: n, a: A, s: make([]Value, n), u: make([]Value, m*n), v: make([]Value, n*n)}
	for c, k := range idx {
		sv := p.fsqrt(lam[k]).(*Rl)
		e.s[c] = sv
		for i := 0; i < n; i++ {
			e.v[i*n+c] = V[i*n+k]
		}
		zero := p.signDecide(sv.num) == 0
		for r := 0; r < m; r++ {
			if zero {
				e.u[r*n+c] = rlZero // arbitrary: multiplied by a zero singular value
				continue
			}
			s := rlZero
			for i := 0; i < n; i++ {
				s = p.rc.add(s, p.rc.mul(A[r*n+i].(*Rl), V[i*n+k]))
			}
			e.u[r*n+c] = p.rc.div(s, sv, 1)
		}
	}
	p.svds = append(p.svds, e)
	return e
}

// ---------- table ----------

func builtinNatives() nat {
	m := nat{}
	blasNatives(m)
	m["encoding/binary.Size"] = func(p *Path, g *G, a []Value) Value { return int64(8) }
	m["math.Sqrt"] = func(p *Path, g *G, a []Value) Value { return p.fsqrt(a[0]) }
	m["math.sqrt"] = m["math.Sqrt"]
	m["math.Abs"] = func(p *Path, g *G, a []Value) Value { return p.fabs(a[0]) }
	m["math.Log"] = fl1(math.Log, func(p *Path, v Value) Value { return p.flog(v) })
	m["math.Log10"] = fl1(math.Log10, func(p *Path, v Value) Value {
		if f, ok := concreteFloat(v); ok {
			return p.fl(math.Log10(f))
		}
		return p.fdiv(p.flog(v), p.fl(math.Ln10))
	})
	m["math.Log2"] = fl1(math.Log2, func(p *Path, v Value) Value {
		if f, ok := concreteFloat(v); ok {
			return p.fl(math.Log2(f))
		}
		return p.fdiv(p.flog(v), p.fl(math.Ln2))
	})
	m["math.Log1p"] = fl1(math.Log1p, func(p *Path, v Value) Value {
		if f, ok := concreteFloat(v); ok {
			return p.fl(math.Log1p(f))
		}
		return p.flog(p.fadd(p.fl(1), v))
	})
	m["math.Exp"] = fl1(math.Exp, func(p *Path, v Value) Value { return p.fexp(v) })
	m["math.Exp2"] = fl1(math.Exp2, nil)
	m["math.Pow"] = func(p *Path, g *G, a []Value) Value { return p.fpow(a[0], a[1]) }
	m["math.Max"] = func(p *Path, g *G, a []Value) Value { return p.fmaxmin(a[0], a[1], true) }
	m["math.Min"] = func(p *Path, g *G, a []Value) Value { return p.fmaxmin(a[0], a[1], false) }
	m["math.Floor"] = func(p *Path, g *G, a []Value) Value { return p.ffloor(a[0], 0) }
	m["math.Ceil"] = func(p *Path, g *G, a []Value) Value { return p.ffloor(a[0], 1) }
	m["math.Trunc"] = func(p *Path, g *G, a []Value) Value { return p.ffloor(a[0], 2) }
	m["math.Round"] = func(p *Path, g *G, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Round(x)
		}
		if p.cond(p.fcmp(OFLt, a[0], p.zeroF())) {
			return p.ffloor(p.fsub(a[0], p.fl(0.5)), 1)
		}
		return p.ffloor(p.fadd(a[0], p.fl(0.5)), 0)
	}
	m["math.IsNaN"] = func(p *Path, g *G, a []Value) Value { return p.fIsNaN(a[0]) }
	m["math.IsInf"] = func(p *Path, g *G, a []Value) Value {
		s := p.num(a[1])
		switch x := a[0].(type) {
		case float64:
			return math.IsInf(x, s)
		case *Rl:
			return false
		case *Term:
			var ts []*Term
			if s >= 0 {
				ts = append(ts, p.tc.FCmp(OFEq, x, p.tc.fpC(math.Inf(1))))
			}
			if s <= 0 {
				ts = append(ts, p.tc.FCmp(OFEq, x, p.tc.fpC(math.Inf(-1))))
			}
			return boolVal(p.tc.Or(ts...))
		}
		panic(abortPath{"IsInf"})
	}
	m["math.Inf"] = func(p *Path, g *G, a []Value) Value { return math.Inf(p.num(a[0])) }
	m["math.NaN"] = func(p *Path, g *G, a []Value) Value { return math.NaN() }
	m["math.Hypot"] = func(p *Path, g *G, a []Value) Value {
		return p.fsqrt(p.fadd(p.fmul(a[0], a[0]), p.fmul(a[1], a[1])))
	}
	m["math.Signbit"] = func(p *Path, g *G, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Signbit(x)
		}
		if p.fp {
			panic(abortPath{"Signbit"})
		}
		return p.fcmp(OFLt, a[0], rlZero)
	}
	m["math.Copysign"] = func(p *Path, g *G, a []Value) Value {
		if p.fp {
			panic(abortPath{"Copysign"})
		}
		x := p.fabs(a[0])
		if p.cond(p.fcmp(OFLt, a[1], rlZero)) {
			return p.fneg(x)
		}
		return x
	}
	m["math.Float64bits"] = func(p *Path, g *G, a []Value) Value {
		if f, ok := concreteFloat(a[0]); ok {
			return int64(math.Float64bits(f))
		}
		panic(abortPath{"Float64bits"})
	}
	m["math.Float64frombits"] = func(p *Path, g *G, a []Value) Value {
		return p.fl(math.Float64frombits(uint64(p.num(a[0]))))
	}
	for _, f := range []struct {
		n string
		f func(float64) float64
	}{{"Sin", math.Sin}, {"Cos", math.Cos}, {"Tan", math.Tan}, {"Cbrt", math.Cbrt}, {"Tanh", math.Tanh}, {"Atan", math.Atan}} {
		m["math."+f.n] = fl1(f.f, nil)
	}
	m["math/bits.Len64"] = func(p *Path, g *G, a []Value) Value { return int64(bits.Len64(uint64(p.num(a[0])))) }
	m["math/bits.Len"] = m["math/bits.Len64"]
	m["math/bits.LeadingZeros64"] = func(p *Path, g *G, a []Value) Value {
		return int64(bits.LeadingZeros64(uint64(p.num(a[0]))))
	}

	// output
	// (text goes nowhere unless the harness has put a file into os.Stdout)
	for i, n := range []string{"fmt.Printf", "fmt.Print", "fmt.Println"} {
		fw := []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln"}[i]
		m[n] = func(p *Path, g *G, a []Value) Value {
			h := p.stdout()
			if h == nil || p.handles[h] == nil {
				return tuple{int64(0), iface{}}
			}
			return m[fw](p, g, append([]Value{iface{p.stdoutT(), h}}, a...))
		}
	}
	m["fmt.Sprintf"] = func(p *Path, g *G, a []Value) Value { return p.sprintf(g, str(a[0]), sl(a[1])) }
	m["fmt.Errorf"] = func(p *Path, g *G, a []Value) Value {
		return p.mkError(g, p.sprintf(g, str(a[0]), sl(a[1])))
	}
	sprint := func(sep string) NativeFn {
		return func(p *Path, g *G, a []Value) Value {
			var out []Value
			for i, x := range sl(a[0]) {
				if i > 0 {
					out = append(out, strBytes(sep)...)
				}
				out = append(out, strBytes(p.sprintf(g, "%v", []Value{x}))...)
			}
			if sep != "" {
				out = append(out, int64('\n'))
			}
			return mkStr(out)
		}
	}
	m["fmt.Sprint"] = sprint("")
	m["fmt.Sprintln"] = sprint(" ")
	fprint := func(kind int) NativeFn {
		return func(p *Path, g *G, a []Value) Value {
			var s Value
			switch kind {
			case 0:
				s = p.sprintf(g, str(a[1]), sl(a[2]))
			case 1:
				s = sprint("")(p, g, a[1:])
			default:
				s = sprint(" ")(p, g, a[1:])
			}
			w := a[0].(iface)
			if w.t == nil {
				p.throw("invalid memory address or nil pointer dereference")
			}
			if w.t.String() == "*os.File" {
				if h, ok := w.v.(*Value); !ok || p.handles[h] == nil {
					return tuple{int64(strLen(s)), iface{}}
				}
			}
			f := p.x.eng.methodByName(w.t, "Write")
			return p.callFn(g, g.top, f, []Value{w.v, slice(append([]Value{}, strBytes(s)...))}, nil)
		}
	}
	m["fmt.Fprintf"] = fprint(0)
	m["fmt.Fprint"] = fprint(1)
	m["fmt.Fprintln"] = fprint(2)
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		m[n] = func(p *Path, g *G, a []Value) Value { return nil }
	}

	// numbers and text
	m["strconv.ParseFloat"] = func(p *Path, g *G, a []Value) Value { 
		r := p.parseFloat(g, a[0]).(tuple)
		if p.num(a[1]) == 32 {
			r[0] = p.toFloat32(r[0])
		}
		return r
	}
	m["strconv.FormatFloat"] = func(p *Path, g *G, a []Value) Value {
		verb, prec := byte(p.num(a[1])), p.num(a[2])
		if f, ok := concreteFloat(a[0]); ok {
			return strconv.FormatFloat(f, verb, prec, p.num(a[3]))
		}
		spec := "%" + string(verb)
		if prec >= 0 {
			spec = fmt.Sprintf("%%.%d%c", prec, verb)
		} else {
			spec, verb = "%v", 'v'
		}
		return mkStr([]Value{p.numToken(a[0], verb, spec)})
	}
	m["strconv.Itoa"] = func(p *Path, g *G, a []Value) Value { return strconv.Itoa(p.num(a[0])) }
	m["strconv.FormatInt"] = func(p *Path, g *G, a []Value) Value {
		return strconv.FormatInt(int64(p.num(a[0])), p.num(a[1]))
	}
	m["strconv.Atoi"] = func(p *Path, g *G, a []Value) Value {
		n, err := strconv.Atoi(str(a[0]))
		if err != nil {
			return tuple{int64(n), p.mkError(g, err.Error())}
		}
		return tuple{int64(n), iface{}}
	}
	m["strconv.Quote"] = func(p *Path, g *G, a []Value) Value { return strconv.Quote(str(a[0])) }
	m["internal/bytealg.MakeNoZero"] = func(p *Path, g *G, a []Value) Value {
		s := make(slice, p.num(a[0]))
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	indexByte := func(p *Path, bs []Value, c Value) Value {
		for i, b := range bs {
			if p.cond(p.equalByte(b, c)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	m["internal/bytealg.IndexByte"] = func(p *Path, g *G, a []Value) Value { return indexByte(p, sl(a[0]), a[1]) }
	m["internal/bytealg.IndexByteString"] = func(p *Path, g *G, a []Value) Value { return indexByte(p, strBytes(a[0]), a[1]) }
	m["internal/bytealg.LastIndexByteString"] = func(p *Path, g *G, a []Value) Value {
		bs := strBytes(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if p.cond(p.equalByte(bs[i], a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	count := func(p *Path, bs []Value, c Value) Value {
		n := int64(0)
		for _, b := range bs {
			if p.cond(p.equalByte(b, c)) {
				n++
			}
		}
		return n
	}
	m["internal/bytealg.Count"] = func(p *Path, g *G, a []Value) Value { return count(p, sl(a[0]), a[1]) }
	m["internal/bytealg.CountString"] = func(p *Path, g *G, a []Value) Value { return count(p, strBytes(a[0]), a[1]) }
	m["internal/bytealg.Equal"] = func(p *Path, g *G, a []Value) Value { return boolVal(p.bytesEq(sl(a[0]), sl(a[1]))) }
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	m["strings.Index"] = func(p *Path, g *G, a []Value) Value {
		s, sub := strBytes(a[0]), strBytes(a[1])
		for i := 0; i+len(sub) <= len(s); i++ {
			if p.cond(boolVal(p.bytesEq(s[i:i+len(sub)], sub))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	m["(*strings.Builder).String"] = func(p *Path, g *G, a []Value) Value {
		b := (*p.deref(a[0])).(structure)
		return mkStr(sl(b[1]))
	}
	m["(*strings.Builder).copyCheck"] = func(p *Path, g *G, a []Value) Value { return nil }
	m["unsafe.String"] = func(p *Path, g *G, a []Value) Value { panic(abortPath{"unsafe.String"}) }
	m["strings.Clone"] = func(p *Path, g *G, a []Value) Value { return a[0] }

	// sorting
	m["internal/reflectlite.ValueOf"] = func(p *Path, g *G, a []Value) Value { return structure{a[0], nil, int64(0)} }
	m["(internal/reflectlite.Value).Len"] = func(p *Path, g *G, a []Value) Value {
		return int64(len(sl(a[0].(structure)[0].(iface).v)))
	}
	m["internal/reflectlite.Swapper"] = func(p *Path, g *G, a []Value) Value {
		s := sl(a[0].(iface).v)
		return NativeFn(func(p *Path, g *G, b []Value) Value {
			i, j := p.num(b[0]), p.num(b[1])
			x, y := copyVal(p.getF(g, &s[i])), copyVal(p.getF(g, &s[j]))
			if p.sched != nil && p.sched.race {
				p.sched.write(g, &s[i], g.nativeCaller)
				p.sched.write(g, &s[j], g.nativeCaller)
			}
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			return nil
		})
	}

	// random numbers
	for _, pre := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		off := 0
		if pre[0] == '(' {
			off = 1
		}
		ri := func(p *Path, g *G, a []Value) Value { return p.randInt(p.concInt(a[off], intKind{64, true})) }
		for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "Int32N"} {
			m[pre+n] = ri
		}
		m[pre+"Float64"] = func(p *Path, g *G, a []Value) Value { return p.randFloat() }
		m[pre+"Shuffle"] = func(p *Path, g *G, a []Value) Value {
			p.shuffle(g, p.num(a[off]), a[off+1])
			return nil
		}
		m[pre+"Perm"] = func(p *Path, g *G, a []Value) Value {
			n := p.num(a[off])
			s := make(slice, n)
			for i := range s {
				s[i] = int64(i)
			}
			for i := n - 1; i > 0; i-- {
				j := p.randInt(int64(i + 1)).(int64)
				s[i], s[j] = s[j], s[i]
			}
			return s
		}
		m[pre+"Seed"] = func(p *Path, g *G, a []Value) Value { return nil }
		m[pre+"NormFloat64"] = func(p *Path, g *G, a []Value) Value { return p.newReal("rnorm", -8, 8) }
	}
	m["math/rand.NewSource"] = func(p *Path, g *G, a []Value) Value { return iface{} }
	m["math/rand.New"] = func(p *Path, g *G, a []Value) Value { var v Value = structure{}; return &v }

	// synchronisation
	lk := func(p *Path, g *G, a []Value) Value { p.mutexLock(g, p.deref(a[0])); return nil }
	ul := func(p *Path, g *G, a []Value) Value { p.mutexUnlock(g, p.deref(a[0])); return nil }
	m["(*sync.Mutex).Lock"], m["(*sync.Mutex).Unlock"] = lk, ul
	m["(*sync.RWMutex).Lock"], m["(*sync.RWMutex).Unlock"] = lk, ul
	m["(*sync.RWMutex).RLock"] = func(p *Path, g *G, a []Value) Value { p.rLock(g, p.deref(a[0])); return nil }
	m["(*sync.RWMutex).RUnlock"] = func(p *Path, g *G, a []Value) Value { p.rUnlock(g, p.deref(a[0])); return nil }
	m["(*sync.Mutex).TryLock"] = func(p *Path, g *G, a []Value) Value { panic(abortPath{"TryLock"}) }
	m["(*sync.WaitGroup).Add"] = func(p *Path, g *G, a []Value) Value { p.wgAdd(g, p.deref(a[0]), int64(p.num(a[1]))); return nil }
	m["(*sync.WaitGroup).Done"] = func(p *Path, g *G, a []Value) Value { p.wgAdd(g, p.deref(a[0]), -1); return nil }
	m["(*sync.WaitGroup).Wait"] = func(p *Path, g *G, a []Value) Value {
		if p.sched != nil {
			p.visible(g, &pendingOp{kind: opWait, addr: p.deref(a[0])})
		}
		return nil
	}
	m["(*sync.WaitGroup).Go"] = func(p *Path, g *G, a []Value) Value {
		w := p.deref(a[0])
		p.wgAdd(g, w, 1)
		f := a[1]
		p.spawn(g, NativeFn(func(p *Path, g *G, _ []Value) Value {
			p.callValue(g, nil, f, nil)
			p.wgAdd(g, w, -1)
			return nil
		}), nil)
		return nil
	}
	m["(*sync.Once).Do"] = func(p *Path, g *G, a []Value) Value {
		w := p.deref(a[0])
		if p.sched == nil {
			c := g.top
			p.callValue(g, c, a[1], nil)
			return nil
		}
		p.mutexLock(g, w)
		l := p.sched.lock(w)
		if !l.done {
			l.done = true
			p.callValue(g, g.top, a[1], nil)
		}
		p.mutexUnlock(g, w)
		return nil
	}
	m["(*sync.Pool).Get"] = func(p *Path, g *G, a []Value) Value {
		s := (*p.deref(a[0])).(structure)
		nf := s[len(s)-1]
		if f, ok := nf.(*ssa.Function); ok && f == nil {
			return iface{}
		}
		return p.callValue(g, g.top, nf, nil)
	}
	m["(*sync.Pool).Put"] = func(p *Path, g *G, a []Value) Value { return nil }
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		k := intKind{64, true}
		switch ty {
		case "Int32":
			k = intKind{32, true}
		case "Uint32":
			k = intKind{32, false}
		case "Uint64":
			k = intKind{64, false}
		}
		add := func(p *Path, g *G, c *Value, d Value) Value {
			p.atomicOp(g, c)
			*c = p.intBin(12 /*token.ADD*/, *c, d, k, k)
			return *c
		}
		cell := func(p *Path, v Value) *Value { // value field of atomic.T
			s := (*p.deref(v)).(structure)
			return &s[len(s)-1]
		}
		m["sync/atomic.Add"+ty] = func(p *Path, g *G, a []Value) Value { return add(p, g, p.deref(a[0]), a[1]) }
		m["sync/atomic.Load"+ty] = func(p *Path, g *G, a []Value) Value { p.atomicOp(g, p.deref(a[0])); return *p.deref(a[0]) }
		m["sync/atomic.Store"+ty] = func(p *Path, g *G, a []Value) Value {
			p.atomicOp(g, p.deref(a[0]))
			*p.deref(a[0]) = a[1]
			return nil
		}
		T := "(*sync/atomic." + ty + ")."
		m[T+"Add"] = func(p *Path, g *G, a []Value) Value { return add(p, g, cell(p, a[0]), a[1]) }
		m[T+"Load"] = func(p *Path, g *G, a []Value) Value { c := cell(p, a[0]); p.atomicOp(g, c); return *c }
		m[T+"Store"] = func(p *Path, g *G, a []Value) Value { c := cell(p, a[0]); p.atomicOp(g, c); *c = a[1]; return nil }
	}
	m["runtime.Gosched"] = func(p *Path, g *G, a []Value) Value {
		if p.sched != nil && len(p.sched.gs) > 1 {
			p.visible(g, &pendingOp{kind: opStep})
		}
		return nil
	}
	m["runtime.NumCPU"] = func(p *Path, g *G, a []Value) Value { return int64(4) }
	m["runtime.GOMAXPROCS"] = func(p *Path, g *G, a []Value) Value { return int64(4) }
	never := func(p *Path, g *G, a []Value) Value { p.nextChan++; return &Chan{id: p.nextChan, never: true} }
	m["time.Tick"] = never
	m["time.After"] = never
	m["time.Sleep"] = func(p *Path, g *G, a []Value) Value {
		if p.sched != nil && len(p.sched.gs) > 1 {
			p.visible(g, &pendingOp{kind: opStep})
		}
		return nil
	}
	m["time.NewTicker"] = func(p *Path, g *G, a []Value) Value {
		p.nextChan++
		var v Value = structure{&Chan{id: p.nextChan, never: true}, false}
		return &v
	}
	m["(*time.Ticker).Stop"] = func(p *Path, g *G, a []Value) Value { return nil }
	m["time.Now"] = func(p *Path, g *G, a []Value) Value { return structure{int64(0), int64(0), (*Value)(nil)} }
	m["time.Since"] = func(p *Path, g *G, a []Value) Value { return int64(0) }

	offset := func(p *Path, g *G, a []Value) Value {
		x, y := sl(a[0]), sl(a[1])
		d := int64(uintptr(unsafe.Pointer(&y[:1][0]))) - int64(uintptr(unsafe.Pointer(&x[:1][0])))
		return d / int64(unsafe.Sizeof(x[:1][0]))
	}
	m["gonum.org/v1/gonum/mat.offset"] = offset
	jsonNatives(m)
	fileNatives(m)
	intrinsics(m)
	return m
}

func (p *Path) equalByte(a, b Value) Value {
	_, ta := a.(*NumTok)
	_, tb := b.(*NumTok)
	if ta || tb {
		return false
	}
	if _, ok := a.(*JTok); ok {
		return false
	}
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return byte(x) == byte(y)
		}
	}
	k := intKind{8, false}
	return boolVal(p.tc.Eq(p.bvTerm(a, k), p.bvTerm(b, k)))
}

var _ = sort.Ints
