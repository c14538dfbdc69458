package featselect

import "gonum.org/v1/gonum/mat"

// vhC14Count counts the iterations of a correction it forwards to
type vhC14Count struct {
	c LassoCorrection
	n int
}

func (w *vhC14Count) Deriv(beta []float64, j int) float64 { return w.c.Deriv(beta, j) }
func (w *vhC14Count) Update(beta []float64)               { w.n++; w.c.Update(beta) }

// vhC14Design returns the columns of a concrete design: 0: orthogonal, 2 features, 1: correlated, 2 features,
// 2: orthogonal, 3 features, 3: correlated, 3 features. 4: a single feature. The first column is zero (as after normalisation) or constant.
func vhC14Design(id int, first float64) *mat.Dense {
	f := first
	switch id {
	case 4:
		return mat.NewDense(2, 2, []float64{f, 1, f, -1})
	case 0:
		return mat.NewDense(4, 3, []float64{f, 1, 1, f, 1, -1, f, -1, 1, f, -1, -1})
	case 1:
		return mat.NewDense(4, 3, []float64{f, 1, 1, f, 1, 0.5, f, -1, -0.5, f, -1, -1})
	case 2:
		return mat.NewDense(4, 4, []float64{f, 1, 1, 1, f, 1, -1, -1, f, -1, 1, -1, f, -1, -1, 1})
	}
	return mat.NewDense(4, 4, []float64{f, 1, 1, 0.5, f, 1, -1, 0.25, f, -1, 1, 0, f, -1, -1, -0.75})
}

// vhC14KKT asserts the optimality conditions; l2 is the strength of the quadratic part of the correction
func vhC14KKT(X *mat.Dense, y []float64, lamb, l2, tol float64, b []float64) {
	n, p := X.Dims()
	vAssert(len(b) == p, "one coefficient per feature")
	vEq(b[0], 0, "the coefficient of the first feature is zero")
	big := 0.0
	for j := 1; j < p; j++ {
		if b[j] > big {
			big = b[j]
		}
		if -b[j] > big {
			big = -b[j]
		}
	}
	for j := 1; j < p; j++ {
		g := 0.0
		for i := 0; i < n; i++ {
			r := y[i]
			for k := 1; k < p; k++ {
				r -= X.At(i, k) * b[k]
			}
			g += X.At(i, j) * r
		}
		g = g/float64(n) - l2*b[j]
		rowsum := l2
		for k := 1; k < p; k++ {
			c := 0.0
			for i := 0; i < n; i++ {
				c += X.At(i, j) * X.At(i, k)
			}
			if c < 0 {
				c = -c
			}
			rowsum += c / float64(n)
		}
		eps := rowsum*tol*big + 1e-5
		if b[j] > 1e-12 {
			vLe(g, lamb+eps, "gradient of a positive coefficient equals the penalty (not above)")
			vLe(lamb-eps, g, "gradient of a positive coefficient equals the penalty (not below)")
		} else if b[j] < -1e-12 {
			vLe(-g, lamb+eps, "gradient of a negative coefficient equals minus the penalty (not above)")
			vLe(lamb-eps, -g, "gradient of a negative coefficient equals minus the penalty (not below)")
		} else {
			vLe(g, lamb+eps, "gradient of a zero coefficient is at most the penalty")
			vLe(-g, lamb+eps, "gradient of a zero coefficient is at least minus the penalty")
		}
	}
}

// span: the target is an arbitrary combination of the features only
func vhC14Run(id int, first float64, corr LassoCorrection, l2, tol float64, maxIter int, start int, span bool) {
	X := vhC14Design(id, first)
	n, p := X.Dims()
	y := make([]float64, n)
	if span {
		for j := 1; j < p; j++ {
			a := vFloat(-2, 2)
			for i := range y {
				y[i] += a * X.At(i, j)
			}
		}
	} else {
		for i := range y {
			y[i] = vFloat(-2, 2)
		}
	}
	lamb := vFloat(0, 2)
	var x0 []float64
	if start > 0 {
		x0 = make([]float64, p)
		for j := range x0 {
			if j > 0 || start == 2 {
				x0[j] = vFloat(-2, 2)
			}
		}
	}
	x00 := append([]float64(nil), x0...)
	y0 := append([]float64(nil), y...)
	d0 := append([]float64(nil), X.RawMatrix().Data...)
	w := &vhC14Count{c: corr}
	var cov Empirical
	b := LassoCrdDesc(&NormalizedData{X: X, y: y}, lamb, &cov, x0, maxIter, tol, w)
	for j := range x00 {
		vEq(x0[j], x00[j], "the starting point is not modified")
	}
	for i := range y0 {
		vEq(y[i], y0[i], "the target is not modified")
	}
	for i, v := range X.RawMatrix().Data {
		vEq(v, d0[i], "the data are not modified")
	}
	vAssume(w.n < maxIter)
	vReach("converged")
	vhC14KKT(X, y0, lamb, l2, tol, b)
}

// vhC14Pure: the pure lasso, 2 orthogonal features (converges in 2 iterations) from no, a partly or a fully given starting point.
//verif:harness real budget=120 budgetT=600
func vhC14Pure() {
	vhC14Run(0, float64(vPick(0, 1)), &PureLasso{}, 0, 1e-3, 4, vPick(0, 2), false)
}

// vhC14Corr: the pure lasso, 2 correlated features, coarse tolerance, at most 4 (thorough 5) iterations;
// the target is spanned by the features (thorough: arbitrary).
//verif:harness real budget=150 budgetT=800
func vhC14Corr() {
	vhC14Run(1, 0, &PureLasso{}, 0, 0.25, 4+vTier(), vPick(0, 1), vTier() == 0)
}

// vhC14Start: a starting point is given for a single feature only (thorough: for every design)
func vhC14Start(id int) int {
	if id != 4 && vTier() == 0 {
		return 0
	}
	return vPick(0, 1)
}

// vhC14Net: the elastic net, 1 feature or 2 features (orthogonal or correlated), strength 1/4 (thorough also 0 and 1/2).
//verif:harness real budget=150 budgetT=800
func vhC14Net() {
	l2 := 0.25
	if vTier() == 1 {
		l2 = 0.25 * float64(vPick(0, 2))
	}
	id := vPick(0, 2)
	if id == 2 {
		id = 4
	}
	vhC14Run(id, 0, &ElasticNet{Lamb: l2}, l2, 0.25, 4+vTier(), vhC14Start(id), vTier() == 0)
}

// vhC14CLasso: the covariance lasso with strength 1/4, 1 or 2 orthogonal features, target spanned by the features;
// the correction is fresh or was used before.
//verif:harness real budget=150 budgetT=800
func vhC14CLasso() {
	id := vPick(0, 1)
	if id == 0 {
		id = 4
	} else {
		id = 0
	}
	_, p := vhC14Design(id, 0).Dims()
	c := NewCLasso(p, 0.25)
	if vPick(0, 1) == 1 {
		st := []float64{0, 1, -0.5}
		c.Update(st[:p])
	}
	vhC14Run(id, 0, c, 0.25, 0.35, 4+vTier(), vhC14Start(id), true)
}

// vhC14Three: the pure lasso, 3 features, from the zero starting point.
//verif:harness real budget=150 budgetT=800
func vhC14Three() {
	vhC14Run(vPick(2, 3), 0, &PureLasso{}, 0, 0.25, 3+vTier(), 0, false)
}

// vhC14Deriv: the derivative of every correction equals its definition for arbitrary coefficients up to 100 in size: zero for the pure lasso,
// strength times coefficient for the elastic net, and the projection on the stored coefficients for the covariance lasso (2..3 features).
//verif:harness real
func vhC14Deriv() {
	p := vPick(2, 3)
	b := make([]float64, p)
	st := make([]float64, p)
	nsq, inner := 0.0, 0.0
	for i := range b {
		b[i] = vFloat(-100, 100)
		st[i] = vFloat(-100, 100)
		nsq += st[i] * st[i]
		inner += st[i] * b[i]
	}
	b0 := append([]float64(nil), b...)
	eta := vFloat(0, 100)
	j := vPick(0, p-1)
	var pure PureLasso
	pure.Update(st)
	vEq(pure.Deriv(b, j), 0, "the pure lasso has no correction")
	net := ElasticNet{Lamb: eta}
	net.Update(st)
	vEq(net.Deriv(b, j), eta*b[j], "elastic net: strength times coefficient")
	c := NewCLasso(p, eta)
	vEq(c.Deriv(b, j), 0, "a fresh covariance lasso has no correction")
	c.Update(st)
	if nsq >= 1.0001e-10 {
		vEq(c.Deriv(b, j)*nsq, eta*st[j]*inner, "covariance lasso: projection on the stored coefficients")
		vReach("stored")
	}
	for i := range b {
		vEq(b[i], b0[i], "the coefficients are not modified")
	}
	vReach("deriv")
}

// vhC14Wide: the pure lasso on 10 rows and 8 (thorough 12) correlated features, a given target plus t in [0,0.02] (thorough [0,0.1]) times a direction, two penalties.
//verif:harness real budget=100 budgetT=600
func vhC14Wide() {
	n, p := 10, 9+4*vTier()
	X := mat.NewDense(n, p, nil)
	y := make([]float64, n)
	t := vFloat(0, 0.02+0.08*float64(vTier()))
	for i := 0; i < n; i++ {
		for j := 1; j < p; j++ {
			X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*0.25)
		}
		y[i] = 1.5*X.At(i, 2) - X.At(i, 5) + 0.5*X.At(i, p-1) + float64(i%3)*0.125 + t*float64(i%4-1)
	}
	lamb := []float64{0.25, 0.0625}[vPick(0, 1)]
	d0 := append([]float64(nil), X.RawMatrix().Data...)
	w := &vhC14Count{c: &PureLasso{}}
	var cov Empirical
	b := LassoCrdDesc(&NormalizedData{X: X, y: append([]float64(nil), y...)}, lamb, &cov, nil, 100, 1e-2, w)
	for i, v := range X.RawMatrix().Data {
		vEq(v, d0[i], "the data are not modified")
	}
	vAssume(w.n < 100)
	vReach("converged")
	vhC14KKT(X, y, lamb, 0, 1e-2, b)
}
