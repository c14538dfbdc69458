package featselect

//uses lib_svd.go

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// vhC26FitGeneral: matrices of 1..3 rows and 1..2 columns given by arbitrary singular vectors (rotation angles) and
// singular values that are zero or in [1e-3,1e3]; arbitrary responses in [-100,100].
//verif:harness real budget=100 budgetT=600
func vhC26FitGeneral() {
	nc := vPick(1, 2)
	nr := vPick(nc, 2+vTier())
	X, s, v, rank := vhSVDMatrix(nr, nc)
	y := make([]float64, nr)
	y0 := make([]float64, nr)
	for i := range y {
		y[i] = vFloat(-100, 100)
		y0[i] = y[i]
	}
	x0 := append([]float64(nil), X.RawMatrix().Data...)
	c := Fit(X, y)
	vhNormalEq(X, c, y0, "the residual is orthogonal to every column")
	for k := rank; k < nc; k++ {
		d := 0.0
		for j := 0; j < nc; j++ {
			d += c[j] * v[j*nc+k]
		}
		vEq(d, 0.0, "minimal norm: no component along a null direction")
	}
	for i := range y {
		vEq(y[i], y0[i], "the response is unchanged")
	}
	for i, w := range X.RawMatrix().Data {
		vEq(w, x0[i], "the design matrix is unchanged")
	}
	_ = s
	vReach("fit")
}

// vhC26FitOrth: designs of 4 rows whose 1..4 columns are orthogonal +-1 vectors with arbitrary scale in [0.01,100], some of them zero; in every order.
//verif:harness real
func vhC26FitOrth() {
	h := [][]float64{{1, 1, 1, 1}, {1, -1, 1, -1}, {1, 1, -1, -1}, {1, -1, -1, 1}}
	nc := vPick(1, 3+vTier())
	off := vPick(0, 3)
	X := mat.NewDense(4, nc, nil)
	for j := 0; j < nc; j++ {
		if vPick(0, 3) == 0 {
			continue
		}
		a := vFloat(0.01, 100)
		for i := 0; i < 4; i++ {
			X.Set(i, j, a*h[(j+off)%4][i])
		}
	}
	y := make([]float64, 4)
	for i := range y {
		y[i] = vFloat(-100, 100)
	}
	c := Fit(X, y)
	vhNormalEq(X, c, y, "the residual is orthogonal to every column")
	for j := 0; j < nc; j++ {
		if X.At(0, j) == 0 && X.At(1, j) == 0 {
			vEq(c[j], 0.0, "minimal norm: a zero column has a zero coefficient")
		}
	}
	vReach("orth")
}

// vhC26Equi: designs of 3..4 rows with 2..3 equally correlated columns e_j*a + b (all pairs share one correlation), including repeated columns (a=0).
//verif:harness real budget=100
func vhC26Equi() {
	n := vPick(2, 3)
	a := 0.0
	if vPick(0, 1) == 1 {
		a = vFloat(0.125, 8)
	}
	b := vFloat(0.125, 8)
	nr := n + vPick(0, 1)
	X := mat.NewDense(nr, n, nil)
	for i := 0; i < nr; i++ {
		for j := 0; j < n; j++ {
			w := b
			if i == j {
				w += a
			}
			X.Set(i, j, w)
		}
	}
	y := make([]float64, nr)
	for i := range y {
		y[i] = vFloat(-100, 100)
	}
	c := Fit(X, y)
	vhNormalEq(X, c, y, "the residual is orthogonal to every column")
	if a == 0 {
		for j := 1; j < n; j++ {
			vEq(c[j], c[0], "minimal norm: equal columns share their coefficient")
		}
	}
	vReach("equi")
}

// vhC26Wide: one or two rows, more columns than rows (transposed general matrices): interpolation with minimal norm.
//verif:harness real budget=100
func vhC26Wide() {
	n := vPick(2, 3)
	X := mat.NewDense(1, n, nil)
	for j := 0; j < n; j++ {
		X.Set(0, j, vFloat(-100, 100))
	}
	s := 0.0
	for j := 0; j < n; j++ {
		s += X.At(0, j) * X.At(0, j)
	}
	vAssume(s >= 1e-4)
	y := []float64{vFloat(-100, 100)}
	c := Fit(X, y)
	vAssert(len(c) == n, "one coefficient per column")
	for j := 0; j < n; j++ {
		vEq(c[j]*s, y[0]*X.At(0, j), "the coefficients are the minimal-norm solution of a single equation")
	}
	vReach("wide")
}

// vhC26Predict: predictions and residual sums of squares of up to 3x3 arbitrary matrices.
//verif:harness real
func vhC26Predict() {
	nr, nc := vPick(1, 3), vPick(1, 3)
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = vFloat(-100, 100)
	}
	c := make([]float64, nc)
	for i := range c {
		c[i] = vFloat(-100, 100)
	}
	y := make([]float64, nr)
	for i := range y {
		y[i] = vFloat(-100, 100)
	}
	X := mat.NewDense(nr, nc, d)
	p := Predict(X, c)
	vAssert(len(p) == nr, "one prediction per row")
	rss := 0.0
	for i := 0; i < nr; i++ {
		w := 0.0
		for j := 0; j < nc; j++ {
			w += d[i*nc+j] * c[j]
		}
		vEq(p[i], w, "prediction")
		vEq(PredictOne(d[i*nc:(i+1)*nc], c), w, "prediction of a single row")
		rss += (w - y[i]) * (w - y[i])
	}
	vEq(Rss(X, c, y), rss, "residual sum of squares")
	vReach("predict")
	vObs("p", p)
}

// vhC26Pseudo: pseudo-inverse and inverse of the normal matrix of general matrices (1..2 columns, 1..2, thorough 3 rows): Moore-Penrose conditions.
//verif:harness real budget=100 budgetT=600
func vhC26Pseudo() {
	nc := vPick(1, 2)
	nr := vPick(nc, 2+vTier())
	X, s, v, rank := vhSVDMatrix(nr, nc)
	var svd mat.SVD
	svd.Factorize(X, mat.SVDThin)
	P := PseudoInverse(&svd, 1e-6)
	Q := PseudoInverseXTX(&svd, 1e-12)
	pr, pc := P.Dims()
	qr, qc := Q.Dims()
	vAssert(pr == nc && pc == nr, "pseudo-inverse dimensions")
	vAssert(qr == nc && qc == nc, "normal matrix inverse dimensions")
	var XP, PX, XPX mat.Dense
	XP.Mul(X, P)
	PX.Mul(P, X)
	XPX.Mul(&XP, X)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			vEq(XPX.At(i, j), X.At(i, j), "X P X = X")
		}
		for j := 0; j < nr; j++ {
			vEq(XP.At(i, j), XP.At(j, i), "X P is symmetric")
		}
	}
	for i := 0; i < nc; i++ {
		for j := 0; j < nc; j++ {
			vEq(PX.At(i, j), PX.At(j, i), "P X is symmetric")
			w := 0.0
			for k := 0; k < rank; k++ {
				w += v[i*nc+k] * v[j*nc+k] / (s[k] * s[k])
			}
			vEq(Q.At(i, j), w, "inverse of the normal matrix")
		}
		for k := rank; k < nc; k++ {
			for j := 0; j < nr; j++ {
				d := 0.0
				for q := 0; q < nc; q++ {
					d += v[q*nc+k] * P.At(q, j)
				}
				vEq(d, 0.0, "the pseudo-inverse has no component along a null direction")
			}
		}
	}
	vReach("pseudo")
}

// vhC26Hat: hat matrix of general matrices with 1..2 columns and full rank: it reproduces X and is symmetric.
//verif:harness real budget=100 budgetT=600
func vhC26Hat() {
	nc := vPick(1, 2)
	nr := vPick(nc, 2+vTier())
	X, s, _, rank := vhSVDMatrix(nr, nc)
	for k := 0; k < rank; k++ {
		vAssume(s[k] >= 0.01)
	}
	H := DenumMatrixGcv(X)
	hr, hc := H.Dims()
	vAssert(hr == nr && hc == nr, "hat matrix dimensions")
	var HX mat.Dense
	HX.Mul(H, X)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			vEq(HX.At(i, j), X.At(i, j), "the hat matrix reproduces the columns")
		}
		for j := 0; j < nr; j++ {
			vEq(H.At(i, j), H.At(j, i), "the hat matrix is symmetric")
		}
	}
	tr := 0.0
	for i := 0; i < nr; i++ {
		tr += H.At(i, i)
	}
	vEq(tr, float64(rank), "the trace of the hat matrix is the rank")
	vReach("hat")
}

// vhC26Gcv: one column and 2 (thorough 3) rows of arbitrary values in [1,10]: the score is the root mean square of the
// leave-one-out errors.
//verif:harness real budget=100
func vhC26Gcv() {
	n := vPick(2, 2+vTier())
	x := make([]float64, n)
	y := make([]float64, n)
	for i := range x {
		x[i] = vFloat(1, 10)
		y[i] = vFloat(-100, 100)
	}
	X := mat.NewDense(n, 1, append([]float64(nil), x...))
	xx, xy := 0.0, 0.0
	for i := range x {
		xx += x[i] * x[i]
		xy += x[i] * y[i]
	}
	c := xy / xx
	pred := make([]float64, n)
	for i := range pred {
		pred[i] = c * x[i]
	}
	H := DenumMatrixGcv(X)
	g := Gcv(H, y, pred)
	w := 0.0
	for i := range x {
		e := y[i] - x[i]*(xy-x[i]*y[i])/(xx-x[i]*x[i])
		w += e * e
	}
	vLe(0.0, g, "the score is not negative")
	vEq(g*g, w/float64(n), "the score is the root mean square leave-one-out error")
	vReach("gcv")
	_ = math.Sqrt
}
