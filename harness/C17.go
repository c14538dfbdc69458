package featselect

//uses lib_fit.go

import "gonum.org/v1/gonum/mat"

// vhC17Fit is the least squares solution by the normal equations; zero columns get a zero coefficient (as in the minimum-norm fit).
func vhC17Fit(X mat.Matrix, y []float64) []float64 {
	nr, k := X.Dims()
	m := make([]bool, k)
	for j := range m {
		for i := 0; i < nr; i++ {
			if X.At(i, j) != 0 {
				m[j] = true
			}
		}
	}
	c := make([]float64, k)
	q := 0
	if NumFeatures(m) == 0 {
		return c
	}
	cc := vhNormalFit(vhCols(X, m), y)
	for j := range m {
		if m[j] {
			c[j] = cc[q]
			q++
		}
	}
	return c
}

func vhC17Design(id int) *mat.Dense {
	switch id {
	case 5:
		X := mat.NewDense(9, 12, nil)
		for i := 0; i < 9; i++ {
			for j := 0; j < 12; j++ {
				X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*float64(1+j%3))
			}
		}
		return X
	case 0: // first column zero, as after normalisation
		return mat.NewDense(3, 3, []float64{0, 1, 0, 0, 2, 3, 0, 2, 4})
	case 1: // different column sizes: norms 6, 3 and 5/16
		return mat.NewDense(3, 3, []float64{4, 2, 0, 2, -1, 0.1875, 4, 2, -0.25})
	case 2: // more columns than rows
		return mat.NewDense(2, 3, []float64{1, 3, 5, 0, 4, -12})
	case 3: // zero column in the middle
		return mat.NewDense(3, 3, []float64{1, 0, 0, 2, 0, 3, 2, 0, 4})
	}
	return mat.NewDense(4, 4, []float64{1, 1, 2, 0, 1, -1, 0, 3, 1, 1, 0, 0, 1, -1, 0, 4})
}

func vhC17Run(id int, tol float64) {
	X := vhC17Design(id)
	n, p := X.Dims()
	y := make([]float64, n)
	for i := range y {
		if id != 5 {
			y[i] = vFloat(-4, 4)
		}
	}
	if id == 5 {
		t := vFloat(0, 0.125+0.875*float64(vTier()))
		for i := range y {
			y[i] = X.At(i, 3) - 0.5*X.At(i, 10) + float64(i%3) + t*float64(i%4-1)
		}
	}
	y0 := append([]float64(nil), y...)
	x0 := append([]float64(nil), X.RawMatrix().Data...)
	res := Omp(X, y, tol)
	for i := range y {
		vEq(y[i], y0[i], "the target is not modified")
	}
	for i, v := range X.RawMatrix().Data {
		vEq(v, x0[i], "the data are not modified")
	}
	vAssert(len(res.Coeff) == p && len(res.Order) <= p && len(res.Order) > 0, "one coefficient per feature")
	sel := make([]bool, p)
	r := append([]float64(nil), y0...)
	c := make([]float64, p)
	for t := 0; ; t++ {
		rss := 0.0
		for i := range r {
			rss += r[i] * r[i]
		}
		cor := make([]float64, p)
		nrm := make([]float64, p)
		for j := range cor {
			for i := 0; i < n; i++ {
				cor[j] += x0[i*p+j] * r[i]
				nrm[j] += x0[i*p+j] * x0[i*p+j]
			}
		}
		if t == len(res.Order) {
			if t < p && rss >= float64(n)*tol*tol*1.0001 {
				for j := range cor {
					vNear(cor[j], 0, 1e-4, "the pursuit only ends early when nothing correlates with the residual")
				}
				vReach("uncorrelated")
			}
			break
		}
		if t > 0 {
			vLe(float64(n)*tol*tol, rss, "the pursuit stops as soon as the root mean square residual is below the tolerance")
		}
		f := res.Order[t]
		vAssert(f >= 0 && f < p && !sel[f], "no feature is selected twice")
		for j := range cor {
			vLe(cor[j]*cor[j]*nrm[f], cor[f]*cor[f]*nrm[j], "the selected feature has the largest absolute correlation")
			if nrm[f] == 0 && nrm[j] > 0 {
				vNear(cor[j], 0, 1e-5, "a zero column is only selected when nothing correlates with the residual")
			}
		}
		sel[f] = true
		m := make([]bool, p)
		any := false
		for j := range m {
			m[j] = sel[j] && nrm[j] > 0
			any = any || m[j]
		}
		c = make([]float64, p)
		if any {
			cc := vhNormalFit(vhCols(X, m), y0)
			q := 0
			for j := range m {
				if m[j] {
					c[j] = cc[q]
					q++
				}
			}
		}
		for i := range r {
			r[i] = y0[i]
			for j := range c {
				r[i] -= x0[i*p+j] * c[j]
			}
		}
	}
	for j := range c {
		vEq(res.Coeff[j], c[j], "least squares coefficients on the selected features, zero elsewhere")
	}
	vReach("pursuit")
	if len(res.Order) == 2 {
		vReach("two")
	}
}

// vhC17Small: 2..3 data points, 3 features (a zero column, columns of different size, more features than data points),
// arbitrary target, tolerance 1/2.
//verif:harness real budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhC17Fit
func vhC17Small() { vhC17Run(vPick(0, 3), 0.5) }

// vhC17Loose: as above with tolerance 2 (thorough: 2 and 1/100).
//verif:harness real budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhC17Fit
func vhC17Loose() {
	tol := 2.0
	if vTier() == 1 && vPick(0, 1) == 1 {
		tol = 0.01
	}
	vhC17Run(vPick(0, 3), tol)
}

// vhC17Four: 4 data points, 4 features of different size.
//verif:harness real thorough budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhC17Fit
func vhC17Four() { vhC17Run(4, 0.5) }

// vhC17Wide: 9 data points and 12 features of different size, a given target plus t in [0,0.125] (thorough [0,1]) times a direction.
//verif:harness real budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhC17Fit
func vhC17Wide() { vhC17Run(5, 0.5) }
