package featselect

import "gonum.org/v1/gonum/mat"

// what the stand-in of the solver saw and returned
var vhC15lambs, vhC15vals []float64

// vhC15all: the stand-in selects both features
var vhC15all bool

// vhC15Lasso stands in for coordinate descent: the solution for the penalty with index k is the recorded value k
// on feature 1+k%2 (no feature when the value is zero; and its
// negative on the other feature when vhC15all is set).
func vhC15Lasso(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64, maxIter int, tol float64, corr LassoCorrection) []float64 {
	_, p := dset.X.Dims()
	vAssert(len(x0) == p || len(x0) == 0, "the starting point fits the data")
	vAssert(maxIter == 77 && tol == 1e-7, "iteration limit and tolerance are passed on")
	b := make([]float64, p)
	for k, l := range vhC15lambs {
		if l == lamb {
			b[1+k%2] = vhC15vals[k]
			if vhC15all {
				b[2-k%2] = -vhC15vals[k]
			}
		}
	}
	return b
}

func vhC15Pool(n int, symbolic, all bool) {
	vhC15all = all
	X := mat.NewDense(2, 3, []float64{0, 1, 1, 0, -1, 1})
	lambs := make([]float64, n)
	vhC15vals = make([]float64, n)
	for k := range lambs {
		lambs[k] = 0.25 * float64(k+1)
		if symbolic {
			if vBool() {
				vhC15vals[k] = vFloat(0.5, 2)
			}
		} else if k < n-2 {
			vhC15vals[k] = float64(k + 1)
		}
	}
	vhC15lambs = append([]float64(nil), lambs...)
	var cov Identity
	nodes := LassoCrdDescPath(&NormalizedData{X: X, y: []float64{1, -1}}, &cov, lambs, 77, 1e-7, &PureLasso{})
	vReach("returned")
	// expected: from the largest penalty downwards without the leading empty ones
	first := 0
	for k := n - 1; k >= 0; k-- {
		if vhC15vals[k] != 0 {
			first = n - 1 - k
			break
		}
	}
	vAssert(len(nodes) == n-first, "one node per penalty, leading empty ones dropped")
	for i, nd := range nodes {
		k := n - 1 - first - i
		vAssert(nd != nil, "every node is set")
		vEq(nd.Lamb, 0.25*float64(k+1), "penalties from the largest downwards")
		if vhC15vals[k] == 0 {
			vAssert(len(nd.Selection) == 0 && len(nd.Coeff) == 0, "an empty solution has an empty node")
			continue
		}
		if all {
			vAssert(len(nd.Selection) == 2 && len(nd.Coeff) == 2, "a node holds the nonzero coefficients")
			vAssert(nd.Selection[0] == 1 && nd.Selection[1] == 2, "a node selects the features of its own solution")
			vEq(nd.Coeff[k%2], vhC15vals[k], "a node holds the coefficients of its own solution")
			vEq(nd.Coeff[1-k%2], -vhC15vals[k], "a node holds the coefficients of its own solution")
			continue
		}
		vAssert(len(nd.Selection) == 1 && len(nd.Coeff) == 1, "a node holds the nonzero coefficients")
		vAssert(nd.Selection[0] == 1+k%2, "a node selects the features of its own solution")
		vEq(nd.Coeff[0], vhC15vals[k], "a node holds the coefficients of its own solution")
	}
	for k := range lambs {
		vEq(lambs[k], 0.25*float64(k+1), "the penalties are not changed")
	}
}

// vhC15Small: 0..3 penalties (thorough 4), arbitrary solutions (empty or not), stand-in solver, schedules with up to 4 delays (thorough 6).
//verif:harness real delay=4 delayT=6 budget=60 budgetT=400 stub=LassoCrdDesc:vhC15Lasso
func vhC15Small() { vhC15Pool(vPick(0, 3+vTier()), true, false) }

// vhC15Large: more penalties than workers (12), stand-in solver, schedules with up to 3 delays (thorough 4).
//verif:harness real delay=3 delayT=4 budget=60 budgetT=400 stub=LassoCrdDesc:vhC15Lasso
func vhC15Large() { vhC15Pool(12, false, false) }

// vhC15LargeAll: the same with solutions that select every feature.
//verif:harness real delay=2 delayT=4 budget=60 budgetT=400 stub=LassoCrdDesc:vhC15Lasso
func vhC15LargeAll() { vhC15Pool(12, false, true) }

// vhC15Real: the real solver on two orthogonal features and an arbitrary target, 3 penalties, pure lasso or covariance lasso,
// schedules with up to 2 delays (thorough 3): every node is the solution that a separate run finds for its penalty.
//verif:harness real delay=2 delayT=3 budget=60 budgetT=400
func vhC15Real() {
	X := mat.NewDense(4, 3, []float64{0, 1, 1, 0, 1, -1, 0, -1, 1, 0, -1, -1})
	lambs := []float64{0.25, 0.5, 1}
	a, b := vFloat(0.75, 2), 0.375
	vAssume(a <= 0.99 || a >= 1.01)
	y := []float64{a + b, a - b, -a + b, -a - b}
	l2 := 0.25 * float64(vPick(0, 1))
	var corr LassoCorrection = &PureLasso{}
	if l2 > 0 {
		corr = NewCLasso(3, l2)
	}
	var cov Empirical
	nodes := LassoCrdDescPath(&NormalizedData{X: X, y: y}, &cov, lambs, 100, 1e-2, corr)
	vReach("returned")
	// soft thresholding of the correlations a and b, shrunk by the correction
	k := 2
	if a <= 1 {
		k = 1
	}
	vAssert(len(nodes) == k+1, "one node per penalty, leading empty ones dropped")
	for i, nd := range nodes {
		l := lambs[k-i]
		vEq(nd.Lamb, l, "penalties from the largest downwards")
		want := 1
		if l < b {
			want = 2
		}
		vAssert(len(nd.Selection) == want, "selected features of the solution")
		// converged to a relative change of 1e-2
		vNear(nd.Coeff[0], (a-l)/(1+l2), 0.03, "coefficient of the solution for its own penalty")
		if want == 2 {
			vNear(nd.Coeff[1], (b-l)/(1+l2), 0.03, "coefficient of the second feature for its own penalty")
		}
	}
}
