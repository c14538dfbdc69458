package featselect

//uses lib_fit.go

import (
	"math"
	"strconv"

	"gonum.org/v1/gonum/mat"
)

var vhC07left int

func vhC07cost(kind int) func(k, n int, r float64) float64 {
	return func(k, n int, r float64) float64 {
		vhC07left--
		vAssume(vhC07left >= 0)
		switch kind {
		case 0:
			return Aicc(k, n, r)
		case 1:
			return Bic(k, n, r)
		}
		return r + 10*float64(k)
	}
}

func vhC07item(X mat.Matrix, y []float64, sel []int, c []float64, kind int, what string) float64 {
	n, p := X.Dims()
	m := make([]bool, p)
	last := -1
	for _, j := range sel {
		vAssert(j > last && j < p, what+": features are ascending and within range")
		last = j
		m[j] = true
	}
	k := len(sel)
	vAssert(k > 0, what+": the model is not empty")
	vAssert(k < n/2 || k == 1, what+": fewer features than half the number of data points")
	vAssert(len(c) == k, what+": one coefficient per feature")
	rss, w := vhRSS(X, m, y)
	for j := range w {
		vEq(c[j], w[j], what+": least squares coefficients")
	}
	rss = math.Max(rss, 1e-12)
	switch kind {
	case 0:
		d := float64(n - k - 1)
		if k >= n-1 {
			d = 1
		}
		return 2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/d
	case 1:
		return float64(k)*math.Log(float64(n)) + float64(n)*math.Log(rss)
	}
	return rss + 10*float64(k)
}

func vhC07run(X mat.Matrix, y []float64, sweeps, kind int) {
	y0 := append([]float64(nil), y...)
	res := SelectModelSA(X, y, sweeps, vhC07cost(kind))
	fin := vhC07item(X, y0, res.Selected, res.Coeff, kind, "returned selection")
	vAssert(len(res.Scores.Items) > 0 && len(res.Scores.Items) <= 10, "models are recorded")
	for i, it := range res.Scores.Items {
		s := vhC07item(X, y0, it.Selection, it.Coeff, kind, "recorded model")
		vEq(it.Score, -s, "a recorded model has the negated cost of its selection")
		vLe(it.Score, res.Scores.BestItem.Score+1e-9, "the best item has the highest score")
		for k := 0; k < i; k++ {
			vAssert(!EqualInt(res.Scores.Items[k].Selection, it.Selection), "recorded models are distinct")
		}
	}
	b := res.Scores.BestItem
	s := vhC07item(X, y0, b.Selection, b.Coeff, kind, "best recorded model")
	vEq(b.Score, -s, "the best recorded model has the negated cost of its selection")
	vLe(-fin, b.Score+1e-9, "the returned selection is not better than the best recorded one")
	for i := range y {
		vEq(y[i], y0[i], "the response is unchanged")
	}
	vReach("sa")
	for _, it := range res.Scores.Items {
		m := 0
		for _, j := range it.Selection {
			m |= 1 << uint(j)
		}
		vReach("tries_" + strconv.Itoa(m))
	}
}

func vhC07data(n, p int, t float64) (*mat.Dense, []float64) {
	d := []float64{1, 2, 0, 1, -1, 1, 1, 0, 3, 1, 1, -2, 1, 3, 1, 1, -2, 4, 1, 0.5, -1, 1, 4, 2}
	X := mat.NewDense(n, p, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, d[3*i+j])
		}
	}
	v := []float64{1, -2, 3, 0.5, 1, 2, -1, 0}
	w := []float64{0.25, 1, 1, -1, 4, 0, 1, 2}
	y := make([]float64, n)
	for i := range y {
		y[i] = v[i] + t*w[i]
	}
	return X, y
}

// vhC07Two: two features, six data points, one or two sweeps per temperature; every walk that ends within 6 (thorough 8) evaluations, three cost functions; every model can be tried.
//verif:harness real budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit must=tries_1,tries_2,tries_3
func vhC07Two() {
	kind := vPick(0, 2)
	X, y := vhC07data(6, 2, vFloat(-10, 10))
	vhC07left = 6 + 2*vTier()
	vhC07run(X, y, 1, kind)
}

// vhC07Three: three features, eight data points (models of up to three features), two (thorough three) responses, walks that end within 6 (thorough 7) evaluations; every model can be tried.
//verif:harness real budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit must=tries_1,tries_2,tries_3,tries_4,tries_5,tries_6,tries_7
func vhC07Three() {
	X, y := vhC07data(8, 3, []float64{0, 1, -3}[vPick(0, 1+vTier())])
	vhC07left = 6 + vTier()
	vhC07run(X, y, 1, 2)
}
