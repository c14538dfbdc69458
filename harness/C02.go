package featselect

//uses lib_fit.go

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

func vhC02crit(aicc bool, k, n int, rss float64) float64 {
	c := 2*float64(k) + float64(n)*math.Log(rss)
	if !aicc {
		return c
	}
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return c + float64(2*k*k+2*k)/d
}

// vhC02Common: greatest and least common models of every model with 0..6 (thorough 8) features and every prefix length.
//verif:harness real
func vhC02Common() {
	p := vPick(0, 6+2*vTier())
	start := vPick(0, p)
	m := make([]bool, p)
	m0 := make([]bool, p)
	for i := range m {
		m[i] = vBool()
		m0[i] = m[i]
	}
	g, l := Gcs(m, start), Lcs(m, start)
	vAssert(len(g) == p && len(l) == p, "same number of features")
	for i := 0; i < p; i++ {
		if i < start {
			vAssert(g[i] == m0[i] && l[i] == m0[i], "fixed bits are kept")
		} else {
			vAssert(g[i] && !l[i], "free features are on in the greatest and off in the least common model")
		}
		vAssert(m[i] == m0[i], "the model is unchanged")
	}
	vReach("common")
}

func vhC02check(X mat.Matrix, y []float64, aicc bool) {
	n, p := X.Dims()
	start := vPick(0, p)
	m := make([]bool, p)
	for i := range m {
		// free bits of the model do not matter: both values for the first one only
		if i < start || i == start {
			m[i] = vPick(0, 1) == 1
		}
	}
	var lo, up float64
	free := p - start
	f := vPick(0, 1<<uint(free)-1)
	q := make([]bool, p)
	copy(q, m[:start])
	for i := 0; i < free; i++ {
		q[start+i] = f>>uint(i)&1 == 1
	}
	k := 0
	for _, b := range q {
		if b {
			k++
		}
	}
	if k == 0 || k >= n {
		return
	}
	if aicc {
		lo, up = BoundsAICC(m, start, X, y)
	} else {
		lo, up = BoundsAIC(m, start, X, y)
	}
	rss, _ := vhRSS(X, q, y)
	c := vhC02crit(aicc, k, n, math.Max(rss, 1e-12))
	vLe(lo, c+1e-9, "the lower bound does not exceed the criterion of a sub-model")
	vLe(c, up+1e-9, "the upper bound is not below the criterion of a sub-model")
	vReach("bounds")
}

// vhC02Bounds: five designs with integer entries (2..5 rows, 3..4 columns, correlated and more columns than rows) and responses a*v+b*w with
// a, b in [-10,10] and two fixed directions; every prefix and every sub-model; AIC and AICc. Fits are taken from the normal equations.
//verif:harness real budget=300 budgetT=800 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC02Bounds() {
	aicc := vPick(0, 1) == 1
	X := vhDesign(vPick(0, 4))
	n, _ := X.Dims()
	v := []float64{1, -2, 3, 0, 1}
	w := []float64{0, 1, 1, -1, 4}
	a, b := vFloat(-10, 10), vFloat(-10, 10)
	y := make([]float64, n)
	for i := range y {
		y[i] = a*v[i] + b*w[i]
	}
	vhC02check(X, y, aicc)
}

// vhC02Orth: orthogonal +-1 designs with 4 rows and 3..4 columns, real fits, every response whose component along the j-th column is the square
// root of a number in [0,100] (with both signs for the first).
//verif:harness real budget=300 budgetT=800
func vhC02Orth() {
	aicc := vPick(0, 1) == 1
	H := vhDesign(5)
	p := vPick(3, 4)
	X := mat.DenseCopyOf(H.Slice(0, 4, 0, p))
	y := make([]float64, 4)
	for j := 0; j < 4; j++ {
		a := vSqrt(vFloat(0, 100))
		if j == 0 && vPick(0, 1) == 1 {
			a = -a
		}
		for i := range y {
			y[i] += a * H.At(i, j)
		}
	}
	vhC02check(X, y, aicc)
}

// vhC02Wide: models of 63, 64, 65 and 130 features and prefixes that end at, before and behind every eighth feature; one arbitrary feature.
//verif:harness real
func vhC02Wide() {
	p := []int{63, 64, 65, 130}[vPick(0, 3)]
	m := make([]bool, p)
	for i := range m {
		m[i] = i%3 == 0 || i%7 == 5
	}
	m[p*2/3] = vBool()
	m0 := append([]bool(nil), m...)
	for start := 0; start <= p; start++ {
		if r := start % 8; r > 1 && r < 7 && start < p-1 {
			continue
		}
		g, l := Gcs(m, start), Lcs(m, start)
		vAssert(len(g) == p && len(l) == p, "same number of features")
		for i := 0; i < p; i++ {
			if i < start {
				vAssert(g[i] == m0[i] && l[i] == m0[i], "fixed bits are kept")
			} else {
				vAssert(g[i] && !l[i], "free features are on in the greatest and off in the least common model")
			}
			vAssert(m[i] == m0[i], "the model is unchanged")
		}
	}
	vReach("wide")
}

// vhC02Many: 9 rows and 8 (thorough 10) correlated features, a given response plus t in [0,0.01] times a direction; 8 prefixes of each of 3 models
// and 16 sub-models of each; AIC and AICc. Fits are taken from the normal equations.
//verif:harness real budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC02Many() {
	aicc := vPick(0, 1) == 1
	n, p := 9, 8+2*vTier()
	X := mat.NewDense(n, p, nil)
	y := make([]float64, n)
	t := vFloat(0, 0.01)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*0.25)
		}
		y[i] = X.At(i, 1) - 0.5*X.At(i, 4) + 0.5*float64(i%3) + t*float64(i%4-1)
	}
	start := vPick(0, 8)
	m := make([]bool, p)
	pat := vPick(0, 2)
	for i := range m {
		m[i] = pat == 1 && i%2 == 0 || pat == 2 && i%3 == 1
	}
	if start == p && NumFeatures(m) == 0 {
		return // no non-empty sub-model
	}
	var lo, up float64
	if aicc {
		lo, up = BoundsAICC(append([]bool(nil), m...), start, X, y)
	} else {
		lo, up = BoundsAIC(append([]bool(nil), m...), start, X, y)
	}
	for f := 0; f < 16; f++ {
		q := append([]bool(nil), m...)
		k := 0
		for i := range q {
			if i >= start {
				q[i] = (f*37+i*f*11+i)>>uint(i%3)&1 == 1
			}
			if q[i] {
				k++
			}
		}
		if k == 0 || k >= n {
			continue
		}
		rss, _ := vhRSS(X, q, y)
		c := vhC02crit(aicc, k, n, math.Max(rss, 1e-12))
		vLe(lo, c+1e-9, "the lower bound does not exceed the criterion of a sub-model")
		vLe(c, up+1e-9, "the upper bound is not below the criterion of a sub-model")
		vReach("many")
	}
}
