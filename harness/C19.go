package featselect

import (
	"strconv"

	"gonum.org/v1/gonum/mat"
)

// vhC19Target records how it is used
type vhC19Target struct {
	id     int
	x      *mat.Dense
	rows   [][]int
	ret    [][]int
	masks  []bool // when true the selections are arbitrary
	p      int
	called int
}

func (t *vhC19Target) GetX() mat.Matrix { return t.x }
func (t *vhC19Target) GetSelection(indices []int) []int {
	t.rows = append(t.rows, append([]int(nil), indices...))
	m := vPick(0, 1<<uint(t.p)-1)
	var s []int
	for f := 0; f < t.p; f++ {
		if m>>uint(f)&1 == 1 {
			s = append(s, f)
		}
	}
	t.ret = append(t.ret, append([]int(nil), s...))
	return s
}
func (t *vhC19Target) HyperParameters() map[string]float64 {
	return map[string]float64{"id": float64(t.id)}
}
func (t *vhC19Target) StringRep() string { return "target " + strconv.Itoa(t.id) }

// vhC19Mean: 1..4 data points, 2 features, 1..2 samples (thorough 3), every shuffle and every pair of selections;
// every split of 3 and 4 data points can happen.
//verif:harness real budget=100 budgetT=600 must=first_half_3,first_half_5,first_half_6,first_half_9,first_half_10,first_half_12,first_row_0,first_row_1,first_row_2
func vhC19Mean() {
	nr := vPick(1, 4)
	ns := vPick(1, 2+vTier())
	if vTier() == 0 && nr > 3 {
		vAssume(ns == 1)
	}
	t := &vhC19Target{x: mat.NewDense(nr, 2, nil), p: 2}
	k := GetCohensKappa(ns, t)
	vAssert(len(t.rows) == 2*ns, "two selections per sample")
	sum := 0.0
	for s := 0; s < ns; s++ {
		a, b := t.rows[2*s], t.rows[2*s+1]
		vAssert(len(a)+len(b) == nr && len(a) <= len(b) && len(b)-len(a) <= 1, "the rows are split in halves")
		cnt := make([]int, nr)
		for _, v := range a {
			vAssert(v >= 0 && v < nr, "row numbers are valid")
			cnt[v]++
		}
		for _, v := range b {
			vAssert(v >= 0 && v < nr, "row numbers are valid")
			cnt[v]++
		}
		for _, c := range cnt {
			vAssert(c == 1, "every row is used exactly once per sample")
		}
		sum += CohenKappa(t.ret[2*s], t.ret[2*s+1], 2)
	}
	vEq(k, sum/float64(ns), "the result is the mean over all samples")
	vReach("mean")
	if nr == 4 && ns == 1 {
		m := 0
		for _, v := range t.rows[0] {
			m |= 1 << uint(v)
		}
		vReach("first_half_" + strconv.Itoa(m))
	}
	if nr == 3 && ns == 1 {
		vReach("first_row_" + strconv.Itoa(t.rows[0][0]))
	}
}

var vhC19kappa []float64

func vhC19Stub(numSamples int, target CohensKappaTarget) float64 {
	t := target.(*vhC19Target)
	t.called++
	vAssert(numSamples == 7, "the requested number of samples is used")
	return vhC19kappa[t.id]
}

func vhC19Pool(n int, symbolic bool) {
	ts := make([]CohensKappaTarget, n)
	vhC19kappa = make([]float64, n)
	for i := range ts {
		ts[i] = &vhC19Target{id: i}
		if symbolic {
			vhC19kappa[i] = vFloat(-1, 1)
		} else {
			vhC19kappa[i] = 0.5
		}
	}
	if !symbolic {
		vhC19kappa[vPick(0, n-1)] = vFloat(-1, 1)
		vhC19kappa[n-1] += 0.125
	}
	best := CalculateCohenSequence(7, ts)
	vReach("returned")
	any := false
	for i, t := range ts {
		vAssert(t.(*vhC19Target).called == 1, "every target is evaluated exactly once")
		any = any || vhC19kappa[i] > 0
	}
	if !any {
		return
	}
	vAssert(len(best) == 1, "hyper parameters of a target are returned")
	id := int(best["id"])
	vAssert(id >= 0 && id < n, "hyper parameters of a target are returned")
	for i := range ts {
		vLe(vhC19kappa[i], vhC19kappa[id], "the returned target has the largest kappa")
	}
}

// vhC19Small: 0..3 targets with arbitrary kappas, schedules with up to 2 delays (thorough 3).
//verif:harness real delay=2 delayT=3 budget=100 budgetT=600 stub=GetCohensKappa:vhC19Stub
func vhC19Small() { vhC19Pool(vPick(0, 3), true) }

// vhC19Large: more targets than workers (18), one arbitrary kappa, schedules with up to 1 delay (thorough 2).
//verif:harness real delay=1 delayT=2 budget=100 budgetT=600 stub=GetCohensKappa:vhC19Stub
func vhC19Large() { vhC19Pool(18, false) }

// vhC19Targets: the pure lasso and covariance lasso targets with a recording solver: 4 data points, 2 features and bias,
// arbitrary data and penalty, 3 of the rows in arbitrary order, two calls in a row.
//verif:harness real budget=100 budgetT=600
func vhC19Targets() {
	d := make([]float64, 12)
	y := make([]float64, 4)
	for i := 0; i < 4; i++ {
		d[3*i+1] = vFloat(-10, 10)
		d[3*i+2] = vFloat(-10, 10)
		y[i] = vFloat(-10, 10)
	}
	n := &NormalizedData{X: mat.NewDense(4, 3, append([]float64(nil), d...)), y: append([]float64(nil), y...)}
	lamb := vFloat(0, 10)
	var gotX mat.Matrix
	var gotY, ret []float64
	calls := 0
	corr := &PureLasso{}
	var solver CorrectableLasso = func(dset *NormalizedData, l float64, cov CovMat, x0 []float64, maxIter int, tol float64, c LassoCorrection) []float64 {
		calls++
		gotX, gotY = mat.DenseCopyOf(dset.X), append([]float64(nil), dset.y...)
		vAssert(l == lamb && maxIter == 33 && tol == 0.125 && c == LassoCorrection(corr), "the parameters of the target are used")
		vAssert(x0 == nil || len(x0) == 3, "the starting point fits the data")
		for j, v := range x0 {
			if calls > 1 {
				vAssert(v == 0 || v == ret[j], "the starting point is the previous solution")
			}
		}
		ret = []float64{0, 0, 0}
		m := vPick(0, 3)
		for j := 0; j < 2; j++ {
			if m>>uint(j)&1 == 1 {
				ret[j+1] = -0.5
			}
		}
		return append([]float64(nil), ret...)
	}
	var tg CohensKappaTarget
	pl := NewPureLassoCohen()
	if vPick(0, 1) == 0 {
		tg = pl
	} else {
		c := NewCLassoCohen()
		c.Eta = 0.75
		pl = c.PLasso
		tg = c
	}
	pl.Dset, pl.Lamb, pl.MaxIter, pl.Tol, pl.Correction, pl.lasso = n, lamb, 33, 0.125, corr, solver
	var cov Empirical
	pl.Cov = &cov
	h := tg.HyperParameters()
	vEq(h["lamb"], lamb, "the penalty is reported")
	if len(h) > 1 {
		vEq(h["eta"], 0.75, "the strength of the correction is reported")
	}
	for rep := 0; rep < 2; rep++ {
		idx := []int{3, 0, 2}
		if rep == 1 {
			idx = []int{1, 2, 0}
		}
		for f := 1; f < 3; f++ {
			vAssume(vhC19var(d, 3, f, idx) >= 1e-3)
		}
		vAssume(vhC19var(y, 1, 0, idx) >= 1e-3)
		sel := tg.GetSelection(append([]int(nil), idx...))
		vAssert(calls == rep+1, "one lasso per selection")
		want := 0
		for j := range ret {
			if ret[j] != 0 {
				vAssert(want < len(sel) && sel[want] == j, "the features with nonzero coefficients are selected")
				want++
			}
		}
		vAssert(len(sel) == want, "no other features are selected")
		nr, nc := gotX.Dims()
		vAssert(nr == 3 && nc == 3 && len(gotY) == 3, "exactly the given rows are used")
		// the normalised rows are the given rows up to shift and positive scale
		vhC19same(d, 3, 1, idx, []float64{gotX.At(0, 1), gotX.At(1, 1), gotX.At(2, 1)})
		vhC19same(d, 3, 2, idx, []float64{gotX.At(0, 2), gotX.At(1, 2), gotX.At(2, 2)})
		vhC19same(y, 1, 0, idx, gotY)
	}
	for i := range d {
		vEq(n.X.At(i/3, i%3), d[i], "the dataset is not modified")
	}
	for i := range y {
		vEq(n.y[i], y[i], "the dataset is not modified")
	}
	vReach("targets")
}

func vhC19var(d []float64, st, f int, idx []int) float64 {
	m := 0.0
	for _, i := range idx {
		m += d[i*st+f]
	}
	m /= float64(len(idx))
	v := 0.0
	for _, i := range idx {
		v += (d[i*st+f] - m) * (d[i*st+f] - m)
	}
	return v / float64(len(idx)-1)
}

func vhC19same(d []float64, st, f int, idx []int, got []float64) {
	s := vSqrt(vhC19var(d, st, f, idx))
	for k := 1; k < len(idx); k++ {
		vEq((got[k]-got[0])*s, d[idx[k]*st+f]-d[idx[0]*st+f], "the lasso sees the normalised values of the given rows")
	}
}
