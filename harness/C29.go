package featselect

import "math"

// vhC29Weights: weights of 1..4 (thorough 5) criterion values, each an arbitrary number in [-690,690] written as log t.
//verif:harness real
func vhC29Weights() {
	n := vPick(1, 4+vTier())
	t := make([]float64, n)
	a := make([]float64, n)
	for i := range t {
		t[i] = vFloat(1e-300, 1e300)
		a[i] = math.Log(t[i])
	}
	w := WeightsFromAIC(a)
	vAssert(len(w) == n, "one weight per model")
	s := 0.0
	for i := range w {
		s += w[i]
	}
	for i := range w {
		vAssert(w[i] > 0, "weights are positive")
		for j := range w {
			if i < j {
				// w_i / w_j = exp(a_j - a_i) = t_j / t_i
				vEq(w[i]*t[i], w[j]*t[j], "weight ratios are exp of the difference of the criterion")
			}
		}
	}
	vEq(s, 1.0, "weights sum to one")
	for i := range a {
		vEq(a[i], math.Log(t[i]), "criterion values passed in are unchanged")
	}
	vReach("weights")
}

// vhC29Average: weighted average of up to 3 sparse coefficient sets over up to 3 (thorough 4) features equals the average of the expanded vectors.
//verif:harness real
func vhC29Average() {
	p := vPick(1, 3+vTier())
	m := vPick(0, 2)
	w := make([]float64, m)
	want := make([]float64, p)
	sets := make([]SparseCoeff, m)
	for i := range w {
		w[i] = vFloat(-100, 100)
		model := make([]bool, p)
		for j := range model {
			model[j] = vBool()
		}
		sel := []int{}
		for j, v := range model {
			if v {
				sel = append(sel, j)
			}
		}
		c := make([]float64, len(sel))
		for j := range c {
			c[j] = vFloat(-100, 100)
			want[sel[j]] += w[i] * c[j]
		}
		if len(sel) > 1 && vPick(0, 1) == 1 { // any order of the selection
			sel[0], sel[1] = sel[1], sel[0]
			c[0], c[1] = c[1], c[0]
		}
		sets[i] = SparseCoeff{Coeff: c, Selection: sel}
	}
	avg := WeightedAveragedCoeff(p, w, sets)
	vAssert(len(avg) == p, "one average per feature")
	for j := range avg {
		vEq(avg[j], want[j], "average of the expanded coefficient vectors")
	}
	vAssert(vPanics(func() { WeightedAveragedCoeff(p, append([]float64{1}, w...), sets) }), "inconsistent lengths are rejected")
	vReach("average")
	vObs("avg", avg)
}

// vhC29Wide: criterion values far from zero and far apart (IEEE floats): a common shift of up to 1e5 either way and differences of 0..600 among 3 models.
//verif:harness fp
func vhC29Wide() {
	base := []float64{0, 700, -700, 2000, -2000, 1e5, -1e5}[vPick(0, 6)]
	diff := []float64{0, 0.5, 2, 40, 600}
	a := make([]float64, 3)
	for i := range a {
		a[i] = base + diff[vPick(0, 4)]
	}
	o := append([]float64(nil), a...)
	w := WeightsFromAIC(a)
	s := 0.0
	for i := range w {
		vAssert(w[i] > 0 && w[i] <= 1, "weights are positive")
		vAssert(a[i] == o[i], "criterion values passed in are unchanged")
		s += w[i]
		for j := range w {
			r := w[i] / w[j] / math.Exp(o[j]-o[i])
			vAssert(r > 1-1e-9 && r < 1+1e-9, "weight ratios are exp of the difference of the criterion")
		}
	}
	vAssert(s > 1-1e-9 && s < 1+1e-9, "weights sum to one")
	vReach("wide")
}
