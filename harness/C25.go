package featselect

import "gonum.org/v1/gonum/mat"

// vhC25Bits: bit-array models of 1,7,8,9,17,20 (thorough also 16,33,65) features, every sequence of 2 (thorough up to 9 features: 3) set/flip operations.
//verif:harness real budgetT=800
func vhC25Bits() {
	sizes := []int{1, 7, 8, 9, 17, 20, 16, 33, 65}
	n := sizes[vPick(0, 5+3*vTier())]
	m := NewModel(n)
	ref := make([]bool, n)
	ops := 2
	if n < 10 && vTier() == 1 {
		ops = 3
	}
	for k := 0; k < ops; k++ {
		i := vInt(0, n-1)
		flip := vBool()
		if flip {
			m.Flip(i)
		} else {
			m.Set(i)
		}
		for j := range ref {
			if j == i {
				if flip {
					ref[j] = !ref[j]
				} else {
					ref[j] = true
				}
			}
		}
	}
	for j := range ref {
		vAssert(m.Get(j) == ref[j], "every bit has the value last set or flipped there")
	}
	b := m.ToBools()
	vAssert(len(b) == n, "one bool per feature")
	for j := range ref {
		vAssert(b[j] == ref[j], "the boolean list matches the bits")
	}
	vReach("bits")
	vObs("b", b)
}

// vhC25Model: every boolean model with up to 5 (thorough 7) features: selection, conversions, expanded coefficients, design matrix and column view.
//verif:harness real
func vhC25Model() {
	p := vPick(1, 5+2*vTier())
	nr := vPick(1, 2)
	model := make([]bool, p)
	k := 0
	for i := range model {
		model[i] = vBool()
	}
	var want []int
	for i, v := range model {
		if v {
			want = append(want, i)
			k++
		}
	}
	vAssert(NumFeatures(model) == k, "number of features")
	sel := SelectedFeatures(model)
	vAssert(len(sel) == k, "one entry per selected feature")
	for i := range want {
		vAssert(sel[i] == want[i], "selected features ascending")
	}
	back := Selected2Model(sel, p)
	vAssert(len(back) == p, "model length")
	for i := range model {
		vAssert(back[i] == model[i], "selection and model describe the same features")
	}
	coef := make([]float64, k)
	for i := range coef {
		coef[i] = vReal()
	}
	full := FullCoeffVector(p, sel, coef)
	node := NewNode(0, model)
	vAssert(len(node.Coeff) == k, "a new node has room for one coefficient per feature")
	node.Coeff = coef
	sp := node.ToSparseCoeff()
	vAssert(len(sp.Selection) == k && len(sp.Coeff) == k, "sparse coefficients")
	vAssert(len(full) == p, "expanded coefficients")
	c := 0
	for i := range model {
		if model[i] {
			vEq(full[i], coef[c], "expanded coefficient of a selected feature")
			vAssert(sp.Selection[c] == i, "sparse selection ascending")
			vEq(sp.Coeff[c], coef[c], "sparse coefficient")
			c++
		} else {
			vEq(full[i], 0.0, "expanded coefficient of an unselected feature is zero")
		}
	}
	d := make([]float64, nr*p)
	for i := range d {
		d[i] = vReal()
	}
	X := mat.NewDense(nr, p, d)
	if k > 0 {
		D := GetDesignMatrix(model, X)
		r, cc := D.Dims()
		vAssert(r == nr && cc == k, "design matrix dimensions")
		V := NewIndexedColView(X, want)
		vr, vc := V.Dims()
		vAssert(vr == nr && vc == k, "view dimensions")
		T := V.T()
		tr, tc := T.Dims()
		vAssert(tr == k && tc == nr, "transposed view dimensions")
		for i := 0; i < nr; i++ {
			for j := 0; j < k; j++ {
				vEq(D.At(i, j), d[i*p+want[j]], "design matrix holds the selected columns in order")
				vEq(V.At(i, j), d[i*p+want[j]], "column view shows the selected columns in order")
				vEq(T.At(j, i), d[i*p+want[j]], "transposed column view")
			}
		}
	} else {
		vAssert(vPanics(func() { GetDesignMatrix(model, X) }), "an empty model has no design matrix")
	}
	vReach("model")
	vObs("k", k)
}

// vhC25Vec: slice vectors and row-indexed vectors with up to 4 entries and every index list of up to 3 entries.
//verif:harness real
func vhC25Vec() {
	n := vPick(1, 4)
	d := make([]float64, n)
	for i := range d {
		d[i] = vReal()
	}
	v := NewSliceVec(d)
	r, c := v.Dims()
	vAssert(r == n && c == 1 && v.Len() == n, "slice vector dimensions")
	T := v.T()
	tr, tc := T.Dims()
	vAssert(tr == 1 && tc == n, "transposed slice vector dimensions")
	for i := range d {
		vEq(v.AtVec(i), d[i], "slice vector entry")
		vEq(v.At(i, 0), d[i], "slice vector entry")
		vEq(T.At(0, i), d[i], "transposed slice vector entry")
	}
	k := vPick(0, 3)
	rows := make([]int, k)
	for i := range rows {
		rows[i] = vInt(0, n-1)
	}
	w := NewIndexedColVecView(v, rows)
	wr, wc := w.Dims()
	vAssert(wr == k && wc == 1 && w.Len() == k, "vector view dimensions")
	for i, q := range rows {
		vEq(w.AtVec(i), d[q], "vector view entry")
		vEq(w.At(i, 0), d[q], "vector view entry")
		vEq(w.T().At(0, i), d[q], "transposed vector view entry")
	}
	vReach("vec")
}

// vhC25Wide: bit-array models of 64, 256, 300 and 1000 features, every sequence of 3 set/flip operations at 8 places (around bytes, words and the ends).
//verif:harness real
func vhC25Wide() {
	n := []int{64, 256, 300, 1000}[vPick(0, 3)]
	m := NewModel(n)
	ref := make([]bool, n)
	at := []int{0, 7, 8, 31, 32, 63, 255, 256, n / 2, n - 1}
	for k := 0; k < 3; k++ {
		i := at[vPick(0, len(at)-1)]
		vAssume(i < n)
		if vPick(0, 1) == 1 {
			m.Flip(i)
			ref[i] = !ref[i]
		} else {
			m.Set(i)
			ref[i] = true
		}
	}
	b := m.ToBools()
	vAssert(len(b) == n, "one bool per feature")
	for j := range ref {
		vAssert(m.Get(j) == ref[j], "every bit has the value last set or flipped there")
		vAssert(b[j] == ref[j], "the boolean list matches the bits")
	}
	vReach("wide")
}
