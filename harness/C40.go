package featselect

//uses lib_fit.go
//uses lib_svd.go
//uses lib_plot.go

import (
	"bytes"
	"encoding/json"
	"math"
	"os"

	"gonum.org/v1/gonum/mat"
)

// vhC40 remembers values and compares them later
type vhC40 struct {
	f  []*float64
	fv []float64
	fm []string
	i  []*int
	iv []int
	im []string
	b  []*bool
	bv []bool
	bm []string
	s  []*string
	sv []string
	sm []string
}

func (k *vhC40) floats(what string, s []float64) {
	for q := range s {
		k.f, k.fv, k.fm = append(k.f, &s[q]), append(k.fv, s[q]), append(k.fm, what)
	}
}
func (k *vhC40) ints(what string, s []int) {
	for q := range s {
		k.i, k.iv, k.im = append(k.i, &s[q]), append(k.iv, s[q]), append(k.im, what)
	}
}
func (k *vhC40) bools(what string, s []bool) {
	for q := range s {
		k.b, k.bv, k.bm = append(k.b, &s[q]), append(k.bv, s[q]), append(k.bm, what)
	}
}
func (k *vhC40) texts(what string, s []string) {
	for q := range s {
		k.s, k.sv, k.sm = append(k.s, &s[q]), append(k.sv, s[q]), append(k.sm, what)
	}
}
func (k *vhC40) matrix(what string, m *mat.Dense) { k.floats(what, m.RawMatrix().Data) }

func (k *vhC40) same(after string) {
	for q, p := range k.f {
		vAssert(*p == k.fv[q], k.fm[q]+" unchanged after "+after)
	}
	for q, p := range k.i {
		vAssert(*p == k.iv[q], k.im[q]+" unchanged after "+after)
	}
	for q, p := range k.b {
		vAssert(*p == k.bv[q], k.bm[q]+" unchanged after "+after)
	}
	for q, p := range k.s {
		vAssert(*p == k.sv[q], k.sm[q]+" unchanged after "+after)
	}
	vReach(after)
}

func vhC40floats(n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = vFloat(-10, 10)
	}
	return r
}

func vhC40scribble(r []float64) {
	for i := range r {
		r[i] += 1234.5
	}
}

// vhC40Linear: predictions, sums of squares, products and covariances of 3x2 arbitrary data, arbitrary coefficients and targets.
//verif:harness real
func vhC40Linear() {
	var k vhC40
	X := mat.NewDense(3, 2, vhC40floats(6))
	c, y := vhC40floats(2), vhC40floats(3)
	k.matrix("the data", X)
	k.floats("the coefficients", c)
	k.floats("the target", y)
	switch vPick(0, 13) {
	case 0:
		PredictOne(c, y[:2])
		k.same("PredictOne")
	case 1:
		vhC40scribble(Predict(X, c))
		k.same("Predict")
	case 2:
		Rss(X, c, y)
		k.same("Rss")
	case 3:
		vhC40scribble(MulSlice(X, c))
		k.same("MulSlice")
	case 4:
		vhC40scribble(CovarianceMatrix(X).RawMatrix().Data)
		k.same("CovarianceMatrix")
	case 5:
		var e Empirical
		e.Get(X)
		k.same("Empirical.Get")
	case 6:
		var e Identity
		e.Get(X)
		k.same("Identity.Get")
	case 7:
		a, b := RandomRowSplit(X, vPick(1, 2))
		vhC40scribble(a.RawMatrix().Data)
		vhC40scribble(b.RawMatrix().Data)
		k.same("RandomRowSplit")
	case 8:
		m := []bool{vBool(), vBool()}
		vAssume(m[0] || m[1])
		k.bools("the model", m)
		D := GetDesignMatrix(m, X)
		D.Dims()
		D.At(0, 0)
		k.same("GetDesignMatrix")
	case 9:
		o := [][]int{{0, 1}, {1, 0}, {1}, {0}}[vPick(0, 3)]
		k.ints("the order", o)
		vhC40scribble(RearrangeDense(X, o).RawMatrix().Data)
		k.same("RearrangeDense")
	case 10:
		sel := [][]int{{0, 1}, {1, 0}, {1}}[vPick(0, 2)]
		k.ints("the columns", sel)
		v := NewIndexedColView(X, sel)
		v.At(2, 0)
		v.Dims()
		v.T().At(0, 1)
		w := NewIndexedColVecView(mat.NewVecDense(2, c), sel)
		w.AtVec(0)
		w.At(0, 0)
		w.Len()
		w.T().Dims()
		s := NewSliceVec(c)
		s.AtVec(1)
		s.T().At(0, 1)
		k.same("the views")
	case 11:
		p := vPick(1, 3)
		L := NewLazyMatrix(X, p)
		vhC40scribble(L.GetCol(0))
		vhC40scribble(L.FullMatrix().RawMatrix().Data)
		k.same("NewLazyMatrix")
	case 12:
		d := mat.NewDense(3, 3, vhC40floats(9))
		for i := 0; i < 3; i++ {
			d.Set(i, i, vFloat(-1, 0.5))
		}
		z := vhC40floats(3)
		k.matrix("the denominator", d)
		k.floats("the predictions", z)
		Gcv(d, y, z)
		k.same("Gcv")
	case 13:
		A := mat.NewDense(2, 2, vhC40floats(4))
		B := mat.NewDense(2, 2, vhC40floats(4))
		k.matrix("the first matrix", A)
		k.matrix("the second matrix", B)
		ch := make(chan ValueGridPt, 1)
		CalculateFNormDiff(A, B, vPick(0, 2), 3.5, ch)
		<-ch
		k.same("CalculateFNormDiff")
	}
}

// vhC40Lists: helpers on lists of 3 arbitrary numbers or of small integers, 4 features.
//verif:harness real
func vhC40Lists() {
	var k vhC40
	v := vhC40floats(3)
	a := []int{vInt(0, 3), vInt(0, 3), vInt(0, 3)}
	b := []int{vInt(0, 3), vInt(0, 3)}
	m := []bool{vBool(), vBool(), vBool(), vBool()}
	k.floats("the list", v)
	k.ints("the first list", a)
	k.ints("the second list", b)
	k.bools("the model", m)
	switch vPick(0, 14) {
	case 0:
		for _, i := range Argsort(v) {
			vAssert(i >= 0 && i < 3, "positions")
		}
		k.same("Argsort")
	case 1:
		Argmin(v)
		Argmax(v)
		MinFloat(v)
		k.same("the extrema of numbers")
	case 2:
		Mean(v)
		k.same("Mean")
	case 3:
		Std([]float64{v[0], v[1]})
		w := []float64{3, 1, 4, 1, 5}
		k.floats("the list", w)
		Std(w)
		k.same("Std")
	case 4:
		MaxInt(a)
		MinInt(a)
		Sum(a)
		k.same("the extrema and sum of integers")
	case 5:
		ExistInt(a, b[0])
		All(a, 1)
		EqualInt(a, b)
		EqualInt(a, a)
		k.same("the comparisons of lists")
	case 6:
		vAssume(a[0] < a[1] && a[1] < a[2] && b[0] < b[1])
		CohenKappa(a, b, 5)
		k.same("CohenKappa")
	case 7:
		u := UnionInt(make([]int, 0, 8), b)
		for i := range u {
			u[i] = 77
		}
		k.same("UnionInt")
	case 8:
		for _, r := range IterProduct(a, 2) {
			r[0] = 77
		}
		k.same("IterProduct")
	case 9:
		NumFeatures(m)
		for _, r := range [][]int{SelectedFeatures(m)} {
			for i := range r {
				r[i] = 77
			}
		}
		k.same("the model helpers")
	case 10:
		s := vPick(0, 4)
		for _, r := range [][]bool{Gcs(m, s), Lcs(m, s)} {
			for i := range r {
				r[i] = !r[i]
			}
		}
		k.same("Gcs and Lcs")
	case 11:
		r := Selected2Model(a, 4)
		for i := range r {
			r[i] = !r[i]
		}
		k.same("Selected2Model")
	case 12:
		it := NewSAItem(m)
		for i := range it.Selection {
			it.Selection[i] = 77
		}
		k.same("NewSAItem")
	case 13:
		w := []float64{v[0], v[1]}
		sp := []SparseCoeff{{Selection: []int{0, 2}, Coeff: vhC40floats(2)}, {Selection: []int{1}, Coeff: vhC40floats(1)}}
		k.floats("the weights", w)
		for i := range sp {
			k.ints("the selection", sp[i].Selection)
			k.floats("the coefficients", sp[i].Coeff)
		}
		vhC40scribble(WeightedAveragedCoeff(3, w, sp))
		vhC40scribble(FullCoeffVector(3, sp[0].Selection, sp[0].Coeff))
		k.same("averaging")
	case 14:
		vhC40scribble(WeightsFromAIC(v))
		k.same("WeightsFromAIC")
	}
}

// vhC40Fit: least squares, the generalised cross validation matrix and the pseudo-inverse based estimator for any 3x2 matrix and target.
//verif:harness real
func vhC40Fit() {
	var k vhC40
	X, _, _, _ := vhSVDMatrix(3, 2)
	y := vhC40floats(3)
	k.matrix("the data", X)
	k.floats("the target", y)
	switch vPick(0, 2) {
	case 0:
		vhC40scribble(Fit(X, y))
		k.same("Fit")
	case 1:
		vhC40scribble(DenumMatrixGcv(X).RawMatrix().Data)
		k.same("DenumMatrixGcv")
	case 2:
		act := []int{0, 1}
		sg := vhC40floats(2)
		k.ints("the active set", act)
		k.floats("the signs", sg)
		var e MorsePenroseCD
		e.SetX(X)
		e.SetActiveSet(act)
		vhC40scribble(e.C(mat.NewVecDense(3, y)).RawVector().Data)
		vhC40scribble(e.D(mat.NewVecDense(2, sg)).RawVector().Data)
		k.same("the estimator")
	}
}

// vhC40Search: bounds, children and searches for models on fixed designs, arbitrary or fixed targets.
//verif:harness real delay=0 budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC40Search() {
	var k vhC40
	X := vhDesign(0)
	y := []float64{1, 2, 3, 4}
	what := vPick(0, 5)
	if what <= 2 {
		y = vhC40floats(4)
	}
	k.matrix("the data", X)
	k.floats("the target", y)
	switch what {
	case 0, 1:
		m := []bool{vBool(), vBool(), vBool()}
		vAssume(m[0] || m[1] || m[2])
		k.bools("the model", m)
		if what == 0 {
			BoundsAIC(m, vPick(0, 3), X, y)
			k.same("BoundsAIC")
		} else {
			BoundsAICC(m, vPick(0, 3), X, y)
			k.same("BoundsAICC")
		}
	case 2:
		n := NewNode(vPick(0, 2), []bool{true, vBool(), vBool()})
		n.Lower, n.Upper, n.Score = -1e9, 1e9, 0
		k.bools("the model", n.Model)
		k.floats("the coefficients", n.Coeff)
		lv, lo, up, sc := n.Level, n.Lower, n.Upper, n.Score
		c := CreateChild(n, vBool(), X, y, 0, NewHighscore(10))
		if c != nil {
			for i := range c.Model {
				c.Model[i] = !c.Model[i]
			}
			vhC40scribble(c.Coeff)
		}
		vAssert(n.Level == lv && n.Lower == lo && n.Upper == up && n.Score == sc, "the parent is unchanged after CreateChild")
		k.same("CreateChild")
	case 3:
		root := []bool{true, false, vPick(0, 1) == 1}
		k.bools("the start model", root)
		p := NewSelectModelOptParams()
		p.RootModel = root
		h := NewHighscore(10)
		SelectModel(X, y, h, &SearchProgress{}, p)
		k.same("SelectModel")
	case 4:
		BruteForceSelect(X, y)
		k.same("BruteForceSelect")
	case 5:
		vhC40scribble(Omp(X, y, vFloat(0, 1)).Coeff)
		k.same("Omp")
	}
}

// vhC40Anneal: the annealing search on fixed data (6 data points, 2 features), every walk that ends within 5 (thorough 6) evaluations.
//verif:harness real budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC40Anneal() {
	var k vhC40
	X := mat.NewDense(6, 2, []float64{1, 2, 1, -1, 1, 0, 1, 1, 1, 3, 1, -2})
	y := []float64{1, 2, 3, 5, -1, 0}
	k.matrix("the data", X)
	k.floats("the target", y)
	left := 5 + vTier()
	r := SelectModelSA(X, y, 1, func(nf, n int, rss float64) float64 {
		left--
		vAssume(left >= 0)
		return rss + 10*float64(nf)
	})
	vhC40scribble(r.Coeff)
	k.same("SelectModelSA")
}

// vhC40norm gives normalised data with 5 rows: a constant column and two others
func vhC40norm(y []float64) *NormalizedData {
	return &NormalizedData{X: mat.NewDense(5, 3, []float64{0, 1, 1, 0, -1, 1, 0, 1, -1, 0, -1, -1, 0, 0, 0}), y: y,
		std: []float64{0, 2, 3}, mu: []float64{1, 4, 5}, stdY: 1.5, muY: 7, HasBias: true}
}

func (k *vhC40) norm(d *NormalizedData) {
	k.matrix("the normalised data", d.X)
	k.floats("the normalised target", d.y)
	k.floats("the deviations", d.std)
	k.floats("the means", d.mu)
}

// vhC40Lasso: the lasso solvers (penalties in any order) and what they are built from on fixed normalised data, arbitrary targets, start points, penalties.
//verif:harness real delay=0 budget=100 budgetT=600
func vhC40Lasso() {
	var k vhC40
	what := vPick(0, 6)
	var y []float64
	if what == 0 || what == 4 {
		y = vhC40floats(5)
	} else {
		y = []float64{1, 0, 1, -1, -1}
	}
	d := vhC40norm(y)
	k.norm(d)
	k.floats("the scales", []float64{d.stdY, d.muY})
	sy, my, hb := d.stdY, d.muY, d.HasBias
	var cov Empirical
	switch what {
	case 0:
		x0 := vhC40floats(3)
		k.floats("the start point", x0)
		corr := []LassoCorrection{&PureLasso{}, &ElasticNet{Lamb: 0.25}}[vPick(0, 1)]
		vhC40scribble(LassoCrdDesc(d, vFloat(0.1, 1), &cov, x0, 1, 1e-6, corr))
		k.same("LassoCrdDesc")
	case 1:
		lambs := [][]float64{{0.125, 0.25, 0.5}, {0.5, 0.25, 0.125}, {0.25, 0.5, 0.125}}[vPick(0, 2)]
		k.floats("the penalties", lambs)
		cl := NewCLasso(3, 0.25)
		cl.Update([]float64{0, 1, 2})
		k.floats("the state of the correction", cl.beta)
		for _, n := range LassoCrdDescPath(d, &cov, lambs, 3, 1e-6, cl) {
			vhC40scribble(n.Coeff)
		}
		k.same("LassoCrdDescPath")
	case 2:
		for _, n := range LassoLars(d, 0.25, &vhC40CD{}) {
			vhC40scribble(n.Coeff)
			for i := range n.Selection {
				n.Selection[i] = 77
			}
		}
		k.same("LassoLars")
	case 3:
		sel := []int{1, 2}
		c := vhC40floats(2)
		k.ints("the selection", sel)
		k.floats("the coefficients", c)
		d.LinearNormalizationTransformation(1, c[0])
		d.LinearTransformationBias(sel, c)
		k.same("the change of units")
		Path2Unnormalized(d, []*LassoLarsNode{NewLassoLarsNode(c, 0.5, sel)})
		k.same("a path built from them changed its units")
	case 4:
		c := mat.NewDense(3, 3, vhC40floats(9))
		b, dot, xy := vhC40floats(3), vhC40floats(3), vhC40floats(3)
		k.matrix("the covariances", c)
		k.floats("the coefficients", b)
		k.floats("X'y", xy)
		UpdateCovDotBeta(c, dot, 1, b[1], b[2])
		dot2 := vhC40floats(3)
		k.floats("the products", dot2)
		vAssume(b[0] != 0)
		UnsatisfiedKKTConditions(mat.NewVecDense(3, xy), dot2, b, 0.25, &ElasticNet{Lamb: 0.5})
		k.same("the optimality check")
	case 5:
		b, s := vhC40floats(3), vhC40floats(3)
		cl := NewCLasso(3, 0.25)
		k.floats("the coefficients", b)
		cl.Update(s)
		k.floats("the last coefficients", s)
		k.floats("the state", cl.beta)
		cl.Deriv(b, 1)
		(&PureLasso{}).Update(b)
		(&PureLasso{}).Deriv(b, 1)
		(&ElasticNet{Lamb: 2}).Update(b)
		(&ElasticNet{Lamb: 2}).Deriv(b, 1)
		k.same("the corrections")
		vhC40scribble(s)
		k.fv, k.f, k.fm = k.fv[:len(k.fv)-6], k.f[:len(k.f)-6], k.fm[:len(k.fm)-6]
		k.floats("the remembered coefficients", cl.beta)
		for i := range s {
			vAssert(cl.beta[i] == s[i]-1234.5, "the remembered coefficients do not follow the list they came from")
		}
	case 6:
		p := NewPureLassoCohen()
		p.Dset, p.Lamb, p.Cov, p.MaxIter, p.Tol, p.Correction = d, 0.5, &cov, 5, 1e-3, &PureLasso{}
		p.lasso = func(q *NormalizedData, lamb float64, cov CovMat, x0 []float64, maxIter int, tol float64, corr LassoCorrection) []float64 {
			return []float64{0, 1, 0}
		}
		p.Dset.X.SetCol(0, []float64{1, 1, 1, 1, 1})
		k = vhC40{}
		k.norm(d)
		rows := [][]int{{0, 1, 2, 3}, {3, 1, 0, 2}, {4, 3, 2, 1, 0}}[vPick(0, 2)]
		k.ints("the rows", rows)
		p.GetSelection(rows)
		p.HyperParameters()
		p.StringRep()
		p.GetX().At(0, 0)
		k.same("GetSelection")
	}
	vAssert(d.stdY == sy && d.muY == my && d.HasBias == hb, "the scales are unchanged")
}

// vhC40CD is the exact estimator for the orthogonal columns of vhC40norm (X'X = 4 I)
type vhC40CD struct {
	X   mat.Matrix
	act []int
}

func (m *vhC40CD) SetX(X mat.Matrix)       { m.X = X }
func (m *vhC40CD) SetActiveSet(act []int)  { m.act = append([]int(nil), act...) }
func (m *vhC40CD) D(s mat.Vector) *mat.VecDense {
	r := mat.NewVecDense(len(m.act), nil)
	for i := range m.act {
		r.SetVec(i, s.AtVec(i)/4)
	}
	return r
}
func (m *vhC40CD) C(y mat.Vector) *mat.VecDense {
	r := mat.NewVecDense(len(m.act), nil)
	for i, f := range m.act {
		t := 0.0
		for q := 0; q < y.Len(); q++ {
			t += m.X.At(q, f) * y.AtVec(q)
		}
		r.SetVec(i, t/4)
	}
	return r
}

func vhC40data(nr, nf int) *Dataset {
	d := &Dataset{X: mat.NewDense(nr, nf, vhC40floats(nr*nf)), Y: vhC40floats(nr), TargetCol: vPick(0, nf)}
	for i := 0; i <= nf; i++ {
		d.Names = append(d.Names, string(rune('a'+i)))
	}
	return d
}

func (k *vhC40) data(d *Dataset) func(string) {
	k.matrix("the data", d.X)
	k.floats("the target", d.Y)
	k.texts("the names", d.Names)
	X, n, ny, t := d.X, len(d.Names), len(d.Y), d.TargetCol
	return func(what string) {
		vAssert(d.X == X && len(d.Names) == n && len(d.Y) == ny && d.TargetCol == t, "the dataset is unchanged after "+what)
		k.same(what)
	}
}

// vhC40Dataset: operations on datasets of 2 data points and 2 features with the target anywhere, ordinary, empty, padded and quoted names, arbitrary values.
//verif:harness real
func vhC40Dataset() {
	var k vhC40
	d := vhC40data(2, 2)
	what := vPick(0, 5)
	if what != 3 {
		d.Names[vPick(0, 2)] = []string{"x", "", " b ", "c,d", "A"}[vPick(0, 4)]
	}
	same := k.data(d)
	switch what {
	case 0:
		c := d.Copy()
		vhC40scribble(c.X.RawMatrix().Data)
		vhC40scribble(c.Y)
		c.Names[1] = "other"
		c.TargetCol = 77
		same("Copy")
	case 1:
		f := [][]int{{0}, {1, 0}, {1}}[vPick(0, 2)]
		k.ints("the features", f)
		c := d.GetSubset(f)
		vhC40scribble(c.X.RawMatrix().Data)
		vhC40scribble(c.Y)
		c.Names[0] = "other"
		c.TargetCol = 77
		same("GetSubset")
	case 2:
		d.GetFeatName(0)
		d.GetFeatName(1)
		d.FeatNoByName(d.Names[0])
		same("the names are asked for")
	case 3:
		d.TargetCol = 1
		c := d.Copy()
		c.X.Set(vPick(0, 1), vPick(0, 1), vFloat(-10, 10))
		c.Y[vPick(0, 1)] = vFloat(-10, 10)
		same = k.data(d)
		var k2 vhC40
		same2 := k2.data(c)
		d.IsEqual(c)
		c.IsEqual(d)
		same2("IsEqual (second dataset)")
		same("IsEqual")
	case 4:
		_, err := json.Marshal(d)
		vAssert(err == nil, "the dataset is encoded")
		same("encoding")
	case 5:
		var buf bytes.Buffer
		d.SaveHandle(&buf)
		same("SaveHandle")
	}
}

func vhC40path(rows int) (*LassoLarsPath, *vhC40, func(string)) {
	k := &vhC40{}
	p := &LassoLarsPath{}
	p.Dset = &Dataset{X: mat.NewDense(rows, 3, []float64{1, 2, -1, 1, 0, 3, 1, -2, 0.5}[:3*rows]), Y: append([]float64{vFloat(500, 1000)}, vhC40floats(rows-1)...), TargetCol: 1, Names: []string{"a", "b", "c", "d"}}
	sels := [][]int{{2}, {2, 1}, {1, 2, 0}}
	nn := 3
	for i := 0; i < nn; i++ {
		n := NewLassoLarsNode(vhC40floats(i+1), 10/float64(i+1), sels[i])
		p.LassoLarsNodes = append(p.LassoLarsNodes, n)
	}
	same := k.data(p.Dset)
	nodes := append([]*LassoLarsNode(nil), p.LassoLarsNodes...)
	for _, n := range nodes {
		k.floats("the coefficients", n.Coeff)
		k.ints("the selection", n.Selection)
	}
	lamb := []float64{nodes[0].Lamb, nodes[1].Lamb, nodes[2].Lamb}
	return p, k, func(what string) {
		vAssert(len(p.LassoLarsNodes) == nn, "the path is unchanged after "+what)
		for i, n := range p.LassoLarsNodes {
			vAssert(n == nodes[i] && n.Lamb == lamb[i] && len(n.Coeff) == i+1 && len(n.Selection) == i+1, "the path is unchanged after "+what)
		}
		same(what)
	}
}

// vhC40Path: what is read off a path of 3 nodes over 3 features with arbitrary coefficients and targets; plots, rankings and encodings.
//verif:harness real budget=100 budgetT=600 redirect=gonum.org/v1/plot.New:vhPlotNew nodedupe
func vhC40Path() {
	what := vPick(0, 10)
	rows := 2
	if what == 6 {
		rows = 3
	}
	p, k, same := vhC40path(rows)
	switch what {
	case 0:
		vhC40scribble(p.GetCriteria(func(nf, n int, r float64) float64 { return r + float64(nf) }))
		same("GetCriteria")
	case 1:
		p.MaxMinFeatNo()
		same("MaxMinFeatNo")
	case 2:
		xy := p.ExtractPath(vPick(0, 3))
		for i := range xy {
			xy[i].X, xy[i].Y = 77, 77
		}
		same("ExtractPath")
	case 3:
		r := p.PickMostRelevantFeatures(vPick(1, 3))
		for i := range r {
			r[i] = 77
		}
		same("PickMostRelevantFeatures")
	case 4:
		p.PlotPath(nil)
		same("PlotPath")
	case 5:
		p.PlotEntranceTimes()
		same("PlotEntranceTimes")
	case 6:
		p.PlotQualityScores()
		same("PlotQualityScores")
	case 7:
		p.PlotDeviations()
		same("PlotDeviations")
	case 8:
		_, err := json.Marshal(p)
		vAssert(err == nil, "the path is encoded")
		same("encoding a path")
	case 9:
		for _, s := range LassoNodesSlice2SparsCoeff(p.LassoLarsNodes) {
			FullCoeffVector(3, s.Selection, s.Coeff)
		}
		same("LassoNodesSlice2SparsCoeff")
	case 10:
		a, b := vhC40floats(3), vhC40floats(3)
		k.floats("the AICc values", a)
		k.floats("the BIC values", b)
		out := os.Stdout
		f, err := os.Create("vh_c40_out.txt")
		vAssert(err == nil, "a file for the output")
		os.Stdout = f
		PrintHighscore(p, a, b, vPick(1, 3))
		os.Stdout = out
		f.Close()
		os.Remove("vh_c40_out.txt")
		same("PrintHighscore")
	}
}

// vhC40Nested: the nested lasso on 3 features with fixed data, the path found in every round replaced.
//verif:harness real stub=LassoLars:vhC40Lars stub=PrintHighscore:vhC40Quiet
func vhC40Nested() {
	var k vhC40
	vhC40round = 0
	d := &Dataset{X: mat.NewDense(5, 5, nil), Y: []float64{6, 4, 6, 2, 2}, TargetCol: vPick(0, 5), Names: []string{"a", "b", "c", "d", "e", "f"}}
	cols := [][]float64{{1, -1, 1, -1, 0}, {1, 1, -1, -1, 0}, {0, 1, -1, 1, -1}, {1, 0, -1, -1, 1}}
	for i := 0; i < 5; i++ {
		d.X.Set(i, 0, 1)
		for j := range cols {
			d.X.Set(i, j+1, 3+2*cols[j][i])
		}
	}
	same := k.data(d)
	r := NestedLasso(d, 0.0625, 0.75, &MorsePenroseCD{})
	for _, p := range r.Paths {
		for _, n := range p.Nodes {
			vhC40scribble(n.Coeff)
			for i := range n.Selection {
				n.Selection[i] = 77
			}
		}
	}
	same("NestedLasso")
}

var vhC40round int

func vhC40Lars(data *NormalizedData, lambMin float64, estimator CDParam) []*LassoLarsNode {
	vhC40round++
	_, nc := data.X.Dims()
	sel, cf := []int{}, []float64{}
	var res []*LassoLarsNode
	for j := 1; j < nc; j++ {
		sel = append(sel, j)
		cf = append(cf, vFloat(-3, 3))
		res = append(res, NewLassoLarsNode(append([]float64(nil), cf...), 10/float64(j), append([]int(nil), sel...)))
	}
	return res
}

func vhC40Quiet(path *LassoLarsPath, aicc []float64, bic []float64, num int) {}

// vhC40Nodes: nodes, lists of the best models and their encodings: 3 features, arbitrary coefficients and scores.
//verif:harness real
func vhC40Nodes() {
	var k vhC40
	n := NewNode(1, []bool{true, vBool(), vBool()})
	for i := range n.Coeff {
		n.Coeff[i] = vFloat(-10, 10)
	}
	n.Score, n.Lower, n.Upper = vFloat(-10, 10), vFloat(-10, 10), vFloat(-10, 10)
	m := NewNode(1, []bool{true, vBool(), false})
	m.Score = vFloat(-10, 10)
	k.bools("the model", n.Model)
	k.floats("the coefficients", n.Coeff)
	k.bools("the second model", m.Model)
	k.floats("the second coefficients", m.Coeff)
	a, b := *n, *m
	what := ""
	switch vPick(0, 6) {
	case 0:
		n.Level = vPick(0, 2)
		a.Level = n.Level
		c := n.GetChildNode(vBool())
		for i := range c.Model {
			c.Model[i] = !c.Model[i]
		}
		what = "GetChildNode"
	case 1:
		NodesEqual(n, m)
		NodesEqual(m, n)
		NodesEqual(n, n)
		what = "NodesEqual"
	case 2:
		n.ToSparseCoeff()
		n.EstimateMemory()
		what = "ToSparseCoeff"
	case 3:
		_, err := json.Marshal(n)
		vAssert(err == nil, "the node is encoded")
		what = "encoding a node"
	case 4:
		h, g := NewHighscore(3), NewHighscore(3)
		h.Insert(n)
		h.Insert(m)
		g.Insert(m)
		vhC40scribble(h.Scores())
		h.BestScore()
		h.Equal(g)
		_, err := json.Marshal(h)
		vAssert(err == nil, "the list is encoded")
		vAssert(h.Len() == 2 && g.Len() == 1 && h.MaxItems == 3, "the list is unchanged")
		hi, lo := n, m
		if m.Score > n.Score {
			hi, lo = m, n
		}
		vAssert(h.Items.Front().Value.(*Node).Score == hi.Score && h.Items.Back().Value.(*Node).Score == lo.Score, "the list is unchanged")
		what = "reading a list"
	case 5:
		sm := []bool{true, vBool(), vBool()}
		it, other := NewSAItem(sm), NewSAItem([]bool{true, false, false})
		it.Score, other.Score = vFloat(-10, 10), vFloat(-10, 10)
		for i := range it.Coeff {
			it.Coeff[i] = vFloat(-10, 10)
		}
		s := NewSAScore(4)
		s.Insert(other)
		k.ints("the selection", it.Selection)
		k.floats("the coefficients", it.Coeff)
		sc := it.Score
		s.Exists(it)
		vAssert(len(s.Items) == 1, "asking for an item adds none")
		s.Insert(it)
		vAssert(it.Score == sc, "an item keeps its score when it is inserted")
		what = "the annealing list"
	case 6:
		w := NewModel(3)
		w.Set(vPick(0, 2))
		g := []bool{w.Get(0), w.Get(1), w.Get(2)}
		r := w.ToBools()
		for i := range r {
			r[i] = !r[i]
		}
		for i := range g {
			vAssert(w.Get(i) == g[i], "a bit model does not follow the list read from it")
		}
		what = "ToBools"
	}
	k.same(what)
	vAssert(n.Score == a.Score && n.Lower == a.Lower && n.Upper == a.Upper && n.Level == a.Level && n.WasFlipped == a.WasFlipped, "the node is unchanged after "+what)
	vAssert(m.Score == b.Score && m.Lower == b.Lower && m.Upper == b.Upper && m.Level == b.Level && m.WasFlipped == b.WasFlipped, "the second node is unchanged after "+what)
}

// vhC40Split replaces the random split by a fixed one
func vhC40Split(X mat.Matrix, num int) (*mat.Dense, *mat.Dense) {
	_, nc := X.Dims()
	return mat.NewDense(1, nc, nil), mat.NewDense(2, nc, nil)
}

// vhC40Threshold: the search for a threshold and Cohen's kappa on fixed data.
//verif:harness real delay=0 budget=100 budgetT=600
func vhC40Threshold() {
	var k vhC40
	X := mat.NewDense(4, 2, []float64{1, 2, -1, 0, 3, 1, 2, -2})
	k.matrix("the data", X)
	switch vPick(0, 2) {
	case 0:
		L2ConsistentCovTO(X, 1, 1, 4)
		k.same("L2ConsistentCovTO")
	case 1:
		t := &vhC40target{X: X}
		GetCohensKappa(1, t)
		k.same("GetCohensKappa")
	case 2:
		ts := []CohensKappaTarget{&vhC40target{X: X, id: 1}, &vhC40target{X: X, id: 2}}
		CalculateCohenSequence(1, ts)
		vAssert(ts[0].(*vhC40target).id == 1 && ts[1].(*vhC40target).id == 2, "the list of targets is unchanged")
		k.same("CalculateCohenSequence")
	}
}

type vhC40target struct {
	X  *mat.Dense
	id int
}

func (t *vhC40target) GetX() mat.Matrix { return t.X }
func (t *vhC40target) GetSelection(idx []int) []int {
	if idx[0]%2 == 0 {
		return []int{0}
	}
	return []int{0, 1}
}
func (t *vhC40target) HyperParameters() map[string]float64 { return map[string]float64{"id": float64(t.id)} }
func (t *vhC40target) StringRep() string                   { return "t" }

var _ = math.Abs
