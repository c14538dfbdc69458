package featselect
//uses lib_svd.go

import "gonum.org/v1/gonum/mat"

// vhC16CD is an exact estimator: C = (Xe^T Xe)^-1 Xe^T y, D = (Xe^T Xe)^-1 s by elimination on concrete data.
type vhC16CD struct {
	X      mat.Matrix
	active []int
	inv    [][]float64
	c, d   [][]float64
	sets   [][]int
}

func (m *vhC16CD) SetX(X mat.Matrix) { m.X = X }

func (m *vhC16CD) SetActiveSet(active []int) {
	m.active = append([]int(nil), active...)
	m.sets = append(m.sets, m.active)
	k := len(active)
	n, _ := m.X.Dims()
	a := make([][]float64, k)
	for i := range a {
		a[i] = make([]float64, 2*k)
		for j := range active {
			for r := 0; r < n; r++ {
				a[i][j] += m.X.At(r, active[i]) * m.X.At(r, active[j])
			}
		}
		a[i][k+i] = 1
	}
	for c := 0; c < k; c++ {
		p := a[c][c]
		for j := range a[c] {
			a[c][j] /= p
		}
		for r := range a {
			if f := a[r][c]; r != c && f != 0 {
				for j := range a[r] {
					a[r][j] -= f * a[c][j]
				}
			}
		}
	}
	m.inv = nil
	for i := range a {
		m.inv = append(m.inv, a[i][k:])
	}
}

func (m *vhC16CD) mul(v []float64) []float64 {
	res := make([]float64, len(v))
	for i := range res {
		for j := range v {
			res[i] += m.inv[i][j] * v[j]
		}
	}
	return res
}

func (m *vhC16CD) C(y mat.Vector) *mat.VecDense {
	v := make([]float64, len(m.active))
	for i, f := range m.active {
		for r := 0; r < y.Len(); r++ {
			v[i] += m.X.At(r, f) * y.AtVec(r)
		}
	}
	res := m.mul(v)
	m.c = append(m.c, append([]float64(nil), res...))
	return mat.NewVecDense(len(res), res)
}

func (m *vhC16CD) D(signs mat.Vector) *mat.VecDense {
	v := make([]float64, len(m.active))
	for i := range v {
		v[i] = signs.AtVec(i)
	}
	res := m.mul(v)
	m.d = append(m.d, append([]float64(nil), res...))
	return mat.NewVecDense(len(res), res)
}

func vhC16abs(v float64) float64 {
	if v < 0 {
		return -v
	}
	return v
}

func vhC16Design(id int) *mat.Dense {
	switch id {
	case 0: // first column zero, two correlated features
		return mat.NewDense(3, 3, []float64{0, 1, 0.5, 0, 1, 1, 0, -1, -0.5})
	case 1: // no bias column, two features of different size, strongly correlated
		return mat.NewDense(3, 2, []float64{2, 1, 1, 1, 0, -0.5})
	case 2: // first column zero, three correlated features: coefficients cross zero
		return mat.NewDense(4, 4, []float64{0, 1, 0.5, 0, 0, -1, 0.5, 1, 0, 0.5, 1, -0.5, 0, -0.5, -1.5, 0})
	case 3: // three orthogonal features
		return mat.NewDense(4, 4, []float64{0, 1, 1, 1, 0, 1, -1, -1, 0, -1, 1, -1, 0, -1, -1, 1})
	}
	if id == 5 {
		X := mat.NewDense(10, 8, nil)
		for i := 0; i < 10; i++ {
			for j := 1; j < 8; j++ {
				X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*0.25)
			}
		}
		return X
	}
	// four features
	return mat.NewDense(4, 4, []float64{1, 0.5, 0, -0.5, 0, 1, 0.5, 0.5, -0.5, 0, 1, 0.5, 0.5, -1, 0.5, 1})
}

func vhC16Run(id int, lambMin float64) {
	X := vhC16Design(id)
	n, p := X.Dims()
	y := make([]float64, n)
	for i := range y {
		if id != 5 {
			y[i] = vFloat(-3, 3)
		}
	}
	if id == 5 {
		t := vFloat(0, 0.5)
		for i := range y {
			y[i] = X.At(i, 3) - 0.5*X.At(i, 6) + 0.5*float64(i%3) + t*float64(i%4-1)
		}
	}
	y0 := append([]float64(nil), y...)
	x0 := append([]float64(nil), X.RawMatrix().Data...)
	cd := &vhC16CD{}
	path := LassoLars(&NormalizedData{X: X, y: y}, lambMin, cd)
	for i := range y {
		vEq(y[i], y0[i], "the target is not modified")
	}
	for i, v := range X.RawMatrix().Data {
		vEq(v, x0[i], "the data are not modified")
	}
	xy := make([]float64, p)
	big := 0.0
	for j := range xy {
		for i := 0; i < n; i++ {
			xy[j] += X.At(i, j) * y0[i]
		}
		if vhC16abs(xy[j]) > big {
			big = vhC16abs(xy[j])
		}
	}
	vAssert((len(path) > 0) == (big > lambMin), "there is a path exactly when the largest correlation exceeds the minimum penalty")
	if len(path) == 0 {
		return
	}
	vEq(path[0].Lamb, big, "the path starts at the largest absolute correlation")
	prev := make([]bool, p)
	left := -1
	for k, nd := range path {
		if k > 0 {
			vLe(nd.Lamb, path[k-1].Lamb, "penalties never increase")
		}
		vAssert(len(nd.Selection) == len(nd.Coeff) && len(nd.Selection) > 0, "a node has one coefficient per selected feature")
		in := make([]bool, p)
		b := make([]float64, p)
		for q, f := range nd.Selection {
			vAssert(f >= 0 && f < p && (q == 0 || nd.Selection[q-1] < f), "selections are ascending without repeats")
			in[f] = true
			b[f] = nd.Coeff[q]
		}
		left = -1
		for f := range prev {
			if prev[f] && !in[f] {
				left = f
			}
		}
		g := make([]float64, p)
		for j := range g {
			for i := 0; i < n; i++ {
				r := y0[i]
				for f := range b {
					r -= X.At(i, f) * b[f]
				}
				g[j] += X.At(i, j) * r
			}
		}
		// degenerate data (two events at the same penalty up to 1e-4) are excluded
		if k < len(cd.sets) && EqualInt(cd.sets[k], nd.Selection) {
			for q, f := range nd.Selection {
				if !prev[f] || cd.d[k][q] == 0 {
					continue
				}
				ratio := cd.c[k][q] / cd.d[k][q]
				vAssume(!(ratio > nd.Lamb-1e-4 && ratio < nd.Lamb))
				vAssume(!(ratio == nd.Lamb && left >= 0))
			}
		}
		for j := range g {
			if !in[j] && j != left {
				a := vhC16abs(g[j])
				vAssume(!(a >= nd.Lamb-1e-4 && a <= nd.Lamb+1e-7))
			}
		}
		vhC16KKT(g, b, in, nd.Lamb, "node")
		prev = in
	}
	// the solution stays optimal from the last node down to the minimum penalty
	last := len(path) - 1
	vAssert(last < len(cd.c) && EqualInt(cd.sets[last], path[last].Selection), "the last node was computed from its own selection")
	b := make([]float64, p)
	for q, f := range path[last].Selection {
		b[f] = cd.c[last][q] - lambMin*cd.d[last][q]
	}
	g := make([]float64, p)
	for j := range g {
		for i := 0; i < n; i++ {
			r := y0[i]
			for f := range b {
				r -= X.At(i, f) * b[f]
			}
			g[j] += X.At(i, j) * r
		}
	}
	vhC16KKT(g, b, prev, lambMin, "end of the path")
	vReach("path")
	if len(path) > 1 {
		vReach("several nodes")
	}
	if left >= 0 {
		vReach("left")
	}
}

func vhC16KKT(g, b []float64, in []bool, lamb float64, what string) {
	for j := range g {
		if in[j] {
			if b[j] > 1e-5 {
				vEq(g[j], lamb, what+": the correlation of a positive coefficient equals the penalty")
			} else if b[j] < -1e-5 {
				vEq(g[j], -lamb, what+": the correlation of a negative coefficient equals minus the penalty")
			} else {
				vEq(vhC16abs(g[j]), lamb, what+": the correlation of an active feature equals the penalty in size")
			}
		} else {
			vLe(vhC16abs(g[j]), lamb, what+": no inactive feature exceeds the penalty")
		}
	}
}

// vhC16Two: two features (correlated or of different size), arbitrary target.
//verif:harness real budget=100 budgetT=600
func vhC16Two() { vhC16Run(vPick(0, 1), 0.125) }

// vhC16Three: three features (correlated, with sign changes along the path, or orthogonal), arbitrary target.
//verif:harness real budget=100 budgetT=600
func vhC16Three() { vhC16Run(vPick(2, 3), 0.125) }

// vhC16Four: four features without bias column.
//verif:harness real thorough budgetT=600
func vhC16Four() { vhC16Run(4, 0.125) }

// vhC16Morse: the Moore-Penrose estimator on 2..3 (thorough 4) data points and 1..2 active features of any rank, singular values zero or in
// [1.1e-3,1e3]: C and D are the minimum-norm solutions of the normal equations for the target and the signs.
//verif:harness real budget=100 budgetT=600
func vhC16Morse() {
	nc := vPick(1, 2)
	nr := vPick(2, 3+vTier())
	X, s, v, rank := vhSVDMatrix(nr, nc)
	if rank > 0 {
		vAssume(s[rank-1] >= 1.1e-3)
	}
	// an unused zero column in front, as after normalisation
	full := mat.NewDense(nr, nc+1, nil)
	active := make([]int, nc)
	for j := 0; j < nc; j++ {
		active[j] = j + 1
		for i := 0; i < nr; i++ {
			full.Set(i, j+1, X.At(i, j))
		}
	}
	y := make([]float64, nr)
	for i := range y {
		y[i] = vFloat(-10, 10)
	}
	sg := make([]float64, nc)
	for i := range sg {
		sg[i] = float64(2*vPick(0, 1) - 1)
	}
	var m MorsePenroseCD
	m.SetX(full)
	m.SetActiveSet(active)
	c := m.C(mat.NewVecDense(nr, y))
	d := m.D(mat.NewVecDense(nc, sg))
	vAssert(c.Len() == nc && d.Len() == nc, "one value per active feature")
	cs := make([]float64, nc)
	for i := range cs {
		cs[i] = c.AtVec(i)
	}
	vhNormalEq(X, cs, y, "C solves the normal equations")
	for k := 0; k < nc; k++ {
		// components along the right singular vectors
		vs, vd, vc := 0.0, 0.0, 0.0
		for j := 0; j < nc; j++ {
			vs += v[j*nc+k] * sg[j]
			vd += v[j*nc+k] * d.AtVec(j)
			vc += v[j*nc+k] * cs[j]
		}
		if k < rank {
			vEq(vd*s[k]*s[k], vs, "D solves the normal equations for the signs")
		} else {
			vNear(vd, 0, 1e-9, "D has minimal norm")
			vNear(vc, 0, 1e-9, "C has minimal norm")
		}
	}
	vReach("estimator")
}

// vhC16Wide: seven features and ten data points, a given target plus t in [0,0.5] times a direction.
//verif:harness real budget=100 budgetT=600
func vhC16Wide() { vhC16Run(5, 0.125) }
