package featselect

import "gonum.org/v1/gonum/mat"

// vhC13Path: 3 rows (thorough 4), a constant first column c in [0.5,3] and 1..3 further columns of arbitrary values in
// [-1000,1000] with sample variance at least 1e-6; a path of two nodes with every pair of selections and arbitrary coefficients.
//verif:harness real budget=120 budgetT=600
func vhC13Path() {
	nr := 3 + vTier()
	nf := vPick(1, 3)
	nc := nf + 1
	d := make([]float64, nr*nc)
	y := make([]float64, nr)
	c := vFloat(0.5, 3)
	for i := 0; i < nr; i++ {
		d[i*nc] = c
	}
	for j := 1; j < nc; j++ {
		col := make([]float64, nr)
		for i := range col {
			col[i] = vFloat(-1000, 1000)
			d[i*nc+j] = col[i]
		}
		vAssume(vhC12varr(col) >= 1e-6)
	}
	for i := range y {
		y[i] = vFloat(-1000, 1000)
	}
	vAssume(vhC12varr(y) >= 1e-6)
	d0 := append([]float64(nil), d...)
	y0 := append([]float64(nil), y...)
	n := NewNormalizedData(mat.NewDense(nr, nc, d), y)
	vAssert(n.HasBias, "the constant column is recorded")
	path := make([]*LassoLarsNode, 2)
	want := make([][]float64, 2)
	sels := make([][]int, 2)
	my := 0.0
	for _, v := range y0 {
		my += v
	}
	my /= float64(nr)
	sy := Std(y0)
	for k := range path {
		mask := vPick(0, 1<<uint(nf)-1)
		var sel []int
		var cf []float64
		for j := 0; j < nf; j++ {
			if mask>>uint(j)&1 == 1 {
				sel = append(sel, j+1)
				cf = append(cf, vFloat(-100, 100))
			}
		}
		sels[k] = sel
		// prediction of the normalised model, rescaled
		want[k] = make([]float64, nr)
		for i := 0; i < nr; i++ {
			s := 0.0
			for q, j := range sel {
				s += cf[q] * n.X.At(i, j)
			}
			want[k][i] = my + sy*s
		}
		path[k] = NewLassoLarsNode(append([]float64(nil), cf...), 1.0, append([]int(nil), sel...))
	}
	Path2Unnormalized(n, path)
	for k, node := range path {
		vAssert(len(node.Selection) == len(sels[k])+1 && len(node.Coeff) == len(sels[k])+1, "the bias is added to every node")
		vAssert(node.Selection[0] == 0, "the bias comes first")
		for q, j := range sels[k] {
			vAssert(node.Selection[q+1] == j, "the selection is kept")
		}
		for i := 0; i < nr; i++ {
			pred := node.Coeff[0]
			for q, j := range sels[k] {
				pred += node.Coeff[q+1] * d0[i*nc+j]
			}
			vEq(pred, want[k][i], "unnormalised coefficients predict the same values")
		}
	}
	vReach("path")
}

func vhC12varr(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m += x
	}
	m /= float64(len(v))
	s := 0.0
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return s / float64(len(v)-1)
}

// vhC13Wide: 5 rows and 40 features of given values, a path of 12 nodes with up to 39 features in order of entrance, one arbitrary coefficient.
//verif:harness real
func vhC13Wide() {
	nr, nc := 5, 41
	d := make([]float64, nr*nc)
	y := []float64{3, -1, 4, 1.5, -9}
	for i := 0; i < nr; i++ {
		d[i*nc] = 2
		for j := 1; j < nc; j++ {
			d[i*nc+j] = float64((i*i*7+j*13+i*j*5)%11) + 0.25*float64(i*(j%3))
		}
	}
	for j := 1; j < nc; j++ {
		col := make([]float64, nr)
		for i := range col {
			col[i] = d[i*nc+j]
		}
		vAssume(vhC12varr(col) >= 1e-6)
	}
	d0 := append([]float64(nil), d...)
	my, sy := 0.0, Std(y)
	for _, v := range y {
		my += v / float64(nr)
	}
	n := NewNormalizedData(mat.NewDense(nr, nc, d), y)
	t := vFloat(-10, 10)
	path := make([]*LassoLarsNode, 12)
	want := make([][]float64, 12)
	sels := make([][]int, 12)
	for k := range path {
		var sel []int
		var cf []float64
		for q := 0; q < 3*k+6; q++ {
			sel = append(sel, 1+(q*17+3)%40)
			cf = append(cf, 0.125*float64(q%5)-0.25)
		}
		if len(sel) > k {
			cf[k] = t
		}
		sels[k] = sel
		want[k] = make([]float64, nr)
		for i := 0; i < nr; i++ {
			s := 0.0
			for q, j := range sel {
				s += cf[q] * n.X.At(i, j)
			}
			want[k][i] = my + sy*s
		}
		path[k] = NewLassoLarsNode(append([]float64(nil), cf...), 1.0/float64(k+1), append([]int(nil), sel...))
	}
	Path2Unnormalized(n, path)
	for k, node := range path {
		vAssert(len(node.Selection) == len(sels[k])+1 && len(node.Coeff) == len(sels[k])+1 && node.Selection[0] == 0, "the bias is added to every node")
		for q, j := range sels[k] {
			vAssert(node.Selection[q+1] == j, "the selection is kept")
		}
		for i := 0; i < nr; i++ {
			pred := node.Coeff[0]
			for q, j := range sels[k] {
				pred += node.Coeff[q+1] * d0[i*nc+j]
			}
			vEq(pred, want[k][i], "unnormalised coefficients predict the same values")
		}
	}
	vReach("wide")
}
