package featselect

import "gonum.org/v1/gonum/mat"

// vhNormalFit is the least squares solution by the normal equations (Gauss-Jordan); it stands in for Fit where noted and is
// only used with independent columns.
func vhNormalFit(X mat.Matrix, y []float64) []float64 {
	nr, k := X.Dims()
	a := make([][]float64, k)
	for i := 0; i < k; i++ {
		a[i] = make([]float64, k+1)
		for j := 0; j < k; j++ {
			for r := 0; r < nr; r++ {
				a[i][j] += X.At(r, i) * X.At(r, j)
			}
		}
		for r := 0; r < nr; r++ {
			a[i][k] += X.At(r, i) * y[r]
		}
	}
	for c := 0; c < k; c++ {
		d := 1 / a[c][c]
		for j := c; j <= k; j++ {
			a[c][j] *= d
		}
		for i := 0; i < k; i++ {
			if i == c {
				continue
			}
			f := a[i][c]
			for j := c; j <= k; j++ {
				a[i][j] -= f * a[c][j]
			}
		}
	}
	x := make([]float64, k)
	for i := range x {
		x[i] = a[i][k]
	}
	return x
}

// vhCols copies the chosen columns
func vhCols(X mat.Matrix, m []bool) *mat.Dense {
	nr, nc := X.Dims()
	k := 0
	for j := 0; j < nc; j++ {
		if m[j] {
			k++
		}
	}
	D := mat.NewDense(nr, k, nil)
	k = 0
	for j := 0; j < nc; j++ {
		if m[j] {
			for i := 0; i < nr; i++ {
				D.Set(i, k, X.At(i, j))
			}
			k++
		}
	}
	return D
}

// vhRSS is the residual sum of squares of the given model, by the normal equations
func vhRSS(X mat.Matrix, m []bool, y []float64) (float64, []float64) {
	D := vhCols(X, m)
	c := vhNormalFit(D, y)
	s := 0.0
	for i := range y {
		r := y[i]
		for j := range c {
			r -= D.At(i, j) * c[j]
		}
		s += r * r
	}
	return s, c
}

// vhDesign is one of a few designs with integer entries; every choice of fewer columns than rows is independent
func vhDesign(k int) *mat.Dense {
	switch k {
	case 0:
		return mat.NewDense(4, 3, []float64{1, 0, 2, 1, 1, -1, 1, 3, 1, 1, -2, 0})
	case 1:
		return mat.NewDense(3, 4, []float64{1, 2, -1, 0, 1, 0, 3, 1, 1, 1, 1, 2})
	case 2:
		return mat.NewDense(5, 3, []float64{1, 2, 0, 1, -1, 1, 1, 0, 3, 1, 1, -2, 1, 3, 1})
	case 3:
		return mat.NewDense(2, 3, []float64{1, 2, -3, 2, 1, 1})
	case 4:
		return mat.NewDense(4, 4, []float64{2, 0, 1, 1, 1, 1, 0, -1, 0, 3, 1, 1, -1, 1, 2, 0})
	}
	// orthogonal columns
	return mat.NewDense(4, 4, []float64{1, 1, 1, 1, 1, -1, 1, -1, 1, 1, -1, -1, 1, -1, -1, 1})
}
