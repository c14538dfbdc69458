package featselect

import "gonum.org/v1/gonum/mat"

// vhRot multiplies the columns i,j of the row-major n x k matrix q by a rotation with half-angle tangent t
func vhRot(q []float64, n, k, i, j int, t float64) {
	d := 1 + t*t
	c := (1 - t*t) / d
	s := 2 * t / d
	for r := 0; r < n; r++ {
		a, b := q[r*k+i], q[r*k+j]
		q[r*k+i] = c*a - s*b
		q[r*k+j] = s*a + c*b
	}
}

func vhRotRows(q []float64, n, k, i, j int, t float64) {
	d := 1 + t*t
	c := (1 - t*t) / d
	s := 2 * t / d
	for r := 0; r < k; r++ {
		a, b := q[i*k+r], q[j*k+r]
		q[i*k+r] = c*a - s*b
		q[j*k+r] = s*a + c*b
	}
}

// vhSVDMatrix builds an nr x nc matrix (nr >= nc, nc <= 2) from arbitrary singular vectors and values and registers its exact
// decomposition. Every singular value is zero or in [1e-3,1e3]. rank is the number of non-zero ones.
func vhSVDMatrix(nr, nc int) (X *mat.Dense, s []float64, v []float64, rank int) {
	u := make([]float64, nr*nc)
	for i := 0; i < nc; i++ {
		u[i*nc+i] = 1
	}
	v = make([]float64, nc*nc)
	for i := 0; i < nc; i++ {
		v[i*nc+i] = 1
	}
	// rotations of the rows
	for i := 0; i < nc; i++ {
		for j := i + 1; j < nr; j++ {
			vhRotRows(u, nr, nc, i, j, vFloat(-1, 1))
		}
	}
	if nc == 2 {
		vhRotRows(v, 2, 2, 0, 1, vFloat(-1, 1))
	}
	s = make([]float64, nc)
	rank = vPick(0, nc)
	for i := 0; i < rank; i++ {
		s[i] = vFloat(1e-3, 1e3)
		if i > 0 {
			vAssume(s[i] <= s[i-1])
		}
	}
	a := make([]float64, nr*nc)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			for k := 0; k < nc; k++ {
				a[i*nc+j] += u[i*nc+k] * s[k] * v[j*nc+k]
			}
		}
	}
	vSVD(nr, nc, nc, a, u, s, v)
	return mat.NewDense(nr, nc, a), s, v, rank
}

// vhNormalEq asserts that the residual of c is orthogonal to every column of X
func vhNormalEq(X mat.Matrix, c, y []float64, msg string) {
	nr, nc := X.Dims()
	vAssert(len(c) == nc, "one coefficient per column")
	for j := 0; j < nc; j++ {
		g := 0.0
		for i := 0; i < nr; i++ {
			r := -y[i]
			for k := 0; k < nc; k++ {
				r += X.At(i, k) * c[k]
			}
			g += X.At(i, j) * r
		}
		vNear(g, 0.0, 1e-9, msg)
	}
}
