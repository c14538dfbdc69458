package featselect

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// vhC12mean and vhC12var are reference definitions
func vhC12mean(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}

func vhC12var(v []float64) float64 {
	m := vhC12mean(v)
	s := 0.0
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return s / float64(len(v)-1)
}

// vhC12Normalise: 2..3 (thorough 4) rows and 1..3 columns of arbitrary values in [-1000,1000] whose sample variance is at
// least 1e-18 (the first column may instead be constant).
//verif:harness real budget=100 budgetT=600
func vhC12Normalise() {
	nr := vPick(2, 3+vTier())
	nc := vPick(1, 3)
	bias := vPick(0, 1) == 1
	d := make([]float64, nr*nc)
	y := make([]float64, nr)
	cst := 0.0
	if bias {
		cst = vFloat(-1000, 1000)
	}
	for j := 0; j < nc; j++ {
		col := make([]float64, nr)
		for i := range col {
			if bias && j == 0 {
				col[i] = cst
			} else {
				col[i] = vFloat(-1000, 1000)
			}
			d[i*nc+j] = col[i]
		}
		if !(bias && j == 0) {
			vAssume(vhC12var(col) >= 1e-18)
		}
	}
	for i := range y {
		y[i] = vFloat(-1000, 1000)
	}
	vAssume(vhC12var(y) >= 1e-18)
	y0 := append([]float64(nil), y...)
	d0 := append([]float64(nil), d...)
	X := mat.NewDense(nr, nc, d)
	n := NewNormalizedData(X, y)
	vAssert(n.HasBias == bias, "a constant first column is recorded")
	sy := math.Sqrt(vhC12var(y0))
	for i := range y {
		vEq(y[i]*sy+vhC12mean(y0), y0[i], "the target is an affine image of the original target")
	}
	vEq(vhC12mean(y), 0.0, "the target has zero mean")
	vEq(vhC12var(y), 1.0, "the target has unit sample variance")
	for j := 0; j < nc; j++ {
		col := make([]float64, nr)
		o := make([]float64, nr)
		for i := range col {
			col[i] = X.At(i, j)
			o[i] = d0[i*nc+j]
			vEq(n.X.At(i, j), col[i], "columns are normalised in place")
		}
		vEq(vhC12mean(col), 0.0, "every column has zero mean")
		if bias && j == 0 {
			for i := range col {
				vEq(col[i], 0.0, "a constant column becomes zero")
			}
			continue
		}
		vEq(vhC12var(col), 1.0, "every column has unit sample variance")
		s := math.Sqrt(vhC12var(o))
		for i := range col {
			vEq(col[i]*s+vhC12mean(o), o[i], "a column is an affine image of the original column")
		}
	}
	vReach("normalise")
	vObs("bias", n.HasBias)
}

// vhC12Const: constant columns other than the first are rejected (2..3 rows, 2..3 columns, every non-empty set of constant
// columns behind the first, the first column constant or not, arbitrary constants).
//verif:harness real
func vhC12Const() {
	nr, nc := vPick(2, 3), vPick(2, 3)
	first := vPick(0, 1) == 1
	mask := vPick(1, 1<<uint(nc-1)-1)
	d := make([]float64, nr*nc)
	y := make([]float64, nr)
	for j := 0; j < nc; j++ {
		c := vFloat(-1000, 1000)
		constant := j == 0 && first || j > 0 && mask>>uint(j-1)&1 == 1
		for i := 0; i < nr; i++ {
			y[i] = float64(i)
			d[i*nc+j] = float64(i*(j+1)+j)
			if constant {
				d[i*nc+j] = c
			}
		}
	}
	vAssert(vPanics(func() { NewNormalizedData(mat.NewDense(nr, nc, d), y) }), "a constant column other than the first is rejected")
	vReach("const")
}

// vhC12Arrays: mean and standard deviation of 1..4 arbitrary values; array, row and column normalisation of matrices up to 3x3 without constant lines.
//verif:harness real budget=100
func vhC12Arrays() {
	n := vPick(1, 4)
	v := make([]float64, n)
	for i := range v {
		v[i] = vFloat(-1000, 1000)
	}
	o := append([]float64(nil), v...)
	m := Mean(v)
	vEq(m, vhC12mean(o), "mean")
	s := Std(v)
	if n == 1 {
		vEq(s, 0.0, "standard deviation of a single value is zero")
	} else {
		vEq(s*s, vhC12var(o), "squared standard deviation is the sample variance")
		vLe(0, s, "standard deviation is not negative")
	}
	for i := range v {
		vEq(v[i], o[i], "mean and standard deviation leave the values untouched")
	}
	if n > 1 {
		vAssume(vhC12var(o) >= 1e-18)
		NormalizeArray(v)
		for i := range v {
			vEq(v[i]*s+m, o[i], "array normalisation")
		}
	}
	vReach("arrays")
	vObs("ms", m, s)
}

// vhC12Lines: row and column normalisation of 2x2, 2x3, 3x2 and 3x3 matrices.
//verif:harness real budget=100
func vhC12Lines() {
	nr, nc := vPick(2, 3), vPick(2, 3)
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = vFloat(-1000, 1000)
	}
	d0 := append([]float64(nil), d...)
	X := mat.NewDense(nr, nc, d)
	rows := vPick(0, 1) == 1
	a, b := nc, nr
	if rows {
		a, b = nr, nc
	}
	lines := make([][]float64, a)
	for l := range lines {
		lines[l] = make([]float64, b)
		for k := range lines[l] {
			if rows {
				lines[l][k] = d0[l*nc+k]
			} else {
				lines[l][k] = d0[k*nc+l]
			}
		}
		vAssume(vhC12var(lines[l]) >= 1e-18)
	}
	if rows {
		NormalizeRows(X)
	} else {
		NormalizeCols(X)
	}
	for l := range lines {
		s := math.Sqrt(vhC12var(lines[l]))
		m := vhC12mean(lines[l])
		for k := range lines[l] {
			got := 0.0
			if rows {
				got = X.At(l, k)
			} else {
				got = X.At(k, l)
			}
			vEq(got*s+m, lines[l][k], "row and column normalisation")
		}
	}
	vReach("lines")
}

// vhC12Wide: 40 rows and 8 columns with fixed values and one arbitrary value in one of four places, with and without a constant first column.
//verif:harness real budget=60
func vhC12Wide() {
	nr, nc := 40, 8
	d := make([]float64, nr*nc)
	y := make([]float64, nr)
	bias := vPick(0, 1) == 1
	for i := 0; i < nr; i++ {
		y[i] = float64((i*23+5)%37) / 4
		for j := 0; j < nc; j++ {
			d[i*nc+j] = float64((i*29+j*13+3)%61)/8 - 3
			if bias && j == 0 {
				d[i*nc] = 2.5
			}
		}
	}
	v := vFloat(-100, 100)
	at := vPick(0, 3)
	switch at {
	case 0:
		y[39] = v
	case 1:
		d[1] = v
	case 2:
		d[20*nc+4] = v
	case 3:
		d[nr*nc-1] = v
	}
	y0, d0 := append([]float64(nil), y...), append([]float64(nil), d...)
	X := mat.NewDense(nr, nc, d)
	n := NewNormalizedData(X, y)
	vAssert(n.HasBias == bias, "a constant first column is recorded")
	check := func(got, o []float64) {
		s, m := math.Sqrt(vhC12var(o)), vhC12mean(o)
		for i := range o {
			vEq(got[i]*s+m, o[i], "normalised values are (value-mean)/deviation")
		}
	}
	check(y, y0)
	for j := 0; j < nc; j++ {
		if bias && j == 0 {
			continue
		}
		col, o := make([]float64, nr), make([]float64, nr)
		for i := range col {
			col[i], o[i] = X.At(i, j), d0[i*nc+j]
		}
		check(col, o)
	}
	Z := mat.NewDense(nr, nc, append([]float64(nil), d0...))
	if !bias {
		NormalizeCols(Z)
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				vEq(Z.At(i, j), X.At(i, j), "column normalisation agrees")
			}
		}
	}
	vReach("wide")
}

// vhC12Shift: IEEE floats: values with a common offset of 0, 1e6 or 1e8 and a spread of 1e-3..1e3 (12 rows, 3 columns): mean and
// deviation do not suffer from the offset beyond the spacing of floats.
//verif:harness fp
func vhC12Shift() {
	off := []float64{0, 1e6, -1e8}[vPick(0, 2)]
	spread := []float64{1, 1e-3, 1e3}[vPick(0, 2)]
	vAssume(spread >= 1 || off > -1e7)
	nr, nc := 12, 3
	tol := 1e-6
	d, y := make([]float64, nr*nc), make([]float64, nr)
	ref := make([]float64, nr*nc) // the values without offset
	for i := range d {
		ref[i] = float64((i*29+3)%61-30) * spread / 16
		d[i] = off + ref[i]
	}
	for i := range y {
		y[i] = off + float64((i*23+5)%37-18)*spread/16
	}
	X := mat.NewDense(nr, nc, d)
	near := func(a, b float64, msg string) { vAssert(a-b <= tol && b-a <= tol, msg) }
	for j := 0; j < nc; j++ {
		col, c0 := make([]float64, nr), make([]float64, nr)
		for i := range col {
			col[i], c0[i] = X.At(i, j), ref[i*nc+j]
		}
		near(Std(col)/math.Sqrt(vhC12var(c0)), 1, "the standard deviation does not depend on the offset")
		near((Mean(col)-off-vhC12mean(c0))/(1+math.Abs(off)), 0, "the mean moves with the offset")
		NormalizeArray(col)
		near(vhC12mean(col), 0, "zero mean")
		near(vhC12var(col), 1, "unit sample variance")
	}
	NewNormalizedData(X, y)
	near(vhC12mean(y), 0, "the target has zero mean")
	near(vhC12var(y), 1, "the target has unit sample variance")
	for j := 0; j < nc; j++ {
		col := make([]float64, nr)
		for i := range col {
			col[i] = X.At(i, j)
		}
		near(vhC12mean(col), 0, "every column has zero mean")
		near(vhC12var(col), 1, "every column has unit sample variance")
	}
	vReach("shift")
}
