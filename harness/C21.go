package featselect

import (
	"strconv"

	"gonum.org/v1/gonum/mat"
)

// vhC21Split: matrices with 2..4 (thorough 5) rows and 1..2 columns of arbitrary values, every split size and every permutation;
// every split of 4 rows in halves can happen.
//verif:harness real budgetT=300 must=first_part_3,first_part_5,first_part_6,first_part_9,first_part_10,first_part_12
func vhC21Split() {
	nr := vPick(2, 4+vTier())
	nc := vPick(1, 2)
	num := vPick(1, nr-1)
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = vReal()
	}
	for i := 0; i < nr; i++ { // rows are distinguishable by their first entry
		d[i*nc] = float64(i) * 10
	}
	d0 := append([]float64(nil), d...)
	X := mat.NewDense(nr, nc, d)
	a, b := RandomRowSplit(X, num)
	ar, ac := a.Dims()
	br, bc := b.Dims()
	vAssert(ar == num && br == nr-num && ac == nc && bc == nc, "the parts have the requested sizes")
	seen := make([]bool, nr)
	row := func(m *mat.Dense, i int) {
		k := int(m.At(i, 0)/10 + 0.5)
		vAssert(k >= 0 && k < nr, "every row of a part is a row of the matrix")
		vAssert(!seen[k], "every row is used once")
		seen[k] = true
		for j := 0; j < nc; j++ {
			vEq(m.At(i, j), d0[k*nc+j], "rows are kept together")
		}
	}
	for i := 0; i < ar; i++ {
		row(a, i)
	}
	for i := 0; i < br; i++ {
		row(b, i)
	}
	for i := range d0 {
		vEq(X.At(i/nc, i%nc), d0[i], "the matrix is left untouched")
	}
	vReach("split")
	if nr == 4 && num == 2 {
		vReach("first_part_" + strconv.Itoa(1<<uint(int(a.At(0, 0)/10+0.5))|1<<uint(int(a.At(1, 0)/10+0.5))))
	}
	vObs("seen", seen)
}

// vhC21Cov: covariance and second-moment matrices of 1..3 rows and 1..3 columns of arbitrary values.
//verif:harness real
func vhC21Cov() {
	nr, nc := vPick(1, 3), vPick(1, 3)
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = vFloat(-1000, 1000)
	}
	d0 := append([]float64(nil), d...)
	X := mat.NewDense(nr, nc, d)
	C := CovarianceMatrix(X)
	var e Empirical
	E := e.Get(X)
	var id Identity
	I := id.Get(X)
	cr, cc := C.Dims()
	er, ec := E.Dims()
	ir, ic := I.Dims()
	vAssert(cr == nc && cc == nc && er == nc && ec == nc && ir == nc && ic == nc, "square with one row per column")
	mu := make([]float64, nc)
	for j := range mu {
		for i := 0; i < nr; i++ {
			mu[j] += d0[i*nc+j]
		}
		mu[j] /= float64(nr)
	}
	for j := 0; j < nc; j++ {
		for k := 0; k < nc; k++ {
			c, s := 0.0, 0.0
			for i := 0; i < nr; i++ {
				c += (d0[i*nc+j] - mu[j]) * (d0[i*nc+k] - mu[k])
				s += d0[i*nc+j] * d0[i*nc+k]
			}
			vEq(C.At(j, k), c/float64(nr), "covariance equals its definition")
			vEq(E.At(j, k), s/float64(nr), "second moments equal their definition")
			vEq(C.At(j, k), C.At(k, j), "the covariance is symmetric")
			vEq(E.At(j, k), E.At(k, j), "the second-moment matrix is symmetric")
			if j == k {
				vEq(I.At(j, k), 1.0, "identity")
			} else {
				vEq(I.At(j, k), 0.0, "identity")
			}
		}
	}
	for i := range d0 {
		vEq(X.At(i/nc, i%nc), d0[i], "the data are left untouched")
	}
	vReach("cov")
	vObs("c", C.At(0, 0), E.At(0, 0))
}

// vhC21Wide: covariance and second moments of 30 rows and 12 columns with fixed values and one arbitrary value.
//verif:harness real
func vhC21Wide() {
	nr, nc := 30, 12
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = float64((i*31+7)%59)/8 - 3
	}
	d[[]int{0, 17*nc + 5, nr*nc - 1}[vPick(0, 2)]] = vFloat(-100, 100)
	d0 := append([]float64(nil), d...)
	X := mat.NewDense(nr, nc, d)
	C := CovarianceMatrix(X)
	var e Empirical
	E := e.Get(X)
	mu := make([]float64, nc)
	for j := range mu {
		for i := 0; i < nr; i++ {
			mu[j] += d0[i*nc+j]
		}
		mu[j] /= float64(nr)
	}
	for j := 0; j < nc; j++ {
		for k := 0; k < nc; k++ {
			c, s := 0.0, 0.0
			for i := 0; i < nr; i++ {
				c += (d0[i*nc+j] - mu[j]) * (d0[i*nc+k] - mu[k])
				s += d0[i*nc+j] * d0[i*nc+k]
			}
			vEq(C.At(j, k), c/float64(nr), "covariance equals its definition")
			vEq(E.At(j, k), s/float64(nr), "second moments equal their definition")
		}
	}
	for i := range d0 {
		vEq(X.At(i/nc, i%nc), d0[i], "the data are left untouched")
	}
	vReach("wide")
}
