package featselect

import "gonum.org/v1/gonum/mat"

// vhC24Poly: k columns and degree d with k<=2: d<=5, k=3: d<=4, k=4: d<=3, k=5: d<=2 (thorough: one degree more), one arbitrary row and one row of distinct primes that identifies each monomial.
//verif:harness real budgetT=600
func vhC24Poly() {
	primes := []float64{2, 3, 5, 7, 11}
	nc := vPick(1, 5)
	md := 5 + vTier()
	if nc >= 3 {
		md = 7 - nc + vTier()
	}
	d := vPick(0, md)
	data := make([]float64, 2*nc)
	for j := 0; j < nc; j++ {
		data[j] = primes[j]
		data[nc+j] = vFloat(-100, 100)
	}
	X := mat.NewDense(2, nc, data)
	lazy := NewLazyMatrix(X, d)
	vhC24check(lazy, data, nc, 0, nc, d)
	vReach("poly")
}

// vhC24Subset: products of a chosen subset of columns (every ordered choice of 1..3 of 3 columns), degree 0..3.
//verif:harness real
func vhC24Subset() {
	primes := []float64{2, 3, 5, 7}
	nc := 3
	d := vPick(0, 3+vTier())
	data := make([]float64, 2*nc)
	for j := 0; j < nc; j++ {
		data[j] = primes[j]
		data[nc+j] = vFloat(-100, 100)
	}
	X := mat.NewDense(2, nc, data)
	lazy := NewLazyMatrix(X, 0)
	vAssert(lazy.NumCols() == nc, "degree zero gives the original matrix")
	k := vPick(1, nc)
	mask := 0
	cols := make([]int, k)
	for i := range cols {
		cols[i] = vPick(0, nc-1)
		vAssume(mask&(1<<uint(cols[i])) == 0)
		mask |= 1 << uint(cols[i])
	}
	lazy.AddPowerSequence(cols, d)
	vhC24check(lazy, data, nc, mask, k, d)
	vReach("subset")
}

// vhC24check: mask 0 means all columns
func vhC24check(lazy *LazyPowerMatrix, data []float64, nc, mask, k, d int) {
	full := lazy.FullMatrix()
	fr, fc := full.Dims()
	vAssert(fr == 2 && fc == lazy.NumCols(), "the full matrix has one column per stored column")
	// number of monomials of degree 2..d in k variables
	want := 0
	for deg := 2; deg <= d; deg++ {
		c := 1
		for i := 1; i < k; i++ {
			c = c * (deg + i) / i
		}
		want += c
	}
	vAssert(fc == nc+want, "original columns plus one column per monomial")
	seen := make([]float64, 0, fc)
	for c := 0; c < fc; c++ {
		col := lazy.GetCol(c)
		vAssert(len(col) == 2, "a column has one entry per row")
		vEq(col[0], full.At(0, c), "single column access agrees with the full matrix")
		vEq(col[1], full.At(1, c), "single column access agrees with the full matrix")
		if c < nc {
			vEq(col[0], data[c], "original columns come first")
			vEq(col[1], data[nc+c], "original columns come first")
			continue
		}
		// factorise the entry of the prime row
		m := int(col[0] + 0.5)
		deg := 0
		prod := 1.0
		for j, p := range []int{2, 3, 5, 7, 11}[:nc] {
			for m%p == 0 {
				m /= p
				deg++
				prod *= data[nc+j]
				vAssert(mask == 0 || mask&(1<<uint(j)) != 0, "only chosen columns take part")
			}
		}
		vAssert(m == 1, "every generated column is a monomial")
		vAssert(deg >= 2 && deg <= d, "total degree between two and the maximum")
		vEq(col[1], prod, "every entry is the product of the powers of the original entries")
		for _, s := range seen {
			vAssert(s != col[0], "every monomial occurs once")
		}
		seen = append(seen, col[0])
	}
}

// vhC24Wide: two columns up to degree 9, three up to degree 6, four up to degree 4 and five up to degree 3.
//verif:harness real
func vhC24Wide() {
	primes := []float64{2, 3, 5, 7, 11}
	nc := vPick(2, 5)
	d := []int{9, 6, 4, 3}[nc-2]
	data := make([]float64, 2*nc)
	for j := 0; j < nc; j++ {
		data[j] = primes[j]
		data[nc+j] = 0.5 + float64(j)
	}
	j := vPick(0, nc-1)
	data[nc+j] = vFloat(-3, 3)
	lazy := NewLazyMatrix(mat.NewDense(2, nc, data), d)
	vhC24check(lazy, data, nc, 0, nc, d)
	vReach("wide")
}

// vhC24Own: products put together by the caller: 3 columns, two products with every combination of powers 0..3 (thorough 4) of two columns each.
//verif:harness real
func vhC24Own() {
	data := make([]float64, 6)
	for j := range data {
		data[j] = vFloat(-100, 100)
	}
	lazy := NewLazyMatrix(mat.NewDense(2, 3, append([]float64(nil), data...)), 1)
	vAssert(lazy.NumCols() == 3, "degree one adds nothing")
	pairs := [][]int{{0, 1}, {0, 2}, {1, 2}}
	want := make([][]float64, 2)
	for k := range want {
		want[k] = []float64{1, 1}
		m := map[int]int{}
		for _, c := range pairs[vPick(0, 2)] {
			e := vPick(0, 3+vTier())
			if e > 0 || vTier() == 1 {
				m[c] = e
			}
			for i := 0; i < e; i++ {
				want[k][0] *= data[c]
				want[k][1] *= data[3+c]
			}
		}
		lazy.AddPower(m)
	}
	vAssert(lazy.NumCols() == 5, "every product is a column")
	full := lazy.FullMatrix()
	fr, fc := full.Dims()
	vAssert(fr == 2 && fc == 5, "every product is a column")
	for c := 0; c < 5; c++ {
		col := lazy.GetCol(c)
		vAssert(len(col) == 2, "a column has an entry per data point")
		for r := 0; r < 2; r++ {
			w := 0.0
			if c < 3 {
				w = data[3*r+c]
			} else {
				w = want[c-3][r]
			}
			vEq(col[r], w, "a column is the product it was defined as")
			vEq(full.At(r, c), w, "the full matrix has the columns in the order they were added")
		}
	}
	vReach("own")
}
