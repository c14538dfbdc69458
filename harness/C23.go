package featselect

import "gonum.org/v1/gonum/mat"

// vhC23Product: products of n arbitrary integers repeated r times, n,r in 0..3 and r in 0..6 for n<=2 (thorough: n<=4, r<=5).
//verif:harness real
func vhC23Product() {
	n := vPick(0, 3+vTier())
	mr := 5
	if n <= 2 {
		mr = 7
	}
	r := vPick(0, mr)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = vI64()
	}
	res := IterProduct(vals, r)
	tot := 1
	for i := 0; i < r; i++ {
		tot *= n
	}
	vAssert(len(res) == tot, "the product has n^r tuples")
	for k, row := range res {
		vAssert(len(row) == r, "every tuple has r values")
		q := k
		for j := r - 1; j >= 0; j-- {
			vAssert(row[j] == vals[q%n], "tuples are the digits of their position (lexicographic order, each once)")
			q /= n
		}
	}
	vReach("product")
}

// vhC23Rearrange: matrices up to 2x4 (thorough 2x5) with arbitrary entries and every list of distinct columns, optionally followed by -1 entries.
//verif:harness real
func vhC23Rearrange() {
	nc := vPick(1, 4+vTier())
	nr := vPick(1, 2)
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = vReal()
	}
	X := mat.NewDense(nr, nc, d)
	k := vPick(0, nc)
	ord := make([]int, k)
	for i := range ord {
		ord[i] = vInt(0, nc-1)
		for j := 0; j < i; j++ {
			vAssume(ord[i] != ord[j])
		}
	}
	pad := vPick(0, nc-k)
	full := append([]int(nil), ord...)
	for i := 0; i < pad; i++ {
		full = append(full, -1)
	}
	Y := RearrangeDense(X, full)
	yr, yc := Y.Dims()
	vAssert(yr == nr && yc == nc, "dimensions are kept")
	var want []int
	for _, c := range ord {
		want = append(want, c)
	}
	for c := 0; c < nc; c++ {
		listed := false
		for _, o := range ord {
			listed = listed || o == c
		}
		if !listed {
			want = append(want, c)
		}
	}
	for i := 0; i < nr; i++ {
		for c := 0; c < nc; c++ {
			vEq(Y.At(i, c), d[i*nc+want[c]], "listed columns first, the others follow in their original order")
			vEq(X.At(i, c), d[i*nc+c], "the matrix passed in is unchanged")
		}
	}
	vReach("rearrange")
	vObs("w", want)
}

// vhC23Large: products with thousands of tuples (2^14 and 3^9; thorough also 2^17, 3^11, 20^3): every tuple in its place, arbitrary values.
//verif:harness real
func vhC23Large() {
	ns := []int{2, 3, 2, 3, 20}
	rs := []int{14, 9, 17, 11, 3}
	k := vPick(0, 1+3*vTier())
	n, r := ns[k], rs[k]
	vals := make([]int, n)
	for i := range vals {
		vals[i] = vInt(-1000, 1000)
	}
	res := IterProduct(vals, r)
	total := 1
	for i := 0; i < r; i++ {
		total *= n
	}
	vAssert(len(res) == total, "n^r tuples")
	for t, row := range res {
		vAssert(len(row) == r, "tuples have the requested length")
		q := t
		for i := r - 1; i >= 0; i-- {
			vAssert(row[i] == vals[q%n], "lexicographic order")
			q /= n
		}
	}
	vReach("large")
}

// vhC23Wide: matrices of 3 rows and 12, 40 or 70 columns with one arbitrary entry anywhere in a column, rearranged by long and short lists.
//verif:harness real
func vhC23Wide() {
	nc := []int{12, 40, 70}[vPick(0, 2)]
	d := make([]float64, 3*nc)
	for i := range d {
		d[i] = float64(i*i%97) + 0.5
	}
	d[nc+nc*2/3] = vReal()
	d0 := append([]float64(nil), d...)
	k := []int{0, 1, nc / 2, nc - 1, nc}[vPick(0, 4)]
	ord := make([]int, k)
	listed := make([]bool, nc)
	var want []int
	for i := range ord {
		ord[i] = (nc - 3 + i*(nc-1)) % nc // descending with a wrap
		listed[ord[i]] = true
		want = append(want, ord[i])
	}
	for c := 0; c < nc; c++ {
		if !listed[c] {
			want = append(want, c)
		}
	}
	X := mat.NewDense(3, nc, d)
	Y := RearrangeDense(X, ord)
	r, c := Y.Dims()
	vAssert(r == 3 && c == nc, "dimensions are kept")
	for i := 0; i < 3; i++ {
		for c := 0; c < nc; c++ {
			vEq(Y.At(i, c), d0[i*nc+want[c]], "listed columns first, the others follow in their original order")
			vEq(X.At(i, c), d0[i*nc+c], "the matrix passed in is unchanged")
		}
	}
	vReach("wide")
}
