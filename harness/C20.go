package featselect

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// vhC20Apply: matrices up to 2x3, arbitrary entries and threshold.
//verif:harness real
func vhC20Apply() {
	nr := vPick(1, 2)
	nc := vPick(1, 3)
	th := vFloat(-1, 10)
	d := make([]float64, nr*nc)
	for i := range d {
		d[i] = vFloat(-20, 20)
	}
	X := mat.NewDense(nr, nc, append([]float64(nil), d...))
	op := ThresholdOperator{threshold: th}
	op.Apply(X)
	for i, v := range d {
		got := X.At(i/nc, i%nc)
		if v < th && -v < th {
			vEq(got, 0, "entries smaller in size than the threshold become zero")
		} else {
			vEq(got, v, "all other entries are kept")
		}
	}
	vReach("applied")
}

// vhC20Diff: the difference of a thresholded 1x1..2x2 matrix and a second matrix for an arbitrary grid point.
//verif:harness real
func vhC20Diff() {
	n := vPick(1, 2)
	a := make([]float64, n*n)
	b := make([]float64, n*n)
	for i := range a {
		a[i] = vFloat(-20, 20)
		b[i] = vFloat(-20, 20)
	}
	A := mat.NewDense(n, n, append([]float64(nil), a...))
	B := mat.NewDense(n, n, append([]float64(nil), b...))
	gr := vPick(0, 3)
	step := 3.5
	ch := make(chan ValueGridPt, 1)
	CalculateFNormDiff(A, B, gr, step, ch)
	res := <-ch
	th := math.Exp(-10 + float64(gr)*step)
	s := 0.0
	for i := range a {
		v := a[i]
		if v < th && -v < th {
			v = 0
		}
		s += (v - b[i]) * (v - b[i])
		vEq(A.At(i/n, i%n), a[i], "the first matrix is not modified")
		vEq(B.At(i/n, i%n), b[i], "the second matrix is not modified")
	}
	vAssert(res.gridPt == gr, "the grid point is reported")
	vEq(res.value*res.value, s, "the size of the difference is the Frobenius norm")
	vAssert(res.value >= 0, "the size of the difference is the Frobenius norm")
	vReach("difference")
}

var (
	vhC20cnt   []int
	vhC20sum   []float64
	vhC20val   []float64
	vhC20ns    int
	vhC20split int
)

// vhC20Stub stands in for the difference computation: arbitrary values for grid points 0 and 1, fixed ones for the others
func vhC20Stub(mat1 *mat.Dense, mat2 *mat.Dense, gridPt int, step float64, res chan<- ValueGridPt) {
	if step != vhC20step {
		return // left over from an earlier replay in the same process
	}
	k := vhC20cnt[gridPt]
	vhC20cnt[gridPt]++
	v := 1.0
	if gridPt < 2 && k < vhC20ns {
		v = vhC20val[2*k+gridPt]
	}
	if k < vhC20ns {
		vhC20sum[gridPt] += v
	}
	res <- ValueGridPt{value: v, gridPt: gridPt}
}

var vhC20step, vhC20run float64

// vhC20Split stands in for the random split
func vhC20Split(X mat.Matrix, num int) (*mat.Dense, *mat.Dense) {
	nr, _ := X.Dims()
	vAssert(num > 0 && num < nr, "both parts have rows")
	vhC20split++
	return mat.NewDense(1, 1, []float64{1}), mat.NewDense(1, 1, []float64{2})
}

func vhC20Search(step float64, grid, ns int) {
	vhC20run++
	step -= vhC20run * 1e-9
	vhC20step = step
	vhC20cnt, vhC20sum = make([]int, grid+1), make([]float64, grid+1)
	vhC20ns, vhC20split = ns, 0
	vhC20val = make([]float64, 2*ns)
	for i := range vhC20val {
		vhC20val[i] = vFloat(0, 2)
	}
	X := mat.NewDense(4, 1, []float64{1, 2, 3, 4})
	op := L2ConsistentCovTO(X, ns, 1.0, step)
	vReach("returned")
	total := 0
	for g := 0; g < grid; g++ {
		vAssert(vhC20cnt[g] >= ns, "every grid point is evaluated the requested number of times")
		total += vhC20cnt[g]
	}
	vAssert(vhC20cnt[grid] == 0 && total <= ns*grid+1, "no grid point is evaluated more often than requested")
	best := -1
	for g := 0; g < grid; g++ {
		if d := op.threshold - math.Exp(-10+float64(g)*step); d < 1e-9 && d > -1e-9 {
			best = g
		}
	}
	vAssert(best >= 0, "the threshold of a grid point is returned")
	for g := 0; g < grid; g++ {
		vLe(vhC20sum[best], vhC20sum[g], "the returned grid point has the smallest mean difference")
	}
}

// vhC20Few: 3 grid points, 1..2 samples (thorough 3), schedules with up to 3 delays (thorough 5).
//verif:harness real delay=3 delayT=5 budget=100 budgetT=600 stub=CalculateFNormDiff:vhC20Stub stub=RandomRowSplit:vhC20Split
func vhC20Few() { vhC20Search(3, 3, vPick(1, 2+vTier())) }

// vhC20Many: more grid points than workers (12), 2 samples, schedules with up to 2 delays (thorough 3).
//verif:harness real delay=2 delayT=3 budget=100 budgetT=600 stub=CalculateFNormDiff:vhC20Stub stub=RandomRowSplit:vhC20Split
func vhC20Many() { vhC20Search(0.75, 12, 2) }

// vhC20Sparse: the thresholded covariance of 2 data points and 1..2 features, arbitrary data and threshold
// (the search for the threshold is replaced, vhC20Few and vhC20Many decide it).
//verif:harness real stub=L2ConsistentCovTO:vhC20Threshold
func vhC20Sparse() {
	nc := vPick(1, 2)
	d := make([]float64, 2*nc)
	for i := range d {
		d[i] = vFloat(-20, 20)
	}
	th := vFloat(0, 10)
	X := mat.NewDense(2, nc, append([]float64(nil), d...))
	vhC20th = th
	var cov CovMat = NewSparseThreshold(X)
	C := cov.Get(X)
	for j := 0; j < nc; j++ {
		for k := 0; k < nc; k++ {
			v := (d[j]*d[k] + d[nc+j]*d[nc+k]) / 2
			if v < th && -v < th {
				vEq(C.At(j, k), 0, "covariances below the threshold are zero")
			} else {
				vEq(C.At(j, k), v, "all other covariances are kept")
			}
		}
	}
	for i, v := range d {
		vEq(X.At(i/nc, i%nc), v, "the data are not modified")
	}
	// data that differ clearly in one place are refused
	i := vPick(0, 2*nc-1)
	o := append([]float64(nil), d...)
	o[i] = vFloat(-20, 20)
	vAssume(o[i] > d[i]+0.5 || o[i] < d[i]-0.5)
	vAssert(vPanics(func() { cov.Get(mat.NewDense(2, nc, o)) }), "other data than those the threshold was found for are refused")
	vReach("sparse")
}

var vhC20th float64

func vhC20Threshold(X mat.Matrix, numSamples int, V float64, step float64) *ThresholdOperator {
	return &ThresholdOperator{threshold: vhC20th}
}

// vhC20Wide: a 12x12 matrix of fixed entries (repeated, negative and zero ones) and an arbitrary one, arbitrary threshold.
//verif:harness real
func vhC20Wide() {
	n := 12
	th := vFloat(0, 10)
	d := make([]float64, n*n)
	for i := range d {
		d[i] = float64((i*7+2)%17)/2 - 4
	}
	d[[]int{0, 13, 143}[vPick(0, 2)]] = vFloat(-20, 20)
	X := mat.NewDense(n, n, append([]float64(nil), d...))
	op := ThresholdOperator{threshold: th}
	op.Apply(X)
	for i, v := range d {
		got := X.At(i/n, i%n)
		if v < th && -v < th {
			vEq(got, 0, "entries smaller in size than the threshold become zero")
		} else {
			vEq(got, v, "all other entries are kept")
		}
	}
	vReach("wide")
}
