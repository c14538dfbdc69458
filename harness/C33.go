package featselect

// vhC33Grid: 0..5 (thorough 7) values between arbitrary 1e-30 <= min < max <= 1e30.
//verif:harness real budget=120 budgetT=600
func vhC33Grid() {
	a, b := vFloat(1e-30, 1e30), vFloat(1e-30, 1e30)
	vAssume(a < b)
	n := vPick(0, 5+2*vTier())
	l := Logspace(a, b, n)
	vAssert(len(l) == n, "as many values as asked for")
	if n > 0 {
		vEq(l[0], a, "the grid starts with the minimum")
	}
	if n > 1 {
		vEq(l[n-1], b, "the grid ends with the maximum")
	}
	for i := 0; i+1 < n; i++ {
		vAssert(l[i] < l[i+1], "the grid is increasing")
		// every value is a^(1-i/(n-1)) * b^(i/(n-1))
		p, q := 1.0, 1.0
		for k := 0; k < n-1; k++ {
			p *= l[i] / a
		}
		for k := 0; k < i; k++ {
			q *= b / a
		}
		vEq(p, q, "the values have constant ratios")
	}
	vReach("grid")
	vObs("grid", l)
}

// vhC33Wide: the number of values and the ends of grids with 20, 64 and 101 values.
//verif:harness real budget=60
func vhC33Wide() {
	a, b := vFloat(1e-30, 1e30), vFloat(1e-30, 1e30)
	vAssume(a < b)
	n := []int{20, 64, 101}[vPick(0, 2)]
	l := Logspace(a, b, n)
	vAssert(len(l) == n, "as many values as asked for")
	vEq(l[0], a, "the grid starts with the minimum")
	vEq(l[n-1], b, "the grid ends with the maximum")
	vReach("wide")
}
