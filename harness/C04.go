package featselect

import "math"

func vhC04pick() (int, int) {
	ns := []int{2, 3, 4, 5, 7, 12, 50, 1000}
	n := ns[vPick(0, len(ns)-1)]
	var k int
	if n <= 12 {
		k = vPick(0, n+2)
	} else {
		ks := []int{0, 1, 2, 10, n / 2, n - 3, n - 2, n - 1, n, n + 1, n + 7}
		k = ks[vPick(0, len(ks)-1)]
	}
	return k, n
}

// vhC04Def: AIC, AICc and BIC equal their definitions for every residual sum r in [1e-12,1e12], n in {2,3,4,5,7,12,50,1000}
// and k in 0..n+2 (for n<=12) or 11 values up to n+7.
//verif:harness real
func vhC04Def() {
	k, n := vhC04pick()
	r := vFloat(1e-12, 1e12)
	l := math.Log(r)
	aic := float64(2*k) + float64(n)*l
	den := n - k - 1
	if k >= n-1 {
		den = 1
	}
	corr := float64(2*k*k+2*k) / float64(den)
	a, ac, b := Aic(k, n, r), Aicc(k, n, r), Bic(k, n, r)
	vAssert(!math.IsNaN(a) && !math.IsInf(a, 0), "AIC is finite")
	vAssert(!math.IsNaN(ac) && !math.IsInf(ac, 0), "AICc is finite")
	vAssert(!math.IsNaN(b) && !math.IsInf(b, 0), "BIC is finite")
	vEq(a, aic, "AIC equals its definition")
	vEq(ac, aic+corr, "AICc equals its definition")
	vEq(b, float64(k)*math.Log(float64(n))+float64(n)*l, "BIC equals its definition")
	vReach("def")
	vObs("v", a, ac, b)
}

// vhC04Mono: each criterion is strictly increasing in the residual sum, for all pairs of residual sums in [1e-12,1e12]
// and the same grid of k and n.
//verif:harness real
func vhC04Mono() {
	k, n := vhC04pick()
	r, s := vFloat(1e-12, 1e12), vFloat(1e-12, 1e12)
	vAssume(r < s)
	vAssert(Aic(k, n, r) < Aic(k, n, s), "AIC increases with the residual sum")
	vAssert(Aicc(k, n, r) < Aicc(k, n, s), "AICc increases with the residual sum")
	vAssert(Bic(k, n, r) < Bic(k, n, s), "BIC increases with the residual sum")
	vReach("mono")
}
