package featselect

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// vhC30Crit: 2 data points (thorough 3), 1..3 features, a path of two nodes with every selection (in ascending or descending
// order, also empty), arbitrary data, coefficients and criterion.
//verif:harness real budget=100 budgetT=600
func vhC30Crit() {
	nr := 2 + vTier()
	nf := vPick(1, 3)
	d := make([]float64, nr*nf)
	for i := range d {
		d[i] = vFloat(-10, 10)
	}
	y := make([]float64, nr)
	for i := range y {
		y[i] = vFloat(-10, 10)
	}
	var p LassoLarsPath
	p.Dset = &Dataset{X: mat.NewDense(nr, nf, append([]float64(nil), d...)), Y: append([]float64(nil), y...), Names: make([]string, nf+1), TargetCol: nf}
	rss := make([]float64, 2)
	num := make([]int, 2)
	for k := range rss {
		m := vPick(0, 1<<uint(nf)-1)
		rev := vPick(0, 1)
		var sel []int
		var cf []float64
		for q := 0; q < nf; q++ {
			j := q
			if rev == 1 {
				j = nf - 1 - q
			}
			if m>>uint(j)&1 == 1 {
				sel = append(sel, j)
				cf = append(cf, vFloat(-10, 10))
			}
		}
		num[k] = len(sel)
		for i := 0; i < nr; i++ {
			r := y[i]
			for q, j := range sel {
				r -= cf[q] * d[i*nf+j]
			}
			rss[k] += r * r
		}
		p.LassoLarsNodes = append(p.LassoLarsNodes, NewLassoLarsNode(cf, 1/float64(k+1), sel))
	}
	a, b, c := vFloat(-5, 5), vFloat(-5, 5), vFloat(-5, 5)
	got := p.GetCriteria(func(numFeat int, numData int, r float64) float64 {
		return a*float64(numFeat) + b*float64(numData) + c*r
	})
	vAssert(len(got) == 2, "one value per node")
	for k := range got {
		vEq(got[k], a*float64(num[k])+b*float64(nr)+c*rss[k], "the criterion of every node with its own coefficients")
	}
	vReach("criteria")
}

// vhC30Rank: paths of up to 3 nodes with up to 3 features out of 4 (thorough 5) each, every wanted number.
//verif:harness real budget=100 budgetT=600
func vhC30Rank() {
	nf := 4 + vTier()
	nn := vPick(0, 3)
	want := vPick(1, nf+1)
	var p LassoLarsPath
	for k := 0; k < nn; k++ {
		m := vPick(0, 1<<uint(nf)-1)
		var sel []int
		for j := 0; j < nf; j++ {
			if m>>uint(j)&1 == 1 {
				sel = append(sel, j)
			}
		}
		p.LassoLarsNodes = append(p.LassoLarsNodes, NewLassoLarsNode(make([]float64, len(sel)), 1/float64(k+1), sel))
	}
	got := p.PickMostRelevantFeatures(want)
	first := make([]int, nf) // node in which a feature first occurs
	for j := range first {
		first[j] = -1
	}
	last := nn - 1
	cnt := 0
	for k := 0; k < nn; k++ {
		for _, j := range p.LassoLarsNodes[k].Selection {
			if first[j] < 0 {
				first[j] = k
				cnt++
			}
		}
		if cnt >= want {
			last = k
			break
		}
	}
	vAssert(len(got) == cnt, "all features of the prefix that first reaches the wanted number")
	seen := make([]bool, nf)
	for q, j := range got {
		vAssert(j >= 0 && j < nf && !seen[j], "features are listed without repeats")
		seen[j] = true
		vAssert(first[j] >= 0 && first[j] <= last, "only features of the prefix are listed")
		if q > 0 {
			vAssert(first[got[q-1]] <= first[j], "features are listed in order of entrance")
		}
	}
	lo, hi := p.MaxMinFeatNo()
	for k := 0; k < nn; k++ {
		for _, j := range p.LassoLarsNodes[k].Selection {
			vAssert(lo <= j && j <= hi, "every feature number lies between the smallest and largest one")
		}
	}
	vReach("ranked")
}

// vhC30Path: paths of up to 3 nodes with every selection out of 3 features and arbitrary coefficients and penalties.
//verif:harness real budget=100 budgetT=600
func vhC30Path() {
	nn := vPick(0, 3)
	nf := 2 + vTier()
	var p LassoLarsPath
	val := make([][]float64, nn)
	lam := make([]float64, nn)
	for k := range val {
		val[k] = make([]float64, nf+1)
		m := vPick(0, 1<<uint(nf)-1)
		var sel []int
		var cf []float64
		for j := 0; j < nf; j++ {
			if m>>uint(j)&1 == 1 {
				v := vFloat(-10, 10)
				sel = append(sel, j)
				cf = append(cf, v)
				val[k][j] = v
			}
		}
		lam[k] = vFloat(1e-3, 100)
		p.LassoLarsNodes = append(p.LassoLarsNodes, NewLassoLarsNode(cf, lam[k], sel))
	}
	for f := 0; f <= nf; f++ {
		xy := p.ExtractPath(f)
		vAssert(len(xy) == nn, "one point per node")
		for k := range val {
			vEq(xy[k].Y, val[k][f], "the coefficient of the node, zero where it is absent")
			vEq(xy[k].X, math.Log10(lam[k]), "the logarithm of the penalty of the node")
		}
	}
	sp := LassoNodesSlice2SparsCoeff(p.LassoLarsNodes)
	vAssert(len(sp) == nn, "one coefficient set per node")
	for k := range sp {
		vAssert(EqualInt(sp[k].Selection, p.LassoLarsNodes[k].Selection), "selections are transferred")
		for q, v := range sp[k].Coeff {
			vEq(v, val[k][sp[k].Selection[q]], "coefficients are transferred")
		}
	}
	vReach("extracted")
}

// vhC30Wide: a path of 30 nodes over 25 features with features entering one by one and leaving, one arbitrary coefficient and penalty; every wanted number.
//verif:harness real
func vhC30Wide() {
	nn, nf := 30, 25
	v, l := vFloat(-10, 10), vFloat(1e-3, 100)
	var p LassoLarsPath
	var order []int
	seen := make([]bool, nf)
	upto := make([]int, nn)
	for k := 0; k < nn; k++ {
		var sel []int
		var cf []float64
		for f := 0; f < nf; f++ {
			if r := (f*7 + 3) % nf; r <= k && (k+r)%11 != 0 {
				sel = append(sel, f)
				cf = append(cf, float64(k*f)+0.5)
				if !seen[f] {
					seen[f] = true
					order = append(order, f)
				}
			}
		}
		lam := 100 / float64(k+1)
		if k == 17 {
			cf[3], lam = v, l
		}
		upto[k] = len(order)
		p.LassoLarsNodes = append(p.LassoLarsNodes, NewLassoLarsNode(cf, lam, sel))
	}
	want := vPick(1, nf+1)
	got := p.PickMostRelevantFeatures(want)
	cnt := len(order)
	for k := nn - 1; k >= 0; k-- {
		if upto[k] >= want {
			cnt = upto[k]
		}
	}
	vAssert(len(got) == cnt, "all features of the prefix that first reaches the wanted number")
	pos := make([]int, nf)
	for i, f := range order {
		for k := range upto {
			if upto[k] > i {
				pos[f] = k
				break
			}
		}
	}
	dup := make([]bool, nf)
	for i, f := range got {
		vAssert(!dup[f], "features are listed without repeats")
		dup[f] = true
		if i > 0 {
			vAssert(pos[got[i-1]] <= pos[f], "features are listed in order of entrance")
		}
	}
	for f := 0; f < nf; f += 6 {
		xy := p.ExtractPath(f)
		vAssert(len(xy) == nn, "one point per node")
		for k, n := range p.LassoLarsNodes {
			c := 0.0
			for i, j := range n.Selection {
				if j == f {
					c = n.Coeff[i]
				}
			}
			vEq(xy[k].Y, c, "the coefficient of the node, zero where it is absent")
			vEq(xy[k].X, math.Log10(n.Lamb), "the logarithm of the penalty of the node")
		}
	}
	vReach("wide")
}
