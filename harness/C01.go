package featselect

//uses lib_fit.go

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

func vhC01aicc(k, n int, rss float64) float64 {
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return 2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/d
}

func vhC01data(k int) (*mat.Dense, []float64) {
	X := vhDesign(k)
	n, p := X.Dims()
	if k == 5 {
		p = 3
		X = mat.DenseCopyOf(X.Slice(0, n, 0, p))
	}
	v := []float64{1, -2, 3, 0.5, 1}
	w := []float64{0.25, 1, 1, -1, 4}
	t := vFloat(-10, 10)
	y := make([]float64, n)
	for i := range y {
		y[i] = v[i] + t*w[i]
	}
	return X, y
}

func vhC01check(X mat.Matrix, y []float64, root []bool, capacity int) {
	n, p := X.Dims()
	h := NewHighscore(capacity)
	var sp SearchProgress
	params := NewSelectModelOptParams()
	y0 := append([]float64(nil), y...)
	if root != nil {
		params.RootModel = append([]bool(nil), root...)
	}
	SelectModel(X, y, h, &sp, params)
	vAssert(h.Len() > 0, "the search finds a model")
	total := 1 << uint(p)
	seen := make([]bool, total)
	first := true
	best := 0.0
	for e := h.Items.Front(); e != nil; e = e.Next() {
		nd := e.Value.(*Node)
		k, code := 0, 0
		for i, b := range nd.Model {
			if b {
				k++
				code += 1 << uint(i)
			}
		}
		vAssert(!seen[code], "no model is listed twice")
		seen[code] = true
		if first {
			best = nd.Score
			vAssert(k > 0 && k < n, "the best model can be fitted")
		}
		first = false
		if k == 0 || k >= n {
			continue
		}
		rss, c := vhRSS(X, nd.Model, y0)
		vAssume(rss >= 1e-6)
		vAssert(len(nd.Coeff) == k, "one coefficient per selected feature")
		for j := range c {
			vEq(nd.Coeff[j], c[j], "least squares coefficients of the listed model")
		}
		vEq(nd.Score, -vhC01aicc(k, n, rss), "the score is the negated AICc of the listed model")
	}
	for code := 1; code < total; code++ {
		m := make([]bool, p)
		k := 0
		for i := range m {
			m[i] = code>>uint(i)&1 == 1
			if m[i] {
				k++
			}
		}
		if k >= n {
			continue
		}
		rss, _ := vhRSS(X, m, y0)
		vAssume(rss >= 1e-6)
		vLe(-best, vhC01aicc(k, n, rss)+1e-9, "no model has a smaller AICc than the best entry")
	}
	for i := range y {
		vEq(y[i], y0[i], "the response is unchanged")
	}
	vReach("optimal")
}

// vhC01Empty: the default starting model; integer designs with 3 features (4 and 2 rows, correlated; 4 rows, orthogonal), responses v+t*w with t in [-10,10].
//verif:harness real delay=1 delayT=2 budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC01Empty() {
	X, y := vhC01data([]int{0, 3, 5}[vPick(0, 2)])
	vhC01check(X, y, nil, 100)
}

// vhC01Root: every non-empty starting model, also ones with as many features as data points or more; 3 features (4 and 2 rows) and 4 features with 3 rows.
//verif:harness real delay=0 delayT=1 budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC01Root() {
	X, y := vhC01data([]int{0, 3, 1}[vPick(0, 2)])
	_, p := X.Dims()
	root := make([]bool, p)
	code := vPick(1, 1<<uint(p)-1)
	for i := range root {
		root[i] = code>>uint(i)&1 == 1
	}
	vhC01check(X, y, root, 100)
}

// vhC01Capacity: highscore lists with room for 1..3 models, starting models empty, first feature or last feature.
//verif:harness real delay=0 delayT=1 budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC01Capacity() {
	X, y := vhC01data([]int{0, 1, 4}[vPick(0, 2)])
	_, p := X.Dims()
	root := make([]bool, p)
	switch vPick(0, 2) {
	case 1:
		root[0] = true
	case 2:
		root[p-1] = true
	}
	vhC01check(X, y, root, vPick(1, 3))
}

// vhC01Orth: real fits of an orthogonal +-1 design with 4 rows and 3 columns, every response with components sqrt(a_j), a_j in [0.01,100], along the columns.
//verif:harness real delay=0 budget=200 budgetT=600
func vhC01Orth() {
	H := vhDesign(5)
	X := mat.DenseCopyOf(H.Slice(0, 4, 0, 3))
	y := make([]float64, 4)
	for j := 0; j < 4; j++ {
		a := vSqrt(vFloat(0.01, 100))
		for i := range y {
			y[i] += a * H.At(i, j)
		}
	}
	vhC01check(X, y, nil, 10)
}

// vhC01Exact: responses that some model reproduces exactly (residual sums below the tolerance): the search ends with a model of best score, all
// scores are finite.
//verif:harness real delay=0 delayT=1 budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC01Exact() {
	X := vhDesign([]int{0, 5}[vPick(0, 1)])
	n, p := X.Dims()
	y := make([]float64, n)
	t := vFloat(1, 10)
	code := vPick(0, 1<<uint(p)-1)
	for j := 0; j < p; j++ {
		if code>>uint(j)&1 == 1 {
			for i := range y {
				y[i] += t * X.At(i, j)
			}
		}
	}
	h := NewHighscore(10)
	var sp SearchProgress
	SelectModel(X, y, h, &sp, nil)
	vAssert(h.Len() > 0, "the search finds a model")
	for e := h.Items.Front(); e != nil; e = e.Next() {
		s := e.Value.(*Node).Score
		vAssert(!math.IsInf(s, 0) && !math.IsNaN(s), "every score is finite")
	}
	for c := 1; c < 1<<uint(p); c++ {
		m := make([]bool, p)
		k := 0
		for i := range m {
			m[i] = c>>uint(i)&1 == 1
			if m[i] {
				k++
			}
		}
		if k >= n {
			continue
		}
		rss, _ := vhRSS(X, m, y)
		vLe(-h.BestScore(), vhC01aicc(k, n, math.Max(rss, RssTol))+1e-9, "no model has a smaller AICc (with floored residual sum) than the best entry")
	}
	vReach("exact")
}

// vhC01Queue: with a maximum queue size of 1..3 the search still ends and every listed model carries its own score and coefficients.
//verif:harness real delay=0 delayT=1 budget=200 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC01Queue() {
	X, y := vhC01data([]int{0, 4}[vPick(0, 1)])
	n, _ := X.Dims()
	h := NewHighscore(100)
	var sp SearchProgress
	params := NewSelectModelOptParams()
	params.MaxQueueSize = vPick(1, 3)
	SelectModel(X, y, h, &sp, params)
	vAssert(h.Len() > 0, "the search finds a model")
	for e := h.Items.Front(); e != nil; e = e.Next() {
		nd := e.Value.(*Node)
		k := NumFeatures(nd.Model)
		vAssert(k > 0 && k < n, "listed models can be fitted")
		rss, c := vhRSS(X, nd.Model, y)
		vAssume(rss >= 1e-6)
		for j := range c {
			vEq(nd.Coeff[j], c[j], "least squares coefficients of the listed model")
		}
		vEq(nd.Score, -vhC01aicc(k, n, rss), "the score is the negated AICc of the listed model")
	}
	vReach("queue")
}

var vhC01prune []bool
var vhC01used bool

// vhC01child stands in for CreateChild: an arbitrary subset of the subtrees is pruned
func vhC01child(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
	vhC01used = true
	c := node.GetChildNode(flip)
	code := 1
	for i := 0; i < c.Level; i++ {
		code *= 2
		if c.Model[i] {
			code++
		}
	}
	if vhC01prune[code] {
		return nil
	}
	return c
}

// vhC01Prune: three features, every subset of the subtrees pruned, schedules with one deviation: the search ends and every model outside pruned
// subtrees is inserted exactly once.
//verif:harness real delay=1 delayT=2 budget=200 budgetT=400 stub=CreateChild:vhC01child
func vhC01Prune() {
	p := 3
	vhC01prune = make([]bool, 2<<uint(p))
	for i := 2; i < len(vhC01prune); i++ {
		vhC01prune[i] = vBool()
	}
	vhC01once(p)
}

// vhC01Sched: three features, six patterns of pruned subtrees, schedules with up to three (thorough four) deviations.
//verif:harness real delay=3 delayT=4 budget=200 budgetT=400 stub=CreateChild:vhC01child
func vhC01Sched() {
	p := 3
	vhC01prune = make([]bool, 2<<uint(p))
	for _, c := range [][]int{{}, {2, 3}, {4, 5, 6, 7}, {2, 7}, {3, 8, 9}, {8, 9, 10, 11, 12, 13, 14, 15}}[vPick(0, 5)] {
		vhC01prune[c] = true
	}
	vhC01once(p)
}

// vhC01All: three features, thirteen patterns of pruned subtrees (from all but one node pruned to almost none; thorough: also no pruning), all interleavings.
//verif:harness real full budget=100 budgetT=500 stub=CreateChild:vhC01child
func vhC01All() {
	p := 3
	vhC01prune = make([]bool, 2<<uint(p))
	for _, c := range [][]int{{2, 3}, {2, 6, 7}, {4, 5, 6, 7}, {3, 4, 10, 11}, {2, 7}, {3, 8, 9}, {5, 7}, {3, 5}, {2, 6}, {2}, {3}, {8, 9, 10, 11, 12, 13, 14, 15}, {}}[vPick(0, 11+vTier())] {
		vhC01prune[c] = true
	}
	vhC01once(p)
}

func vhC01once(p int) {
	X := mat.NewDense(2, p, []float64{1, 1, 1, 1, 1, 1})
	h := NewHighscore(100)
	var sp SearchProgress
	vhC01used = false
	SelectModel(X, []float64{1, 2}, h, &sp, nil)
	if !vhC01used { // children are created in another way: nothing is known about the pruned subtrees
		vReach("once")
		return
	}
	n := 0
	for code := 1; code < 1<<uint(p); code++ {
		m := make([]bool, p)
		for i := range m {
			m[i] = code>>uint(i)&1 == 1
		}
		ok := true
		last := 0
		for i := range m {
			if m[i] {
				last = i
			}
		}
		c := 1
		for i := 0; i <= last; i++ {
			c *= 2
			if m[i] {
				c++
			}
			if vhC01prune[c] {
				ok = false
			}
		}
		if ok {
			n++
		}
		found := 0
		for e := h.Items.Front(); e != nil; e = e.Next() {
			same := true
			for i := range m {
				if e.Value.(*Node).Model[i] != m[i] {
					same = false
				}
			}
			if same {
				found++
			}
		}
		if ok {
			vAssert(found == 1, "every model outside pruned subtrees is listed once")
		} else {
			vAssert(found == 0, "models of pruned subtrees are not listed")
		}
	}
	vAssert(h.Len() == n, "nothing else is listed")
	vReach("once")
}

// vhC01Wide: 9 rows and 6 (thorough 8) correlated features, a given response plus t in [0,0.002] times a direction; starting models empty or mixed; room
// for 5 models or all.
//verif:harness real delay=0 budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC01Wide() {
	n, p := 9, 6+2*vTier()
	X := mat.NewDense(n, p, nil)
	y := make([]float64, n)
	t := vFloat(0, 0.002)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*0.25)
		}
		y[i] = X.At(i, 1) - 0.5*X.At(i, 4) + 0.5*float64(i%3) + t*float64(i%4-1)
	}
	var root []bool
	if vPick(0, 1) == 1 {
		root = make([]bool, p)
		root[0], root[p-2] = true, true
	}
	vhC01check(X, y, root, []int{5, 100}[vPick(0, 1)])
}
