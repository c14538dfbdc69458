package featselect

//uses lib_fit.go

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

func vhC37aicc(k, n int, rss float64) float64 {
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return 2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/d
}

func vhC37data(k int) (*mat.Dense, []float64) {
	X := vhDesign(k)
	n, p := X.Dims()
	if p > 3 {
		X = mat.DenseCopyOf(X.Slice(0, n, 0, 3))
	}
	y := [][]float64{{1, -2, 3, 0.5, 1}, {2, 1, -1, 3, 0.25}, {0.5, 3, 2, -1, -2}}[vPick(0, 2)]
	return X, append([]float64(nil), y[:n]...)
}

// vhC37Child: both children of every node with three features (designs with 2, 4 and 5 rows, three responses), no best model yet or one with any
// score, any cutoff.
//verif:harness real budget=100 budgetT=300 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC37Child() {
	X, y := vhC37data([]int{0, 3, 4}[vPick(0, 2)])
	n, p := X.Dims()
	m := make([]bool, p)
	for i := range m {
		m[i] = vPick(0, 1) == 1
	}
	l := vPick(0, p-1)
	flip := vPick(0, 1) == 1
	h := NewHighscore(3)
	best := 0.0
	have := vPick(0, 1) == 1
	if have {
		other := NewNode(p, []bool{true, false, false})
		best = vFloat(-200, 200)
		other.Score = -best
		h.Insert(other)
	}
	c := vFloat(-100, 100)
	m0 := append([]bool(nil), m...)
	child := CreateChild(NewNode(l, m), flip, X, y, c, h)
	q := append([]bool(nil), m0...)
	if flip {
		q[l] = !q[l]
	}
	fixed, k := 0, 0
	for i, b := range q {
		if b {
			k++
			if i <= l {
				fixed++
			}
		}
		vAssert(m[i] == m0[i], "the parent keeps its model")
	}
	if fixed >= n {
		vAssert(child == nil, "a subtree without a model that can be fitted is left out")
		vReach("too many features")
		return
	}
	if k == 0 {
		vAssert(child != nil, "a subtree without bounds is kept")
		vReach("no bounds")
		return
	}
	lo, up := BoundsAICC(q, l+1, X, y)
	if child == nil {
		vAssert(have, "nothing is left out before there is a best model")
		vLe(best, lo+c, "a subtree is only left out if its lower bound plus the cutoff exceeds the best AICc")
		vReach("left out")
		return
	}
	vAssert(child.Level == l+1 && child.WasFlipped == flip && len(child.Model) == p, "the child is one level deeper")
	for i := range q {
		vAssert(child.Model[i] == q[i], "the child has the model of the parent with the feature of the level flipped or not")
	}
	vEq(child.Lower, lo, "the child carries its lower bound")
	vEq(child.Upper, up, "the child carries its upper bound")
	if have {
		vLe(lo+c, best, "a subtree whose lower bound plus the cutoff exceeds the best AICc is left out")
	}
	vReach("kept")
}

func vhC37search(c float64) {
	X, y := vhC37data([]int{0, 4}[vPick(0, 1)])
	n, p := X.Dims()
	opt := 0.0
	for code := 1; code < 1<<uint(p); code++ {
		m := make([]bool, p)
		k := 0
		for i := range m {
			m[i] = code>>uint(i)&1 == 1
			if m[i] {
				k++
			}
		}
		rss, _ := vhRSS(X, m, y)
		if a := vhC37aicc(k, n, math.Max(rss, 1e-12)); code == 1 || a < opt {
			opt = a
		}
	}
	h := NewHighscore(100)
	var sp SearchProgress
	params := NewSelectModelOptParams()
	params.Cutoff = c
	switch vPick(0, 2) {
	case 1:
		params.RootModel = []bool{true, false, false}
	case 2:
		params.RootModel = []bool{false, true, true}
	}
	SelectModel(X, y, h, &sp, params)
	vAssert(h.Len() > 0, "the search finds a model")
	best := -h.BestScore()
	if c > 0 {
		vLe(best, opt+c+1e-9, "the best model is at most the cutoff above the optimum")
		vReach("positive")
	} else {
		vLe(best, opt+1e-9, "a cutoff below zero does not lose the optimum")
		vReach("negative")
	}
	if c <= -300 {
		all := 0
		for e := h.Items.Front(); e != nil; e = e.Next() {
			if NumFeatures(e.Value.(*Node).Model) > 0 {
				all++
			}
		}
		vAssert(all == 1<<uint(p)-1, "every model is visited when the cutoff is far below zero")
		vReach("all")
	}
	if c >= 300 {
		vAssert(h.Len() < 1<<uint(p)-1, "a cutoff far above zero leaves subtrees out")
		vReach("few")
	}
}

// vhC37Search: the whole search with three features, any cutoff in [-100,100], three responses, three starting models.
//verif:harness real delay=0 delayT=1 budget=60 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC37Search() { vhC37search(vFloat(-100, 100)) }

// vhC37Far: the same with cutoffs between 300 and 1000 in size: all models or few of them are visited.
//verif:harness real delay=1 delayT=2 budget=60 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC37Far() {
	c := vFloat(300, 1000)
	if vPick(0, 1) == 0 {
		c = -c
	}
	vhC37search(c)
}
