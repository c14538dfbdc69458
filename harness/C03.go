package featselect

//uses lib_fit.go

import (
	"math"

	"gonum.org/v1/gonum/mat"
)

// vhC03Enum: the tree of unchanged and flipped children from every starting model with 1..5 (thorough 7) features.
//verif:harness real
func vhC03Enum() {
	p := vPick(1, 5+2*vTier())
	root := make([]bool, p)
	for i := range root {
		root[i] = vBool()
	}
	rn := NewNode(0, root)
	var todo []*Node
	todo = append(todo, rn)
	seen := make([]int, 1<<uint(p))
	add := func(m []bool) {
		// position relative to the starting model
		k := 0
		for i := range m {
			if m[i] != root[i] {
				k += 1 << uint(i)
			}
		}
		seen[k]++
	}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		vAssert(len(n.Model) == p, "every node has all features")
		if n.Level == 0 || n.WasFlipped {
			add(n.Model)
		}
		if n.Level == p {
			continue
		}
		before := append([]bool(nil), n.Model...)
		lev, fl := n.Level, n.WasFlipped
		a, b := n.GetChildNode(false), n.GetChildNode(true)
		vAssert(n.Level == lev && n.WasFlipped == fl, "the parent keeps its level and mark")
		vAssert(a.Level == lev+1 && b.Level == lev+1, "children are one level deeper")
		vAssert(!a.WasFlipped && b.WasFlipped, "only the flipped child is marked")
		for i := range before {
			vAssert(n.Model[i] == before[i], "the parent keeps its model")
			vAssert(a.Model[i] == before[i], "the unchanged child has the model of the parent")
			vAssert(b.Model[i] == (before[i] != (i == lev)), "the flipped child differs in exactly one feature")
		}
		// children share nothing with the parent
		b.Model[0] = !b.Model[0]
		vAssert(n.Model[0] == before[0] && a.Model[0] == before[0], "models are independent of each other")
		b.Model[0] = !b.Model[0]
		todo = append(todo, a, b)
	}
	for k := range seen {
		vAssert(seen[k] == 1, "every model is new exactly once")
	}
	vReach("enum")
}

func vhC03check(X *mat.Dense, y []float64) {
	n, p := X.Dims()
	x0 := append([]float64(nil), X.RawMatrix().Data...)
	y0 := append([]float64(nil), y...)
	h := BruteForceSelect(X, y)
	total := 1 << uint(p)
	vAssert(h.Len() == total-1, "every non-empty model is listed")
	seen := make([]bool, total)
	last := math.Inf(1)
	for e := h.Items.Front(); e != nil; e = e.Next() {
		nd := e.Value.(*Node)
		vAssert(len(nd.Model) == p, "every model has all features")
		k, code := 0, 0
		for i, b := range nd.Model {
			if b {
				k++
				code += 1 << uint(i)
			}
		}
		vAssert(!seen[code] && code > 0, "no model is listed twice")
		seen[code] = true
		vAssert(nd.Score <= last, "best first")
		last = nd.Score
		rss, c := vhRSS(X, nd.Model, y0)
		vAssume(rss >= 1e-6)
		vAssert(len(nd.Coeff) == k, "one coefficient per selected feature")
		for j := range c {
			vEq(nd.Coeff[j], c[j], "least squares coefficients")
		}
		d := float64(n - k - 1)
		if k >= n-1 {
			d = 1
		}
		vEq(nd.Score, -(2*float64(k) + float64(n)*math.Log(rss) + float64(2*k*k+2*k)/d), "the score is the negated AICc")
	}
	for i := range y {
		vEq(y[i], y0[i], "the response is unchanged")
	}
	for i, w := range X.RawMatrix().Data {
		vEq(w, x0[i], "the design matrix is unchanged")
	}
	vReach("brute")
}

// vhC03Brute: exhaustive search over integer designs (correlated and orthogonal, 4..5 rows, 1..3, thorough 4 columns) and responses v+t*w with t in
// [-10,10] without perfect fits (every residual sum at least 1e-6). Fits are taken from the normal equations.
//verif:harness real budget=200 budgetT=800 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC03Brute() {
	X := vhDesign([]int{0, 2, 5, 4}[vPick(0, 2+vTier())])
	n, nc := X.Dims()
	if nc == 4 && n == 4 {
		nc = 3
	}
	p := vPick(1, nc)
	X = mat.DenseCopyOf(X.Slice(0, n, 0, p))
	v := []float64{1, -2, 3, 0.5, 1}
	w := []float64{0.25, 1, 1, -1, 4}
	t := vFloat(-10, 10)
	y := make([]float64, n)
	for i := range y {
		y[i] = v[i] + t*w[i]
	}
	vhC03check(X, y)
}

// vhC03Orth: orthogonal +-1 designs with 4 rows and 1..2 columns, real fits, every response with components sqrt(a_j), a_j in [0,100], without perfect fits.
//verif:harness real budget=200 budgetT=800
func vhC03Orth() {
	H := vhDesign(5)
	p := vPick(1, 2)
	X := mat.DenseCopyOf(H.Slice(0, 4, 0, p))
	y := make([]float64, 4)
	for j := 0; j < 4; j++ {
		a := vSqrt(vFloat(0, 100))
		if j == 0 && vPick(0, 1) == 1 {
			a = -a
		}
		for i := range y {
			y[i] += a * H.At(i, j)
		}
	}
	vhC03check(X, y)
}

// vhC03Wide: 8 (thorough 10) features from three starting models, every model of the tree; a chain of children down 70 levels.
//verif:harness real
func vhC03Wide() {
	p := 8 + 2*vTier()
	root := make([]bool, p)
	k0 := vPick(0, 2)
	for i := range root {
		root[i] = k0 == 1 || k0 == 2 && i%3 == 0
	}
	todo := []*Node{NewNode(0, root)}
	seen := make([]int, 1<<uint(p))
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if n.Level == 0 || n.WasFlipped {
			k := 0
			for i := range n.Model {
				if n.Model[i] {
					k += 1 << uint(i)
				}
			}
			seen[k]++
		}
		if n.Level < p {
			todo = append(todo, n.GetChildNode(false), n.GetChildNode(true))
		}
	}
	for k := range seen {
		vAssert(seen[k] == 1, "every model is new exactly once")
	}
	d := 70
	m := make([]bool, d)
	for i := range m {
		m[i] = i%4 == 1
	}
	n := NewNode(0, append([]bool(nil), m...))
	for l := 0; l < d; l++ {
		flip := l%5 == 2 || l > 60
		if l == 65 {
			flip = vBool()
		}
		c := n.GetChildNode(flip)
		if flip {
			m[l] = !m[l]
		}
		vAssert(c.Level == l+1 && c.WasFlipped == flip && len(c.Model) == d, "children are one level deeper")
		for i := range m {
			vAssert(c.Model[i] == m[i], "a child differs from its parent in at most the feature of the level")
		}
		n = c
	}
	vReach("wide")
}

// vhC03Many: exhaustive search over 7 rows and 5 correlated features, a given response plus t in [0,0.001] times a direction.
//verif:harness real budget=100 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC03Many() {
	n, p := 7, 5
	X := mat.NewDense(n, p, nil)
	y := make([]float64, n)
	t := vFloat(0, 0.001)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*0.25)
		}
		y[i] = X.At(i, 1) - 0.5*X.At(i, 4) + 0.5*float64(i%3) + t*float64(i%4-1)
	}
	vhC03check(X, y)
}
