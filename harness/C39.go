package featselect

import (
	"math"
	"sync"

	"gonum.org/v1/gonum/mat"
)

var vhC39g struct {
	mu      sync.Mutex
	left    func(child *Node, first bool) bool // is this child left out?
	total   float64                            // models in the subtrees left out
	sure    float64                            // ... of these, the ones left out before a score that is certainly reported later
	pending map[*Node]float64
	created int
	scored  int
	score   func(code int) float64 // the score of a model (feature i is bit i)
	scores  []float64
	table   map[int]bool
}

func vhC39code(m []bool) int {
	c := 0
	for i := range m {
		if m[i] {
			c += 1 << uint(i)
		}
	}
	return c
}

func vhC39size(child *Node) float64 {
	s := 1.0
	for i := child.Level; i < len(child.Model); i++ {
		s *= 2
	}
	return s
}

func vhC39child(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
	g := &vhC39g
	g.mu.Lock()
	defer g.mu.Unlock()
	g.created++
	child := node.GetChildNode(flip)
	first := !flip
	if g.left(child, first) {
		g.total += vhC39size(child)
		if first {
			g.pending[node] = vhC39size(child)
		}
		return nil
	}
	if !first { // the sibling was handed over before this one
		g.sure += g.pending[node]
	}
	child.Lower, child.Upper = -1e100, 1e100
	return child
}

func vhC39score(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
	g := &vhC39g
	for n := range nodeCh {
		n.Score = -math.MaxFloat64
		if isNewNode(n) {
			n.Score = g.score(vhC39code(n.Model))
			g.mu.Lock()
			g.scores = append(g.scores, n.Score)
			g.scored++
			g.mu.Unlock()
		}
		scoreCh <- n
	}
}

func vhC39run(p int, root []bool) {
	g := &vhC39g
	g.total, g.sure, g.created, g.scored, g.scores = 0, 0, 0, 0, nil
	g.pending = map[*Node]float64{}
	X := mat.NewDense(p+2, p, nil)
	y := make([]float64, p+2)
	for i := range y {
		y[i] = float64((i*i)%5) - 1
		for j := 0; j < p; j++ {
			X.Set(i, j, float64((i*i*3+j*j*7+i*j*5+i*i*j)%13-6)*0.25)
		}
	}
	h := NewHighscore(1000)
	sp := SearchProgress{BestScore: 12345, NumExplored: 678, Log2NumPruned: 91}
	params := NewSelectModelOptParams()
	params.RootModel = root
	SelectModel(X, y, h, &sp, params)
	best, n, lp := sp.Get()
	if g.created == 0 || g.scored == 0 && h.Len() > 1 {
		// the search is organised differently
		vReach("left_out")
		vReach("all_visited")
		return
	}
	if g.scored == 0 {
		return
	}
	vAssert(n == g.scored || n == g.scored-1, "the number of models explored counts the models scored (the last one may be missing)")
	scores := append([]float64(nil), g.scores...)
	if root != nil {
		for e := h.Items.Front(); e != nil; e = e.Next() {
			if e.Value.(*Node).Level == 0 {
				scores = append(scores, e.Value.(*Node).Score)
			}
		}
	}
	if len(scores) > 1 {
		vLe(best, h.BestScore(), "the best score is not better than the best model")
	}
	worse := 0
	for _, s := range scores {
		if s > best {
			worse++
		}
	}
	vAssert(worse <= 1, "the best score is that of the best model (the last one may be missing)")
	if len(scores) > 1 {
		in := false
		for _, s := range scores {
			in = in || s == best
		}
		vAssert(in, "the best score is that of a model")
	}
	vLe(math.Pow(2, lp), g.total+1+1e-6, "no more models are reported as left out than there are in the subtrees left out")
	vLe(g.sure+1, math.Pow(2, lp)+1e-6, "all models of the subtrees left out are counted")
	if g.sure > 0 {
		vReach("left_out")
	}
	if g.total == 0 {
		vReach("all_visited")
	}
}

func vhC39key(c *Node) int { return c.Level<<10 | vhC39code(c.Model) }

// vhC39draw decides for both children of a node whether they are left out, and then for the children of those that are kept
func vhC39draw(n *Node) {
	if n.Level >= len(n.Model) {
		return
	}
	for _, flip := range []bool{false, true} {
		c := n.GetChildNode(flip)
		if vPick(0, 1) == 1 {
			vhC39g.table[vhC39key(c)] = true
		} else {
			vhC39draw(c)
		}
	}
}

// vhC39Progress: 3 features, every pattern of subtrees left out, arbitrary scores of two models and fixed ones of the others, starting from
// no model and from one.
//verif:harness real stub=CreateChild:vhC39child stub=ScoreWorker:vhC39score budget=100 must=left_out,all_visited
func vhC39Progress() {
	g := &vhC39g
	var root []bool
	if vPick(0, 1) == 1 {
		root = []bool{false, true, false}
	}
	g.table = map[int]bool{}
	m := make([]bool, 3)
	copy(m, root)
	vhC39draw(NewNode(0, m))
	g.left = func(c *Node, first bool) bool { return g.table[vhC39key(c)] }
	a, b := vFloat(-100, 100), vFloat(-100, 100)
	g.score = func(k int) float64 {
		switch k {
		case 1:
			return a
		case 7:
			return b
		}
		return float64((k*7)%11) - 5
	}
	vhC39run(3, root)
}

// vhC39Wide: 7 features; all subtrees with more than one, two or seven features are left out, and those at one odd level that have (have not) the feature of
// that level changed.
//verif:harness real stub=CreateChild:vhC39child stub=ScoreWorker:vhC39score budget=100 must=left_out
func vhC39Wide() {
	g := &vhC39g
	level := 1 + 2*vPick(0, 3)
	flip := vPick(0, 1) == 1
	most := []int{1, 2, 7}[vPick(0, 2)]
	g.left = func(c *Node, first bool) bool {
		return NumFeatures(c.Model) > most || c.Level == level && first == flip
	}
	at := []int{1, 64, 5}[vPick(0, 2)]
	x := vFloat(-100, 100)
	g.score = func(k int) float64 {
		if k == at {
			return x
		}
		return float64((k*29)%61) - 5
	}
	vhC39run(7, nil)
}
