package featselect

import (
	"container/list"
	"math"

	"gonum.org/v1/gonum/mat"
)

func vhC41queue(lower []float64) (*list.List, []*Node) {
	q := list.New()
	var ns []*Node
	for _, l := range lower {
		n := NewNode(1, []bool{true, false, true})
		n.Lower, n.Upper = l, math.Inf(1)
		ns = append(ns, n)
		q.PushBack(n)
	}
	return q, ns
}

// vhC41kept asserts that the queue holds exactly these nodes, in that order
func vhC41kept(q *list.List, ns []*Node, keep []bool, lower []float64, msg string) {
	e := q.Front()
	for i, n := range ns {
		if !keep[i] {
			continue
		}
		vAssert(e != nil && e.Value.(*Node) == n, msg)
		vAssert(n.Lower == lower[i], "a node keeps its bound")
		e = e.Next()
	}
	vAssert(e == nil, msg)
}

// vhC41Clean: queues of 0..5 (thorough 7) nodes with any bounds and any best score (floating point numbers).
//verif:harness fp budget=100 budgetT=400
func vhC41Clean() {
	n := vPick(0, 5+2*vTier())
	lower, keep := make([]float64, n), make([]bool, n)
	for i := range lower {
		lower[i] = vReal()
	}
	th := vReal()
	for i := range lower {
		keep[i] = lower[i] <= th
	}
	q, ns := vhC41queue(lower)
	CleanQueue(q, th)
	vhC41kept(q, ns, keep, lower, "exactly the nodes whose bound is above the best score are dropped")
	vReach("clean")
}

// vhC41Full: queues of 1..5 (thorough 7) nodes with any bounds.
//verif:harness real budget=100 budgetT=400
func vhC41Full() {
	n := vPick(1, 5+2*vTier())
	lower, keep := make([]float64, n), make([]bool, n)
	sum := 0.0
	for i := range lower {
		lower[i] = vFloat(-1000, 1000)
		sum += lower[i]
	}
	for i := range lower {
		d := float64(n)*lower[i] - sum
		vAssume(d < -1e-3 || d > 1e-3) // not on the border
		keep[i] = d < 0
	}
	q, ns := vhC41queue(lower)
	RemoveLeastPromising(q)
	vhC41kept(q, ns, keep, lower, "exactly the nodes with a bound above the mean are dropped from a full queue")
	vReach("full")
}

// vhC41Equal: queues of 1..6 (thorough 9) nodes with the same bound, any floating point number.
//verif:harness fp budget=100 budgetT=400
func vhC41Equal() {
	n := vPick(1, 6+3*vTier())
	lower, keep := make([]float64, n), make([]bool, n)
	x := vFloat(-1000, 1000)
	for i := range lower {
		lower[i], keep[i] = x, true
	}
	q, ns := vhC41queue(lower)
	RemoveLeastPromising(q)
	vhC41kept(q, ns, keep, lower, "no node is dropped when all are equally promising")
	vReach("equal")
}

var vhC41g struct {
	lower []float64 // by code: a leading one followed by the decided features
	used  bool
}

func vhC41code(m []bool, level int) int {
	c := 1
	for i := 0; i < level; i++ {
		c *= 2
		if m[i] {
			c++
		}
	}
	return c
}

func vhC41child(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
	vhC41g.used = true
	c := node.GetChildNode(flip)
	c.Lower, c.Upper = vhC41g.lower[vhC41code(c.Model, c.Level)], 1e100
	return c
}

func vhC41score(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
	for n := range nodeCh {
		n.Score = -math.MaxFloat64
		if n.WasFlipped || NumFeatures(n.Model) > 0 {
			n.Coeff = make([]float64, NumFeatures(n.Model))
			n.Score = -5000
		}
		scoreCh <- n
	}
}

// vhC41search runs the search with a queue limit and tells which models were listed
func vhC41search(nf, limit int) map[int]bool {
	h := NewHighscore(100)
	var sp SearchProgress
	p := NewSelectModelOptParams()
	p.MaxQueueSize = limit
	vhC41g.used = false
	SelectModel(mat.NewDense(4, nf, nil), []float64{1, 2, 3, 5}, h, &sp, p)
	vAssume(vhC41g.used)
	found := map[int]bool{}
	for e := h.Items.Front(); e != nil; e = e.Next() {
		found[vhC41code(e.Value.(*Node).Model, nf)] = true
	}
	return found
}

// vhC41Best: 3 features, queue limits of 1..3; the subtrees that lead to one model have the smallest bound, all others any larger one.
//verif:harness real delay=0 delayT=1 budget=100 budgetT=600 stub=CreateChild:vhC41child stub=ScoreWorker:vhC41score
func vhC41Best() {
	nf := 3
	target := 1<<uint(nf) + vPick(1, 1<<uint(nf)-1)
	g := &vhC41g
	g.lower = make([]float64, 2<<uint(nf))
	for i := range g.lower {
		g.lower[i] = vFloat(0, 1000)
	}
	for c := target; c > 1; c /= 2 {
		g.lower[c] = -1
	}
	found := vhC41search(nf, vPick(1, 3))
	vAssert(found[target], "the most promising subtree is explored however small the queue is")
	vReach("best")
}

// vhC41AllEqual: 4 features (thorough 5), all subtrees equally promising, bounds whose mean is rounded down or up, queue limits of 1..6.
//verif:harness fp delay=0 budget=100 budgetT=600 stub=CreateChild:vhC41child stub=ScoreWorker:vhC41score
func vhC41AllEqual() {
	nf := 4 + vTier()
	x := []float64{0.1, -0.7, 1.1, -55.3, 123.456, -98.76543210123}[vPick(0, 5)]
	g := &vhC41g
	g.lower = make([]float64, 2<<uint(nf))
	for i := range g.lower {
		g.lower[i] = x
	}
	found := vhC41search(nf, vPick(1, 6))
	vAssert(len(found) == 1<<uint(nf)-1, "every model is explored when all subtrees are equally promising, however small the queue is")
	vReach("all equal")
}

var vhC41drops struct {
	calls, limit int
}

// vhC41drop stands in for RemoveLeastPromising: the node that arrived last is given up
func vhC41drop(q *list.List) {
	d := &vhC41drops
	d.calls++
	vAssert(q.Len() == d.limit+1, "nodes are given up as soon as one more than the limit waits, and only then")
	q.Remove(q.Back())
}

// vhC41Limit: when nodes are given up. 3 or 4 features (thorough also 5), queue limits of 1..12.
//verif:harness real delay=0 delayT=1 budget=100 budgetT=600 stub=CreateChild:vhC41child stub=ScoreWorker:vhC41score stub=RemoveLeastPromising:vhC41drop
func vhC41Limit() {
	nf := vPick(3, 4+vTier())
	g := &vhC41g
	g.lower = make([]float64, 2<<uint(nf))
	d := &vhC41drops
	d.calls, d.limit = 0, vPick(1, 12)
	found := vhC41search(nf, d.limit)
	if d.calls == 0 {
		vAssert(len(found) == 1<<uint(nf)-1, "every model is explored when the queue is never full")
		vReach("never full")
	} else {
		vReach("given up")
	}
}
