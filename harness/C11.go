package featselect

import (
	"encoding/json"
	"io/ioutil"

	"gonum.org/v1/gonum/mat"
)

func vhC11node(p int, id string) *Node {
	model := make([]bool, p)
	for i := range model {
		model[i] = vBool()
	}
	n := NewNode(vPick(0, p), model)
	for i := range n.Coeff {
		n.Coeff[i] = vReal()
	}
	n.Lower, n.Upper, n.Score = vReal(), vReal(), vReal()
	return n
}

func vhC11sameNode(a, b *Node, msg string) {
	vAssert(len(a.Model) == len(b.Model) && a.Level == b.Level && len(a.Coeff) == len(b.Coeff), msg+": shape and level")
	for i := range a.Model {
		vAssert(a.Model[i] == b.Model[i], msg+": model bits")
	}
	for i := range a.Coeff {
		vEq(a.Coeff[i], b.Coeff[i], msg+": coefficients")
	}
	vEq(a.Lower, b.Lower, msg+": lower bound")
	vEq(a.Upper, b.Upper, msg+": upper bound")
	vEq(a.Score, b.Score, msg+": score")
}

// vhC11Node: every node with 1..4 (thorough 5) features, any level, arbitrary bounds, score and coefficients.
//verif:harness real
func vhC11Node() {
	n := vhC11node(vPick(1, 4+vTier()), "n")
	b, err := json.Marshal(n)
	vAssert(err == nil, "a node can be encoded")
	var g Node
	vAssert(json.Unmarshal(b, &g) == nil, "an encoded node can be decoded")
	vhC11sameNode(n, &g, "decoded node")
	vAssert(NodesEqual(n, &g) && NodesEqual(&g, n), "the decoded node is equal")
	vReach("node")
}

// vhC11Equal: node equality over pairs of nodes with 1..3 features that differ in one model bit, the level, a bound, the score, a coefficient or nothing.
//verif:harness real
func vhC11Equal() {
	p := vPick(1, 3)
	n := vhC11node(p, "n")
	g := NewNode(n.Level, n.Model)
	copy(g.Coeff, n.Coeff)
	g.Lower, g.Upper, g.Score = n.Lower, n.Upper, n.Score
	vAssert(NodesEqual(n, g), "equal nodes are equal")
	d := vReal()
	vAssume(d > 1 || d < -1)
	switch vPick(0, 5) {
	case 0:
		i := vPick(0, p-1)
		g.Model[i] = !g.Model[i]
	case 1:
		g.Level++
	case 2:
		g.Lower += d
	case 3:
		g.Upper += d
	case 4:
		g.Score += d
	case 5:
		vAssume(len(g.Coeff) > 0)
		vAssume(n.Coeff[0] < 1e6 && n.Coeff[0] > -1e6)
		g.Coeff[vPick(0, len(g.Coeff)-1)] = 2e6
		vAssume(NumFeatures(n.Model) == 1)
	}
	vAssert(!NodesEqual(n, g) && !NodesEqual(g, n), "a difference is detected")
	vReach("equal")
}

// vhC11Highscore: lists of capacity 1..4 after every sequence of up to 4 insertions with arbitrary scores.
//verif:harness real budget=100
func vhC11Highscore() {
	c := vPick(1, 4)
	n := vPick(0, 4+vTier())
	h := NewHighscore(c)
	for i := 0; i < n; i++ {
		m := make([]bool, 3)
		m[i%3] = true
		m[(i/2)%3] = true
		nd := NewNode(i%3, m)
		for j := range nd.Coeff {
			nd.Coeff[j] = vReal()
		}
		nd.Score = vReal()
		h.Insert(nd)
	}
	b, err := json.Marshal(h)
	vAssert(err == nil, "a highscore list can be encoded")
	var g *Highscore
	switch vPick(0, 2) {
	case 0:
		g = NewHighscore(2)
	case 1:
		g = &Highscore{}
	case 2: // decoding replaces what was there
		g = NewHighscore(3)
		o := NewNode(0, []bool{true})
		o.Score = vReal()
		g.Insert(o)
	}
	vAssert(json.Unmarshal(b, g) == nil, "an encoded highscore list can be decoded")
	vAssert(g.MaxItems == h.MaxItems, "capacity is preserved")
	vAssert(g.Len() == h.Len(), "all items are preserved")
	e2 := g.Items.Front()
	for e := h.Items.Front(); e != nil; e = e.Next() {
		vhC11sameNode(e.Value.(*Node), e2.Value.(*Node), "decoded highscore list")
		e2 = e2.Next()
	}
	vAssert(h.Equal(g) && g.Equal(h), "the decoded list is equal")
	vReach("highscore")
	vObs("scores", g.Scores())
}

// vhC11Dataset: datasets with 1..3 rows, 1..3 features, any target column.
//verif:harness real
func vhC11Dataset() {
	nr, nc := vPick(1, 3), vPick(1, 3)
	t := vPick(0, nc)
	var ds Dataset
	d := make([]float64, nr*nc)
	ds.Y = make([]float64, nr)
	for i := range d {
		d[i] = vReal()
	}
	for i := range ds.Y {
		ds.Y[i] = vReal()
	}
	ds.X = mat.NewDense(nr, nc, d)
	ds.TargetCol = t
	ds.Names = []string{"a", "b \"x\"", "c,d", "e"}[:nc+1]
	b, err := json.Marshal(&ds)
	vAssert(err == nil, "a dataset can be encoded")
	var g Dataset
	vAssert(json.Unmarshal(b, &g) == nil, "an encoded dataset can be decoded")
	r, c := g.X.Dims()
	vAssert(r == nr && c == nc && len(g.Y) == nr && len(g.Names) == nc+1 && g.TargetCol == t, "shape and target column")
	for i := range ds.Names {
		vAssert(g.Names[i] == ds.Names[i], "names")
	}
	for i := 0; i < nr; i++ {
		vEq(g.Y[i], ds.Y[i], "Y")
		for j := 0; j < nc; j++ {
			vEq(g.X.At(i, j), d[i*nc+j], "X")
		}
	}
	vAssert(ds.IsEqual(&g), "the decoded dataset is equal")
	vReach("dataset")
}

// vhC11Path: lasso paths of 0..2 (thorough 3) nodes with every selection out of 3 features (in ascending or descending order), arbitrary coefficients, penalties, criteria and data, from bytes or (one node) from a file.
//verif:harness real budget=100
func vhC11Path() {
	var p LassoLarsPath
	if vPick(0, 1) == 1 {
		ds := &Dataset{Names: []string{"a", "b", "c", "y"}, TargetCol: vPick(0, 3), Y: []float64{vReal(), vReal()}}
		ds.X = mat.NewDense(2, 3, []float64{vReal(), vReal(), vReal(), vReal(), vReal(), vReal()})
		p.Dset = ds
	}
	n := vPick(0, 2+vTier())
	for i := 0; i < n; i++ {
		sel := []int{}
		for j := 0; j < 3; j++ {
			if vPick(0, 1) == 1 {
				sel = append(sel, j)
			}
		}
		if vPick(0, 1) == 1 {
			for a, b := 0, len(sel)-1; a < b; a, b = a+1, b-1 {
				sel[a], sel[b] = sel[b], sel[a]
			}
		}
		co := make([]float64, len(sel))
		for j := range co {
			co[j] = vReal()
		}
		p.LassoLarsNodes = append(p.LassoLarsNodes, NewLassoLarsNode(co, vReal(), sel))
		p.Aicc = append(p.Aicc, vReal())
		p.Bic = append(p.Bic, vReal())
	}
	b, err := json.Marshal(p)
	vAssert(err == nil, "a path can be encoded")
	var q *LassoLarsPath
	if n == 1 && vPick(0, 1) == 1 {
		ioutil.WriteFile("vh_c11.json", b, 0644)
		q = LassoLarsPathFromJSON("vh_c11.json")
	} else {
		q = LassoLarsPathFromBytes(b)
	}
	vAssert(len(q.LassoLarsNodes) == n && len(q.Aicc) == n && len(q.Bic) == n, "all nodes and criteria are preserved")
	for i := 0; i < n; i++ {
		a, c := p.LassoLarsNodes[i], q.LassoLarsNodes[i]
		vEq(a.Lamb, c.Lamb, "penalties are preserved")
		vEq(p.Aicc[i], q.Aicc[i], "AICc values are preserved")
		vEq(p.Bic[i], q.Bic[i], "BIC values are preserved")
		vAssert(EqualInt(a.Selection, c.Selection) && len(a.Coeff) == len(c.Coeff), "selections are preserved")
		for j := range a.Coeff {
			vEq(a.Coeff[j], c.Coeff[j], "coefficients are preserved")
		}
	}
	vAssert((p.Dset == nil) == (q.Dset == nil), "the dataset is preserved")
	if p.Dset != nil {
		vAssert(p.Dset.IsEqual(q.Dset) && p.Dset.TargetCol == q.Dset.TargetCol, "the dataset is preserved")
		for i := 0; i < 2; i++ {
			vEq(p.Dset.Y[i], q.Dset.Y[i], "the dataset is preserved")
			for j := 0; j < 3; j++ {
				vEq(p.Dset.X.At(i, j), q.Dset.X.At(i, j), "the dataset is preserved")
			}
		}
	}
	vReach("path")
}

// vhC11Annealing: annealing score lists of capacity 1..3 after every sequence of up to 3 (thorough 4) insertions.
//verif:harness real budget=100
func vhC11Annealing() {
	s := NewSAScore(vPick(1, 3))
	n := vPick(0, 3+vTier())
	for i := 0; i < n; i++ {
		m := []bool{i%2 == 0, i > 1, true}
		it := NewSAItem(m)
		for j := range it.Coeff {
			it.Coeff[j] = vReal()
		}
		it.Score = vReal()
		s.Insert(it)
	}
	b, err := json.Marshal(s)
	vAssert(err == nil, "an annealing list can be encoded")
	var g SAScore
	vAssert(json.Unmarshal(b, &g) == nil, "an encoded annealing list can be decoded")
	vAssert(g.Cap == s.Cap && len(g.Items) == len(s.Items), "capacity and all items are preserved")
	same := func(a, c *SAItem) {
		vAssert((a == nil) == (c == nil), "items are preserved")
		if a == nil {
			return
		}
		vAssert(EqualInt(a.Selection, c.Selection) && len(a.Coeff) == len(c.Coeff), "selections are preserved")
		vEq(a.Score, c.Score, "scores are preserved")
		for j := range a.Coeff {
			vEq(a.Coeff[j], c.Coeff[j], "coefficients are preserved")
		}
	}
	for i := range s.Items {
		same(s.Items[i], g.Items[i])
	}
	same(s.BestItem, g.BestItem)
	same(s.WorstItem, g.WorstItem)
	vReach("annealing")
}

// vhC11Wide: a node with 300 features (eight selected, arbitrary coefficients), a highscore list of 40 nodes, an annealing list of 30 items,
// a path of 30 nodes over 20 features and its dataset with 25 rows, each with some arbitrary values.
//verif:harness real
func vhC11Wide() {
	m := make([]bool, 300)
	for _, j := range []int{0, 7, 63, 64, 65, 255, 256, 299} {
		m[j] = true
	}
	n := NewNode(vPick(0, 1)*300, m)
	for i := range n.Coeff {
		n.Coeff[i] = float64(i) - 2.5
	}
	n.Coeff[3], n.Score, n.Lower, n.Upper = vReal(), vReal(), vReal(), vReal()
	b, err := json.Marshal(n)
	vAssert(err == nil, "a node can be encoded")
	var g Node
	vAssert(json.Unmarshal(b, &g) == nil, "an encoded node can be decoded")
	vhC11sameNode(n, &g, "decoded wide node")

	h := NewHighscore(50)
	s := NewSAScore(30)
	var p LassoLarsPath
	p.Dset = &Dataset{X: mat.NewDense(25, 20, nil), Y: make([]float64, 25), Names: make([]string, 21), TargetCol: 3}
	for i := 0; i < 25; i++ {
		p.Dset.Y[i] = float64(i*i) - 11.5
		for j := 0; j < 20; j++ {
			p.Dset.X.Set(i, j, float64((i*37+j*11+5)%101)/8-6)
		}
	}
	x := vReal()
	p.Dset.X.Set(24, 19, x)
	for i := 0; i < 40; i++ {
		nd := NewNode(i, m[:70])
		nd.Coeff[1] = float64(i)
		nd.Score = float64((i*17 + 3) % 37)
		if i == 20 {
			nd.Coeff[2] = x
		}
		h.Insert(nd)
		if i < 30 {
			s.Insert(&SAItem{Selection: []int{i, i + 200}, Coeff: []float64{x, float64(i)}, Score: float64((i * 7) % 31)})
			var sel []int
			var cf []float64
			for j := 0; j < 20; j++ {
				if (i*5+j*3)%7 < i/6 {
					sel, cf = append(sel, j), append(cf, float64(i-j)+0.5)
				}
			}
			if i == 29 && len(cf) > 0 {
				cf[len(cf)-1] = x
			}
			p.LassoLarsNodes = append(p.LassoLarsNodes, NewLassoLarsNode(cf, 100/float64(i+1), sel))
			p.Aicc, p.Bic = append(p.Aicc, float64(i)*1.5), append(p.Bic, float64(i)*2.5)
		}
	}
	b, err = json.Marshal(h)
	vAssert(err == nil, "a highscore list can be encoded")
	g2 := NewHighscore(1)
	vAssert(json.Unmarshal(b, g2) == nil && g2.Len() == 40 && g2.MaxItems == 50, "all items are preserved")
	e2 := g2.Items.Front()
	for e := h.Items.Front(); e != nil; e = e.Next() {
		vhC11sameNode(e.Value.(*Node), e2.Value.(*Node), "decoded long highscore list")
		e2 = e2.Next()
	}
	b, err = json.Marshal(s)
	vAssert(err == nil, "an annealing list can be encoded")
	var s2 SAScore
	vAssert(json.Unmarshal(b, &s2) == nil && len(s2.Items) == 30 && s2.Cap == 30, "all items are preserved")
	for i, it := range s.Items {
		vAssert(EqualInt(it.Selection, s2.Items[i].Selection) && len(s2.Items[i].Coeff) == 2, "selections are preserved")
		vEq(s2.Items[i].Coeff[0], it.Coeff[0], "coefficients are preserved")
		vEq(s2.Items[i].Coeff[1], it.Coeff[1], "coefficients are preserved")
		vEq(s2.Items[i].Score, it.Score, "scores are preserved")
	}
	b, err = json.Marshal(&p)
	vAssert(err == nil, "a path can be encoded")
	q := LassoLarsPathFromBytes(b)
	vAssert(len(q.LassoLarsNodes) == 30 && len(q.Aicc) == 30 && len(q.Bic) == 30, "all nodes are preserved")
	for i, a := range p.LassoLarsNodes {
		c := q.LassoLarsNodes[i]
		vAssert(EqualInt(a.Selection, c.Selection) && len(a.Coeff) == len(c.Coeff), "selections are preserved")
		for k := range a.Coeff {
			vEq(c.Coeff[k], a.Coeff[k], "coefficients are preserved")
		}
		vEq(c.Lamb, a.Lamb, "penalties are preserved")
		vEq(q.Aicc[i], p.Aicc[i], "criteria are preserved")
		vEq(q.Bic[i], p.Bic[i], "criteria are preserved")
	}
	vAssert(q.Dset.IsEqual(p.Dset) && p.Dset.IsEqual(q.Dset), "the data are preserved")
	vReach("wide")
}
