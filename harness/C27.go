package featselect

import (
	"fmt"

	"gonum.org/v1/gonum/mat"
)

// columns with mean zero and unit sample variance, pairwise different also up to sign
var vhC27cols = [][]float64{
	{1, -1, 1, -1, 0},
	{1, 1, -1, -1, 0},
	{0, 1, -1, 1, -1},
	{1, 0, -1, -1, 1},
	{1, -1, 0, 1, -1},
}

type vhC27node struct {
	lamb  float64
	feats []int // original numbers
	coeff []float64
}

var (
	vhC27paths  [][]vhC27node
	vhC27alive  []bool // features that may appear
	vhC27nf     int
	vhC27min    float64
	vhC27short  bool
	vhC27rounds [][]int
)

// vhC27Lars stands in for the LARS algorithm: features enter one by one in an arbitrary order with arbitrary coefficients.
func vhC27Lars(data *NormalizedData, lambMin float64, estimator CDParam) []*LassoLarsNode {
	vAssert(lambMin == vhC27min, "the minimum penalty is passed on")
	nr, nc := data.X.Dims()
	vAssert(nr == 5, "all data points are used")
	vEq(data.y[0], 1, "the target is normalised")
	vEq(data.y[4], -1, "the target is normalised")
	orig := make([]int, nc) // original number of each column, 0 for the bias
	var avail []int
	seen := make([]bool, vhC27nf+1)
	for c := 0; c < nc; c++ {
		for k := 1; k <= vhC27nf; k++ {
			same := true
			for i := 0; i < 5; i++ {
				d := data.X.At(i, c) - vhC27cols[k-1][i]
				same = same && d < 1e-9 && d > -1e-9
			}
			if same {
				orig[c] = k
			}
		}
		if orig[c] > 0 {
			vAssert(!seen[orig[c]], "no feature appears twice")
			vAssert(vhC27alive[orig[c]], "only features that survived the previous round are used")
			seen[orig[c]] = true
			avail = append(avail, c)
		} else {
			for i := 0; i < 5; i++ {
				vEq(data.X.At(i, c), 0, "every column is a normalised column of the original data")
			}
		}
	}
	var round []int
	for k := 1; k <= vhC27nf; k++ {
		if seen[k] {
			round = append(round, k)
		}
	}
	vhC27rounds = append(vhC27rounds, round)
	// an entrance order
	n := len(avail)
	if vhC27short && len(vhC27paths) == 0 {
		n = vPick(0, len(avail))
	}
	var nodes []*LassoLarsNode
	var rec []vhC27node
	in := make([]bool, nc)
	vhC27alive = make([]bool, vhC27nf+1)
	for s := 0; s < n; s++ {
		left := []int{}
		for _, c := range avail {
			if !in[c] {
				left = append(left, c)
			}
		}
		if vTier() == 0 && len(vhC27paths) > 1 {
			in[left[len(left)-1]] = true
		} else {
			in[left[vPick(0, len(left)-1)]] = true
		}
		var sel, feats []int
		var cf []float64
		for c := 0; c < nc; c++ {
			if in[c] {
				sel = append(sel, c)
				feats = append(feats, orig[c])
				cf = append(cf, vFloat(-3, 3))
				vhC27alive[orig[c]] = true
			}
		}
		l := 10 / float64(s+1)
		nodes = append(nodes, NewLassoLarsNode(cf, l, sel))
		rec = append(rec, vhC27node{lamb: l, feats: feats, coeff: append([]float64(nil), cf...)})
	}
	vhC27paths = append(vhC27paths, rec)
	return nodes
}

func vhC27Quiet(path *LassoLarsPath, aicc []float64, bic []float64, num int) {}

func vhC27Run(nf int, keep float64, target int, short bool) {
	vhC27nf, vhC27min, vhC27short = nf, 0.0625, short
	vhC27paths, vhC27rounds = nil, nil
	vhC27alive = make([]bool, nf+1)
	for i := range vhC27alive {
		vhC27alive[i] = true
	}
	scale := []float64{1, 2, 0.5, 3, 1}
	shift := []float64{0, 3, -1, 2, 5}
	X := mat.NewDense(5, nf+1, nil)
	for i := 0; i < 5; i++ {
		X.Set(i, 0, 1)
		for k := 0; k < nf; k++ {
			X.Set(i, k+1, shift[k]+scale[k]*vhC27cols[k][i])
		}
	}
	yn := []float64{1, 0, 1, -1, -1}
	d := &Dataset{X: X, Y: make([]float64, 5), TargetCol: target, Names: make([]string, nf+2)}
	for i := range d.Y {
		d.Y[i] = 4 + 2*yn[i]
	}
	for i := range d.Names {
		d.Names[i] = fmt.Sprintf("f%d", (i*3)%7)
	}
	before := d.Copy()
	res := NestedLasso(d, vhC27min, keep, &MorsePenroseCD{})
	vAssert(res.Dset == d, "the dataset passed in is returned")
	for i := 0; i < 5; i++ {
		vEq(d.Y[i], before.Y[i], "the target keeps its original values")
		for j := 0; j <= nf; j++ {
			vEq(d.X.At(i, j), before.X.At(i, j), "the data keep their original values")
		}
	}
	for i := range d.Names {
		vAssert(d.Names[i] == before.Names[i], "the names are kept")
	}
	vAssert(len(res.Paths) == len(vhC27paths) && len(res.Paths) > 0, "one path per round")
	for k, p := range res.Paths {
		vAssert(len(p.Nodes) == len(vhC27paths[k]), "every node of every path is reported")
		vAssert(len(p.Aicc) == len(p.Nodes) && len(p.Bic) == len(p.Nodes), "criteria for every node")
		for i, nd := range p.Nodes {
			want := vhC27paths[k][i]
			vEq(nd.Lamb, want.lamb, "the penalty of a node is kept")
			vAssert(len(nd.Selection) == len(want.feats)+1 && len(nd.Coeff) == len(nd.Selection), "a node has the bias and its features")
			c := make([]float64, nf+1)
			has := make([]bool, nf+1)
			for q, f := range nd.Selection {
				vAssert(f >= 0 && f <= nf && !has[f], "feature numbers of the original dataset without repeats")
				has[f] = true
				c[f] = nd.Coeff[q]
			}
			bias := 4.0
			for q, f := range want.feats {
				vAssert(has[f], "nodes refer to the features of the original dataset")
				vEq(c[f], 2*want.coeff[q]/scale[f-1], "coefficients in the units of the original data")
				bias -= 2 * want.coeff[q] * shift[f-1] / scale[f-1]
			}
			vAssert(has[0], "a node has the bias")
			vEq(c[0], bias, "the bias is in the units of the original data")
		}
	}
	if len(res.Paths) > 1 {
		vReach("two rounds")
	}
	if len(res.Paths) > 2 {
		vReach("three rounds")
	}
	vReach("nested")
}

// vhC27All: 4 features, keeping 80%, every entrance order in the first two rounds (thorough: in every round), arbitrary coefficients, target last or first.
//verif:harness real budget=100 budgetT=600 stub=LassoLars:vhC27Lars stub=PrintHighscore:vhC27Quiet
func vhC27All() {
	nf := 4
	vhC27Run(nf, 0.8, vPick(0, 1)*(nf+1), false)
}

// vhC27Short: 3 features, the first path may end early (also before any feature enters).
//verif:harness real budget=100 budgetT=600 stub=LassoLars:vhC27Lars stub=PrintHighscore:vhC27Quiet
func vhC27Short() { vhC27Run(3, 0.75+0.125*float64(vPick(0, 1)), 2, true) }
