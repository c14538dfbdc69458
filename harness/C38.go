package featselect

import (
	"io/ioutil"
	"math"
	"os"
	"strconv"
	"strings"

	"gonum.org/v1/gonum/mat"
)

type vhC38row struct {
	size           int
	lamb, aicc, bic float64
}

// vhC38print returns what f prints
func vhC38print(f func()) string {
	old := os.Stdout
	h, err := os.Create("vh_printed.txt")
	if err != nil {
		panic(err)
	}
	os.Stdout = h
	defer func() { os.Stdout = old }()
	f()
	h.Close()
	b, err := ioutil.ReadFile("vh_printed.txt")
	if err != nil {
		panic(err)
	}
	os.Remove("vh_printed.txt")
	return string(b)
}

// vhC38lists splits the text printed into lists of rows: rank, penalty, number of coefficients, AICc, BIC
func vhC38lists(s string) [][]vhC38row {
	var out [][]vhC38row
	for _, line := range strings.Split(s, "\n") {
		w := strings.Fields(strings.Replace(line, "|", " ", -1))
		if len(w) != 5 {
			continue
		}
		rank, err := strconv.Atoi(w[0])
		if err != nil {
			continue
		}
		if rank == 1 {
			out = append(out, nil)
		}
		vAssert(len(out) > 0 && rank == len(out[len(out)-1])+1, "rows are numbered 1, 2, 3, ...")
		var r vhC38row
		var e [4]error
		r.lamb, e[0] = strconv.ParseFloat(w[1], 64)
		r.size, e[1] = strconv.Atoi(w[2])
		r.aicc, e[2] = strconv.ParseFloat(w[3], 64)
		r.bic, e[3] = strconv.ParseFloat(w[4], 64)
		for _, x := range e {
			vAssert(x == nil, "every column is a number")
		}
		out[len(out)-1] = append(out[len(out)-1], r)
	}
	return out
}

func vhC38abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// vhC38check: the rows show the num nodes with the smallest AICc in order; all nodes have different sizes
func vhC38check(rows []vhC38row, nodes []*LassoLarsNode, aicc, bic []float64, num int) {
	want := len(nodes)
	if num < want {
		want = num
	}
	vAssert(len(rows) == want, "one row for every node, but not more than asked for")
	shown := make([]bool, len(nodes))
	last := -1
	for _, r := range rows {
		k := -1
		for i, n := range nodes {
			if len(n.Selection) == r.size {
				k = i
			}
		}
		vAssert(k >= 0, "the number of coefficients is that of a node")
		vAssert(!shown[k], "no node is shown twice")
		shown[k] = true
		vNear(r.lamb, nodes[k].Lamb, 0.006*vhC38abs(nodes[k].Lamb), "the penalty belongs to the node")
		vNear(r.aicc, aicc[k], 0.0001*vhC38abs(aicc[k]), "the AICc belongs to the node")
		vNear(r.bic, bic[k], 0.0001*vhC38abs(bic[k]), "the BIC belongs to the node")
		if last >= 0 {
			vAssert(aicc[last] <= aicc[k], "rows are in order of increasing AICc")
		}
		last = k
	}
	if last >= 0 {
		for i := range nodes {
			vAssert(shown[i] || aicc[last] <= aicc[i], "the nodes left out are not better than the ones shown")
		}
	}
}

func vhC38run(n, num int, lo, hi float64) {
	var path LassoLarsPath
	aicc := make([]float64, n)
	bic := make([]float64, n)
	rot := vPick(0, n)
	for i := 0; i < n; i++ {
		size := 1 + (i+rot)%n
		sel := make([]int, size)
		for j := range sel {
			sel[j] = j
		}
		path.LassoLarsNodes = append(path.LassoLarsNodes, NewLassoLarsNode(make([]float64, size), vFloat(0, 10), sel))
		aicc[i], bic[i] = vFloat(lo, hi), vFloat(lo, hi)
	}
	ca, cb := append([]float64(nil), aicc...), append([]float64(nil), bic...)
	s := vhC38print(func() { PrintHighscore(&path, aicc, bic, num) })
	for i := range ca {
		vAssert(aicc[i] == ca[i] && bic[i] == cb[i], "printing leaves the criteria unchanged")
	}
	l := vhC38lists(s)
	if n == 0 || num == 0 {
		vAssert(len(l) == 0, "no rows without nodes")
		vReach("empty")
		return
	}
	vAssert(len(l) == 1, "one list is printed")
	vhC38check(l[0], path.LassoLarsNodes, aicc, bic, num)
	if num < n {
		vReach("not_all_shown")
	}
}

// vhC38Print: paths of 0..4 (thorough 5) nodes with arbitrary penalties, AICc and BIC of either sign, and lists of at most 0..5 (thorough 6) rows.
//verif:harness real budget=100 budgetT=600 must=empty,not_all_shown
func vhC38Print() {
	vhC38run(vPick(0, 4+vTier()), vPick(0, 5+vTier()), -100, 100)
}

// vhC38Wide: 24 nodes with fixed criteria except one, lists of 5, 20 and 30 rows.
//verif:harness real budget=100
func vhC38Wide() {
	n := 24
	var path LassoLarsPath
	aicc := make([]float64, n)
	bic := make([]float64, n)
	for i := range aicc {
		path.LassoLarsNodes = append(path.LassoLarsNodes, NewLassoLarsNode(make([]float64, i+1), float64(n-i)*0.25, make([]int, i+1)))
		aicc[i] = float64((i*7)%24) - 11.5
		bic[i] = float64((i*5)%24) - 3
	}
	at := []int{0, 9, 23}[vPick(0, 2)]
	aicc[at] = vFloat(-20, 20)
	num := []int{5, 20, 30}[vPick(0, 2)]
	l := vhC38lists(vhC38print(func() { PrintHighscore(&path, aicc, bic, num) }))
	vAssert(len(l) == 1, "one list is printed")
	vhC38check(l[0], path.LassoLarsNodes, aicc, bic, num)
}

var vhC38g struct {
	y     float64
	round int
	first []int
	seen  [][]*LassoLarsNode
	rss   [][]float64
}

// vhC38Lars gives a path on which the features enter one by one in rotated order
func vhC38Lars(data *NormalizedData, lambMin float64, estimator CDParam) []*LassoLarsNode {
	g := &vhC38g
	_, p := data.X.Dims()
	var nodes, rec []*LassoLarsNode
	rot := g.first[g.round%len(g.first)]
	var sel []int
	for s := 0; s < p-1; s++ {
		sel = append(sel, 1+(s+rot)%(p-1))
		co := make([]float64, len(sel))
		for i := range co {
			co[i] = 0.25 + 0.125*float64((i*3+s*2+rot)%4)
		}
		l := vFloat(0, 4)
		nodes = append(nodes, NewLassoLarsNode(co, l, append([]int(nil), sel...)))
		rec = append(rec, NewLassoLarsNode(co, l, append([]int(nil), sel...)))
	}
	g.round++
	g.seen = append(g.seen, rec)
	return nodes
}

// vhC38Nested: nested lasso prints the list of every round: the nodes of that round's path in order of the AICc reported for them
// (4 or 13 features in the first round, any rotation of the order in which they enter, arbitrary penalties).
//verif:harness real budget=100 stub=LassoLars:vhC38Lars
func vhC38Nested() {
	g := &vhC38g
	g.round, g.seen = 0, nil
	nf := []int{4, 13}[vPick(0, 1)]
	g.first = []int{vPick(0, 3), vPick(0, 2), 0}
	cols := [][]float64{{1, -1, 1, -1, 0}, {1, 1, -1, -1, 0}, {0, 1, -1, 1, -1}, {1, 0, -1, -1, 1}}
	X := mat.NewDense(5, nf+1, nil)
	y := []float64{6, 4, 6, 2, 2}
	for i := 0; i < 5; i++ {
		X.Set(i, 0, 1)
		for j := 1; j <= nf; j++ {
			X.Set(i, j, float64(j%4)+float64(1+j%3)*cols[(j-1)%4][i])
		}
	}
	d := &Dataset{X: X, Y: y, TargetCol: nf + 1, Names: make([]string, nf+2)}
	for i := range d.Names {
		d.Names[i] = "f" + strconv.Itoa(i)
	}
	var res NestedLassoLars
	s := vhC38print(func() { res = NestedLasso(d, 0.0625, 0.75, &MorsePenroseCD{}) })
	l := vhC38lists(s)
	vAssert(len(l) == len(res.Paths) && len(l) == len(g.seen), "one list for every round")
	for k, rows := range l {
		for i := range res.Paths[k].Aicc {
			vAssert(!math.IsNaN(res.Paths[k].Aicc[i]), "criteria are numbers")
		}
		vhC38check(rows, g.seen[k], res.Paths[k].Aicc, res.Paths[k].Bic, 10)
	}
	if len(l) > 1 {
		vReach("two rounds")
	}
}
