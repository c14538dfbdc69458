package cmd

import (
	"encoding/json"
	"io/ioutil"
	"math"
	"os"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"github.com/spf13/cobra"
	"gonum.org/v1/gonum/mat"
)

var vhC34g struct {
	names  []string
	cells  [][]string
	target int
	lmin, lmax, tol, cutoff float64
	num, sweeps, queue      int
	cov                     string
	sel                     [][]int
	coef                    [][]float64
	lamb                    []float64
	calls                   int
	lars                    bool
	covX                    mat.Matrix
	scores                  []float64
	saSel                   []int
}

// vhC34cmd gives one of the commands of the tool
func vhC34cmd(name string) *cobra.Command {
	for _, c := range rootCmd.Commands() {
		if strings.Fields(c.Use)[0] == name {
			return c
		}
	}
	vAssert(false, "the tool has the command "+name)
	return nil
}

func vhC34set(c *cobra.Command, name, v string) {
	vAssert(c.Flags().Set(name, v) == nil, "the command has the option "+name)
}

// vhC34default leaves an option at its default
func vhC34default(c *cobra.Command, name string) {
	f := c.Flags().Lookup(name)
	vAssert(f != nil, "the command has the option "+name)
	vhC34set(c, name, f.DefValue)
}

// vhC34csv writes the data file: any numbers, header, target column anywhere
func vhC34csv(rows, cols int, text func(r, c int) string) {
	g := &vhC34g
	g.calls = 0
	g.names = []string{"alpha", "be ta", "gamma", "delta"}[:cols]
	g.cells = nil
	s := strings.Join(g.names, ",") + "\n"
	for r := 0; r < rows; r++ {
		var row []string
		for c := 0; c < cols; c++ {
			row = append(row, text(r, c))
		}
		g.cells = append(g.cells, row)
		s += strings.Join(row, ",") + "\n"
	}
	ioutil.WriteFile("vh_in.csv", []byte(s), 0644)
	if vPick(0, 1) == 1 { // an earlier result, longer than the new one
		ioutil.WriteFile("vh_out.json", []byte(strings.Repeat("{", 5000)), 0644)
	} else {
		os.Remove("vh_out.json")
	}
}

func vhC34target(c *cobra.Command, cols int) {
	t := vPick(0, cols-1)
	vhC34g.target = t
	switch {
	case t == cols-1 && vPick(0, 1) == 0: // left at its default
		vhC34default(c, "target")
	case vPick(0, 1) == 0:
		vhC34set(c, "target", []string{"0", "1", "2", "3"}[t])
	default:
		vhC34set(c, "target", []string{"-4", "-3", "-2", "-1"}[4-cols+t])
	}
}

// vhC34same: these are the data of the file
func vhC34same(X mat.Matrix, y []float64, msg string) {
	g := &vhC34g
	n, p := X.Dims()
	vAssert(n == len(g.cells) && p == len(g.names)-1 && len(y) == n, msg+": shape")
	for r := range g.cells {
		c := 0
		for k, s := range g.cells[r] {
			if k == g.target {
				vEq(y[r], vNumVal(s), msg+": target values")
				continue
			}
			vEq(X.At(r, c), vNumVal(s), msg+": feature values")
			c++
		}
	}
}

func vhC34read(name string) []byte {
	b, err := ioutil.ReadFile(name)
	vAssert(err == nil, "the result file is written")
	return b
}

func vhC34nodes(data *fs.NormalizedData) []*fs.LassoLarsNode {
	g := &vhC34g
	g.calls++
	// the algorithms get the normalised data of the file
	var X *mat.Dense
	y := make([]float64, len(g.cells))
	X = mat.NewDense(len(g.cells), len(g.names)-1, nil)
	for r := range g.cells {
		c := 0
		for k, s := range g.cells[r] {
			if k == g.target {
				y[r] = vNumVal(s)
				continue
			}
			X.Set(r, c, vNumVal(s))
			c++
		}
	}
	ref := fs.NewNormalizedData(X, y)
	n, p := data.X.Dims()
	vAssert(n == len(g.cells) && p == len(g.names)-1, "the path is computed for the data of the file")
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			vEq(data.X.At(i, j), ref.X.At(i, j), "the path is computed for the data of the file")
		}
	}
	var res []*fs.LassoLarsNode
	for i := range g.sel {
		res = append(res, fs.NewLassoLarsNode(append([]float64(nil), g.coef[i]...), g.lamb[i], append([]int(nil), g.sel[i]...)))
	}
	return res
}

func vhC34lars(data *fs.NormalizedData, lambMin float64, estimator fs.CDParam) []*fs.LassoLarsNode {
	vAssert(vhC34g.lars, "the algorithm is the one given")
	vEq(lambMin, vhC34g.lmin, "the smallest penalty is the one given")
	return vhC34nodes(data)
}

func vhC34cd(dset *fs.NormalizedData, cov fs.CovMat, lambs []float64, maxIter int, tol float64, correction fs.LassoCorrection) []*fs.LassoLarsNode {
	g := &vhC34g
	vAssert(!g.lars, "the algorithm is the one given")
	want := fs.Logspace(g.lmin, g.lmax, g.num)
	vAssert(len(lambs) == len(want), "the number of penalties is the one given")
	for i := range want {
		vEq(lambs[i], want[i], "the penalties are spread over the range given")
	}
	vEq(tol, g.tol, "the tolerance is the one given")
	vAssert(maxIter >= 1, "iterations are allowed")
	ok := false
	switch cov.(type) {
	case *fs.Empirical:
		ok = g.cov == "empirical"
	case *fs.Identity:
		ok = g.cov == "identity"
	case *fs.SparseThresholded:
		ok = g.cov == "threshold"
		vAssert(g.covX == mat.Matrix(dset.X), "the threshold comes from the data of the path")
	}
	vAssert(ok, "the covariance estimator is the one given")
	_, pure := correction.(*fs.PureLasso)
	vAssert(pure, "coordinate descent solves the pure lasso problem")
	return vhC34nodes(dset)
}

func vhC34threshold(X mat.Matrix) *fs.SparseThresholded {
	vhC34g.covX = X
	return &fs.SparseThresholded{}
}

func vhC34print(path *fs.LassoLarsPath, aicc []float64, bic []float64, num int) {}

// vhC34Lasso: the lasso command with both algorithms, every covariance estimator, any target column (counted from either end), a file of 4 rows
// and 3 columns, and algorithms that return 0..2 arbitrary nodes out of 2 features; the printed list is left out.
//verif:harness real stub=LassoLars:vhC34lars stub=LassoCrdDescPath:vhC34cd stub=NewSparseThreshold:vhC34threshold stub=PrintHighscore:vhC34print nodedupe budget=100
func vhC34Lasso() { vhC34lasso(2) }

// vhC34LassoPrint: the same with the printed list and 0..1 nodes.
//verif:harness real stub=LassoLars:vhC34lars stub=LassoCrdDescPath:vhC34cd stub=NewSparseThreshold:vhC34threshold nodedupe budget=100
func vhC34LassoPrint() { vhC34lasso(1) }

func vhC34lasso(max int) {
	g := &vhC34g
	c := vhC34cmd("lasso")
	data := [][]string{{"1", "0.5", "2"}, {"2", "-1", "1"}, {"4", "3", "-1"}, {"3", "1.5", "0.25"}}
	vhC34csv(4, 3, func(r, c int) string { return data[r][c] })
	vhC34set(c, "csv", "vh_in.csv")
	vhC34target(c, 3)
	vhC34set(c, "out", "vh_out.json")
	num := func(name string, lo, hi float64) float64 {
		s := vNumText(lo, hi)
		vhC34set(c, name, s)
		return vNumVal(s)
	}
	g.cov = "empirical"
	g.lars = vPick(0, 1) == 0
	if g.lars {
		vhC34set(c, "type", "lars")
		g.lmin = num("lmin", 0.01, 1)
	} else {
		vhC34set(c, "type", "cd")
		g.cov = []string{"empirical", "identity", "threshold"}[vPick(0, 2)]
		vhC34set(c, "cov", g.cov)
		vhC34set(c, "lmin", "0.01")
		vhC34set(c, "lmax", "1")
		g.lmin, g.lmax = 0.01, 1
		g.num = vPick(2, 3)
		vhC34set(c, "num", []string{"2", "3"}[g.num-2])
		g.tol = num("tol", 1e-6, 1e-2)
	}
	g.sel, g.coef, g.lamb = nil, nil, nil
	for i := vPick(0, max); i > 0; i-- {
		sel := [][]int{{0}, {1}, {0, 1}}[vPick(0, 2)]
		co := make([]float64, len(sel))
		for j := range co {
			co[j] = vFloat(-4, 4)
		}
		g.sel, g.coef, g.lamb = append(g.sel, sel), append(g.coef, co), append(g.lamb, vFloat(0, 1))
	}
	old := os.Stdout
	if max == 1 {
		h, _ := os.Create("vh_printed.txt")
		os.Stdout = h
	}
	c.Run(c, nil)
	os.Stdout = old
	vAssert(g.calls == 1, "the path is computed once")

	var q fs.LassoLarsPath
	vAssert(json.Unmarshal(vhC34read("vh_out.json"), &q) == nil, "the result file can be decoded")
	vAssert(q.Dset != nil, "the result file holds the data")
	vhC34same(q.Dset.X, q.Dset.Y, "the result file holds the data as given")
	vAssert(q.Dset.TargetCol == g.target && len(q.Dset.Names) == 3, "the result file names the columns")
	for i, n := range g.names {
		vAssert(q.Dset.Names[i] == n, "the result file names the columns")
	}
	vAssert(len(q.LassoLarsNodes) == len(g.sel), "every node of the path is in the result file")
	y := append([]float64(nil), q.Dset.Y...)
	ref := vhC34ref(q.Dset.X, y)
	fs.Path2Unnormalized(fs.NewNormalizedData(mat.DenseCopyOf(q.Dset.X), y), ref)
	for i, n := range q.LassoLarsNodes {
		vEq(n.Lamb, g.lamb[i], "penalties are stored")
		vAssert(fs.EqualInt(n.Selection, ref[i].Selection) && len(n.Coeff) == len(ref[i].Coeff), "selections are stored")
		for j := range n.Coeff {
			vEq(n.Coeff[j], ref[i].Coeff[j], "coefficients are stored for the data as given")
		}
	}
	a, b := q.GetCriteria(fs.Aicc), q.GetCriteria(fs.Bic)
	vAssert(len(q.Aicc) == len(a) && len(q.Bic) == len(b), "the criteria of every node are stored")
	for i := range a {
		vEq(q.Aicc[i], a[i], "the criteria belong to the nodes and the data of the file")
		vEq(q.Bic[i], b[i], "the criteria belong to the nodes and the data of the file")
	}
	if max == 1 { // the list printed shows the nodes that are stored (at most one here)
		rows := 0
		for _, line := range strings.Split(string(vhC34read("vh_printed.txt")), "\n") {
			w := strings.Fields(strings.Replace(line, "|", " ", -1))
			if len(w) != 5 || w[0] != "1" {
				continue
			}
			vAssert(rows < len(a), "one row for every node")
			l, e1 := strconv.ParseFloat(w[1], 64)
			k, e2 := strconv.Atoi(w[2])
			va, e3 := strconv.ParseFloat(w[3], 64)
			vb, e4 := strconv.ParseFloat(w[4], 64)
			vAssert(e1 == nil && e2 == nil && e3 == nil && e4 == nil, "the columns of the list are numbers")
			n := q.LassoLarsNodes[rows]
			vNear(l, n.Lamb, 0.006*math.Abs(n.Lamb), "the list shows the penalty")
			vAssert(k == len(n.Coeff), "the list shows the number of coefficients")
			vNear(va, a[rows], 1e-4*math.Abs(a[rows]), "the list shows the AICc")
			vNear(vb, b[rows], 1e-4*math.Abs(b[rows]), "the list shows the BIC")
			rows++
		}
		vAssert(rows == len(a), "one row for every node")
		os.Remove("vh_printed.txt")
	}
	vReach("lasso " + g.cov)
}

func vhC34ref(X *mat.Dense, y []float64) []*fs.LassoLarsNode {
	var res []*fs.LassoLarsNode
	g := &vhC34g
	for i := range g.sel {
		res = append(res, fs.NewLassoLarsNode(append([]float64(nil), g.coef[i]...), g.lamb[i], append([]int(nil), g.sel[i]...)))
	}
	return res
}

func vhC34item(sel []int, lo, hi float64) *fs.SAItem {
	it := fs.NewSAItem(fs.Selected2Model(sel, 3))
	for j := range it.Coeff {
		it.Coeff[j] = vFloat(lo, hi)
	}
	it.Score = vFloat(lo, hi)
	return it
}

func vhC34sa(X mat.Matrix, y []float64, nSweeps int, cost func(int, int, float64) float64) *fs.SARes {
	g := &vhC34g
	g.calls++
	vhC34same(X, y, "annealing works on the data given")
	if g.sweeps >= 0 {
		vAssert(nSweeps == g.sweeps, "the number of sweeps is the one given")
	}
	vEq(cost(2, 10, 3), fs.Aicc(2, 10, 3), "annealing minimises AICc")
	res := fs.SARes{Scores: fs.NewSAScore(10), Selected: g.saSel, Coeff: make([]float64, len(g.saSel))}
	for i := range g.scores {
		it := fs.NewSAItem(fs.Selected2Model(g.sel[i], 3))
		copy(it.Coeff, g.coef[i])
		it.Score = g.scores[i]
		res.Scores.Insert(it)
	}
	return &res
}

func vhC34lists(n int) {
	g := &vhC34g
	g.sel, g.coef, g.scores = nil, nil, nil
	for i := 0; i < n; i++ {
		sel := [][]int{{0, 2}, {1}, {0, 1, 2}}[i]
		co := make([]float64, len(sel))
		for j := range co {
			co[j] = vReal()
		}
		g.sel, g.coef, g.scores = append(g.sel, sel), append(g.coef, co), append(g.scores, vReal())
	}
}

// vhC34Annealing: the sasearch command with a file of 2 rows and 4 columns of arbitrary numbers, any target column, any number of sweeps, and an
// annealing that returns 1..3 models with arbitrary scores and coefficients.
//verif:harness real stub=SelectModelSA:vhC34sa nodedupe budget=100
func vhC34Annealing() {
	g := &vhC34g
	c := vhC34cmd("sasearch")
	vhC34csv(2, 4, func(r, c int) string { return vNumText(-1e6, 1e6) })
	vhC34set(c, "csv", "vh_in.csv")
	vhC34target(c, 4)
	vhC34set(c, "out", "vh_out.json")
	g.sweeps = vPick(1, 2)
	vhC34set(c, "sweeps", []string{"1", "2"}[g.sweeps-1])
	g.saSel = []int{1}
	vhC34lists(vPick(1, 3))
	c.Run(c, nil)
	vAssert(g.calls == 1, "annealing runs once")
	var q fs.SAScore
	vAssert(json.Unmarshal(vhC34read("vh_out.json"), &q) == nil, "the result file can be decoded")
	vAssert(len(q.Items) == len(g.scores), "every model found is in the result file")
	found := 0
	for i, sel := range g.sel {
		for _, it := range q.Items {
			if fs.EqualInt(it.Selection, sel) && it.Score == g.scores[i] {
				for j := range sel {
					vEq(it.Coeff[j], g.coef[i][j], "coefficients are stored")
				}
				found++
			}
		}
	}
	vAssert(found == len(g.scores), "every model found is in the result file with its score")
	vReach("annealed")
}

func vhC34select(X mat.Matrix, y []float64, highscore *fs.Highscore, sp *fs.SearchProgress, params *fs.SelectModelOptParams) {
	g := &vhC34g
	vhC34same(X, y, "branch and bound works on the data given")
	vAssert(params != nil && params.MaxQueueSize == g.queue, "the queue limit is the one given")
	vEq(params.Cutoff, g.cutoff, "the cutoff is the one given")
	root := fs.Selected2Model(g.saSel, 3)
	vAssert(len(params.RootModel) == 3, "the search starts from the model that annealing found")
	for i := range root {
		vAssert(params.RootModel[i] == root[i], "the search starts from the model that annealing found")
	}
	for i := range g.scores {
		n := fs.NewNode(3, fs.Selected2Model(g.sel[i], 3))
		copy(n.Coeff, g.coef[i])
		n.Score = g.scores[i]
		highscore.Insert(n)
		sp.Set(n.Score, i, float64(i))
	}
	g.calls++
}

// vhC34Bnb: the bnb command with a file of 2 rows and 4 columns of arbitrary numbers, any target column, cutoff and queue limit, an annealing that
// finds any model and a search that finds 1..3 models with arbitrary scores and coefficients; schedules with up to 3 delays (thorough 4).
//verif:harness real race delay=3 delayT=4 stub=SelectModelSA:vhC34sa stub=SelectModel:vhC34select nodedupe budget=100
func vhC34Bnb() {
	g := &vhC34g
	c := vhC34cmd("bnb")
	vhC34csv(2, 4, func(r, c int) string { return vNumText(-1e6, 1e6) })
	vhC34set(c, "csv", "vh_in.csv")
	vhC34target(c, 4)
	vhC34set(c, "out", "vh_out.json")
	if vPick(0, 1) == 0 {
		vhC34default(c, "cutoff")
		g.cutoff = 0
	} else {
		cut := vNumText(-100, 100)
		vhC34set(c, "cutoff", cut)
		g.cutoff = vNumVal(cut)
	}
	g.queue = 7
	vhC34set(c, "maxqueue", "7")
	g.sweeps = -1
	vhC34lists(vPick(1, 3))
	g.saSel = [][]int{{}, {1}, {0, 2}, {0, 1, 2}}[vPick(0, 3)]
	c.Run(c, nil)
	var h fs.Highscore
	vAssert(json.Unmarshal(vhC34read("vh_out.json"), &h) == nil, "the result file can be decoded")
	vAssert(h.Len() == len(g.scores), "every model found is in the result file")
	found := 0
	for e := h.Items.Front(); e != nil; e = e.Next() {
		n := e.Value.(*fs.Node)
		for i, sel := range g.sel {
			if fs.EqualInt(fs.SelectedFeatures(n.Model), sel) && n.Score == g.scores[i] {
				for j := range sel {
					vEq(n.Coeff[j], g.coef[i][j], "coefficients are stored")
				}
				found++
			}
		}
	}
	vAssert(found == len(g.scores), "every model found is in the result file with its score")
	vReach("searched")
}

// vhC34Unencodable: the lasso command with a path that cannot be written to a file: a result left by an earlier run stays as it is.
//verif:harness real stub=LassoLars:vhC34lars stub=PrintHighscore:vhC34print nodedupe
func vhC34Unencodable() {
	g := &vhC34g
	c := vhC34cmd("lasso")
	data := [][]string{{"1", "0.5", "2"}, {"2", "-1", "1"}, {"4", "3", "-1"}, {"3", "1.5", "0.25"}}
	vhC34csv(4, 3, func(r, c int) string { return data[r][c] })
	before, err0 := ioutil.ReadFile("vh_out.json")
	vhC34set(c, "csv", "vh_in.csv")
	vhC34target(c, 3)
	vhC34set(c, "out", "vh_out.json")
	vhC34set(c, "type", "lars")
	vhC34set(c, "lmin", "0.125")
	g.lars, g.lmin, g.cov = true, 0.125, "empirical"
	g.sel, g.coef, g.lamb = [][]int{{0}, {0, 1}}, [][]float64{{vFloat(-4, 4)}, {1, 2}}, []float64{0.5, 0.25}
	g.lamb[vPick(0, 1)] = []float64{math.Inf(1), math.NaN()}[vPick(0, 1)]
	c.Run(c, nil)
	after, err1 := ioutil.ReadFile("vh_out.json")
	vAssert((err0 == nil) == (err1 == nil) && len(before) == len(after), "a path that cannot be stored leaves the file of an earlier run as it was")
	vReach("kept")
}

// vhC34Ranking: the lasso command with a path of 3 or 22 nodes, one arbitrary penalty: the list printed shows the 20 nodes with the smallest AICc in order.
//verif:harness real stub=LassoLars:vhC34lars nodedupe
func vhC34Ranking() {
	g := &vhC34g
	c := vhC34cmd("lasso")
	data := [][]string{{"1", "4", "6"}, {"-1", "4", "4"}, {"1", "0", "6"}, {"-1", "0", "2"}, {"0", "2", "2"}}
	vhC34csv(5, 3, func(r, c int) string { return data[r][c] })
	vhC34set(c, "csv", "vh_in.csv")
	g.target = 2
	vhC34set(c, "out", "vh_out.json")
	vhC34set(c, "type", "lars")
	vhC34set(c, "lmin", "0.01")
	g.lars, g.lmin = true, 0.01
	g.sel, g.coef, g.lamb = nil, nil, nil
	n := []int{3, 22}[vPick(0, 1)]
	at := vPick(0, 2)
	for i := 0; i < n; i++ {
		l := 100 - 0.5*float64(i)
		if i == at {
			l = vFloat(99, 120)
		}
		g.sel, g.coef, g.lamb = append(g.sel, []int{0, 1}), append(g.coef, []float64{0.5 + 0.0625*float64((i*5)%23), -0.25 - 0.125*float64((i*7)%11)}), append(g.lamb, l)
	}
	old := os.Stdout
	h, _ := os.Create("vh_printed.txt")
	os.Stdout = h
	c.Run(c, nil)
	os.Stdout = old
	var q fs.LassoLarsPath
	vAssert(json.Unmarshal(vhC34read("vh_out.json"), &q) == nil, "the result file can be decoded")
	vAssert(len(q.LassoLarsNodes) == n && len(q.Aicc) == n && len(q.Bic) == n, "every node of the path is in the result file")
	shown := make([]bool, n)
	last, rows := -1, 0
	for _, line := range strings.Split(string(vhC34read("vh_printed.txt")), "\n") {
		w := strings.Fields(strings.Replace(line, "|", " ", -1))
		if len(w) != 5 {
			continue
		}
		rank, err := strconv.Atoi(w[0])
		if err != nil {
			continue
		}
		rows++
		vAssert(rank == rows, "rows are numbered")
		a, _ := strconv.ParseFloat(w[3], 64)
		b, _ := strconv.ParseFloat(w[4], 64)
		k := -1
		for i := range q.Aicc {
			if !shown[i] && math.Abs(a-q.Aicc[i]) <= 1e-5*math.Abs(q.Aicc[i]) && math.Abs(b-q.Bic[i]) <= 1e-5*math.Abs(q.Bic[i]) {
				k = i
				break
			}
		}
		vAssert(k >= 0, "every row shows a node that is stored")
		shown[k] = true
		vAssert(last < 0 || q.Aicc[last] <= q.Aicc[k], "rows are in order of increasing AICc")
		last = k
	}
	want := n
	if want > 20 {
		want = 20
	}
	vAssert(rows == want, "as many rows as nodes, at most 20")
	for i := range shown {
		vAssert(shown[i] || q.Aicc[last] <= q.Aicc[i], "the nodes left out are not better")
	}
	os.Remove("vh_printed.txt")
	vReach("ranking")
}
