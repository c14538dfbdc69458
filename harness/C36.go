package zzvprogs

//uses lib_plot.go

import (
	"encoding/json"
	"flag"
	"io/ioutil"
	"os"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/plotter"
	"gonum.org/v1/plot/vg"
)

// The programs under cmdDepreciated are put together in the package of this harness: f of goselect-x is x_f.

func vhC36run(prog func(), args ...string) {
	old, oldArgs := flag.CommandLine, os.Args
	defer func() { flag.CommandLine, os.Args = old, oldArgs }()
	flag.CommandLine = flag.NewFlagSet("program", flag.PanicOnError)
	os.Args = append([]string{"program"}, args...)
	prog()
}

var vhC36saved []*plot.Plot
var vhC36files []string

func vhC36save(p *plot.Plot, w vg.Length, h vg.Length, file string) error {
	vAssert(w > 0 && h > 0, "plots have a size")
	vhC36saved = append(vhC36saved, p)
	vhC36files = append(vhC36files, file)
	return nil
}

func vhC36file(name string) *plot.Plot {
	for i, f := range vhC36files {
		if f == name {
			return vhC36saved[i]
		}
	}
	vAssert(false, "the plot is written to "+name)
	return nil
}

func vhC36same(a, b *plot.Plot, msg string) {
	x, y := vhPlotted(a), vhPlotted(b)
	vAssert(len(x) == len(y), msg)
	xys := func(p plot.Plotter) plotter.XYs {
		if l, ok := p.(*plotter.Line); ok {
			return l.XYs
		}
		if s, ok := p.(*plotter.Scatter); ok {
			return s.XYs
		}
		return nil
	}
	for i := range x {
		p, q := xys(x[i]), xys(y[i])
		vAssert(len(p) == len(q), msg)
		for k := range p {
			vEq(p[k].X, q[k].X, msg)
			vEq(p[k].Y, q[k].Y, msg)
		}
	}
}

// vhC36Plot: the plot program on a stored path of two nodes with arbitrary coefficients, with and without options, any axis limits.
//verif:harness real budget=100 stub=plot.Save:vhC36save redirect=gonum.org/v1/plot.New:vhPlotNew
func vhC36Plot() {
	vhC36saved, vhC36files = nil, nil
	d := &fs.Dataset{X: mat.NewDense(4, 2, []float64{1, 0.5, 2, -1, 3, 0, 4, 2}), Y: []float64{1, 2, 0, 4}, Names: []string{"a", "b", "y"}, TargetCol: 2}
	path := fs.LassoLarsPath{Dset: d}
	path.LassoLarsNodes = []*fs.LassoLarsNode{
		fs.NewLassoLarsNode([]float64{vFloat(2, 4)}, 1, []int{1}),
		fs.NewLassoLarsNode([]float64{vFloat(-4, 4), 0.5}, 0.25, []int{1, 0}),
	}
	path.Aicc, path.Bic = []float64{1, 2}, []float64{3, 4}
	js, err := json.Marshal(path)
	vAssert(err == nil, "a path can be encoded")
	ioutil.WriteFile("vh_path.json", js, 0644)
	args := []string{"-json", "vh_path.json"}
	prefix, ext := "lassofig", "png"
	if vPick(0, 1) == 1 {
		prefix, ext = "fig-1", "svg"
		args = append(args, "-prefix", prefix, "-ext="+ext)
	}
	lims := vPick(0, 2)
	lo, hi := 0.0, 0.0
	switch lims {
	case 1:
		a, b := vNumText(-10, 0), vNumText(0.5, 10)
		lo, hi = vNumVal(a), vNumVal(b)
		args = append(args, "-coeffmin="+a, "-coeffmax="+b)
	case 2:
		a := vNumText(0.5, 10)
		hi = vNumVal(a)
		args = append(args, "-coeffmax", a)
	}
	vhC36run(plotlasso_main, args...)
	vAssert(len(vhC36files) == 4, "four plots are written")
	q := fs.LassoLarsPathFromBytes(js)
	vhC36same(vhC36file(prefix+"_entrance."+ext), q.PlotEntranceTimes(), "the entrance times of the stored path are drawn")
	vhC36same(vhC36file(prefix+"_quality."+ext), q.PlotQualityScores(), "the criterion along the stored path is drawn")
	vhC36same(vhC36file(prefix+"_dev."+ext), q.PlotDeviations(), "the deviations along the stored path are drawn")
	c := vhC36file(prefix + "_path." + ext)
	ref := q.PlotPath(nil)
	vhC36same(c, ref, "the coefficients along the stored path are drawn")
	if lims == 0 {
		vEq(c.Y.Min, ref.Y.Min, "without limits the plot shows all coefficients")
		vEq(c.Y.Max, ref.Y.Max, "without limits the plot shows all coefficients")
	} else {
		vEq(c.Y.Min, lo, "the axis limits given are used")
		vEq(c.Y.Max, hi, "the axis limits given are used")
	}
	vReach("plotted")
}

var vhC36g struct {
	calls, samples, num, target, paths int
	lmin, lmax, keep                   float64
	coeff                              []float64
}

var vhC36cells = [][]float64{{1, 0.5, 2}, {2, -1, 1}, {4, 3, -1}, {3, 1.5, 0.25}}

func vhC36csv() {
	ioutil.WriteFile("vh_in.csv", []byte("a,b,c\n1,0.5,2\n2,-1,1\n4,3,-1\n3,1.5,0.25\n"), 0644)
}

// vhC36data: the data of the file with the target column taken out
func vhC36data() (*mat.Dense, []float64) {
	X, y := mat.NewDense(4, 2, nil), make([]float64, 4)
	for r, row := range vhC36cells {
		c := 0
		for k, v := range row {
			if k == vhC36g.target {
				y[r] = v
				continue
			}
			X.Set(r, c, v)
			c++
		}
	}
	return X, y
}

func vhC36target(args []string) []string {
	g := &vhC36g
	g.target = vPick(0, 2)
	switch vPick(0, 2) {
	case 0:
		return append(args, "-target="+[]string{"0", "1", "2"}[g.target])
	case 1:
		return append(args, "-target="+[]string{"-3", "-2", "-1"}[g.target])
	}
	g.target = 2 // the last column where nothing is said
	return args
}

func vhC36nested(data *fs.Dataset, lambMin float64, keep float64, estimator fs.CDParam) fs.NestedLassoLars {
	g := &vhC36g
	g.calls++
	X, y := vhC36data()
	n, p := data.X.Dims()
	vAssert(n == 4 && p == 2 && len(data.Y) == 4, "the algorithm gets the data of the file")
	for i := range y {
		vEq(data.Y[i], y[i], "the algorithm gets the data of the file")
		for j := 0; j < 2; j++ {
			vEq(data.X.At(i, j), X.At(i, j), "the algorithm gets the data of the file")
		}
	}
	vEq(lambMin, g.lmin, "the smallest penalty given is used")
	vEq(keep, g.keep, "the fraction given is used")
	vAssert(estimator != nil, "there is an estimator")
	res := fs.NestedLassoLars{Dset: data}
	for i := 0; i < g.paths; i++ {
		res.Paths = append(res.Paths, fs.PureLassoLarsPathWithCrit{Nodes: []*fs.LassoLarsNode{fs.NewLassoLarsNode([]float64{g.coeff[i]}, 0.5, []int{i})}, Aicc: []float64{g.coeff[i] + 1}, Bic: []float64{g.coeff[i] + 2}})
	}
	return res
}

// vhC36Nested: the nested path program on a file of 4 rows and 3 columns, any target column, with and without options, and an algorithm that returns 1..2 paths with arbitrary coefficients.
//verif:harness real budget=100 stub=NestedLasso:vhC36nested nodedupe
func vhC36Nested() {
	g := &vhC36g
	g.calls = 0
	vhC36csv()
	args := vhC36target([]string{"-csvfile", "vh_in.csv"})
	out := "nesteLasso.json"
	g.lmin, g.keep = 1e-10, 0.8
	if vPick(0, 1) == 1 {
		out = "vh_nested.json"
		a, b := vNumText(1e-6, 1), vNumText(0.1, 1)
		g.lmin, g.keep = vNumVal(a), vNumVal(b)
		args = append(args, "-out", out, "-lambMin="+a, "-keep="+b)
	}
	g.paths = vPick(1, 2)
	g.coeff = []float64{vReal(), vReal()}
	os.Remove(out)
	if vPick(0, 1) == 1 { // an earlier result
		ioutil.WriteFile(out, []byte(strings.Repeat("{", 5000)), 0644)
	}
	vhC36run(nestedlasso_main, args...)
	vAssert(g.calls == 1, "the algorithm runs once")
	b, err := ioutil.ReadFile(out)
	vAssert(err == nil, "the result file is written")
	os.Remove(out)
	var r fs.NestedLassoLars
	vAssert(json.Unmarshal(b, &r) == nil, "the result file can be decoded")
	vAssert(r.Dset != nil && strings.Join(r.Dset.Names, ",") == "a,b,c" && r.Dset.TargetCol == g.target, "the result file holds the data")
	vAssert(len(r.Paths) == g.paths, "every path is in the result file")
	for i, p := range r.Paths {
		vAssert(len(p.Nodes) == 1 && len(p.Aicc) == 1 && len(p.Bic) == 1, "every node is in the result file")
		vAssert(fs.EqualInt(p.Nodes[0].Selection, []int{i}), "selections are stored")
		vEq(p.Nodes[0].Coeff[0], g.coeff[i], "coefficients are stored")
		vEq(p.Nodes[0].Lamb, 0.5, "penalties are stored")
		vEq(p.Aicc[0], g.coeff[i]+1, "criteria are stored")
		vEq(p.Bic[0], g.coeff[i]+2, "criteria are stored")
	}
	vReach("nested")
}

func vhC36sequence(numSamples int, targets []fs.CohensKappaTarget) map[string]float64 {
	g := &vhC36g
	g.calls++
	vAssert(numSamples == g.samples, "the number of samples given is used")
	vAssert(len(targets) == g.num, "there is one target per penalty")
	X, y := vhC36data()
	ref := fs.NewNormalizedData(X, y)
	want := fs.Logspace(g.lmin, g.lmax, g.num)
	for i, t := range targets {
		vEq(t.HyperParameters()["lamb"], want[g.num-1-i], "penalties go from the largest to the smallest")
		n, p := t.GetX().Dims()
		vAssert(n == 4 && p == 2, "the targets work on the data of the file")
		for r := 0; r < n; r++ {
			for c := 0; c < p; c++ {
				vEq(t.GetX().At(r, c), ref.X.At(r, c), "the targets work on the normalised data of the file")
			}
		}
	}
	return map[string]float64{}
}

// vhC36Kappa: the agreement program on a file of 4 rows and 3 columns, any target column, 1..3 penalties in any range, with and without options.
//verif:harness real budget=100 stub=CalculateCohenSequence:vhC36sequence nodedupe
func vhC36Kappa() {
	g := &vhC36g
	g.calls = 0
	vhC36csv()
	args := vhC36target([]string{"-csvfile", "vh_in.csv"})
	g.lmin, g.lmax, g.num, g.samples = 1e-5, 1, 20, 100
	if vPick(0, 1) == 1 {
		a, b := vNumText(1e-4, 0.01), vNumText(0.02, 1)
		g.lmin, g.lmax = vNumVal(a), vNumVal(b)
		g.num = vPick(1, 3)
		g.samples = vPick(7, 8)
		args = append(args, "-lambMin="+a, "-lambMax="+b, "-numLamb", []string{"0", "1", "2", "3"}[g.num], "-numSamp", []string{"7", "8"}[g.samples-7], "-tol=0.001")
	}
	vhC36run(cohenlasso_main, args...)
	vAssert(g.calls == 1, "the sequence is computed once")
	vReach("kappa")
}

// vhC36Memory: the memory program for 0..5 GB and 1, 2, 7, 40 or 300 features, options in both spellings, with default values when left out.
//verif:harness real nodedupe
func vhC36Memory() {
	gb := vPick(0, 5)
	nf := []int{1, 2, 7, 40, 300}[vPick(0, 4)]
	args := []string{"-mem", strconv.Itoa(gb), "-nfeat=" + strconv.Itoa(nf)}
	if gb == 0 && vPick(0, 1) == 1 {
		args = args[2:]
	} else if nf == 1 && vPick(0, 1) == 1 {
		args = args[:2]
	}
	out := os.Stdout
	f, err := os.Create("vh_mem_out.txt")
	vAssert(err == nil, "a file for the output")
	os.Stdout = f
	vhC36run(mem_main, args...)
	os.Stdout = out
	f.Close()
	b, err := ioutil.ReadFile("vh_mem_out.txt")
	vAssert(err == nil, "the output can be read")
	os.Remove("vh_mem_out.txt")
	var nums []int
	for _, w := range strings.FieldsFunc(string(b), func(r rune) bool { return r < '0' || r > '9' }) {
		n, err := strconv.Atoi(w)
		vAssert(err == nil, "numbers are printed")
		nums = append(nums, n)
	}
	vAssert(len(nums) == 2 && nums[0] == gb, "the memory and the number of entries are printed")
	m := make([]bool, nf)
	for i := range m {
		m[i] = true
	}
	size := fs.NewNode(0, m).EstimateMemory()
	// an entry has a truth value and a coefficient per feature and a few fields besides
	vAssert(size >= 9*nf && size <= 9*nf+64, "the size of an entry with all features")
	vAssert(nums[1]*size <= gb*1000000000, "the entries fit into the memory")
	vAssert((nums[1]+1)*size > gb*1000000000, "no more entries would fit")
	vReach("memory")
}
