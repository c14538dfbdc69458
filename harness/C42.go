package featselect

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"strings"

	"gonum.org/v1/gonum/mat"
)

func vhC42floats(n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = vFloat(-10, 10)
	}
	return r
}

// vhC42Sizes: matrices of 1..3 rows and 1..3 columns with 0..4 coefficients and targets, arbitrary values.
//verif:harness real
func vhC42Sizes() {
	nr, nc := vPick(1, 3), vPick(1, 3)
	X := mat.NewDense(nr, nc, vhC42floats(nr*nc))
	nco, ny := vPick(1, 4), vPick(1, 4)
	c, y := vhC42floats(nco), vhC42floats(ny)
	switch vPick(0, 4) {
	case 0:
		vAssume(ny != nr && nco == 1)
		vAssert(vPanics(func() { Fit(X, y) }), "a fit needs one target per row")
		vReach("fit")
	case 1:
		vAssume(ny == 1)
		vAssert(vPanics(func() { Predict(X, c) }) == (nco != nc), "a prediction needs one coefficient per column")
		vReach("predict")
	case 2:
		vAssert(vPanics(func() { Rss(X, c, y) }) == (nco != nc || ny != nr), "the residual needs one coefficient per column and one target per row")
		vReach("rss")
	case 3:
		vAssume(ny == 1)
		vAssert(vPanics(func() { MulSlice(X, c) }) == (nco != nc), "a product needs one factor per column")
		vReach("mulslice")
	case 4:
		sel := make([]int, ny)
		for i := range sel {
			sel[i] = i
		}
		vAssume(nr == 1 && nc == 1)
		vAssert(vPanics(func() { NewLassoLarsNode(c, 0.5, sel) }) == (ny != nco), "a node of a path needs one coefficient per selected feature")
		vReach("node")
	}
}

// vhC42Models: the options of the model search, design matrices, averages, changes of units, names: 1..4 features.
//verif:harness real
func vhC42Models() {
	switch vPick(0, 4) {
	case 0:
		nf := vPick(1, 4)
		root := vPick(0, 5)
		vAssume(nf < 3 || root != nf)
		p := NewSelectModelOptParams()
		if nf < 3 && root == 5 {
			p = nil
		} else {
			p.RootModel = make([]bool, root)
		}
		X := mat.NewDense(4, nf, nil)
		h := NewHighscore(10)
		vAssert(vPanics(func() { SelectModel(X, []float64{1, 2, 3, 4}, h, &SearchProgress{}, p) }), "a search needs three features and a start model of the same size")
		vAssert(h.Len() == 0, "a refused search finds nothing")
		vReach("search")
	case 1:
		n := vPick(1, 4)
		m := make([]bool, n)
		any := false
		for i := range m {
			m[i] = vBool()
			any = any || m[i]
		}
		X := mat.NewDense(2, n, vhC42floats(2*n))
		vAssert(vPanics(func() { GetDesignMatrix(m, X) }) == !any, "only models with features have a design matrix")
		vReach("design")
	case 2:
		n, k := vPick(0, 3), vPick(0, 3)
		sets := make([]SparseCoeff, k)
		for i := range sets {
			sets[i] = SparseCoeff{Selection: []int{i}, Coeff: vhC42floats(1)}
		}
		vAssert(vPanics(func() { WeightedAveragedCoeff(4, vhC42floats(n), sets) }) == (n != k), "an average needs one weight per model")
		vReach("average")
	case 3:
		d := &NormalizedData{std: []float64{0, 2, 3}, mu: []float64{1, 4, 5}, stdY: 1.5, muY: 7, HasBias: vBool()}
		if !d.HasBias {
			d.std[0] = 4
		}
		i, v := vPick(0, 2), vFloat(-10, 10)
		vAssert(vPanics(func() { d.LinearNormalizationTransformation(i, v) }) == (i == 0 && d.HasBias), "the bias has no coefficient in normalised units")
		vReach("bias")
	case 4:
		nf := vPick(1, 3)
		d := &Dataset{X: mat.NewDense(1, nf, nil), Y: []float64{1}, TargetCol: vPick(0, nf)}
		for i := 0; i <= nf; i++ {
			d.Names = append(d.Names, "n"+string(rune('a'+i)))
		}
		for i, n := range []string{"na", "nb", "nc", "nd", "n", "nA", "", "na "} {
			if i != d.TargetCol {
				vAssert(vPanics(func() { d.FeatNoByName(n) }) == (i > nf), "exactly the names of the dataset are known")
			}
		}
		vReach("names")
	}
}

// vhC42Constant: 3 data points, 1..3 columns, any of them constant: only the first may be.
//verif:harness real
func vhC42Constant() {
	nc := vPick(1, 3)
	d := make([]float64, 3*nc)
	ok := true
	for j := 0; j < nc; j++ {
		base, s := vFloat(-10, 10), vFloat(-10, 10)
		if vBool() {
			s = 0
			ok = ok && j == 0
		} else {
			vAssume(s > 0.01 || s < -0.01)
		}
		for i := 0; i < 3; i++ {
			d[i*nc+j] = base + float64(i-1)*s
		}
	}
	vAssert(vPanics(func() { NewNormalizedData(mat.NewDense(3, nc, d), []float64{1, 2, 3}) }) == !ok, "only the first column may be constant")
	vReach("constant")
}

// vhC42Text: tables whose lines differ in length or have broken quotes; broken stored results; missing files.
//verif:harness real nodedupe
func vhC42Text() {
	switch vPick(0, 4) {
	case 0: // 3 columns, a line of other length at any place
		bad := vPick(0, 3)
		n := []int{1, 2, 4}[vPick(0, 2)]
		var b strings.Builder
		b.WriteString("a,b,c\n")
		for i := 0; i < 3; i++ {
			k := 3
			if i == bad {
				k = n
			}
			for j := 0; j < k; j++ {
				if j > 0 {
					b.WriteString(",")
				}
				b.WriteString("1.5")
			}
			b.WriteString("\n")
		}
		vAssert(vPanics(func() { ParseCSV(strings.NewReader(b.String()), 0) }) == (bad < 3), "every line has as many cells as the first one")
		vReach("ragged")
	case 1:
		t := []string{"a,b\n1,2\n3,\"4\n", "a,b\n1,2\"3\n", "a,\"b\n1,2\n"}[vPick(0, 2)]
		vAssert(vPanics(func() { ParseCSV(strings.NewReader(t), 1) }), "broken quotes are refused")
		vReach("quotes")
	case 2:
		os.Remove("vh_c42_none.csv")
		vAssert(ReadCSV("vh_c42_none.csv", 0) == nil, "no dataset is made up for a missing file")
		vAssert(vPanics(func() { LassoLarsPathFromJSON("vh_c42_none.csv") }), "no path is made up for a missing file")
		vReach("missing")
	case 3:
		t := []string{"", "{", "[1,2", "{\"X\": [1,2}", "nonsense"}[vPick(0, 4)]
		var n Node
		var h Highscore
		var d Dataset
		vAssert(json.Unmarshal([]byte(t), &n) != nil, "a broken text is not a node")
		vAssert(json.Unmarshal([]byte(t), &h) != nil, "a broken text is not a list")
		vAssert(json.Unmarshal([]byte(t), &d) != nil, "a broken text is not a dataset")
		vAssert(json.Unmarshal([]byte("{\"X\": 5, \"Y\": [1], \"Nr\": 1, \"Nc\": 1}"), &d) != nil, "a text of another kind is not a dataset")
		vReach("json")
	case 4:
		ioutil.WriteFile("vh_c42.csv", []byte("a,b\n1,2,3\n"), 0644)
		vAssert(vPanics(func() { ReadCSV("vh_c42.csv", 0) }), "every line of a file has as many cells as the first one")
		os.Remove("vh_c42.csv")
		vReach("file")
	}
}
