package featselect

//uses lib_plot.go

import (
	"math"

	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/plotter"
)

type vhC35path struct {
	p    LassoLarsPath
	sel  [][]int
	val  [][]float64
	lam  []float64
	X    []float64
	y    []float64
	nf   int
	rows int
}

// vhC35make builds a path of nn nodes over nf features: arbitrary selections (ascending or descending), coefficients and positive penalties.
func vhC35make(nn, nf, rows int, descending bool) *vhC35path {
	q := &vhC35path{nf: nf, rows: rows}
	for k := 0; k < nn; k++ {
		m := vPick(0, 1<<uint(nf)-1)
		var sel []int
		var cf []float64
		v := make([]float64, nf)
		for i := 0; i < nf; i++ {
			j := i
			if k%2 == 1 {
				j = nf - 1 - i
			}
			if m>>uint(j)&1 == 1 {
				v[j] = vFloat(-10, 10)
				sel = append(sel, j)
				cf = append(cf, v[j])
			}
		}
		l := vFloat(1e-30, 1e6)
		if descending && k > 0 {
			vAssume(l < q.lam[k-1])
		}
		q.lam = append(q.lam, l)
		q.val = append(q.val, v)
		q.sel = append(q.sel, sel)
		q.p.LassoLarsNodes = append(q.p.LassoLarsNodes, NewLassoLarsNode(append([]float64(nil), cf...), l, append([]int(nil), sel...)))
	}
	if rows > 0 {
		q.X, q.y = make([]float64, rows*nf), make([]float64, rows)
		for i := range q.X {
			q.X[i] = float64((i*7+3)%5) - 1.75
		}
		if rows == 2 {
			q.X[1] = vFloat(-10, 10)
		}
		for i := range q.y {
			q.y[i] = vFloat(-10, 10)
		}
		q.p.Dset = &Dataset{X: mat.NewDense(rows, nf, append([]float64(nil), q.X...)), Y: append([]float64(nil), q.y...)}
	}
	return q
}

// vhC35same: plotting changes nothing of the path
func (q *vhC35path) vhC35same() {
	vAssert(len(q.p.LassoLarsNodes) == len(q.lam), "the path is not changed")
	for k, n := range q.p.LassoLarsNodes {
		vEq(n.Lamb, q.lam[k], "the path is not changed")
		vAssert(EqualInt(n.Selection, q.sel[k]), "the path is not changed")
		for i, j := range q.sel[k] {
			vEq(n.Coeff[i], q.val[k][j], "the path is not changed")
		}
	}
}

func vhC35line(pl plot.Plotter) plotter.XYs {
	l, ok := pl.(*plotter.Line)
	vAssert(ok, "curves are drawn as lines")
	return l.XYs
}

// vhC35Curves: paths of 1..3 nodes over 2 (thorough 3) features, descending penalties, with and without axis limits.
//verif:harness real budget=100 budgetT=600 redirect=gonum.org/v1/plot.New:vhPlotNew
func vhC35Curves() {
	q := vhC35make(vPick(1, 3), 2+vTier(), 0, true)
	top := -1
	for _, s := range q.sel {
		for _, j := range s {
			if j > top {
				top = j
			}
		}
	}
	vAssume(top >= 0)
	var ax *AxisRange
	lo, hi := 0.0, 0.0
	if vPick(0, 1) == 1 {
		lo, hi = vFloat(-20, 0), vFloat(0.5, 20)
		ax = &AxisRange{Min: lo, Max: hi}
	}
	plt := q.p.PlotPath(ax)
	pl := vhPlotted(plt)
	nn := len(q.lam)
	vAssert(len(pl) == top+2, "one curve per feature up to the largest selected one and the zero line")
	for f := 0; f <= top; f++ {
		xy := vhC35line(pl[f])
		vAssert(len(xy) == nn, "a curve has a point per node")
		for k := range xy {
			vEq(xy[k].X, math.Log10(q.lam[k]), "curves are drawn over the logarithm of the penalty")
			vEq(xy[k].Y, q.val[k][f], "a curve shows the coefficients of its feature, zero where it is absent")
		}
	}
	z := vhC35line(pl[top+1])
	vAssert(len(z) == 2, "the zero line has two ends")
	vEq(z[0].Y, 0, "the zero line is at zero")
	vEq(z[1].Y, 0, "the zero line is at zero")
	vEq(z[0].X+z[1].X, math.Log10(q.lam[0])+math.Log10(q.lam[nn-1]), "the zero line spans the penalties")
	vLe(math.Log10(q.lam[0])-math.Log10(q.lam[nn-1]), math.Abs(z[0].X-z[1].X), "the zero line spans the penalties")
	if ax != nil {
		vEq(plt.Y.Min, lo, "given axis limits are used")
		vEq(plt.Y.Max, hi, "given axis limits are used")
	} else {
		for k := range q.val {
			for _, j := range q.sel[k] {
				vLe(plt.Y.Min, q.val[k][j], "without limits every coefficient lies in the range of the plot")
				vLe(q.val[k][j], plt.Y.Max, "without limits every coefficient lies in the range of the plot")
			}
		}
	}
	q.vhC35same()
	vReach("curves")
}

// vhC35Entrance: paths of 1..2 (thorough 3) nodes over 3 features, penalties in any order.
//verif:harness real budget=100 budgetT=600 redirect=gonum.org/v1/plot.New:vhPlotNew
func vhC35Entrance() {
	q := vhC35make(vPick(1, 2+vTier()), 3, 0, false)
	var fx []int
	var pts plotter.XYs
	for k, s := range q.sel {
		for _, j := range s {
			pts = append(pts, plotter.XY{X: float64(j), Y: math.Log10(q.lam[k])})
		}
	}
	vAssume(len(pts) > 0)
	for f := 0; f < q.nf; f++ {
		in := false
		for _, s := range q.sel {
			in = in || ExistInt(s, f)
		}
		if in {
			fx = append(fx, f)
		}
	}
	pl := vhPlotted(q.p.PlotEntranceTimes())
	vAssert(len(pl) == 2, "points and the line of first entrances")
	s, ok := pl[0].(*plotter.Scatter)
	vAssert(ok, "selected features are drawn as points")
	vAssert(len(s.XYs) == len(pts), "one point per node and selected feature")
	for i := range pts {
		vEq(s.XYs[i].X, pts[i].X, "a point is drawn at its feature")
		vEq(s.XYs[i].Y, pts[i].Y, "a point is drawn at the penalty of its node")
	}
	l := vhC35line(pl[1])
	vAssert(len(l) == len(fx), "one first entrance per feature that was ever selected")
	for i, f := range fx {
		vEq(l[i].X, float64(f), "first entrances are drawn in the order of the features")
		is := false
		for k, s := range q.sel {
			if ExistInt(s, f) {
				g := math.Log10(q.lam[k])
				vLe(g, l[i].Y, "a feature enters at the largest penalty that selects it")
				if l[i].Y == g {
					is = true
				}
			}
		}
		vAssert(is, "a feature enters at a penalty that selects it")
	}
	q.vhC35same()
	vReach("entrance")
}

// vhC35Quality: paths of 1..2 (thorough 3) nodes over 2 features, fixed data of 5 rows and arbitrary targets; the criterion itself is decided by C04 and C30.
//verif:harness real budget=100 budgetT=600 redirect=gonum.org/v1/plot.New:vhPlotNew
func vhC35Quality() {
	q := vhC35make(vPick(1, 2+vTier()), 2, 5, false)
	want := make([]float64, len(q.lam))
	for k := range want {
		rss := 0.0
		for i, y := range q.y {
			e := y
			for j, b := range q.val[k] {
				e -= b * q.X[i*q.nf+j]
			}
			rss += e * e
		}
		vAssume(rss > 1e-3)
		want[k] = Aicc(len(q.sel[k]), 5, rss)
	}
	pl := vhPlotted(q.p.PlotQualityScores())
	vAssert(len(pl) == 1, "one curve")
	xy := vhC35line(pl[0])
	vAssert(len(xy) == len(want), "a curve has a point per node")
	for k := range want {
		vEq(xy[k].X, math.Log10(q.lam[k]), "the criterion is drawn over the logarithm of the penalty")
		vEq(xy[k].Y, want[k], "the criterion of each node is drawn")
	}
	q.vhC35same()
	vReach("quality")
}

// vhC35Deviations: paths of 1..2 (thorough 3) nodes over 2 features, arbitrary targets in 2 or 3 rows, one arbitrary entry of the data of 2 rows.
//verif:harness real budget=100 budgetT=600 redirect=gonum.org/v1/plot.New:vhPlotNew
func vhC35Deviations() {
	rows := vPick(2, 3)
	q := vhC35make(vPick(1, 2+vTier()), 2, rows, false)
	want := make([]float64, len(q.lam))
	for k := range want {
		rss := 0.0
		for i, y := range q.y {
			e := y
			for j, b := range q.val[k] {
				e -= b * q.X[i*q.nf+j]
			}
			rss += e * e
		}
		vAssume(rss > 1e-11)
		want[k] = math.Log10(rss/float64(rows)) / 2
	}
	pl := vhPlotted(q.p.PlotDeviations())
	vAssert(len(pl) == 1, "one curve")
	xy := vhC35line(pl[0])
	vAssert(len(xy) == len(want), "a curve has a point per node")
	for k := range want {
		vEq(xy[k].X, math.Log10(q.lam[k]), "the deviation is drawn over the logarithm of the penalty")
		vNear(xy[k].Y, want[k], 1e-9, "the logarithm of the root mean square deviation of each node is drawn")
	}
	q.vhC35same()
	vReach("deviations")
}
