package featselect

import "gonum.org/v1/gonum/mat"

func vhC10dataset(nr, nc, target int) *Dataset {
	all := []string{"n0", "n1", "age", "x y", "b"}
	var ds Dataset
	d := make([]float64, nr*nc)
	ds.Y = make([]float64, nr)
	for i := range d {
		d[i] = vReal()
	}
	for i := range ds.Y {
		ds.Y[i] = vReal()
	}
	ds.X = mat.NewDense(nr, nc, d)
	ds.TargetCol = target
	ds.Names = append([]string(nil), all[:nc+1]...)
	return &ds
}

// vhC10Names: every dataset shape with 1..4 features and every target column.
//verif:harness real
func vhC10Names() {
	nc := vPick(1, 4)
	t := vPick(0, nc)
	ds := vhC10dataset(1, nc, t)
	for i := 0; i < nc; i++ {
		nm := ds.GetFeatName(i)
		vAssert(nm != ds.Names[t], "a feature never carries the name of the target")
		k := 0
		for j := 0; j < i; j++ {
			vAssert(ds.GetFeatName(j) != nm, "different features have different names")
		}
		vAssert(ds.FeatNoByName(nm) == i, "number by name inverts name by number")
		// position among the non-target names
		for j := range ds.Names {
			if j == t {
				continue
			}
			if k == i {
				vAssert(ds.Names[j] == nm, "the name belongs to the column")
			}
			k++
		}
	}
	vAssert(vPanics(func() { ds.FeatNoByName("unknown") }), "an unknown name is rejected")
	vReach("names")
}

// vhC10Subset: every ordered choice of 1..3 features out of 1..4, every target column, 1..2 rows of arbitrary values; mapping back every selection of the subset.
//verif:harness real budgetT=300
func vhC10Subset() {
	nc := vPick(1, 3+vTier())
	nr := vPick(1, 2)
	t := vPick(0, nc)
	ds := vhC10dataset(nr, nc, t)
	orig := ds.Copy()
	k := vPick(1, nc)
	vAssume(k <= 3)
	feats := make([]int, k)
	for i := range feats {
		feats[i] = vPick(0, nc-1)
		for j := 0; j < i; j++ {
			vAssume(feats[i] != feats[j])
		}
	}
	want := append([]int(nil), feats...)
	s := ds.GetSubset(feats)
	r, c := s.X.Dims()
	vAssert(r == nr && c == k && len(s.Y) == nr && len(s.Names) == k+1, "subset dimensions")
	vAssert(s.TargetCol >= 0 && s.TargetCol <= k && s.Names[s.TargetCol] == ds.Names[t], "the target keeps its name")
	for i, f := range want {
		vAssert(s.GetFeatName(i) == ds.GetFeatName(f), "every chosen feature keeps its name")
		vAssert(feats[i] == f, "the list of features is unchanged")
		for q := 0; q < nr; q++ {
			vEq(s.X.At(q, i), orig.X.At(q, f), "every chosen feature keeps its column")
		}
	}
	for q := 0; q < nr; q++ {
		vEq(s.Y[q], orig.Y[q], "the subset keeps Y")
	}
	// write to the subset: the original must not change
	for q := 0; q < nr; q++ {
		s.Y[q] = 77
		for i := 0; i < k; i++ {
			s.X.Set(q, i, 77)
		}
	}
	vhC10same(ds, orig)
	m := vPick(0, k)
	sel := make([]int, m)
	for i := range sel {
		sel[i] = vPick(0, k-1)
	}
	sel0 := append([]int(nil), sel...)
	back := MapSelectionByName(ds, s.Names, sel)
	vAssert(len(back) == m, "mapping keeps the number of features")
	for i := range back {
		vAssert(back[i] == want[sel0[i]], "mapping back by name gives the original feature number")
	}
	vReach("subset")
	vObs("n", r, c)
}

func vhC10same(a, b *Dataset) {
	nr, nc := a.X.Dims()
	r, c := b.X.Dims()
	vAssert(nr == r && nc == c && len(a.Y) == len(b.Y) && len(a.Names) == len(b.Names) && a.TargetCol == b.TargetCol, "shape of the original unchanged")
	for i := range a.Names {
		vAssert(a.Names[i] == b.Names[i], "names of the original unchanged")
	}
	for i := range a.Y {
		vEq(a.Y[i], b.Y[i], "Y of the original unchanged")
		for j := 0; j < c; j++ {
			vEq(a.X.At(i, j), b.X.At(i, j), "X of the original unchanged")
		}
	}
}

// vhC10Copy: a copy is equal and shares nothing with the original.
//verif:harness real
func vhC10Copy() {
	nc, nr := vPick(1, 3), vPick(1, 3)
	ds := vhC10dataset(nr, nc, vPick(0, nc))
	var x, y []float64
	for i := 0; i < nr; i++ {
		y = append(y, ds.Y[i])
		for j := 0; j < nc; j++ {
			x = append(x, ds.X.At(i, j))
		}
	}
	t := ds.TargetCol
	names := append([]string(nil), ds.Names...)
	c := ds.Copy()
	vhC10same(c, ds)
	c.TargetCol = -5
	for i := range c.Names {
		c.Names[i] = "gone"
	}
	for i := 0; i < nr; i++ {
		c.Y[i] = 5
		for j := 0; j < nc; j++ {
			c.X.Set(i, j, 6)
		}
	}
	vAssert(ds.TargetCol == t, "the original keeps its target")
	for i := range names {
		vAssert(ds.Names[i] == names[i], "the original keeps its names")
	}
	for i := 0; i < nr; i++ {
		vEq(ds.Y[i], y[i], "the original keeps Y")
		for j := 0; j < nc; j++ {
			vEq(ds.X.At(i, j), x[i*nc+j], "the original keeps X")
		}
	}
	vReach("copy")
}

// vhC10AnyNames: three columns named by 1..2 (thorough 3) arbitrary characters each, pairwise different, every target column.
//verif:harness real budget=100 budgetT=600
func vhC10AnyNames() {
	t := vPick(0, 2)
	ds := vhC10dataset(1, 2, t)
	for i := range ds.Names {
		b := make([]byte, vPick(1, 2+vTier()))
		for k := range b {
			b[k] = vByte()
		}
		ds.Names[i] = string(b)
		for k := 0; k < i; k++ {
			vAssume(ds.Names[k] != ds.Names[i])
		}
	}
	for i := 0; i < 2; i++ {
		j := i
		if i >= t {
			j = i + 1
		}
		vAssert(ds.GetFeatName(i) == ds.Names[j], "the name belongs to the column")
		vAssert(ds.FeatNoByName(ds.GetFeatName(i)) == i, "number by name inverts name by number")
	}
	f := vPick(0, 1)
	sub := ds.GetSubset([]int{f})
	vAssert(sub.GetFeatName(0) == ds.GetFeatName(f), "a subset keeps the names")
	vAssert(MapSelectionByName(ds, []string{sub.GetFeatName(0)}, []int{0})[0] == f, "mapping back by name")
	vReach("anynames")
}

// vhC10CloseNames: names that differ in the case of letters, in spaces, in zeros, or where one name is the beginning or the end of another, every pair of them and every target column.
//verif:harness real
func vhC10CloseNames() {
	all := []string{"age", "Age", "age ", " age", "agee", "ag", "age0", "age00", "x1", "x01", "k", "\u212a", "", "1", "+1", "1.0", "target", "\"age\""}
	a := vPick(0, len(all)-1)
	b := vPick(0, len(all)-1)
	vAssume(a != b)
	t := vPick(0, 2)
	ds := vhC10dataset(1, 2, t)
	k := 0
	for i := range ds.Names {
		if i == t {
			ds.Names[i] = "some target"
			continue
		}
		ds.Names[i] = all[a]
		if k == 1 {
			ds.Names[i] = all[b]
		}
		k++
	}
	vAssert(ds.GetFeatName(0) == all[a] && ds.GetFeatName(1) == all[b], "the name belongs to the column")
	vAssert(ds.FeatNoByName(all[a]) == 0 && ds.FeatNoByName(all[b]) == 1, "number by name inverts name by number")
	f := vPick(0, 1)
	sub := ds.GetSubset([]int{1 - f, f})
	vAssert(sub.GetFeatName(0) == ds.GetFeatName(1-f) && sub.GetFeatName(1) == ds.GetFeatName(f), "a subset keeps the names")
	vEq(sub.X.At(0, 0), ds.X.At(0, 1-f), "a subset keeps the columns")
	back := MapSelectionByName(ds, sub.Names, []int{0, 1})
	vAssert(back[0] == 1-f && back[1] == f, "mapping back by name")
	vReach("closenames")
}

// vhC10Wide: datasets with 40 features, three target columns, subsets of 1, 12, 39 and 40 features in three orders.
//verif:harness real
func vhC10Wide() {
	nc, nr := 40, 2
	t := []int{0, 23, 40}[vPick(0, 2)]
	v := vReal()
	ds := &Dataset{X: mat.NewDense(nr, nc, nil), Y: []float64{1, 2}, TargetCol: t}
	for j := 0; j <= nc; j++ {
		ds.Names = append(ds.Names, "n"+string(rune('0'+j/10))+string(rune('0'+j%10)))
	}
	for j := 0; j < nc; j++ {
		ds.X.Set(0, j, v+float64(j))
		ds.X.Set(1, j, float64(3*j))
	}
	orig := ds.Copy()
	for j := 0; j < nc; j++ {
		vAssert(ds.FeatNoByName(ds.GetFeatName(j)) == j, "number by name inverts name by number")
	}
	m := []int{1, 12, 39, 40}[vPick(0, 3)]
	order := vPick(0, 2)
	feats := make([]int, m)
	for i := range feats {
		switch order {
		case 0:
			feats[i] = i
		case 1:
			feats[i] = nc - 1 - i
		case 2:
			feats[i] = (i*7 + 3) % nc
		}
	}
	s := ds.GetSubset(append([]int(nil), feats...))
	vAssert(s.Names[s.TargetCol] == ds.Names[t], "the target keeps its name")
	sel := make([]int, m)
	for i, f := range feats {
		vAssert(s.GetFeatName(i) == ds.GetFeatName(f), "every chosen feature keeps its name")
		vEq(s.X.At(0, i), orig.X.At(0, f), "every chosen feature keeps its column")
		vEq(s.X.At(1, i), orig.X.At(1, f), "every chosen feature keeps its column")
		sel[i] = i
	}
	names := make([]string, m)
	for i := range names {
		names[i] = s.GetFeatName(i)
	}
	back := MapSelectionByName(ds, names, sel)
	for i, f := range feats {
		vAssert(back[i] == f, "mapping back by name gives the original feature number")
	}
	vhC10same(ds, orig)
	vReach("wide")
}
