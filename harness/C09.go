package featselect

import (
	"strings"

	"gonum.org/v1/gonum/mat"
)

func vhC09dataset(nr, nc, target int, names []string) *Dataset {
	var ds Dataset
	d := make([]float64, nr*nc)
	ds.Y = make([]float64, nr)
	for i := range d {
		d[i] = vFloat(-1e9, 1e9)
	}
	for i := range ds.Y {
		ds.Y[i] = vFloat(-1e9, 1e9)
	}
	ds.X = mat.NewDense(nr, nc, d)
	ds.TargetCol = target
	ds.Names = append([]string(nil), names...)
	return &ds
}

// vhC09RoundTrip: datasets with 1..3 rows, 1..3 features, any target column and arbitrary values up to 1e9.
//verif:harness real
func vhC09RoundTrip() {
	nr, nc := vPick(1, 3), vPick(1, 3)
	t := vPick(0, nc)
	all := []string{"n0", "b 1", "c,2", "d\"3"}
	ds := vhC09dataset(nr, nc, t, all[:nc+1])
	arg := t
	if vPick(0, 1) == 1 {
		arg = t - nc - 1
	}
	vhC09check(ds, arg)
	vReach("roundtrip")
}

func vhC09check(ds *Dataset, arg int) {
	var sb strings.Builder
	ds.SaveHandle(&sb)
	vhC09same(ds, ParseCSV(strings.NewReader(sb.String()), arg))
}

func vhC09same(ds, g *Dataset) {
	nr, nc := ds.X.Dims()
	r, c := g.X.Dims()
	vAssert(r == nr && c == nc && len(g.Y) == nr, "dimensions are preserved")
	vAssert(g.TargetCol == ds.TargetCol, "target position is preserved")
	vAssert(len(g.Names) == len(ds.Names), "names are preserved")
	for i := range ds.Names {
		vAssert(g.Names[i] == ds.Names[i], "names are preserved")
	}
	for i := 0; i < nr; i++ {
		vNear(g.Y[i], ds.Y[i], 0.5000001e-6, "target values differ by at most the printed decimals")
		for j := 0; j < nc; j++ {
			vNear(g.X.At(i, j), ds.X.At(i, j), 0.5000001e-6, "values differ by at most the printed decimals")
		}
	}
}

// vhC09File: the same through a file: 1..2 rows, 1..2 features, any target column, with or without an older, longer file of that name.
//verif:harness real nodedupe
func vhC09File() {
	nr, nc := vPick(1, 2), vPick(1, 2)
	t := vPick(0, nc)
	ds := vhC09dataset(nr, nc, t, []string{"n0", "b 1", "c,2"}[:nc+1])
	name := []string{"vh_c09_a.csv", "vh_c09_b.csv"}[vPick(0, 1)]
	if name == "vh_c09_b.csv" {
		o := vhC09dataset(3, 2, 0, []string{"old", "older", "oldest"})
		o.Save(name)
	}
	ds.Save(name)
	vhC09same(ds, ReadCSV(name, t))
	vReach("file")
}

// vhC09Names: names of up to 2 (thorough 3) arbitrary printable ASCII characters, at least one of them for the first column.
//verif:harness real budget=100
func vhC09Names() {
	n := vPick(1, 2+vTier())
	b := make([]byte, n)
	for i := range b {
		b[i] = vByte()
		vAssume(b[i] >= 32 && b[i] < 127)
	}
	nm := string(b)
	ds := vhC09dataset(1, 1, vPick(0, 1), []string{nm, "other"})
	vhC09check(ds, ds.TargetCol)
	vReach("names")
}

// vhC09Equal: equality of two datasets with 1..2 rows and 1..2 features that differ in nothing, one value, one name, the target or the shape.
//verif:harness real
func vhC09Equal() {
	nr, nc := vPick(1, 2), vPick(1, 2)
	t := vPick(0, nc)
	all := []string{"a", "b", "c"}
	ds := vhC09dataset(nr, nc, t, all[:nc+1])
	vAssert(ds.IsEqual(ds), "equality is reflexive")
	o := ds.Copy()
	vAssert(ds.IsEqual(o) && o.IsEqual(ds), "a copy is equal")
	switch vPick(0, 6) {
	case 0:
		i, j := vPick(0, nr-1), vPick(0, nc-1)
		v := vFloat(-1e9, 1e9)
		d := v - ds.X.At(i, j)
		vAssume(d > 1 || d < -1)
		o.X.Set(i, j, v)
		vAssert(!ds.IsEqual(o) && !o.IsEqual(ds), "a different value is detected")
		vReach("x")
	case 1:
		i := vPick(0, nr-1)
		v := vFloat(-1e9, 1e9)
		d := v - ds.Y[i]
		vAssume(d > 1 || d < -1)
		o.Y[i] = v
		vAssert(!ds.IsEqual(o) && !o.IsEqual(ds), "a different target value is detected")
		vReach("y")
	case 2:
		o.Names[vPick(0, nc)] = "zz"
		vAssert(!ds.IsEqual(o) && !o.IsEqual(ds), "a different name is detected")
		vReach("name")
	case 3:
		nt := vPick(0, nc)
		vAssume(nt != t)
		o.TargetCol = nt
		vAssert(!ds.IsEqual(o) && !o.IsEqual(ds), "a different target column is detected")
		vReach("target")
	case 4:
		k := vPick(0, 1)
		p := vhC09dataset(nr+1-k, nc+k, t, []string{"a", "b", "c", "d"}[:nc+k+1])
		vAssert(!ds.IsEqual(p) && !p.IsEqual(ds), "a different shape is detected")
		vReach("shape")
	case 5:
		// only the number of target values differs
		if vPick(0, 1) == 1 {
			o.Y = append(o.Y, vReal())
		} else {
			o.Y = o.Y[:nr-1]
		}
		vAssert(!ds.IsEqual(o) && !o.IsEqual(ds), "a different number of target values is detected")
		vReach("length")
	case 6:
		// only the number of names differs
		o.Names = append(o.Names, "more")
		vAssert(!ds.IsEqual(o) && !o.IsEqual(ds), "a different number of names is detected")
		vReach("names")
	}
}

// vhC09Wide: datasets with 60 rows and 15 features, one arbitrary value at one of six places, three target columns.
//verif:harness real
func vhC09Wide() {
	nr, nc := 60, 15
	t := []int{0, 8, 15}[vPick(0, 2)]
	var ds Dataset
	ds.X = mat.NewDense(nr, nc, nil)
	ds.Y = make([]float64, nr)
	ds.TargetCol = t
	for j := 0; j <= nc; j++ {
		ds.Names = append(ds.Names, "n"+string(rune('a'+j)))
	}
	for i := 0; i < nr; i++ {
		ds.Y[i] = float64((i*i+3)%97)*12345.25 - 3e5
		for j := 0; j < nc; j++ {
			ds.X.Set(i, j, float64((i*37+j*11+5)%1009)/8-60)
		}
	}
	v := vFloat(-1e9, 1e9)
	if k := vPick(0, 5); k < 2 {
		ds.Y[k*59] = v
	} else {
		ds.X.Set((k%2)*59, (k/4)*14, v)
	}
	vhC09check(&ds, t)
	o := ds.Copy()
	vAssert(ds.IsEqual(o) && o.IsEqual(&ds), "equality is reflexive")
	o.X.Set(59, 14, o.X.At(59, 14)+1)
	vAssert(!ds.IsEqual(o) && !o.IsEqual(&ds), "a difference in a value is detected")
	o = ds.Copy()
	o.Y[59] += 1
	vAssert(!ds.IsEqual(o) && !o.IsEqual(&ds), "a difference in a value is detected")
	o = ds.Copy()
	o.Names[15] = "other"
	vAssert(!ds.IsEqual(o) && !o.IsEqual(&ds), "a difference in a name is detected")
	vReach("wide")
}
