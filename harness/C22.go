package featselect

// vhC22Argsort: for every slice of 0..4 (thorough 0..5) numbers the index sort is a permutation with ascending values, and the input is unchanged.
//verif:harness fp budgetT=600
func vhC22Argsort() {
	n := vPick(0, 4+vTier())
	a := make([]float64, n)
	o := make([]float64, n)
	for i := range a {
		a[i] = vReal()
		o[i] = a[i]
	}
	idx := Argsort(a)
	vAssert(len(idx) == n, "one index per value")
	seen := make([]bool, n)
	for k, v := range idx {
		vAssert(v >= 0 && v < n, "index in range")
		vAssert(!seen[v], "every index exactly once")
		seen[v] = true
		if k > 0 {
			vLe(o[idx[k-1]], o[v], "values ascend along the returned order")
		}
	}
	for i := range a {
		vEq(a[i], o[i], "Argsort leaves its input unchanged")
	}
	vReach("argsort")
	vObs("idx", idx)
}

// vhC22ArgExt: index of minimum and maximum of every slice of 1..5 (thorough 7) numbers.
//verif:harness fp budgetT=600
func vhC22ArgExt() {
	n := vPick(1, 5+2*vTier())
	a := make([]float64, n)
	o := make([]float64, n)
	for i := range a {
		a[i] = vReal()
		o[i] = a[i]
	}
	i0 := Argmin(a)
	i1 := Argmax(a)
	vAssert(i0 >= 0 && i0 < n && i1 >= 0 && i1 < n, "index in range")
	m := MinFloat(a)
	for i := range a {
		vLe(o[i0], o[i], "Argmin points at a minimal element")
		vLe(o[i], o[i1], "Argmax points at a maximal element")
		vEq(a[i], o[i], "input unchanged")
	}
	vEq(m, o[i0], "MinFloat is the minimum")
	vReach("ext")
	vObs("r", i0, i1, m)
}

// vhC22Ints: MaxInt, MinInt, Sum, All, ExistInt for every slice of 1..4 (thorough 6) 64-bit integers (sum: no overflow).
//verif:harness real
func vhC22Ints() {
	n := vPick(1, 4+2*vTier())
	a := make([]int, n)
	o := make([]int, n)
	for i := range a {
		a[i] = vI64()
		o[i] = a[i]
	}
	v := vI64()
	mx, mn := MaxInt(a), MinInt(a)
	isMax, isMin, all, exist := false, false, true, false
	for i := range o {
		vAssert(o[i] <= mx, "MaxInt is an upper bound")
		vAssert(o[i] >= mn, "MinInt is a lower bound")
		isMax = isMax || o[i] == mx
		isMin = isMin || o[i] == mn
		all = all && o[i] == v
		exist = exist || o[i] == v
	}
	vAssert(isMax, "MaxInt is an element")
	vAssert(isMin, "MinInt is an element")
	vAssert(All(a, v) == all, "All")
	vAssert(ExistInt(a, v) == exist, "ExistInt")
	s := Sum(a)
	w := 0
	for i := range o {
		w += o[i]
	}
	vAssert(s == w, "Sum")
	for i := range a {
		vAssert(a[i] == o[i], "input unchanged")
	}
	vReach("ints")
	vObs("r", mx, mn)
}

// vhC22Equal: EqualInt for every pair of slices with up to 3 (thorough 5) integers each.
//verif:harness real
func vhC22Equal() {
	n := vPick(0, 3+2*vTier())
	m := vPick(0, 3+2*vTier())
	a := make([]int, n)
	b := make([]int, m)
	for i := range a {
		a[i] = vI64()
	}
	for i := range b {
		b[i] = vI64()
	}
	r := EqualInt(a, b)
	want := n == m
	if want {
		for i := range a {
			want = want && a[i] == b[i]
		}
	}
	vAssert(r == want, "EqualInt holds exactly for equal slices")
	if r {
		vReach("equal")
	} else {
		vReach("different")
	}
}

// vhC22Union: union of every pair of slices with up to 3 (thorough 4) integers each.
//verif:harness real
func vhC22Union() {
	n := vPick(0, 3+vTier())
	m := vPick(0, 3+vTier())
	back := make([]int, n, n+2)
	a := back[:n]
	oa := make([]int, n)
	b := make([]int, m)
	ob := make([]int, m)
	for i := range a {
		a[i] = vI64()
		oa[i] = a[i]
	}
	for i := range b {
		b[i] = vI64()
		ob[i] = b[i]
	}
	u := UnionInt(a, b)
	vAssert(len(u) >= n, "first slice is the prefix of the union")
	for i := range oa {
		vAssert(u[i] == oa[i], "first slice is the prefix of the union")
		vAssert(a[i] == oa[i], "input unchanged")
	}
	for i := range ob {
		vAssert(b[i] == ob[i], "input unchanged")
		in := false
		for _, x := range u {
			in = in || x == ob[i]
		}
		vAssert(in, "the union contains every value of the second slice")
	}
	for i := n; i < len(u); i++ {
		in := false
		for _, x := range ob {
			in = in || x == u[i]
		}
		vAssert(in, "the union contains nothing else")
		for j := 0; j < i; j++ {
			vAssert(u[i] != u[j], "no value is added twice")
		}
	}
	vReach("union")
	vObs("u", u)
}

// vhC22Wide: slices of 40 fixed values (with repeats, ascending, descending or mixed) and one arbitrary value at one of five places.
//verif:harness real
func vhC22Wide() {
	n := 40
	kind := vPick(0, 2)
	at := []int{0, 12, 13, 20, 39}[vPick(0, 4)]
	a := make([]float64, n)
	q := make([]int, n)
	for i := range a {
		switch kind {
		case 0:
			q[i] = i / 2
		case 1:
			q[i] = 30 - i
		case 2:
			q[i] = (i*17+5)%23 - 11
		}
		a[i] = float64(q[i]) / 4
	}
	if vPick(0, 1) == 1 {
		a[at] = vFloat(-10, 10)
	} else {
		q[at] = vInt(-13, 13)
	}
	o := append([]float64(nil), a...)
	oq := append([]int(nil), q...)
	idx := Argsort(a)
	vAssert(len(idx) == n, "one index per value")
	seen := make([]bool, n)
	for k, v := range idx {
		vAssert(v >= 0 && v < n && !seen[v], "every index exactly once")
		seen[v] = true
		if k > 0 {
			vLe(o[idx[k-1]], o[v], "values ascend along the returned order")
		}
	}
	lo, hi := o[Argmin(a)], o[Argmax(a)]
	mx, mn := MaxInt(q), MinInt(q)
	s := 0
	isMx, isMn := false, false
	for i := range o {
		vLe(lo, o[i], "Argmin points at a minimal element")
		vLe(o[i], hi, "Argmax points at a maximal element")
		vEq(a[i], o[i], "input unchanged")
		vAssert(q[i] == oq[i], "input unchanged")
		vAssert(mn <= q[i] && q[i] <= mx, "MinInt and MaxInt are bounds")
		isMx, isMn = isMx || q[i] == mx, isMn || q[i] == mn
		s += q[i]
	}
	vEq(MinFloat(a), lo, "MinFloat is the minimum")
	vAssert(isMx && isMn, "MinInt and MaxInt are elements")
	vAssert(Sum(q) == s, "Sum")
	vAssert(ExistInt(q, q[at]) && !ExistInt(q, 77), "ExistInt")
	b := append([]int(nil), q...)
	vAssert(EqualInt(q, b), "equal slices")
	b[39]++
	vAssert(!EqualInt(q, b), "different slices")
	base := []int{100, 101, 5, -3}
	u := UnionInt(base, q)
	cnt := 4
	for i, v := range oq {
		dup := false
		for j := 0; j < i; j++ {
			dup = dup || oq[j] == v
		}
		for _, w := range base {
			dup = dup || w == v
		}
		if !dup {
			vAssert(cnt < len(u) && u[cnt] == v, "the union adds every new value once, in order")
			cnt++
		}
	}
	vAssert(len(u) == cnt && u[0] == 100 && u[3] == -3, "the union contains nothing else")
	vReach("wide")
}
