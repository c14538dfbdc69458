package featselect

// vhC18Kappa: all pairs of selections (as lists of distinct features in any order) out of p features, p in 1..4 (thorough 1..5).
//verif:harness real budgetT=800
func vhC18Kappa() {
	p := vPick(1, 4+vTier())
	a := vPick(0, p)
	b := vPick(0, p)
	s := make([]int, a)
	t := make([]int, b)
	in1 := make([]bool, p)
	in2 := make([]bool, p)
	for i := range s {
		s[i] = vInt(0, p-1)
		for j := 0; j < i; j++ {
			vAssume(s[i] != s[j])
		}
	}
	for i := range t {
		t[i] = vInt(0, p-1)
		for j := 0; j < i; j++ {
			vAssume(t[i] != t[j])
		}
	}
	k := CohenKappa(s, t, p)
	k2 := CohenKappa(t, s, p)
	vEq(k, k2, "kappa is symmetric")
	// definition from the indicator vectors
	both, na, nb, agree := 0, 0, 0, 0
	same := true
	for f := 0; f < p; f++ {
		for _, v := range s {
			in1[f] = in1[f] || v == f
		}
		for _, v := range t {
			in2[f] = in2[f] || v == f
		}
		if in1[f] {
			na++
		}
		if in2[f] {
			nb++
		}
		if in1[f] && in2[f] {
			both++
		}
		if in1[f] == in2[f] {
			agree++
		} else {
			same = false
		}
	}
	po := float64(agree) / float64(p)
	pe := float64(na*nb+(p-na)*(p-nb)) / float64(p*p)
	if same {
		vEq(k, 1.0, "kappa is one for equal selections")
	} else {
		vEq(k, (po-pe)/(1.0-pe), "kappa equals its definition")
	}
	vLe(k, 1.0, "kappa never exceeds one")
	vReach("kappa")
	vObs("k", k)
}

// vhC18Wide: selections out of 30, 64 and 200 features: every 2nd, 3rd or 7th feature, all, none, the last one, in ascending or
// descending order, one of them with one of five features in addition.
//verif:harness real
func vhC18Wide() {
	p := []int{30, 64, 200}[vPick(0, 2)]
	in := make([][]bool, 2)
	sel := make([][]int, 2)
	extra := []int{0, 1, p / 2, p - 2, p - 1}[vPick(0, 4)]
	for k := range sel {
		in[k] = make([]bool, p)
		kind := vPick(0, 5)
		for j := 0; j < p; j++ {
			f := p - 1 - j
			switch kind {
			case 0:
				in[k][f] = f%2 == 0
			case 1:
				in[k][f] = f%3 == 1
			case 2:
				in[k][f] = f%7 == 3
			case 3:
				in[k][f] = true
			case 5:
				in[k][f] = f == p-1
			}
			if in[k][f] {
				sel[k] = append(sel[k], f)
			}
		}
		if k == 0 {
			if !in[k][extra] {
				sel[k] = append(sel[k], extra)
				in[k][extra] = true
			}
		} else {
			for a, b := 0, len(sel[k])-1; a < b; a, b = a+1, b-1 {
				sel[k][a], sel[k][b] = sel[k][b], sel[k][a]
			}
		}
	}
	na, nb, agree := len(sel[0]), len(sel[1]), 0
	for j := 0; j < p; j++ {
		if in[0][j] == in[1][j] {
			agree++
		}
	}
	k := CohenKappa(sel[0], sel[1], p)
	vEq(k, CohenKappa(sel[1], sel[0], p), "kappa is symmetric")
	if agree == p {
		vEq(k, 1.0, "kappa is one for equal selections")
	} else {
		po := float64(agree) / float64(p)
		pe := float64(na*nb+(p-na)*(p-nb)) / float64(p*p)
		vEq(k, (po-pe)/(1.0-pe), "kappa equals its definition")
	}
	vReach("wide")
}
