package featselect

// vhC06Insert: every sequence of up to 5 (thorough 6) insertions of items with arbitrary scores and selections drawn from
// 3 (thorough 4) candidate selections, into lists of capacity 1..3.
//verif:harness real budget=100 budgetT=800
func vhC06Insert() {
	c := vPick(1, 3)
	n := 5 + vTier()
	ids := 3 + vTier()
	s := NewSAScore(c)
	id := make([]int, n)
	score := make([]float64, n)
	coef := make([]float64, n)
	for i := 0; i < n; i++ {
		// selections up to renaming: the i-th item reuses an earlier selection or takes the next new one
		mx := 0
		for j := 0; j < i; j++ {
			if id[j] >= mx {
				mx = id[j] + 1
			}
		}
		if mx >= ids {
			mx = ids - 1
		}
		id[i] = vPick(0, mx)
		score[i] = vReal()
		coef[i] = vReal()
		sel := []int{id[i], id[i] + 1}
		if id[i] == 0 {
			sel = []int{0}
		}
		it := &SAItem{Selection: sel, Coeff: []float64{coef[i]}, Score: score[i]}
		best, had := 0.0, false
		if s.BestItem != nil {
			best, had = s.BestItem.Score, true
		}
		known := s.Exists(it)
		s.Insert(it)
		vAssert(len(s.Items) <= c, "the list never holds more than its capacity")
		vAssert(len(s.Items) > 0, "the list is not empty after an insertion")
		// every stored item is one inserted item
		used := make([]bool, ids)
		stored := make([]bool, n)
		for _, x := range s.Items {
			w := -1
			for j := 0; j <= i; j++ {
				if len(x.Selection) > 0 && x.Selection[0] == id[j] && x.Score == score[j] && len(x.Coeff) == 1 && x.Coeff[0] == coef[j] {
					w = j
				}
			}
			vAssert(w >= 0, "every stored item keeps selection, coefficients and score of one inserted item")
			vAssert(!used[id[w]], "stored selections are distinct")
			used[id[w]] = true
			stored[w] = true
		}
		vAssert(s.BestItem != nil && s.WorstItem != nil, "best and worst item are set")
		for _, x := range s.Items {
			vLe(x.Score, s.BestItem.Score, "the best item has the highest stored score")
			vLe(s.WorstItem.Score, x.Score, "the worst item has the lowest stored score")
		}
		if had {
			vLe(best, s.BestItem.Score, "the best score never decreases")
		}
		if !known {
			vLe(score[i], s.BestItem.Score, "the best item carries the highest score inserted so far")
			if !stored[i] && len(s.Items) == c {
				for _, x := range s.Items {
					vLe(score[i], x.Score, "no stored item has a lower score than a rejected distinct one")
				}
			} else {
				vAssert(stored[i], "a distinct item is stored when there is room")
			}
			vAssert(s.Exists(it) == used[id[i]], "Exists agrees with the contents")
		} else {
			vAssert(s.Exists(it), "a duplicate selection leaves the stored one in place")
		}
	}
	bestIn := false
	for j := 0; j < n; j++ {
		b := s.BestItem
		bestIn = bestIn || b.Score == score[j] && b.Selection[0] == id[j] && b.Coeff[0] == coef[j]
	}
	vAssert(bestIn, "the best item is one inserted item")
	vReach("insert")
	vObs("best", s.BestItem.Score, len(s.Items))
}

// vhC06Item: the item made from every model with up to 6 features lists exactly the selected features, ascending.
//verif:harness real
func vhC06Item() {
	n := vPick(0, 6)
	m := make([]bool, n)
	for i := range m {
		m[i] = vBool()
	}
	it := NewSAItem(m)
	k := 0
	for i, v := range m {
		if v {
			vAssert(k < len(it.Selection) && it.Selection[k] == i, "selection lists the selected features ascending")
			k++
		}
	}
	vAssert(len(it.Selection) == k, "selection lists nothing else")
	vAssert(len(it.Coeff) == k, "one coefficient per selected feature")
	vReach("item")
	vObs("sel", it.Selection)
}

// vhC06Wide: 45 insertions of distinct selections (fixed scores with repeats, one arbitrary score at one of four places) into lists of capacity 1, 5, 40 and 60.
//verif:harness real
func vhC06Wide() {
	c := []int{1, 5, 40, 60}[vPick(0, 3)]
	at := []int{0, 3, 41, 44}[vPick(0, 3)]
	n := 45
	s := NewSAScore(c)
	score := make([]float64, n)
	best := 0.0
	for i := range score {
		score[i] = float64((i*29+7)%41)/4 - 5
		if i == at {
			score[i] = vReal()
		}
		if i == 0 || score[i] > best {
			best = score[i]
		}
		s.Insert(&SAItem{Selection: []int{i, i + 1}, Coeff: []float64{float64(i), 2}, Score: score[i]})
		vEq(s.BestItem.Score, best, "the best item carries the highest score inserted so far")
	}
	stored := make([]bool, n)
	min := best
	for _, x := range s.Items {
		k := x.Selection[0]
		vAssert(len(x.Selection) == 2 && x.Selection[1] == k+1 && len(x.Coeff) == 2 && x.Coeff[0] == float64(k), "every stored item keeps selection and coefficients of one inserted item")
		vEq(x.Score, score[k], "every stored item keeps the score of its selection")
		vAssert(!stored[k], "stored selections are distinct")
		stored[k] = true
		if x.Score < min {
			min = x.Score
		}
	}
	vAssert(len(s.Items) == c || (c > n && len(s.Items) == n), "the list is full, or holds everything")
	for k := range score {
		if !stored[k] {
			vLe(score[k], min, "no stored item has a lower score than a rejected distinct one")
		}
	}
	vReach("wide")
}
