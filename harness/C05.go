package featselect

// vhC05Insert: every sequence of up to 6 (thorough 7) insertions with arbitrary scores into lists with capacity 1..4 (thorough 1..5).
//verif:harness real budget=100 budgetT=600
func vhC05Insert() {
	c := vPick(1, 4+vTier())
	n := vPick(0, 6+vTier())
	h := NewHighscore(c)
	nodes := make([]*Node, n)
	score := make([]float64, n)
	for i := 0; i < n; i++ {
		score[i] = vReal()
		nodes[i] = &Node{Score: score[i]}
	}
	for i := 0; i < n; i++ {
		h.Insert(nodes[i])
		vAssert(h.Len() <= c, "the list never holds more than its capacity")
		vAssert(h.Len() == h.Items.Len(), "length agrees with the contents")
		sc := h.Scores()
		vAssert(len(sc) == h.Len(), "as many scores as items")
		in := make([]bool, n)
		k := 0
		for e := h.Items.Front(); e != nil; e = e.Next() {
			it := e.Value.(*Node)
			w := -1
			for j := 0; j <= i; j++ {
				if nodes[j] == it {
					w = j
				}
			}
			vAssert(w >= 0, "only inserted models are in the list")
			vAssert(!in[w], "no inserted model is listed twice")
			in[w] = true
			vEq(it.Score, score[w], "the score of a listed model is unchanged")
			vEq(sc[k], score[w], "reported scores agree with the contents")
			if k > 0 {
				vLe(sc[k], sc[k-1], "scores do not increase along the list")
			}
			k++
		}
		vAssert(k > 0, "the list is not empty after an insertion")
		vEq(h.BestScore(), sc[0], "the best score is the score of the front item")
		for j := 0; j <= i; j++ {
			vLe(score[j], sc[0], "the best score inserted so far is at the front")
			if !in[j] {
				vAssert(h.Len() >= c-1, "a model is missing although there is room")
				if c >= 2 {
					vLe(score[j], sc[c-2], "a missing model is not better than the first capacity-1 listed ones")
				}
			}
		}
	}
	if n == 0 {
		vEq(h.BestScore(), 0.0, "best score of an empty list is zero")
		vAssert(h.Len() == 0 && len(h.Scores()) == 0, "new list is empty")
	}
	vReach("insert")
	vObs("scores", h.Scores())
}

// vhC05Wide: 70 insertions (fixed scores with repeats, one arbitrary score at one of five places) into lists of capacity 2, 16, 64 and 100.
//verif:harness real
func vhC05Wide() {
	c := []int{2, 16, 64, 100}[vPick(0, 3)]
	at := []int{0, 1, 30, 68, 69}[vPick(0, 4)]
	n := 70
	nodes := make([]*Node, n)
	score := make([]float64, n)
	h := NewHighscore(c)
	best := 0.0
	for i := range nodes {
		score[i] = float64((i*37+11)%53)/4 - 6
		if i == at {
			score[i] = vReal()
		}
		nodes[i] = &Node{Score: score[i]}
		h.Insert(nodes[i])
		if i == 0 || score[i] > best {
			best = score[i]
		}
		vAssert(h.Len() <= c, "the list never holds more than its capacity")
		vEq(h.BestScore(), best, "the best score inserted so far is at the front")
	}
	sc := h.Scores()
	vAssert(h.Len() == h.Items.Len() && len(sc) == h.Len(), "length and scores agree with the contents")
	in := make([]bool, n)
	k := 0
	for e := h.Items.Front(); e != nil; e = e.Next() {
		w := -1
		for j := range nodes {
			if nodes[j] == e.Value.(*Node) {
				w = j
			}
		}
		vAssert(w >= 0 && !in[w], "only inserted models, each once")
		in[w] = true
		vEq(sc[k], score[w], "reported scores agree with the contents")
		if k > 0 {
			vLe(sc[k], sc[k-1], "scores do not increase along the list")
		}
		k++
	}
	for j := range nodes {
		if !in[j] {
			vAssert(h.Len() >= c-1, "a model is missing although there is room")
			vLe(score[j], sc[c-2], "a missing model is not better than the first capacity-1 listed ones")
		}
	}
	vReach("wide")
}
