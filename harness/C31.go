package cmd

import (
	"encoding/json"
	"io/ioutil"
	"math"
	"os"
	"strings"
	"time"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

var vhC31g struct {
	items []*fs.Node
	ticks int
	c     chan time.Time
	name  string
}

func vhC31sa(X mat.Matrix, y []float64, nSweeps int, cost func(int, int, float64) float64) *fs.SARes {
	return &fs.SARes{Scores: fs.NewSAScore(10), Selected: []int{0}, Coeff: []float64{1}}
}

func vhC31select(X mat.Matrix, y []float64, highscore *fs.Highscore, sp *fs.SearchProgress, params *fs.SelectModelOptParams) {
	for i, n := range vhC31g.items {
		highscore.Insert(n)
		sp.Set(n.Score, i, 0)
	}
}

// vhC31tick fires the periodic save at arbitrary moments
func vhC31tick(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	n := vhC31g.ticks
	go func() {
		for i := 0; i < n; i++ {
			c <- time.Time{}
		}
	}()
	return c
}

func vhC31node(sel []int, score float64) *fs.Node {
	n := fs.NewNode(2, fs.Selected2Model(sel, 2))
	for j := range n.Coeff {
		n.Coeff[j] = vReal()
	}
	n.Score = score
	return n
}

// vhC31holds: the file holds exactly these models with their scores and coefficients
func vhC31holds(b []byte, want []*fs.Node) bool {
	var h fs.Highscore
	if json.Unmarshal(b, &h) != nil || h.Items == nil || h.Len() != len(want) {
		return false
	}
	found := 0
	for e := h.Items.Front(); e != nil; e = e.Next() {
		n := e.Value.(*fs.Node)
		for _, w := range want {
			if !fs.EqualInt(fs.SelectedFeatures(n.Model), fs.SelectedFeatures(w.Model)) || n.Score != w.Score || len(n.Coeff) != len(w.Coeff) {
				continue
			}
			same := true
			for j := range w.Coeff {
				same = same && n.Coeff[j] == w.Coeff[j]
			}
			if same {
				found++
			}
		}
	}
	return found == len(want)
}

// vhC31Save: a bnb run whose periodic save fires up to 2 (thorough 3) times at arbitrary moments of a search that finds 0..2 models, where every
// write succeeds or every save fails after 0, 1 or 20 bytes, with or without a list left by an earlier run; schedules with up to 3 delays (thorough 4).
//verif:harness real race delay=3 delayT=4 stub=SelectModelSA:vhC31sa stub=SelectModel:vhC31select stub=time.Tick:vhC31tick nodedupe budget=100 budgetT=600
func vhC31Save() { vhC31run([]int{-1, 0, 1, 20}[vPick(0, 3)], -1, 2+vTier()) }

// vhC31Death: the same where the process dies in any of the first 6 (thorough 9) operations that change files (creating or cutting a file happens,
// writing, renaming and removing do not); the periodic save fires up to 1 (thorough 2) times.
//verif:harness real delay=2 delayT=3 stub=SelectModelSA:vhC31sa stub=SelectModel:vhC31select stub=time.Tick:vhC31tick nodedupe budget=60 budgetT=600
func vhC31Death() { vhC31run(-1, vPick(0, 5+3*vTier()), 1+vTier()) }

// vhC31Unencodable: a search that finds up to one model and then one whose score cannot be written to a file, with any moments of saving.
//verif:harness real delay=2 delayT=3 stub=SelectModelSA:vhC31sa stub=SelectModel:vhC31select stub=time.Tick:vhC31tick nodedupe budget=60 budgetT=600
func vhC31Unencodable() {
	g := &vhC31g
	name, oldNode := vhC31prepare(1)
	bad := vhC31node([]int{0, 1}, []float64{math.Inf(-1), math.Inf(1), math.NaN()}[vPick(0, 2)])
	g.items = append(g.items[:len(g.items):len(g.items)], bad)
	g.ticks = vPick(0, 1+vTier())
	for _, c := range rootCmd.Commands() {
		if strings.Fields(c.Use)[0] == "bnb" {
			c.Flags().Set("csv", "vh_in.csv")
			c.Flags().Set("target", "-1")
			c.Flags().Set("out", name)
			c.Run(c, nil)
		}
	}
	vhC31check(name, oldNode, false, true)
}

func vhC31timer(d time.Duration) <-chan time.Time { return vhC31g.c }

// vhC31steps finds the models one by one and lets the timer fire after each; the second time it fires the first save is done
func vhC31steps(X mat.Matrix, y []float64, highscore *fs.Highscore, sp *fs.SearchProgress, params *fs.SelectModelOptParams) {
	g := &vhC31g
	for i, n := range g.items {
		highscore.Insert(n)
		sp.Set(n.Score, i, 0)
		g.c <- time.Time{}
		g.c <- time.Time{}
		b, err := ioutil.ReadFile(g.name)
		vAssert(err == nil && vhC31holds(b, g.items[:i+1]), "the list found so far is saved whenever the timer fires")
		vReach("saved")
	}
}

// vhC31Periodic: a search that finds 1..2 models; each is in the file once the timer has fired, with or without a list left by an earlier run;
// schedules with up to 2 delays (thorough 3).
//verif:harness real delay=2 delayT=3 stub=SelectModelSA:vhC31sa stub=SelectModel:vhC31steps stub=time.Tick:vhC31timer nodedupe budget=60 budgetT=600
func vhC31Periodic() {
	g := &vhC31g
	name, oldNode := vhC31prepare(2)
	vAssume(len(g.items) > 0)
	g.c, g.name = make(chan time.Time), name
	for _, c := range rootCmd.Commands() {
		if strings.Fields(c.Use)[0] == "bnb" {
			c.Flags().Set("csv", "vh_in.csv")
			c.Flags().Set("target", "-1")
			c.Flags().Set("out", name)
			c.Run(c, nil)
		}
	}
	vhC31check(name, oldNode, true, false)
}

func vhC31run(limit, death, ticks int) {
	g := &vhC31g
	name, oldNode := vhC31prepare(2)
	g.ticks = vPick(0, ticks)
	for _, c := range rootCmd.Commands() {
		if strings.Fields(c.Use)[0] == "bnb" {
			c.Flags().Set("csv", "vh_in.csv")
			c.Flags().Set("target", "-1")
			c.Flags().Set("out", name)
			if death >= 0 {
				vFileDeath(death)
				vPanics(func() { c.Run(c, nil) })
				vFileDeath(-1)
				continue
			}
			vFileLimit(limit)
			c.Run(c, nil)
			vFileLimit(-1)
		}
	}
	vhC31check(name, oldNode, limit < 0 && death < 0, limit >= 0 || death >= 0)
}

// vhC31prepare: the data file, the models that will be found and the file of an earlier run
func vhC31prepare(models int) (string, *fs.Node) {
	g := &vhC31g
	ioutil.WriteFile("vh_in.csv", []byte("a,b,y\n1,2,3\n2,1,0\n"), 0644)
	g.items = nil
	for i := vPick(0, models); i > 0; i-- {
		g.items = append(g.items, vhC31node([][]int{{0}, {0, 1}}[i-1], vReal()))
	}
	name := []string{"vh_c31_a.json", "vh_c31_b.json"}[vPick(0, 1)]
	old := fs.NewHighscore(10)
	oldNode := vhC31node([]int{1}, vReal())
	old.Insert(oldNode)
	before, err := json.Marshal(old)
	vAssert(err == nil, "a list can be encoded")
	os.Remove(name)
	if name == "vh_c31_b.json" {
		ioutil.WriteFile(name, before, 0644)
	}
	return name, oldNode
}

// vhC31check: the file holds a complete list, the final one if every save worked
func vhC31check(name string, oldNode *fs.Node, final, missing bool) {
	g := &vhC31g
	b, err := ioutil.ReadFile(name)
	if err != nil {
		vAssert(name == "vh_c31_a.json" && missing, "the result file is there")
		vReach("nothing saved")
		return
	}
	ok := name == "vh_c31_b.json" && vhC31holds(b, []*fs.Node{oldNode})
	for i := 0; i <= len(g.items); i++ {
		ok = ok || vhC31holds(b, g.items[:i])
	}
	vAssert(ok, "the result file holds a complete list, whatever write fails or interrupts it")
	if final {
		vAssert(vhC31holds(b, g.items), "the result file holds the final list")
		vReach("final list")
	} else {
		vReach("earlier list")
	}
}
