package featselect

//uses lib_fit.go

import (
	"gonum.org/v1/gonum/mat"
)

// vhC28Select: branch and bound on 3 features while another goroutine reads the progress and the highscore list (scores, best score, length,
// JSON text), default or small maximum queue size, one arbitrary direction of the response; schedules with up to 1 delay (thorough 2).
//verif:harness real race delay=1 delayT=2 budget=150 budgetT=600 redirect=github.com/davidkleiven/goselect/featselect.Fit:vhNormalFit
func vhC28Select() {
	X := vhDesign(0)
	n, _ := X.Dims()
	y := make([]float64, n)
	v := []float64{1, -2, 3, 0.5, 1}
	w := []float64{0.25, 1, 1, -1, 4}
	t := vFloat(-1, 1)
	for i := range y {
		y[i] = v[i] + t*w[i]
	}
	h := NewHighscore(3)
	var sp SearchProgress
	done := make(chan bool)
	what := vPick(0, 3)
	go func() {
		switch what {
		case 0:
			sp.Get()
			sp.Get()
		case 1:
			h.Scores()
			h.BestScore()
		case 2:
			h.MarshalJSON()
		case 3:
			h.Len()
			h.Scores()
		}
		done <- true
	}()
	params := NewSelectModelOptParams()
	if vPick(0, 1) == 1 {
		params.MaxQueueSize = 2
	}
	SelectModel(X, y, h, &sp, params)
	<-done
	vReach("searched")
}

// vhC28Path: the coordinate descent path over 3 penalties, pure lasso, elastic net or covariance lasso, empirical, identity or thresholded
// covariance; schedules with up to 3 delays (thorough 4).
//verif:harness real race delay=3 delayT=4 budget=100 budgetT=600 stub=L2ConsistentCovTO:vhC28FixedThreshold
func vhC28Path() {
	X := mat.NewDense(4, 3, []float64{0, 1, 1, 0, 1, -1, 0, -1, 1, 0, -1, -1})
	y := []float64{1, 0.5, -0.5, -1}
	var corr LassoCorrection
	switch vPick(0, 2) {
	case 0:
		corr = &PureLasso{}
	case 1:
		corr = &ElasticNet{Lamb: 0.25}
	case 2:
		corr = NewCLasso(3, 0.25)
	}
	var cov CovMat
	switch vPick(0, 2) {
	case 0:
		cov = &Empirical{}
	case 1:
		cov = &Identity{}
	case 2:
		cov = NewSparseThreshold(X)
	}
	LassoCrdDescPath(&NormalizedData{X: X, y: y}, cov, []float64{0.125, 0.25, 0.5}, 3, 1e-2, corr)
	vReach("path")
}

// vhC28PathMany: more penalties than workers (11), pure or covariance lasso.
//verif:harness real race delay=0 delayT=1 budget=100 budgetT=600
func vhC28PathMany() {
	X := mat.NewDense(4, 3, []float64{0, 1, 1, 0, 1, -1, 0, -1, 1, 0, -1, -1})
	y := []float64{1, 0.5, -0.5, -1}
	var corr LassoCorrection = &PureLasso{}
	if vPick(0, 1) == 1 {
		corr = NewCLasso(3, 0.25)
	}
	lambs := make([]float64, 11)
	for i := range lambs {
		lambs[i] = 0.125 * float64(i+1)
	}
	LassoCrdDescPath(&NormalizedData{X: X, y: y}, &Empirical{}, lambs, 3, 1e-2, corr)
	vReach("path")
}

// vhC28Kappa: a kappa search over 2 pure lasso targets that share dataset, covariance estimator and correction.
//verif:harness real race delay=1 delayT=2 budget=100 budgetT=600
func vhC28Kappa() {
	X := mat.NewDense(4, 2, []float64{0, 1, 0, 2, 0, 3, 0, 5})
	n := &NormalizedData{X: X, y: []float64{1, 0.5, -0.5, -1}}
	ts := make([]CohensKappaTarget, 2)
	var cov Empirical
	var corr PureLasso
	for i := range ts {
		p := NewPureLassoCohen()
		p.Dset, p.Lamb, p.Cov, p.MaxIter, p.Tol, p.Correction = n, 0.25*float64(i+1), &cov, 2, 1e-2, &corr
		p.lasso = vhC28Solver
		ts[i] = p
	}
	CalculateCohenSequence(1, ts)
	vReach("kappa")
}

// vhC28Solver reads everything a solver may read and writes only its own memory
func vhC28Solver(dset *NormalizedData, l float64, cov CovMat, x0 []float64, maxIter int, tol float64, c LassoCorrection) []float64 {
	C := cov.Get(dset.X)
	_, p := dset.X.Dims()
	b := make([]float64, p)
	b[1] = C.At(1, 1) + dset.y[0] + c.Deriv(x0, 1) + x0[1]
	return b
}

// vhC28Threshold: a threshold search with 3 grid points and 2 samples.
//verif:harness real race delay=1 delayT=2 budget=100 budgetT=600 stub=RandomRowSplit:vhC28Split
func vhC28Threshold() {
	L2ConsistentCovTO(mat.NewDense(4, 1, []float64{1, 2, 3, 5}), 2, 1, 3)
	vReach("threshold")
}

func vhC28Split(X mat.Matrix, num int) (*mat.Dense, *mat.Dense) {
	return mat.NewDense(2, 1, []float64{X.At(0, 0), X.At(1, 0)}), mat.NewDense(2, 1, []float64{X.At(2, 0), X.At(3, 0)})
}

// vhC28Progress: two writers and a reader of the progress: a snapshot consists of three values set together.
//verif:harness real race delay=3 delayT=5 budget=60 budgetT=300
func vhC28Progress() {
	var sp SearchProgress
	done := make(chan bool)
	for k := 1; k <= 2; k++ {
		k := k
		go func() {
			sp.Set(float64(k), k, float64(k))
			done <- true
		}()
	}
	var a float64
	var b int
	var c float64
	for k := 0; k < 2; k++ {
		a, b, c = sp.Get()
		vAssert(a == float64(b) && c == float64(b) && b >= 0 && b <= 2, "a snapshot consists of three values set together")
	}
	<-done
	<-done
	a, b, c = sp.Get()
	vAssert(a == float64(b) && c == float64(b) && b >= 1, "the last state set is kept")
	vReach("progress")
}

// vhC28Fits: branch and bound with the real fits on an orthogonal design (the workers fit at the same time), schedules with up to 1 delay (thorough 2).
//verif:harness real race delay=1 delayT=2 budget=100 budgetT=600
func vhC28Fits() {
	H := vhDesign(5)
	X := mat.DenseCopyOf(H.Slice(0, 4, 0, 3))
	y := make([]float64, 4)
	t := vFloat(0.5, 2)
	for i := range y {
		y[i] = t*H.At(i, 0) + 0.5*H.At(i, 1) - 0.25*H.At(i, 2) + 0.125*H.At(i, 3)
	}
	h := NewHighscore(4)
	var sp SearchProgress
	SelectModel(X, y, h, &sp, nil)
	vReach("fits")
}

func vhC28FixedThreshold(X mat.Matrix, numSamples int, V float64, step float64) *ThresholdOperator {
	return &ThresholdOperator{threshold: 0.125}
}
