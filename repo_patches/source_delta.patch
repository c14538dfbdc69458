From 43e4386026058faca895faea0c98a53fdaebc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 01/28] fix: start MaxInt and MinInt from the limits of int

With 32-bit start values MaxInt returned -2^31 for slices of smaller values,
and MinInt 2^31-1 for slices of larger values.
---
 featselect/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..8a38293 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -189,7 +189,7 @@ func ExistInt(a []int, value int) bool {
 
 // MaxInt returns the maximum value in an array
 func MaxInt(a []int) int {
-	max := math.MinInt32
+	max := math.MinInt
 
 	for _, v := range a {
 		if v > max {
@@ -201,7 +201,7 @@ func MaxInt(a []int) int {
 
 // MinInt returns the minumum value in an int array
 func MinInt(a []int) int {
-	min := math.MaxInt32
+	min := math.MaxInt
 
 	for _, v := range a {
 		if v < min {
-- 
2.43.0


From 7d5c9d169d083ca11f4cc01d08c02d38cb414961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 02/28] fix: highscore list with room for a single item

Insert dereferenced the last element of an empty list when MaxItems is 1.
---
 featselect/highscore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..209630d 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -23,7 +23,7 @@ func NewHighscore(maxItems int) *Highscore {
 func (h *Highscore) Insert(node *Node) {
 	if h.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
-		if last.Value.(*Node).Score > node.Score {
+		if last != nil && last.Value.(*Node).Score > node.Score {
 			return
 		}
 	}
-- 
2.43.0


From 7b6a6cb8c5c3d6a74975aaab48a4c7268713ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 03/28] fix: keep the coefficients of an item that replaces the
 worst one

SAScore.Insert copied selection and score into the worst item but kept its
old coefficients, so the stored item mixed two models.
---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From c98596d9e3905c23cef52021d4aa8a960f9eb189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 04/28] fix: rows of IterProduct no longer share memory

append reused the spare capacity of the shorter tuple, so from four
repetitions on later tuples overwrote earlier ones and the polynomial matrix
of four or more columns had missing and repeated monomials.
---
 featselect/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index 8a38293..da6f248 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,8 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				newRow := make([]int, 0, r+1)
+				newRow = append(append(newRow, res[j]...), values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From 7b933080577db9829fc1c4bfeaefa2e659b73ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 05/28] fix: kappa of two selections that both contain all
 features

The expected agreement is one in that case, and the result was 0/0 = NaN.
---
 featselect/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index da6f248..ad0b68f 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -434,7 +434,8 @@ func UnionInt(s1 []int, s2 []int) []int {
 
 // CohenKappa returns cohen's kappa value for two sets s1 and s2
 func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
-	if len(s1) == 0 && len(s2) == 0 {
+	if len(s1) == len(s2) && (len(s1) == 0 || len(s1) == totNum) {
+		// Both sets are empty or contain everything. The expected agreement is one
 		return 1.0
 	}
 
-- 
2.43.0


From 58005233cbed22c1346a812f0f797d6a5f7f4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 06/28] fix: WeightsFromAIC leaves the passed criterion values
 alone

---
 featselect/util.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index ad0b68f..d46ad96 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -277,17 +277,13 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		sumW += math.Exp(min - aic[i])
 	}
 
 	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+		w[i] = math.Exp(min-aic[i]) / sumW
 	}
 	return w
 }
-- 
2.43.0


From 1444273f897038b444313f76cff9cc1c96228c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 07/28] fix: accept blanks around numbers in CSV files

The documented format pads the columns with blanks. Such numbers could not be
parsed and silently became zero.
---
 featselect/csvIO.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..83f354f 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -135,7 +136,7 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
+				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
 					row[i] = fl
 				}
 			}
-- 
2.43.0


From be920cb713645cd8ad23c160f37aa6cb86d3e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 08/28] fix: datasets with different names are not equal

IsEqual only compared the number of names.
---
 featselect/csvIO.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 83f354f..748dc76 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -80,6 +80,12 @@ func (d *Dataset) IsEqual(o *Dataset) bool {
 		return false
 	}
 
+	for i := range d.Names {
+		if d.Names[i] != o.Names[i] {
+			return false
+		}
+	}
+
 	tol := 1e-10
 	if !floats.EqualApprox(d.Y, o.Y, tol) {
 		return false
-- 
2.43.0


From df8b5bdae7d55bfba5a78b3d5326ee50393547d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 09/28] fix: decoding a highscore list restores all of its
 items

Items were inserted one by one, so the last item of a full list was dropped,
items already present stayed, and decoding into an empty Highscore panicked.
---
 featselect/highscore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 209630d..253ecf3 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -102,9 +102,10 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	h.MaxItems = aux.MaxItems
+	h.Items = list.New()
 
 	for _, n := range aux.Items {
-		h.Insert(n)
+		h.Items.PushBack(n)
 	}
 	return nil
 }
-- 
2.43.0


From e2485639dd6b8e1f9c50f6ff2284f8f9cf6bbb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 10/28] fix: Gcv equals the leave-one-out error

---
 featselect/fit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/fit.go b/featselect/fit.go
index a32a915..721bfed 100644
--- a/featselect/fit.go
+++ b/featselect/fit.go
@@ -102,7 +102,7 @@ func DenumMatrixGcv(X mat.Matrix) *mat.Dense {
 func Gcv(denum mat.Matrix, data []float64, pred []float64) float64 {
 	gcv := 0.0
 	for i := 0; i < len(data); i++ {
-		gcv += math.Pow(data[i]-pred[i], 2.0) / (1.0 - denum.At(i, i))
+		gcv += math.Pow((data[i]-pred[i])/(1.0-denum.At(i, i)), 2.0)
 	}
 	return math.Sqrt(gcv / float64(len(pred)))
 }
-- 
2.43.0


From 824d3564235a61c9aec3c16ddd64bee05648167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 11/28] fix: scores and bounds of exact fits stay finite in
 branch and bound

---
 featselect/criteria.go | 4 ++--
 featselect/optimize.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/featselect/criteria.go b/featselect/criteria.go
index 50015ff..437ae32 100644
--- a/featselect/criteria.go
+++ b/featselect/criteria.go
@@ -49,7 +49,7 @@ func bounds(model []bool, start int, X mat.Matrix, y []float64, criteria crit) (
 	if kLcs > 0 {
 		XLcs := GetDesignMatrix(lcsMod, X)
 		coeffLcs := Fit(XLcs, y)
-		rssLcs = Rss(XLcs, coeffLcs, y)
+		rssLcs = math.Max(Rss(XLcs, coeffLcs, y), RssTol)
 	}
 
 	rssGcs := RssTol
@@ -57,7 +57,7 @@ func bounds(model []bool, start int, X mat.Matrix, y []float64, criteria crit) (
 	if kGcs < nr {
 		XGcs := GetDesignMatrix(gcsMod, X)
 		coeffGcs := Fit(XGcs, y)
-		rssGcs = Rss(XGcs, coeffGcs, y)
+		rssGcs = math.Max(Rss(XGcs, coeffGcs, y), RssTol)
 	}
 
 	lower := criteria(kLcs, len(y), rssGcs)
diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..c284c68 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -224,7 +224,7 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
 			rss := Rss(design, n.Coeff, y)
-			n.Score = -Aicc(numFeat, nrows, rss)
+			n.Score = -Aicc(numFeat, nrows, math.Max(rss, RssTol))
 		} else {
 			n.Score = -math.MaxFloat64
 		}
-- 
2.43.0


From ed2eb7c199005b1cc0c56023449b1c0b1492134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:48 +0000
Subject: [PATCH 12/28] fix: branch and bound considers its starting model

---
 featselect/optimize.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index c284c68..619a922 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -111,6 +111,17 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
 	}
 
+	// A non-empty root model is a candidate itself
+	nrows, _ := X.Dims()
+	if n := NumFeatures(rootNode.Model); n > 0 && n < nrows {
+		design := GetDesignMatrix(rootNode.Model, X)
+		rootNode.Coeff = Fit(design, y)
+		rss := Rss(design, rootNode.Coeff, y)
+		rootNode.Score = -Aicc(n, nrows, math.Max(rss, RssTol))
+		highscore.Insert(rootNode)
+		currentBestScore = highscore.BestScore()
+	}
+
 	wantChildNode <- rootNode
 	numInProgress := 2
 
-- 
2.43.0


From e48c889403f7ca2b500f11a7b2c27c481ac5db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:21 +0000
Subject: [PATCH 13/28] fix: keep subtrees whose sub-models have fewer features
 than data points

---
 featselect/optimize.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 619a922..e7affba 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -231,7 +231,7 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 	for n := range nodeCh {
 		numFeat := NumFeatures(n.Model)
 
-		if numFeat > 0 && isNewNode(n) {
+		if numFeat > 0 && numFeat < nrows && isNewNode(n) {
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
 			rss := Rss(design, n.Coeff, y)
@@ -249,7 +249,8 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 	child := node.GetChildNode(flip)
 	n := NumFeatures(child.Model)
 	nrows, _ := X.Dims()
-	if n < nrows {
+	// Sub-models have at least as many features as the least common model
+	if NumFeatures(Lcs(child.Model, child.Level)) < nrows {
 		if n > 0 {
 			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
 		} else {
-- 
2.43.0


From 8285e0c2ea08f21323aab02c704e82b1b84ca3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 14/28] fix: guard the highscore list against concurrent access

---
 featselect/highscore.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 253ecf3..c1a37e5 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,14 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
 // Highscore is a structure that holds a list of Nodes sorted by their score
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,7 +23,10 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+
+	if h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last != nil && last.Value.(*Node).Score > node.Score {
 			return
@@ -43,18 +48,22 @@ func (h *Highscore) Insert(node *Node) {
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted && h.Items.Len() < h.MaxItems {
 		h.Items.PushBack(node)
 	}
 }
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -65,7 +74,9 @@ func (h *Highscore) BestScore() float64 {
 
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	scores := make([]float64, h.Items.Len())
 	i := 0
 	for item := h.Items.Front(); item != nil; item = item.Next() {
 		scores[i] = item.Value.(*Node).Score
@@ -76,7 +87,9 @@ func (h *Highscore) Scores() []float64 {
 
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	data := make([]*Node, h.Items.Len())
 	counter := 0
 	for e := h.Items.Front(); e != nil; e = e.Next() {
 		data[counter] = e.Value.(*Node)
@@ -101,6 +114,8 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
 	h.MaxItems = aux.MaxItems
 	h.Items = list.New()
 
-- 
2.43.0


From 76254ce8da8afc5d6e85a8f8b3e579ed3bc9d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:45 +0000
Subject: [PATCH 15/28] fix: coordinate descent uses the starting point and
 returns KKT points

---
 featselect/lassoCrdDesc.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..e2f9eb2 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -9,6 +9,9 @@ import (
 
 const lassoCrdDescZero = 1e-16
 
+// lassoCrdDescKKTTol is the amount the KKT condition of an inactive feature may be violated
+const lassoCrdDescKKTTol = 1e-10
+
 // CorrectableLasso is a function that implements the lasso method with corrections
 type CorrectableLasso = func(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64, maxIter int, tol float64, corr LassoCorrection) []float64
 
@@ -25,6 +28,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	yVec := mat.NewVecDense(len(dset.y), dset.y)
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
+	XTy.ScaleVec(1.0/float64(nr), XTy)
 
 	iterIndices := make([]int, nFeat-1)
 	for i := 1; i < nFeat; i++ {
@@ -32,8 +36,11 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	copy(betaOld, x0)
+	betaOld[0] = 0.0
 	beta := make([]float64, nFeat)
+	copy(beta, betaOld)
+	corr.Update(betaOld)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
 	for iter := 0; iter < maxIter; iter++ {
@@ -41,7 +48,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			covDiag := covMat.At(j, j)
 			oldCoeff := betaOld[j]
 			covDotBetaNoDiag := covDotBeta[j] - betaOld[j]*covDiag
-			newCoeff := XTy.AtVec(j)/float64(nr) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
+			newCoeff := XTy.AtVec(j) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
 			newCoeff = SoftThreshold(newCoeff, lamb) / covDiag
 
 			UpdateCovDotBeta(covMat, covDotBeta, j, oldCoeff, newCoeff)
@@ -62,7 +69,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
@@ -79,9 +86,9 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			unsatisfied := UnsatisfiedKKTConditions(XTy, covDotBeta, beta, lamb, corr)
 			if len(unsatisfied) == 0 {
 				break
-			} else {
-				iterIndices = UnionInt(iterIndices, unsatisfied)
 			}
+			converged = false
+			iterIndices = UnionInt(iterIndices, unsatisfied)
 		}
 	}
 
@@ -101,13 +108,13 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
+// UnsatisfiedKKTConditions returns the indices of the features with zero coefficient where the
+// KKT conditions are not met. Xy is the product X^Ty divided by the number of data points.
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
 	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value > lamb+lassoCrdDescKKTTol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From ce0eccbb0e7d058ab5e32cd614f197b1f13dfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:27 +0000
Subject: [PATCH 16/28] fix: solutions along a coordinate descent path use
 their own correction

---
 featselect/lassoCrdDesc.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index e2f9eb2..f6cfb88 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -183,6 +183,14 @@ func PerformLassoCrd(workload <-chan LassoCrdWorkload, res chan<- LassoRes) {
 	}
 }
 
+// unsharedCorrection returns a correction that can be used without altering the passed one
+func unsharedCorrection(corr LassoCorrection) LassoCorrection {
+	if cl, ok := corr.(*CLasso); ok {
+		return NewCLasso(len(cl.beta), cl.eta)
+	}
+	return corr
+}
+
 // LassoCrdDescPath calculates a set of lasso solutions along equi-logspaced set of lambda values
 func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter int, tol float64, correction LassoCorrection) []*LassoLarsNode {
 	_, nFeat := dset.X.Dims()
@@ -214,7 +222,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 		wrk.cov = cov
 		wrk.maxIter = maxIter
 		wrk.tol = tol
-		wrk.corr = correction
+		wrk.corr = unsharedCorrection(correction)
 		workChan <- wrk
 	}
 
@@ -247,7 +255,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 			wrk.cov = cov
 			wrk.maxIter = maxIter
 			wrk.tol = tol
-			wrk.corr = correction
+			wrk.corr = unsharedCorrection(correction)
 			workChan <- wrk
 		}
 	}
-- 
2.43.0


From 0abcd16f5f97af66fc87673a79cc4b7a5a8a460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:02 +0000
Subject: [PATCH 17/28] fix: zero columns do not stop orthogonal matching
 pursuit

---
 featselect/orthogonalMatchingPursuit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/orthogonalMatchingPursuit.go b/featselect/orthogonalMatchingPursuit.go
index 908bb95..e45da23 100644
--- a/featselect/orthogonalMatchingPursuit.go
+++ b/featselect/orthogonalMatchingPursuit.go
@@ -51,6 +51,10 @@ func Omp(X mat.Matrix, y []float64, tol float64) *OmpResult {
 		resNorm := mat.Norm(residuals, 2)
 		proj.MulVec(X.T(), residuals)
 		for i := 0; i < proj.Len(); i++ {
+			if norms.AtVec(i) == 0.0 {
+				// A zero column is not correlated with anything
+				continue
+			}
 			proj.SetVec(i, math.Abs(proj.AtVec(i)/(resNorm*norms.AtVec(i))))
 		}
 
-- 
2.43.0


From 381502fb29f3ab809269c16f58b443b9f5f470be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 18/28] fix: nested lasso leaves the passed dataset unchanged

---
 featselect/nestedLasso.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..09ef6f2 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -25,8 +25,6 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	var res NestedLassoLars
 
 	iter := 0
-	yCpy := make([]float64, len(data.Y))
-	copy(yCpy, data.Y)
 
 	res.Dset = data
 	curDset := data.Copy()
@@ -66,7 +64,8 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	orig := data.Copy()
+	normD = NewNormalizedData(orig.X, orig.Y)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From db556926ace70efbe3a67dc81f384faeac2aa7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:37 +0000
Subject: [PATCH 19/28] fix: nested lasso stops when no feature enters the path

---
 featselect/nestedLasso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 09ef6f2..e39d615 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -54,7 +54,7 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
 		}
 
-		if newNum <= 2 {
+		if newNum <= 2 || len(survivors) == 0 {
 			break
 		}
 
-- 
2.43.0


From 58234ddd747a5ff95eaaca8fcd085c300ef2b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 20/28] fix: nested lasso maps features correctly when the
 target is not the last column

---
 featselect/nestedLasso.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index e39d615..21c4781 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -50,8 +50,12 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		survivors := path.PickMostRelevantFeatures(newNum)
 
 		// Map selection
+		featNames := make([]string, currentNumCoeff)
+		for i := range featNames {
+			featNames[i] = curDset.GetFeatName(i)
+		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
 		if newNum <= 2 || len(survivors) == 0 {
-- 
2.43.0


From 9506225305651c55c72f0893b0815b9be4327318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:39 +0000
Subject: [PATCH 21/28] fix: path criteria of nodes with empty or unordered
 selections

---
 featselect/lassoPlot.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..4165ea5 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -120,19 +120,28 @@ func (p *LassoLarsPath) PlotEntranceTimes() *plot.Plot {
 
 // GetCriteria returns the value of the passed criteria along the path
 func (p *LassoLarsPath) GetCriteria(criteria crit) []float64 {
-	nData, nFeat := p.Dset.X.Dims()
+	nData, _ := p.Dset.X.Dims()
 	values := make([]float64, len(p.LassoLarsNodes))
 
 	for i, n := range p.LassoLarsNodes {
-		model := Selected2Model(n.Selection, nFeat)
-		design := GetDesignMatrix(model, p.Dset.X)
-		rss := Rss(design, n.Coeff, p.Dset.Y)
-		num := NumFeatures(model)
-		values[i] = criteria(num, nData, rss)
+		values[i] = criteria(len(n.Selection), nData, p.nodeRss(n))
 	}
 	return values
 }
 
+// nodeRss returns the residual sum of squares of one node
+func (p *LassoLarsPath) nodeRss(n *LassoLarsNode) float64 {
+	rss := 0.0
+	for i, y := range p.Dset.Y {
+		pred := 0.0
+		for j, feat := range n.Selection {
+			pred += n.Coeff[j] * p.Dset.X.At(i, feat)
+		}
+		rss += math.Pow(pred-y, 2)
+	}
+	return rss
+}
+
 // PlotQualityScores plot the AICC value of the path
 func (p *LassoLarsPath) PlotQualityScores() *plot.Plot {
 	plt, err := plot.New()
@@ -166,13 +175,10 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 		panic(err)
 	}
 
-	nData, nFeat := p.Dset.X.Dims()
+	nData, _ := p.Dset.X.Dims()
 	rmseVals := make(plotter.XYs, len(p.LassoLarsNodes))
 	for i, n := range p.LassoLarsNodes {
-		model := Selected2Model(n.Selection, nFeat)
-		design := GetDesignMatrix(model, p.Dset.X)
-		rss := Rss(design, n.Coeff, p.Dset.Y)
-		rmse := math.Sqrt(rss / float64(nData))
+		rmse := math.Sqrt(p.nodeRss(n) / float64(nData))
 		rmseVals[i] = plotter.XY{X: math.Log10(n.Lamb), Y: math.Log10(rmse)}
 	}
 
-- 
2.43.0


From 48fe4b2a9abd099a84f63faf2237372cb33674da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 22/28] fix: thresholded covariances can be computed
 concurrently

---
 featselect/covarianceMatrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/covarianceMatrix.go b/featselect/covarianceMatrix.go
index fbddf68..43d12d9 100644
--- a/featselect/covarianceMatrix.go
+++ b/featselect/covarianceMatrix.go
@@ -64,6 +64,7 @@ func (s *SparseThresholded) Get(X mat.Matrix) mat.Matrix {
 	cov := mat.NewDense(nc, nc, nil)
 	cov.Product(X.T(), X)
 	cov.Scale(1.0/float64(nr), cov)
-	s.op.Apply(cov)
+	op := *s.op // Apply updates the operator, and Get may be called concurrently
+	op.Apply(cov)
 	return cov
 }
-- 
2.43.0


From 436e37e842b0d1ed1e5aee5a73b8820035436f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 23/28] fix: keep the last saved highscore list when a save
 fails

---
 cmd/bnb.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..951621d 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -63,12 +63,31 @@ func init() {
 	bnbCmd.Flags().Int("maxqueue", 10000000, "Maximum size of the queue. If this limit is reached, subtrees will be removed. If you run out of memory, this number should be lowered.")
 }
 
+// saveHighscoreList replaces the content of the file with the highscore list. The list is first
+// written to a temporary file such that the previous content survives a failed or interrupted save
 func saveHighscoreList(fname string, h *featselect.Highscore) {
-	file, _ := os.Open(fname)
-	defer file.Close()
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		log.Print(err)
+		return
+	}
+
+	tmpname := fname + ".tmp"
+	if info, err := os.Lstat(fname); err == nil && !info.Mode().IsRegular() {
+		// Links and devices are not replaced
+		tmpname = fname
+	}
+
+	if err := ioutil.WriteFile(tmpname, highscoreJSON, 0644); err != nil {
+		log.Print(err)
+		return
+	}
 
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+	if tmpname != fname {
+		if err := os.Rename(tmpname, fname); err != nil {
+			log.Print(err)
+		}
+	}
 }
 
 func setSearchFinished(finished chan int) {
-- 
2.43.0


From 07b083cccbb574d41ddcbcbabf6eeaccb0f9f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:50 +0000
Subject: [PATCH 24/28] fix: plot the coefficients of the last selected feature

---
 featselect/lassoPlot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 4165ea5..1ba0a43 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -230,7 +230,7 @@ func (p *LassoLarsPath) PlotPath(cr *AxisRange) *plot.Plot {
 
 	_, numFeat := p.MaxMinFeatNo()
 
-	for featNo := 0; featNo < numFeat; featNo++ {
+	for featNo := 0; featNo <= numFeat; featNo++ {
 		xy := p.ExtractPath(featNo)
 		line, err := plotter.NewLine(xy)
 
-- 
2.43.0


From ac29d3cf8141fdeabb8070ffcc11acdf218824ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:50 +0000
Subject: [PATCH 25/28] fix: use the coefficient limits given to
 goselect-plotlasso

---
 cmdDepreciated/goselect-plotlasso/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..c95acee 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -40,6 +40,7 @@ func main() {
 	lassoPathType := flag.String("ext", "png", "File extension. Support all from gonum plot")
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
+	flag.Parse()
 
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
@@ -53,6 +54,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From 5869b3c030fb384c5d1e26a06034af4fdd768ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:19 +0000
Subject: [PATCH 26/28] fix: use the cutoff when branches are pruned

---
 featselect/optimize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index e7affba..341cf89 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -138,7 +138,7 @@ exploreLoop:
 
 				if highscore.BestScore() > currentBestScore {
 					currentBestScore = highscore.BestScore()
-					CleanQueue(queue, -currentBestScore)
+					CleanQueue(queue, -currentBestScore-params.Cutoff)
 				}
 			}
 
@@ -261,7 +261,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	if child.Lower+cutoff > -h.BestScore() && h.Len() > 0 {
 		return nil
 	}
 	return child
-- 
2.43.0


From e6a38d8577d834f20f0c23e2cc7024371612d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:24 +0000
Subject: [PATCH 27/28] fix: count the models of a subtree that is left out
 once

The subtree below a child at level k holds 2^(ncols-k) models, but twice as
many were reported as pruned because the level of the parent was used.
---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 341cf89..4089728 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -275,7 +275,7 @@ func CreateChildNodes(parentCh <-chan *Node, pruneCh chan<- int, nodeCh chan<- *
 			for _, flip := range []bool{false, true} {
 				n := CreateChild(parent, flip, X, y, cutoff, h)
 				if n == nil {
-					pruneCh <- parent.Level
+					pruneCh <- parent.Level + 1
 				} else {
 					nodeCh <- n
 				}
-- 
2.43.0


From e7340e2b836323b8ba6276a545a5aaf1de965a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:31 +0000
Subject: [PATCH 28/28] fix: keep the most promising nodes when rounding puts
 the mean bound below all bounds

---
 featselect/optimize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 4089728..8dea561 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -302,9 +302,14 @@ func CleanQueue(q *list.List, threshold float64) {
 // mean Lower bound
 func RemoveLeastPromising(q *list.List) {
 	avgLowerBound := 0.0
+	minLowerBound := math.Inf(1)
 	for item := q.Front(); item != nil; item = item.Next() {
-		avgLowerBound += item.Value.(*Node).Lower
+		lower := item.Value.(*Node).Lower
+		avgLowerBound += lower
+		minLowerBound = math.Min(minLowerBound, lower)
 	}
 	avgLowerBound /= float64(q.Len())
-	CleanQueue(q, avgLowerBound)
+
+	// Rounding must not bring the mean below all bounds
+	CleanQueue(q, math.Max(avgLowerBound, minLowerBound))
 }
-- 
2.43.0

