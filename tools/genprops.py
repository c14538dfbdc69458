#!/usr/bin/env python3
# Generates properties.jsonl from the table below (kept in one place so titles, statements and anchors stay in step).
import json
P=[]
F='featselect/'
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[F+f if '/' not in f else f for f in files],
            state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=observe or [],hook_needed=None)))

p('C01','Branch and bound returns the AICc-optimal model',
 'For every dataset with at least three features, every starting model, highscore capacity and order in which the workers deliver results, the branch-and-bound search with default queue size terminates and the best entry of the highscore list is a model with the smallest AICc (residual sums below the tolerance 1e-12 count as the tolerance) among all non-empty models with fewer features than data points, the starting model included. Every listed model of that kind carries its own negated AICc and least-squares coefficients, and no model is listed twice. With a small maximum queue size the search still terminates with consistent entries, but may miss the optimum.',
 ['inputs','schedules','configurations'],'all data (X,y), all root models, all worker schedules, default queue size',
 'One test compares with brute force on one random dataset, always from the empty root and under whatever schedule happens.',
 ['optimize.go','criteria.go','highscore.go'],
 [('SelectModel main loop and work accounting','featselect/optimize.go SelectModel'),('pruning against the best score','featselect/optimize.go CreateChild, CleanQueue'),('score worker','featselect/optimize.go ScoreWorker')],
 [('numInProgress','outstanding child nodes','featselect/optimize.go SelectModel'),('queue','nodes still to be split','featselect/optimize.go SelectModel')],
 ['contents of the Highscore passed to SelectModel'])
p('C02','Subtree bounds bracket the score of every sub-model',
 'For every model prefix, the lower bound computed for the subtree is not larger, and the upper bound not smaller, than the criterion (AIC or AICc) (residual sums below the tolerance 1e-12 count as the tolerance) of any non-empty model that shares the fixed leading bits and has fewer features than data points. The greatest (least) common model keeps the fixed bits and switches every free feature on (off).',
 ['inputs'],'all data, all models, all split positions, both criteria',
 'Tests compare a handful of hand-picked prefixes on one dataset.',
 ['criteria.go','optimize.go'],[('bounds from GCS/LCS fits','featselect/criteria.go bounds'),('Gcs/Lcs','featselect/optimize.go')])
p('C03','Model enumeration visits every model exactly once',
 'Repeatedly splitting a node into its unchanged and its flipped child reaches each of the 2^p models exactly once as a new node, from every starting model, without ever changing the parent. The exhaustive search therefore lists every non-empty model exactly once with its own least-squares coefficients and AICc, best first.',
 ['inputs','configurations'],'all root models and all data',
 'Tests look at one tree with a fixed root and one dataset.',
 ['node.go','optimize.go'],[('GetChildNode','featselect/node.go'),('BruteForceSelect','featselect/optimize.go')])
p('C04','Information criteria equal their definitions',
 'For every number of features k, data points n and residual sum r > 0, AIC = 2k + n ln r, AICc = AIC + (2k^2+2k)/(n-k-1) (with the denominator replaced by 1 when k >= n-1) and BIC = k ln n + n ln r. Hence each criterion is strictly increasing in r and finite.',
 ['inputs'],'all k, n in range and all r > 0',
 'Tests check a few numeric values.',['criteria.go'],[('Aic/Aicc/Bic','featselect/criteria.go')])
p('C05','Highscore list stays sorted, bounded and keeps the best',
 'After any sequence of insertions a highscore list with capacity of at least one holds only inserted models, in order of non-increasing score, never more than its capacity, and always contains the best score inserted so far at the front. A model is only missing if at least capacity-1 models with a score at least as good are in the list, and the reported scores, length and best score agree with the contents.',
 ['inputs','histories'],'all insertion sequences and score values, including ties and capacity one',
 'Tests insert a few fixed sequences.',['highscore.go'],[('Insert','featselect/highscore.go')],[('Items','sorted list','featselect/highscore.go')])
p('C06','Annealing score list keeps the best distinct models',
 'After any sequence of insertions the annealing score list holds at most its capacity of distinct selections, the remembered best item carries the highest score inserted so far, and no stored item has a lower score than a rejected distinct one. Every stored item keeps the selection, coefficients and score of one and the same inserted item.',
 ['inputs','histories'],'all insertion sequences, capacities and score values',
 'Tests insert four fixed items.',['saScore.go'],[('Insert','featselect/saScore.go SAScore.Insert')],[('BestItem/WorstItem','extremes of the list','featselect/saScore.go')])
p('C07','Annealing search reports consistent models',
 'For every random walk of the annealing search, each recorded model is non-empty, has fewer than half as many features as there are data points (or a single feature), and carries the least-squares coefficients and the negated cost of exactly its selection. The returned selection is ascending, non-empty and its coefficients are the least-squares solution for it.',
 ['inputs','histories'],'all random choices within a bounded number of steps and all data',
 'Tests run a few seeded walks and look at the final selection.',['simmulatedAnnealing.go','saScore.go'],[('accept/reject loop','featselect/simmulatedAnnealing.go')])
p('C08','CSV parsing puts every number in its place',
 'For every well-formed numeric CSV text with a header, parsing with any target column (negative counts from the end) returns the header as names, the target column as Y and the remaining columns in file order as X, row by row. Blanks around a number, as in the documented format, do not change its value.',
 ['inputs','configurations'],'all values, sizes and target columns within bounds, with and without blanks and CR',
 'Tests parse two fixed files.',['csvIO.go'],[('ParseCSV','featselect/csvIO.go')])
p('C09','Saving and re-reading a dataset preserves it',
 'Writing any dataset as CSV and parsing it again with the same target column gives the same names, dimensions and target position and values that differ by at most the six printed decimals. Equality of datasets is reflexive and detects a difference in any value (beyond its tolerance), name or shape.',
 ['inputs','configurations'],'all values, sizes and target columns within bounds',
 'One round trip of one dataset is tested.',['csvIO.go'],[('SaveHandle','featselect/csvIO.go'),('IsEqual','featselect/csvIO.go')])
p('C10','Feature names and numbers stay consistent in datasets',
 'For every dataset and target column, looking up the number of a feature by its name and the name by its number are inverse to each other. A subset keeps for every chosen feature its name and column, keeps Y and the target name, leaves the original untouched, and mapping a selection back by name returns the original feature numbers; a copy shares nothing with the original.',
 ['inputs','configurations'],'all datasets, target columns and feature lists within bounds',
 'Tests use one dataset with the target in one place.',['csvIO.go','nestedLasso.go'],[('GetFeatName/FeatNoByName/GetSubset/Copy','featselect/csvIO.go'),('MapSelectionByName','featselect/nestedLasso.go')])
p('C11','JSON round trips preserve results',
 'Encoding a search node, a highscore list, an annealing score list, a lasso path or a dataset as JSON and decoding it again yields an equal object: same model bits, selections, level, bounds, penalties, criteria, scores and coefficients in the same order, same data, names and target column. Every highscore list of a finished branch-and-bound search can be encoded.',
 ['inputs'],'all models, scores and coefficients within bounds',
 'Tests encode one or two fixed objects.',['node.go','highscore.go','csvIO.go'],[('MarshalJSON/UnmarshalJSON','featselect/node.go, highscore.go, csvIO.go')])
p('C12','Normalisation gives zero mean and unit variance',
 'For every dataset with a non-constant target and without constant columns (other than possibly the first), normalising makes each column and the target have zero mean and unit sample variance in place, and records whether the first column is constant; any other constant column is rejected. Mean, standard deviation, array, row and column normalisation agree with their definitions.',
 ['inputs'],'all data within bounds',
 'Tests check one matrix.',['normalized_dataset.go','util.go'],[('NewNormalizedData','featselect/normalized_dataset.go'),('Mean/Std/Normalize*','featselect/util.go')])
p('C13','Un-normalised coefficients predict the same values',
 'For every normalised dataset with a bias column and every sparse coefficient set, converting to unnormalised coefficients yields a model (bias first) whose predictions on the original data equal the rescaled predictions of the normalised model. The conversion treats every node of a path independently.',
 ['inputs'],'all data and coefficients within bounds',
 'One test checks one path.',['normalized_dataset.go','lasso_lars.go'],[('Path2Unnormalized','featselect/lasso_lars.go'),('LinearTransformationBias','featselect/normalized_dataset.go')])
p('C14','Coordinate-descent lasso returns a KKT point',
 'Whenever coordinate descent converges, the returned coefficients satisfy the lasso optimality (KKT) conditions for the given penalty to within the tolerance, for every feature except the first, whose coefficient stays zero, and for every starting point and every supported correction. The starting point passed in is not modified.',
 ['inputs','configurations'],'all responses, penalties and starting points on small designs',
 'Tests compare a few fixed problems whose solutions never need a feature to re-enter.',
 ['lassoCrdDesc.go','lassoCorrections.go'],[('coordinate update and soft threshold','featselect/lassoCrdDesc.go LassoCrdDesc'),('KKT check','featselect/lassoCrdDesc.go UnsatisfiedKKTConditions'),('corrections','featselect/lassoCorrections.go')])
p('C15','Lasso path: one solution per penalty under every schedule',
 'For every ascending list of penalties and every order in which the workers finish, the coordinate-descent path contains one node per penalty, from the largest penalty downwards (leading empty solutions are dropped unless all are empty), each being the solution for its own penalty. The call always returns.',
 ['inputs','schedules'],'all schedules of the worker pool, penalty lists within bounds',
 'Tests run whatever schedule happens and look at the number of nodes.',
 ['lassoCrdDesc.go'],[('worker pool','featselect/lassoCrdDesc.go LassoCrdDescPath, PerformLassoCrd')],[('availableLambs/highestInserted','work distribution','featselect/lassoCrdDesc.go')])
p('C16','LARS path nodes are lasso solutions with falling penalty',
 'Every node of the LARS path satisfies the lasso optimality conditions for its penalty: correlations of active features equal the penalty in size with the sign of the coefficient and no other feature exceeds it. The path starts at the largest absolute correlation, penalties never increase and selections are ascending without repeats. No breakpoint above the minimum penalty is missing (data with two simultaneous breakpoints excluded).',
 ['inputs'],'all responses on small designs including sign changes and drop-outs',
 'Tests check a fixed diabetes-like example and a few lambdas.',
 ['lasso_lars.go','lasso_cd.go'],[('join and cross times','featselect/lasso_lars.go tJoin, tCross'),('path loop','featselect/lasso_lars.go LassoLars')])
p('C17','Orthogonal matching pursuit picks greedily and refits',
 'At every step orthogonal matching pursuit adds a feature whose absolute correlation with the current residual is maximal, never repeats one in the reported order, and reports zero for unselected features and least-squares coefficients on the selected ones. It stops as soon as the root mean square residual is below the tolerance.',
 ['inputs'],'all responses on small designs, all tolerances',
 'Tests run one example.',['orthogonalMatchingPursuit.go'],[('Omp','featselect/orthogonalMatchingPursuit.go')])
p('C18',"Cohen's kappa of two selections is correct",
 "For any two feature selections out of p features, the agreement score equals Cohen's kappa of the two indicator vectors, is symmetric, never exceeds one, and equals one whenever the two selections contain the same features.",
 ['inputs'],'all pairs of subsets of up to p features',
 'Tests check three fixed pairs.',['util.go'],[('CohenKappa','featselect/util.go')])
p('C19',"Cohen's kappa search returns the best parameters",
 "For every order in which the workers finish, every target is evaluated exactly once with the requested number of random half splits, and the search returns the hyper parameters of a target whose mean kappa is the largest (when it is positive). Each half split uses every data row exactly once, and the mean is over all samples. The lasso targets select the features with nonzero coefficients of a lasso on exactly the given, freshly normalised rows.",
 ['inputs','schedules'],'all schedules of the worker pool within a deviation bound, all splits, numbers of targets below and above the pool size',
 'Tests use one target list and whatever schedule happens.',
 ['cohens_kappa.go'],[('worker pool','featselect/cohens_kappa.go CalculateCohenSequence'),('GetCohensKappa','featselect/cohens_kappa.go')])
p('C20','Thresholding and consistency search for covariances',
 'Thresholding sets exactly the entries smaller in size than the threshold to zero and keeps all others. For data with at least four rows the consistency search evaluates every grid point the requested number of times for every worker order and returns the threshold of a grid point with minimal mean difference; the difference computation leaves its inputs untouched. The thresholded covariance is the thresholded second-moment matrix of the data it was built for, and other data are refused.',
 ['inputs','schedules'],'all matrices within bounds and all schedules within a deviation bound',
 'Tests check one matrix and one run.',
 ['thresholdCov.go','covarianceMatrix.go'],[('Apply','featselect/thresholdCov.go'),('worker pool','featselect/thresholdCov.go L2ConsistentCovTO')])
p('C21','Row splits partition the data; covariances are exact',
 'A random row split puts every row of the matrix in exactly one of the two parts with the requested sizes, for every permutation. The covariance and the empirical second-moment matrix equal their definitions and are symmetric, and computing them leaves the data untouched.',
 ['inputs'],'all matrices within bounds and all permutations',
 'Tests check one matrix.',['thresholdCov.go','covarianceMatrix.go'],[('RandomRowSplit, CovarianceMatrix','featselect/thresholdCov.go'),('Empirical','featselect/covarianceMatrix.go')])
p('C22','Sorting, extrema and set helpers are correct',
 'For every slice, the index sort returns a permutation that orders the values ascending, index-of-minimum/maximum point at an extremal element, minimum, maximum, equality, membership, sum and union agree with their mathematical meaning (the union keeps the first slice as prefix and contains no value twice if the inputs do not). None of the read-only helpers changes its input.',
 ['inputs'],'all slices up to a bounded length, full 64-bit integers',
 'Tests check fixed slices.',['util.go','orthogonalMatchingPursuit.go'],[('Argsort, Argmin, MinInt, UnionInt, ...','featselect/util.go')])
p('C23','Cartesian products and column rearrangement are complete',
 'The product of n values repeated r times lists each of the n^r tuples exactly once, in lexicographic order, for every n and r. Rearranging columns puts the listed columns first in the listed order, followed by all others in their original order, so every column appears exactly once.',
 ['inputs'],'all n, r and column orders within bounds',
 'Tests stop at small products (r <= 3) and one order.',['util.go'],[('IterProduct','featselect/util.go'),('RearrangeDense','featselect/util.go')])
p('C24','Polynomial columns are exactly the monomials up to the degree',
 'The polynomial matrix of k columns and degree d contains the original columns followed by each monomial of total degree 2..d in the chosen columns exactly once, and every generated entry equals the product of the powers of the original entries; products with other powers can be added and are computed in the same way. Single-column access and the full matrix agree.',
 ['inputs'],'all matrices and k, d within bounds',
 'Tests use at most three columns.',['lazyPowerMat.go','util.go'],[('AddPowerSequence, GetCol, FullMatrix','featselect/lazyPowerMat.go')])
p('C25','Model representations and views agree',
 'The bit-array model returns for every index the value last set or flipped there, independently of all other indices, and converts to the matching boolean list. Boolean models, selections, design matrices, coefficient expansions and column/vector views all describe the same features in ascending order.',
 ['inputs','histories'],'all sizes and indices within bounds, all operation sequences up to a bound',
 'Tests check a few indices.',['model.go','util.go','subview.go','sliceVec.go','node.go','orthogonalMatchingPursuit.go'],[('Model','featselect/model.go'),('GetDesignMatrix, Selected2Model, FullCoeffVector','featselect/util.go'),('views','featselect/subview.go')])
p('C26','Least squares fit minimises the residual',
 'For every design matrix and response, the fitted coefficients satisfy the normal equations (residual orthogonal to every column) and, if columns are dependent, have minimal norm. Predictions, residual sums of squares, pseudo-inverses, the hat matrix and the cross-validation score (root mean square leave-one-out error) equal their definitions.',
 ['inputs'],'all designs given by a singular value decomposition within bounds, all responses',
 'Tests fit a few fixed datasets of full rank.',['fit.go','util.go','lasso_cd.go'],[('Fit','featselect/fit.go'),('PseudoInverse, PseudoInverseXTX','featselect/util.go'),('MorsePenroseCD','featselect/lasso_cd.go')])
p('C27','Nested lasso reports original feature numbers and data',
 'Every node of every nested path refers to feature numbers of the original dataset, each round works only on features surviving the previous one, and the coefficients are expressed in the units of the original data. The dataset passed in, which is also the one returned, still holds its original values.',
 ['inputs'],'all responses on small designs, keep fractions within bounds',
 'Tests check lengths for one dataset.',['nestedLasso.go','lassoPlot.go','lasso_lars.go'],[('NestedLasso','featselect/nestedLasso.go')])
p('C28','Shared state is free of data races',
 'No two goroutines access the same memory without synchronisation, one of them writing, while a search, a lasso path, a kappa search or a threshold search runs, also when progress and the highscore list are read concurrently for reporting. A progress snapshot always consists of three values set together.',
 ['schedules'],'all schedules within bounds',
 'The tests are not run with the race detector and never read while a search is running.',
 ['highscore.go','searchProgress.go','optimize.go','lassoCrdDesc.go','cohens_kappa.go','thresholdCov.go'],[('locks and channels','featselect/highscore.go, searchProgress.go, optimize.go')])
p('C29','Model averaging weights are normalised and ordered',
 'Weights derived from criterion values are positive, sum to one and decrease with the criterion, with ratio exp of the difference, and the criterion values passed in are not changed. The weighted average of sparse coefficient sets equals the average of the expanded coefficient vectors.',
 ['inputs'],'all values and selections within bounds',
 'Tests check one example.',['util.go'],[('WeightsFromAIC, WeightedAveragedCoeff','featselect/util.go')])
p('C30','Path criteria and feature ranking follow the path',
 'Criterion values along a path are those of each node evaluated on the stored data with its own coefficients. The most relevant features are listed without repeats in order of entrance and cover all features of the path prefix that first reaches the wanted number; extracting one coefficient follows it along the path with zero where it is absent.',
 ['inputs'],'all paths within bounds',
 'Tests check one stored path.',['lassoPlot.go'],[('GetCriteria, PickMostRelevantFeatures, ExtractPath','featselect/lassoPlot.go')])
p('C31','A save that fails leaves the last saved list in place',
 'While the branch-and-bound command runs, and after it, its result file is either absent or decodes to a complete highscore list: whichever moments the periodic save fires at, whichever write fails after any number of bytes and wherever the process dies, the file holds the list of a save that succeeded (of this run or of the run before); when nothing fails, it holds every model found so far whenever the timer has fired, and finally every model the search found, with its score and coefficients.',
 ['crash_points','schedules','inputs'],'all failing writes, moments of the periodic save and schedules within bounds',
 'The commands are not tested at all.',['cmd/bnb.go'],[('saveHighscoreList, findOptimalSolution','cmd/bnb.go')])
p('C32','Least squares and lasso are accurate in floating point',
 'For every input whose condition number is moderate, the computed coefficients agree with the exact solution to a relative error proportional to the condition number times machine precision.',
 ['inputs'],'all float64 inputs',
 'Tests compare a few well conditioned examples.',['fit.go','lasso_cd.go','lassoCrdDesc.go'],[('gonum SVD','featselect/fit.go Fit')])
p('C33','Penalty grids are geometric and complete',
 'For every number of values n and limits 0 < min < max, the logarithmic grid has exactly n values in increasing order with a constant ratio of neighbours; it starts with min and, for n of at least two, ends with max.',
 ['inputs'],'all limits and sizes within bounds',
 'One test checks one grid.',['util.go'],[('Logspace','featselect/util.go')])
p('C34','Commands run on the given data and options and store what they found',
 'Each command (lasso, sasearch, bnb) runs its algorithm on the data of the given CSV file with the given target column (counted from either end) and the given options: algorithm, penalty limits, number of penalties, tolerance and covariance estimator, number of sweeps, cutoff and queue limit; branch and bound starts from the model annealing found. Without these options the target is the last column and there is no cutoff. The file it leaves decodes to every model the algorithm returned; for lasso it holds the dataset as given, coefficients for the data as given rather than the normalised ones, and the AICc and BIC of exactly these nodes on these data, and the ranking printed shows the (up to 20) best of these; a path that cannot be encoded leaves the file of an earlier lasso run as it was.',
 ['inputs','schedules'],'all data, options and results of the algorithms within bounds',
 'The commands are not tested at all.',['cmd/bnb.go','cmd/lasso.go','cmd/sasearch.go','csvIO.go','lasso_lars.go'],[('lassoFit','cmd/lasso.go'),('saSearch','cmd/sasearch.go'),('findOptimalSolution','cmd/bnb.go')])
p('C35','Plots of a path show the path',
 'For a path with positive penalties that selects at least one feature: the coefficient plot has, for every feature up to the largest selected one, a curve through all nodes (logarithm of the penalty, coefficient, zero where absent) and a zero line over the range of penalties, and uses the given axis limits; the entrance plot has a point for every node and feature selected there and a line with every feature once, at its first entrance; the criterion and deviation plots hold the AICc and the logarithm of the root mean square deviation of every node. Plotting leaves the path unchanged.',
 ['inputs'],'all paths within bounds',
 'Tests only check that plotting one stored path does not crash.',['lassoPlot.go'],[('PlotPath, PlotEntranceTimes, PlotQualityScores, PlotDeviations','featselect/lassoPlot.go')])
p('C36','The additional programs pass their options on',
 'goselect-plotlasso plots the stored path with the given file prefix, type and coefficient limits; goselect-nestedlasso and goselect-cohenlasso run on the data of the given file with the given target column (counted from either end), penalties and thresholds, and the files they leave decode to what the algorithm returned, whether or not the file existed before. goselect-mem prints how many nodes with all features (by their estimated size, at least a byte and a coefficient per feature) fit into the given memory.',
 ['inputs','configurations'],'all options, data and results of the algorithms within bounds',
 'These programs are not tested at all.',['cmdDepreciated/goselect-plotlasso/main.go','cmdDepreciated/goselect-nestedlasso/main.go','cmdDepreciated/goselect-cohenlasso/main.go'],
 [('main, analyseLasso','cmdDepreciated/goselect-plotlasso/main.go'),('main','cmdDepreciated/goselect-nestedlasso/main.go'),('main','cmdDepreciated/goselect-cohenlasso/main.go'),('main','cmdDepreciated/goselect-mem/main.go')])
p('C37','The cutoff shifts the bounds when subtrees are left out',
 'With a cutoff c given to branch and bound, a subtree is left out exactly if none of its models can be fitted or its lower AICc bound plus c exceeds the smallest AICc found so far (no subtree is left out on its bound before a model was found). Hence for every data set and starting model without perfect fits the best model found is optimal for c <= 0 and at most c above the optimum for c > 0; every model is visited when c is far below zero. A child that is kept carries its model, level and bounds.',
 ['inputs','schedules'],'all cutoffs, best scores, nodes and schedules within bounds',
 'Tests never set a cutoff.',['optimize.go'],[('CreateChild, CleanQueue, SelectModel','featselect/optimize.go')])
p('C38','The ranking printed for a path lists its best models in order',
 'For every path with its criteria, the ranking printed has one row, numbered from one, for each of the first num nodes (for all, if there are fewer) in order of increasing AICc. A row shows the penalty, the number of coefficients, the AICc and the BIC of one node; no node is shown twice, no node left out is better than one shown, and path and criteria are not changed. Nested lasso prints the ranking (10 rows) of every round.',
 ['inputs'],'all paths and criteria within bounds',
 'Printed output is not tested at all.',['util.go','nestedLasso.go'],[('PrintHighscore','featselect/util.go'),('NestedLasso','featselect/nestedLasso.go')])
p('C39','Branch and bound reports the work done correctly',
 'The progress that branch and bound reports counts the work done: the number of models explored is the number of models scored, and the best score is that of the best of them (in both the one scored last may be missing). Two to the power of the reported logarithm is one (for the starting model) plus the number of models in the subtrees that were left out instead of being created; subtrees left out last may be missing, but never are more models reported than these subtrees hold.',
 ['inputs','histories'],'all patterns of subtrees left out and all scores within bounds',
 'Tests never look at the progress.',['optimize.go','util.go','searchProgress.go'],[('SelectModel, CreateChildNodes','featselect/optimize.go'),('NewLog2Pruned','featselect/util.go'),('SearchProgress','featselect/searchProgress.go')])
p('C40','Inputs are left unchanged',
 'A function that computes something from data, coefficients, models, paths, datasets, nodes or lists leaves all of them exactly as they were; and where it returns copies (dataset copies and subsets, row splits, rearranged, polynomial and covariance matrices, children of a node, models, coefficients and selections of a result) changing the result does not change the inputs either. The functions whose purpose is to change their argument are the exception: normalisation in place (NewNormalizedData, NormalizeArray, NormalizeRows, NormalizeCols), Path2Unnormalized, MapSelectionByName, Abs, the first list of UnionInt, the running products of UpdateCovDotBeta, the matrix given to ThresholdOperator.Apply, and methods that insert, set, flip or update their receiver (a model inserted into a list is itself not changed). SelectModel sets a missing start model in its options.',
 ['inputs'],'all data, coefficients, targets, models and lists within bounds',
 'Tests look at results and reuse inputs only in a few places, with few values.',['fit.go','util.go','thresholdCov.go','covarianceMatrix.go','criteria.go','optimize.go','orthogonalMatchingPursuit.go','simmulatedAnnealing.go','saScore.go','lassoCrdDesc.go','lasso_cd.go','lasso_lars.go','lassoCorrections.go','lassoPlot.go','nestedLasso.go','csvIO.go','node.go','model.go','highscore.go','subview.go','sliceVec.go','lazyPowerMat.go','cohens_kappa.go','normalized_dataset.go'],[('Fit, Predict, Rss','featselect/fit.go'),('Copy, GetSubset','featselect/csvIO.go'),('NestedLasso','featselect/nestedLasso.go'),('LassoCrdDesc, LassoCrdDescPath','featselect/lassoCrdDesc.go'),('GetChildNode','featselect/node.go'),('Argsort, WeightsFromAIC','featselect/util.go')])
p('C41','A full queue gives up the least promising nodes only',
 'Branch and bound with a limited queue: when more nodes wait than the limit allows, exactly the waiting nodes whose lower bound is above the mean of all bounds are given up; the others stay, in their order and with their bounds. So the most promising subtree is always explored, however small the limit, and nothing is given up while all waiting subtrees are equally promising. When a better model is found, exactly the waiting nodes whose lower bound is above its score (less the cutoff) are dropped.',
 ['inputs','histories'],'all queues, bounds, scores and limits within bounds',
 'Tests drop nodes from one queue of four.',['optimize.go'],[('RemoveLeastPromising, CleanQueue, SelectModel','featselect/optimize.go')])
p('C42','Input that does not fit together is refused',
 'Data, targets, coefficients and models whose sizes do not fit are refused with a panic, and sizes that fit are not: Fit needs a target per row; Predict, Rss and MulSlice a coefficient per column (Rss also a target per row); a path node a coefficient per selected feature; a weighted average a weight per model; the model search three features and a start model of the right size; a design matrix a feature; only the first column of data to be normalised may be constant; the bias has no normalised coefficient. Names a dataset does not have are refused. Tables with lines of different length or broken quotes are refused, a missing table gives no dataset and a missing path file is refused; decoding a broken stored node, list or dataset reports an error.',
 ['inputs'],'all sizes, values and texts within bounds',
 'Tests check none of the refusals.',['fit.go','util.go','optimize.go','lassoCrdDesc.go','lasso_lars.go','normalized_dataset.go','csvIO.go','lassoPlot.go','node.go','highscore.go'],[('Fit, Predict, Rss','featselect/fit.go'),('GetDesignMatrix, WeightedAveragedCoeff','featselect/util.go'),('SelectModel','featselect/optimize.go'),('NewNormalizedData','featselect/normalized_dataset.go'),('ParseCSV, ReadCSV, FeatNoByName','featselect/csvIO.go')])
for q in P:
    q['anchors']['files']=[f.replace('featselect/../','') .replace('../','') for f in q['anchors']['files']]
    assert len(q['title'])<=80,q['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
