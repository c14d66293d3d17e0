"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
U='convst/transformers/_univariate_same_length.py'; UV='convst/transformers/_univariate_variable_length.py'
M='convst/transformers/_multivariate_same_length.py'; MV='convst/transformers/_multivariate_variable_length.py'
CO='convst/transformers/_commons.py'; R='convst/transformers/rdst.py'; IT='convst/transformers/_input_transformers.py'
RI='convst/classifiers/rdst_ridge.py'; EN='convst/classifiers/rdst_ensemble.py'; EX='convst/utils/experiments_utils.py'
DS='convst/utils/dataset_utils.py'; CK='convst/utils/checks_utils.py'; NU='convst/utils/numba_utils.py'
PL='convst/utils/plot_utils.py'; IN='convst/interpreters/rdst_interpreter.py'; CI='convst/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
                  why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=', '.join(files)) for m in mech])))
NOALGO="The suite that runs offline only exercises the argument validation helpers; no shapelet is ever generated or applied by it. "
p('C01','Univariate shapelet features mean what the method defines',
 "For every univariate series and every shapelet of a fitted transformer, the transform returns three consecutive columns per shapelet, in shapelet order: the smallest Manhattan distance between the shapelet and any window of the series taken at the shapelet's length and dilation, the first position where it is reached, and the number of windows whose distance is at most the shapelet's threshold. A shapelet marked as normalised is compared with windows that are individually z-normalised (standard deviation plus 1e-8), any other with raw windows. Without phase invariance the windows are those that fit inside the series; with it there is one window per timestamp, wrapping around the end.",
 ['inputs','configurations'],'all series lengths, values (ties, constants, huge and tiny magnitudes), and all mixes of shapelet lengths, dilations, normalisation, thresholds, phase on and off',
 NOALGO+"Even the network-bound tests only look at shapes and accuracies, which tolerate most wrong features.",
 [U,CO,R],['applying all shapelets to a series: windows are built once per (length, dilation) group, raw shapelets first, then windows are normalised in place for the normalised ones','minimum, argmin and occurrence count scan'])
p('C02','Multivariate features sum distances over exactly the shapelet channels',
 "For every multivariate series and every shapelet of a fitted transformer, the distance to a window position is the sum, over exactly the channels that shapelet was drawn on and paired with that channel's own values, of the per-channel Manhattan distance (each channel's window z-normalised on its own when the shapelet is normalised). Minimum, first argmin and at-most-threshold count are then reported as three columns per shapelet, in shapelet order. Channels a shapelet does not use never influence its features.",
 ['inputs','configurations'],'all numbers of channels and of channels per shapelet, all lengths, dilations, normalisation, thresholds, phase on and off',
 NOALGO+"The flattened, ragged storage of values and channels makes the result depend on offsets of all previous shapelets, which no sampled example pins down.",
 [M,CO,R],['flattened value and channel arrays addressed through cumulative offsets','window normalisation in place after raw shapelets were applied'])
p('C03','Variable-length transform equals each series transformed alone',
 "For variable-length input, uni- or multivariate, the features of each series are exactly those obtained from its true values only: minimum, argmin and count range over the windows of that series' own length (and, with phase invariance, wrap at its own end). The padding needed to store series together, and the lengths of the other series in the batch, never influence the result.",
 ['inputs','histories'],'all mixes of series lengths in one batch, including the longest being thousands of times padded relative to the shortest, and series whose values make zeros an attractive match',
 NOALGO+"Padding leaks only show when zeros match better than real data, or when the same series is batched with longer ones.",
 [UV,MV,R],['padding of uneven series to a dense array plus a vector of true lengths','slicing by true length before building windows'])
p('C04','Transforming is a pure, row-independent function of fitted model and series',
 "The features of a series depend only on the fitted model and that series: not on the other rows of the batch, their order, the batch size, or earlier calls. Neither fitting nor transforming modifies the caller's arrays, and transforming never modifies the fitted shapelets.",
 ['inputs','histories','schedules'],'all batches, permutations, splits and repetitions of calls on one fitted model, uni/multivariate, equal and variable length',
 NOALGO+"Aliasing (windows normalised in place, views of the input) shows only for particular combinations of shapelets in one batch and repeated calls.",
 [U,UV,M,MV,R,CO],['in-place normalisation of window buffers','conversion and padding of input'])
p('C05','Parallel regions are race free and schedule independent',
 "While fitting and transforming, no two iterations of a loop that is handed to several threads access the same memory element with at least one write, except through supported reductions. Results are therefore the same for every number of threads, every assignment of iterations to threads and every execution order.",
 ['schedules','inputs'],'all interleavings, iteration orders and worker assignments of every parallel loop, all data shapes and parameters',
 NOALGO+"Data races need particular interleavings; a unit test observes one schedule.",
 [U,UV,M,MV,IT],['parallel loop over dilations updating a shared sampling mask and shapelet arrays','parallel loops over samples and parameter groups writing the output matrix'])
p('C06','No out-of-bounds or uninitialised access; finite output of the right shape',
 "For every admissible training set (at least four timestamps, finite values, any number of samples, classes and channels) and any admissible parameters, fitting and transforming access arrays only within their bounds and only after initialisation, terminate without error, and return a finite matrix with one row per series and three columns per shapelet. This includes boundary cases: shapelets as long as the series, a single sample, single-member classes, constant series, exhausted sampling space, and search spaces restricted to one dilation.",
 ['inputs','configurations'],'all admissible data shapes, values and parameters, with emphasis on boundary sizes',
 NOALGO+"Compiled kernels run without bounds checks, so an off-by-one reads garbage silently instead of failing a test.",
 [U,UV,M,MV,CO,R],['index arithmetic on start + j*dilation and on cumulative offsets','logarithmic choice of a prime dilation','flattened multivariate arrays'])
p('C07','Every shapelet is a genuine dilated window of one training series',
 "Each fitted shapelet's values are exactly the values of one training series at some start position, spaced by its dilation (z-normalised if the shapelet is marked normalised), where all read positions lie inside that series' true length (wrapping only with phase invariance). For a multivariate shapelet, every one of its channels comes from the same series and the same start position.",
 ['inputs','configurations'],'all training sets, equal or variable length, all parameters and seeds',
 NOALGO+"Values copied from the wrong series, channel, offset or from padding still yield plausible accuracies.",
 [U,UV,M,MV,CO],['dilated subsequence extraction, with and without wrap-around','writing values of each shapelet in its own slot, then compacting kept shapelets'])
p('C08','Fitted shapelet parameters are legal, complete and mutually aligned',
 "Every fitted shapelet has a length from the allowed set, an integer dilation of at least 1 such that its span fits in the shortest admissible series, and (with prime dilations) a dilation that is 1 or prime; a multivariate one uses between one and the maximum number of distinct, existing channels. All parameter arrays describe the same shapelets in the same order, at most the requested number is returned, exactly that number whenever the sampling space is not exhausted and no training window is identically zero, and no unsampled placeholder is ever returned.",
 ['inputs','configurations'],'all lengths, series lengths, minimum lengths, channel counts, budgets, phase, prime and alpha settings',
 NOALGO+"A parameter drawn out of range needs a boundary length or a rare draw.",
 [U,UV,M,MV,CO,R],['random initialisation of lengths, dilations, channels','removal of shapelets that could not be sampled'])
p('C09','Occurrence thresholds come from a same-class series and percentile range',
 "Each shapelet's threshold lies between the lower and the upper requested percentile of the distance vector between that shapelet and one training series of the same class as the series it was extracted from, another series whenever the class has more than one member and that same series otherwise. Thresholds cover that range rather than being pinned at one end.",
 ['inputs','configurations'],'all class layouts including singleton classes, all percentile pairs including equal and extreme ones, uni/multivariate, equal and variable length, phase on and off',
 NOALGO+"A threshold from the wrong class or the wrong percentile is a plausible number; only comparison with all legal candidates exposes it.",
 [U,UV,M,MV],['choice of a second sample of the same class','percentile of the distance vector followed by a uniform draw'])
p('C10','Alpha similarity limits overlap between similar shapelets',
 "Between two shapelets with equal length L, dilation and normalisation drawn from the same training series, start positions differ by at least L - max(1, floor((1-alpha)*L)) dilation steps (counted circularly with phase invariance) whenever they differ by a whole number of steps, so that without phase invariance they share at most max(1, floor((1-alpha)*L)) positions. For multivariate data this applies per channel, and a shapelet may be placed where at least a fraction alpha of its channels is free of such conflicts with the shapelets sampled before it. With a single allowed length nothing else is excluded: fewer shapelets than requested are returned only when every admissible start is taken or too near to a sampled one. The limit tightens as alpha grows and disappears at alpha 0.",
 ['inputs','configurations','histories'],'all sequences of sampled shapelets, all alphas in [0,1], budgets large enough to saturate the space, phase on and off, equal and variable length',
 NOALGO+"The limit is a relation between pairs of shapelets across a whole sampling history.",
 [U,UV,M,MV],['self-similarity mask per normalisation, dilation, sample (and channel) updated after each draw'])
p('C11','Random sampling follows the documented distributions',
 "Over many shapelets the proportion of normalised ones matches the requested probability (exactly none at 0, all at 1), lengths are uniform over the allowed set, dilations follow the floor of two to a uniform power up to the largest that fits (or, with prime dilations, reach all fitting primes and 1, the i-th smallest with weight 2^-ln(i)), numbers of channels are uniform up to the maximum with channels chosen uniformly, and, where similarity does not limit sampling, source series (of equal length) and start positions are uniform and no series is left out. The draws of different random states, and of different dilations of one fit, are unrelated.",
 ['inputs','configurations'],'all parameter settings; decided statistically at six sigma over large samples',
 NOALGO+"A biased draw satisfies every single-sample assertion.",
 [U,UV,M,MV,CO],['random draws of length, dilation exponent, normalisation, channels','logarithmically weighted prime choice'])
p('C12','Results are reproducible from the random state alone',
 "With equal parameters, data and integer random state, two fits of the transformer or of either classifier give identical shapelets, features and predictions: whatever the number of threads, the scheduling of parallel work, the state of any global random generator, and also when training series are subsampled; fitting and predicting leave the global generators as they were. A random state given as a numpy integer, or as a generator in equal state, is as good. Different random states give different shapelets.",
 ['schedules','histories','configurations'],'all thread counts, schedules, prior uses of global generators, parameters including subsampling (input transformations asked to choose their own settings at random excepted)',
 NOALGO+"Irreproducibility comes from unseeded per-thread generators and scheduling, invisible in one run.",
 [R,RI,EN,U,UV,M,MV],['seeding of the generator used inside compiled code','random state passed to subsampling and to ensemble members'])
p('C13','Refitting forgets the previous training set',
 "Fitting an already fitted estimator on new data gives what a fresh estimator with the same parameters would have: the same admissible lengths, minimum length, channels and data kind, all derived from the new data alone. Fitting leaves the parameters the user passed unchanged for the next fit.",
 ['histories'],'all sequences of fits on datasets of different length, channel count and kind, with relative or bounded lengths',
 NOALGO+"Sticky state only shows in a second fit on different data.",
 [R,RI,EN],['resolution of relative lengths, minimum length, maximum channels and data kind at fit time'])
p('C14','The same data gives the same model whatever container or dtype holds it',
 "Numerically equal data gives the same fitted model and features whether passed as integer or floating arrays of any width, contiguous or strided, or, for series of uneven length, as a list or an object array of per-series arrays; the kind of data (uni/multivariate, equal/variable length) is recognised automatically, and naming that kind explicitly changes nothing. Series with different numbers of channels, unknown kinds and malformed input are rejected with an error.",
 ['inputs','configurations'],'all dtypes, memory layouts and containers, all four data kinds, automatic or explicit',
 NOALGO+"Tests use one container per kind and float64 only.",
 [R,CK],['automatic selection of the data kind','padding of uneven series','dtype conversion'])
p('C15','Shapelet length settings resolve as documented',
 "Integer lengths are used as given, relative lengths as the floor of that share of the (shortest) series length, and bounds as every integer between them (relative bounds likewise floored, never below 3), thinned by the reduction parameter with a regular step that keeps the lower bound. A length longer than the shortest series is replaced by half of that series with a warning, and lengths below 2 are rejected.",
 ['inputs','configurations'],'all integer and relative lengths and bounds, reductions, series lengths, equal and variable length',
 NOALGO+"Tests check four length settings on a dataset that must be downloaded.",
 [R],['length resolution from list or bounds','length validation'])
p('C16','Constructor parameters reach the sampling and output they document',
 "Every documented parameter of the transformer and of both classifiers has its documented effect on the shapelets or the output: fitting through a classifier samples shapelets subject to exactly the parameters given to the classifier. In particular normalised output divides position and count features by the length of the series they come from, and subsampling extracts shapelets only from the requested stratified share of the training series.",
 ['configurations','inputs'],'all parameters of all three estimators set to non-default values, alone and combined',
 NOALGO+"A parameter dropped between layers leaves every default-parameter test green.",
 [R,RI,EN],['forwarding of parameters from classifier to transformer','output normalisation','subsampling of training series'])
p('C17','Ridge classifier is scaling plus ridge regression on shapelet features',
 "The ridge classifier fits a cross-validated ridge classifier with the user's regularisation options on the standardised, non-constant shapelet features of the training series, predicts new series from features computed with the same shapelets and the same training standardisation, and returns only labels seen in training; its score is the fraction of correct predictions. Test data never influences the scaling.",
 ['inputs','configurations','histories'],'all datasets, label sets, regularisation options, features constant on the training set, repeated predictions',
 NOALGO+"Accuracy thresholds on one dataset tolerate scaling leaks or dropped options.",
 [RI,IT],['pipeline of scaler that drops constant columns and ridge classifier','composition with the transformer'])
p('C18','Ensemble prediction is the accuracy-weighted vote of its members',
 "The ensemble fits one independent member per input transformation, each on its own transformed view of the same training data; a member's weight is its leave-one-out training accuracy raised to the weighting exponent, and a series is assigned the original class label with the largest weighted sum of member class probabilities. This holds for any label values, any number of classes, and any number of jobs.",
 ['inputs','configurations','schedules'],'all label encodings, class counts, numbers of members and jobs, weighting exponents',
 NOALGO+"The ensemble is not exercised by any test.",
 [EN],['leave-one-out accuracy from stored cross-validation values','weighted soft vote'])
p('C19','Resampled evaluation conserves the data and the class balance',
 "Cross-validated scoring evaluates the original split first, then resamples: every resample redistributes exactly the same set of (series, label) pairs between train and test, keeps the per-class counts of the original split in each part, depends only on the resample index, and leaves the original arrays untouched. Each requested metric is reported once per split, computed on that split's test labels against the predictions made for it by the model fitted on that split's training part.",
 ['inputs','histories'],'all datasets, equal and variable length, class layouts, numbers of splits and scorers',
 "The evaluation helpers are only run by tests that need to download archives, which check one accuracy.",
 [EX],['per-class shuffling with a seeded generator','per-split scoring loop'])
p('C20','Grid-search splits index the resampled series exactly',
 "The splits used for grid search index, within the pooled data, exactly the series of each resample: train and test indexes are disjoint, cover the pooled data, and select series equal to the resampled ones with the same labels; the first split is the original one. The search refits on the pooled training and test data and returns its results table.",
 ['inputs','histories'],'all datasets with distinct series, uni- and multivariate, including series that agree on some channel',
 "No test touches the grid-search splitter.",
 [EX],['matching resampled series back to positions in the pooled array'])
p('C21','Dataset loading preserves series, labels and splits',
 "Loading a named archive dataset returns the train and test series unchanged (or z-normalised per series and channel when asked), labels encoded as consecutive integers with one encoding fitted on the training labels, and the length of the shortest series over both parts; the pooled loader returns training series followed by test series. Equal-length and variable-length datasets are both supported, and the lists of dataset names are free of duplicates and disjoint.",
 ['inputs','configurations'],'all dataset shapes and kinds, label types, normalisation on and off',
 "Loader tests need the network and check shapes of two equal-length datasets.",
 [DS],['label encoding','per-series normalisation','minimum length over both splits','pooling'])
p('C22','Input transformations and scalers compute their definitions per series',
 "Every input transformation maps each series and channel independently to its definition, whatever the numeric type the series is stored in: identity, n-th order difference, windowed periodogram, z-normalisation, or Hankel transform, without modifying its input and without mixing series. The scalers drop exactly the features constant on the training data and standardise (or min-max scale) the others with training statistics.",
 ['inputs','configurations'],'all shapes, orders, windows, values, constant channels or columns',
 "No test covers the input transformations or the scalers.",
 [IT],['per-series loops over numerical library transforms','removal of constant columns'])
p('C23','Validation accepts exactly well-formed arguments and passes them unchanged',
 "The argument checks return well-formed arguments unchanged in value and reject every other argument with a value error: number checks accept every integer or float but no boolean, boolean checks only booleans, array checks exactly the non-empty lists and arrays of the announced number of dimensions (a data frame also counts as two-dimensional; three-dimensional data needs more than the minimum number of timestamps and, when asked, exactly one channel). The transformer's constructor refuses what these checks refuse, percentiles that are no ordered pair and bounds that are no pair. The number of jobs resolves to at least one and at most all processors: none to one, positive values to themselves, negative values counting back from all processors.",
 ['inputs'],'all Python and numpy scalars and containers, all shapes',
 "The unit tests sample a handful of arguments per check; the guarantee is a partition of all arguments.",
 [CK,R],['type and shape guards','job count resolution'])
p('C24','Interpretation plots show what the transform computed',
 "For every fitted univariate model, shapelet and series, plotting a shapelet draws its values, plotting it on a series places it at the positions of its best match as reported by the transform (rescaled to the matched window when normalised), and plotting its distance vector draws the distances and threshold whose minimum, argmin and count are the transform's features. The best shapelets shown for a class are those with the largest coefficients for it in the fitted classifier, and multivariate models are refused as not implemented, unfitted or other objects as unusable.",
 ['inputs','configurations'],'all fitted models, shapelets, series; equal and variable length; phase on and off',
 "No test touches the interpreters.",
 [IN,CO],['best-match position and rescaling','mapping of classifier coefficients back to shapelets through dropped constant features'])
p('C25','Critical-difference analysis applies Holm correction and ranks correctly',
 "The critical-difference analysis compares every pair of fully evaluated classifiers dataset by dataset, declares exactly the pairs significant that Holm's step-down procedure rejects at the chosen level, ranks classifiers by their average rank over datasets (ties averaged, best accuracy first), and joins exactly the maximal groups of mutually non-different classifiers. The result does not depend on the row order of the input table or on classifier names.",
 ['inputs','configurations'],'all result tables, incomplete classifiers, ties, row orders and significance levels',
 "No test touches the plotting utilities.",
 [PL],['pairwise tests, sorted p-values and step-down loop','rank table','maximal cliques of the non-significance graph'])
p('C26','Pairwise comparison counts every dataset exactly once',
 "For each competitor the pairwise plot draws every dataset at (competitor, baseline) accuracy and reports wins, draws and losses of the baseline that partition the datasets: a win when the baseline exceeds the competitor by more than the margin, a loss in the symmetric case, a draw otherwise; datasets whose two accuracies differ by more than the given limit are named at their point. Every competitor gets its own panel with the right axis labels, for any number of competitors and columns.",
 ['inputs','configurations'],'all tables, margins, numbers of competitors and of columns',
 "No test touches the plotting utilities.",
 [PL],['win/draw/loss counting with margin','panel layout'])
p('C27','Compiled unique-rows and all-along-axis agree with numpy',
 "The unique-rows helper returns the sorted distinct rows (or columns, listed one per row), the first index of each in the input and its multiplicity, as numpy's does, without modifying its input; the all-along-axis replacement equals numpy's for every non-empty one- and two-dimensional boolean or numeric array and axis (0 or 1).",
 ['inputs'],'all array shapes (including single rows and columns), dtypes, duplicates and axes',
 "No test touches these helpers.",
 [NU],['stable multi-key sort with duplicate detection','row- or column-wise conjunction'])
p('C28','Compilation options can be switched off everywhere without changing results',
 "Switching off any of the global compilation options (caching, fast math, GIL release, parallelism) before importing the library switches it off in every compiled function of the library, and no combination of options changes fitted shapelets or features for a given random state.",
 ['configurations'],'all sixteen combinations of the four options, all four data kinds',
 "Tests run one configuration; the example that changes options is never executed.",
 [CI,U,UV,M,MV,CO,IT,DS,NU],['options read at import time by each decorator'])
p('C29','Window, distance and prime primitives match their definitions',
 "The window primitives enumerate, for every start position, the dilated window of requested length (wrapping only with phase invariance), the distance primitives equal Manhattan, Euclidean and squared Euclidean distance, the shapelet distance vector equals the distance to each such window, the primality primitives accept exactly 1 and the primes, and dataset normalisation maps every series and channel to zero mean and unit deviation (constant ones to zero).",
 ['inputs'],'all series lengths, window lengths, dilations, values and integers',
 "Tests compare one window of random data for six parameter triples, and cannot run offline.",
 [CO,DS],['window builders','distance kernels','trial division'])
p('C30','Unusable data is refused instead of being computed on',
 "Fitting, transforming and predicting raise an error, and never return a result, for data they cannot use: an estimator that is not fitted; labels that do not match the number of series; no series at all, input that is not a batch of multi-channel series, or series of at most two timestamps; series with different numbers of channels within a batch, or with another number of channels than in training; and, without phase invariance, series too short to contain a window of every fitted shapelet. Series of any other length are accepted, and a refused transform or prediction leaves the fitted estimator as it was.",
 ['inputs','histories'],'all four data kinds, transformer, ridge and ensemble classifiers, faults of any size at any position of the batch',
 "Tests exercise the argument checks alone, never an estimator given unusable data.",
 [R,RI,EN,CK],['guards before compiled kernels, which do not check bounds themselves'])
p('C31','Estimators can be cloned, reparameterised and copied like scikit-learn ones',
 "For the transformer, the ridge classifier and the ensemble classifier: constructors store every argument as given (and the documented defaults for the rest), so that estimators can be read with get_params and cloned, a clone being unfitted and fitting, with the same random state, to exactly what the original fits to; an estimator whose parameters were changed with set_params, fitted before or not, fits as one built with these parameters; deep copies and pickles of a fitted estimator give the same features and predictions, and refitting a copy leaves the original as it was; fit_transform equals fit and transform, score is the accuracy of the predictions; and neither fitting nor copying modifies the constructor's defaults or arguments, so that ensembles given the same input transformations do not affect each other.",
 ['inputs','configurations','histories'],'all parameter combinations, four data kinds, three estimators',
 "No test clones, copies or reparameterises an estimator.",
 [R,RI,EN],['constructors','parameter resolution inside fit'])
p('C32','Invalid parameters are refused and equal values mean the same in any type',
 "Constructing and fitting the transformer, the ridge classifier or the ensemble classifier raises an error, and never fits a model, when a parameter is invalid: an unknown transform type; flags that are not booleans; alpha, normalisation probability, sample share, shapelet count, accuracy exponent or bound reduction that are not numbers, or a bound reduction of 1 or more; percentiles that are not two ordered numbers; bounds that are not two values; shapelet lengths that are not a one-dimensional collection of values above 1 (absolute or relative), or exceed series of fewer than four timestamps; an invalid random state or job count; in the ensemble, probabilities that do not match the transformers. This also holds for lengths, random state, shapelet count and transform type changed with set_params. Values at the limits (0 and 1, equal percentiles, length 2 or the whole series, one shapelet) are accepted, and a value gives the same fit whether given as a Python or numpy number of any width, list or array, or transform type in any case.",
 ['inputs','configurations'],'all invalid values, all parameters, three estimators, four data kinds',
 "Tests exercise the argument checks alone, on a few values.",
 [R,EN,CK],['constructor checks','_check_params at fit'])
p('C33','Documented workflows run as written',
 "The programs in the README, the documentation's index and the examples folder run as written: the dataset is loaded by name, the classifiers are fitted in every configuration shown, the printed accuracy is that of their predictions on the test part, the best shapelets of a class are drawn on training and test data, and options switched off as in the example are off in every compiled function. The results script evaluates every model on every dataset and writes one row per dataset and model with the mean and deviation, over the splits, of the accuracy and of the time taken by each split; run again after a crash at any point, it keeps the rows of finished pairs and evaluates exactly the others.",
 ['inputs','crash_points','histories'],'all documented programs, archives of any data kind, all crash points of the results script',
 "No test executes the README, the examples or the scripts, and they are not run by any other job.",
 ['README.md','docs/index.rst','examples/UCR_example.py','examples/Changing_numba_options.py','PaperScripts/test_models.py',R,RI,EN,IT,DS],['code blocks of the documents','examples and results script'])
p('C34','The job count bounds the threads',
 "While an estimator is fitted, transforms, predicts or scores, its parallel loops run on exactly the number of threads its job count stands for (none or false: one; negative: counted back from all processors), whatever other estimators were built, fitted or copied before, whichever thread it is used from, and also when changed with set_params. In the ensemble, the members handled at the same time, with the threads of each, together never exceed the number its job count stands for, and use more than half of it unless there are fewer members.",
 ['configurations','histories','schedules'],'all job counts, orders of construction and use of several estimators, calling threads, numbers of processors',
 "Tests run with one job and look at results, not at the threads used.",
 [R,RI,EN,CK],['set_num_threads around the compiled kernels','job counts of ensemble and members'])
p('C35','Estimators can be used from several threads at once',
 "Operations that run at the same time in several threads give exactly what each gives when it runs alone, however the threads alternate: transforming, predicting with one fitted transformer, ridge or ensemble classifier, input transformation or scaler shared by the threads, on batches of the same or different shape, and fitting estimators of their own with equal or different random states. None of them fails or blocks because of the others.",
 ['schedules','inputs'],'all interleavings of the threads, pairs of operations, estimators, data kinds and batch shapes',
 "Tests use one thread; an estimator keeping intermediate results on itself or in the module passes them all.",
 [R,RI,EN,IT,CO],['state kept on the estimator between calls','generators seeded per thread'])
p('C36','Models keep only what they need, and using them piles nothing up',
 "A fitted transformer, classifier, input transformation or scaler holds no training series: once the caller drops them they are freed, no copy of them or of their features stays behind, and the size of the model depends on its shapelets (for classifiers at most the leave-one-out predictions are added), not on how much or how long data it was fitted on. Fitting again replaces the previous model instead of adding to it. Transforming, predicting, scoring and plotting keep neither the series they were given nor their results, on the estimator or anywhere else in the library, however often they are repeated.",
 ['histories','inputs'],'all estimators, data kinds and sequences of fits and uses',
 "Tests look at results of single calls; memory held afterwards shows in none of them.",
 [R,RI,EN,IT],['attributes set by fit, transform and predict','_format_uneven_timestamps'])
p('C37','Work grows in proportion to the data',
 "The number of steps executed while fitting, transforming and predicting grows at most in proportion to each of the number of series, the number of shapelets, the number of timestamps and the number of channels: doubling one of them at most about doubles what it adds, for every data kind, with and without phase invariance, normalisation, similarity limits and prime dilations. Nothing computed for one series, shapelet or position is computed again for each of the others.",
 ['inputs','configurations'],'all sizes, estimators, operations, data kinds and options',
 "Tests use tiny inputs and do not look at cost; quadratic work gives the same features.",
 [R,RI,EN,'convst/transformers/_univariate_same_length.py','convst/transformers/_univariate_variable_length.py','convst/transformers/_multivariate_same_length.py','convst/transformers/_multivariate_variable_length.py',CO],['grouping of shapelets by length and dilation','window and distance loops'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
