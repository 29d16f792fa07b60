I, H, C, S, PR = "inputs", "histories", "configurations", "schedules", "programs"
BUILT = set(l.strip() for l in open(os.path.join(V, "tools", "built.txt")) if l.strip())


def P_(id, title, statement, over, text, why, files, mech, **kw):
    kw.setdefault("na", "its check is still being built")
    prop(id, title, statement, over, text, why, files, mech, claimed=id in BUILT, **kw)


P_("C01", "Annotated feature matrices are read and written faithfully",
   "Reading an annotated feature matrix yields exactly the table in the text: every feature keeps its name, its kind (N: numerical, anything else categorical) and its value for every case, whether the features are laid out in rows or in columns and whether the file is plain or zipped. Every missing marker (blank, ?, NaN, NA, null in any letter case, and for numerical features anything that is not a number) is read as missing and never as a value. Writing any selection of cases and reading the result back reproduces those cases and their labels.",
   [I], "all tables of any shape, kind and value mix, all missing markers, both layouts, plain and zipped, all case selections",
   "Tests parse one small fixed matrix; the layout sniffing, per-cell missing detection and round trip must hold for every table.",
   ["featurematrix.go", "densenumfeature.go", "densecatfeature.go", "catmap.go"],
   [("layout sniffing and per-row parsing", "featurematrix.go ParseAFM/ParseFeature/LoadCases/LoadAFM"), ("cell parsing", "densenumfeature.go Append, densecatfeature.go Append"), ("writing", "featurematrix.go WriteCases")],
   observe=["the parsed feature matrix", "text written by WriteCases"],
   technique="rapid generated tables, rendered to text and parsed; round trip and table-model oracle",
   note="Searches generated tables (both layouts, zip, all missing spellings); trusts encoding/csv quoting rules for what a legal cell is.",
   assumptions=["cells contain no tabs, newlines or double quotes", "when features are in rows the first case label does not start with N:, C: or B:"])

P_("C02", "ARFF data are read and written faithfully",
   "Reading an ARFF file yields one feature per attribute with the declared name and kind (numeric or real versus nominal, in any letter case), one case per data row with exactly the values in it, '?' and other missing markers as missing, ignoring comments and the relation name. Writing any selection of cases as ARFF and reading it back reproduces the names, kinds, values and missing cells of those cases.",
   [I], "all attribute lists, value mixes, missing patterns and case selections",
   "One fixed ARFF snippet is tested and writing is never tested.",
   ["arff.go", "featurematrix.go"], [("header and row parsing", "arff.go ParseARFF"), ("writing", "arff.go WriteArffCases")],
   observe=["the parsed matrix", "the text written"],
   technique="rapid generated tables; text rendering and write/read round trip against a table model",
   note="Attribute names without blanks and labels without newline; nominal declarations are written but values are taken from the data rows.")

P_("C03", "libsvm data are read and written faithfully",
   "Reading libsvm text yields the dense numerical table it denotes: listed entries have their value, unlisted entries are 0 and not missing, and the first column becomes a numerical target when it is written as a real number and a class label otherwise. Writing a data set in libsvm form and reading it back gives each case the same target (value, or class up to renaming) and the same imputed and binary-encoded feature values. Writing does not alter the data set that was written.",
   [I], "all sparse tables, targets, missing patterns and case selections",
   "One fixed snippet is parsed in the tests; padding for late-appearing columns, the last line and the writers' side effects are never exercised.",
   ["libsvm.go", "densecatfeature.go", "densenumfeature.go"], [("sparse parsing with padding", "libsvm.go ParseLibSVM"), ("encode and write", "libsvm.go WriteLibSvm/WriteLibSvmCases")],
   observe=["the parsed matrix", "the text written", "the source matrix after writing"],
   technique="rapid generated sparse tables; dense-table oracle, write/read round trip, source-unchanged invariant",
   note="Compared value by value with an independent dense expansion.")

P_("C04", "Saved forests read back as the same forest",
   "A forest written to an .sf file and read back has the same trees in the same order, with every node's split (feature, threshold or left categories), prediction and left, right and missing branches, and the same target, tree weights and intercept; so it routes every case of every data set to a leaf with the same prediction. This holds for feature names and labels containing commas, equals signs, spaces or other punctuation, for very large, small and negative numbers, and several forests written with their headers to one stream are read back one by one.",
   [I], "all tree shapes including missing branches, all split kinds, names, labels, weights, thresholds and intercepts",
   "The test round trips one fixed forest and compares the text; missing branches, weights, intercepts and odd names never appear in it.",
   ["forestwriter.go", "forestreader.go", "tree.go"],
   [("node per line writing", "forestwriter.go WriteForest/WriteNodeAndChildren"), ("key=value parsing and path insertion", "forestreader.go ReadForest/ReadTree/ParseRfAcePredictorLine, tree.go AddNode")],
   observe=["the forest read back", "votes of the original and re-read forest"],
   technique="rapid generated trees and forests; structural write/read round trip plus differential prediction",
   note="Labels contain no colon, double quote, newline or leading/trailing blank: the .sf format documented in doc.go cannot express them.")

P_("C05", "Applying a split partitions the cases exactly",
   "Splitting any list of cases yields a left, a right and a missing group that together are a rearrangement of the list: cases whose split feature is missing go to the missing group, the others go left exactly when their value is at most the threshold or their category is one of the left categories. All ways of applying the same split (in place partition, split points, decoded rule, decoded rule on other data with differently numbered or unseen categories) agree. Repeated cases and lists with any mix of values are handled alike.",
   [I], "all features, all splits (thresholds, category sets over any number of categories), all case lists with repeats",
   "Tests check a handful of fixed splits; the in place swapping must be right for every arrangement.",
   ["densenumfeature.go", "densecatfeature.go", "splitter.go", "node.go"],
   [("in place three way partition", "densenumfeature.go/densecatfeature.go Split, SplitPoints; splitter.go Split"), ("decoding", "DecodeSplit"), ("single case test", "GoesLeft")],
   observe=["left/right/missing groups"],
   technique="rapid generated features, splits and bags of cases; set-comprehension oracle and differential between the four routing paths",
   note="Oracle evaluates the rule per case.")

P_("C06", "The best numerical split is optimal and its gain is true",
   "For any numerical feature, target and bag of cases, the split search returns the threshold with the largest impurity decrease among all thresholds between unequal values (values no more than 1e-7 apart count as equal) that leave at least the leaf size on both sides, and reports exactly that decrease, counting cases with a missing value as a third group (for targets that score splits directly, the score scaled by the fraction of cases with a value). It reports no usable split when there is none, reports the feature as constant only when all its values are equal, and a returned threshold always separates the cases as claimed.",
   [I], "all numerical features with ties and missing values, all target kinds, leaf sizes and bags of cases",
   "Tests look at a few separable toy columns where many wrong searches also succeed.",
   ["densenumfeature.go", "sortablefeature.go", "sortby/sortby.go"],
   [("sort then incremental scan", "densenumfeature.go BestSplit/BestNumSplit"), ("incremental impurity", "UpdateSImpFromAllocs of each target")],
   observe=["returned split, decrease and constant flag"],
   technique="rapid generated columns and targets; brute force over all thresholds as reference model",
   note="The code treats differences up to 1e-7 as ties, so values in between (as in chains of nearly equal values) are only judged for validity; very large, very small, neighbouring and infinite values are drawn; decreases compared within 1e-9 relative; ties between equally good thresholds accepted.")

P_("C07", "The best categorical split is valid, real and (small arity) optimal",
   "For any categorical feature, target and bag of cases, the returned left set of categories splits the cases with at least the leaf size on each side and the reported impurity decrease is exactly the decrease of that split, counting missing cases as a third group (for targets that score splits directly, the score scaled by the fraction of cases with a value). For features with up to five categories (ten in random-search mode) no other division of the categories is better; for features with more categories, the result is at least as good as sending any single category left, and a greedily found set cannot be improved by sending one more category left, and a random search keeps the best of the divisions it tries.",
   [I], "all categorical features with 1 to many hundred categories, both search modes, all target kinds, leaf sizes and bags",
   "Tests look at two fixed columns.",
   ["densecatfeature.go"],
   [("exhaustive, iterative, big and binary searches", "densecatfeature.go BestSplit, BestCatSplit, BestCatSplitIter, BestCatSplitIterBig, BestCatSplitBig, BestBinSplit")],
   observe=["returned category set, decrease and constant flag"],
   technique="rapid generated columns and targets; brute force over category subsets and from-scratch gain as reference",
   note="Optimality for up to ten categories by enumeration; above that validity, gain equality and the single-category bound.")

P_("C08", "Split selection considers the candidates only and returns the best",
   "When every candidate feature is to be tried, the chosen feature and split have the largest impurity decrease among all candidates, and no split is chosen only if no candidate has a positive decrease. Only candidate features are ever chosen, whatever the number tried, vetting, forcing or extra-random mode; a forced search always tries at least one feature that is not constant over the cases, if there is one. Vetting takes off what the best split decreases for the target shuffled among the evaluated cases; with out-of-bag evaluation every candidate's in-bag split is judged by what it decreases for the out-of-bag cases and the best by that is returned. The search leaves the data, the target, the multiset of cases and the set of candidates unchanged.",
   [I, C], "all matrices, candidate lists, numbers tried, leaf sizes, targets and mode flags",
   "Tests try single fixed matrices with one obvious feature.",
   ["featurematrix.go"], [("sampling of candidates, constant tracking, vetting", "featurematrix.go BestSplitter")],
   observe=["chosen feature, split, decrease; candidates, cases and data afterwards"],
   technique="rapid generated matrices and flags; brute-force best over candidates as reference, unchanged-state invariant",
   note="With fewer tries than candidates only validity, reality of the gain and the forced-search guarantee are decided.")

P_("C09", "Each target's impurity and prediction match their definition",
   "For every target the impurity of a set of cases equals its documented definition: Gini for classes, sum of squared deviations for numbers, absolute deviation from the mean for L1, ordinal, entropy, class-weighted and cost-weighted Gini, cost of the best label for regret, weighted errors for boosting, Neyman-Pearson weighted error and squared Hellinger distance. The value predicted for a set of cases is the mean, the most frequent, the most heavily weighted or the least costly class accordingly, and for two-class gradient boosting the sum of the residuals over the sum of p(1-p), p being the label minus the residual. The impurity of a split is the size-weighted average of the impurities of its groups (or the documented split criterion), is unchanged by the order of cases, and is zero for pure groups (Neyman-Pearson, transduction and direct split criteria apart).",
   [I, C], "all target kinds, weight and cost tables, label distributions and bags of cases",
   "Tests only check that accuracy on one data set is tolerable with each target.",
   ["entropytarget.go", "l1target.go", "ordinaltarget.go", "wrftarget.go", "regrettarget.go", "dentropytarget.go", "adacosttarget.go", "adaboosttarget.go", "NPtarget.go", "hdistancetarget.go", "densecatfeature.go", "densenumfeature.go"],
   [("per target impurity", "Impurity/ImpFromCounts/SplitImpurity of each target"), ("leaf prediction", "FindPredicted of each target")],
   observe=["impurity and prediction values"],
   technique="rapid generated labels, weights and costs; independent reference formulas",
   note="Tolerance 1e-9 relative; ties between equally good labels accepted.")

P_("C10", "Incremental split evaluation equals evaluation from scratch",
   "While a numerical feature is scanned, cases move one group at a time from the right to the left side and the impurity is updated incrementally; after any sequence of such moves the updated value equals the impurity of the resulting split computed from scratch, for every target. Reusing the same scratch space for another feature, node or tree never changes a result.",
   [H, I], "all sequences of moves of any group sizes, all targets, all reuse histories of the scratch space",
   "No test compares the two; an error shows only as slightly worse trees.",
   ["densenumfeature.go", "densecatfeature.go", "entropytarget.go", "splitallocations.go", "wrftarget.go", "regrettarget.go", "ordinaltarget.go", "l1target.go"],
   [("incremental update", "UpdateSImpFromAllocs of each target"), ("shared scratch", "splitallocations.go")],
   observe=["impurity after each move"], state=[("running sums and class counts", "left/right summaries carried between moves", "splitallocations.go")],
   technique="rapid generated move histories over reused allocations; differential against from-scratch evaluation",
   note="Relative tolerance 1e-7 (floating-point sums accumulate).")

P_("C11", "Grown trees respect their settings and describe their training cases",
   "Every tree grown on any data, with any settings, splits only on candidate features, never exceeds the maximum depth, and every split leaves at least the leaf size on the left and right side with a positive impurity decrease. The training cases reaching each leaf are exactly those the splits on the path select, and the leaf predicts what the target predicts for them; growing into a previously used tree gives the same kind of tree, and a decision jungle, whose branches may be shared, obeys all of this as well. The data and the target are unchanged by growing (boosting apart).",
   [I, C], "all data sets, targets, bags of cases, candidate lists, leaf sizes, depths and flags",
   "Tests only check that forests on two data sets reach a given accuracy.",
   ["tree.go", "node.go", "featurematrix.go"], [("recursive growth", "tree.go Grow, node.go CodedRecurse"), ("stopping rules", "tree.go Grow")],
   observe=["the grown tree, re-routed training cases"],
   technique="rapid generated data and settings; independent router and invariants on the grown tree",
   note="Also covers trees grown into reused tree objects, as the growforest command does.")

P_("C12", "Predictions follow the trees and combine votes as documented",
   "A tree votes for each case the prediction of the leaf its splits lead to, once, with the tree's weight; a case whose split value is missing (as for every case when the data lack that feature) follows the missing branch if there is one and otherwise gets no vote from that tree. Categorical votes are tallied to the label with the largest total weight, numerical ones to the weighted mean, boosted ones to the sum, and a case without categorical or mean votes is reported as missing (its sum is zero). Freshly grown and re-read trees vote alike, also on data whose categories are numbered differently or unseen.",
   [I], "all trees, weights, data sets with missing values and new categories, and vote histories",
   "Tests check accuracy after whole training runs only.",
   ["tree.go", "node.go", "splitter.go", "catballotbox.go", "numballotbox.go", "sumballotbox.go", "utils.go"],
   [("routing", "node.go Recurse, splitter.go Split"), ("tallying", "catballotbox.go, numballotbox.go, sumballotbox.go")],
   observe=["tallies per case"],
   technique="rapid generated trees, data and votes; independent router and vote model",
   note="Ties between labels accept any of the tied labels.")

P_("C13", "Reported errors and scores equal their definitions",
   "The error reported for classification votes is the balanced error rate, one minus the mean over classes of the fraction of correctly predicted cases; for numerical votes the reported figures are the mean squared error, the fraction of unexplained variance and the coefficient of determination. Cases whose true value is missing and cases that received no vote do not count as numerical errors, and missing true values never count for classification.",
   [I], "all vote histories, label distributions (including classes without cases) and missing patterns",
   "Tests compare the score with a loose accuracy threshold.",
   ["catballotbox.go", "numballotbox.go"], [("balanced error", "catballotbox.go TallyError"), ("squared error, R2", "numballotbox.go")],
   observe=["returned error values"],
   technique="rapid generated votes and truths; direct formula as oracle",
   note="At least one countable case and, for R2, non-zero variance (documented fatal otherwise).")

P_("C14", "Gradient boosting predictions add up",
   "After any number of boosting rounds, for every case with a known target the original value equals the intercept plus the learning-rate-weighted sum of the leaf predictions that case received plus the remaining residual. For two-class gradient boosting the working target of each case equals its 0/1 label minus the logistic transform of its accumulated score. Missing target values stay missing and never influence the trees. A boosted forest written by the growing tool obeys this: its intercept, its tree weights and every leaf (the mean residual, or for two classes the Newton step, of the cases that trained it) follow from the trees before.",
   [H, I], "all data sets, learning rates, tree settings and numbers of rounds",
   "Tests only check final accuracy.",
   ["gradboosttarget.go", "gradboostclasstarget.go", "forrest.go", "growforest/growforest.go", "sumballotbox.go", "utils.go"],
   [("residual update", "gradboosttarget.go Boost/Update, gradboostclasstarget.go"), ("intercept and weights", "Intercept, forrest.go GrowRandomForest")],
   observe=["target values between rounds", "forest intercept, tree weights, summed votes", "the .sf file written by growforest -gbt"], tools=["growforest"],
   technique="rapid generated boosting histories; conservation invariant against an independent model",
   note="Relative tolerance 1e-6.")

P_("C15", "Adaptive boosting keeps a proper case weighting",
   "Through any number of boosting rounds the case weights of the adaptive boosting targets stay non-negative and finite and sum to one over the cases, and each round multiplies the weights of the cases the tree got wrong (not in the majority class of their leaf, the first category among equally frequent ones as in predictions, or for numerical targets by how far they are from it) relative to those it got right as the algorithm prescribes. The tree weight returned is the log-odds of one minus the weighted error, and stays finite and usable even when a tree makes no errors. The trees and tree weights an adaptively boosted forest is written with by the growing tool are those of such rounds.",
   [H, I], "all data sets, tree partitions and numbers of rounds",
   "Tests check final accuracy on one data set.",
   ["adaboosttarget.go", "adacosttarget.go", "numadaboostingtarget.go", "forrest.go", "growforest/growforest.go"],
   [("weight update and normalisation", "adaboosttarget.go Boost, adacosttarget.go Boost, numadaboostingtarget.go Boost")],
   observe=["case weights and tree weights after each round", "the .sf file written by growforest -adaboost"], tools=["growforest"], state=[("case weights", "distribution over cases", "adaboosttarget.go Weights")],
   technique="rapid generated rounds of partitions and predictions; reference model of the weight update",
   note="Relative tolerance 1e-9 per round.")

P_("C16", "Importance figures account for every split exactly once",
   "A feature's importance is the mean impurity decrease over exactly the splits that used it, its count is the number of those splits, its minimal depth per tree is the depth of its shallowest split (0 for the root) and features never used report none; the importance file of the command line tool reports the same figures per feature over all trees. A running mean equals the weighted mean of everything added to it, in any order.",
   [I, H], "all data sets, forests, settings and addition histories",
   "The importance test checks two toy forests for the order of two features.",
   ["tree.go", "utils.go", "growforest/growforest.go"],
   [("accumulation while growing", "tree.go Grow"), ("running mean", "utils.go RunningMean"), ("report columns", "growforest/growforest.go")],
   observe=["importance means, counts and minimal depths", "the importance file"], tools=["growforest"],
   technique="rapid generated forests; recomputation of every split's gain from the grown trees as oracle",
   note="Library level recomputation plus end-to-end comparison of the importance file with the saved forest.")

P_("C17", "A feature column behaves like a list of optional values",
   "Through any sequence of appends, assignments, missing-markings, copies, copy-backs, shuffles and imputations a column answers every question (value, label, missing or not, length, number of categories) as a plain list of optional values would, and never denies having missing values while it has some. Copies are independent: changing one never changes the other, and a copy answers exactly as the original. Category labels and category numbers correspond one to one at all times.",
   [H, I], "all operation histories over numerical and categorical columns and their copies",
   "Tests call each method once or twice in a fixed order.",
   ["densenumfeature.go", "densecatfeature.go", "catmap.go"],
   [("value store", "Append/Put/PutStr/PutMissing/Puti/Copy/CopyInTo of both column kinds"), ("label numbering", "catmap.go")],
   observe=["answers of the accessors after every step"], state=[("values, missing flags, any-missing flag, label map", "the column", "densenumfeature.go, densecatfeature.go")],
   technique="rapid state machine against a list-of-optionals model",
   note="Stateful model-based test with several live copies.")

P_("C18", "Shuffles and contrasts only permute",
   "Shuffling a column, shuffling it over some cases, and making shuffled artificial contrasts rearrange its values and missing marks together: the multiset of values is unchanged, cases outside the shuffled set keep their value, and the original of a contrast is untouched. Adding contrasts appends the requested number of columns, or one per column, named after an existing column with a SHUFFLED suffix and found by that name. Every arrangement can come up, and every column as the source of a contrast.",
   [I, H], "all columns, case subsets and numbers of contrasts",
   "No test looks at a shuffled column.",
   ["densenumfeature.go", "densecatfeature.go", "featurematrix.go"],
   [("swap loops", "Shuffle/ShuffleCases/ShuffledCopy"), ("contrast columns", "featurematrix.go AddContrasts/ContrastAll")],
   observe=["column contents before and after"],
   technique="rapid generated columns; multiset invariant, plus reachability of all arrangements of small columns",
   note="Reachability of arrangements is decided on 3 to 4 element columns with pinned seeds.")

P_("C19", "Imputation fills exactly the missing cells with mean or mode",
   "Imputing replaces every missing cell of a numerical feature by the mean of its known values and of a categorical feature by a most frequent known category, leaves every known cell alone, and afterwards no feature reports missing values; a feature without any known value stays as it is. Imputing twice changes nothing more.",
   [I], "all matrices, all missing patterns",
   "One test checks accuracy after imputation only.",
   ["densenumfeature.go", "densecatfeature.go", "featurematrix.go"], [("imputation", "ImputeMissing")],
   observe=["column contents after imputing"],
   technique="rapid generated matrices; reference imputation and idempotence",
   note="Columns with at least one known value.")

P_("C20", "Sampling draws what it promises",
   "Sampling with replacement yields the requested number of indexes, each in range; drawing the first n of a deck rearranges the deck without losing entries and gives n distinct entries; a balanced sampler yields only cases with a known label, every class that has cases equally often in the long run; a sampler balanced within a second feature draws only cases known in both, preserves the second feature's rate and balances the target inside it. Classes or combinations without cases are never a reason to fail, and every eligible case can be drawn.",
   [I, C], "all label distributions including empty classes and missing labels, all sample sizes",
   "Tests draw a few thousand samples from one fixed distribution.",
   ["sampeling.go"], [("samplers", "sampeling.go")],
   observe=["the drawn indexes"],
   technique="rapid generated label tables; support, range and count oracles with wide statistical bands under pinned seeds",
   note="Long-run rates are tested with bands of more than eight standard deviations, so a false alarm is practically impossible.")

P_("C21", "Encodings of categorical features preserve the information",
   "Encoding a feature matrix numerically or one-hot keeps numerical features as they are and turns each categorical feature into columns that are 1 (or true) exactly for the cases in that category, named after the feature and the category, with the same cases missing; two-category features stay a single column that still distinguishes them and no feature is dropped. Stripping strings renames features, cases and categories consistently without changing any value's identity. Encoded columns are independent of the originals.",
   [I], "all matrices, category counts and missing patterns",
   "Only used indirectly in one test.",
   ["densecatfeature.go", "featurematrix.go"], [("encoding", "EncodeToNum/OneHot of features and matrices"), ("renaming", "featurematrix.go StripStrings")],
   observe=["encoded matrix", "original matrix after changing the encoding"],
   technique="rapid generated matrices; per-cell reference encoding, independence check",
   note="")

P_("C22", "Sorting orders values and carries the case indexes along",
   "Sorting case indexes by value leaves values in non-decreasing order, each still paired with its own case, and loses or duplicates none, for any length and any arrangement including ties and already sorted, reversed or adversarial inputs.",
   [I], "all lengths and arrangements",
   "Tests sort a few small and random slices.",
   ["sortby/sortby.go", "sortablefeature.go"], [("introsort with heap sort and insertion sort", "sortby/sortby.go"), ("loading", "sortablefeature.go Load/Sort")],
   observe=["sorted pairs"],
   technique="rapid generated and adversarial arrays; order and pairing-multiset oracle",
   note="No NaN.")

P_("C23", "Welch's t-test and moments are numerically right",
   "The mean and variance of any sample equal the sample mean and unbiased sample variance, and the t-test returns Welch's t statistic, the Welch-Satterthwaite degrees of freedom, the mean of the first sample and the matching p-value. Swapping the samples flips the sign of t only, shifting both changes nothing, and scaling both leaves t and p alone; the p-value lies between 0 and 1.",
   [I], "all pairs of samples with at least two values and non-zero variance",
   "The test compares three fixed pairs with R.",
   ["stats/stats.go"], [("t-test", "stats/stats.go Ttest, MeanAndVar")],
   observe=["returned p, t, df, mean"],
   technique="rapid generated samples; independent numeric reference (two-pass moments, integrated t density) and metamorphic relations",
   note="p compared within 1e-6 absolute.")

P_("C24", "Command line settings are honoured",
   "The forest written by the growing tool has exactly the requested number of trees whatever the number of cores or self-testing options, predicts the requested target, never uses the target itself or any blacklisted, blocked or non-included feature, and respects leaf size and depth; settings given as a fraction (with a decimal point) mean that fraction of the total rounded up and plain integers mean themselves. The number of candidate features per split, the number of samples per tree, no bagging, imputing beforehand, artificial contrasts and shuffled or permuted features take effect as asked. An unknown target, an unreadable file, costs that are not valid JSON, an unwritable output or an unknown balancing feature is reported as an error instead of being ignored; the other tools report unreadable and unwritable files too.",
   [C, I], "all option combinations and data sets",
   "The command line tools have no tests at all.",
   ["growforest/growforest.go", "utils.go"], [("option handling and worker loop", "growforest/growforest.go"), ("fraction parsing", "utils.go ParseAsIntOrFractionOfTotal")],
   observe=["the .sf file written"], tools=["growforest", "applyforest", "leafcount", "utils/nfold", "utils/toafm"],
   technique="rapid generated data files and command lines; parsed output checked against the settings",
   note="End to end through the built growforest binary in a scratch directory.")

P_("C25", "Growing and applying tools agree",
   "The predictions the applying tool writes for a data file are the combined votes of the saved trees, one line per case in order with the case label, the prediction and the true value where known, as an independent evaluation of the saved forest gives them. They do not depend on whether the data come as features in rows or columns, or on the order of features or category numbering; and the error the growing tool reports for training or test data (gradient boosting aside) is the error of those predictions.",
   [C, I], "all data sets, forests, vote-combining options and file formats",
   "The command line tools have no tests at all.",
   ["applyforest/applyforest.go", "growforest/growforest.go", "forestreader.go"],
   [("prediction output", "applyforest/applyforest.go"), ("self test", "growforest/growforest.go")],
   observe=["prediction file, vote files, printed errors"], tools=["growforest", "applyforest"],
   technique="rapid generated data and options; independent evaluator of the .sf file and metamorphic re-layout of the data",
   note="End to end through the built binaries.")

P_("C26", "Out-of-bag estimates never use training cases",
   "When out-of-bag predictions are requested, every tree votes only for cases that were not in the sample it was grown from, so with unbagged trees no case gets an out-of-bag vote and for bagged trees pure noise cannot be predicted better than chance. Cases with a missing target are never used for growing.",
   [I, C], "all data sets and sampling settings",
   "Never tested.",
   ["growforest/growforest.go", "sampeling.go"], [("in-bag marking and out-of-bag voting", "growforest/growforest.go")],
   observe=["out-of-bag error and prediction files"], tools=["growforest"],
   technique="rapid generated memorisable data where any leak shows as an impossible vote; end to end",
   note="Leaks are detected through data sets in which each case's label is only derivable from that case.")

P_("C27", "Leaf and branch counts match the forest",
   "The proximity the leaf counting tool writes for two cases is the number of trees in which they end in the same leaf, a case's proximity to itself the number of trees in which it reaches a leaf; the branch count of a case and feature is the number of splits on that feature the case passed, over all trees; and the splits listed per feature are exactly the splits of the forest on it. The leaves of a tree hold each case that reaches one exactly once, with the leaf's prediction. Cases dropped at a split without missing branch are in no leaf.",
   [I], "all forests and data sets with missing values",
   "The sparse counter is tested with one addition; the tool has no test.",
   ["leafcount/leafcount.go", "tree.go", "utils.go"], [("leaf enumeration", "tree.go GetLeaves"), ("counting", "utils.go SparseCounter, leafcount/leafcount.go")],
   observe=["the three output files"], tools=["leafcount", "growforest"],
   technique="rapid generated forests and data; independent router counting pairs and passes",
   note="")

P_("C28", "Cross-validation folds partition the data",
   "For any data set and number of folds every case (with a categorical target, every case whose class is known, unless unstratified folds are asked for) is in exactly one test file and in the training files of all other folds, train and test of a fold are disjoint and together complete, the cases of each class are spread over the test files as evenly as possible, and so are the cases as a whole. Every file holds the same features with the same values as the input for its cases, in every output format, and the source data are not altered between folds.",
   [I, C], "all data sets, fold counts, targets and output formats",
   "No test.",
   ["utils/nfold/main.go", "libsvm.go", "arff.go", "featurematrix.go"], [("stratified assignment", "utils/nfold/main.go"), ("writers", "WriteCases, WriteArffCases, WriteLibSvmCases")],
   observe=["train and test files"], tools=["utils/nfold"],
   technique="rapid generated data; set partition and per-cell oracle over the files written",
   note="")

P_("C29", "Converting to annotated feature matrix format loses nothing",
   "Converting any table to an annotated feature matrix keeps every column and every cell value in its row, writes a type prefix for every column that fits its values (numerical only when all known values are numbers), keeps missing values missing, and the result reads back as the same table.",
   [I, C], "all tables and conversion options",
   "No test.",
   ["utils/toafm/main.go", "featurematrix.go"], [("type inference and conversion", "utils/toafm/main.go")],
   observe=["the converted file"], tools=["utils/toafm"],
   technique="rapid generated tables; text oracle and read-back",
   note="")

P_("C30", "Exported scikit-learn trees have the same structure",
   "The exported tree lists each node once, parents before children, with its left and right child positions, the split feature and threshold of the original node, -1 children for leaves, and correct node count and maximum depth, so that routing a case through the exported arrays ends in the same leaf as routing it through the tree. The growing tool exports the trees of the forest it writes, in the same order.",
   [I], "all binary numerical trees",
   "No test.",
   ["sklearn_tree.go"], [("array construction", "sklearn_tree.go BuildScikitTree")],
   observe=["the exported arrays", "the file written by growforest -scikitforest"], tools=["growforest"],
   technique="rapid generated and grown trees; lockstep walk of both encodings",
   note="")

P_("C31", "Growing is reproducible for a fixed random seed",
   "Growing a forest twice from the same data, settings and random seed gives the same trees, importances and predictions, independent of what was computed before in the process. Running the growing tool twice on one core with -noseed gives the same forest, importances, out-of-bag predictions and printed report. Reading the same file twice gives identical matrices.",
   [I, H, C], "all data sets, settings and preceding work",
   "No test repeats a run.",
   ["tree.go", "featurematrix.go", "splitallocations.go", "forrest.go", "growforest/growforest.go"],
   [("seeded generator in the scratch space", "splitallocations.go"), ("deterministic search order", "featurematrix.go BestSplitter")],
   observe=["two grown forests"], tools=["growforest"],
   technique="rapid generated data and settings; run-twice differential",
   note="Single core; category order inside a written split is ignored.")

P_("C32", "Concurrent growing and voting lose nothing",
   "Running means, sparse counters and ballot boxes shared by several workers end with exactly the totals of all their contributions, without data races or crashes, in any interleaving. A forest grown on several cores is a valid forest of the requested size whose out-of-bag votes and importances account for every tree.",
   [S, C], "all interleavings of concurrent contributions; all core counts",
   "Tests are single threaded.",
   ["utils.go", "catballotbox.go", "numballotbox.go", "sumballotbox.go", "growforest/growforest.go"],
   [("mutex per accumulator", "utils.go RunningMean/SparseCounter, ballot boxes"), ("worker loop", "growforest/growforest.go")],
   observe=["totals after concurrent work", "race detector reports"], tools=["growforest"], race=True,
   technique="rapid generated concurrent workloads under the race detector; exact-total oracle",
   note="Interleavings are sampled by the Go scheduler, not enumerated; the race detector generalises over unsynchronised pairs it observes.")

P_("C33", "Training does not depend on irrelevant presentation",
   "Growing with all features tried gives trees that make the same predictions when categories are relabelled, when a numerical feature is scaled or shifted consistently in training and testing data (for the training cases, also when it is transformed monotonically), when irrelevant constant features are added, and when case labels or feature names change. Shifting or scaling a numerical target shifts or scales the predictions, as long as the decreases of the splits stay above 1e-7 (smaller ones count as none).",
   [I], "all data sets and presentations",
   "No metamorphic test exists.",
   ["tree.go", "featurematrix.go", "densenumfeature.go", "densecatfeature.go"],
   [("order based numerical splits, label blind categorical splits", "BestNumSplit, BestCatSplit")],
   observe=["predictions of two related runs"],
   technique="rapid generated data; metamorphic pairs of training runs",
   note="Exact power-of-two transforms so floating point does not blur the relation.")

P_("C34", "Unsupervised targets measure span and transduction as defined",
   "The density of a set of cases is their number (as a fraction of all cases) over the product of the spans of all features over those cases, where the span of a numerical feature is the difference of its largest and smallest known value and of a categorical one the number of its distinct known categories. The unsupervised and transduction targets evaluate splits from these quantities and from the known labels only, never altering the data. Density trees written by the growing tool predict for each leaf the density of the cases that trained it.",
   [I], "all matrices and case sets",
   "Only exercised in a smoke test.",
   ["densitytarget.go", "transduction.go", "densenumfeature.go", "densecatfeature.go", "growforest/growforest.go"],
   [("span", "Span of both column kinds"), ("density", "densitytarget.go"), ("transduction", "transduction.go")],
   observe=["impurity and span values", "the .sf file written by growforest -density"], tools=["growforest"],
   technique="rapid generated matrices; reference formulas",
   note="")

P_("C35", "Artificial-contrast feature selection reports what it computed",
   "With artificial contrasts the report has one line per real feature in data order with the target, the feature's name, the p-value (Welch's t-test, over the forests grown) of its importance per forest exceeding that of its own shuffled copy, and its mean importance; shuffled copies are shuffled anew for each forest and never reported. With a cutoff one more forest is grown and it alone is written: it uses only features whose p-value is below the cutoff and whose importance is positive, with the number of candidates per split derived from their number.",
   [C, I], "all data sets, numbers of repetitions and cutoffs",
   "No test.",
   ["growforest/growforest.go", "stats/stats.go"], [("contrast loop and cutoff", "growforest/growforest.go")],
   observe=["importance report, final forest"], tools=["growforest"],
   technique="rapid generated data and options; report recomputed from the forests written round by round with an independent t-test, final forest judged against the features that pass",
   note="The exact recomputation uses small numerical targets in which every set of cases has its own mean; p-values are only judged when the importances vary.")


P_("C36", "Incomplete reading and writing is reported",
   "Nothing is lost silently. A table file that cannot be read to its end or whose rows do not fit together (a row with more or fewer columns than the others, quotes that do not match, an ARFF header without a data section or an attribute without a type, a libsvm entry that is not a positive feature number and a value, a damaged archive, an empty file) makes LoadAFM return an error. A forest that cannot be read to its end, that has a malformed number, or a tree with nodes missing makes the forest reader return an error; the complete trees before a cut are read as they were. Whatever the bytes, reading ends without a crash in an error or in a table with one value per case for every feature, or a forest whose trees can be applied. Writing a table or forest to a destination that fails is reported by the writer unless everything was written. The command line tools exit with an error in all of these cases, and when any other of their output files cannot be written.",
   [I, "faults"], "all tables, forests and damages, all points at which reading or writing can fail",
   "No test injects a fault or reads damaged input.",
   ["featurematrix.go", "arff.go", "libsvm.go", "forestreader.go", "forestwriter.go", "tree.go", "growforest/growforest.go", "applyforest/applyforest.go", "leafcount/leafcount.go", "utils/nfold/main.go", "utils/toafm/main.go"],
   [("row by row reading", "featurematrix.go LoadAFM/parseAFM/loadCases, arff.go, libsvm.go"), ("completeness of trees", "forestreader.go ReadTree, tree.go AddNode"), ("write errors", "WriteCases, WriteArffCases, WriteLibSvm, ForestWriter.Err and the tools")],
   observe=["returned errors", "exit status and messages of the tools"], tools=["growforest", "applyforest", "leafcount", "utils/nfold", "utils/toafm"],
   technique="rapid generated tables and forests with injected faults (failing readers and writers, cut and mutated text, full disk); shape invariants of what is read and did-everything-fit as oracle",
   note="A cut between two rows of a table with features in columns, or one that removes only a missing branch or shortens the last prediction, leaves a valid file and cannot be seen; a full disk is played by /dev/full.")
