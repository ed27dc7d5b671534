"""Source of properties.jsonl and MANIFEST.json: run to rewrite both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "causal_effect_bandits/"
DATA, SCM, ARMS = C + "data.py", C + "scm.py", C + "arms.py"
BANDITS, PARAMS = C + "bandits.py", C + "parameters.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, note=""):
  P.append(dict(id=id, title=title, statement=statement, over=over.split(),
                text=text, why=why, files=files,
                mech=[dict(zip(("name", "where"), m)) for m in mech],
                note=note))


# -- data -----------------------------------------------------------------
prop("D01", "Splitting a data set loses, repeats and mixes nothing",
     "Splitting a data set into k folds, or into two by random subsampling, "
     "puts every unit in exactly one part with its covariates, treatment and "
     "response still together, and leaves the source data set as it was. The k "
     "folds differ in size by at most one unit, a subsampling probability of 0 "
     "or 1 puts everything on one side, and k <= 0 or a probability outside "
     "[0,1] is rejected with ValueError.",
     "inputs", "every data set within the sizes (covariate, treatment and "
     "response values symbolic, present or absent), every random draw",
     "The tests split a few fixed random data sets; alignment after a shuffle "
     "and ragged sizes depend on the data and on the draw.",
     [DATA], [("random permutation and array_split", DATA + " ExpData.k_fold"),
              ("Bernoulli mask", DATA + " ExpData.subsample")])
prop("D02", "Appending and slicing keep the units of a data set intact",
     "Appending a data set adds its units after the existing ones, in order, "
     "each with its own covariates, treatment and response, updates the unit "
     "count and leaves the appended data set unchanged; data lacking a field "
     "the target has, or of another dimension, is rejected with ValueError and "
     "the target is left exactly as it was. Slices, masks and positions select the "
     "same units in every field.",
     "inputs histories", "every pair of data sets within the sizes, with each "
     "combination of present and absent fields; every slice and every mask",
     "The tests append two complete data sets; the rejected combinations and "
     "what they leave behind are not exercised.",
     [DATA], [("checks before any field is extended", DATA + " ExpData.append"),
              ("aligned indexing", DATA + " ExpData.__getitem__")])
prop("D03", "A covariate selector keeps exactly the chosen covariates",
     "Each stock covariate selector - keep everything, drop one covariate, or "
     "keep a given list of covariates - returns exactly those columns, in the "
     "order given, for every unit, together with the unit's own treatment and "
     "response, and leaves the source data set unchanged.",
     "inputs configurations", "every data set within the sizes and every "
     "selection of up to 3 covariates (4 thorough)",
     "The tests select from one data set with one mask.",
     [DATA], [("column mask", DATA + " get_identity_fn, get_remove_coordinates_fn, get_coordinate_mask_fn")])
prop("D04", "Generated data follows the declared linear model exactly",
     "The linear generator returns n units whose treatment is one Bernoulli "
     "draw per unit with probability 1/(1+exp(-gamma.z)), and whose response is "
     "beta.z + tau*treatment + noise, where the n noise values come from a "
     "single call of the noise model. It exposes the parameters it uses, a "
     "gamma of another dimension or noise of the wrong shape is rejected with "
     "ValueError, and every generator returns n units with aligned fields.",
     "inputs configurations", "all parameters, covariates and draws symbolic, "
     "n <= 3 units (4 thorough), d <= 2 features (3), noise of every shape in a "
     "small set",
     "Tests only look at shapes and at averages of one sample.",
     [DATA], [("linear response", DATA + " LinearDataGenerator.generate")])

prop("T01", "Tabular probabilities form a floored distribution per condition",
     "For every observed value x, the fitted table's probabilities over the "
     "observed z values sum to one and none is below 1/(K*min_ratio_to_uniform), "
     "where K is the number of distinct z values. When every empirical "
     "frequency is at or above that floor, the probabilities are exactly the "
     "empirical frequencies; otherwise more frequent z values never get less "
     "probability than rarer ones.",
     "inputs", "every data set of up to 4 observations (6 thorough), binary x, "
     "real z of dimension <= 2 (all coincidence patterns), every ratio >= 1",
     "The tests fit one table of frequencies that needs no flooring.",
     [DATA], [("floor and renormalisation", DATA + " TabularCPD.fit")])
prop("T02", "A tabular fit depends only on the data it was given",
     "A refit forgets everything about earlier data; the order of the "
     "observations, whether x is encoded as integers or floats, batched or "
     "single queries, and asking about unseen values (which have probability "
     "zero) never change a probability, or what the table prints. "
     "The reported support is exactly the set of distinct "
     "observed values, and inputs of different length are rejected with "
     "ValueError.",
     "inputs histories", "two successive fits of up to 2 (3 thorough) arbitrary "
     "observations, every reordering of up to 3 (4), any queried value",
     "The tests fit once and query once.",
     [DATA], [("index of the support", DATA + " TabularCPD.fit, predict")])

# -- structural causal models ----------------------------------------------
prop("S01", "A causal model samples ancestrally and reports the named columns",
     "Generating from a structural causal model runs every variable's mechanism "
     "exactly once, after its parents, on the parents' values of the same "
     "sample in the declared order, and returns the covariates in the declared "
     "order with the declared treatment and response. A declared order that is "
     "not topological, and a missing variable, are rejected with ValueError.",
     "inputs configurations", "every graph over up to 4 variables (5 thorough), "
     "every parent order reversed or not, every covariate list, all mechanism "
     "outputs symbolic",
     "The tests sample a handful of fixed graphs.",
     [SCM], [("sampling loop", SCM + " SCM._generate_sample, generate")])
prop("S02", "The treatment effect is the contrast of two interventions",
     "The computed treatment effect is the mean response under do(treatment=1) "
     "minus the mean under do(treatment=0), each over n samples in which the "
     "treatment's own mechanism is not consulted and every other mechanism is "
     "unaltered. Afterwards, also when a mechanism fails, the model samples "
     "observationally exactly as before.",
     "inputs fault_sequences", "all mechanism outputs symbolic, with and without "
     "a mediator, n <= 2 (4 thorough), a failure at either intervention",
     "Tests compare one Monte-Carlo estimate with the truth within a tolerance "
     "and never make a mechanism fail.",
     [SCM], [("temporary do-mechanism", SCM + " SCM.compute_treatment_effect")])
prop("S03", "Each stock mechanism computes its declared conditional law",
     "The linear, transformed, structural-equation and noise mechanisms return "
     "their deterministic part plus one Gaussian draw per unit with the given "
     "mean and variance; the logistic ones return one Bernoulli draw per unit "
     "with the logistic probability; categorical conditioning uses, for each "
     "unit, the distribution selected by the selector on that unit's other "
     "parents. No mechanism changes the parent samples, and mismatched sizes or "
     "positions are rejected with ValueError.",
     "inputs configurations", "all parents, coefficients, means, variances and "
     "draws symbolic; up to 2 units and 3 parents of dimension <= 2",
     "Tests check shapes or one fixed random seed.",
     [SCM], [("mechanisms", SCM + " normal_cpd, transformed_normal_cpd, "
              "structural_equation_with_noise, logistic_*_cpd, "
              "categorical_conditioning")])

# -- bandits ------------------------------------------------------------------
HOW = ("every interval, estimate (infinite ones included), error probability, "
       "tolerance and sample limit symbolic; 2 arms for 3 rounds, 3 arms for 2 "
       "(5 and 3 thorough), and one such round after 5 and after 40 given ones")
prop("B01", "The error probability is shared equally and never exceeded",
     "Every arm update of every algorithm is given exactly error_prob divided "
     "by the number of arms, so that over all arms the error probabilities in "
     "force never exceed error_prob. This holds in every round, for arms "
     "sampled or eliminated, with fresh or stable data.",
     "inputs histories", HOW,
     "Tests run to completion on one data set and never look at the share.",
     [BANDITS], [("equal split", BANDITS + " _sample")])
prop("B02", "Uniform sampling and LUCB stop exactly when an arm is settled",
     "When either algorithm ends before its sample limit it returns one arm "
     "that has the lowest cost-scaled estimate and whose cost-scaled upper "
     "bound is at most every other arm's lower bound plus error_tol. It does "
     "not go on after a round in which the unique lowest arm satisfied this "
     "strictly (LUCB's shared first round excepted).",
     "inputs histories", HOW + "; cost factors 1 to 3",
     "A handful of seeds never covers ties, infinite bounds or tolerances.",
     [BANDITS], [("stopping rule", BANDITS + " _check_fixed_conf_end_condition")])
prop("B03", "Successive elimination drops only beaten arms, and for good",
     "An arm leaves the race only in a round in which some arm still in it has "
     "a cost-scaled upper bound at or below the leaver's lower bound, and it "
     "must leave when the arm with the lowest estimate beats it strictly; it is "
     "never sampled again and never returned. Every arm still in the race is "
     "sampled each round, the race never becomes empty, and it ends as soon as "
     "one arm is left.",
     "inputs histories", HOW + "; cost factors 2 and 3",
     "Tests see one elimination order; zero-width intervals and ties do not "
     "occur in them.",
     [BANDITS], [("elimination", BANDITS + " SuccessiveEliminationAlgorithm")])
prop("B04", "LUCB samples the leader and its strongest challenger",
     "Each LUCB selection returns two different arms: the one with the lowest "
     "cost-scaled estimate (the widest upper bound among ties), and, among the "
     "others, one with the lowest cost-scaled lower bound. Two different arms are "
     "returned also while estimates are undefined or infinite. Selecting changes "
     "no arm.",
     "inputs", "up to 4 arms (5 thorough) with any intervals and estimates, "
     "infinite ones included, cost factors",
     "Tests use a few fixed intervals without ties or infinities.",
     [BANDITS], [("selection", BANDITS + " LUCBAlgorithm.select_arms")])
prop("B05", "The run report matches what was sampled and computed",
     "For every arm and round the report's sample counts are the units given "
     "to the arm in that round, the bounds and estimates are the arm's own "
     "after that round times its cost, all series have one entry per round, and "
     "the cumulative count is the number of units given to all arms so far. "
     "Every batch is freshly generated, of exactly units_per_round units, and "
     "no unit is given to the same arm twice.",
     "inputs histories", HOW,
     "Tests never compare the report with the updates it describes.",
     [BANDITS], [("logging", BANDITS + " BanditAlgorithm.run, BanditData")])
prop("B06", "The sample limit is respected and an answer always given",
     "No round starts once the units used exceed the sample limit, a run that "
     "ends within the limit returns exactly one arm, and one that passes it "
     "returns at least one of the bandit's arms. A limit of None means no "
     "limit.",
     "inputs histories", HOW,
     "Tests set a single limit, far away or immediate.",
     [BANDITS], [("limit", BANDITS + " _check_sample_limit / end condition")])
prop("B07", "On a fixed data set every arm sees the same prefix in order",
     "When run on a given data set instead of a generator, each arm receives "
     "the first units of it, in order, without gaps or repeats, whatever the "
     "schedule of the other arms, and the generator is never consulted; when "
     "the data runs out the arms have still seen a prefix.",
     "inputs schedules histories", HOW + "; data sets of 3 and 5 units that run "
     "out",
     "Tests run one schedule per algorithm.",
     [BANDITS], [("per-arm position", BANDITS + " BanditAlgorithm.run")])
prop("B08", "At the sample limit the lowest remaining estimates win",
     "When the limit ends a run, every returned arm has a lowest cost-scaled "
     "estimate: among all arms for uniform sampling and LUCB, which return all "
     "ties, and for successive elimination among the arms still in the race "
     "that were not eliminated in that round. No eliminated arm and no arm "
     "twice is returned.",
     "inputs histories", HOW + "; cost factors 2 and 3",
     "Tests never tie and never eliminate in the final round.",
     [BANDITS], [("fixed budget answer", BANDITS + " best arm selection")])
prop("B09", "A reset bandit repeats the same run on the same data",
     "Resetting a bandit resets each of its arms once, and a subsequent run on "
     "the same data with the same arm behaviour gives the same allocations, the "
     "same updates and the same best arms as the first.",
     "inputs histories", "2 arms, up to 4 rounds, all intervals symbolic, each "
     "algorithm",
     "No test reruns a bandit.",
     [BANDITS], [("reset", BANDITS + " BanditAlgorithm.reset and subclasses")])
prop("B10", "Invalid bandit settings are rejected, valid ones accepted",
     "A bandit accepts exactly the settings with error_prob in (0,1), error_tol "
     ">= 0, and either a confidence in (0,1) or a finite sample limit; anything "
     "else raises ValueError.",
     "configurations", "any error_prob, error_tol and confidence; limit None, "
     "infinite or finite; each algorithm",
     "Tests try a few bad values.",
     [BANDITS], [("validation", BANDITS + " BanditAlgorithm.__init__")])
prop("B11", "If the intervals hold, the answer is right",
     "Whenever every arm's interval contains its true value in every round, a "
     "run that ends within its limit returns an arm whose true value is lowest "
     "up to error_tol (exactly lowest for successive elimination), and a truly "
     "lowest arm is never eliminated unless an equally good one remains.",
     "inputs histories", HOW + "; all true values symbolic",
     "It quantifies over all histories of valid intervals; the tests see one.",
     [BANDITS], [("stopping and elimination rules", BANDITS)])

# -- arms ----------------------------------------------------------------------
prop("A01", "No unit is scored by a model that was fit to it",
     "With sample splitting, at every update the nuisance model is fit to one "
     "fold and exactly the units of the other fold are scored, each once; the "
     "folds are disjoint, together hold all units received so far and differ in "
     "size by at most one per batch. In stable mode a unit never changes fold. A "
     "model of an earlier fold is not used to score units it was fit to, also "
     "when a new fold or a bootstrap sample is too small to fit.",
     "inputs schedules", "every random split of up to 3 batches of up to 4 "
     "units, stable or resplit, plain and bootstrap arms",
     "A test sees one random split; leakage between folds shows up as a "
     "statistical bias only.",
     [ARMS], [("fold bookkeeping", ARMS + " SampleSplittingArm.update")])
prop("A02", "Every interval is a real interval around the estimate",
     "Each update of a variance-estimating arm returns, and keeps, an interval "
     "with 0 <= lower <= estimate <= upper and no undefined bound, for the CLT "
     "and every finite-sample rule; before the burn-in is over it is (0, "
     "infinity), and so is a chi-squared interval from a single score. "
     "Chi-squared intervals are claimed for delta below 0.6.",
     "inputs histories", "all scores and deltas symbolic, up to 6 units over up "
     "to 3 updates",
     "A test samples one delta and one data set.",
     [ARMS], [("interval rules", ARMS + " SampleSplittingArm and its interval "
               "functions")])
prop("A03", "A smaller error probability never narrows an interval",
     "For the same data and the same random draws, updates with a smaller "
     "delta give the same estimate and an interval that contains the one given "
     "by a larger delta, provided the nuisance width behaves likewise. The nuisance width is asked for at a strictly smaller, "
     "positive error probability than the arm's own.",
     "inputs", "any two deltas, all scores symbolic, 4 units (5 thorough) over "
     "up to 2 updates, each interval rule",
     "Needs two runs that differ in delta only.",
     [ARMS], [("interval rules", ARMS + " SampleSplittingArm")])
prop("A04", "Effect and variance are the plain moments of the held-out scores",
     "After each update an arm's effect is the mean, and its variance estimate "
     "the (population) variance, of the scores of all held-out units, under the "
     "model of that update. Before any data both are None.",
     "inputs histories", "all scores symbolic, up to 6 units (8 thorough) over "
     "up to 3 updates, each interval rule",
     "Tests compare with one sample within a tolerance.",
     [ARMS], [("moments", ARMS + " SampleSplittingArm.update")])
prop("A05", "An arm keeps all the data it was ever given",
     "An arm's unit count is the number of units received so far, its pull "
     "count the number of updates, and the union of what it fits and scores is "
     "all of those units; the caller's batches are not changed. This holds in "
     "stable and resplit mode and with bootstrapping.",
     "inputs histories", "every split of up to 3 batches of up to 3 units (7 "
     "thorough), plain and bootstrap arms",
     "Tests give an arm one batch.",
     [ARMS], [("accumulation", ARMS + " SampleSplittingArm._append_data")])
prop("A06", "Too little data or a bad delta never yields an estimate",
     "Until the nuisance model has enough data and some unit is held out, an "
     "update returns the interval (0, infinity), an infinite variance estimate "
     "and an undefined effect, and scores nothing. A delta outside (0,1) is rejected with ValueError and "
     "leaves estimates, interval and data as they were; a finite-sample rule with "
     "a non-positive scale or variance bound, or a burn-in of at most one, is "
     "rejected with ValueError too.",
     "inputs fault_sequences", "any delta, fresh or used arms, up to 3 updates, "
     "plain and bootstrap arms",
     "Tests try a model that is always ready and valid deltas.",
     [ARMS], [("guards", ARMS + " SampleSplittingArm.update")])
prop("A07", "A reset arm is a fresh arm",
     "After a reset an arm reports what a newly built arm reports - no data, no "
     "pulls, the initial interval and estimates, same name and cost - its "
     "nuisance model has been reset, and the same later updates give the same "
     "results. The base arm counts its pulls and returns (0, infinity).",
     "inputs histories", "no, one or two updates with any scores, updates that "
     "fail in the selector or the model or are rejected, a reset, further updates "
     "with any data, plain, resplit and bootstrap arms",
     "No test uses an arm after a reset.",
     [ARMS], [("reset", ARMS + " VarianceEstimatorArm.reset and subclasses")])
prop("A08", "A bootstrap interval is cut from resampled estimates",
     "A bootstrap arm's bounds are two of its resampled variance estimates, in "
     "order, with at most a delta/2 share of the resamples strictly outside on "
     "either side; its effect and variance are those of the scored fold. It "
     "draws at least the requested number of resamples, by default enough to "
     "resolve delta, from units the scored fold does not contain; if one is "
     "too small to fit or leaves nothing to score, the interval is (0, infinity).",
     "inputs", "any scores, every resample, up to 4 units (6 thorough), 2 "
     "resamples (3), any delta",
     "A test sees one set of resamples.",
     [ARMS], [("percentile bootstrap", ARMS + " BootstrapArm.update")])
prop("A09", "Each interval rule computes its published formula",
     "The CLT, chi-squared and finite-sample rules give exactly estimate +- "
     "their documented half width as a function of the held-out scores, the "
     "number of held-out units, delta and the scale parameters, the lower bound "
     "cut at zero. The finite-sample rules give half of delta to the nuisance "
     "width, at the configured scale.",
     "inputs configurations", "all scores, delta and scale parameters symbolic, "
     "up to 6 units (8 thorough) over up to 3 updates (4)",
     "Tests only check containment of one value.",
     [ARMS], [("formulas", ARMS + " SampleSplittingArm interval functions")])

# -- nuisance parameters --------------------------------------------------------
prop("N01", "AIPW scores are the doubly robust scores",
     "Each augmented inverse-propensity score equals m(1,z) - m(0,z) plus the "
     "residual y - m(x,z) weighted by 1/e(z) for treated and -1/(1-e(z)) for "
     "control units, with the fitted regression m and the fitted propensity e "
     "cut to [min_overlap, 1-min_overlap]. Hence the mean score is the true "
     "effect whenever either the fitted propensity or the fitted response is "
     "the true one.",
     "inputs", "any predictors (uninterpreted functions), any units, every AIPW "
     "variant, 1 or 2 covariates (3 thorough)",
     "Tests check shapes, or an average on one simulated data set.",
     [PARAMS], [("score", PARAMS + " AIPW._calculate_score")])
prop("N02", "No unit weighs more than the overlap bound allows",
     "Whatever the predicted probability, 0 and 1 included, the weight of a "
     "unit's residual in an AIPW score lies between 1 and 1/min_overlap in "
     "absolute value, and equals the inverse predicted probability when that is "
     "inside the overlap bounds; a score is always defined.",
     "inputs", "any predicted probability in [0,1], any min_overlap in (0,1/2), "
     "every AIPW variant",
     "No test produces extreme propensities.",
     [PARAMS], [("clipping", PARAMS + " AIPW._calculate_score")])
prop("N03", "A parameter has enough samples only once both groups are fit",
     "A nuisance parameter reports enough samples, and scores without error or "
     "undefined value, if and only if it was fit to data with at least "
     "min_units treated and control units (at least one of each). A later fit "
     "to data that does not suffice leaves the model in use as it was.",
     "inputs histories", "any treatments of up to 3 units (5 thorough), any "
     "min_units >= 0, each nuisance parameter; two successive fits",
     "Tests fit to large balanced samples.",
     [PARAMS], [("gating", PARAMS + " fit, has_enough_samples")])
prop("N04", "Front-door scores average to the front-door effect",
     "Under the distribution the front-door parameter was fit to (its tables of "
     "mediator given treatment, the treatment share, and responses that average "
     "to its regression), the mean of its scores is exactly the front-door "
     "adjustment formula's effect, whatever the regression predicts, as long as "
     "no probability is beyond the overlap limit.",
     "inputs", "any data of up to 4 units (5 thorough) with both groups, 1 or 2 "
     "covariates with every coincidence pattern, any regression",
     "Tests check one simulated average within a tolerance.",
     [PARAMS], [("score", PARAMS + " FrontDoorLinearFiniteZ.calculate_score")])
prop("N05", "Front-door scores follow the declared efficient score",
     "Each front-door score is the sum of the outcome residual weighted by the "
     "clipped likelihood ratio (P(z|1)-P(z|0))/P(z|x), the treatment residual "
     "term of the averaged regression weighted by the inverse treatment "
     "probability, and the regression's contrast over P(z|1)-P(z|0). Scores do "
     "not depend on integer or float encoding of treatments.",
     "inputs", "any data of 3 units (4 thorough), any covariates, 1 or 2 of "
     "them, any regression, min_overlap and min_ratio_to_uniform",
     "Tests check shapes, or an average on one simulated data set.",
     [PARAMS], [("score", PARAMS + " FrontDoorLinearFiniteZ.calculate_score")])
prop("N06", "The linear-regression parameter reports the ridge coefficient",
     "The linear-regression parameter scores the coefficient of the treatment "
     "in the exact ridge solution over treatment and covariates of the "
     "data it was fit to, averaged over the scored units, for any penalty > 0.",
     "inputs", "any data of up to 3 units, real treatments, 1 covariate (2 "
     "thorough), any penalty > 0",
     "Tests use one large sample and a tolerance.",
     [PARAMS], [("normal equations", PARAMS + " LinearRegressionParameter")])
prop("N07", "The plug-in parameter fits each treatment group on its own",
     "The linear plug-in parameter fits one model to the treated units only and "
     "one to the control units only, and scores every unit by the difference of "
     "the treated and the control model at its covariates.",
     "inputs", "any data of up to 3 units (5 thorough) with both groups, any "
     "predictions, 1 or 2 covariates",
     "Tests use one data set whose two regressions are nearly the same.",
     [PARAMS], [("plug-in", PARAMS + " LinearParameterBinaryTreatment")])
prop("N08", "Confidence-sequence widths are valid and monotone",
     "The width of a nuisance confidence sequence is never negative or "
     "undefined, is infinite when the data has no information, and never grows "
     "when the error probability grows. For AIPW it is the documented "
     "self-normalised regression bound times 1/min_overlap - 1; for the "
     "front-door parameter that bound at delta/3 times 2/min_overlap - 1, plus "
     "the treatment share's uniform boundary at delta/9 times 1/min_overlap - 1.",
     "inputs", "any data of 1 or 2 units (3 thorough), any two deltas, any "
     "scale > 0, rho >= 0.01, any min_overlap; 2-dimensional covariates and the "
     "front-door formula on given data of up to 5 units",
     "Tests evaluate one width.",
     [PARAMS], [("width", PARAMS + " calculate_cs_width")])
prop("N09", "A reset parameter is a fresh parameter",
     "After a reset a nuisance parameter reports not enough samples and holds "
     "no data, and when fit again it gives exactly the scores and readiness of "
     "a newly built parameter fit to the same data.",
     "inputs histories", "any two data sets of 2 units, 2 scored units, each "
     "nuisance parameter",
     "No test resets a fitted parameter.",
     [PARAMS], [("reset", PARAMS + " reset of each parameter")])
prop("N10", "Scores do not depend on the batch they are asked in",
     "Scoring units together, one at a time, in another order or again gives "
     "each unit the same score, and changes neither the model nor the data.",
     "inputs histories", "any 3 units, 1 or 2 covariates, each nuisance "
     "parameter fit to any 2 units",
     "Tests score each data set once.",
     [PARAMS], [("vectorised scores", PARAMS + " calculate_score")])
prop("N11", "A parameter set to the truth scores the true effect",
     "A parameter set to the true model of a linear generator, fresh or already "
     "fit, has enough samples, and scores the true effect exactly on noiseless "
     "data (AIPW weighs noise by the true propensity). A generator without such a "
     "truth is rejected with ValueError and changes nothing. Fitting or scoring data of another dimension raises ValueError and "
     "leaves an unfit parameter unfit.",
     "inputs histories", "any coefficients, 1 or 2 covariates, any unit",
     "The test sets one truth on one fitted parameter.",
     [PARAMS], [("set_to_truth", PARAMS)])

prop("N12", "A parameter is what its latest sufficient fit made it",
     "A nuisance parameter fit again, to data with both groups, scores and "
     "reports exactly as a newly built parameter fit to that data alone, its "
     "confidence-sequence width included, whatever it was fit to, asked or given "
     "in vain before, and whether the data grew or shrank.",
     "inputs histories", "two fits of any 2 or 3 units, also with one to a "
     "single group in between (front-door: any last fit after given ones), 2 "
     "scored units, each nuisance parameter",
     "Tests fit each parameter to one growing data set.",
     [PARAMS], [("refitting", PARAMS + " fit of each parameter")])

# -- examples and the paper --------------------------------------------------
EX, PAPER = C + "example_scm.py", C + "paper_utils.py"
NONLIN, PLOT = C + "nonlinear_utils.py", C + "plotting_utils.py"

prop("E01", "The example models' declared moments are their own",
     "For every draw of their coefficients, the back-door and the front-door "
     "example model declare exactly the means and variances of their covariates, "
     "treatment and response, the coefficients and the treatment effect that "
     "their mechanisms imply. Generated data holds the covariates, treatment and "
     "response in the declared places, one Bernoulli or Gaussian draw per unit.",
     "inputs", "every draw of the coefficients (real-valued, within their "
     "ranges), 1 or 3 generated units",
     "The tests use the examples as data sources and check no declared moment.",
     [EX], [("declared moments", EX + " back_door_scm, frontdoor_scm")])
prop("P01", "Each arm of the paper's examples sees the set its name tells",
     "A Section 5 example has one front-door arm and one arm for each of the 2^M "
     "choices of Z_i or V_i per back-door path, with distinct names; on any "
     "generated batch each arm's nuisance model is fit to units of the batch with "
     "exactly the covariates named (Z_0 for the front-door arm), and its cost is "
     "the sum of their costs. The three bandits play exactly these arms with the "
     "given units per round, stop in the first round in which the samples used "
     "exceed the limit, and spend an error probability of at most 0.05.",
     "inputs configurations", "any covariate values and costs, 1 to 3 paths (4 "
     "thorough), dimensions 1 to 3, both name styles, both interval rules used",
     "No test builds a paper example.",
     [PAPER], [("masks, names, costs", PAPER + " generate_example_from_cpd")],
     )
prop("P02", "The seed alone decides a Section 5 instance",
     "Building the mechanisms of Section 5.1 or 5.2 twice with the same seed "
     "gives mechanisms that return the same values for the same parents and the "
     "same sampling noise, whatever the global random state at the time of "
     "building, and does not touch that state. Every variable of the graph has a "
     "mechanism, whose output has one row per unit and the variable's dimension.",
     "inputs configurations", "any parents of 1 or 2 units, any global random "
     "state, 1 or 2 paths (3 thorough), 2 seeds (4 thorough), one sequence of "
     "the seeded generator's draws",
     "No test builds a paper example.",
     [PAPER, NONLIN], [("seeded construction", PAPER +
                        " get_section_5_1_cpds, get_section_5_2_cpds")])
prop("P03", "Random functions act row by row and are fixed by their seed",
     "A random function maps n rows of dim numbers to n rows of out_dim numbers, "
     "each output row depending on its input row only; each output component is "
     "fit to its own sample of the prior over a grid that spans [min_x, max_x] in "
     "every dimension. The same seed, or the same global random state when no "
     "seed is given, gives the same function.",
     "inputs", "any range, any input rows, dim 1 or 2 (3 thorough), out_dim 1 to "
     "3, any samples of the prior",
     "No test builds a random function.",
     [NONLIN], [("components", NONLIN + " generate_random_nd_function")])
prop("P04", "The softmax is a distribution with exact ratios",
     "For every real vector, both softmax functions return positive numbers that "
     "sum to one (along the first axis), in the order of the inputs, with "
     "p_i/p_j = exp(x_i - x_j).",
     "inputs", "every real vector of up to 3 (5 thorough) entries, 2x2 matrices; "
     "ratios for five offset vectors at any location",
     "No test calls them.",
     [PAPER, NONLIN], [("softmax", PAPER + " softmax, " + NONLIN + " softmax")])
prop("P05", "Section 5 instances have the declared mechanisms",
     "In Section 5.1 every V_i is standard Gaussian, Z_i is linear in V_i and the "
     "response linear in Z_0..Z_M, both plus independent Gaussian noise of variance "
     "0.1, the treatment's log-odds are linear in V_1..V_M, and the mean response "
     "through Z_0 is not lower under treatment. In 5.2 the response and the "
     "log-odds are sums of a function of each parent's own, Z_i is a function of "
     "V_i plus the same noise. Every parent counts, with coefficients of its own, "
     "and Z_0 takes one of ten values.",
     "inputs configurations", "any real parents, 1 or 2 paths (3 thorough), "
     "dimensions 1 and 2, 2 seeds (8 thorough), one sequence of the seeded "
     "generator's draws per seed",
     "No test builds a paper example.",
     [PAPER], [("mechanisms", PAPER +
                " get_section_5_1_cpds, get_section_5_2_cpds")])
prop("V01", "The plots show the numbers of the run",
     "The result plot draws, for each given arm and no other, one line labelled "
     "with the arm's name of its estimates and one band between its lower and "
     "upper bounds, all over the cumulative sample counts and all leaving out the "
     "same first rounds; the run's data is left as it was. The surface plot draws "
     "the function's value at each point of a grid spanning the given ranges.",
     "inputs", "any numbers, 1 to 3 arms (4 thorough), 2 to 4 rounds (6 "
     "thorough), 0 to 5 rounds left out",
     "No test draws a plot.",
     [PLOT], [("series", PLOT + " plot_bandit_results, plot_3d_function")])

NA = [
    dict(property="Z01", reason="Statistical coverage of the confidence "
         "intervals and sequences over the sampling distribution (P(truth in "
         "interval at every time) >= 1 - delta) is a statement about limits and "
         "continuous probability; no finite set of quantifier-free queries over "
         "the code decides it. The deterministic parts are claimed: the "
         "formulas (A09, N08), containment and monotonicity (A02, A03), the "
         "share of the error budget (B01), correctness given valid intervals "
         "(B11)."),
    dict(property="Z02", reason="Convergence of the fitted learners "
         "(scikit-learn Ridge, LogisticRegression, GradientBoosting, "
         "KernelRidge, GaussianProcessRegressor) to the true regressions is "
         "behaviour of compiled third-party code outside /repo which cannot be "
         "encoded; it is replaced by arbitrary predictors in N01 to N12, which "
         "is stronger for what the repository itself does with predictions."),
]


def main():
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P + NAP:
      f.write(json.dumps(dict(
          id=p["id"], title=p["title"], statement=p["statement"],
          quantifier=dict(over=p["over"], text=p["text"]),
          why_tests_cant=p["why"],
          anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
      assert len(p["title"]) <= 80, p["id"]
  m = dict(version=1, setup_cmd="/opt/venv/bin/python symx/selftest.py",
           checks=[dict(
               property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
               thorough_cmd=f"bash check.sh {p['id']} thorough",
               technique="symbolic execution of the real Python source, every "
               "path's assertions decided by Z3 (bounded)",
               level="model_checking",
               level_note=p["note"] or "Exhaustive over all values within the "
               "stated bounds: " + p["text"] + ". Exact reals plus infinities "
               "and nan stand for floats (rounding is outside); numpy, scipy "
               "and scikit-learn are models checked by the self test.")
                   for p in P],
           not_applicable=NA,
           notes="See DESIGN.md. Fixed defects and findings: "
           "known_findings.txt.")
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


NAP = []


def na_props():
  global P
  n = len(P)
  prop("Z01", "Confidence sequences cover the truth with the stated probability",
       "With probability at least 1 - delta over the sampling, an arm's "
       "finite-sample intervals contain its asymptotic variance at every update "
       "simultaneously.", "inputs histories", "the sampling distribution",
       "A statement about probabilities; tests see single runs.", [ARMS, PARAMS],
       [("finite-sample intervals", ARMS)])
  prop("Z02", "Nuisance estimates converge to the truth",
       "As data grows, the fitted nuisance models of a well-specified problem "
       "converge and the average score converges to the true effect.",
       "inputs histories", "data sets of unbounded size",
       "A limit statement; tests see single sizes.", [PARAMS],
       [("scikit-learn fits", PARAMS)])
  NAP.extend(P[n:])
  del P[n:]


if __name__ == "__main__":
  na_props()
  main()
