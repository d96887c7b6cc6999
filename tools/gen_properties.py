"""Writes /verif/properties.jsonl (kept as a script so the text stays editable)."""
import json, os

D = "src/data_generators/"; M = "src/models/"; S = "src/simulator/"; R = "src/driver/"; F = "src/filesystem_wrappers/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}], "observe_at": [observe_at], "hook_needed": None},
    })


prop("C01", "A publisher's log answers every spend and impression query as a prefix",
     "For every impression log, in whatever order and with whatever ties it is given, buying N impressions yields the N cheapest events and spending S yields exactly the events whose price is at most S; impression counts, user frequencies, the price of N impressions and the totals (impressions, spend, unique users) all agree with that one ordered log. Building or querying a publisher never alters the caller's log, and a malformed line in a log file is rejected with its line number instead of being dropped.",
     ["inputs", "histories"],
     "all logs of up to L events over small id and price alphabets in every order (ties, free impressions, duplicates), every spend/impression query on and between the prices, and all small file contents including malformed lines",
     "The unit tests build one four-event log that is already sorted by price; order, ties and the agreement of the separate query paths are never varied.",
     [D + "publisher_data.py"],
     "sorted copy of the log plus a separately built price index, bisected for impressions and filtered for user counts",
     "PublisherData query methods, read_publisher_data/write_publisher_data")

prop("C02", "Ground-truth reach is the exact count of users at each frequency",
     "For every collection of publisher logs and every spend or impression vector, the reported k+ reach is exactly the number of distinct users shown at least k impressions summed over all publishers, for every k up to the requested maximum frequency, together with the impressions and spends that correspond to the request, the universe size and the maximum reach. Asking by spend and by the equivalent impressions agree, reach never decreases when any publisher's spend grows, and a vector of the wrong length is refused.",
     ["inputs", "configurations"],
     "all data sets of up to 3 publishers with small logs over a shared id space, every spend vector on and between prices, every impression vector, every maximum frequency 1..5, with and without explicit universe size and name",
     "The tests check a handful of vectors on one two-publisher data set; overlap patterns, frequency caps and agreement between the two query paths are not explored.",
     [D + "data_set.py", D + "publisher_data.py", S + "halo_simulator.py", S + "planner_simulator.py", S + "publisher.py", M + "ground_truth_reach_curve_model.py"],
     "per-user counters summed over publishers, capped histogram, reverse cumulative sum",
     "DataSet.reach_by_spend / reach_by_impressions / spend_by_impressions / impressions_by_spend, and the true-reach methods of the simulators")

prop("C03", "Stored data sets read back exactly what was last written",
     "After any history of adding data sets to a data design, reopening it and reading data sets by name, every read returns precisely the publishers, user ids, prices and publisher names most recently stored under that name, and the design lists exactly the stored names. Adding a name that already exists is refused and changes nothing, writing a data set that was read from disk elsewhere creates an equal copy and leaves the original untouched, and an unreadable publisher file is reported as an error naming the file.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over {add, reopen, read by name, read back and re-add elsewhere} on two designs with small name and content alphabets, on the local filesystem and on the emulated cloud filesystem; price round trips over adversarial floats",
     "The tests do one write and one read of well-formed data; interleavings of reads and writes (which interact with read caching) and copying are never exercised.",
     [D + "data_set.py", D + "data_design.py", D + "publisher_data.py"],
     "one file per publisher under a directory per data set; memoised directory reads; name set loaded at open",
     "DataDesign.add/by_name/names/count, DataSet.write_data_set/read_data_set and the directory tree")

prop("C04", "Reach points convert consistently between frequency representations",
     "For every list of k+ reaches, the exact frequencies, the frequencies with the open-ended top bucket and the histogram including unreached people are mutually consistent: they are differences of consecutive k+ reaches, the top bucket is the last k+ reach, and the histogram sums to the universe size. Converting user counts or frequencies to k+ reaches agrees with direct counting without altering the input, and queries outside the supported frequency range, or needing an unknown universe size, are refused.",
     ["inputs"],
     "all non-increasing k+ lists up to length 5 over a small alphabet (and arbitrary lists), all user-count dictionaries with up to 4 users and counts up to 6, all frequency caps 1..6, all query indices in and around the valid range",
     "Tests evaluate a few literal points; boundary indices, caps below the observed frequency, and consistency between views are not enumerated.",
     [M + "reach_point.py"],
     "tuple of k+ reaches with derived difference list",
     "ReachPoint accessors and static converters")

prop("C05", "Fitted single-publisher curves are valid reach curves",
     "For every admissible training point and any order of queries, a fitted single-publisher model reports k+ reaches that are non-negative, never increase with k, never exceed the model's maximum reach (for the Dirac mixture, the universe size), and never decrease as impressions grow, with zero reach at zero impressions; asking for more frequencies never changes the lower ones. For the exponential- and Gamma-Poisson models the k+ reaches add up to the impressions bought, up to the inventory, and the reaches at two budgets describe one population of which the smaller buy is a random part. Asking by spend equals asking for the impressions that spend buys at the training cost per impression, the reported spend matches, models that reproduce their training reach do so, and inadmissible training data or queries of the wrong dimension are refused.",
     ["inputs", "histories"],
     "all training points on a grid (impressions, frequency histograms, spends) for the exponential-Poisson, Gamma-Poisson, k-inflated Gamma-Poisson, Dirac-mixture and ground-truth models, all query impressions on a grid, all pairs of query orders",
     "The tests compare a few fitted values with recorded constants; shape laws over the whole query range and history independence are not checked.",
     [M + "reach_curve.py", M + "goerg_model.py", M + "gamma_poisson_model.py", M + "kinflated_gamma_poisson_model.py", M + "dirac_mixture_single_publisher_model.py", M + "ground_truth_reach_curve_model.py"],
     "per-model fit of a frequency distribution; k+ reach as tail sums; cost per impression from the training point",
     "by_impressions, by_spend, impressions_for_spend, max_reach of the models")

prop("C06", "Quantile queries return the tightest achievable buy",
     "For every reach curve and every quantile strictly between 0 and 1, the returned number of impressions (or spend) is the largest whole number whose reach does not exceed that fraction of the maximum reach: one unit more would exceed it. Quantiles outside the open interval are refused, and a target no buy can exceed is reported as an error rather than answered.",
     ["inputs"],
     "all non-decreasing integer step curves on a bounded domain and every quantile on a fine grid, plus every fitted model of C05, by impressions and by spend",
     "The tests evaluate two quantiles of one curve; the search's invariants over all curve shapes (plateaus, jumps at powers of two, saturation) are not settled.",
     [M + "reach_curve.py"],
     "doubling search to bracket, then bisection",
     "impressions_at_reach_quantile / spend_at_reach_quantile")

prop("C07", "Multi-publisher surfaces stay between the largest and the sum of reaches",
     "For every set of single-publisher curves and every set of training points, a fitted multi-publisher surface returns finite reach that is at least the largest and at most the sum of the single-publisher reaches, equals the publisher's own curve when only that publisher is active, is zero when none is, and asking by spend equals asking for the impressions the spends buy. The fitted overlap parameters satisfy their published constraints, training points lying on a pairwise-union surface are reproduced by the pairwise fit, fitting is repeatable for the same inputs whatever ran before, and training data or queries of the wrong dimension are refused.",
     ["inputs", "histories"],
     "all combinations of curve parameters and training reaches on a grid for 2 and 3 publishers (including noisy, infeasible training points), every on/off and grid query vector, fits repeated after disturbing global state",
     "Tests fit a few noise-free instances; constraint satisfaction under infeasible or noisy training data and hidden global state are not covered.",
     [M + "reach_surface.py", M + "pairwise_union_reach_surface.py", M + "restricted_pairwise_union_reach_surface.py", M + "generalized_mixture_reach_surface.py"],
     "least-squares fits under linear constraints (quadratic programme / projected search / alternating minimisation)",
     "by_impressions/by_spend and the fitted parameters")

prop("C08", "Reported privacy consumption is the worst case over all users",
     "After any history of noising events, the privacy consumption reported for a sampling point is the sum of the epsilons and deltas of exactly the events whose cyclic sampling interval contains it, and the total consumption is the maximum of those sums over every point of the unit interval. Consumption never decreases as events are recorded, does not depend on their order, and the mechanisms are listed in the order applied.",
     ["histories", "inputs"],
     "all event sequences up to length 4 over sampling intervals whose ends lie on a binary grid of [0,1), including wrap-around, full and zero-width intervals, with distinct budgets",
     "The tests record up to three hand-picked events; the claim that it suffices to look at interval starts, with wrap-around, must hold for every history.",
     [S + "privacy_tracker.py"],
     "event list plus set of interval starting points; consumption evaluated only at those",
     "PrivacyTracker.append / privacy_consumption / privacy_consumption_for_sampling_bucket / mechanisms")

prop("C09", "Noisy answers never consume more privacy budget than granted",
     "For every request made through the simulated measurement system and every modeling strategy run on it, the noise actually added uses exactly the epsilon and delta that are recorded, the recorded events of one request add up to the budget granted for that request, and a whole fit never records more than the budget it was given. Each request records its events exactly once, with its mechanism and split, also when later requests or fits follow, and a request that releases nothing records nothing.",
     ["inputs", "configurations", "histories"],
     "all publisher counts 1..4 (with zero and non-zero campaign spends), budgets and splits on a grid, all strategies and models, and all sequences of up to 3 requests on one shared tracker, with the noise source replaced by a recording one",
     "No runnable test covers the simulator; accounting must hold for every request sequence and publisher count.",
     [S + "halo_simulator.py", S + "m3_strategy.py", S + "single_publisher_strategy.py", S + "privacy_tracker.py"],
     "budget split between reach and frequency noise; fixed division of the fit budget over requests",
     "epsilon/delta received by the noise sources versus events recorded in the tracker")

prop("C10", "Noised reach answers are always usable measurements",
     "Whatever values the noise takes, a simulated measurement returns whole k+ reaches that are non-negative and never increase with the frequency, of exactly the requested length, whose 1+ reach is below the total number of impressions bought (falling back to a minimal valid reach otherwise), with the impressions, spends and universe size of the request. Without noise it equals the truth; only what was bought within each publisher's campaign spend enters the combined sketch, and every publisher's sketch is built with the configured parameters.",
     ["inputs", "fault_sequences"],
     "all estimator outputs over an adversarial alphabet (negative, non-monotone, huge, fractional, zero) up to length 4, for all small data sets and spend vectors, including spends above the campaign spend",
     "Requires every possible noise outcome; a test samples one draw.",
     [S + "halo_simulator.py", S + "publisher.py"],
     "rounding, clamping at zero, running minimum, cap by impressions",
     "the reach point returned by the simulated measurement; contents added to the sketches")

prop("C11", "Venn-diagram measurements are consistent over all publisher subsets",
     "For every data set and spend vector, the Venn-diagram measurement returns exactly one point for each non-empty subset of the publishers with non-zero spend, carrying the impressions and spends of that subset and zero elsewhere; its reach is the total of the disjoint regions that meet the subset, so it is non-negative for non-negative estimates, monotone and sub-additive over subsets. Noise-free and unsampled it equals the true union reach of the subset, no spend yields no points and consumes no budget, and unsupported frequencies or too many publishers are refused before any budget is used.",
     ["inputs", "configurations"],
     "all data sets of up to 4 publishers and 4 users as membership patterns, every spend vector, all sampling outcomes of bounded size and all noise outcomes over a small alphabet",
     "The tests check private helpers on a few literals; the composition over all region patterns, samples and noise values is not explored.",
     [S + "halo_simulator.py"],
     "bitmask regions over active publishers, hypergeometric sampling, per-region noise clamped at zero, rescaling, subset sums",
     "the list of reach points returned by the Venn-diagram measurement")

prop("C12", "A crashed or torn experiment run resumes to the same results",
     "If an experiment stops at any point, including in the middle of writing a result or bookkeeping file, running it again completes and returns the same rows an uninterrupted run returns; a partial or unreadable result is recomputed and never taken for a finished one. Finished results are reused without recomputing or altering them, and when a run has completed nothing is left marked as pending.",
     ["crash_points", "fault_sequences", "histories"],
     "every filesystem operation boundary of a run as a crash point, every byte prefix of every file written, repeated crashes (up to two) before the final run, local and in-memory filesystem",
     "Tests only run to completion on an empty directory; crash points and torn writes are outside what they sample.",
     [R + "experimental_trial.py", R + "experimental_design.py"],
     "result file per trial, written in place and reused if it parses; pending marker file",
     "rows returned by evaluate/load after recovery, files on disk")

prop("C13", "Results do not depend on the order or way trials are executed",
     "For a given design and seed, the row computed for each trial is the same whether trials run one after another in any order, alone, in parallel worker processes, through the pipeline runner, or after some of them were already computed by an earlier run. Different modeling strategies on the same data set are evaluated at the same test points, and evaluating one trial never changes the inputs of another.",
     ["schedules", "histories", "configurations"],
     "all execution orders of the trials, all subsets of pre-computed results, worker-process and pipeline execution, all pairs of strategies, including trials that share parameter objects",
     "Tests run one sequential order; schedule and history independence needs all orders and subsets.",
     [R + "experimental_design.py", R + "experimental_trial.py", R + "trial_descriptor.py", R + "experiment.py", S + "system_parameters.py", R + "latin_hypercube_random_test_point_generator.py", M + "restricted_pairwise_union_reach_surface.py"],
     "per-trial seeding and per-trial copies of parameter objects",
     "rows returned and written by experiments")

prop("C14", "Every trial yields exactly one complete row, even when modeling fails",
     "Running an experimental design returns exactly one row per data set and distinct trial configuration, whatever fails inside model fitting, test point generation, prediction or scoring: a failing trial gives a row marked as failed with the reason, the same columns in the same order as a successful one, undefined metrics, and the privacy budget used up to the failure. One failing trial never stops or changes the others, the independent variables in each row describe that trial, and the output file contains the returned rows.",
     ["fault_sequences", "configurations", "inputs"],
     "failures injected at every call of fit / test points / prediction / truth / scoring in every combination over a design of several trials, both analysis types, maximum frequencies 1..6, duplicate descriptors",
     "Tests inject no failures and the relevant tests cannot even run here.",
     [R + "experimental_trial.py", R + "experimental_design.py", R + "experiment.py", R + "experiment_driver.py", R + "test_point_aggregator.py"],
     "exception barrier around modeling; mirrored column construction for failures",
     "rows returned by evaluate/load/execute and the output file")

prop("C15", "Distinct trial configurations never share a result file",
     "Two trials get the same stored result only if they agree on the data set, strategy, models and all their options, spend fractions, sketch size and decay rate, privacy budget, replica, maximum frequency and test point strategy; the same configuration, written the same way, always maps to the same name, so it is computed once. Adapting a configuration to a data set fills in the data set's publisher count and spend fractions, keeps everything else, and never modifies the original or another trial's configuration, and the strategy built is exactly the one described with its options.",
     ["configurations", "inputs"],
     "all pairs of configurations from a product of small alphabets for every field, adapted to data sets with different publisher counts",
     "Tests compare one or two literal names; injectivity is a statement about all pairs.",
     [R + "trial_descriptor.py", R + "modeling_strategy_descriptor.py", R + "experiment_parameters.py", S + "system_parameters.py", R + "experimental_trial.py", R + "experiment.py"],
     "string rendering of nested parameter tuples used as file name",
     "result file locations, adapted descriptors, instantiated strategies")

prop("C16", "Test points cover the feasible spend range as documented",
     "Every generated test point has one spend per publisher, between zero and that publisher's maximum spend; the grid is exactly the Cartesian product of the evenly spaced interior spends, and the random generators return the documented number of points (at least the requested number, the per-publisher minimum and the global minimum, at most the cap for Latin hypercubes). Latin hypercube points put exactly one point in each equal slice of every publisher's range, and all generators are deterministic functions of the data set and the seed.",
     ["inputs", "configurations"],
     "all publisher counts 1..4 with distinct maximum spends, grid sizes 1..5, all requested counts and minimums around the thresholds, several generator states and disturbances of global random state",
     "Tests use one or two configurations per generator; thresholds and hidden random state are not explored.",
     [R + "test_point_generator.py", R + "grid_test_point_generator.py", R + "uniformly_random_test_point_generator.py", R + "latin_hypercube_random_test_point_generator.py", R + "experiment_parameters.py"],
     "scaling of unit-cube designs by maximum spends",
     "sequence of spend vectors returned")

prop("C17", "Generated impression logs contain every user with the drawn frequency",
     "For every outcome of the random draws, a generated impression sequence contains each of the n users exactly as often as its draw prescribes (one more than the Poisson draw, or the zeta draw), nobody else, and the shuffle only reorders it; the draws use the requested distribution parameters. Pricing keeps ids and order and makes the i-th impression available at i times the cost per impression, and the publisher built from both reports those totals.",
     ["inputs", "schedules"],
     "all draw vectors up to 4 users and draws 0..3, all permutations as shuffle outcomes, for the three impression generators with a controlled random source, and all small id sequences for pricing",
     "Tests stub one draw sequence; the guarantee is over every random outcome.",
     [D + "homogeneous_impression_generator.py", D + "heterogeneous_impression_generator.py", D + "heavy_tailed_impression_generator.py", D + "fixed_price_generator.py", D + "publisher_data.py"],
     "per-user draw, list extension, in-place shuffle",
     "sequence returned by the generators; publisher totals")

prop("C18", "Overlap labelling preserves every single-publisher reach curve",
     "For every list of publishers and every outcome of the overlap generator, the labelled data set has the same publishers, names, prices and per-user frequency patterns as the input, so every single-publisher reach curve is unchanged, and each publisher's users are exactly the ids the overlap generator assigned to it. The overlap generator receives the publishers' true reaches and the requested options, the input publishers are not modified, and a mismatch between assigned ids and reach is refused.",
     ["inputs", "configurations"],
     "all pairs and triples of small publisher logs and all assignments of label sets from a small universe, for the generic, independent and sequentially correlated data sets",
     "The tests need an absent package and compare a few literals.",
     [D + "overlap_data_set.py", D + "independent_overlap_data_set.py", D + "sequentially_correlated_overlap_data_set.py"],
     "bijection from original to assigned ids applied to the log",
     "the resulting data set; arguments received by the overlap generator")

prop("C19", "Synthetic data designs are reproducible and match their specification",
     "Generating a design from a configuration and seed stores exactly one data set per configuration entry under its descriptive name, with the requested number of publishers, sizes that start at the largest and are each the previous one times the geometric decay, rounded down, and publishers named 1 to P; distinct configurations have distinct names. The same configuration and seed produce byte-identical designs whatever was generated before in the process, and randomness comes only from the design's own seed.",
     ["configurations", "histories"],
     "all configurations from a product of publisher counts, sizes, ratios, pricing, impression and overlap generators; all orders of generating two designs in one process with disturbed global random state",
     "Tests generate one design and look at counts; reproducibility across histories and the size rule over all configurations are not settled.",
     [D + "synthetic_data_design_generator.py", D + "data_set_parameters.py", D + "m3_data_design.py", D + "simple_data_design_example.py", D + "lhs_data_design_example.py", D + "single_publisher_design.py", D + "analysis_example_data_design.py"],
     "single seeded generator threaded through all components; size recurrence with floor",
     "files written by the generator")

prop("C20", "Local and cloud filesystems behave alike",
     "For every sequence of file operations, the local and the cloud filesystem wrapper give the results of one reference filesystem: written text is read back exactly, later writes replace earlier ones, existence, file and directory tests and pattern listings reflect exactly the files present, removing deletes exactly that file, and removing a missing file fails unless tolerated. Name, parent and join are mutually inverse path operations.",
     ["histories", "inputs"],
     "all operation sequences up to a depth over a small tree of paths and contents, on both wrappers, compared step by step with a reference model",
     "Tests exercise each operation once; equivalence over histories is not checked.",
     [F + "filesystem_pathlib_wrapper.py", F + "filesystem_cloudpath_wrapper.py", F + "filesystem_wrapper_base.py"],
     "thin delegation to pathlib / cloudpathlib objects",
     "results of wrapper operations and the resulting tree")

prop("C21", "Reported error metrics equal their definitions",
     "For every list of true and modeled reach points, each reported metric equals its definition: mean, absolute, squared and relative errors and their variances, quantiles of absolute relative error, relative errors at frequencies 2 to 9 (undefined when a point does not reach that frequency), and the shuffle distance of the first five frequency buckets with its conventions for missing or empty histograms. A perfect model scores zero error, scores do not depend on the order of the points, and single-publisher analyses report the errors at each spend fraction for each frequency.",
     ["inputs"],
     "all lists of up to 3 pairs of points over small reach alphabets and maximum frequencies 1..10, including zero and empty histograms, and all permutations of them",
     "Tests check a few literal lists per metric.",
     [R + "test_point_aggregator.py", R + "experimental_trial.py"],
     "table of metric functions over reach vectors",
     "columns of the single-row result table")

prop("C22", "Strategies train models on the right measurements",
     "For every publisher count, the multi-publisher strategy fits each single-publisher curve on that publisher's own measurement at its campaign spend, and the surface on the measurement of all publishers together plus, for more than two publishers, every leave-one-out measurement, each with matching impressions, spends and reaches; a single publisher yields its own curve, and true curves are used when requested. The configured model classes and options are used, the fitted model answers the planner's queries unchanged, and the single-publisher strategy refuses more than one publisher.",
     ["configurations", "inputs"],
     "all publisher counts 1..4, all campaign spend fractions from a grid including zero, both curve options, recording models, all noise outcomes from a small alphabet",
     "The tests need an absent package and check one configuration.",
     [S + "m3_strategy.py", S + "single_publisher_strategy.py", S + "planner_simulator.py", S + "modeling_strategy.py", S + "halo_simulator.py", S + "publisher.py"],
     "sequence of measurement requests assembled into training points",
     "training data received by the models; answers of the planner")

prop("C23", "Shipped experimental designs cover the design they declare",
     "For every seed and whatever happened before in the process, the first-round, analysis-example and single-publisher designs list every combination of their declared levels (modeling strategy, campaign spend fractions, sketch, privacy budget, replica, maximum frequency, test point strategy) exactly once, under distinct result names, for every data set they are adapted to; the sampled design lists the declared number of trials, takes only declared levels, gives every level of a factor its share of a Latin hypercube sample, repeats for equal seeds and differs between seeds. Every trial has a random generator of its own, started from the design's seed, so no trial's result depends on the trials before it.",
     ["configurations", "histories"],
     "all trials of the four shipped designs for a range of seeds, with and without disturbed global random state, adapted to data sets with 1 to 7 publishers",
     "The tests count the trials or run one of them; the content of the list and independence of trials are not looked at.",
     [R + "m3_first_round_experimental_design.py", R + "analysis_example_experimental_design.py", R + "single_publisher_design.py", R + "sample_experimental_design.py", R + "trial_descriptor.py", "src/simulator/system_parameters.py", R + "experiment_parameters.py"],
     "lists of parameter objects combined by product or Latin hypercube sampling",
     "trials returned by generate_experimental_design_config, adapted to data sets")

prop("C24", "Command lines run exactly the experiment their options describe",
     "For every combination of options, spelled and ordered in any way, the experiment driver writes to the requested output file the same results the Python interface gives for that data design, experimental design, seed and analysis type, whatever the number of cores, pipeline or runner; it keeps one result per trial below the requested intermediates directory, writes nothing elsewhere, and uses cloud storage exactly for the cloud runners. A command line without one of the required options is refused before anything is written. The data design generator writes exactly the files its generator class writes for that configuration and seed (1 by default), and names the data sets unless told to be quiet.",
     ["configurations", "inputs"],
     "all combinations of seed, analysis type, cores, pipeline and runner options in several spellings and orders, all subsets of the required options, all seeds of a range and verbosity settings of the generator",
     "The tests call the Python classes or one command line with mocked parts; combinations of options are never compared with the results.",
     [R + "experiment_driver.py", D + "synthetic_data_design_generator.py", R + "experimental_design.py"],
     "argument parsers, mapping of runner to filesystem, construction of the experimental design",
     "output file, intermediate files, exit status and printed names")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
