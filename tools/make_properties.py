"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("P01", "Row-wise random split is an exact partition with the requested sizes",
     "Splitting an interaction matrix row by row puts every stored interaction, with its exact value, into exactly one of the two parts, so that they sum back to the input, which stays unmodified. "
     "Each row contributes floor (or, on request, ceil) of ratio times its count to the test part, or at most the requested number. "
     "The chosen entries are a uniformly random subset determined by the seed alone.",
     ["inputs", "configurations"],
     "every sparse matrix, element type, ratio in [0,1] or count, rounding mode and random seed",
     "tests use one integer-valued matrix; value loss, rounding at boundaries, empty or short rows and biased selection need other shapes and values",
     ["cpp_source/util.hpp", "src/irspack/utils/__init__.py"],
     [("shuffled triplet split per row", "cpp_source/util.hpp SplitFunction::split_imple"),
      ("count rules", "cpp_source/util.hpp SplitByRatioFunction / SplitFixedN"),
      ("seed and dtype handling", "src/irspack/utils/__init__.py rowwise_train_test_split")])

prop("P02", "Time-based hold-out takes exactly each user's latest interactions",
     "Splitting a log by time partitions its rows, with all columns intact, so that no held-out interaction of a user is older than one of that user's retained interactions. "
     "For each user the number held out is the requested count capped by what the user has, or floor/ceil of the ratio times the user's row count.",
     ["inputs", "configurations"],
     "every event log (any row order, index, identifier and timestamp types, ties), count or ratio, rounding mode",
     "the guarantee is per user and per tie pattern over arbitrary row orders and index labels; tests sample one frame",
     ["src/irspack/split/time.py", "src/irspack/split/userwise.py"],
     [("sort + reverse cumulative count", "src/irspack/split/time.py split_last_n_interaction_df"),
      ("matrix form of the split", "src/irspack/split/userwise.py split_train_test_userwise_time")])

prop("P03", "User hold-out datasets partition users and interactions without leakage",
     "Building train/validation/test datasets from a log assigns every user to exactly one of the three sets with the requested numbers of validation and test users, and every distinct user-item pair appears exactly once, in its user's row and under its item's column, with its rating. "
     "Training users have nothing held out; validation and test users have the requested share (random, or most recent when a time column is given) held out. "
     "The same seed gives the same datasets, and the input frame is not modified.",
     ["inputs", "configurations"],
     "every log with arbitrary identifiers, duplicates, ratings and times, every combination of user counts/ratios and hold-out counts/ratios, every seed",
     "leakage and misassignment show only for particular combinations of counts, ratios, ratings and time columns, which fixed tests do not enumerate",
     ["src/irspack/split/userwise.py", "src/irspack/utils/__init__.py"],
     [("user selection", "src/irspack/split/userwise.py split_dataframe_partial_user_holdout"),
      ("per-user split", "src/irspack/split/userwise.py split_train_test_userwise_random / _time")])

prop("P04", "Holding out chosen interactions never leaks them into the learning part",
     "When a caller marks interactions to hold out, users owning a marked interaction are divided into train/validation/test groups by the requested ratios and all other users go to training. "
     "For validation and test users the test matrix holds exactly the marked interactions and the learning matrix exactly the unmarked ones; training users keep everything, and each matrix column corresponds to the returned item list. "
     "The same seed gives the same result.",
     ["inputs", "configurations"],
     "every log, every marker (boolean mask or positions), every pair of ratios with sum at most 1, every seed",
     "depends on arbitrary marker/user/item overlaps and ratio rounding",
     ["src/irspack/split/specified.py"],
     [("three-way user split", "src/irspack/split/specified.py holdout_specific_interactions"),
      ("matrix construction", "src/irspack/split/specified.py df_to_dataset")])

prop("P05", "Train/test pair container stays consistent under views and concatenation",
     "A train/test pair exposes the sum of its two parts, and its table views list exactly the stored non-zero interactions with the right user id, item id and value, for both parts. "
     "Concatenating pairs stacks users, matrices and views in order and keeps item ids; inconsistent sizes are rejected.",
     ["inputs", "histories"],
     "every pair of matrices of equal shape (any format, with or without a test part), identifiers, and every sequence of concatenations",
     "tests use one small hand-written pair; id/row alignment must hold for any order, format and concatenation history",
     ["src/irspack/split/userwise.py"],
     [("container", "src/irspack/split/userwise.py UserTrainTestInteractionPair"),
      ("concatenation", "UserTrainTestInteractionPair.concat"), ("table view", "UserTrainTestInteractionPair._X_to_df")])

prop("P06", "Log-to-matrix conversion places every event in its user's row and item's column",
     "Converting an event table to a sparse matrix yields, for every (user, item), the sum of the ratings (or the number) of that pair's events at the position of those ids in the returned id lists, and nothing else. "
     "When id lists are supplied the rows/columns follow exactly that order and events outside them are dropped; the table is not modified.",
     ["inputs"],
     "every event table with arbitrary id types, duplicates, ratings and supplied id lists (supersets, subsets, any order)",
     "misalignment between ids and indices needs unsorted, missing or unseen ids in combination",
     ["src/irspack/utils/__init__.py"],
     [("categorical encoding", "src/irspack/utils/__init__.py df_to_sparse")])

prop("P07", "Top-K recommendations by id are the best allowed items in order",
     "Recommendations returned through the id mappers contain only allowed, not forbidden, not already seen items whose score is not minus infinity, each at most once with the model's score for it, in non-increasing score order, and no omitted eligible item scores higher; the list is as long as the cutoff allows. "
     "Single-user, batch, known-user and new-user paths agree for every number of threads and element type, ids unknown to the mapper are ignored where documented, and caller arrays are not modified.",
     ["inputs", "configurations", "schedules"],
     "every score array, id set, per-user allowed/forbidden list, cutoff, thread count and recommender",
     "ordering, exclusion and fallback rules interact; tests check a few lists with one score pattern",
     ["src/irspack/utils/id_mapping.py", "cpp_source/util.hpp"],
     [("batch retrieval", "cpp_source/util.hpp retrieve_recommend_from_score"),
      ("id mapping", "src/irspack/utils/id_mapping.py ItemIDMapper / IDMapper")])

prop("P08", "Ranking metrics equal their definitions for every score and truth",
     "For every score matrix and ground truth the reported hit, recall, precision, NDCG, MAP, catalog coverage, entropy, Gini index, appeared-item and user counts equal their textbook definitions on the ranking by decreasing score (equal scores in item order), at every cutoff. "
     "Items whose score is minus infinity are never recommended, and users without ground truth are counted but do not contribute to accuracy averages.",
     ["inputs", "configurations"],
     "every score matrix (ties, minus infinity, float32/float64), ground truth, cutoff list",
     "tests compare some metrics on a few random matrices without ties, infinities, short candidate lists or empty users",
     ["cpp_source/evaluator.cpp", "src/irspack/evaluation/evaluator.py"],
     [("per-user metric accumulation", "cpp_source/evaluator.cpp EvaluatorCore::get_metrics_local"),
      ("aggregation", "cpp_source/evaluator.cpp Metrics::merge / as_dict"),
      ("cutoff and naming", "src/irspack/evaluation/evaluator.py Evaluator")])

prop("P09", "Evaluation results do not depend on how the work is scheduled",
     "The metrics of a model on a dataset are the same whatever the thread count, mini-batch size, score-chunk partition, score element type, user offset decomposition or order in which cutoffs are given, and repeated evaluation returns the same values. "
     "Evaluating changes none of the caller's matrices.",
     ["schedules", "inputs", "configurations", "histories"],
     "every dataset and model, all decompositions into batches/chunks/threads, every history of repeated evaluations",
     "batch-boundary and merge errors appear only for particular sizes and schedules",
     ["src/irspack/evaluation/evaluator.py", "cpp_source/evaluator.cpp"],
     [("mini-batch loop", "src/irspack/evaluation/evaluator.py Evaluator._get_scores_as_list"),
      ("chunk streaming", "Evaluator.get_scores_from_score_chunks"),
      ("thread sharding", "cpp_source/evaluator.cpp EvaluatorCore::get_metrics")])

prop("P10", "Masking and recommendable restrictions are honoured in evaluation",
     "Seen items (or the caller's own mask) never count as recommended in evaluation, and when recommendable items are given, globally or per user, only those items are ranked and only ground truth among them counts. "
     "The result equals evaluating the definitions on scores where every excluded entry is minus infinity.",
     ["inputs", "configurations"],
     "every combination of training interactions, custom masks, global or per-user recommendable lists, offsets and cutoffs",
     "restriction bugs need particular overlaps between masks, lists and ground truth",
     ["src/irspack/evaluation/evaluator.py", "cpp_source/evaluator.cpp"],
     [("mask application", "src/irspack/evaluation/evaluator.py Evaluator._get_scores_as_list"),
      ("recommendable lists", "cpp_source/evaluator.cpp EvaluatorCore ctor")])

prop("P11", "Cold-user evaluation feeds the given profiles and masks only them",
     "Evaluating on unseen users scores each user's given input profile with the model's cold-user path, hides exactly that profile's items (or the caller's mask), and matches the metric definitions, for every mini-batch size. "
     "When side features of new items are supplied, those items are scored from their features as extra candidates.",
     ["inputs", "configurations"],
     "every input/ground-truth pair, model, mask, mini-batch size and cold item feature matrix",
     "row alignment across mini-batches and feature-only items are not covered by fixed examples",
     ["src/irspack/evaluation/evaluator.py"],
     [("cold-user scoring", "src/irspack/evaluation/evaluator.py EvaluatorWithColdUser")])

prop("P12", "Table-versus-table evaluation equals the metric definitions",
     "Evaluating a recommendation table against a ground-truth table gives the metric definitions applied to each user's whole recommendation list, in table order, against that user's set of true items, over the users that appear in both tables. "
     "The outcome does not depend on row order of the ground truth, interleaving of users, column naming, id types, or number of threads.",
     ["inputs", "configurations", "schedules"],
     "every pair of tables (an item at most once in one user's recommendations), including duplicate ground truth, items or users present on one side only",
     "tests use a handful of tables with plain columns",
     ["src/irspack/evaluation/evaluate_df_to_df.py", "cpp_source/evaluator.cpp"],
     [("table grouping", "src/irspack/evaluation/evaluate_df_to_df.py evaluate_recommendation_df"),
      ("list evaluation", "cpp_source/evaluator.cpp evaluate_list_vs_list")])

prop("P13", "Neighbourhood models learn the documented similarity of their neighbours",
     "Item- and user-based nearest-neighbour models learn, for every pair of distinct items (users), the similarity their documented formula gives (cosine, asymmetric cosine, Jaccard, Tversky, with shrinkage and optional TF-IDF/BM25 weighting), and zero on the diagonal. "
     "Only the requested number of most similar neighbours is kept per item (user), scores are the corresponding weighted sums, and nothing depends on the thread count.",
     ["inputs", "configurations", "schedules"],
     "every interaction matrix (real-valued weights, empty rows/columns), similarity type, shrinkage, neighbour count, weighting scheme and thread count",
     "tests compare a few fixed matrices with one parameter set each",
     ["cpp_source/knn/knn.hpp", "cpp_source/knn/similarities.hpp", "src/irspack/recommenders/knn.py", "src/irspack/recommenders/user_knn.py"],
     [("similarity kernels", "cpp_source/knn/similarities.hpp"), ("parallel row blocks", "cpp_source/knn/knn.hpp KNNComputer"),
      ("weighting", "src/irspack/recommenders/knn.py _learn")])

prop("P14", "Random-walk models learn the documented transition weights",
     "The three-step random-walk models learn the product of the item-to-user and user-to-item transition probabilities (raised to the requested power), discounted by item popularity for the popularity-penalised variant, keep only the requested number of largest entries per item, and normalise when asked. "
     "Results do not depend on the thread count.",
     ["inputs", "configurations", "schedules"],
     "every non-negative interaction matrix, exponent, popularity exponent, neighbour count, normalisation flag and thread count",
     "tests check one matrix and parameter set",
     ["cpp_source/knn/similarities.hpp", "src/irspack/recommenders/p3.py", "src/irspack/recommenders/rp3.py"],
     [("transition product", "cpp_source/knn/similarities.hpp P3alphaComputer / RP3betaComputer"),
      ("learning", "src/irspack/recommenders/p3.py, rp3.py _learn")])

prop("P15", "SLIM weights solve the stated elastic-net problem",
     "The learned sparse linear model has a zero diagonal, respects the non-negativity option, and for enough iterations each column minimises the stated squared error plus L1 and L2 penalties over the allowed weights. "
     "With a neighbour limit exactly the largest weights of that solution survive, and the result does not depend on the thread count.",
     ["inputs", "configurations", "schedules"],
     "every interaction matrix, penalty strength, penalty ratio, sign option, neighbour limit and thread count",
     "optimality is a statement about all alternatives; tests compare one matrix to another solver",
     ["cpp_source/util.hpp", "src/irspack/recommenders/slim.py"],
     [("coordinate descent", "cpp_source/util.hpp SLIM"), ("penalty scaling", "src/irspack/recommenders/slim.py SLIMRecommender._learn")])

prop("P16", "Closed-form and spectral models equal their mathematical definition",
     "The dense linear autoencoders equal their ridge closed forms with zero diagonal, the popularity model scores every user with item popularity, and the truncated SVD and non-negative factorisation score with the factorisation of the training matrix they report, for known and new users alike.",
     ["inputs", "configurations"],
     "every interaction matrix, regularisation, dropout probability and rank",
     "fixed tests cover one matrix and default parameters",
     ["src/irspack/recommenders/dense_slim.py", "src/irspack/recommenders/edlae.py", "src/irspack/recommenders/toppop.py", "src/irspack/recommenders/truncsvd.py", "src/irspack/recommenders/nmf.py"],
     [("ridge inverse", "dense_slim.py, edlae.py _learn"), ("factorisation", "truncsvd.py, nmf.py")])

prop("P17", "Implicit-ALS training decreases and correctly reports its objective",
     "Each half step of implicit matrix factorisation brings every user (item) vector to the exact minimiser of the documented weighted, frequency-regularised objective given the other side, or with the approximate solvers never away from it, so the objective never increases across epochs for either loss variant. "
     "The reported training loss equals the objective evaluated from the exposed factors, with or without side features.",
     ["inputs", "configurations", "histories"],
     "every interaction matrix, confidence scaling, loss variant, regularisation and exponent, solver, feature matrices, and sequence of epochs",
     "optimality and monotonicity quantify over all vectors and epochs; tests compare one step on one matrix",
     ["cpp_source/als/IALSTrainer.hpp", "src/irspack/recommenders/ials.py"],
     [("Cholesky / CG / IALS++ solvers", "cpp_source/als/IALSTrainer.hpp Solver"), ("objective", "IALSTrainer::compute_loss"),
      ("confidence and regularisation scaling", "src/irspack/recommenders/ials.py IALSTrainer")])

prop("P18", "Implicit-ALS fold-in and feature inference agree with the trained model",
     "Folding in an unseen user's (item's) interactions gives the vector minimising the same objective with the other side fixed, so folding in a trained user's row at convergence reproduces its embedding and scores. "
     "With side features, embeddings and scores computed from features alone or from features plus interactions follow the documented prior, for sparse and dense features alike; rows are treated independently.",
     ["inputs", "configurations"],
     "every trained model, new interaction matrix, feature matrix (sparse/dense), batch composition and thread count",
     "agreement must hold for every unseen row and batch; tests use one fixed case",
     ["cpp_source/als/IALSTrainer.hpp", "src/irspack/recommenders/ials.py"],
     [("fold-in", "IALSTrainer::transform_user / transform_item"), ("feature scoring", "src/irspack/recommenders/ials.py compute_*_embedding, get_score_*")])

prop("P19", "Learning is reproducible and independent of parallelism",
     "Learning any recommender twice with the same data, parameters and seed gives the same scores, and the number of threads does not change the scores beyond floating-point rounding.",
     ["schedules", "inputs", "configurations"],
     "every recommender, dataset, parameter set, seed and thread count, on every thread interleaving",
     "data races and shard-boundary errors depend on sizes and schedules that tests do not vary",
     ["src/irspack/recommenders/", "cpp_source/als/IALSTrainer.hpp", "cpp_source/knn/knn.hpp", "cpp_source/util.hpp"],
     [("work sharding", "cpp_source knn.hpp, IALSTrainer.hpp, util.hpp thread loops"), ("seeding", "IALSTrainer.hpp initialize, bpr/nmf/truncsvd seeds")])

prop("P20", "Scoring interface contract holds for every recommender",
     "For every recommender the scores of a subset or block of users are the corresponding rows of the full score matrix, the seen-item variants differ from the plain ones only by minus infinity exactly on the user's seen items, and models that score from a profile score a new user with a known user's profile like that user. "
     "Outputs are finite two-dimensional arrays of shape users by items, and learning or scoring never modifies the training data or depends on its storage format or element type.",
     ["inputs", "histories", "configurations"],
     "every recommender class and configuration, training matrix, user subset/block, order of calls and matrix storage format",
     "a cross-product of recommenders, call orders and formats",
     ["src/irspack/recommenders/base.py", "src/irspack/recommenders/"],
     [("base scoring", "src/irspack/recommenders/base.py BaseRecommender"), ("similarity scoring", "base.py BaseSimilarityRecommender"),
      ("embedding scoring", "base.py BaseRecommenderWithEmbedding")])

prop("P21", "Early-stopped learning keeps the best validated state",
     "Learning with validation evaluates at the requested interval, stops when the score has not improved for the allowed number of validations, never exceeds the maximum number of epochs, and leaves the model in the state that obtained the best validation score. "
     "The number of epochs reported for that best state is the one that reproduces it; nothing of an earlier learning run influences a later one.",
     ["histories", "inputs", "configurations"],
     "every sequence of validation scores (plateaus, ties, negatives, improvements after plateaus), interval, patience and maximum",
     "requires arbitrary score histories; tests use one monotone sequence",
     ["src/irspack/recommenders/base_earlystop.py", "src/irspack/recommenders/base.py", "src/irspack/optimization/optimizer.py"],
     [("early stopping loop", "src/irspack/recommenders/base_earlystop.py learn_with_optimizer")])

prop("P22", "Saved state and configuration round-trip exactly",
     "Pickling and unpickling, or saving and loading the state of, recommenders, training configurations, trainers, metrics evaluators and id mappers yields objects that behave identically, at any point of a learning history (an unpickled implicit-ALS trainer answers identically and refuses further epochs). "
     "A recommender built from its configuration object behaves like one constructed directly with the same parameters, defaults included.",
     ["histories", "inputs", "configurations"],
     "every object of these kinds, at every point of its history, with every configuration value",
     "each field must survive; a lost or swapped field shows only for non-default values",
     ["cpp_source/als/wrapper.cpp", "cpp_source/als/IALSLearningConfig.hpp", "cpp_source/evaluator.cpp", "src/irspack/recommenders/ials.py", "src/irspack/recommenders/base.py"],
     [("pickle protocol", "cpp_source/als/wrapper.cpp __getstate__/__setstate__"), ("trainer state", "src/irspack/recommenders/ials.py"),
      ("config export", "src/irspack/recommenders/base.py from_config")])

prop("P23", "Hyper-parameter tuning returns parameters that reproduce the best trial",
     "Tuning evaluates only parameter values inside the declared ranges, never overrides parameters fixed by the caller, records every trial, and returns the tuned and learnt parameters of the best trial so that a model built from them and the fixed ones attains the reported best value. "
     "The same seed gives the same search, existing studies are continued, pruned trials do not affect the outcome, and a failing trial is raised to the caller without harming the study.",
     ["histories", "inputs", "configurations"],
     "every recommender, range overwrite, fixed parameter, number of trials, seed, existing study and sequence of objective values",
     "depends on the history of trials; tests look at one short study",
     ["src/irspack/optimization/", "src/irspack/recommenders/base.py", "src/irspack/recommenders/ials.py"],
     [("study loop", "src/irspack/optimization/optimizer.py optimize_with_study"), ("ranges", "src/irspack/optimization/parameter_range.py"),
      ("dimension doubling", "src/irspack/recommenders/ials.py tune_doubling_dimension")])

prop("P24", "Sparse weighting and product utilities equal their formulas",
     "TF-IDF and Okapi BM25 weighting, row normalisation, diagonal removal and the threaded sparse product equal their formulas on every matrix, keep the sparsity pattern, leave their input unmodified and do not depend on the thread count.",
     ["inputs", "configurations", "schedules"],
     "every sparse matrix (empty rows/columns, non-square, many more rows than a work chunk), parameters and thread counts",
     "edge shapes and chunk boundaries",
     ["cpp_source/util.hpp", "src/irspack/utils/__init__.py"],
     [("weighting", "cpp_source/util.hpp okapi_BM_25_weight / tf_idf_weight"), ("product", "parallel_sparse_product"), ("normalisation", "src/irspack/utils/__init__.py l1_normalize_row")])

prop("P25", "Rating-dataset readers return exactly the archived records",
     "Reading the supported rating, purchase and citation datasets returns one row per record of the archive, in order, with every field's value intact and timestamps converted to the recorded instant, whatever the field contents allowed by the format. "
     "Reading never executes anything the archive contains.",
     ["inputs"],
     "every well-formed archive of the documented formats (arbitrary titles, genres, occupations, ids, ratings, times)",
     "parsers meet arbitrary field contents; tests use one tiny fixture per dataset",
     ["src/irspack/dataset/movielens/", "src/irspack/dataset/neu_mf.py", "src/irspack/dataset/citeulike.py", "src/irspack/dataset/amazon_music.py", "src/irspack/dataset/downloader.py"],
     [("parsers", "src/irspack/dataset/movielens/*.py, neu_mf.py, citeulike.py, amazon_music.py"), ("archive access", "src/irspack/dataset/downloader.py")])

prop("P26", "News-dataset reader reproduces behaviours, histories, articles and embeddings",
     "Reading the news dataset yields every impression candidate with its click label and position, every user history in order, one timestamped interaction per clicked candidate, and article metadata and entity embeddings exactly as stored. "
     "Malformed timestamps, entity data and ambiguous or incomplete archives are rejected, not silently dropped or altered.",
     ["inputs"],
     "every well-formed archive: arbitrary titles, abstracts, empty histories, users with many impressions, any number of candidates",
     "text fields with quotes or missing-value look-alikes, empty fields and repeated users are unbounded",
     ["src/irspack/dataset/mind.py"],
     [("behaviour parsing", "src/irspack/dataset/mind.py read_impressions/read_histories/read_interactions"), ("article and embedding parsing", "src/irspack/dataset/mind.py read_news/...embeddings")])

prop("P27", "Dataset downloads are consented, atomic and retryable",
     "A dataset is downloaded only when it is absent and the user (or the caller's explicit flag) consents, and whatever fails at whatever point of a download - connection, write, interruption - no partial archive is left where a complete one is expected, so a later attempt downloads again. "
     "Existing archives are never overwritten, failed attempts leave no stray files, and the Hugging Face token is sent to Hugging Face only.",
     ["fault_sequences", "crash_points", "inputs"],
     "every failure point and sequence of attempts, every consent answer, present or absent archive",
     "needs faults injected at every point of a transfer",
     ["src/irspack/dataset/downloader.py", "src/irspack/dataset/mind.py", "src/irspack/dataset/neu_mf.py", "src/irspack/dataset/amazon_music.py"],
     [("download and consent", "src/irspack/dataset/downloader.py BaseZipDownloader / SingleZipDownloader"), ("credentialed download", "src/irspack/dataset/mind.py")])

prop("P28", "Thread-count settings and invalid arguments are handled uniformly",
     "An explicit thread count is used as given, otherwise the environment default applies, otherwise the machine's CPU count; unparsable environment values are rejected, and so are non-positive counts by whatever would use them. "
     "Invalid arguments - wrong shapes, out-of-range ratios, cutoffs, indices, thread counts or hyper-parameters - are rejected with an error and never crash the process or corrupt later results.",
     ["inputs", "configurations"],
     "every environment value and explicit count, every out-of-domain argument to the public entry points",
     "the space of invalid calls is unbounded; tests sample a few",
     ["src/irspack/_threading.py", "cpp_source/argcheck.hpp", "cpp_source/evaluator.cpp", "cpp_source/util.hpp", "cpp_source/knn/knn.hpp", "src/irspack/utils/id_mapping.py", "src/irspack/evaluation/evaluator.py"],
     [("thread default", "src/irspack/_threading.py get_n_threads"), ("argument checks", "cpp_source/argcheck.hpp check_arg and its users")])

prop("P29", "Native code is free of memory errors and data races",
     "No sequence of valid public calls makes the native extensions read or write out of bounds, use freed or uninitialised memory, or touch shared data from two threads without synchronisation.",
     ["inputs", "schedules", "histories"],
     "every valid input to the native entry points with any number of threads",
     "such errors are invisible to value assertions and schedule dependent",
     ["cpp_source/"],
     [("thread loops", "cpp_source/evaluator.cpp, util.hpp, knn/knn.hpp, als/IALSTrainer.hpp")])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
