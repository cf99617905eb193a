"""Appends the repaired defects ("fix:" commits of /repo) to known_findings.jsonl. Development helper, not run by checks."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent
PROP = {"6e435a3": "P01", "218703b": "P02", "2906003": "P03", "8017ec4": "P03", "5660a48": "P03", "961d811": "P04", "02fcba9": "P05", "f13f3d9": "P05",
        "51c8e62": "P07", "ade0a43": "P07", "4efd327": "P07", "80108e2": "P09", "4b5157c": "P28", "cf37ceb": "P12", "c60980c": "P12", "61ab4b6": "P15",
        "465e09b": "P15", "8bc5f31": "P19", "e4b46ba": "P19", "f987eff": "P17", "ea526af": "P20", "315392c": "P21", "3866f03": "P22", "352997a": "P29",
        "fec09c5": "P23", "3cd8183": "P23", "eebeb6c": "P23", "42a45f5": "P23", "30d5d5a": "P25", "ec55d15": "P25", "ba2d742": "P25", "3d9ff43": "P25",
        "d6e380a": "P25", "af2ee6a": "P26", "4a09723": "P27", "f90b181": "P27", "0938899": "P27", "bb1efab": "P28", "646b338": "P28", "e17c1c2": "P28",
        "1b6f4c7": "P28", "a6925a4": "P28", "2079c30": "P28", "29c59c7": "P28", "bd658c3": "P28", "c754018": "P16", "3cae538": "P03", "3c6396d": "P21"}
WHAT = {
 "3c6396d": "learning again without finding a best state kept reporting train_epochs of the previous run in learnt_config",
 "6e435a3": "rowwise_train_test_split truncated fractional values to integers: train + test was not the original matrix",
 "218703b": "the time-based user-wise split ignored the rating column",
 "2906003": "n_test_user >= 1 was ignored by the partial user hold-out",
 "8017ec4": "training users of the partial user hold-out lost their ratings",
 "5660a48": "hold-out counts above the number of users gave overlapping or short user sets when mixed with ratios",
 "961d811": "zero validation or test ratios crashed holdout_specific_interactions",
 "02fcba9": "UserTrainTestInteractionPair.concat dropped item_ids",
 "f13f3d9": "df_train / df_test misaligned values with ids when zeros were stored explicitly",
 "51c8e62": "retrieve_recommend_from_score rounded float64 scores to float32, changing the ranking of close scores",
 "ade0a43": "ItemIDMapper wrote -inf for forbidden items into the caller's score array",
 "4efd327": "cutoff 0 returned the whole catalogue in the single-user path",
 "80108e2": "the evaluator read the wrong rows of score arrays whose rows are not contiguous",
 "4b5157c": "score arrays with too few columns were read out of bounds by the evaluator",
 "cf37ceb": "evaluate_list_vs_list read past the discount table for recommendation lists longer than the catalogue",
 "c60980c": "evaluate_recommendation_df failed on column names which are not identifiers",
 "61ab4b6": "SLIM with top_k ranked stale weights of earlier columns",
 "465e09b": "SLIM did not propagate small coefficient changes to the residuals, so it did not converge to the optimum",
 "8bc5f31": "SLIM's coordinate order depended on which blocks a thread had processed: results changed with thread timing",
 "e4b46ba": "iALS factors were uninitialised memory for init_std = 0",
 "f987eff": "iALS++ produced NaN factors for empty rows when alpha0 = 0",
 "ea526af": "NMFRecommender could not score cold users given as integers or float32",
 "315392c": "a second learn_with_optimizer that never validated restored the best state of the first run",
 "3866f03": "IALSConfig refused prediction_time_ialspp_iteration and ialspp_subspace_dimension",
 "352997a": "an unpickled iALS trainer read out of bounds when trained further",
 "fec09c5": "tune_doubling_dimension raised when two dimensions had the same best value (comparison of dicts)",
 "3cd8183": "parameter name check took exponential time",
 "eebeb6c": "learnt parameters were overwritten by suggested ones of the same name in the best parameters",
 "42a45f5": "fixed parameters were returned among the best parameters",
 "30d5d5a": "leading zeros of MovieLens zip codes were lost",
 "ec55d15": "numeric Amazon ids lost leading zeros / changed type between archives",
 "ba2d742": "MovieLens 100K release dates failed to parse when the first one is in May",
 "3d9ff43": "reading Amazon metadata executed the archive's content (eval)",
 "d6e380a": "MovieLens 100K titles containing quotation marks were altered or merged rows",
 "af2ee6a": "MIND articles with quotation marks or titles such as 'NA' were altered or merged",
 "4a09723": "the Hugging Face token was sent to Azure and to redirect targets",
 "f90b181": "a MIND download ending prematurely was kept as a complete archive",
 "0938899": "failed downloads left partial archives which later runs took for complete ones",
 "bb1efab": "evaluate_recommendation_df(n_threads=0) returned zero metrics",
 "646b338": "merging metrics of different numbers of items accessed memory out of bounds",
 "e17c1c2": "sparse_mm_threaded of incompatible shapes accessed memory out of bounds",
 "1b6f4c7": "NaN passed every bounds check of the native modules",
 "a6925a4": "mb_size < 1 made the evaluator report zero metrics",
 "2079c30": "out-of-range hold-out counts and ratios of the time-based split were accepted",
 "29c59c7": "negative numbers of validation or test users were accepted",
 "bd658c3": "negative ratios of validatable users were accepted",
 "c754018": "EDLAE / DenseSLIM crashed the process on matrices that are not positive definite",
 "3cae538": "held-out items and item order of the user hold-out depended on the process (string hash seed), not only on random_state"}
f = V / "known_findings.jsonl"
keep = [l for l in f.read_text().splitlines() if l.strip() and json.loads(l)["status"] == "known"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h", "c955a49..HEAD"], text=True).split()
missing = [h for h in log if h not in PROP]
assert not missing, missing
for h in log:
    keep.append(json.dumps({"status": "fixed", "property": PROP[h], "commit": h, "what": WHAT[h], "text": f"fixed: property={PROP[h]} {h} {WHAT[h]}"}))
f.write_text("\n".join(keep) + "\n")
