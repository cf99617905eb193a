"""Every recommender importable here, as a strategy over (class, parameters)."""
import warnings

from vlib.gen import st

S = st.sampled_from
_w = {"feature_weighting": S(["NONE", "NONE", "TF_IDF", "BM_25"]), "bm25_k1": S([1.2, 0.3]), "bm25_b": S([0.75, 0.0])}
_knn = {"shrinkage": S([0.0, 0.5, 10.0]), "top_k": S([1, 2, 5, 100])}
PARAMS = {
    "TopPopRecommender": {},
    "P3alphaRecommender": {"alpha": S([1, 0.5, 2.0]), "top_k": S([None, 1, 3]), "normalize_weight": st.booleans()},
    "RP3betaRecommender": {"alpha": S([1, 0.5]), "beta": S([0.6, 0.0, 1.0]), "top_k": S([None, 1, 3]), "normalize_weight": st.booleans()},
    "CosineKNNRecommender": {**_knn, **_w, "normalize": st.booleans()},
    "AsymmetricCosineKNNRecommender": {**_knn, **_w, "alpha": S([0.5, 0.0, 0.9])},
    "JaccardKNNRecommender": dict(_knn),
    "TverskyIndexKNNRecommender": {**_knn, "alpha": S([0.5, 0.0, 2.0]), "beta": S([0.5, 0.0, 1.5])},
    "CosineUserKNNRecommender": {**_knn, **_w, "normalize": st.booleans()},
    "AsymmetricCosineUserKNNRecommender": {**_knn, **_w, "alpha": S([0.5, 0.0, 0.9])},
    "SLIMRecommender": {"alpha": S([0.05, 0.5, 0.001]), "l1_ratio": S([0.01, 0.5, 0.0]), "positive_only": st.booleans(), "n_iter": S([100, 3]), "tol": S([1e-4, 1e-9]), "top_k": S([None, 1, 3])},
    "DenseSLIMRecommender": {"reg": S([1, 10.0, 100.0])},
    "EDLAERecommender": {"reg": S([1.0, 20.0]), "dropout_p": S([0.1, 0.0, 0.7])},
    "TruncatedSVDRecommender": {"n_components": S([1, 2, 4]), "random_seed": st.integers(0, 99)},
    "NMFRecommender": {"n_components": S([1, 2, 4]), "alpha": S([1e-2, 1e-6]), "l1_ratio": S([1e-2, 0.5]), "init": S([None, "random"])},
    "IALSRecommender": {"n_components": S([1, 3, 5]), "alpha0": S([0.1, 1.0, 0.5]), "reg": S([0.1, 1e-2]), "nu": S([1.0, 0.5]), "confidence_scaling": S(["none", "log"]),
                        "epsilon": S([1.0, 0.2]), "init_std": S([0.1, 0.5]), "solver_type": S(["CG", "CHOLESKY", "IALSPP"]), "max_cg_steps": S([3, 5]), "ialspp_subspace_dimension": S([64, 1, 2]),
                        "loss_type": S(["IALSPP", "ORIGINAL"]), "nu_star": S([None, 1.0]), "random_seed": st.integers(0, 99), "train_epochs": st.integers(1, 3),
                        "prediction_time_max_cg_steps": S([5, 2]), "prediction_time_ialspp_iteration": S([7, 2])},
}
NO_BLOCK = {"TopPopRecommender", "NMFRecommender"}
NO_COLD = {"CosineUserKNNRecommender", "AsymmetricCosineUserKNNRecommender"}
NO_THREADS = {"TopPopRecommender", "DenseSLIMRecommender", "EDLAERecommender", "TruncatedSVDRecommender", "NMFRecommender"}
LOOSE = {"DenseSLIMRecommender": 1e-3, "EDLAERecommender": 1e-3, "IALSRecommender": 1e-2, "TruncatedSVDRecommender": 1e-6, "NMFRecommender": 1e-5}


def strategy(names=None, **extra):
    return st.one_of([st.fixed_dictionaries({"cls": st.just(k), "p": st.fixed_dictionaries(v), **extra})
                      for k, v in PARAMS.items() if names is None or k in names for _ in range(3 if k == "IALSRecommender" else 1)])


def create(cls, p, X, threads=None):
    """None when the combination is outside the class's documented domain."""
    from irspack import recommenders as R
    kw = dict(p)
    if cls not in NO_THREADS:
        kw["n_threads"] = threads
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(R, cls)(X, **kw)


def learn(cls, p, X, threads=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return create(cls, p, X, threads).learn()


def in_domain(cls, p, m, n, nnz):
    if cls == "TruncatedSVDRecommender":
        return n >= 2 and m >= 1
    return True
