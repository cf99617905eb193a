"""P19: learning is reproducible and independent of parallelism."""
import warnings

import numpy as np

from vlib import peer, recs
from vlib.alsref import epoch, feats, make, matrix, model_strategy, outside, worst_cond
from vlib.gen import as_format, build, edge, mat, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P19", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 4  # multiplies the quick case counts
RULE = ("all 15 importable recommenders x random parameters x matrices (1-14 x 2-14, and 130-320 wide ones past every work chunk) x two thread counts in 1..17; "
        "each model is learned twice from scratch, a third time on the same object and once with another thread count, with other models learned and the global random state moved in between; "
        "non-trivial: the model's scores are not constant and two different thread counts (or a second learn) were compared")
ASSUMPTIONS = ["scores are equal up to floating-point rounding: 1e-9 relative for the sparse native models, single-precision tolerances for the dense and ALS models",
               "the two recommenders whose dependencies (jax, lightfm) are absent are not exercised"]


def scores(cls, rec, m, n, seed):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = [np.array(rec.get_score(np.arange(m)), dtype=float)]
        if cls not in recs.NO_COLD:
            import scipy.sparse as sps
            N = sps.csr_matrix((np.random.RandomState(seed).uniform(size=(3, n)) < 0.4).astype(float))
            out.append(np.array(rec.get_score_cold_user(N), dtype=float))
    return out


def same(cls, a, b, msg):
    rtol = recs.LOOSE.get(cls, 1e-9)
    for x, y in zip(a, b):
        s = max(np.abs(x).max(initial=0), np.abs(y).max(initial=0))
        check(x.shape == y.shape and np.array_equal(np.isnan(x), np.isnan(y)) and np.all((np.abs(x - y) <= rtol * s + 1e-300) | np.isnan(x)),
              lambda: f"{cls}: {msg}: largest difference {np.nanmax(np.abs(x - y))} at scale {s}")


def strategy():
    return recs.strategy(X=mat(14, 14, min_cols=2, min_rows=2), fmt=st.sampled_from(["csr", "csc", "csr_unsorted"]), t=st.sampled_from([[1, 2], [1, 8], [3, 4], [2, 17], [5, 1]]), other=st.integers(0, 14))


def run(c, ctx):
    X0 = build(c["X"])
    m, n = X0.shape
    cls, p = c["cls"], c["p"]
    if cls in ("TruncatedSVDRecommender", "NMFRecommender") and X0.nnz == 0:
        raise Skip
    a, b = c["t"]
    X = as_format(X0, c["fmt"], 3)
    first = recs.learn(cls, p, X, a)
    s1 = scores(cls, first, m, n, c["X"]["s"])
    np.random.rand(7)
    np.random.seed(c["X"]["s"] % 1000)
    names = list(recs.PARAMS)
    if names[c["other"]] not in ("TruncatedSVDRecommender", "NMFRecommender"):
        recs.learn(names[c["other"]], {}, X0, 2)
    s2 = scores(cls, recs.learn(cls, p, X, a), m, n, c["X"]["s"])
    same(cls, s1, s2, "a second model with the same data, parameters and seed scores differently")
    again = scores(cls, first, m, n, c["X"]["s"])
    same(cls, s1, again, "scores changed after other models were learned")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first.learn()
    same(cls, s1, scores(cls, first, m, n, c["X"]["s"]), "learning again on the same object gives different scores")
    if cls not in recs.NO_THREADS:
        same(cls, s1, scores(cls, recs.learn(cls, p, X, b), m, n, c["X"]["s"]), f"{b} threads and {a} threads give different scores")
        ctx.tag(f"threads {a}/{b}")
    ctx.tag(cls)
    ctx.nt(np.unique(s1[0]).size > 2)


def strategy_big():
    return recs.strategy([k for k in recs.PARAMS if k not in recs.NO_THREADS],
                         X=st.fixed_dictionaries({"m": edge(130, 320), "n": edge(130, 320), "d": st.sampled_from([0.2, 0.5]), "v": st.sampled_from(["ones", "frac"]),
                                                  "s": st.integers(0, 10**6), "e": st.integers(0, 3)}),
                         fmt=st.just("csr"), t=st.sampled_from([[1, 2], [1, 8], [3, 16]]), other=st.just(0))


def strategy_zero():
    return recs.strategy(["IALSRecommender"], X=mat(14, 14, min_cols=2, min_rows=2), fmt=st.just("csr"), t=st.sampled_from([[1, 2], [4, 3]]), other=st.integers(0, 9)).map(
        lambda c: {**c, "p": {**c["p"], "init_std": 0.0}})


def run_zero(c, ctx):
    # dirty the heap so that uninitialised factors cannot look like zeros
    np.full(10**5, 3.0)
    recs.learn("IALSRecommender", {"n_components": c["p"]["n_components"], "alpha0": 0.1, "init_std": 2.0, "random_seed": c["X"]["s"] % 97}, build(c["X"]), 2)
    run(c, ctx)
    ctx.nt(True)


def strategy_feat():
    d = model_strategy(max_k=11, solvers=("CG", "CHOLESKY"))
    d["uf"], d["if"] = st.sampled_from(["dense", "csr", None]), st.sampled_from(["dense", "csr", None])
    return st.fixed_dictionaries({**d, "epochs": st.integers(1, 3), "tt": st.sampled_from([[1, 2], [1, 8], [3, 4], [5, 1], [2, 16]])})


def run_feat(c, ctx):
    """Models with side features: factors, feature weights and what follows from them."""
    X0, D = matrix(c)
    if outside(c, D != 0) or (c["alpha0"] == 0 and c["nu"] > 0):
        raise Skip
    m, n = D.shape
    _, F = feats(c["uf"], m, 3, c["seed"] + 1)
    _, G = feats(c["if"], n, 2, c["seed"] + 2)

    def learn(t):
        rec = make({**c, "t": t}, as_format(X0, c["fmt"], 1), F, G)
        rec.start_learning()
        for _ in range(c["epochs"]):
            epoch(rec, c, D)
        k = rec.trainer.core_trainer
        out = {"user factors": k.user, "item factors": k.item, "user feature weights": k.user_feature_weight, "item feature weights": k.item_feature_weight, "scores": rec.get_score(np.arange(m))}
        conds.append(worst_cond(rec, c, D))
        return {a: np.array(b, dtype=float) for a, b in out.items()}
    conds = []
    a, b = c["tt"]
    one, two, other = learn(a), learn(a), learn(b)
    loose = 5e-3 + 2e-6 * max(conds)
    for k in one:
        s = max(np.abs(one[k]).max(initial=0), 1e-3)
        for x, what in ((two[k], "learnt twice"), (other[k], f"{a} and {b} threads")):
            check(x.shape == one[k].shape and np.array_equal(np.isnan(x), np.isnan(one[k])), lambda: f"{k}: {what}: other shape or NaN pattern")
            d = np.nanmax(np.abs(x - one[k]), initial=0)
            check(d <= loose * s, lambda: f"{k}: {what}: largest difference {d} at scale {s}")
    ctx.tag("features" if F is not None or G is not None else "plain", f"threads {a}/{b}")
    ctx.nt((F is not None or G is not None) and X0.nnz > 2)


def answer(c):
    X = build(c["X"])
    return [x.tolist() for x in scores(c["cls"], recs.learn(c["cls"], c["p"], as_format(X, c["fmt"], 3), c["t"][0]), *X.shape, c["X"]["s"])]


def run_process(c, ctx):
    """A model learnt in another process (other string hashes, other memory layout) is the same."""
    if c["cls"] in ("TruncatedSVDRecommender", "NMFRecommender") and build(c["X"]).nnz == 0:
        raise Skip
    mine = [np.array(x, dtype=float) for x in answer(c)]
    other = [np.array(x, dtype=float) for x in peer.ask(PROPERTY, "answer", {**c, "t": c["t"][::-1]}, BARE)]
    same(c["cls"], mine, other, "the same model learnt in another process scores differently")
    ctx.tag(c["cls"])
    ctx.nt(np.unique(mine[0]).size > 2)


FACETS = [Facet("features", strategy_feat, run_feat, quick=200, thorough=4000, shards=3),
          Facet("models", strategy, run, quick=500, thorough=15000, shards=6),
          Facet("chunks", strategy_big, run, quick=60, thorough=1200, shards=4),
          Facet("degenerate", strategy_zero, run_zero, quick=60, thorough=800),
          Facet("processes", strategy, run_process, quick=70, thorough=3000, shards=2)]
