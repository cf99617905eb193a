"""P13: neighbourhood models learn the documented similarity of their neighbours."""
import numpy as np
import scipy.sparse as sps

from vlib.gen import as_format, build, edge, mat, snapshot, st
from vlib.harness import Facet, check
from vlib.weights import bm25, check_topk, tfidf

PROPERTY, NATIVE, BARE = "P13", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 15  # multiplies the quick case counts
RULE = ("random non-negative matrices (1-12 x 1-12, and larger ones past the 128-row work chunk) x six neighbourhood models x shrinkage, neighbour count, "
        "exponents, weighting scheme x two thread counts; oracle: dense textbook formulas and exact top-k per row; non-trivial: some off-diagonal "
        "similarity is non-zero and the neighbour limit or a weighting scheme is active")
ASSUMPTIONS = ["non-negative interaction values", "the self-similarity takes part in the neighbour ranking and is removed afterwards (as documented by the top_k tests)",
               "with a weighting scheme the neighbour side is weighted and the target side is not (as implemented upstream)",
               "the 1e-6 term stabilising denominators is part of the definition"]
MODELS = ["cos", "asym", "jac", "tver", "ucos", "uasym"]


def strategy(big=False):
    m = (st.fixed_dictionaries({"m": edge(120, 300), "n": edge(120, 300), "d": st.just(0.3), "v": st.sampled_from(["ones", "frac"]),
                                "s": st.integers(0, 10**6), "e": st.integers(0, 3)}) if big else mat(12, 12, kinds=("ones", "int", "frac", "real")))
    return st.fixed_dictionaries({
        "X": m, "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]), "dtype": st.sampled_from(["float64", "float64", "float32"]),
        "model": st.sampled_from(MODELS), "shrink": st.sampled_from([0.0, 0.5, 3, 100.0]), "norm": st.booleans(),
        "alpha": st.sampled_from([0.0, 0.25, 0.5, 0.7, 1.0]), "beta": st.sampled_from([0.0, 0.5, 1.0, 2.0]),
        "k": st.one_of(st.integers(1, 6), st.sampled_from([1, 100, 5000])), "w": st.sampled_from(["NONE", "NONE", "TF_IDF", "BM_25"]),
        "k1": st.sampled_from([1.2, 0.3, 2.5]), "b": st.sampled_from([0.75, 0.0, 1.0]), "t": st.sampled_from([[1, 2], [1, 8], [3, 4], [1, 13]])})


def similarity(T, W, c):
    """rows of T against rows of W (dense): documented similarity, candidate mask."""
    cand = ((T != 0).astype(float) @ (W != 0).T.astype(float)) > 0
    kind = c["model"].lstrip("u")
    s = c["shrink"] + 1e-6
    if kind == "cos":
        num = T @ W.T
        if c["norm"]:
            num = num / (np.linalg.norm(T, axis=1)[:, None] * np.linalg.norm(W, axis=1)[None, :] + s)
    elif kind == "asym":
        num = T @ W.T / ((T**2).sum(1)[:, None] ** c["alpha"] * (W**2).sum(1)[None, :] ** (1 - c["alpha"]) + s)
    else:
        A, B = (T != 0).astype(float), (W != 0).astype(float)
        inter = A @ B.T
        a, b = A.sum(1)[:, None] - inter, B.sum(1)[None, :] - inter
        num = inter / (inter + (c["alpha"] * a + c["beta"] * b if kind == "tver" else a + b) + s)
    return np.where(cand, num, 0.0), cand


def make(c, X, t):
    from irspack import recommenders as R
    w = dict(feature_weighting=c["w"], bm25_k1=c["k1"], bm25_b=c["b"])
    kw = dict(shrinkage=c["shrink"], top_k=c["k"], n_threads=t)
    m = c["model"]
    if m == "cos":
        return R.CosineKNNRecommender(X, normalize=c["norm"], **w, **kw)
    if m == "asym":
        return R.AsymmetricCosineKNNRecommender(X, alpha=c["alpha"], **w, **kw)
    if m == "jac":
        return R.JaccardKNNRecommender(X, **kw)
    if m == "tver":
        return R.TverskyIndexKNNRecommender(X, alpha=c["alpha"], beta=c["beta"], **kw)
    if m == "ucos":
        return R.CosineUserKNNRecommender(X, normalize=c["norm"], **w, **kw)
    return R.AsymmetricCosineUserKNNRecommender(X, alpha=c["alpha"], **w, **kw)


def run(c, ctx):
    X0 = build(c["X"]).astype(c["dtype"])
    X = as_format(X0, c["fmt"], 5)
    before = snapshot(X)
    D = X0.toarray().astype(float)
    weighted = D
    if c["model"] not in ("jac", "tver"):
        weighted = {"NONE": lambda d: d, "TF_IDF": tfidf, "BM_25": lambda d: bm25(d, c["k1"], c["b"])}[c["w"]](D)
    user = c["model"].startswith("u")
    T, W = (D, weighted) if user else (D.T, weighted.T)
    want, _ = similarity(T, W, c)
    P = (D if user else D.T) != 0
    cand = (P.astype(float) @ P.T.astype(float)) > 0
    outs = []
    for t in c["t"]:
        rec = make(c, X, t).learn()
        S = rec.U if user else rec.W
        outs.append(S.toarray() if sps.issparse(S) else np.asarray(S))
    check(snapshot(X) == before, "the training matrix was modified")
    n = want.shape[0]
    check(outs[0].shape == (n, n), "similarity shape")
    check_topk(outs[0], want, cand, c["k"], f"{c['model']} similarity", free=np.eye(n, dtype=bool), rtol=1e-8)
    check(np.array_equal(outs[0], outs[1]), lambda: f"thread counts {c['t']} give different similarities: {np.argwhere(outs[0] != outs[1])[:5].tolist()}")
    score = rec.get_score(np.arange(D.shape[0]))
    ref = outs[1] @ D if user else D @ outs[1]
    check(np.allclose(score, ref, rtol=1e-9, atol=1e-9), "scores are not the weighted sums of the similarities")
    off = want.copy()
    np.fill_diagonal(off, 0)
    ctx.nt(np.any(off != 0) and (c["k"] < cand.sum(1).max() or c["w"] != "NONE"))
    ctx.tag(c["model"], "limited" if c["k"] < cand.sum(1).max() else "unlimited")


def strategy_core():
    return st.fixed_dictionaries({
        "X": mat(20, 8), "T": mat(20, 1), "model": st.sampled_from(["cos", "asym", "jac", "tver"]), "shrink": st.sampled_from([0.0, 1.0]), "norm": st.booleans(),
        "alpha": st.sampled_from([0.0, 0.3, 1.0]), "beta": st.sampled_from([0.0, 0.7]), "k": st.integers(0, 9),
        "chunk": st.sampled_from([1, 2, 3, 5, 128]), "t": st.sampled_from([[1, 2], [1, 5], [2, 31]])})


def run_core(c, ctx):
    """The kernels themselves: any target rows against any base rows, any chunk size."""
    from irspack.recommenders import _knn as K
    X, T = build(c["X"]), build({**c["T"], "n": c["X"]["n"]})
    outs = []
    for t in c["t"]:
        kw = dict(n_threads=t, max_chunk_size=c["chunk"])
        comp = {"cos": lambda: K.CosineSimilarityComputer(X, c["shrink"], c["norm"], **kw),
                "asym": lambda: K.AsymmetricSimilarityComputer(X, c["shrink"], c["alpha"], **kw),
                "jac": lambda: K.JaccardSimilarityComputer(X, c["shrink"], **kw),
                "tver": lambda: K.TverskyIndexComputer(X, c["shrink"], c["alpha"], c["beta"], **kw)}[c["model"]]()
        outs.append(comp.compute_similarity(T, c["k"]).toarray())
        again = comp.compute_similarity(T, c["k"]).toarray()
        check(np.array_equal(outs[-1], again), "a second computation gives another result")
    want, cand = similarity(T.toarray(), X.toarray(), c)
    check_topk(outs[0], want, cand, c["k"], c["model"], rtol=1e-9)
    check(np.array_equal(outs[0], outs[1]), "thread count changes the result")
    ctx.nt(np.any(want != 0) and T.shape[0] > c["chunk"])
    ctx.tag("core")


FACETS = [Facet("models", strategy, run, quick=900, thorough=25000, shards=4),
          Facet("large", lambda: strategy(True), run, quick=14, thorough=300, shards=2),
          Facet("kernels", strategy_core, run_core, quick=500, thorough=15000, shards=2)]
