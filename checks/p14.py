"""P14: random-walk models learn the documented transition weights."""
import numpy as np
import scipy.sparse as sps

from vlib.gen import as_format, build, edge, mat, snapshot, st
from vlib.harness import Facet, check
from vlib.weights import check_topk

PROPERTY, NATIVE, BARE = "P14", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 15  # multiplies the quick case counts
RULE = ("random non-negative matrices (1-12 x 1-12, larger ones past the 128-row chunk) x plain/popularity-penalised walk x exponents, neighbour count, "
        "normalisation, two thread counts; oracle: dense transition matrices; non-trivial: some off-diagonal weight and (limit active or normalised)")
ASSUMPTIONS = ["non-negative interaction values", "item popularity is the item's total interaction weight; the neighbour limit applies per target item (column of W)"]


def strategy(big=False):
    m = (st.fixed_dictionaries({"m": edge(120, 300), "n": edge(120, 300), "d": st.just(0.3), "v": st.sampled_from(["ones", "frac"]),
                                "s": st.integers(0, 10**6), "e": st.integers(0, 3)}) if big else mat(12, 12, kinds=("ones", "int", "frac", "real")))
    return st.fixed_dictionaries({
        "X": m, "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]), "beta": st.sampled_from([None, None, 0.0, 0.3, 0.6, 1.0, 2.0]),
        "alpha": st.sampled_from([1.0, 0.5, 2.0, 0.0, 1.3]), "k": st.one_of(st.none(), st.integers(1, 5), st.sampled_from([1, 100])),
        "norm": st.booleans(), "t": st.sampled_from([[1, 2], [1, 8], [3, 4], [1, 13]])})


def run(c, ctx):
    from irspack.recommenders import P3alphaRecommender, RP3betaRecommender
    X0 = build(c["X"])
    X = as_format(X0, c["fmt"], 5)
    before = snapshot(X)
    D = X0.toarray()
    n = D.shape[1]
    A = np.where(D != 0, np.power(np.where(D != 0, D, 1.0), c["alpha"]), 0.0)
    with np.errstate(divide="ignore", invalid="ignore"):
        iu = np.nan_to_num((A / A.sum(0, keepdims=True)).T)  # item -> user
        ui = np.nan_to_num(A / A.sum(1, keepdims=True))      # user -> item
        if c["beta"] is not None:
            pop = D.sum(0)
            ui = np.nan_to_num(ui / np.where(pop > 0, pop, 1.0)[None, :] ** c["beta"])
    want = iu @ ui
    pat = (D != 0).astype(float)
    cand = (pat.T @ pat) > 0
    k = n if c["k"] is None else c["k"]
    outs = []
    for norm in ([False, True] if c["norm"] else [False]):
        for t in c["t"]:
            kw = dict(alpha=c["alpha"], top_k=c["k"], normalize_weight=norm, n_threads=t)
            rec = P3alphaRecommender(X, **kw) if c["beta"] is None else RP3betaRecommender(X, beta=c["beta"], **kw)
            W = rec.learn().W
            outs.append(W.toarray() if sps.issparse(W) else np.asarray(W))
    check(snapshot(X) == before, "the training matrix was modified")
    check_topk(outs[0].T, want.T, cand.T, k, "transition weights (transposed)", rtol=1e-8)
    check(np.array_equal(outs[0], outs[1]), "thread count changes the weights")
    if c["norm"]:
        s = outs[0].sum(1, keepdims=True)
        ref = np.where(s > 0, outs[0] / np.where(s > 0, s, 1.0), 0.0)
        check(np.allclose(outs[2], ref, rtol=1e-9, atol=1e-12), "normalised weights are not the plain weights with unit row sums")
        check(np.array_equal(outs[2], outs[3]), "thread count changes the normalised weights")
    score = rec.get_score(np.arange(D.shape[0]))
    check(np.allclose(score, D @ outs[-1], rtol=1e-9, atol=1e-12), "scores are not the weighted sums")
    off = want.copy()
    np.fill_diagonal(off, 0)
    ctx.nt(np.any(off != 0) and (k < cand.sum(0).max() or c["norm"]))
    ctx.tag("p3" if c["beta"] is None else "rp3")


def strategy_core():
    return st.fixed_dictionaries({"X": mat(20, 8), "beta": st.sampled_from([None, 0.0, 0.6, 2.0]), "alpha": st.sampled_from([1.0, 0.5, 2.0]),
                                  "k": st.integers(1, 9), "chunk": st.sampled_from([1, 2, 3, 5]), "t": st.sampled_from([1, 2, 5, 31])})


def run_core(c, ctx):
    from irspack.recommenders import _knn as K
    X = build(c["X"])  # items x users

    def W(**kw):
        comp = K.P3alphaComputer(X, alpha=c["alpha"], **kw) if c["beta"] is None else K.RP3betaComputer(X, alpha=c["alpha"], beta=c["beta"], **kw)
        return comp.compute_W(X, c["k"]).toarray()
    a, b = W(), W(n_threads=c["t"], max_chunk_size=c["chunk"])
    check(np.array_equal(a, b), f"chunking/threads change the weights")
    ctx.nt(np.any(a != 0))


FACETS = [Facet("models", strategy, run, quick=900, thorough=25000, shards=5),
          Facet("large", lambda: strategy(True), run, quick=12, thorough=300, shards=2),
          Facet("chunks", strategy_core, run_core, quick=200, thorough=5000)]
