"""P11: cold-user evaluation feeds the given profiles and masks only them."""
import warnings

import numpy as np
import scipy.sparse as sps

from vlib.evalgen import RESTRICT, expected, restriction
from vlib.gen import as_format, build, mat, snapshot, st
from vlib.harness import Facet, check
from vlib.metrics import differs

PROPERTY, NATIVE, BARE = "P11", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 15  # multiplies the quick case counts
RULE = ("random input profiles and ground truths (1-20 users) x models whose scores depend on each profile row x masks x recommendable items x mini-batch sizes x "
        "optional feature-only items (supported by the model or not, sparse/dense features, warm or expanded mask); non-trivial: more than one mini-batch "
        "or feature-only items, and a non-zero hit rate")


def strategy():
    return st.fixed_dictionaries({
        "I": mat(20, 9, kinds=("ones", "int", "frac")), "G": mat(1, 1, kinds=("ones", "int")), "R": RESTRICT,
        "ifmt": st.sampled_from(["csr", "csc", "csr_unsorted"]), "mask": st.sampled_from([None, "warm", "full"]),
        "cold": st.sampled_from([None, None, 0, 1, 3]), "support": st.booleans(), "feat": st.sampled_from(["dense", "csr"]),
        "dtype": st.sampled_from(["float64", "float32"]), "order": st.sampled_from(["C", "F", "wide"]), "mb": st.sampled_from([1, 2, 3, 7, 1024]),
        "cuts": st.lists(st.integers(1, 12), min_size=1, max_size=3), "threads": st.sampled_from([1, 2]), "rwc": st.booleans(), "s": st.integers(0, 10**6)})


def mk_model(n, W, F, c):
    from irspack.recommenders.base import BaseRecommender

    def lay(A):
        A = A.astype(c["dtype"])
        if c["order"] == "F":
            return np.asfortranarray(A)
        if c["order"] == "wide":
            B = np.full((A.shape[0], A.shape[1] + 2), 9.0, dtype=A.dtype)
            B[:, : A.shape[1]] = A
            return B[:, : A.shape[1]]
        return A

    class Cold(BaseRecommender, register_class=False):
        def _learn(self):
            pass

        def get_score(self, ui):
            raise AssertionError("a cold-user evaluation used a known user's scores")

        def get_score_block(self, b, e):
            raise AssertionError("a cold-user evaluation used a known user's scores")

        def get_score_cold_user(self, X):
            assert X.shape[1] == n
            return lay(np.asarray(X.todense()) @ W)

    class ColdFeat(Cold, register_class=False):
        def get_score_cold_user_with_item_features(self, X, f):
            f = f.toarray() if sps.issparse(f) else np.asarray(f)
            return lay(np.hstack([np.asarray(X.todense()) @ W, np.asarray(X.todense()) @ F @ f.T]))

    return (ColdFeat if c["support"] else Cold)(sps.csr_matrix((3, n)))


def run(c, ctx):
    from irspack.evaluation import EvaluatorWithColdUser
    I = build(c["I"])
    m, n = I.shape
    k = c["cold"]
    N = n + (k or 0)
    G = build({**c["G"], "m": m, "n": N})
    rng = np.random.RandomState(c["s"])
    W = rng.permutation(n * n).reshape(n, n) / 8.0 - n
    F = rng.randint(-8, 8, size=(n, 2)) / 4.0 + 0.0625
    feats = rng.randint(-8, 8, size=(k or 0, 2)) / 4.0
    model = mk_model(n, W, F, c)
    kw, cand, n_rec = restriction(c["R"], m, N)
    M = None
    if c["mask"] == "full" or (c["mask"] == "warm" and k is None):
        M = build({"m": m, "n": N, "d": 3, "v": "ones", "s": c["s"] + 1, "e": 0})
    elif c["mask"] == "warm":
        M = build({"m": m, "n": n, "d": 3, "v": "ones", "s": c["s"] + 1, "e": 0})
    args = dict(cutoff=min(c["cuts"][0], N), masked_interactions=M, n_threads=c["threads"], mb_size=c["mb"], recall_with_cutoff=c["rwc"], **kw)
    if k is not None:
        args["cold_item_features"] = sps.csr_matrix(feats) if c["feat"] == "csr" else feats
    Ia = as_format(I, c["ifmt"], 3)
    frozen = snapshot(Ia)[3], snapshot(G)
    ev = EvaluatorWithColdUser(Ia, G, **args)
    P = I.toarray()
    S = (P @ W).astype(c["dtype"]).astype(float)
    if k is not None:
        extra = (P @ F @ feats.T).astype(c["dtype"]).astype(float) if c["support"] else np.full((m, k), -np.inf)
        S = np.hstack([S, extra])
    hid = np.zeros((m, N), bool)
    if M is None:
        hid[:, :n] = P != 0
    else:
        hid[:, : M.shape[1]] = M.toarray() != 0
    T = S.copy()
    T[hid] = -np.inf
    cuts = [min(q, N) for q in c["cuts"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for rep in range(2):
            got = ev.get_scores(model, cuts)
            for q in cuts:
                want = expected(T, G.toarray(), q, cand, n_rec, c["rwc"])
                keys = [x for x in want if f"{x}@{q}" in got]
                bad = differs({x: got[f"{x}@{q}"] for x in keys}, want, keys)
                check(len(keys) == 9 and not bad, lambda: f"cutoff {q}: {bad}\nscores {T.tolist()}\ntruth {G.toarray().tolist()}")
                ctx.nt(want["hit"] > 0 and (m > c["mb"] or bool(k)))
        one = ev.get_score(model)
    bad = differs(one, expected(T, G.toarray(), cuts[0], cand, n_rec, c["rwc"]))
    check(not bad, lambda: f"get_score: {bad}")
    raw = ev.get_score_from_score_matrix(S.astype(c["dtype"]))
    bad = differs(raw, expected(T, G.toarray(), cuts[0], cand, n_rec, c["rwc"]))
    check(not bad, lambda: f"score matrix of cold users: {bad}")
    check((snapshot(Ia)[3], snapshot(G)) == frozen, "a caller's matrix was modified")
    ctx.tag("features" if k else "plain")


def strategy_real():
    return st.fixed_dictionaries({"X": mat(12, 8, min_rows=4, min_cols=3), "I": mat(9, 1), "G": mat(1, 1), "k": st.integers(1, 3),
                                  "mb": st.sampled_from([1, 2, 100]), "cut": st.integers(1, 8), "sparse": st.booleans(), "s": st.integers(0, 10**6)})


def run_real(c, ctx):
    """Feature-aware factorisation: evaluator == definitions on the model's own cold-user/cold-item scores."""
    from irspack.evaluation import EvaluatorWithColdUser
    from irspack.recommenders import IALSRecommender
    X = build({**c["X"], "d": max(2, c["X"]["d"])})
    n = X.shape[1]
    rng = np.random.RandomState(c["s"])
    feats = rng.normal(size=(n + c["k"], 3))
    cv = sps.csr_matrix if c["sparse"] else (lambda a: a)
    model = IALSRecommender(X, n_components=2, train_epochs=2, n_threads=1, item_features=cv(feats[:n]), lambda_item_feature=1.0, alpha0=0.1).learn()
    I = build({**c["I"], "n": n})
    m = I.shape[0]
    G = build({**c["G"], "m": m, "n": n + c["k"]})
    cold = cv(feats[n:])
    ev = EvaluatorWithColdUser(I, G, cutoff=min(c["cut"], n), mb_size=c["mb"], n_threads=1, cold_item_features=cold)
    S = np.asarray(model.get_score_cold_user_with_item_features(I, cold), dtype=float)
    check(S.shape == (m, n + c["k"]), "score shape")
    S[:, :n][I.toarray() != 0] = -np.inf
    want = expected(S, G.toarray(), min(c["cut"], n))
    got = ev.get_score(model)
    # near-ties may flip between differently batched float computations: compare only when the ranking is separated
    srt = np.sort(np.where(np.isfinite(S), S, -1e9), axis=1)
    gap = np.diff(srt, axis=1)
    if S.shape[1] < 2 or np.min(np.where(gap > 1e8, 1, np.where(srt[:, 1:] < -1e8, 1, gap)), initial=1) > 1e-4:
        bad = differs(got, want)
        check(not bad, lambda: f"{bad}")
        ctx.nt(want["hit"] > 0)


FACETS = [Facet("cold", strategy, run, quick=500, thorough=15000, shards=4),
          Facet("ials_features", strategy_real, run_real, quick=80, thorough=2000, shards=2)]
