"""P20: scoring interface contract of every recommender."""
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import recs
from vlib.gen import as_format, build, edge, mat, snapshot, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P20", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 5  # multiplies the quick case counts
RULE = ("all 15 importable recommenders x random parameters x matrices (1-12 x 2-12, empty rows/columns; 130-200 rows in a second facet) in csr/csc/coo/lil/unsorted/dense form and float64/float32/int64/bool; "
        "random histories of 3-10 scoring calls (subset with repeats, block, seen-removed variants, new users) whose results are overwritten by the caller in between; "
        "oracle: rows of the first full score matrix; non-trivial: >=2 distinct kinds of call and scores that differ between users or items")
ASSUMPTIONS = ["floating-point equality up to the model's precision (1e-9 sparse native models, 1e-4 single-precision models)",
               "block scoring is not offered by the popularity and NMF models, nor new-user scoring by the user-neighbourhood models",
               "NMF's default initialisation needs a matrix of rank >= n_components (scikit-learn yields NaN otherwise)"]
SIMILARITY = {"P3alphaRecommender", "RP3betaRecommender", "CosineKNNRecommender", "AsymmetricCosineKNNRecommender", "JaccardKNNRecommender", "TverskyIndexKNNRecommender", "SLIMRecommender",
              "DenseSLIMRecommender", "EDLAERecommender", "TopPopRecommender"}
OPS = ["get", "get", "block", "seen", "seenblock", "cold", "coldseen"]


def strategy():
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "s": st.integers(0, 10**4), "k": st.integers(0, 8), "u": st.booleans()})
    return recs.strategy(X=mat(12, 12, min_cols=2), fmt=st.sampled_from(["csr", "csc", "coo", "lil", "csr_unsorted", "dense"]), dt=st.sampled_from(["float64", "float32", "int64", "bool"]),
                         ops=st.lists(op, min_size=3, max_size=10), t=st.sampled_from([1, 2, 7]))


def strategy_big():
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "s": st.integers(0, 10**4), "k": st.integers(0, 150), "u": st.booleans()})
    return recs.strategy(X=st.fixed_dictionaries({"m": edge(130, 200), "n": edge(30, 66), "d": st.sampled_from([1, 3]), "v": st.just("frac"), "s": st.integers(0, 10**6), "e": st.integers(0, 3)}),
                         fmt=st.sampled_from(["csr", "csc"]), dt=st.just("float64"), ops=st.lists(op, min_size=3, max_size=8), t=st.sampled_from([1, 2, 7]))


def near(cls, x, y):
    rtol = 1e-4 if cls in ("SLIMRecommender", "DenseSLIMRecommender", "EDLAERecommender", "IALSRecommender") else 1e-9
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    fin = np.isfinite(y)
    s = np.abs(y[fin]).max(initial=0)
    return np.array_equal(x[~fin], y[~fin]) and bool(np.all(np.abs(x[fin] - y[fin]) <= rtol * s + 1e-12))


def run(c, ctx):
    cls, p = c["cls"], c["p"]
    X0 = build(c["X"])
    if c["dt"] in ("int64", "bool"):
        X0.data = np.ceil(X0.data)
    X0 = X0.astype(c["dt"])
    if c["dt"] == "bool":
        X0 = X0.astype(float)  # reference values
    m, n = X0.shape
    if cls in ("TruncatedSVDRecommender", "NMFRecommender") and (X0.nnz == 0 or m < 2):
        raise Skip
    if cls == "NMFRecommender" and p["init"] is None and np.linalg.matrix_rank(X0.toarray().astype(float)) < p["n_components"]:
        raise Skip  # scikit-learn's SVD-based start divides by a zero singular value
    Xin = X0.astype(c["dt"])
    X = Xin.toarray() if c["fmt"] == "dense" else as_format(Xin, c["fmt"], 2)
    D = X0.toarray().astype(float)
    before = snapshot(X)
    rec = recs.learn(cls, p, X, c["t"])
    ref_rec = recs.learn(cls, p, sps.csr_matrix(D), c["t"])
    users = np.arange(m)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        F = np.array(rec.get_score(users), dtype=float)
        G = np.array(ref_rec.get_score(users), dtype=float)
    check(F.shape == (m, n), lambda: f"{cls}: full score matrix has shape {F.shape}, expected {(m, n)}")
    check(np.all(np.isfinite(F)), lambda: f"{cls}: non-finite scores")
    lo = recs.LOOSE.get(cls, 1e-9)
    check(np.all(np.abs(F - G) <= lo * np.abs(G).max(initial=0) + 1e-12), lambda: f"{cls}: scores depend on the storage format or element type ({c['fmt']}, {c['dt']})")
    check(rec.n_users == m and rec.n_items == n, "n_users / n_items")
    kinds = set()
    for o in c["ops"]:
        rng = np.random.RandomState(o["s"])
        k = o["op"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k in ("get", "seen"):
                idx = rng.randint(0, m, size=o["k"] + 1) if o["u"] else rng.permutation(m)[:max(1, min(m, o["k"]))]
                idx = idx.astype(np.int32 if o["s"] % 3 == 0 else np.int64)
                got = rec.get_score(idx) if k == "get" else rec.get_score_remove_seen(idx)
                want, mask = F[idx], D[idx] != 0
            elif k in ("block", "seenblock"):
                if cls in recs.NO_BLOCK:
                    continue
                b = int(rng.randint(0, m + 1))
                e = min(m, b + o["k"])
                got = rec.get_score_block(b, e) if k == "block" else rec.get_score_remove_seen_block(b, e)
                want, mask = F[b:e], D[b:e] != 0
            else:
                if cls in recs.NO_COLD:
                    continue
                if o["u"] and cls in SIMILARITY:  # profiles of known users
                    idx = rng.randint(0, m, size=o["k"] + 1)
                    N = D[idx]
                    want = F[idx]
                else:
                    N = np.where(rng.uniform(size=(o["k"] + 1, n)) < 0.4, rng.randint(1, 5, size=(o["k"] + 1, n)), 0).astype(float)
                    want = None
                Y = sps.csr_matrix(N) if o["s"] % 2 else sps.csc_matrix(N)
                if o["s"] % 5 == 0:
                    Y = Y.astype(np.float32)
                yb = snapshot(Y)
                plain = np.array(rec.get_score_cold_user(Y), dtype=float)
                if want is None:
                    want = plain
                    check(plain.shape == N.shape and np.all(np.isfinite(plain)), lambda: f"{cls}: new-user scores have shape {plain.shape} or are not finite")
                    if N.shape[0] > 1 and cls not in ("NMFRecommender",):  # each profile is scored on its own
                        j = int(rng.randint(N.shape[0]))
                        one = np.array(rec.get_score_cold_user(Y.tocsr()[j]), dtype=float)
                        check(near(cls if cls != "TruncatedSVDRecommender" else "EDLAERecommender", one[0], plain[j]) or (cls == "IALSRecommender" and np.all(np.abs(one[0] - plain[j]) <= 1e-2 * np.abs(plain[j]).max())), lambda: f"{cls}: a new user's scores depend on the other users in the batch")
                got = plain if k == "cold" else rec.get_score_cold_user_remove_seen(Y)
                mask = N != 0
                check(snapshot(Y)[3] == yb[3], f"{cls}: scoring modified the given profiles")
        kinds.add(k)
        got = np.asarray(got)
        check(isinstance(got, np.ndarray) and not isinstance(got, np.matrix) and got.ndim == 2, lambda: f"{cls}.{k}: result is {type(got)} with {got.ndim} dimensions")
        if "seen" in k:
            want = np.where(mask, -np.inf, want)
            check(np.array_equal(np.isneginf(got.astype(float)), mask), lambda: f"{cls}.{k}: minus infinity is not exactly on the seen items")
        check(near(cls, got, want), lambda: f"{cls}.{k}: {got.tolist()[:3]} expected {want.tolist()[:3]}")
        if got.flags.writeable:
            got[...] = 123.0  # the caller owns what it was given
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check(near(cls, rec.get_score(users), F), lambda: f"{cls}: scores changed after a history of scoring calls")
        if hasattr(rec, "get_item_embedding"):
            U, V = np.array(rec.get_user_embedding(), dtype=float), np.array(rec.get_item_embedding(), dtype=float)
            check(U.shape[0] == m and V.shape[0] == n, "embedding shapes")
            tol = 1e-4 * (np.abs(F).max(initial=0) + np.abs(U).max(initial=0) * np.abs(V).max(initial=0) * U.shape[1])
            check(np.all(np.abs(U @ V.T - F) <= tol + 1e-12), lambda: f"{cls}: scores are not the product of the reported embeddings")
            check(np.all(np.abs(rec.get_score_from_user_embedding(np.array(rec.get_user_embedding())) - F) <= tol + 1e-12), f"{cls}: get_score_from_user_embedding")
            idx = np.arange(m)[::-1]
            check(np.all(np.abs(rec.get_score_from_item_embedding(idx, np.array(rec.get_item_embedding())) - F[idx]) <= tol + 1e-12), f"{cls}: get_score_from_item_embedding")
    check(snapshot(X) == before, lambda: f"{cls}: learning or scoring modified the caller's matrix")
    check(np.array_equal(rec.X_train_all.toarray(), D), lambda: f"{cls}: the stored training matrix changed")
    from irspack.recommenders import get_recommender_class
    check(get_recommender_class(cls) is type(rec), "get_recommender_class")
    ctx.tag(cls, *kinds)
    ctx.nt(len(kinds) >= 2 and np.unique(F).size > 1)


FACETS = [Facet("history", strategy, run, quick=700, thorough=20000, shards=7),
          Facet("wide", strategy_big, run, quick=40, thorough=900, shards=1)]
