"""P29: memory errors, uninitialised reads and data races in the native code."""
import contextlib
import ctypes
import io
import subprocess
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import recs
from vlib.evalgen import Model
from vlib.gen import build, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P29", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 4  # multiplies the quick case counts
RULE = ("random histories of 1-3 valid public calls that reach native code (row splits, weighting, products, recommendation retrieval, evaluation with masks and restrictions, table evaluation, every native recommender, iALS with features, "
        "fold-in, pickling), on matrices of 1-260 rows/columns with empty rows, 1-9 threads; executed against native modules built from the current sources with (a) AddressSanitizer + UndefinedBehaviorSanitizer + library assertions, "
        "(b) ThreadSanitizer, (c) twice over heaps filled with two different byte patterns, answers compared; oracle: no sanitizer report, equal answers; non-trivial: at least 2 threads (b), or a matrix with at least two non-zeros")
ASSUMPTIONS = ["numpy, scipy and the interpreter are not instrumented", "stack variables are outside the heap-pattern comparison",
               "the binding layer is the stand-in of /verif/shim, and Eigen the system's 3.4"]
I = st.integers


def _lib(name):
    return subprocess.run(["gcc", f"-print-file-name={name}"], capture_output=True, text=True).stdout.strip()


ASAN = {"LD_PRELOAD": _lib("libasan.so") + " " + _lib("libubsan.so"), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1", "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1"}
TSAN = {"LD_PRELOAD": _lib("libtsan.so"), "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_thread_leaks=0:history_size=4:exitcode=66"}
HEAP = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
MAT = st.fixed_dictionaries({"m": st.sampled_from([1, 2, 3, 5, 8, 17, 40, 131, 260]), "n": st.sampled_from([2, 3, 5, 8, 17, 33, 130]), "d": st.sampled_from([0.2, 1, 3, 6, 10]), "v": st.sampled_from(["ones", "int", "frac"]), "s": I(0, 10**6), "e": I(0, 3)})
NATIVE_RECS = [k for k in recs.PARAMS if k not in recs.NO_THREADS]
OPS = ["model", "split", "ials", "split_n", "model", "weights", "mm", "model", "retrieve", "eval", "model", "eval_model", "cold", "tables", "model", "ials"]


def strategy(threads):
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "a": I(0, 10**4), "rec": recs.strategy(NATIVE_RECS)})
    return lambda: st.fixed_dictionaries({"X": MAT, "t": st.sampled_from(threads), "ops": st.lists(op, min_size=1, max_size=3)})


def op_split(X, o, t):
    from irspack.utils import rowwise_train_test_split as f
    return [Y.toarray() for Y in f(X, test_ratio=o["a"] % 11 / 10, ceil_n_heldout=bool(o["a"] & 16), random_state=o["a"])]


def op_split_n(X, o, t):
    from irspack.utils import rowwise_train_test_split as f
    return [Y.toarray() for Y in f(X, n_test=o["a"] % 7, random_state=o["a"])]


def op_weights(X, o, t):
    from irspack import utils as U
    out = []
    if X.nnz:
        out = [U.tf_idf_weight(X).toarray(), U.okapi_BM_25_weight(X).toarray()]
    k = min(X.shape)
    return out + [U.remove_diagonal(X[:k, :k]).toarray()]


def op_mm(X, o, t):
    from irspack.utils import sparse_mm_threaded as f
    return [f(X, X.T.tocsc(), t)]


def scores(X, o):
    rng = np.random.RandomState(o["a"])
    S = np.round(rng.uniform(size=X.shape), 1 + o["a"] % 3).astype(["float64", "float32"][o["a"] % 2])
    S[rng.uniform(size=X.shape) < o["a"] % 4 * 0.3] = -np.inf
    k = o["a"] // 7 % 4
    if k == 1:
        S = np.asfortranarray(S)
    elif k == 2:  # a window into a larger array
        B = np.full((S.shape[0] + 2, S.shape[1] + 5), 9.0, dtype=S.dtype)
        B[1:-1, 2:-3] = S
        S = B[1:-1, 2:-3]
    elif k == 3:
        S = S[::-1, ::-1]
    return S, rng


def op_retrieve(X, o, t):
    from irspack.utils import ItemIDMapper
    S, rng = scores(X, o)
    ids = list(range(X.shape[1]))
    kw = {}
    if o["a"] % 3 == 1:
        kw["allowed_item_ids"] = [int(j) for j in rng.permutation(ids)[:rng.randint(0, len(ids) + 1)]]
    if o["a"] % 3 == 2:
        kw["per_user_allowed_item_ids"] = [[int(j) for j in rng.permutation(ids)[:rng.randint(0, len(ids) + 1)]] for _ in range(X.shape[0])]
    r = ItemIDMapper(ids).score_to_recommended_items_batch(S, 1 + o["a"] % (X.shape[1] + 3), n_threads=t, **kw)
    return [np.array([x for row in r for x in row], dtype=float)]


def evaluator(X, o, t, cold=False):
    from irspack.evaluation import Evaluator, EvaluatorWithColdUser
    S, rng = scores(X, o)
    G = sps.csr_matrix((rng.uniform(size=X.shape) < 0.3).astype(float))
    n = X.shape[1]
    kw = dict(cutoff=1 + o["a"] % n, n_threads=t, mb_size=1 + o["a"] % 50, recall_with_cutoff=bool(o["a"] & 8))
    if o["a"] % 5 == 1:
        kw["recommendable_items"] = sorted(int(j) for j in rng.permutation(n)[:1 + rng.randint(n)])
    elif o["a"] % 5 == 2:
        kw["per_user_recommendable_items"] = [sorted(int(j) for j in rng.permutation(n)[:1 + rng.randint(n)]) for _ in range(X.shape[0])]
    elif o["a"] % 5 == 3:
        kw["masked_interactions"] = X
    E = EvaluatorWithColdUser(X, G, **kw) if cold else Evaluator(G, **kw)
    return E, S, kw


def op_eval(X, o, t):
    E, S, kw = evaluator(X, o, t)
    r = E.get_scores_from_score_matrix(S, [kw["cutoff"], 1, X.shape[1]])
    return [np.array(sorted(r.items(), key=lambda x: x[0])[k][1]) for k in range(len(r))] if isinstance(r, dict) else [np.array(list(x.values()), dtype=float) for x in r]


def op_eval_model(X, o, t):
    E, S, kw = evaluator(X, o, t)
    return [np.array(list(E.get_score(Model(X, S, bool(o["a"] & 32), ["copy", "wide"][o["a"] // 3 % 2])).values()), dtype=float)]


def op_cold(X, o, t):
    from irspack.recommenders import CosineKNNRecommender
    E, S, kw = evaluator(X, o, t, True)
    return [np.array(list(E.get_score(CosineKNNRecommender(X, n_threads=t).learn()).values()), dtype=float)]


def op_tables(X, o, t):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    rng = np.random.RandomState(o["a"])
    rows = [(u, int(j)) for u in range(X.shape[0]) for j in rng.permutation(X.shape[1])[:rng.randint(1, 1 + X.shape[1])]]
    G = X.tocoo()
    if not G.nnz:
        raise Skip
    r = evaluate_recommendation_df(pd.DataFrame(rows, columns=["u", "i"]), pd.DataFrame({"u": G.row, "i": G.col}), "u", "i", n_threads=t)
    return [np.array(list(r.values()), dtype=float)]


def op_model(X, o, t):
    cls, p = o["rec"]["cls"], o["rec"]["p"]
    if X.nnz == 0 and cls in ("TruncatedSVDRecommender", "NMFRecommender"):
        raise Skip
    if cls == "SLIMRecommender":
        p = {**p, "n_iter": 5}
    m = recs.learn(cls, p, X, t)
    out = [np.asarray(m.get_score(np.arange(X.shape[0])))]
    if cls not in recs.NO_COLD:
        out.append(np.asarray(m.get_score_cold_user(X[: 1 + o["a"] % X.shape[0]])))
    return out


def op_ials(X, o, t):
    import pickle
    from irspack.recommenders import IALSRecommender
    a, (m, n) = o["a"], X.shape
    rng = np.random.RandomState(a)
    kw = dict(n_components=1 + a % 9, alpha0=[0.1, 1.0][a % 2], reg=0.1, solver_type=["CG", "CHOLESKY", "IALSPP"][a % 3], loss_type=["IALSPP", "ORIGINAL"][a // 3 % 2], max_cg_steps=1 + a % 4, ialspp_subspace_dimension=1 + a % 5, n_threads=t, random_seed=a, init_std=[0.1, 1.0, 0.0][a // 5 % 3])
    uf = itf = None
    if kw["solver_type"] != "IALSPP":
        if a // 6 % 3:
            uf = rng.randint(-4, 5, size=(m, 1 + a % 4)) / 4.0
            kw.update(user_features=sps.csr_matrix(uf) if a // 6 % 3 == 1 else uf, lambda_user_feature=0.5)
        if a // 18 % 3:
            itf = rng.randint(-4, 5, size=(n, 1 + a % 3)) / 4.0
            kw.update(item_features=sps.csr_matrix(itf) if a // 18 % 3 == 1 else itf, lambda_item_feature=0.5)
    r = IALSRecommender(X, train_epochs=1 + a % 2, **kw).learn()
    k = 1 + a % m
    out = [np.asarray(r.get_score(np.arange(m))), r.get_score_block(0, k), np.array([r.compute_loss()] if hasattr(r, "compute_loss") else [0.0])]
    if uf is None:
        out.append(r.compute_user_embedding(X[:k]))
    if itf is None:
        out.append(r.compute_item_embedding(X[:, : 1 + a % n]))
    out.append(np.asarray(pickle.loads(pickle.dumps(r)).get_score(np.arange(k))))
    return out


RUN = {"split": op_split, "split_n": op_split_n, "weights": op_weights, "mm": op_mm, "retrieve": op_retrieve, "eval": op_eval, "eval_model": op_eval_model, "cold": op_cold, "tables": op_tables, "model": op_model, "ials": op_ials}


def history(c, X, ctx):
    out = []
    for o in c["ops"]:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                out.append(RUN[o["op"]](X, o, c["t"]))
            except (Skip, ValueError, RuntimeError, TypeError, IndexError, AssertionError, ZeroDivisionError, np.linalg.LinAlgError):
                ctx.tag("refused " + o["op"])
                out.append([])  # a refusal is not this property's subject
    return out


def run_san(c, ctx):
    X = build(c["X"])
    history(c, X, ctx)
    for o in c["ops"]:
        ctx.tag(o["op"] if o["op"] != "model" else o["rec"]["cls"])
    ctx.nt(X.nnz >= 2)


def run_tsan(c, ctx):
    X = build(c["X"])
    history(c, X, ctx)
    for o in c["ops"]:
        ctx.tag(o["op"] if o["op"] != "model" else o["rec"]["cls"])
    ctx.nt(c["t"] >= 2 and X.nnz >= 2)


_libc = ctypes.CDLL(None)


def run_heap(c, ctx):
    X = build(c["X"])
    res = []
    try:
        for byte in (0x41, 0xBF):
            _libc.mallopt(-6, byte)
            res.append(history(c, X, ctx))
    finally:
        _libc.mallopt(-6, 0)
    for o, a, b in zip(c["ops"], *res):
        for x, y in zip(a, b):
            check(x.shape == y.shape and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True), lambda: f"{o['op']}: the answer depends on what fresh memory contains")
        ctx.tag(o["op"] if o["op"] != "model" else o["rec"]["cls"])
    ctx.nt(X.nnz >= 2)


FACETS = [Facet("asan", strategy([1, 2, 3, 9]), run_san, quick=600, thorough=8000, shards=3, flavour="asan", env=ASAN, case_timeout=200),
          Facet("tsan", strategy([2, 3, 4, 9]), run_tsan, quick=500, thorough=6000, shards=3, flavour="tsan", env=TSAN, case_timeout=200),
          Facet("heap", strategy([1]), run_heap, quick=500, thorough=8000, shards=2, env=HEAP)]
