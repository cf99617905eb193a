"""P17: implicit-ALS training decreases and correctly reports its objective."""
import numpy as np

from vlib.alsref import Ref, epoch, feats, make, matrix, model_strategy, outside
from vlib.gen import as_format, edge, snapshot, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P17", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 15  # multiplies the quick case counts
RULE = ("random matrices (1-20 x 1-20, non-unit confidences, empty rows/columns) x dimension, unobserved weight, regularisation and exponent (incl. reference exponent), confidence scaling, "
        "loss variant, solver (Cholesky, CG with 1..40 steps, subspace/coordinate descent), threads, user/item features (dense/sparse, warm-up) x 1-5 epochs; every row of every "
        "half step is compared with its double-precision least-squares system, the reported loss with the objective; a separate facet has rows or columns of up to 700 interactions; non-trivial: >=2 epochs, or a row or column with >255 interactions, on a matrix of rank >=2")
ASSUMPTIONS = ["single-precision tolerances; exactness of CG is required only for well-conditioned systems and at least as many steps as dimensions"]


def strategy():
    return st.fixed_dictionaries({**model_strategy(), "epochs": st.integers(1, 5)})


def f_val(A, b, u):
    return 0.5 * u @ A @ u - b @ u, 0.5 * np.abs(u) @ np.abs(A) @ np.abs(u) + np.abs(b) @ np.abs(u)


def half_step(name, sys_, old, new, c, K):
    for r, (A, b, bmag) in enumerate(sys_):
        fo, mo = f_val(A, b, old[r])
        fn, mn = f_val(A, b, new[r])
        check(fn <= fo + 1e-4 * (mo + mn) + 1e-7, lambda: f"{name} {r}: half step raised its objective from {fo} to {fn}")
        scale = np.linalg.norm(A) * np.linalg.norm(new[r]) + bmag
        res = np.linalg.norm(A @ new[r] - b)
        walk = scale + np.linalg.norm(A) * np.linalg.norm(old[r])  # iterative solvers start from the previous vector
        if c["solver"] == "CHOLESKY":
            check(res <= 1e-4 * scale + 1e-7, lambda: f"{name} {r}: {new[r]} does not solve its least-squares system (residual {res}, scale {scale})")
        elif c["solver"] == "CG" and (c["cg"] == 0 or c["cg"] >= K):
            cond = np.linalg.cond(A)
            tol = 2e-3 if c["cg"] == 40 and cond < 100 else 2e-2 if cond < 20 else 1e9
            check(res <= tol * walk + 1e-6, lambda: f"{name} {r}: CG with enough steps leaves residual {res} (scale {scale})")
        elif c["solver"] == "IALSPP" and c["sub"] >= K:
            check(res <= 1e-3 * walk + 1e-6, lambda: f"{name} {r}: full-dimensional block solve leaves residual {res} (scale {scale})")


def ridge(ref, F, fac, regs, lam, W, name):
    A = (F.T * regs) @ F + lam * np.eye(F.shape[1])
    b = (F.T * regs) @ fac
    res = np.linalg.norm(A @ W - b)
    scale = np.linalg.norm(A) * np.linalg.norm(W) + np.linalg.norm(b)
    check(W.shape == (F.shape[1], fac.shape[1]) and res <= 2e-4 * scale + 1e-7, lambda: f"{name} feature weights do not solve their ridge problem (residual {res}, scale {scale})")


def run(c, ctx):
    X0, D = matrix(c)
    m, n = D.shape
    if c["uf"] or c["if"]:
        if c["solver"] == "IALSPP":
            raise Skip
    if outside(c, D != 0):
        raise Skip
    F, Fa = feats(c["uf"], m, 3, c["seed"] + 1)
    G, Ga = feats(c["if"], n, 2, c["seed"] + 2)
    X = as_format(X0, c["fmt"], 1)
    before = snapshot(X)
    rec = make(c, X, Fa, Ga)
    ref = Ref(c, D)
    S, K = ref.S, c["K"]
    rec.start_learning()

    def state():
        t = rec.trainer.core_trainer
        get = lambda a: np.array(a, dtype=float, copy=True)  # noqa: E731
        return (get(rec.get_user_embedding()), get(rec.get_item_embedding()), get(t.user_feature_weight) if F is not None else None,
                get(t.item_feature_weight) if G is not None else None)

    U, V, wu, wv = state()
    check(U.shape == (m, K) and V.shape == (n, K), "factor shapes")
    obj = ref.objective(U, V, None if F is None else F @ wu, None if G is None else G @ wv, wu, wv)
    for e in range(c["epochs"]):
        epoch(rec, c, D)
        U2, V2, wu2, wv2 = state()
        check(np.all(np.isfinite(U2)) and np.all(np.isfinite(V2)), "non-finite factors")
        warm = e < c["warm"]
        pu = None if F is None or warm else F @ wu
        pv = None if G is None or warm else G @ wv
        half_step("user", ref.systems(S, V, pu), U, U2, c, K)
        half_step("item", ref.systems(S.T, U2, pv), V, V2, c, K)
        if F is not None:
            if warm:
                check(not np.any(wu2), "feature weights learned during the warm-up")
            else:
                ridge(ref, F, U2, ref.regs(S != 0, n), c["lu"], wu2, "user")
        if G is not None:
            if warm:
                check(not np.any(wv2), "feature weights learned during the warm-up")
            else:
                ridge(ref, G, V2, ref.regs((S != 0).T, m), c["li"], wv2, "item")
        new = ref.objective(U2, V2, None if F is None else F @ wu2, None if G is None else G @ wv2, wu2, wv2)
        check(new[0] <= obj[0] + 1e-4 * (new[1] + obj[1]) + 1e-7, lambda: f"epoch {e}: objective rose from {obj[0]} to {new[0]}")
        rep = rec.trainer.compute_loss()
        check(abs(rep - new[0]) <= 2e-4 * new[1] + 1e-6, lambda: f"epoch {e}: reported loss {rep}, objective {new[0]}")
        after = state()
        check(np.array_equal(after[0], U2) and np.array_equal(after[1], V2), "reporting the loss changed the factors")
        U, V, wu, wv, obj = U2, V2, wu2, wv2, new
    check(snapshot(X) == before, "the training matrix was modified")
    ctx.nt((c["epochs"] >= 2 or max(np.count_nonzero(D, axis=0).max(initial=0), np.count_nonzero(D, axis=1).max(initial=0)) > 255) and np.linalg.matrix_rank(D) >= 2)
    ctx.tag(c["solver"], c["loss"], "features" if F is not None or G is not None else "plain")


def strategy_big():
    """More rows than the 16-row accumulation blocks and the 64-row rank-update batches."""
    d = model_strategy(max_k=5, features=False)
    d["X"] = st.fixed_dictionaries({"m": edge(40, 200), "n": edge(40, 150), "d": st.sampled_from([1, 3, 9]), "v": st.sampled_from(["ones", "frac"]),
                                    "s": st.integers(0, 10**6), "e": st.integers(0, 3)})
    return st.fixed_dictionaries({**d, "epochs": st.integers(1, 2)})


def strategy_long():
    """Rows and columns with several hundred interactions each."""
    d = model_strategy(max_k=3, features=False)
    side = {"d": st.sampled_from([5, 9, 10]), "v": st.sampled_from(["ones", "frac"]), "s": st.integers(0, 10**6), "e": st.integers(0, 3)}
    few, many = st.integers(1, 6), st.integers(250, 700)
    d["X"] = st.one_of(st.fixed_dictionaries({"m": few, "n": many, **side}), st.fixed_dictionaries({"m": many, "n": few, **side}))
    return st.fixed_dictionaries({**d, "epochs": st.just(1)})


FACETS = [Facet("epochs", strategy, run, quick=350, thorough=12000, shards=5),
          Facet("wide", strategy_big, run, quick=90, thorough=1500, shards=3),
          Facet("long", strategy_long, run, quick=20, thorough=400, shards=2)]
