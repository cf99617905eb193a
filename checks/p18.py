"""P18: implicit-ALS fold-in and feature inference agree with the trained model."""
import numpy as np

from vlib.alsref import Ref, epoch, feats, make, matrix, model_strategy, outside
from vlib.gen import as_format, build, edge, mat, snapshot, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P18", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 15  # multiplies the quick case counts
RULE = ("models of P17's generator trained 1-3 epochs, then new user and item interaction matrices (0-12 rows, empty rows, csr/csc/unsorted, float32/float64/int) with and without feature rows "
        "(sparse/dense, float32/float64); every folded-in row is compared with the double-precision minimiser of its own least-squares system (approximate solvers: never worse than their start, "
        "exact when given enough steps), batches with single rows and permutations, scores with embedding products; non-trivial: some folded-in row is neither empty nor a training row")
ASSUMPTIONS = ["single-precision tolerances; exactness of CG is required only for well-conditioned systems and at least as many steps as dimensions",
               "models trained with features use the CG or Cholesky solver (the third is refused)"]


def strategy():
    d = model_strategy()
    d["pcg"] = st.sampled_from([5, 0, 1, 40])
    d["pit"] = st.sampled_from([7, 1, 3])
    return st.fixed_dictionaries({**d, "epochs": st.integers(0, 3), "new": mat(12, 1, kinds=("ones", "int", "frac")), "nfmt": st.sampled_from(["csr", "csc", "csr_unsorted", "coo"]),
                                  "ndt": st.sampled_from(["float64", "float32", "int64"]), "nf": st.sampled_from(["dense", "csr", "f32", "fortran"])})


def f_val(A, b, u):
    return 0.5 * u @ A @ u - b @ u, 0.5 * np.abs(u) @ np.abs(A) @ np.abs(u) + np.abs(b) @ np.abs(u)


def solved(name, sys_, start, got, c, K):
    check(got.shape == (len(sys_), K), lambda: f"{name}: embedding has shape {got.shape}")
    check(np.all(np.isfinite(got)), f"{name}: non-finite embedding")
    for r, (A, b, bmag) in enumerate(sys_):
        g = got[r].astype(float)
        s, ms = f_val(A, b, start[r])
        v, mv = f_val(A, b, g)
        check(v <= s + 1e-4 * (ms + mv) + 1e-7, lambda: f"{name} row {r}: folded-in vector is worse than the solver's start ({v} > {s})")
        res = np.linalg.norm(A @ g - b)
        scale = np.linalg.norm(A) * (np.linalg.norm(g) + np.linalg.norm(start[r])) + bmag
        tol = None
        if c["solver"] == "CHOLESKY":
            tol = 1e-4
        elif c["solver"] == "CG" and (c["pcg"] == 0 or c["pcg"] >= K):
            cond = np.linalg.cond(A)
            tol = 2e-3 if c["pcg"] == 40 and cond < 100 else 2e-2 if cond < 20 else None
        elif c["solver"] == "IALSPP" and c["sub"] >= K:
            tol = 1e-3
        if tol is not None:
            check(res <= tol * scale + 1e-6, lambda: f"{name} row {r}: {g} does not minimise its objective (residual {res}, scale {scale})")


def newmat(c, cols, seed):
    spec = dict(c["new"], n=cols, s=c["new"]["s"] + seed)
    Y = build(spec)
    if c["ndt"] == "int64":
        Y.data = np.ceil(Y.data)
    return as_format(Y.astype(c["ndt"]), c["nfmt"], seed)


def container(F, kind):
    import scipy.sparse as sps
    return {"dense": F.copy(), "csr": sps.csr_matrix(F), "f32": F.astype(np.float32), "fortran": np.asfortranarray(F)}[kind]


def run(c, ctx):
    X0, D = matrix(c)
    m, n = D.shape
    if (c["uf"] or c["if"]) and c["solver"] == "IALSPP":
        raise Skip
    if outside(c, D != 0) or (c["alpha0"] == 0 and c["nu"] > 0 and (c["solver"] == "CHOLESKY" or c["uf"] or c["if"])):
        raise Skip  # new rows may be empty
    F, Fa = feats(c["uf"], m, 3, c["seed"] + 1)
    G, Ga = feats(c["if"], n, 2, c["seed"] + 2)
    rec = make(c, as_format(X0, c["fmt"], 1), Fa, Ga, prediction_time_max_cg_steps=c["pcg"], prediction_time_ialspp_iteration=c["pit"])
    ref, K = Ref(c, D), c["K"]
    rec.start_learning()
    for _ in range(c["epochs"]):
        epoch(rec, c, D)
    t = rec.trainer.core_trainer
    U, V = np.array(rec.get_user_embedding()), np.array(rec.get_item_embedding())
    U8, V8 = U.astype(float), V.astype(float)
    wu = np.array(t.user_feature_weight, dtype=float) if F is not None else None
    wv = np.array(t.item_feature_weight, dtype=float) if G is not None else None

    def scaled(Y):
        d = Y.toarray().astype(float)
        return np.where(d != 0, d if c["scale"] == "none" else np.log(1 + d / c["eps"]), 0.0)

    some = False
    for side in ("user", "item"):
        other, own, W, dim = (V8, U, wu, 3) if side == "user" else (U8, V, wv, 2)
        Y = newmat(c, other.shape[0], 1 if side == "user" else 2)  # rows = new users / new items
        k = Y.shape[0]
        arg = Y if side == "user" else Y.T.asformat("csc" if c["nfmt"] == "csc" else "csr")
        before = snapshot(arg)[3]
        fold = rec.compute_user_embedding if side == "user" else rec.compute_item_embedding
        S = scaled(Y)
        got = np.array(fold(arg))
        check(snapshot(arg)[3] == before, "fold-in modified the caller's interactions")
        systems = ref.systems(S, other)
        solved(f"new {side}", systems, np.zeros((k, K)), got, c, K)
        some = some or bool((S != 0).any())
        # batch composition
        mag = np.abs(got).max(initial=0.0) + 1e-3
        perm = np.random.RandomState(c["seed"]).permutation(k)
        Yc = Y.tocsr()
        sub = Yc[perm]
        g2 = np.array(fold(sub if side == "user" else sub.T.tocsr()))
        loose = 1e-3 + 2e-6 * max([np.linalg.cond(A) for A, _, _ in systems], default=0) if c["t"] > 1 else 1e-4
        if c["solver"] == "CHOLESKY" or c["t"] == 1:
            check(np.all(np.abs(g2 - got[perm]) <= loose * mag), lambda: f"fold-in of {side}s depends on the order of rows in the batch")
            i = int(perm[0])
            g1 = np.array(fold(Yc[i] if side == "user" else Yc[i].T.tocsr()))
            check(np.all(np.abs(g1[0] - got[i]) <= loose * mag), lambda: f"fold-in of one {side} depends on the rest of the batch")
        if side == "user":
            sc = np.array(rec.get_score_cold_user(arg))
            check(sc.shape == (k, n) and np.allclose(sc, got.astype(float) @ V8.T, rtol=1e-3, atol=1e-3 * mag * (np.abs(V8).sum(1).max(initial=0) + 1)), "cold-user scores are not embedding times items")
            check(np.allclose(rec.get_score_from_user_embedding(got), got.astype(float) @ V8.T, rtol=1e-4, atol=1e-4 * mag * (np.abs(V8).sum(1).max(initial=0) + 1)), "get_score_from_user_embedding")
        else:
            ui = np.random.RandomState(c["seed"] + 3).randint(0, m, size=3)
            check(np.allclose(rec.get_score_from_item_embedding(ui, got), U8[ui] @ got.astype(float).T, rtol=1e-4, atol=1e-4 * mag * (np.abs(U8).sum(1).max(initial=0) + 1)), "get_score_from_item_embedding")
        # folding in the training rows
        if side == "item" and c["epochs"] and c["solver"] == "CHOLESKY" and G is None:
            back = np.array(rec.compute_item_embedding(X0))
            rel = 1e-3 + 2e-6 * max(np.linalg.cond(A) for A, _, _ in ref.systems(D.T, other))  # single precision
            check(np.all(np.abs(back - V) <= rel * (np.abs(V).max() + 1e-3)), "folding in the training items does not reproduce their embeddings")
        # features
        if W is None:
            if side == "user" and c["uf"] is None:
                try:
                    rec.compute_user_embedding(arg, user_features=np.ones((k, 1)))
                    check(False, "features accepted by a model trained without any")
                except (ValueError, RuntimeError, NotImplementedError, IndexError):
                    pass
            continue
        H = np.random.RandomState(c["seed"] + 9).randint(-4, 5, size=(k, dim)) / 4.0
        Hc = container(H, c["nf"])
        prior = H @ W
        name = f"new {side} with features"
        gf = np.array(rec.compute_user_embedding(arg, user_features=Hc) if side == "user" else rec.compute_item_embedding(arg, item_features=Hc))
        check(np.array_equal(container(H, "dense"), Hc.toarray() if hasattr(Hc, "toarray") else Hc), "feature matrix modified")
        solved(name, ref.systems(S, other, prior), prior, gf, c, K)
        go = np.array(rec.compute_user_embedding_from_features(Hc) if side == "user" else rec.compute_item_embedding_from_features(Hc))
        solved(f"new {side} from features alone", ref.systems(np.zeros_like(S), other, prior), prior, go, c, K)
        raw = np.array(rec.trainer.transform_user_feature(Hc) if side == "user" else rec.trainer.transform_item_feature(Hc))
        check(np.allclose(raw, prior, rtol=1e-4, atol=1e-4 * (np.abs(W).max() + 1e-3)), f"{side} feature prior is not features times weights")
        fm = np.abs(go).max(initial=0) + 1e-3
        if side == "user":
            sf = np.array(rec.get_score_cold_user_from_features(Hc))
            check(np.allclose(sf, go.astype(float) @ V8.T, rtol=1e-3, atol=1e-3 * fm * (np.abs(V8).sum(1).max(initial=0) + 1)), "scores from user features")
            s2 = np.array(rec.get_score_cold_user(arg, user_features=Hc))
            check(np.allclose(s2, gf.astype(float) @ V8.T, rtol=1e-3, atol=1e-3 * (np.abs(gf).max(initial=0) + 1e-3) * (np.abs(V8).sum(1).max(initial=0) + 1)), "scores from user features and interactions")
        else:
            ui = np.arange(m)
            si = np.array(rec.get_score_from_item_features(ui, Hc))
            check(si.shape == (m, k) and np.allclose(si, U8 @ go.astype(float).T, rtol=1e-3, atol=1e-3 * fm * (np.abs(U8).sum(1).max(initial=0) + 1)), "scores of feature-only items")
            Yu = newmat(c, n, 1)
            eu = np.array(rec.compute_user_embedding(Yu)).astype(float)
            both = np.array(rec.get_score_cold_user_with_item_features(Yu, Hc))
            want = eu @ np.concatenate([V8, go.astype(float)]).T
            check(both.shape == want.shape and np.allclose(both, want, rtol=1e-3, atol=1e-3 * (np.abs(eu).max(initial=0) + 1e-3) * (np.abs(V8).sum() + np.abs(go).sum() + 1)),
                  "known items followed by feature-only items")
    check(np.array_equal(np.array(rec.get_user_embedding()), U) and np.array_equal(np.array(rec.get_item_embedding()), V), "fold-in changed the trained factors")
    ctx.nt(some)
    ctx.tag(c["solver"], c["loss"], "features" if F is not None or G is not None else "plain")


def strategy_big():
    d = model_strategy(max_k=5, features=False)
    d["X"] = st.fixed_dictionaries({"m": edge(60, 150), "n": edge(60, 150), "d": st.sampled_from([1, 3, 9]), "v": st.sampled_from(["ones", "frac"]),
                                    "s": st.integers(0, 10**6), "e": st.integers(0, 3)})
    d["pcg"], d["pit"] = st.sampled_from([5, 0, 40]), st.sampled_from([7, 1])
    return st.fixed_dictionaries({**d, "epochs": st.integers(0, 1), "new": mat(40, 1, kinds=("ones", "frac"), min_rows=17), "nfmt": st.sampled_from(["csr", "csc"]),
                                  "ndt": st.sampled_from(["float64", "float32"]), "nf": st.just("dense")})


FACETS = [Facet("fold_in", strategy, run, quick=300, thorough=10000, shards=6),
          Facet("wide", strategy_big, run, quick=60, thorough=500, shards=2)]
