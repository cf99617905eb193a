"""P16: closed-form and spectral models equal their mathematical definition."""
import warnings

import numpy as np
import scipy.optimize
import scipy.sparse as sps

from vlib.gen import as_format, build, mat, snapshot, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P16", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 4  # multiplies the quick case counts
RULE = ("random matrices (1-14 x 1-14, real or integral values, empty rows/columns) x ridge autoencoders (regularisation, dropout), popularity, truncated SVD and "
        "non-negative factorisation (rank, penalties); known and new users; oracle: double-precision closed forms, SVD optimality, NNLS; non-trivial: matrix of rank >= 2")
ASSUMPTIONS = ["regularisation keeps the normal matrix's condition number below 1e4 (single-precision inverse)"]


def strategy():
    return st.fixed_dictionaries({
        "X": mat(14, 14, kinds=("ones", "int", "frac", "real"), min_cols=2), "N": mat(6, 1), "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]),
        "model": st.sampled_from(["ease", "edlae", "pop", "svd", "svd", "nmf"]), "reg": st.sampled_from([0.5, 1.0, 3.0, 50.0, 1000.0, 2.75]),
        "p": st.sampled_from([0.0, 0.1, 0.5, 0.9, 0.99]), "k": st.integers(1, 16), "seed": st.integers(0, 1000),
        "na": st.sampled_from([1e-10, 1e-4, 1e-2]), "nl": st.sampled_from([0.0, 0.01, 0.5, 1.0])})


def run(c, ctx):
    from irspack import recommenders as R
    X0 = build(c["X"])
    D = X0.toarray()
    m, n = D.shape
    X = as_format(X0, c["fmt"], 4)
    before = snapshot(X)
    New = build({**c["N"], "n": n})
    E = New.toarray()
    users = np.arange(m)
    mod = c["model"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mod in ("ease", "edlae"):
            lam = np.full(n, c["reg"]) + (c["p"] / (1 - c["p"]) * (D**2).sum(0) if mod == "edlae" else 0.0)
            A = D.T @ D + np.diag(lam)
            cond = np.linalg.cond(A)
            if cond > 1e4:
                raise Skip
            P = np.linalg.inv(A)
            B = -P / np.diag(P)[None, :]
            np.fill_diagonal(B, 0)
            rec = (R.DenseSLIMRecommender(X, reg=c["reg"]) if mod == "ease" else R.EDLAERecommender(X, reg=c["reg"], dropout_p=c["p"])).learn()
            W = np.asarray(rec.W)
            tol = 3e-6 * cond + 1e-5
            check(W.shape == (n, n) and not np.any(np.diag(W)), "weight shape or diagonal")
            check(np.max(np.abs(W - B)) <= tol, lambda: f"{mod}: weights {W.tolist()} vs closed form {B.tolist()} (tolerance {tol})")
            ref = lambda Y: Y @ W.astype(float)  # noqa: E731
            near = 1e-5
        elif mod == "pop":
            rec = R.TopPopRecommender(X).learn()
            ref = lambda Y: np.repeat(D.sum(0, keepdims=True), Y.shape[0], axis=0)  # noqa: E731
            near = 1e-12
        elif mod == "svd":
            rec = R.TruncatedSVDRecommender(X, n_components=c["k"], random_seed=c["seed"]).learn()
            V, z = np.asarray(rec.get_item_embedding()), np.asarray(rec.get_user_embedding())
            k = min(c["k"], n - 1)
            r = np.linalg.matrix_rank(D)
            check(z.shape[0] == m and V.shape[0] == n and V.shape[1] == z.shape[1] and V.shape[1] >= min(k, m, n), lambda: f"rank {V.shape[1]} instead of {k}")
            check(V.shape[1] <= k, "rank larger than requested")
            s = np.linalg.svd(D, compute_uv=False)
            best = float((s[k:] ** 2).sum())
            err = float(((D - z @ V.T) ** 2).sum())
            check(err <= best * 1.05 + 1e-8 * (1 + float((D**2).sum())), lambda: f"squared error {err} although rank {k} attains {best}")
            live = np.linalg.norm(z, axis=0) > 1e-6
            G = V[:, live].T @ V[:, live]
            check(np.allclose(G, np.eye(G.shape[0]), atol=1e-6), "item directions are not orthonormal")
            ref = lambda Y: Y @ V @ V.T  # noqa: E731
            near = 1e-6 * (1 + s.max(initial=0))
            emb = rec.get_score_from_user_embedding(z)
            check(np.allclose(emb, rec.get_score(users), atol=near), "scores from user embeddings differ")
            check(np.allclose(rec.get_score_from_item_embedding(users, V), rec.get_score(users), atol=near), "scores from item embeddings differ")
        else:
            if not D.any() or m < 2:
                raise Skip
            k = min(c["k"], 6)
            rec = R.NMFRecommender(X, n_components=k, alpha=c["na"], l1_ratio=c["nl"], init="random").learn()
            Wm, H = np.asarray(rec.W), np.asarray(rec.H)
            check(Wm.shape == (m, k) and H.shape == (k, n) and np.all(Wm >= 0) and np.all(H >= 0), "factors are not a non-negative factorisation of the requested rank")
            S, cold = rec.get_score(users), rec.get_score_cold_user(New)
            check(np.allclose(S, Wm @ H, atol=1e-9) and cold.shape == E.shape, "scores are not the product of the factors")
            check(((D - S) ** 2).sum() <= (D**2).sum() * (1 + 1e-9), "factorisation worse than zero")
            for i in range(E.shape[0]):
                _, res = scipy.optimize.nnls(H.T, cold[i])
                check(res <= 1e-6 * (1 + np.linalg.norm(cold[i])), "a new user's scores are not a non-negative combination of the item factors")
                if c["na"] == 1e-10:
                    _, opt = scipy.optimize.nnls(H.T, E[i])
                    got = np.linalg.norm(E[i] - cold[i])
                    check(got <= opt + 0.15 * np.linalg.norm(E[i]) + 1e-9, lambda: f"new user {i}: residual {got}, attainable {opt}")
            ctx.nt(np.linalg.matrix_rank(D) >= 2)
            ctx.tag(mod)
            return
        S = np.asarray(rec.get_score(users))
        check(S.shape == (m, n) and np.allclose(S, ref(D), atol=near, rtol=1e-5), lambda: f"{mod}: known users' scores {S.tolist()} vs {ref(D).tolist()}")
        some = np.random.RandomState(c["seed"]).randint(0, m, size=5)  # any order, with repetitions
        check(np.allclose(rec.get_score(some), S[some], atol=near), lambda: f"{mod}: scores of users {some.tolist()}")
        if mod == "svd":
            cols = np.random.RandomState(c["seed"] + 1).randint(0, n, size=4)
            check(np.allclose(rec.get_score_from_item_embedding(some, V[cols]), S[some][:, cols], atol=near), lambda: f"scores of users {some.tolist()} from item embeddings")
            check(np.allclose(rec.get_score_from_user_embedding(z[some]), S[some], atol=near), lambda: f"scores from the embeddings of users {some.tolist()}")
        C = np.asarray(rec.get_score_cold_user(New))
        check(C.shape == E.shape and np.allclose(C, ref(E), atol=near, rtol=1e-5), lambda: f"{mod}: new users' scores {C.tolist()} vs {ref(E).tolist()}")
    check(snapshot(X) == before, "the training matrix was modified")
    ctx.nt(np.linalg.matrix_rank(D) >= 2)
    ctx.tag(mod)


FACETS = [Facet("models", strategy, run, quick=700, thorough=20000, shards=6)]
