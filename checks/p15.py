"""P15: SLIM weights solve the stated elastic-net problem."""
import numpy as np
import scipy.sparse as sps

from vlib.gen import as_format, build, mat, snapshot, st
from vlib.harness import Facet, check
from vlib.weights import check_topk

PROPERTY, NATIVE, BARE = "P15", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 3  # multiplies the quick case counts
RULE = ("random matrices (1-12 users, 1-24 items, so several 4/8-column blocks) x penalty strength, L1 share, sign option, neighbour limit, thread counts; oracle: "
        "optimality conditions and objective of a double-precision reference solver; non-trivial: some weight non-zero and some candidate weight zero")
ASSUMPTIONS = ["the solver runs enough iterations to converge (n_iter and tol are set accordingly); single-precision tolerance"]


def strategy():
    return st.fixed_dictionaries({
        "X": mat(12, 24, kinds=("ones", "frac")), "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]),
        "alpha": st.sampled_from([0.05, 0.1, 0.3, 1.0, 3.0]), "l1": st.sampled_from([0.01, 0.0, 0.3, 0.7, 0.95, 1.0]), "pos": st.booleans(),
        "k": st.one_of(st.integers(0, 4), st.sampled_from([1, 2, 30])), "t": st.sampled_from([1, 2, 3, 8])})


def objective(X, y, b, l1, l2):
    r = X @ b - y
    return 0.5 * float(r @ r) + 0.5 * l2 * float(b @ b) + l1 * float(np.abs(b).sum())


def reference(X, j, l1, l2, pos, iters=4000):
    """Cyclic coordinate descent in double precision on column j."""
    n = X.shape[1]
    G, y = X.T @ X, X.T @ X[:, j]
    b = np.zeros(n)
    for _ in range(iters):
        delta = 0.0
        for i in range(n):
            q = G[i, i] + l2
            if i == j or q == 0:
                continue
            z = y[i] - G[i] @ b + G[i, i] * b[i]
            v = max(z - l1, 0.0) / q if pos else np.sign(z) * max(abs(z) - l1, 0.0) / q
            delta = max(delta, abs(v - b[i]))
            b[i] = v
        if delta < 1e-9:
            break
    return b


def learn(X, c, t, k=None):
    from irspack.recommenders import SLIMRecommender
    W = SLIMRecommender(X, alpha=c["alpha"], l1_ratio=c["l1"], positive_only=c["pos"], n_iter=10000, tol=1e-6, top_k=k, n_threads=t).learn().W
    return W.toarray().astype(float) if sps.issparse(W) else np.asarray(W, float)


def run(c, ctx):
    X0 = build(c["X"])
    X = as_format(X0, c["fmt"], 2)
    before = snapshot(X)
    D = X0.toarray()
    m, n = D.shape
    l2, l1 = m * c["alpha"] * (1 - c["l1"]), m * c["alpha"] * c["l1"]
    W1, Wt = learn(X, c, 1), learn(X, c, c["t"])
    check(snapshot(X) == before, "the training matrix was modified")
    for W in (W1, Wt):
        check(W.shape == (n, n) and np.all(np.isfinite(W)), "weights: shape or non-finite values")
        check(not np.any(np.diag(W)), "the diagonal is not zero")
        check(not c["pos"] or np.all(W >= 0), "negative weight although only non-negative ones are allowed")
    for j in range(n):
        b = reference(D, j, l1, l2, c["pos"])
        best = objective(D, D[:, j], b, l1, l2)
        zero = 0.5 * float(D[:, j] @ D[:, j])
        for W in (W1, Wt):
            o = objective(D, D[:, j], W[:, j], l1, l2)
            check(o <= best + 2e-4 * (best + 0.05 * zero) + 1e-9,
                  lambda: f"column {j}: objective {o}, attainable {best} (weights {W[:, j].tolist()}, reference {b.tolist()})")
    top = learn(X, c, 1, c["k"])
    check_topk(top.T, W1.T, (W1 != 0).T, c["k"], "neighbour-limited weights (transposed)", rtol=1e-6)
    topt = learn(X, c, c["t"], c["k"])
    check(np.all((topt != 0).sum(0) <= c["k"]), "more weights than the limit")
    for j in range(n):  # kept weights are among the largest of the unrestricted solution
        if l2 > 0.05 * m and c["k"] > 0:
            kept = np.sort(topt[:, j][topt[:, j] != 0])
            full = np.sort(W1[:, j][W1[:, j] != 0])[::-1][: c["k"]][::-1]
            check(len(kept) == 0 or len(kept) != len(full) or np.allclose(kept, full, atol=3e-3, rtol=1e-2), lambda: f"column {j}: kept {kept} of {full}")
    ctx.nt(np.any(W1 != 0) and np.any(W1 == 0))
    ctx.tag("positive" if c["pos"] else "signed", "limited" if (W1 != 0).sum(0).max(initial=0) > c["k"] else "unlimited")


FACETS = [Facet("optimality", strategy, run, quick=260, thorough=8000, shards=8)]
