"""Reference formulas for weighting schemes and neighbour selection."""
import numpy as np

from vlib.harness import check


def tfidf(X, smooth=True):
    X = np.asarray(X, float)
    df = (X != 0).sum(axis=0)
    with np.errstate(divide="ignore", invalid="ignore"):
        idf = np.log(X.shape[0] / (df + (1.0 if smooth else 0.0)))
        return np.where(X != 0, X * idf[None, :], 0.0)


def bm25(X, k1=1.2, b=0.75):
    X = np.asarray(X, float)
    N = X.shape[0]
    df = (X != 0).sum(axis=0)
    idf = np.log(N / (df + 1.0) + 1.0)
    L = X.sum(axis=1)
    avg = L.sum() / N if N else 1.0
    with np.errstate(divide="ignore", invalid="ignore"):
        reg = k1 * (1 - b + b * L / avg)
        return np.where(X != 0, idf[None, :] * (X * (k1 + 1)) / (X + reg[:, None]), 0.0)


def check_topk(got, want, cand, k, what, free=None, rtol=1e-9, atol=1e-12):
    """Row by row, `got` keeps exactly the k largest of want's candidate entries (ties free);
    entries of `free` (e.g. a removed diagonal) take part in the ranking but read as zero."""
    n = want.shape[1]
    free = np.zeros_like(cand) if free is None else free
    for i in range(want.shape[0]):
        idx = np.nonzero(cand[i])[0]
        eps = lambda v: atol + rtol * abs(v)  # noqa: E731
        if len(idx) > k:
            t = np.sort(want[i, idx])[::-1][k - 1] if k > 0 else np.inf
        else:
            t = -np.inf
        tied = 0
        tied_free = 0
        above = 0
        for j in range(n):
            g, w = got[i, j], want[i, j]
            if not cand[i, j]:
                check(g == 0, lambda: f"{what}: row {i} col {j}: {g} where nothing is expected")
                continue
            over = w > t + eps(t) if np.isfinite(t) else t < 0
            tie = np.isfinite(t) and abs(w - t) <= eps(t)
            above += bool(over)
            if free[i, j]:
                check(g == 0, lambda: f"{what}: diagonal entry {i} is {g}")
                tied_free += bool(tie)
                continue
            if over:
                check(abs(g - w) <= eps(w), lambda: f"{what}: row {i} col {j}: got {g}, expected {w} (top {k})")
            elif tie:
                check(g == 0 or abs(g - w) <= eps(w), lambda: f"{what}: row {i} col {j}: got {g}, expected {w} or 0")
                tied += g != 0
            else:
                check(g == 0, lambda: f"{what}: row {i} col {j}: kept {g} although only the top {k} (>= {t}) may stay")
        if np.isfinite(t) and abs(t) > atol:
            left = k - above
            check(left - tied_free <= tied <= left, lambda: f"{what}: row {i}: kept {tied} of the entries tied at {t}, {left} places left")
