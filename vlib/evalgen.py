"""Generators shared by the evaluation checks."""
import numpy as np
import scipy.sparse as sps

from vlib.gen import build, mat, st
from vlib.metrics import metrics, rank

SCORE = st.fixed_dictionaries({"kind": st.sampled_from(["real", "ties", "perm", "const"]), "inf": st.sampled_from([0, 0, 2, 5, 9, 10]),
                               "dtype": st.sampled_from(["float64", "float32"]), "s": st.integers(0, 10**6)})


def truth(max_rows=14, max_cols=14, min_rows=1):
    return mat(max_rows, max_cols, kinds=("ones", "int"), min_rows=min_rows)


def score_array(c, m, n):
    rng = np.random.RandomState(c["s"])
    if c["kind"] == "ties":
        S = rng.randint(-2, 3, size=(m, n)) * 0.5
    elif c["kind"] == "const":
        S = np.zeros((m, n))
    elif c["kind"] == "perm":
        S = np.array([rng.permutation(n) for _ in range(m)], dtype=float).reshape(m, n) - n / 2
    else:
        S = rng.normal(size=(m, n)).astype(np.float32).astype(float)
    S[rng.uniform(size=S.shape) < c["inf"] / 10] = -np.inf
    return S.astype(c["dtype"])


def restriction(c, m, n):
    """-> (kwargs, candidate lists or None, number of recommendable items)"""
    rng = np.random.RandomState(c["s"] + 99)
    kind = c["kind"]
    if kind == "none":
        return {}, None, n
    if kind == "global":
        items = [int(j) for j in rng.permutation(n) if rng.uniform() < c["p"] / 4]
        return {"recommendable_items": items}, [items] * m, len(items)
    per = [[int(j) for j in rng.permutation(n) if rng.uniform() < c["p"] / 4] for _ in range(m)]
    union = len({j for x in per for j in x})
    if kind == "per_list":
        return {"per_user_recommendable_items": per}, per, union
    M = np.zeros((m, n))
    for u, x in enumerate(per):
        M[u, x] = rng.uniform(0.5, 2, size=len(x))
    if c["s"] % 3 == 1:
        M = M != 0  # only the pattern counts
    elif c["s"] % 3 == 2:
        M = (M != 0).astype(int)
    coo = sps.coo_matrix(M)
    if c["s"] // 3 % 2:  # stored zeros are not recommendable
        r, k = np.nonzero((M == 0) & (rng.uniform(size=M.shape) < 0.3))
        coo = sps.coo_matrix((np.concatenate([coo.data, np.zeros(len(r), dtype=M.dtype)]), (np.concatenate([coo.row, r]), np.concatenate([coo.col, k]))), shape=M.shape)
    return {"per_user_recommendable_items": coo.tocsr() if kind == "per_csr" else coo.tocsc()}, per, union


RESTRICT = st.fixed_dictionaries({"kind": st.sampled_from(["none", "global", "per_list", "per_csr", "per_csc"]),
                                  "p": st.integers(0, 4), "s": st.integers(0, 10**6)})


def expected(S, G, cutoff, cand=None, n_rec=None, rwc=False):
    """S: scores with every excluded entry at -inf; G: dense ground truth."""
    m, n = G.shape
    recs, truths = [], []
    for u in range(m):
        gt = set(np.nonzero(G[u])[0].tolist())
        if cand is not None:
            gt &= set(cand[u])
        truths.append(gt)
        recs.append(rank(S[u], cutoff, None if cand is None else cand[u]))
    return metrics(recs, truths, n, recall_with_cutoff=rwc, n_recommendable=n if n_rec is None else n_rec)


class Model:
    """The recommender interface evaluators use, over a fixed score array."""

    def __init__(self, X, S, block=True, view="copy"):
        self.X_train_all = X
        self.n_users, self.n_items = X.shape
        self.S, self.block, self.view = S, block, view
        self.calls = []

    def _out(self, A):
        if self.view == "wide":  # a column slice of a wider array
            B = np.full((A.shape[0], A.shape[1] + 3), 77.0, dtype=A.dtype)
            B[:, : A.shape[1]] = A
            return B[:, : A.shape[1]]
        return A.copy()

    def get_score_block(self, b, e):
        if not self.block:
            raise NotImplementedError("get_score_block")
        self.calls.append((b, e))
        return self._out(self.S[b:e])

    def get_score(self, ui):
        return self._out(self.S[np.asarray(ui)])
