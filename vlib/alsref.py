"""Double-precision reference of the implicit-ALS objective and its row systems."""
import numpy as np

from vlib.gen import build, mat, st
from vlib.harness import Skip


def model_strategy(max_k=7, features=True, solvers=("CG", "CHOLESKY", "IALSPP")):
    return {
        "X": mat(20, 20, kinds=("ones", "int", "frac")), "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]), "K": st.integers(1, max_k),
        "alpha0": st.sampled_from([0.1, 1.0, 0.01, 3.0, 0.3, 0.0]), "reg": st.sampled_from([1e-2, 1e-3, 0.1, 1.0]), "nu": st.sampled_from([1.0, 0.0, 0.5, 1.5]),
        "nus": st.sampled_from([None, None, 1.0, 0.5]), "scale": st.sampled_from(["none", "none", "log"]), "eps": st.sampled_from([1.0, 0.1, 5.0]),
        "std": st.sampled_from([0.1, 1.0]), "solver": st.sampled_from(list(solvers)), "cg": st.sampled_from([3, 1, 0, 2, 40]), "sub": st.sampled_from([64, 1, 2, 3]),
        "loss": st.sampled_from(["IALSPP", "ORIGINAL"]), "seed": st.integers(0, 10**6), "t": st.sampled_from([1, 2, 5]),
        "uf": st.sampled_from([None, "dense", "csr"] if features else [None]), "if": st.sampled_from([None, "dense", "csr"] if features else [None]),
        "lu": st.sampled_from([1.0, 0.1, 10.0]), "li": st.sampled_from([1.0, 0.1, 10.0]), "warm": st.sampled_from([0, 0, 1, 2])}


def feats(kind, rows, dim, seed):
    """None, or a feature matrix (dense float64, and in the requested container)."""
    import scipy.sparse as sps
    if kind is None:
        return None, None
    F = np.random.RandomState(seed).randint(-4, 5, size=(rows, dim)) / 4.0
    return F, (sps.csr_matrix(F) if kind == "csr" else F.copy())


class Ref:
    """Objective pieces for the recommender described by case c."""

    def __init__(self, c, D):
        self.c, self.D = c, D
        m, n = D.shape
        self.S = np.where(D != 0, D if c["scale"] == "none" else np.log(1 + D / c["eps"]), 0.0)
        reg = c["reg"]
        if c.get("nus") is not None:
            reg = reg * self._scale(c["nus"]) / self._scale(c["nu"])
        self.reg = reg
        self.bias = c["alpha0"] if c["loss"] == "ORIGINAL" else 0.0

    def _scale(self, nu):
        m, n = self.D.shape
        P = self.D != 0
        a = self.c["alpha0"]
        return ((P.sum(1) + a * n) ** nu).sum() + ((P.sum(0) + a * m) ** nu).sum()

    def regs(self, pattern, other):
        return self.reg * (self.c["alpha0"] * other + pattern.sum(1)) ** self.c["nu"]

    def systems(self, S, V, prior=None):
        """Row systems (A_r, b_r, magnitude of the terms of b_r) for confidences S (rows x other) with the other side's factors V."""
        P = S != 0
        regs = self.regs(P, V.shape[0])
        G = self.c["alpha0"] * V.T @ V
        out = []
        for r in range(S.shape[0]):
            idx = np.nonzero(P[r])[0]
            A = G + (V[idx].T * S[r, idx]) @ V[idx] + regs[r] * np.eye(V.shape[1])
            b = V[idx].T @ (S[r, idx] + self.bias)
            mag = np.linalg.norm(np.abs(V[idx]).T @ np.abs(S[r, idx] + self.bias))  # size of the terms b is summed from
            if prior is not None:
                b = b + regs[r] * prior[r]
                mag += regs[r] * np.linalg.norm(prior[r])
            out.append((A, b, mag))
        return out

    def objective(self, U, V, pu=None, pv=None, wu=None, wv=None):
        """(objective, magnitude of its terms)."""
        S, c = self.S, self.c
        P = S != 0
        pred = U @ V.T
        conf = np.where(P, S + self.bias, 0.0)
        fit = (conf * (pred - 1) ** 2)[P].sum()
        rest = c["alpha0"] * ((pred**2).sum() if c["loss"] == "IALSPP" else (pred[~P] ** 2).sum())
        mag = fit + (np.abs(conf) * (1 + np.abs(pred)) ** 2)[P].sum() + c["alpha0"] * (pred**2).sum()
        ru, rv = self.regs(P, V.shape[0]), self.regs(P.T, U.shape[0])
        r = (ru * ((U - (0 if pu is None else pu)) ** 2).sum(1)).sum() + (rv * ((V - (0 if pv is None else pv)) ** 2).sum(1)).sum()
        for w, lam in ((wu, c["lu"]), (wv, c["li"])):
            if w is not None:
                r += lam * (w**2).sum()
        return (fit + rest + r) / 2, (mag + r) / 2


def make(c, X, F, G, **kw):
    from irspack.recommenders import IALSRecommender
    args = dict(n_components=c["K"], alpha0=c["alpha0"], reg=c["reg"], nu=c["nu"], confidence_scaling=c["scale"], epsilon=c["eps"], init_std=c["std"],
                solver_type=c["solver"], max_cg_steps=c["cg"], ialspp_subspace_dimension=c["sub"], loss_type=c["loss"], nu_star=c.get("nus"), random_seed=c["seed"],
                n_threads=c["t"], user_features=F, item_features=G, lambda_user_feature=c["lu"] if F is not None else 0.0,
                lambda_item_feature=c["li"] if G is not None else 0.0, feature_warmup_epochs=c["warm"])
    args.update(kw)
    return IALSRecommender(X, **args)


def outside(c, *patterns):
    """Row systems are singular (and refused, or undefined with a prior) when nothing weighs an empty row."""
    if c["alpha0"] != 0:
        return False
    if not all(p.any() for p in patterns):
        return True
    if c["nu"] == 0:
        return False
    return (c["solver"] == "CHOLESKY" or c["uf"] or c["if"]) and any(not p.any(1).all() or not p.any(0).all() for p in patterns)


def matrix(c):
    X = build(c["X"])
    return X, X.toarray()


def worst_cond(rec, c, D):
    """Largest condition number of the row systems at the current factors."""
    k = rec.trainer.core_trainer
    U, V = np.array(k.user, dtype=float), np.array(k.item, dtype=float)
    if not (np.isfinite(U).all() and np.isfinite(V).all()):
        return 0.0
    ref = Ref(c, D)
    return max([np.linalg.cond(A) for S, other in ((ref.S, V), (ref.S.T, U)) for A, _, _ in ref.systems(S, other)], default=0.0)


def epoch(rec, c, D):
    """One epoch; single-precision Cholesky may give up on row systems that are singular to working precision."""
    try:
        rec.run_epoch()
    except RuntimeError as e:
        if "Cholesky" in str(e) and worst_cond(rec, c, D) > 1e5:
            raise Skip from None
        raise
