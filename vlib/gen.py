"""Shared generators: strategies produce small JSON specs, builders turn them
into numpy / scipy / pandas inputs deterministically."""
from __future__ import annotations

import numpy as np
import scipy.sparse as sps

from vlib.harness import use_hypothesis

use_hypothesis()
from hypothesis import strategies as st  # noqa: E402

SEED = st.integers(0, 10**6)


def dims(lo=1, hi=12):
    return st.integers(lo, hi)


def edge(lo, hi):
    """Sizes in [lo, hi] that favour the neighbourhood of block sizes (multiples of 16, 64 and 128)."""
    near = sorted({b + k for b in range(16, hi + 2, 16) for k in (-1, 0, 1) if lo <= b + k <= hi})
    return st.one_of(st.sampled_from(near), st.integers(lo, hi)) if near else st.integers(lo, hi)


def mat(max_rows=12, max_cols=12, kinds=("ones", "int", "frac"), min_rows=1, min_cols=1):
    """Sparse matrix spec.  d: density in tenths; e: force some empty rows/columns."""
    return st.fixed_dictionaries({
        "m": st.integers(min_rows, max_rows), "n": st.integers(min_cols, max_cols),
        "d": st.integers(0, 10), "v": st.sampled_from(list(kinds)), "s": SEED,
        "e": st.integers(0, 3),
    })


def values(kind: str, k: int, rng: np.random.RandomState) -> np.ndarray:
    if kind == "ones":
        return np.ones(k)
    if kind == "int":
        return rng.randint(1, 6, size=k).astype(float)
    if kind == "frac":  # exactly representable fractions, also below 1
        return rng.randint(1, 64, size=k) / 16.0
    if kind == "real":
        return rng.uniform(0.05, 3.0, size=k)
    if kind == "neg":
        return rng.randint(1, 64, size=k) / 16.0 * rng.choice([-1, 1], size=k)
    if kind == "unit":  # rows that sum to zero are likely
        return rng.choice([-1.0, 1.0], size=k)
    if kind == "big":
        return rng.randint(1, 1 << 20, size=k).astype(float)
    raise ValueError(kind)


def build(spec: dict, dtype=np.float64) -> sps.csr_matrix:
    rng = np.random.RandomState(spec["s"] % (2**32))
    m, n = spec["m"], spec["n"]
    mask = rng.uniform(size=(m, n)) < spec["d"] / 10.0
    if spec.get("e", 0) == 1 and m:
        mask[rng.randint(m)] = False
    elif spec.get("e", 0) == 2 and n:
        mask[:, rng.randint(n)] = False
    elif spec.get("e", 0) == 3 and m:
        mask[rng.randint(m)] = True
    r, c = np.nonzero(mask)
    X = sps.csr_matrix((values(spec["v"], len(r), rng), (r, c)), shape=(m, n))
    return X.astype(dtype)


def dense(X) -> np.ndarray:
    return X.toarray() if sps.issparse(X) else np.asarray(X)


FORMATS = ("csr", "csc", "coo", "lil", "csr_unsorted")


def as_format(X: sps.csr_matrix, fmt: str, seed: int = 0):
    if fmt == "csr":
        return X.copy()
    if fmt == "csr_unsorted":
        Y = X.copy()
        rng = np.random.RandomState(seed)
        for i in range(Y.shape[0]):
            a, b = Y.indptr[i], Y.indptr[i + 1]
            p = rng.permutation(b - a)
            Y.indices[a:b] = Y.indices[a:b][p]
            Y.data[a:b] = Y.data[a:b][p]
        Y.has_sorted_indices = False
        return Y
    return X.asformat(fmt)


def snapshot(X):
    """Content of an array or sparse matrix, to detect modification."""
    if sps.issparse(X):
        Y = X.tocsr() if X.format not in ("csr", "csc") else X
        return (X.format, X.shape, str(X.dtype), X.toarray().tobytes(),
                Y.data.tobytes() if X.format in ("csr", "csc") else b"")
    return (X.shape, str(X.dtype), np.ascontiguousarray(X).tobytes())


def ids(kind: str, k: int, seed: int, tag: str = "") -> list:
    """k distinct identifiers in an order unrelated to their sort order."""
    rng = np.random.RandomState(seed)
    if kind == "int":
        out = rng.permutation(3 * k + 5)[:k].tolist()
    elif kind == "neg":
        out = (rng.permutation(3 * k + 5)[:k] - k).tolist()
    elif kind == "bigint":
        out = [int(x) * (1 << 33) + 7 for x in rng.permutation(3 * k + 5)[:k]]
    elif kind == "str":
        out = [f"{tag}{x}" for x in rng.permutation(3 * k + 5)[:k]]
    elif kind == "tricky":  # strings that look like numbers / contain separators
        base = ["", " ", "0", "00", "1", "01", "1.0", "a", "A", "a ", "é", "nan", "None", "-1", "a,b", 'q"']
        out = [base[i] if i < len(base) else f"{tag}x{i}" for i in rng.permutation(max(k, len(base)))[:k]]
    else:
        raise ValueError(kind)
    return out


ID_KINDS = ("int", "neg", "bigint", "str", "tricky")


def close(a, b, rtol=1e-9, atol=1e-9) -> bool:
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def omit(kw, defaults, seed):
    """Leaves out, for two seeds of three, the arguments that have their documented default."""
    if seed % 3 == 0:
        return kw
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k])}
