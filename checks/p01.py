"""P01: row-wise random hold-out split is an exact, reproducible partition."""
import math

import numpy as np
import scipy.sparse as sps

from vlib import peer
from vlib.gen import as_format, build, mat, omit, snapshot, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P01", ("_util_cpp",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random sparse matrices (0-14 rows/cols, all densities, empty rows, integral / fractional / negative / large "
        "values, four dtypes, CSR/CSC; and rows of up to 90000 entries) x ratio|count x rounding x seed kind; non-trivial: at least one row "
        "has both a training and a test entry")
ASSUMPTIONS = ["stored entries are non-zero (the documented input)"]


def _split(X, c, rs):
    from irspack.utils import rowwise_train_test_split
    kw = {"random_state": rs}
    if c["n_test"] is not None:
        kw["n_test"] = c["n_test"]
        if c["both"]:
            kw["test_ratio"] = 0.3
    else:
        kw["test_ratio"] = c["ratio"]
        kw["ceil_n_heldout"] = c["ceil"]
    return rowwise_train_test_split(X, **omit(kw, {"test_ratio": 0.5, "ceil_n_heldout": False}, c["seed"]))


RATIO = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.2, 0.3, 0.7, 0.9, 1 / 3, 2 / 3, 0.25, 0.999, 0.001]),
                  st.floats(0, 1, allow_nan=False))


def strategy():
    return st.fixed_dictionaries({
        "X": mat(14, 14, kinds=("ones", "int", "frac", "neg", "big", "real"), min_rows=0, min_cols=0),
        "dtype": st.sampled_from(["float64", "float32", "int64", "int32"]),
        "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]),
        "n_test": st.one_of(st.none(), st.integers(0, 16)),
        "ratio": RATIO, "ceil": st.booleans(), "both": st.booleans(),
        "seed": st.integers(0, 2**31 - 1), "rs": st.sampled_from(["int", "state"]),
    })


def mk(c):
    X = build(c["X"])
    if c["dtype"].startswith("int"):
        X.data = np.where(X.data < 0, np.floor(X.data), np.ceil(X.data))
    return as_format(X.astype(c["dtype"]), c["fmt"], c["seed"] % 1000)


def run(c, ctx):
    X = mk(c)
    before = snapshot(X)
    rs = (lambda: c["seed"]) if c["rs"] == "int" else (lambda: np.random.RandomState(c["seed"]))
    tr, te = _split(X, c, rs())
    check(snapshot(X) == before, "the source matrix was modified")
    check(tr.shape == X.shape and te.shape == X.shape, "shape changed")
    check(tr.dtype == X.dtype and te.dtype == X.dtype, f"dtype {X.dtype} became {tr.dtype}/{te.dtype}")
    A, B, D = tr.toarray(), te.toarray(), X.toarray()
    check(np.array_equal(A + B, D), lambda: f"train + test != original\n{A}\n{B}\n{D}")
    check(not np.any((A != 0) & (B != 0)), "an interaction is in both parts")
    check(tr.nnz == (A != 0).sum() and te.nnz == (B != 0).sum(), "stored zeros introduced")
    for i in range(X.shape[0]):
        nnz = int((D[i] != 0).sum())
        if c["n_test"] is not None:
            want = min(nnz, c["n_test"])
        else:
            want = (math.ceil if c["ceil"] else math.floor)(nnz * c["ratio"])
        got = int((B[i] != 0).sum())
        check(got == want, f"row {i}: {got} of {nnz} held out, expected {want}")
        ctx.nt(0 < want < nnz)
    tr2, te2 = _split(X, c, rs())
    check(np.array_equal(tr2.toarray(), A) and np.array_equal(te2.toarray(), B), "same seed, different split")
    # the choice depends on the stored positions only, not on the matrix type
    tr3, te3 = _split(as_format(X.tocsr().astype(float), "csr"), c, rs())
    check(np.array_equal(np.sort((te3.toarray() != 0).sum(axis=1)), np.sort((B != 0).sum(axis=1))),
          "held-out counts depend on the matrix type")
    ctx.tag("by_count" if c["n_test"] is not None else "by_ratio", c["dtype"], c["fmt"])


def strategy_uniform():
    return st.fixed_dictionaries({"k": st.integers(2, 9), "h": st.integers(1, 8), "s": st.integers(0, 10**6)})


def run_uniform(c, ctx):
    """Every entry of a row is equally likely to be held out, independently per row and seed."""
    k, h, rows = c["k"], min(c["h"], c["k"] - 1), 40
    from irspack.utils import rowwise_train_test_split
    X = sps.csr_matrix(np.ones((rows, k)))
    cnt, N, pats = np.zeros(k), 0, set()
    for j in range(25):
        for mode in ("n", "r"):
            kw = {"n_test": h} if mode == "n" else {"test_ratio": h / k + 1e-9}
            B = rowwise_train_test_split(X, random_state=c["s"] + 31 * j, **kw)[1].toarray()
            check((B.sum(axis=1) == h).all(), "wrong held-out count")
            cnt += B.sum(axis=0)
            pats.add(B.tobytes())
            N += rows
            check(len({r.tobytes() for r in B}) > 1, "every row got the same pattern")
    check(len(pats) > 20, "different seeds give the same split")
    p = h / k
    sd = math.sqrt(N * p * (1 - p)) * math.sqrt(2)  # the two modes may share their random stream
    check(np.all(np.abs(cnt - N * p) < 7 * sd), lambda: f"held-out positions not uniform: {cnt / N} vs {p}")
    ctx.nt()


def strategy_long():
    n = st.one_of(st.sampled_from([127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000]), st.integers(200, 90000))
    return st.fixed_dictionaries({"n": st.lists(n, min_size=1, max_size=3), "n_test": st.one_of(st.none(), st.none(), n), "ratio": RATIO, "ceil": st.booleans(), "both": st.booleans(),
                                  "seed": st.integers(0, 2**31 - 1), "fmt": st.sampled_from(["csr", "csc"])})


def run_long(c, ctx):
    """Rows longer than any narrow counter or index could hold."""
    cols = np.concatenate([np.arange(k) for k in c["n"]])
    X = sps.csr_matrix((cols + 1.0, cols, np.cumsum([0] + c["n"])), shape=(len(c["n"]), max(c["n"])))
    tr, te = (M.tocsr() for M in _split(X.asformat(c["fmt"]), c, c["seed"]))
    for i, k in enumerate(c["n"]):
        a, b = tr[i], te[i]
        want = min(k, c["n_test"]) if c["n_test"] is not None else (math.ceil if c["ceil"] else math.floor)(k * c["ratio"])
        check(b.nnz == want, f"row {i}: {b.nnz} of {k} held out, expected {want}")
        every = np.concatenate([a.indices, b.indices])
        check(len(every) == k and np.array_equal(np.sort(every), np.arange(k)), f"row {i} of {k} entries: the two parts are not a partition")
        check(np.array_equal(a.data, a.indices + 1.0) and np.array_equal(b.data, b.indices + 1.0), f"row {i}: values moved")
        if k >= 1000 and 0.2 * k <= want <= 0.8 * k:  # no block of the row is systematically spared
            parts = np.histogram(b.indices, bins=8, range=(0, k))[0] / (k / 8)
            check(np.all(np.abs(parts - want / k) < 8 * math.sqrt(0.25 / (k / 8))), lambda: f"row {i} of {k}: held-out share by position {parts}, overall {want / k}")
        ctx.nt(0 < want < k)


def answer(c):
    return [m.toarray().tolist() for m in _split(mk(c), c, c["seed"] if c["rs"] == "int" else np.random.RandomState(c["seed"]))]


def run_process(c, ctx):
    """The seed alone determines the split: another process gets the same one."""
    mine = answer(c)
    other = peer.ask(PROPERTY, "answer", c, BARE)
    check(mine == other, lambda: f"the same call with the same seed differs in another process: {str(mine)[:300]} vs {str(other)[:300]}")
    ctx.nt(any(map(any, mine[0])) and any(map(any, mine[1])))


FACETS = [Facet("partition", strategy, run, quick=600, thorough=30000, shards=2),
          Facet("uniform", strategy_uniform, run_uniform, quick=12, thorough=300),
          Facet("long", strategy_long, run_long, quick=12, thorough=3000),
          Facet("processes", strategy, run_process, quick=20, thorough=3000)]
