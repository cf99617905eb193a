"""P24: sparse weighting and product utilities equal their formulas."""
import numpy as np
import scipy.sparse as sps

from vlib.gen import as_format, build, mat, snapshot, st
from vlib.harness import Facet, Skip, check
from vlib.weights import bm25, tfidf

PROPERTY, NATIVE, BARE = "P24", ("_util_cpp",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random matrices (1-14 x 1-14; products up to 70 rows with up to 13 threads; empty rows/columns, non-square) x parameters x thread counts; oracle: dense "
        "formulas; non-trivial: the input has at least two non-zeros")
ASSUMPTIONS = ["BM25 of matrices summing to zero or with a vanishing denominator (negative values only) and normalisation of rows with negative values are not judged; normalisation takes a column-compressed matrix (its signature)",
               "unsmoothed TF-IDF and BM25 use the documented definitions log(N/df) and Okapi's formula with log(N/(df+1)+1)"]


def strategy():
    return st.fixed_dictionaries({
        "X": mat(14, 14, kinds=("ones", "int", "frac", "real", "neg", "unit")), "fmt": st.sampled_from(["csr", "csc", "csr_unsorted"]), "dtype": st.sampled_from(["float64", "float64", "float32", "int64"]),
        "op": st.sampled_from(["tfidf", "bm25", "diag", "l1"]), "smooth": st.sampled_from([None, True, False]), "k1": st.sampled_from([None, 1.2, 0.1, 3.0]), "b": st.sampled_from([None, 0.75, 0.0, 1.0, 0.3])})


def run(c, ctx):
    from irspack import utils as U
    spec = dict(c["X"])
    if c["op"] == "diag":
        spec["n"] = spec["m"]
    X0 = build(spec)
    if c["dtype"] == "int64":
        X0.data = np.sign(X0.data) * np.ceil(np.abs(X0.data))
    X0 = X0.astype(c["dtype"])
    D = X0.toarray().astype(float)
    X = as_format(X0, "csc" if c["op"] == "l1" else c["fmt"], 3)
    before = snapshot(X)
    Y = X if c["op"] == "l1" else X.astype("float64")
    y0 = snapshot(Y)
    if c["op"] == "tfidf":
        got = U.tf_idf_weight(Y) if c["smooth"] is None else U.tf_idf_weight(Y, c["smooth"])
        want = tfidf(D, c["smooth"] is not False)
    elif c["op"] == "bm25":
        kw = {k: c[a] for k, a in (("k1", "k1"), ("b", "b")) if c[a] is not None}
        got = U.okapi_BM_25_weight(Y, **kw)
        if D.sum() == 0 and X0.nnz:
            raise Skip  # no average length
        want = bm25(D, **kw)
        if not np.all(np.isfinite(want)) or np.abs(want).max(initial=0) > 1e6:
            raise Skip  # negative values can make a denominator vanish
    elif c["op"] == "diag":
        got = U.remove_diagonal(Y)
        want = D.copy()
        np.fill_diagonal(want, 0)
    else:
        got = U.l1_normalize_row(Y)
        s = D.sum(1, keepdims=True)
        if (D < 0).any():
            raise Skip
        want = np.where(s > 0, D / np.where(s > 0, s, 1), 0)
    check(got.shape == X.shape, "shape changed")
    check(np.allclose(got.toarray(), want, rtol=1e-9, atol=1e-12), lambda: f"{c['op']}: {got.toarray().tolist()} vs {want.tolist()}")
    extra = np.asarray((got != 0).toarray()) & (D == 0)
    check(not extra.any() and got.nnz <= X0.nnz, "entries appeared outside the sparsity pattern")
    check(snapshot(X)[3] == before[3] and snapshot(Y)[3] == y0[3], "the input was modified")
    ctx.nt(X0.nnz >= 2)
    ctx.tag(c["op"])


def strategy_mm():
    return st.fixed_dictionaries({"A": mat(70, 9, kinds=("int", "frac", "neg"), min_rows=0), "B": mat(1, 40, kinds=("int", "frac", "neg")),
                                  "fa": st.sampled_from(["csr", "csc", "csr_unsorted"]), "fb": st.sampled_from(["csr", "csc", "csr_unsorted"]),
                                  "t": st.sampled_from([1, 2, 3, 7, 8, 13])})


def run_mm(c, ctx):
    from irspack.utils import sparse_mm_threaded
    A, B = build(c["A"]), build({**c["B"], "m": c["A"]["n"]})
    a, b = as_format(A, c["fa"], 1), as_format(B, c["fb"], 2)
    s = snapshot(a)[3], snapshot(b)[3]
    got = sparse_mm_threaded(a, b, c["t"])
    want = A.toarray() @ B.toarray()
    G = got.toarray() if sps.issparse(got) else np.asarray(got)
    check(G.shape == want.shape and np.array_equal(G, want), lambda: f"product with {c['t']} threads: rows {np.nonzero((G != want).any(1))[0].tolist()} differ" if G.shape == want.shape else f"shape {G.shape}")
    check((snapshot(a)[3], snapshot(b)[3]) == s, "an operand was modified")
    ctx.nt(c["t"] > 1 and A.shape[0] % c["t"] != 0 and want.any())


FACETS = [Facet("weights", strategy, run, quick=900, thorough=25000, shards=3),
          Facet("product", strategy_mm, run_mm, quick=500, thorough=15000, shards=3)]
