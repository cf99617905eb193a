"""P05: train/test pair container stays consistent under views and concatenation."""
import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib.gen import ID_KINDS, as_format, build, ids, mat, snapshot, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P05", ("_util_cpp",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("histories of 1-4 train/test pairs (any format, with/without test part, with/without item ids, some stored zeros) built, viewed and concatenated "
        "in random association order; non-trivial: at least two pairs concatenated with interactions in both parts")


def strategy():
    return st.fixed_dictionaries({
        "parts": st.lists(st.fixed_dictionaries({
            "A": mat(6, 6, kinds=("ones", "int", "frac", "neg"), min_rows=0), "B": mat(6, 6, kinds=("ones", "int", "frac", "neg")),
            "fmt": st.sampled_from(["csr", "csc", "csr_unsorted", "lil", "coo"]),
            "dtype": st.sampled_from(["float64", "float64", "float32", "int64", "int32"]), "test": st.booleans(), "zero": st.booleans(), "ids": st.sampled_from([True, True, True, False])}),
            min_size=1, max_size=4),
        "n": st.integers(1, 7), "items": st.booleans(), "uk": st.sampled_from(ID_KINDS), "ik": st.sampled_from(ID_KINDS),
        "aslist": st.booleans(), "left": st.booleans(), "views_first": st.booleans(), "bad": st.sampled_from([None, "users", "test", "items", "concat"]),
    })


def run(c, ctx):
    from irspack.split import UserTrainTestInteractionPair as Pair
    n = c["n"]
    item_ids = ids(c["ik"], n, 3, "i") if c["items"] else None
    total = sum(p["A"]["m"] for p in c["parts"])
    uids = ids(c["uk"], total, 4, "u")
    pos, pairs, oracle = 0, [], []
    for p in c["parts"]:
        m = p["A"]["m"]
        A = build({**p["A"], "n": n})
        B = build({**p["B"], "m": m, "n": n})
        if p["zero"] and A.nnz:
            A.data[0] = 0.0
        if p["dtype"].startswith("int"):
            A, B = (sps.csr_matrix((np.where(M.data < 0, np.floor(M.data), np.ceil(M.data)), M.indices, M.indptr), shape=M.shape) for M in (A, B))
        A, B = A.astype(p["dtype"]), B.astype(p["dtype"])
        u = uids[pos:pos + m]
        pos += m
        fA, fB = as_format(A, p["fmt"], 1), as_format(B, p["fmt"], 2)
        sa, sb = snapshot(fA)[3], snapshot(fB)[3]
        pair = Pair(u if c["aslist"] else np.array(u, dtype=object if not u else None), fA, fB if p["test"] else None,
                    item_ids=item_ids if p["ids"] else None)
        own = item_ids if p["ids"] else None
        oracle.append((list(u), A.toarray(), B.toarray() if p["test"] else np.zeros((m, n))))
        if c["views_first"] and own is not None:
            view(pair, oracle[-1], own)
        verify(pair, oracle[-1], own)
        check(snapshot(fA)[3] == sa and snapshot(fB)[3] == sb, "caller's matrix changed")
        pairs.append((pair, own))
    def joined(x, y):  # the first operand's item ids are kept, whether or not the second one has any
        (p, ids_p, op), (q, _, oq) = x, y
        return p.concat(q), ids_p, tuple(u + v if isinstance(u, list) else np.vstack([u, v]) for u, v in zip(op, oq))

    chain = [(q, own, oq) for (q, own), oq in zip(pairs, oracle)]
    if c["left"]:
        last = chain[0]
        for x in chain[1:]:
            last = joined(last, x)
    else:
        last = chain[-1]
        for x in chain[-2::-1]:
            last = joined(x, last)
    acc, kept, o = last
    verify(acc, o, kept)
    for q, own, oq in chain:  # the operands are untouched
        verify(q, oq, own)
    ctx.nt(len(pairs) > 1 and np.any(o[1]) and np.any(o[2]))

    def rejected(f):
        try:
            f()
        except ValueError:
            return True
        return False
    X = sps.csr_matrix(np.eye(3))
    if c["bad"] == "users":
        check(rejected(lambda: Pair([1, 2], X, None)), "wrong number of user ids accepted")
    elif c["bad"] == "test":
        check(rejected(lambda: Pair([1, 2, 3], X, sps.csr_matrix((3, 2)))), "inconsistent test shape accepted")
        check(rejected(lambda: Pair([1, 2, 3], X, sps.csr_matrix((2, 3)))), "inconsistent test shape accepted")
    elif c["bad"] == "items":
        check(rejected(lambda: Pair([1, 2, 3], X, None, item_ids=[1, 2])), "wrong number of item ids accepted")
    elif c["bad"] == "concat":
        other = Pair([1], sps.csr_matrix((1, n + 1)), None)
        check(rejected(lambda: acc.concat(other)), "concatenation with different item count accepted")


def view(pair, o, item_ids):
    us, A, B = o
    for f, M in ((pair.df_train, A), (pair.df_test, B)):
        df = f()
        check(list(df.columns) == ["user_id", "item_id", "rating"], f"columns {list(df.columns)}")
        got = sorted((str(u), str(i), float(r)) for u, i, r in df.itertuples(index=False))
        want = sorted((str(us[r]), str(item_ids[k]), float(M[r, k])) for r, k in zip(*np.nonzero(M)))
        check(got == want, lambda: f"table view {got}\nexpected {want}")


def verify(pair, o, item_ids):
    us, A, B = o
    check([str(x) for x in pair.user_ids] == [str(x) for x in us], "user ids")
    check(np.array_equal(pair.X_train.toarray(), A), "train part")
    check(np.array_equal(pair.X_test.toarray(), B), "test part")
    check(np.array_equal(pair.X_all.toarray(), A + B), "sum of parts")
    check((pair.n_users, pair.n_items) == A.shape == pair.X_test.shape, "sizes")
    check(all(sps.isspmatrix_csr(x) or x.format == "csr" for x in (pair.X_train, pair.X_test, pair.X_all)), "format")
    if item_ids is not None:
        view(pair, o, item_ids)


FACETS = [Facet("history", strategy, run, quick=500, thorough=20000, shards=4)]
