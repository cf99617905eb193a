"""P06: log-to-matrix conversion places every event in its user's row and item's column."""
import numpy as np
import pandas as pd

from vlib.gen import ID_KINDS, ids, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P06", ("_util_cpp",), True
EFFORT = 14  # multiplies the quick case counts
RULE = ("random event tables (0-400 events, up to 300 ids per side, duplicates, five id kinds, arbitrary row labels and column names, positive / "
        "negative / zero ratings of ten column types) x supplied id lists (absent, permuted, superset, subset), plus tables with up to 140000 ids per side; non-trivial: a duplicate pair, an unseen id or a dropped event occurs")


def strategy():
    side = st.fixed_dictionaries({"n": st.one_of(st.integers(1, 12), st.sampled_from([130, 300])),
                                  "k": st.sampled_from(ID_KINDS), "list": st.sampled_from([None, "perm", "super", "sub"]),
                                  "form": st.sampled_from(["list", "array", "index"])})
    return st.fixed_dictionaries({"u": side, "i": side, "rows": st.one_of(st.integers(0, 40), st.just(400)),
                                  "rating": st.sampled_from([None, "int", "frac", "zero", "uint8", "int8", "int16", "float32", "bool", "object"]), "index": st.booleans(),
                                  "cols": st.sampled_from([["user", "item"], ["the user", "1"], ["x", "rating of item"]]),
                                  "s": st.integers(0, 10**6)})


def _list(side, base, rng):
    if side["list"] is None:
        return None
    out = [base[j] for j in rng.permutation(len(base))]
    if side["list"] == "super":
        out = ids(side["k"], 2 * len(base) + 20, side["n"] + 77, "z")
        out = [x for x in out if x not in set(base)] + [base[j] for j in rng.permutation(len(base))]
        out = [out[j] for j in rng.permutation(len(out))]
    elif side["list"] == "sub":
        out = out[: max(1, len(out) // 2)]
    if side["form"] == "array":
        return np.array(out)
    if side["form"] == "index":
        return pd.Index(out)
    return out


def run(c, ctx):
    from irspack.utils import df_to_sparse
    rng = np.random.RandomState(c["s"])
    uid, iid = ids(c["u"]["k"], c["u"]["n"], 11, "u"), ids(c["i"]["k"], c["i"]["n"], 12, "i")
    k = c["rows"]
    us = [uid[j] for j in rng.randint(len(uid), size=k)]
    its = [iid[j] for j in rng.randint(len(iid), size=k)]
    rt = {"int": lambda: rng.randint(1, 6, size=k), "frac": lambda: rng.randint(-40, 40, size=k) / 8,
          "zero": lambda: rng.randint(0, 2, size=k), "uint8": lambda: rng.randint(0, 256, size=k).astype(np.uint8),
          "int8": lambda: rng.randint(-128, 128, size=k).astype(np.int8), "int16": lambda: rng.randint(20000, 32768, size=k).astype(np.int16),
          "float32": lambda: (rng.randint(1, 9, size=k) + (1 << 23)).astype(np.float32), "bool": lambda: rng.randint(0, 2, size=k).astype(bool),
          "object": lambda: rng.randint(1, 6, size=k).astype(object), None: lambda: rng.randint(1, 6, size=k)}[c["rating"]]()
    ucol, icol = c["cols"]
    df = pd.DataFrame({"stars": rt, icol: pd.Series(its, dtype=object if not k else None),
                       ucol: pd.Series(us, dtype=object if not k else None)})
    if c["index"]:
        df.index = rng.randint(0, 3, size=k)
    orig = df.copy(deep=True)
    ul, il = _list(c["u"], uid, rng), _list(c["i"], iid, rng)
    X, ru, ri = df_to_sparse(df, ucol, icol, user_ids=ul, item_ids=il,
                             rating_column="stars" if c["rating"] else None)
    pd.testing.assert_frame_equal(df, orig)
    ru, ri = list(ru), list(ri)
    keep = [(u, i, float(r) if c["rating"] else 1.0) for u, i, r in zip(us, its, rt.tolist())
            if (ul is None or u in set(ul)) and (il is None or i in set(il))]
    if ul is not None:
        check(ru == list(ul), "rows do not follow the supplied users")
    else:
        check(len(ru) == len(set(ru)) and set(ru) == {u for u, _, _ in keep}, "row ids")
    if il is not None:
        check(ri == list(il), "columns do not follow the supplied items")
    else:
        check(len(ri) == len(set(ri)) and set(ri) == {i for _, i, _ in keep}, "column ids")
    check(X.shape == (len(ru), len(ri)), f"shape {X.shape}")
    W = np.zeros(X.shape)
    ur, ir = {u: j for j, u in enumerate(ru)}, {i: j for j, i in enumerate(ri)}
    for u, i, r in keep:
        W[ur[u], ir[i]] += r
    check(np.array_equal(X.toarray(), W), lambda: f"matrix\n{X.toarray()}\nexpected\n{W}")
    ctx.nt(len(keep) < k or len({(u, i) for u, i, _ in keep}) < len(keep) or len(ru) > len({u for u, _, _ in keep}))


def strategy_scale():
    n = st.one_of(st.sampled_from([127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 70000]), st.integers(1, 140000))
    return st.fixed_dictionaries({"u": n, "i": n, "ul": st.booleans(), "il": st.booleans(), "str": st.booleans(), "s": st.integers(0, 10**6)})


def run_scale(c, ctx):
    """Many ids: every event must still reach its own row and column."""
    from irspack.utils import df_to_sparse
    rng = np.random.RandomState(c["s"])
    k = max(c["u"], c["i"])
    ui, ii = rng.permutation(k) % c["u"], rng.permutation(k) % c["i"]
    name = (lambda a, p: np.array([f"{p}{x}" for x in a], dtype=object)) if c["str"] else (lambda a, p: a.astype(np.int64) * 3 + 1)
    df = pd.DataFrame({"u": name(ui, "u"), "i": name(ii, "i"), "r": rng.randint(1, 6, size=k)})
    ul = list(name(rng.permutation(c["u"]), "u")) if c["ul"] else None
    il = list(name(rng.permutation(c["i"]), "i")) if c["il"] else None
    X, ru, ri = df_to_sparse(df, "u", "i", user_ids=ul, item_ids=il, rating_column="r")
    ru, ri = np.asarray(ru, dtype=object if c["str"] else None), np.asarray(ri, dtype=object if c["str"] else None)
    check(X.shape == (c["u"], c["i"]) == (len(ru), len(ri)), f"shape {X.shape}")
    if ul is not None:
        check(list(ru) == ul, "rows do not follow the supplied users")
    if il is not None:
        check(list(ri) == il, "columns do not follow the supplied items")
    C = X.tocoo()
    got = pd.DataFrame({"u": ru[C.row], "i": ri[C.col], "r": C.data}).groupby(["u", "i"], sort=True)["r"].sum()
    want = df.groupby(["u", "i"], sort=True)["r"].sum()
    check(list(got.index) == list(want.index) and np.array_equal(got.to_numpy(), want.to_numpy().astype(float)), "events in other rows or columns")
    ctx.nt(max(c["u"], c["i"]) > 32768)


FACETS = [Facet("scale", strategy_scale, run_scale, quick=24, thorough=400, shards=2), Facet("place", strategy, run, quick=600, thorough=20000, shards=4)]
