"""P02: time-based hold-out takes exactly each user's latest interactions."""
import math

import numpy as np
import pandas as pd

from vlib.gen import ID_KINDS, ids, omit, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P02", ("_util_cpp",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random event logs (0-60 rows, up to 8 users, tied timestamps, five id kinds, integer / float / datetime / string "
        "times, shuffled duplicate row labels, extra columns) x count|ratio x rounding; non-trivial: some user has both "
        "retained and held-out rows")
ASSUMPTIONS = ["user and time columns contain no missing values"]


def log_strategy(max_rows=60):
    return st.fixed_dictionaries({
        "rows": st.integers(0, max_rows), "users": st.integers(1, 8), "items": st.integers(1, 10),
        "uk": st.sampled_from(ID_KINDS), "ik": st.sampled_from(ID_KINDS),
        "tk": st.sampled_from(["int", "float", "datetime", "str"]), "trange": st.sampled_from([1, 3, 10, 1000]),
        "index": st.sampled_from(["range", "dup", "str"]), "s": st.integers(0, 10**6),
    })


def make_log(c, rating="int"):
    rng = np.random.RandomState(c["s"])
    k = c["rows"]
    uid, iid = ids(c["uk"], c["users"], c["s"] + 1, "u"), ids(c["ik"], c["items"], c["s"] + 2, "i")
    t = rng.randint(0, c["trange"], size=k)
    t = {"int": lambda: t, "float": lambda: t / 4 - 1.0,
         "datetime": lambda: pd.Timestamp("2020-01-31") + pd.to_timedelta(t * 7200, unit="s"),
         "str": lambda: np.array([f"{x:05d}" for x in t], dtype=object)}[c["tk"]]()
    df = pd.DataFrame({
        "the user": pd.Series([uid[i] for i in rng.randint(c["users"], size=k)], dtype=object if k == 0 else None),
        "item": pd.Series([iid[i] for i in rng.randint(c["items"], size=k)], dtype=object if k == 0 else None),
        "when": t, "rating": rng.randint(1, 40, size=k) / 8.0, "row_no": np.arange(k)})
    if c["index"] == "dup":
        df.index = rng.randint(0, 3, size=k)
    elif c["index"] == "str":
        df.index = [f"r{i}" for i in rng.permutation(k)]
    return df


def count_rule(n, c):
    if c["n_heldout"] is not None:
        return min(n, c["n_heldout"])
    return min(n, int((math.ceil if c["ceil"] else math.floor)(n * c["ratio"])))


RATIO = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.3, 0.9, 1 / 3]), st.floats(0, 1, allow_nan=False))


def hold():
    return {"n_heldout": st.one_of(st.none(), st.integers(0, 7)), "ratio": RATIO, "ceil": st.booleans()}


def strategy():
    return st.fixed_dictionaries({"log": log_strategy(), **hold()})


def run(c, ctx):
    from irspack.split import split_last_n_interaction_df
    df = make_log(c["log"])
    orig = df.copy(deep=True)
    kw = {"heldout_ratio": c["ratio"], "ceil_n_heldout": c["ceil"]}
    if c["n_heldout"] is not None:
        kw["n_heldout"] = c["n_heldout"]
    tr, te = split_last_n_interaction_df(df, "the user", "when", **omit(kw, {"heldout_ratio": 0.1, "ceil_n_heldout": False}, c["log"]["s"]))
    pd.testing.assert_frame_equal(df, orig)
    check(list(tr.columns) == list(df.columns) == list(te.columns), "columns changed")
    both = pd.concat([tr, te])
    check(sorted(both["row_no"].tolist()) == list(range(len(df))), "rows lost, duplicated or in both parts")
    # whole rows (with their labels) survive
    for part in (tr, te):
        want = orig.iloc[part["row_no"].to_numpy(dtype=int)]
        check(part.astype(object).values.tolist() == want.astype(object).values.tolist(), "row contents changed")
        check(list(part.index) == list(want.index), "row labels changed")
    for u, g in orig.groupby("the user", sort=False):
        a, b = tr[tr["the user"] == u], te[te["the user"] == u]
        want = count_rule(len(g), c)
        check(len(b) == want, f"user {u!r}: {len(b)} of {len(g)} held out, expected {want}")
        if len(a) and len(b):
            ctx.nt()
            check(a["when"].max() <= b["when"].min(), f"user {u!r}: a held-out interaction is older than a retained one")


def strategy_matrix():
    return st.fixed_dictionaries({"log": log_strategy(40), **hold(), "use_rating": st.booleans(), "extra": st.integers(0, 3)})


def run_matrix(c, ctx):
    from irspack.split.userwise import split_train_test_userwise_time
    df = make_log(c["log"])
    # distinct (user, item) pairs with per-user distinct times: the outcome is unique
    df = df.drop_duplicates(["the user", "item"]).drop_duplicates(["the user", "when"])
    if len(df) == 0:
        return
    items = ids(c["log"]["ik"], c["log"]["items"], c["log"]["s"] + 2, "i")
    orig = df.copy(deep=True)
    pair = split_train_test_userwise_time(
        df, "the user", "item", "when", items, c["ratio"], c["n_heldout"],
        rating_column="rating" if c["use_rating"] else None, ceil_n_heldout=c["ceil"])
    pd.testing.assert_frame_equal(df, orig)
    check(sorted(map(str, pair.user_ids)) == sorted(map(str, df["the user"].unique())), "user ids")
    A, B = np.zeros(pair.X_train.shape), np.zeros(pair.X_train.shape)
    row = {u: i for i, u in enumerate(pair.user_ids)}
    col = {x: j for j, x in enumerate(items)}
    for u, g in df.groupby("the user", sort=False):
        g = g.sort_values("when")
        h = count_rule(len(g), c)
        for k, (_, r) in enumerate(g.iterrows()):
            M = B if k >= len(g) - h else A
            M[row[u], col[r["item"]]] += r["rating"] if c["use_rating"] else 1.0
        ctx.nt(0 < h < len(g))
    check(np.array_equal(pair.X_train.toarray(), A), lambda: f"learning part\n{pair.X_train.toarray()}\nexpected\n{A}")
    check(np.array_equal(pair.X_test.toarray(), B), lambda: f"held-out part\n{pair.X_test.toarray()}\nexpected\n{B}")


FACETS = [Facet("frame", strategy, run, quick=400, thorough=12000, shards=2),
          Facet("matrix", strategy_matrix, run_matrix, quick=250, thorough=8000, shards=2)]
