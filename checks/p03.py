"""P03: user hold-out datasets partition users and interactions without leakage."""
import math

import numpy as np
import pandas as pd

from checks.p02 import log_strategy, make_log
from vlib import peer
from vlib.gen import omit, st
from vlib.harness import Facet, Skip, check

PROPERTY, NATIVE, BARE = "P03", ("_util_cpp",), True
EFFORT = 6  # multiplies the quick case counts
RULE = ("random event logs (1-90 rows, 1-14 users, duplicates, five id kinds, ratings, tied times) x user counts|ratios x "
        "hold-out counts|ratios x rounding x time/rating columns on or off x seed; non-trivial: at least two of the three sets "
        "are non-empty and some validation/test user has both learning and held-out interactions")
ASSUMPTIONS = ["the requested validation and test users fit in the number of users (otherwise ValueError is required)"]

UR = st.one_of(st.sampled_from([0.0, 0.1, 0.2, 0.3, 0.5, 1 / 3, 0.0, 0.1, 0.2, 1.0]), st.floats(0, 0.5, allow_nan=False))
HR = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 0.1, 0.3, 1 / 3]), st.floats(0, 1, allow_nan=False))

DEFAULTS = dict(time_column=None, rating_column=None, n_val_user=None, n_test_user=None, val_user_ratio=0.1, test_user_ratio=0.1, heldout_ratio_val=0.5, n_heldout_val=None,
                heldout_ratio_test=0.5, n_heldout_test=None, ceil_n_heldout=False)


def strategy():
    return st.fixed_dictionaries({
        "log": st.fixed_dictionaries({
            "rows": st.integers(1, 90), "users": st.integers(1, 14), "items": st.integers(1, 10),
            "uk": st.sampled_from(["int", "neg", "bigint", "str", "tricky"]),
            "ik": st.sampled_from(["int", "neg", "bigint", "str", "tricky"]),
            "tk": st.sampled_from(["int", "float", "datetime", "str"]), "trange": st.sampled_from([3, 10, 1000]),
            "index": st.sampled_from(["range", "dup", "str"]), "s": st.integers(0, 10**6)}),
        "time": st.booleans(), "rating": st.booleans(),
        "n_val": st.one_of(st.none(), st.integers(0, 6)), "n_test": st.one_of(st.none(), st.integers(0, 6)),
        "val_r": UR, "test_r": UR,
        "hv": HR, "ht": HR, "nhv": st.one_of(st.none(), st.integers(0, 5)), "nht": st.one_of(st.none(), st.integers(0, 5)),
        "ceil": st.booleans(), "seed": st.integers(0, 2**31 - 1), "rs": st.sampled_from(["int", "state"]),
    })


def call(df, c):
    from irspack.split import split_dataframe_partial_user_holdout
    rs = c["seed"] if c["rs"] == "int" else np.random.RandomState(c["seed"])
    kw = dict(time_column="when" if c["time"] else None, rating_column="rating" if c["rating"] else None, n_val_user=c["n_val"], n_test_user=c["n_test"],
              val_user_ratio=c["val_r"], test_user_ratio=c["test_r"], heldout_ratio_val=c["hv"], n_heldout_val=c["nhv"],
              heldout_ratio_test=c["ht"], n_heldout_test=c["nht"], ceil_n_heldout=c["ceil"], random_state=rs)
    return split_dataframe_partial_user_holdout(df, "the user", "item", **omit(kw, DEFAULTS, c["seed"]))


def run(c, ctx):
    df = make_log(c["log"])
    orig = df.copy(deep=True)
    n = df["the user"].nunique()
    nv = c["n_val"] if c["n_val"] is not None else int(n * c["val_r"])
    nt = c["n_test"] if c["n_test"] is not None else int(n * c["test_r"])
    if nv + nt > n:
        try:
            call(df, c)
        except ValueError:
            ctx.tag("rejected")
            return
        check(False, f"{nv} validation + {nt} test users of {n} were accepted")
    data, items = call(df, c)
    pd.testing.assert_frame_equal(df, orig)
    check(set(data) == {"train", "val", "test"}, "dataset keys")
    check(len(items) == len(set(items)) and set(items) == set(orig["item"]), "item list")
    allu = [u for k in ("train", "val", "test") for u in data[k].user_ids]
    check(len(allu) == n and set(allu) == set(orig["the user"]), "users are not partitioned")
    sizes = (data["val"].n_users, data["test"].n_users)
    check(sizes == (nv, nt), f"val/test users {sizes}, requested {(nv, nt)}")
    ratings, times = {}, {}
    for u, i, t, r in orig[["the user", "item", "when", "rating"]].itertuples(index=False):
        ratings.setdefault(u, {}).setdefault(i, set()).add(float(r) if c["rating"] else 1.0)
        times.setdefault((u, i), []).append(t)
    good = False
    for k in ("train", "val", "test"):
        p = data[k]
        A, B = p.X_train.toarray(), p.X_test.toarray()
        check(A.shape == B.shape == (len(p.user_ids), len(items)), f"{k}: shape")
        check(np.array_equal(p.X_all.toarray(), A + B), f"{k}: X_all")
        check(not np.any((A != 0) & (B != 0)), f"{k}: an interaction is in both parts")
        for r, u in enumerate(p.user_ids):
            got = {items[j]: A[r, j] + B[r, j] for j in range(len(items)) if A[r, j] or B[r, j]}
            want = ratings[u]
            check(set(got) == set(want), lambda: f"{k} user {u!r}: items {sorted(map(str, got))} expected {sorted(map(str, want))}")
            for i, v in got.items():
                check(v in want[i], lambda: f"{k} user {u!r} item {i!r}: value {v}, expected one of {want[i]}")
            held = [items[j] for j in range(len(items)) if B[r, j]]
            kept = [items[j] for j in range(len(items)) if A[r, j]]
            m = len(want)
            if k == "train":
                h = 0
            else:
                cnt, ratio = (c["nhv"], c["hv"]) if k == "val" else (c["nht"], c["ht"])
                h = min(m, cnt) if cnt is not None else int((math.ceil if c["ceil"] else math.floor)(m * ratio))
                good = good or 0 < h < m
            check(len(held) == h, f"{k} user {u!r}: {len(held)} of {m} held out, expected {h}")
            if c["time"] and k != "train":
                for a in kept:
                    for b in held:
                        check(min(times[u, a]) <= max(times[u, b]),
                              f"{k} user {u!r}: held-out {b!r} is older than retained {a!r}")
    ctx.nt(good and sum(bool(data[k].n_users) for k in data) >= 2)
    ctx.tag("time" if c["time"] else "random")
    data2, items2 = call(df, c)
    check(list(items2) == list(items), "item order differs between identical calls")
    for k in data:
        a, b = data[k], data2[k]
        check(list(a.user_ids) == list(b.user_ids) and (a.X_train != b.X_train).nnz == 0 and (a.X_test != b.X_test).nnz == 0,
              f"{k}: same seed, different dataset")


def run_uniform(c, ctx):
    """Every user is equally likely to be selected."""
    n, nv, nt = c["n"], c["nv"], c["nt"]
    df = pd.DataFrame({"the user": np.repeat(np.arange(n), 3), "item": np.tile(np.arange(3), n), "when": 0, "rating": 1.0})
    base = {"time": False, "rating": False, "n_val": nv, "n_test": nt, "val_r": 0.1, "test_r": 0.1, "hv": 0.5, "ht": 0.5,
            "nhv": None, "nht": None, "ceil": False, "rs": "int"}
    N, cv, ct = 250, np.zeros(n), np.zeros(n)
    for j in range(N):
        d, _ = call(df, {**base, "seed": c["s"] + 17 * j})
        cv[np.array(d["val"].user_ids, dtype=int)] += 1
        ct[np.array(d["test"].user_ids, dtype=int)] += 1
    for cnt, k in ((cv, nv), (ct, nt)):
        p = k / n
        sd = math.sqrt(N * p * (1 - p)) + 1e-9
        check(np.all(np.abs(cnt - N * p) <= 7 * sd), lambda: f"users are not selected uniformly: {cnt / N} vs {p}")
    ctx.nt()


def answer(c):
    """What the call returns, in comparable form."""
    data, items = call(make_log(c["log"]), c)
    return {"items": [repr(x) for x in items], **{k: [[repr(u) for u in p.user_ids], p.X_train.toarray().tolist(), p.X_test.toarray().tolist()] for k, p in data.items()}}


def run_process(c, ctx):
    """The seed alone determines the datasets: another process (other string hashes) gets the same ones."""
    try:
        mine = answer(c)
    except ValueError:
        raise Skip
    other = peer.ask(PROPERTY, "answer", c, BARE)
    for k in mine:
        check(mine[k] == other[k], lambda: f"{k}: the same call with the same seed differs in another process: {str(mine[k])[:300]} vs {str(other[k])[:300]}")
    ctx.nt(len(mine["items"]) > 2)
    ctx.tag(c["log"]["ik"])


def strategy_uniform():
    return st.fixed_dictionaries({"n": st.integers(4, 8), "nv": st.integers(1, 2), "nt": st.integers(1, 2), "s": st.integers(0, 10**6)})


FACETS = [Facet("partition", strategy, run, quick=900, thorough=16000, shards=4),
          Facet("processes", strategy, run_process, quick=50, thorough=3000, shards=2),
          Facet("uniform", strategy_uniform, run_uniform, quick=4, thorough=60, shards=1)]
