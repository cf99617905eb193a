"""P04: holding out chosen interactions never leaks them into the learning part."""
import numpy as np
import pandas as pd

from checks.p02 import make_log
from vlib import peer
from vlib.gen import ID_KINDS, omit, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P04", ("_util_cpp",), True
EFFORT = 8  # multiplies the quick case counts
RULE = ("random event logs (1-120 rows, up to 25 users, duplicates, five id kinds, arbitrary row labels) x marker density and kind "
        "(boolean mask / positions) x ratio pairs x seed; non-trivial: some validation or test user has both a marked "
        "and an unmarked interaction")

R = st.one_of(st.sampled_from([0.0, 0.2, 0.3, 0.5, 0.4, 1 / 3, 1.0]), st.floats(0, 1, allow_nan=False))


def strategy():
    return st.fixed_dictionaries({
        "log": st.fixed_dictionaries({
            "rows": st.integers(1, 120), "users": st.integers(1, 25), "items": st.integers(1, 10),
            "uk": st.sampled_from(ID_KINDS), "ik": st.sampled_from(ID_KINDS),
            "tk": st.just("int"), "trange": st.just(10),
            "index": st.sampled_from(["range", "dup", "str"]), "s": st.integers(0, 10**6)}),
        "mark": st.integers(0, 10), "kind": st.sampled_from(["bool", "pos"]),
        "rv": R, "rt": R, "seed": st.integers(0, 2**31 - 1), "rs": st.sampled_from(["int", "state"]),
    })


def inputs(c):
    df = make_log(c["log"])
    rng = np.random.RandomState(c["log"]["s"] + 5)
    mask = rng.uniform(size=len(df)) < c["mark"] / 10
    ind = mask if c["kind"] == "bool" else rng.permutation(np.where(mask)[0])
    rv, rt = c["rv"], c["rt"]
    if rv + rt > 1:
        rt = max(0.0, 1 - rv)
    return df, mask, ind, rv, rt


def run(c, ctx):
    from irspack.split import holdout_specific_interactions
    df, mask, ind, rv, rt = inputs(c)
    orig = df.copy(deep=True)

    def call():
        rs = c["seed"] if c["rs"] == "int" else np.random.RandomState(c["seed"])
        return holdout_specific_interactions(df, "the user", "item", ind, random_state=rs, **omit(
            {"validatable_user_ratio_val": rv, "validatable_user_ratio_test": rt}, {"validatable_user_ratio_val": 0.2, "validatable_user_ratio_test": 0.2}, c["seed"]))
    items, data = call()
    pd.testing.assert_frame_equal(df, orig)
    items = list(items)
    check(len(items) == len(set(items)) and set(items) == set(df["item"]), "item list")
    users, its = df["the user"].tolist(), df["item"].tolist()
    marked_users = {u for u, m in zip(users, mask) if m}
    check(set(data) == {"train", "val", "test"}, "keys")
    allu = [u for k in data for u in data[k].user_ids]
    check(len(allu) == len(set(allu)) and set(allu) == set(users), "users are not partitioned")
    learn, held = {}, {}
    for u, i, m in zip(users, its, mask):
        d = held if m else learn
        d[u, i] = d.get((u, i), 0) + 1
    for k in data:
        p = data[k]
        A, B = p.X_train.toarray(), p.X_test.toarray()
        check(A.shape == (len(p.user_ids), len(items)) == B.shape, f"{k}: shape")
        for r, u in enumerate(p.user_ids):
            if k != "train":
                check(u in marked_users, f"user {u!r} without a marked interaction is in {k}")
                ctx.nt(any(x == u for x, _ in held) and any(x == u for x, _ in learn))
            for j, i in enumerate(items):
                a, b = learn.get((u, i), 0), held.get((u, i), 0)
                if k == "train":
                    a, b = a + b, 0
                check(A[r, j] == a, f"{k} user {u!r} item {i!r}: learning value {A[r, j]}, expected {a}")
                check(B[r, j] == b, f"{k} user {u!r} item {i!r}: held-out value {B[r, j]}, expected {b}")
    n = len(marked_users)
    nt_ = sum(u in marked_users for u in data["train"].user_ids)
    nv, ne = data["val"].n_users, data["test"].n_users
    e = 1e-6 * (n + 1)
    check(-1 - e < nt_ - (1 - rv - rt) * n < 1 + e and -1 - e < nv - rv * n < 1 + e and -1 - e < ne - rt * n < 2 + e,
          f"{n} marked users with ratios val {rv}, test {rt} became train {nt_}, val {nv}, test {ne}")
    items2, data2 = call()
    check(list(items2) == items, "items differ")
    for k in data:
        check(list(data[k].user_ids) == list(data2[k].user_ids) and (data[k].X_all != data2[k].X_all).nnz == 0,
              f"{k}: same seed, different dataset")


def run_uniform(c, ctx):
    """Every marked user is equally likely to be selected."""
    from irspack.split import holdout_specific_interactions
    n = c["n"]
    df = pd.DataFrame({"u": np.repeat(np.arange(n), 2), "i": np.tile(np.arange(2), n)})
    N, cnt = 250, {k: np.zeros(n) for k in ("train", "val", "test")}
    for j in range(N):
        _, d = holdout_specific_interactions(df, "u", "i", (df["i"] == 1).values, c["rv"] / 10, c["rt"] / 10,
                                             random_state=c["s"] + 13 * j)
        for k in cnt:
            cnt[k][np.array(d[k].user_ids, dtype=int)] += 1
    for k, v in cnt.items():
        p = v.sum() / N / n
        sd = np.sqrt(N * p * (1 - p)) + 1e-9
        check(np.all(np.abs(v - N * p) <= 7 * sd), lambda: f"{k} users are not selected uniformly: {v / N} vs {p}")
    ctx.nt()


def strategy_uniform():
    return st.fixed_dictionaries({"n": st.integers(6, 12), "rv": st.integers(2, 4), "rt": st.integers(2, 4), "s": st.integers(0, 10**6)})


def answer(c):
    from irspack.split import holdout_specific_interactions
    df, _, ind, rv, rt = inputs(c)
    items, data = holdout_specific_interactions(df, "the user", "item", ind, validatable_user_ratio_val=rv, validatable_user_ratio_test=rt, random_state=c["seed"])
    return {"items": [repr(x) for x in items], **{k: [[repr(u) for u in p.user_ids], p.X_train.toarray().tolist(), p.X_test.toarray().tolist()] for k, p in data.items()}}


def run_process(c, ctx):
    """The seed alone determines the datasets: another process (other string hashes) gets the same ones."""
    mine = answer(c)
    other = peer.ask(PROPERTY, "answer", c, BARE)
    for k in mine:
        check(mine[k] == other[k], lambda: f"{k}: the same call with the same seed differs in another process: {str(mine[k])[:300]} vs {str(other[k])[:300]}")
    ctx.nt(len(mine["items"]) > 2 and len(mine["train"][0]) > 0 and len(mine["val"][0]) + len(mine["test"][0]) > 1)
    ctx.tag(c["log"]["ik"])


FACETS = [Facet("partition", strategy, run, quick=800, thorough=16000, shards=4,
                examples=[{"log": {"rows": 9, "users": 3, "items": 3, "uk": "int", "ik": "str", "tk": "int", "trange": 10,
                                   "index": "range", "s": 1}, "mark": 5, "kind": "bool", "rv": 0.0, "rt": 0.0, "seed": 0, "rs": "int"}]),
          Facet("uniform", strategy_uniform, run_uniform, quick=4, thorough=60),
          Facet("processes", strategy, run_process, quick=40, thorough=3000)]
