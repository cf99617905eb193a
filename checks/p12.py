"""P12: table-versus-table evaluation equals the metric definitions."""
import numpy as np
import pandas as pd

from vlib.gen import ID_KINDS, ids, st
from vlib.harness import Facet, check
from vlib.metrics import differs, metrics

PROPERTY, NATIVE, BARE = "P12", ("_core_evaluator",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random recommendation and ground-truth tables (users on one side only, interleaved users, duplicate truth rows, items unknown to the other side, "
        "five id kinds, odd column names and row labels, extra columns) x threads; non-trivial: at least two common users and 0 < ndcg < 1")
ASSUMPTIONS = ["a recommendation table lists an item at most once per user"]


def strategy():
    return st.fixed_dictionaries({
        "users": st.integers(1, 9), "items": st.integers(1, 12), "uk": st.sampled_from(ID_KINDS), "ik": st.sampled_from(ID_KINDS),
        "cols": st.sampled_from([["user_id", "item_id"], ["user id", "item-id"], ["_u", "_i"], ["Index", "item"], ["item", "Index"], ["1", "2"], ["count", "index"]]),
        "maxrec": st.integers(0, 12), "maxgt": st.integers(0, 12), "only": st.sampled_from([0, 2, 5]), "dup": st.booleans(), "interleave": st.booleans(),
        "labels": st.booleans(), "threads": st.sampled_from([None, 1, 2, 7]), "s": st.integers(0, 10**6)})


def run(c, ctx):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    rng = np.random.RandomState(c["s"])
    uid, iid = ids(c["uk"], c["users"], c["s"], "u"), ids(c["ik"], c["items"], c["s"] + 1, "i")
    recs, gts = {}, {}
    for u in uid:
        if rng.randint(10) >= c["only"]:
            r = [iid[j] for j in rng.permutation(len(iid))[: rng.randint(0, c["maxrec"] + 1)]]
            if r:
                recs[u] = r
        if rng.randint(10) >= c["only"]:
            g = [iid[j] for j in rng.permutation(len(iid))[: rng.randint(0, c["maxgt"] + 1)]]
            if g:
                gts[u] = g
    rrows = [(u, i) for u, x in recs.items() for i in x]
    if c["interleave"] and rrows:  # keep each user's order
        order = rng.permutation([k for k, (u, _) in enumerate(rrows)])
        its = {u: iter(x) for u, x in recs.items()}
        rrows = [(rrows[k][0], next(its[rrows[k][0]])) for k in order]
    grows = [(u, i) for u, x in gts.items() for i in x]
    if c["dup"]:
        grows += [grows[k] for k in rng.randint(len(grows), size=3)] if grows else []
    grows = [grows[k] for k in rng.permutation(len(grows))]
    uc, ic = c["cols"]

    def frame(rows, extra):
        df = pd.DataFrame({extra: np.arange(len(rows)), ic: pd.Series([i for _, i in rows], dtype=None if rows else object),
                           uc: pd.Series([u for u, _ in rows], dtype=None if rows else object)})
        if c["labels"]:
            df.index = rng.randint(0, 2, size=len(rows))
        return df
    R, G = frame(rrows, "score"), frame(grows, "weight")
    R0, G0 = R.copy(deep=True), G.copy(deep=True)
    kw = {} if c["threads"] is None else {"n_threads": c["threads"]}
    got = evaluate_recommendation_df(R, G, uc, ic, **kw)
    pd.testing.assert_frame_equal(R, R0)
    pd.testing.assert_frame_equal(G, G0)
    common = [u for u in uid if u in recs and u in gts]
    items = sorted({i for u in common for i in recs[u]} | {i for u in common for i in gts[u]})
    pos = {i: k for k, i in enumerate(items)}
    want = metrics([[pos[i] for i in recs[u]] for u in common], [[pos[i] for i in gts[u]] for u in common], len(items))
    bad = differs(got, want)
    check(not bad, lambda: f"{bad}\nrecommendations {recs}\ntruth {gts}")
    ctx.nt(len(common) > 1 and 0 < want["ndcg"] < 1)


FACETS = [Facet("tables", strategy, run, quick=500, thorough=15000, shards=4)]
