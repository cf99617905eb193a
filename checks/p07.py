"""P07: top-K recommendations by id are the best allowed items in order."""
import numpy as np
import scipy.sparse as sps

from vlib.gen import ID_KINDS, build, ids, mat, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P07", ("_util_cpp", "_knn", "_ials_core", "_core_evaluator"), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random score arrays (ties, -inf, nearly equal doubles, huge magnitudes, float32/float64, C/F order and strided views) x id kinds x "
        "global/per-user allowed and forbidden lists with unknown ids x cutoff 0..beyond x threads, through every mapper entry point; "
        "non-trivial: some eligible item was cut off or excluded and something was recommended")
ASSUMPTIONS = ["allowed lists name each item at most once; scores are finite or -inf; profile ratings are positive"]


def scores(c, rows, cols):
    rng = np.random.RandomState(c["s"])
    k = c["kind"]
    if k == "ties":
        S = rng.randint(0, 4, size=(rows, cols)).astype(float)
    elif k == "close":
        S = 1.0 + rng.randint(0, 6, size=(rows, cols)) * 1e-12
    elif k == "huge":
        S = rng.choice([-1e300, -1e45, -1e30, 1e30, 1e44, 1e300, 0.0, -0.0], size=(rows, cols))
    else:
        S = rng.normal(size=(rows, cols))
    S = S.astype(c["dtype"]) if not (k == "huge" and c["dtype"] == "float32") else rng.normal(size=(rows, cols)).astype("float32")
    S[rng.uniform(size=S.shape) < c["inf"] / 10] = -np.inf
    return S


def layout(S, how):
    if how == "F":
        return np.asfortranarray(S)
    if how == "strided":
        big = np.zeros((S.shape[0] * 2, S.shape[1] * 2), dtype=S.dtype)
        big[::2, ::2] = S
        return big[::2, ::2]
    return S.copy()


def verify(rec, row, item_ids, allowed, forbidden, cutoff, what, rtol=0.0):
    """rec: list of (id, score); row: the scores of this user."""
    pos = {x: j for j, x in enumerate(item_ids)}
    elig = [j for j in range(len(item_ids)) if row[j] != -np.inf
            and (allowed is None or item_ids[j] in set(allowed)) and (forbidden is None or item_ids[j] not in set(forbidden))]
    got = [pos.get(i) for i, _ in rec]
    check(None not in got, f"{what}: unknown item id returned")
    check(len(set(got)) == len(got), f"{what}: an item is recommended twice: {rec}")
    bad = [item_ids[j] for j in got if j not in set(elig)]
    check(not bad, f"{what}: not eligible: {bad}")
    check(len(rec) == min(cutoff, len(elig)), f"{what}: {len(rec)} recommendations, expected {min(cutoff, len(elig))}")
    sc = [float(s) for _, s in rec]
    for j, s in zip(got, sc):
        check(s == float(row[j]) or abs(s - row[j]) <= rtol * abs(row[j]) + rtol, f"{what}: score {s!r} reported for a score {row[j]!r}")
    tol = 0 if rtol == 0 else rtol * (1 + max([abs(x) for x in sc] or [0]))
    check(all(a >= b - tol for a, b in zip(sc, sc[1:])), f"{what}: not in decreasing order {sc}")
    rest = set(elig) - set(got)
    if rest and sc:
        check(max(row[j] for j in rest) <= min(sc) + tol, f"{what}: a better item was omitted")
    return bool(rec) and (bool(rest) or len(elig) < len(item_ids))


def strategy():
    return st.fixed_dictionaries({
        "m": st.one_of(st.integers(0, 9), st.just(33)), "n": st.one_of(st.integers(1, 14), st.just(60)), "ik": st.sampled_from(ID_KINDS),
        "S": st.fixed_dictionaries({"kind": st.sampled_from(["real", "ties", "close", "huge"]), "dtype": st.sampled_from(["float64", "float32"]),
                                    "inf": st.sampled_from([0, 2, 5, 9]), "s": st.integers(0, 10**6)}),
        "layout": st.sampled_from(["C", "F", "strided"]), "cutoff": st.integers(0, 17), "threads": st.sampled_from([1, 2, 5, None]),
        "allowed": st.sampled_from([None, "global", "per_user", "both"]), "forbidden": st.booleans(), "s": st.integers(0, 10**6),
    })


def lists(c, item_ids, rows, rng):
    def some(p):
        out = [x for x in item_ids if rng.uniform() < p]
        extra = [("unknown", 1), "no such item", -99999] if rng.uniform() < 0.5 else []
        out = out + extra[: rng.randint(4)]
        return [out[j] for j in rng.permutation(len(out))]
    glob = some(0.6) if c["allowed"] in ("global", "both") else None
    per = [some(rng.choice([0.0, 0.5, 1.0])) for _ in range(rows)] if c["allowed"] in ("per_user", "both") else None
    forb = [some(rng.choice([0.0, 0.3, 1.0])) for _ in range(rows)] if c["forbidden"] else None
    eff = per if per is not None else ([glob] * rows if glob is not None else [None] * rows)
    return glob, per, forb, eff


def run(c, ctx):
    from irspack.utils import ItemIDMapper
    rng = np.random.RandomState(c["s"])
    item_ids = ids(c["ik"], c["n"], c["s"], "i")
    mp = ItemIDMapper(item_ids)
    S0 = scores(c["S"], c["m"], c["n"])
    S = layout(S0, c["layout"])
    glob, per, forb, eff = lists(c, item_ids, c["m"], rng)
    kw = {} if c["threads"] is None else {"n_threads": c["threads"]}
    res = mp.score_to_recommended_items_batch(S, c["cutoff"], allowed_item_ids=glob, per_user_allowed_item_ids=per,
                                              forbidden_item_ids=forb, **kw)
    check(np.array_equal(S, S0), "the caller's score array was modified")
    check(len(res) == c["m"], "number of result lists")
    for u in range(c["m"]):
        ctx.nt(verify(res[u], S0[u], item_ids, eff[u], forb[u] if forb else None, c["cutoff"], f"batch user {u}"))
        row = S[u]
        one = mp.score_to_recommended_items(row, c["cutoff"], allowed_item_ids=eff[u], forbidden_item_ids=forb[u] if forb else None)
        check(np.array_equal(row, S0[u]), "the caller's score vector was modified")
        verify(one, S0[u], item_ids, eff[u], forb[u] if forb else None, c["cutoff"], f"single user {u}")
        check([s for _, s in one] == [float(s) for _, s in res[u]], "single and batch paths disagree")
    ctx.tag(c["S"]["kind"], str(c["allowed"]))


def strategy_rec():
    return st.fixed_dictionaries({
        "X": mat(9, 10, kinds=("ones", "int", "frac"), min_rows=2, min_cols=2), "model": st.sampled_from(["fake", "fake32", "cosine", "toppop", "ials", "slim"]),
        "uk": st.sampled_from(ID_KINDS), "ik": st.sampled_from(ID_KINDS), "cutoff": st.integers(1, 12), "threads": st.sampled_from([1, 3]),
        "allowed": st.sampled_from([None, "global", "per_user"]), "forbidden": st.booleans(), "prof": st.sampled_from(["list", "dict"]),
        "nu": st.integers(1, 5), "s": st.integers(0, 10**6)})


class Fake:
    """A recommender with arbitrary known- and cold-user scores."""

    def __init__(self, X, dtype, seed):
        rng = np.random.RandomState(seed)
        self.X, (self.n_users, self.n_items) = X, X.shape
        self.W = rng.randint(-8, 8, size=(X.shape[1], X.shape[1])) / 8.0
        self.S = rng.randint(-64, 64, size=X.shape) / 16.0
        self.dtype = dtype

    def get_score_remove_seen(self, ui):
        s = self.S[ui].astype(self.dtype)
        s[self.X[ui].toarray() != 0] = -np.inf
        return s

    def get_score_cold_user(self, X):
        return (X.toarray() @ self.W).astype(self.dtype)

    def get_score(self, ui):
        return self.S[ui].astype(self.dtype)

    def get_score_cold_user_remove_seen(self, X):
        s = self.get_score_cold_user(X)
        s[X.toarray() != 0] = -np.inf
        return s


def make_model(name, X, seed):
    if name.startswith("fake"):
        return Fake(X, "float32" if name == "fake32" else "float64", seed)
    import irspack.recommenders as R
    return {"cosine": lambda: R.CosineKNNRecommender(X, shrinkage=0.5, top_k=3, n_threads=1),
            "toppop": lambda: R.TopPopRecommender(X),
            "slim": lambda: R.SLIMRecommender(X, alpha=0.05, l1_ratio=0.1, n_threads=1),
            "ials": lambda: R.IALSRecommender(X, n_components=3, train_epochs=2, n_threads=1)}[name]().learn()


def run_rec(c, ctx):
    from irspack.utils import IDMapper
    rng = np.random.RandomState(c["s"])
    X = build({**c["X"], "d": min(c["X"]["d"], 6)})
    m, n = X.shape
    if X.nnz == 0:
        X[0, 0] = 1.0
    model = make_model(c["model"], X, c["s"])
    uids, iids = ids(c["uk"], m, c["s"] + 1, "u"), ids(c["ik"], n, c["s"] + 2, "i")
    mp = IDMapper(uids, iids)
    q = [int(x) for x in rng.permutation(m)[: max(1, m - 1)]]
    glob, per, forb, eff = lists(c, iids, len(q), rng)
    full = np.array(model.get_score(np.array(q)), dtype=float)
    full[X[q].toarray() != 0] = -np.inf
    rt = 1e-5
    res = mp.recommend_for_known_user_batch(model, [uids[u] for u in q], c["cutoff"], allowed_item_ids=glob,
                                            per_user_allowed_item_ids=per, forbidden_item_ids=forb, n_threads=c["threads"])
    check(len(res) == len(q), "number of lists")
    for k, u in enumerate(q):
        f = forb[k] if forb else None
        ctx.nt(verify(res[k], full[k], iids, eff[k], f, c["cutoff"], f"known batch {u}", rt))
        one = mp.recommend_for_known_user_id(model, uids[u], c["cutoff"], allowed_item_ids=eff[k], forbidden_item_ids=f)
        verify(one, full[k], iids, eff[k], f, c["cutoff"], f"known user {u}", rt)
        check(np.allclose([s for _, s in one], [s for _, s in res[k]], rtol=1e-5, atol=1e-6), "known single and batch disagree")
    try:
        mp.recommend_for_known_user_id(model, "no such user", c["cutoff"])
        check(False, "an unknown user id was accepted")
    except RuntimeError:
        pass
    # new users
    profs, P = [], np.zeros((c["nu"], n))
    for r in range(c["nu"]):
        js = [int(j) for j in rng.permutation(n)[: rng.randint(0, n)]]
        vals = [1.0 if c["prof"] == "list" else float(rng.randint(1, 9)) / 2 for _ in js]
        P[r, js] = vals
        unk = ["never seen item"] if rng.uniform() < 0.4 else []
        prof = [iids[j] for j in js] + unk if c["prof"] == "list" else {**{iids[j]: v for j, v in zip(js, vals)}, **{x: 3.0 for x in unk}}
        profs.append(prof)
    M = mp.list_of_user_profile_to_matrix(profs)
    check(np.array_equal(M.toarray(), P), lambda: f"profile matrix\n{M.toarray()}\nexpected\n{P}")
    full = np.array(model.get_score_cold_user(sps.csr_matrix(P)), dtype=float)
    full[P != 0] = -np.inf
    glob, per, forb, eff = lists(c, iids, c["nu"], rng)
    res = mp.recommend_for_new_user_batch(model, profs, c["cutoff"], allowed_item_ids=glob, per_user_allowed_item_ids=per,
                                          forbidden_item_ids=forb, n_threads=c["threads"])
    for k in range(c["nu"]):
        f = forb[k] if forb else None
        ctx.nt(verify(res[k], full[k], iids, eff[k], f, c["cutoff"], f"new batch {k}", rt))
        one = mp.recommend_for_new_user(model, profs[k], c["cutoff"], allowed_item_ids=eff[k], forbidden_item_ids=f)
        verify(one, full[k], iids, eff[k], f, c["cutoff"], f"new user {k}", rt)
    ctx.tag(c["model"])


FACETS = [Facet("scores", strategy, run, quick=700, thorough=25000, shards=4),
          Facet("models", strategy_rec, run_rec, quick=240, thorough=5000, shards=4)]
