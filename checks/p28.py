"""P28: thread-count settings and invalid arguments."""
import os
import pickle
import warnings

import numpy as np
import pandas as pd
import scipy.sparse as sps

from vlib import recs
from vlib.gen import build, mat, st
from vlib.harness import Facet, Skip, Violation, check

PROPERTY, NATIVE, BARE = "P28", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 3  # multiplies the quick case counts
RULE = ("threads: explicit counts (also 0 and negative) x environment values (numbers, blanks, garbage, absent) x every consumer of the setting; "
        "invalid: a generated valid call of a public entry point (splits, containers, evaluators, id mappers, utilities, every recommender, parameter ranges, news reader), then the same call with one argument pushed out of its domain by a "
        "generated amount, then the valid call again on the same objects; oracle: resolution rule; the bad call raises an exception in a living process and the repeated valid call answers the same up to rounding (summation order of threads); non-trivial: every case with an invalid setting or a non-default source")
ASSUMPTIONS = ["an empty environment value is unspecified", "arguments a model does not need (user indices and profiles of the popularity model) are not validated",
               "hyper-parameters without a stated range (top_k 0, penalties of either sign in dense models, negative epochs) are not classified",
               "the exception type is not prescribed"]
I = st.integers
ENV = st.one_of(st.none(), I(1, 9).map(str), st.sampled_from(["0", "-1", "-7", " 3 ", "+2", "x", "1.5", "4 threads", "0x3", "None", "1e1", "--1"]))


def strategy_thr():
    return st.fixed_dictionaries({"env": ENV, "n": st.one_of(st.none(), st.none(), I(-3, 9)), "use": st.sampled_from(sorted(CONSUMERS)), "s": I(0, 99)})


def small(s):
    rng = np.random.RandomState(s)
    X = sps.csr_matrix((rng.uniform(size=(6, 5)) < 0.6).astype(float))
    X[0, 0] = 1.0
    return X


def ev(c, n):
    from irspack.evaluation import Evaluator
    return Evaluator(small(c["s"]), cutoff=2, n_threads=n).get_scores_from_score_matrix(np.random.RandomState(c["s"]).uniform(size=(6, 5)), [2])


def ev_cold(c, n):
    from irspack.evaluation import EvaluatorWithColdUser
    from irspack.recommenders import TopPopRecommender
    X = small(c["s"])
    return EvaluatorWithColdUser(X, small(c["s"] + 1), cutoff=2, n_threads=n).get_score(TopPopRecommender(X).learn())


def ev_df(c, n):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df
    return evaluate_recommendation_df(pd.DataFrame({"u": [1, 1, 2], "i": [1, 2, 1]}), pd.DataFrame({"u": [1, 2], "i": [2, 1]}), "u", "i", n_threads=n)


def mapper(c, n):
    from irspack.utils import ItemIDMapper
    return ItemIDMapper(list("abcde")).score_to_recommended_items_batch(np.random.RandomState(c["s"]).uniform(size=(6, 5)), 3, n_threads=n)


def batch(kind):
    def f(c, n):
        from irspack.recommenders import CosineKNNRecommender
        from irspack.utils import IDMapper, ItemIDMapper
        r = CosineKNNRecommender(small(c["s"]), n_threads=1).learn()
        if kind == "new":
            return ItemIDMapper(list("abcde")).recommend_for_new_user_batch(r, [["a"], ["b", "c"]], cutoff=3, n_threads=n)
        return IDMapper(list("uvwxyz"), list("abcde")).recommend_for_known_user_batch(r, ["u", "z"], cutoff=3, n_threads=n)
    return f


def model(name, **p):
    def f(c, n):
        from irspack import recommenders as R
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(R, name)(small(c["s"]), n_threads=n, **p).learn().get_score(np.arange(6))
    return f


CONSUMERS = {"resolve": None, "evaluator": ev, "cold evaluator": ev_cold, "tables": ev_df, "mapper": mapper, "new users": batch("new"), "known users": batch("known"), "cosine": model("CosineKNNRecommender"), "user knn": model("CosineUserKNNRecommender"), "asym": model("AsymmetricCosineKNNRecommender"),
             "jaccard": model("JaccardKNNRecommender"), "tversky": model("TverskyIndexKNNRecommender"), "auser": model("AsymmetricCosineUserKNNRecommender"), "p3": model("P3alphaRecommender"), "rp3": model("RP3betaRecommender"),
             "slim": model("SLIMRecommender", n_iter=5), "ials": model("IALSRecommender", n_components=2, train_epochs=1)}


def run_thr(c, ctx):
    from irspack._threading import get_n_threads
    old = os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
    try:
        if c["env"] is not None:
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = c["env"]
        want = None
        if c["n"] is not None:
            want = c["n"]
        elif c["env"] is not None:
            try:
                want = int(c["env"])
            except ValueError:
                pass
        else:
            want = os.cpu_count() or 1
        if c["use"] == "resolve":
            try:
                got = get_n_threads(c["n"])
            except ValueError:
                check(want is None or want < 1, lambda: f"thread count {c['n']} / environment {c['env']!r} refused")
            else:
                check(want is not None, lambda: f"environment {c['env']!r} understood as {got}")
                check(got == want, lambda: f"thread count {c['n']} / environment {c['env']!r} gave {got}, expected {want}")
        else:
            f = CONSUMERS[c["use"]]
            try:
                got = f(c, c["n"])
            except Exception as e:
                check(want is None or want < 1, lambda: f"{c['use']}: thread count {c['n']} / environment {c['env']!r} refused: {type(e).__name__}: {e}")
                check(want is not None or isinstance(e, ValueError), lambda: f"environment {c['env']!r}: {type(e).__name__}")
            else:
                check(want is not None and want >= 1, lambda: f"{c['use']}: thread count {c['n']} / environment {c['env']!r} accepted: {got}")
                same(got, f(c, 1), f"{c['use']}: result with {want} threads", 1e-4)
        ctx.nt(c["env"] is not None or c["n"] is not None)
        ctx.tag("rejected" if want is None or want < 1 else "used")
    finally:
        os.environ.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        if old is not None:
            os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = old


def flat(o):
    """Comparable form of an answer."""
    if sps.issparse(o):
        return o.toarray()
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return o
    if isinstance(o, dict):
        return {k: flat(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [flat(x) for x in o]
    if hasattr(o, "X_train"):
        return [flat(o.X_train), flat(o.X_test), list(o.user_ids)]
    return o


def same(a, b, what, tol=0.0):
    a, b = flat(a), flat(b)
    if isinstance(a, dict):
        check(isinstance(b, dict) and list(a) == list(b), f"{what}: other keys")
        for k in a:
            same(a[k], b[k], f"{what}[{k}]", tol)
    elif isinstance(a, list):
        check(isinstance(b, list) and len(a) == len(b), f"{what}: other length")
        for x, y in zip(a, b):
            same(x, y, what, tol)
    elif isinstance(a, pd.DataFrame):
        check(a.equals(b), f"{what}: other table")
    elif isinstance(a, np.ndarray) and a.dtype != object or isinstance(a, float):
        x, y = np.asarray(a), np.asarray(b)
        check(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True), lambda: f"{what}: {b} instead of {a}")
    else:
        check(np.all(a == b), lambda: f"{what}: {b!r} instead of {a!r}")


# ---- invalid arguments -------------------------------------------------------

class W:
    """One generated world; the objects are shared by valid and invalid calls."""

    def __init__(self, c):
        from irspack import evaluation as E, optimization as O, recommenders as R, split as S, utils as U
        self.E, self.R, self.S, self.U, self.O = E, R, S, U, O
        self.k = c["k"]
        rng = self.rng = np.random.RandomState(c["X"]["s"])
        self.X = build(c["X"])
        self.m, self.n = self.X.shape
        self.X[0, 0] = 1.0
        self.X = self.X.tocsr()
        self.G = sps.csr_matrix((rng.uniform(size=self.X.shape) < 0.5).astype(float))
        self.G[self.m - 1, 0] = 1.0
        self.sc = rng.uniform(size=self.X.shape).astype(c["t"])
        self.frac = (c["k"] + 1) / 7.0
        self.cut = 1 + c["X"]["s"] % self.n
        self.bad = c["b"]
        self.t = 1 + c["k"] % 3

    def less(self):
        """The interaction matrix with a wrong number of columns."""
        k = 1 + self.k % self.n
        if self.bad % 2 and k < self.n:
            return self.X[:, :k]
        return sps.hstack([self.X, self.X[:, :1]] + [self.X] * (self.k % 3)).tocsr()

    def twice(self):
        """Item indices, one of them listed twice, in any order."""
        a = np.random.RandomState(self.k + 13 * self.bad).permutation(self.n)[:1 + self.bad % self.n].tolist()
        a = sorted(a) if self.bad % 3 else a
        j = self.k % len(a)
        return a[:j] + [a[j]] + a[j:] if self.bad % 2 else a + [a[j]]

    def fewer(self):
        k = 1 + self.k % self.m
        if self.bad % 2 and k < self.m:
            return self.X[:k]
        return sps.vstack([self.X, self.X[:1]] + [self.X] * (self.k % 3)).tocsr()

    def score_bad(self):
        """A score array of wrong shape."""
        how = self.bad % 6
        if how == 0:
            return np.hstack([self.sc, self.sc[:, :1]])
        if how == 1:
            return self.sc[:, :-1]
        if how == 2:
            return np.vstack([self.sc] * 2)
        if how == 3:
            return self.sc[:-1]
        if how == 4:
            return self.sc[0]
        return self.sc[:, :, None]

    def df(self):
        rng = np.random.RandomState(self.k)
        n = 12 + self.k
        return pd.DataFrame({"u": np.r_[np.arange(6), rng.randint(0, 6, n)], "i": np.r_[np.arange(6), rng.randint(0, 5, n)], "t": rng.permutation(n + 6), "r": rng.randint(1, 5, n + 6)}).drop_duplicates(["u", "i"])


def over(k):
    """A ratio outside [0, 1]."""
    return [1.0 + 1e-6, -1e-6, 1.5, -0.5, float("nan"), float("inf"), float("-inf"), 3.0 + k, -2.0 - k][k % 9]


def neg(k):
    return -1 - k * k


def g_split(w):
    U, S, k = w.U, w.S, w.k
    df = w.df()

    def row(**kw):
        return lambda: U.rowwise_train_test_split(w.X, **{**dict(test_ratio=min(1.0, w.frac), random_state=3), **kw})
    yield row(), [row(test_ratio=over(k)), row(n_test=neg(k)), row(random_state="seed")]
    yield row(n_test=k), [row(n_test=neg(k))]

    def tim(**kw):
        return lambda: S.split_last_n_interaction_df(df, "u", "t", **{**dict(heldout_ratio=min(1.0, w.frac)), **kw})
    yield tim(), [tim(heldout_ratio=over(k)), tim(n_heldout=neg(k)), lambda: S.split_last_n_interaction_df(df, "nobody", "t"), lambda: S.split_last_n_interaction_df(df, "u", "never")]

    def part(**kw):
        return lambda: S.split_dataframe_partial_user_holdout(df, "u", "i", **{**dict(n_val_user=2, n_test_user=2, heldout_ratio_val=0.5, heldout_ratio_test=0.5, random_state=1), **kw})
    yield part(), [part(n_val_user=7 + k), part(n_test_user=7 + k), part(n_val_user=4, n_test_user=3 + k), part(n_val_user=neg(k)), part(n_test_user=neg(k)), part(n_val_user=None, val_user_ratio=over(k)), part(n_test_user=None, test_user_ratio=over(k)),
                   part(heldout_ratio_val=over(k)), part(heldout_ratio_test=over(k)), part(n_heldout_val=neg(k)), part(n_heldout_test=neg(k)), part(time_column="t", heldout_ratio_val=over(k)), part(time_column="t", n_heldout_test=neg(k)),
                   part(n_val_user=None, n_test_user=None, val_user_ratio=0.75, test_user_ratio=0.75), part(time_column="never"), part(rating_column="none"), part(random_state="seed")]
    mark = np.arange(len(df)) % 2 == 0

    def spec(a, b, mark=mark):
        return lambda: S.holdout_specific_interactions(df, "u", "i", mark, a, b, random_state=1)
    yield spec(0.3, 0.4), [spec(0.7, 0.3 + 1e-3 * (k + 1)), spec(-0.1 * (k + 1), 0.5), spec(0.5, -0.01), spec(0.3, 0.4, mark[:-1 - k % 3]), spec(0.3, 0.4, np.array([len(df) + k])), lambda: S.holdout_specific_interactions(df, "u", "never", mark, 0.3, 0.4)]


def g_pair(w):
    P = w.S.UserTrainTestInteractionPair

    def f(u=None, X=None, Y=None, i=None):
        def call():
            p = P(list(range(w.m)) if u is None else u, w.X if X is None else X, w.G if Y is None else Y, list(range(w.n)) if i is None else i)
            return [p, p.df_train() if i is None else None]
        return call
    yield f(), [f(u=list(range(w.m + 1 + w.k))), f(u=list(range(w.m - 1))), f(Y=w.fewer()), f(Y=w.less()), f(i=list(range(w.n + 1 + w.k))), f(i=list(range(w.n - 1))),
                lambda: P(list(range(w.m)), w.X, w.G).df_train(), lambda: P(list(range(w.m)), w.X, w.G).concat(P(list(range(w.m)), w.less(), w.less()))]


def g_sparse(w):
    df = w.df()

    def f(u="u", i="i", **kw):
        return lambda: w.U.df_to_sparse(df, u, i, **kw)[0]
    yield f(), [f("nobody"), f(i="nothing"), f(rating_column="none")]


def g_eval(w):
    E, k = w.E, w.k
    top = w.R.TopPopRecommender(w.X).learn()
    knn = w.R.CosineKNNRecommender(w.X, n_threads=1).learn()
    mod = knn if w.bad % 2 else top

    def f(model=None, G=None, **kw):
        return lambda: E.Evaluator(w.G if G is None else G, **{**dict(cutoff=w.cut, n_threads=w.t), **kw}).get_score(model or mod)
    yield f(), [f(cutoff=0), f(cutoff=neg(k)), f(cutoff=w.n + 1 + k), f(n_threads=0), f(n_threads=neg(k)), f(offset=1 + k), f(offset=w.m + k), f(mb_size=0), f(mb_size=neg(k)), f(recommendable_items=[w.n + k]), f(recommendable_items=[neg(k)]),
                f(recommendable_items=w.twice()), f(per_user_recommendable_items=[[0]] * (w.m - 1) + [w.twice()]), f(per_user_recommendable_items=[[0]] * (w.m + 1 + k)), f(per_user_recommendable_items=[[0]] * (w.m - 1)), f(per_user_recommendable_items=[[0]] * (w.m - 1) + [[w.n + k]]),
                f(per_user_recommendable_items=w.fewer()), f(masked_interactions=w.fewer()), f(masked_interactions=w.less()), f(target_metric="happiness"), f(G=w.less())]
    one = E.Evaluator(w.G, cutoff=w.cut, n_threads=w.t, mb_size=1 + k, masked_interactions=w.X)

    def s(scores=None, cuts=None):
        return lambda: one.get_scores_from_score_matrix(w.sc if scores is None else scores, cuts or [w.cut])
    yield s(), [s(w.score_bad()), s(w.sc.astype(["int64", "float16", "complex128", "bool", "object"][k % 5])), s(cuts=[w.n + 1 + k]), s(cuts=[w.cut, 0]), s(cuts=[neg(k)])]

    def ch(*chunks, cuts=None):
        return lambda: one.get_scores_from_score_chunks(list(chunks), cuts or [w.cut])
    a = k % (w.m + 1)
    yield ch(w.sc[:a], w.sc[a:]), [ch(w.sc, w.sc[:1]), ch(w.sc[:-1]), ch(), ch(w.sc[:a], w.sc[a:, :-1]), ch(w.sc[0]), ch(w.sc.tolist()), ch(w.sc.astype("int32")), ch(w.sc[:a], w.sc[a:], cuts=[w.n + 1])]
    yield (lambda: one.get_score(mod)), [lambda: one.get_score(w.R.TopPopRecommender(w.less()).learn()), lambda: one.get_scores(mod, [w.cut, w.n + 1 + k]), lambda: E.Evaluator(w.G, cutoff=1).get_score(w.R.TopPopRecommender(w.X[:-1]).learn())]

    def cold(X=None, G=None, model=None, **kw):
        return lambda: E.EvaluatorWithColdUser(w.X if X is None else X, w.G if G is None else G, **{**dict(cutoff=w.cut, n_threads=w.t), **kw}).get_score(model or mod)
    yield cold(), [cold(X=w.fewer()), cold(X=w.less()), cold(X=w.less(), model=knn), cold(mb_size=0), cold(mb_size=neg(k)), cold(n_threads=0), cold(cutoff=0), cold(cutoff=w.n + 1 + k), cold(masked_interactions=w.fewer()), cold(G=w.less()),
                   cold(recommendable_items=[w.n + k]), cold(cold_item_features=np.ones((1 + k, 2)))]


def g_tables(w):
    from irspack.evaluation.evaluate_df_to_df import evaluate_recommendation_df as f
    a = pd.DataFrame({"u": [1, 1, 2], "i": [1, 2, 1]})
    b = pd.DataFrame({"u": [1, 2], "i": [2, 1 + w.k % 2]})
    yield (lambda: f(a, b, "u", "i", n_threads=w.t)), [lambda: f(a, b, "u", "i", n_threads=0), lambda: f(a, b, "u", "i", n_threads=neg(w.k)), lambda: f(a, b, "x", "i"), lambda: f(a, b, "u", "x"), lambda: f(a.rename(columns={"i": "x"}), b, "u", "i")]


def g_ids(w):
    U, k = w.U, w.k
    items = [f"i{j}" for j in range(w.n)]
    users = [f"u{j}" for j in range(w.m)]
    knn = w.R.CosineKNNRecommender(w.X, n_threads=1).learn()
    im, um = U.ItemIDMapper(items), U.IDMapper(users, items)

    def b(score=None, cutoff=w.cut, **kw):
        return lambda: im.score_to_recommended_items_batch(w.sc if score is None else score, cutoff, **{**dict(n_threads=w.t), **kw})
    wide = w.score_bad() if w.bad % 6 in (0, 1) else w.sc[:, :-1]
    yield b(), [b(wide), b(w.sc.astype("int64")), b(cutoff=neg(k)), b(n_threads=0), b(n_threads=neg(k)), b(forbidden_item_ids=[["i0"]] * (w.m + 1 + k)), b(forbidden_item_ids=[["i0"]] * (w.m - 1)), b(per_user_allowed_item_ids=[["i0"]] * (w.m + 1 + k)),
                b(per_user_allowed_item_ids=[["i0"]] * (w.m - 1))]
    yield (lambda: im.score_to_recommended_items(w.sc[0], w.cut)), [lambda: im.score_to_recommended_items(wide[0], w.cut), lambda: U.ItemIDMapper(items + items[:1]), lambda: U.ItemIDMapper([items[0]] * (2 + k))]
    yield (lambda: um.recommend_for_known_user_id(knn, users[k % w.m], w.cut)), [lambda: um.recommend_for_known_user_id(knn, "nobody"), lambda: um.recommend_for_known_user_id(knn, 0), lambda: U.IDMapper(users + users[:1], items), lambda: U.IDMapper(users, items + items[-1:]),
                                                                                 lambda: um.recommend_for_known_user_id(w.R.TopPopRecommender(w.less()).learn(), users[0]), lambda: um.recommend_for_known_user_id(w.R.TopPopRecommender(w.fewer()).learn(), users[0])]
    yield (lambda: um.recommend_for_known_user_batch(knn, users[:2], cutoff=w.cut)), [lambda: um.recommend_for_known_user_batch(knn, [users[0], "nobody"], cutoff=w.cut), lambda: um.recommend_for_known_user_batch(knn, users[:2], cutoff=w.cut, n_threads=0),
                                                                                      lambda: um.recommend_for_known_user_batch(knn, users[:2], cutoff=neg(k)), lambda: um.recommend_for_known_user_batch(knn, users[:2], cutoff=w.cut, forbidden_item_ids=[["i0"]] * 3)]
    yield (lambda: im.recommend_for_new_user(knn, [items[0]], w.cut)), [lambda: U.ItemIDMapper(items[:-1]).recommend_for_new_user(knn, [items[0]], w.cut), lambda: U.ItemIDMapper(items + ["more"]).recommend_for_new_user(knn, [items[0]], w.cut)]


def g_utils(w):
    U, k = w.U, w.k
    Xt = w.X.T.tocsc()
    yield (lambda: U.sparse_mm_threaded(w.X, Xt, w.t)), [lambda: U.sparse_mm_threaded(w.X, Xt, 0), lambda: U.sparse_mm_threaded(w.X, Xt, neg(k)), lambda: U.sparse_mm_threaded(w.X, w.less().T.tocsc(), w.t), lambda: U.sparse_mm_threaded(w.less(), Xt, w.t)]
    Q = sps.csr_matrix(np.ones((w.n, w.n)))
    yield (lambda: U.remove_diagonal(Q)), [lambda: U.remove_diagonal(sps.vstack([Q] + [Q[:1]] * (1 + k)).tocsr()), lambda: U.remove_diagonal(sps.hstack([Q] + [Q[:, :1]] * (1 + k)).tocsr())]


def g_model(w):
    R, k = w.R, w.k
    fl = [w.frac, 1e-3][k % 2]

    def f(name, **base):
        def g(**kw):
            def call():
                m = getattr(R, name)(w.X, **{**base, **kw}).learn()
                return m.get_score(np.arange(w.m))
            return call
        return g
    nan = float("nan")
    T = dict(n_threads=w.t)
    thr = [dict(n_threads=0), dict(n_threads=neg(k))]
    knn = thr + [dict(shrinkage=-fl), dict(shrinkage=nan), dict(top_k=neg(k))]
    table = {
        "CosineKNNRecommender": (T, knn + [dict(feature_weighting="ZZ")]), "CosineUserKNNRecommender": (T, knn + [dict(feature_weighting="ZZ")]),
        "AsymmetricCosineKNNRecommender": (T, knn + [dict(alpha=-fl), dict(alpha=1 + fl), dict(alpha=nan)]), "AsymmetricCosineUserKNNRecommender": (T, knn + [dict(alpha=-fl), dict(alpha=1 + fl), dict(alpha=nan)]),
        "JaccardKNNRecommender": (T, knn), "TverskyIndexKNNRecommender": (T, knn + [dict(alpha=-fl), dict(beta=-fl), dict(beta=nan)]),
        "P3alphaRecommender": (T, thr + [dict(alpha=-fl), dict(alpha=nan), dict(top_k=neg(k))]), "RP3betaRecommender": (T, thr + [dict(alpha=-fl), dict(beta=-fl), dict(beta=nan), dict(top_k=neg(k))]),
        "SLIMRecommender": (dict(n_iter=4, **T), thr + [dict(alpha=-fl), dict(l1_ratio=-fl), dict(l1_ratio=1 + fl), dict(n_iter=0), dict(n_iter=neg(k))]),
        "IALSRecommender": (dict(n_components=2, train_epochs=1, **T), thr + [dict(n_components=neg(k)), dict(max_cg_steps=neg(k)), dict(solver_type="ZZ"), dict(loss_type="ZZ"), dict(confidence_scaling="ZZ"), dict(user_features=w.fewer(), lambda_user_feature=0.1),
                                                                              dict(item_features=sps.vstack([w.X.T, w.X.T]).tocsr(), lambda_item_feature=0.1), dict(user_features=w.X, solver_type="IALSPP")]),
        "TruncatedSVDRecommender": (dict(n_components=1), [dict(n_components=neg(k)), dict(n_components=0)]), "NMFRecommender": (dict(n_components=1, init="random"), [dict(n_components=neg(k)), dict(n_components=0)]),
        "EDLAERecommender": ({}, [dict(dropout_p=1.0)]),
    }
    for name in table:
        base, bads = table[name]
        g = f(name, **base)
        yield g(), [g(**b) for b in bads]


def g_score(w):
    """Queries on a learned model, and queries too early."""
    R, k = w.R, w.k
    mk = {"knn": lambda: R.CosineKNNRecommender(w.X, n_threads=1), "slim": lambda: R.SLIMRecommender(w.X, n_threads=1, n_iter=4), "dense": lambda: R.DenseSLIMRecommender(w.X), "uknn": lambda: R.CosineUserKNNRecommender(w.X, n_threads=1),
          "ials": lambda: R.IALSRecommender(w.X, n_components=2, train_epochs=1, n_threads=1), "svd": lambda: R.TruncatedSVDRecommender(w.X, n_components=1), "nmf": lambda: R.NMFRecommender(w.X, n_components=1, init="random"), "p3": lambda: R.P3alphaRecommender(w.X, n_threads=1)}
    for name in mk:
        m = mk[name]().learn()
        idx = np.array([k % w.m])
        bads = [lambda m=m: m.get_score(np.array([w.m + k])), lambda m=m: m.get_score(np.array([-w.m - 1 - k])), lambda m=m: m.get_score_remove_seen(np.array([0, w.m + k])), lambda name=name: mk[name]().get_score(idx)]
        if name != "uknn":
            bads += [lambda m=m: m.get_score_cold_user(w.less()), lambda m=m: m.get_score_cold_user_remove_seen(w.less())]
        else:
            bads += [lambda m=m: m.get_score_cold_user(w.X)]
        yield (lambda m=m: [m.get_score(idx), m.get_score_remove_seen(idx)]), bads
    m = mk["ials"]().learn()
    e = np.ones((2, 2), dtype=np.float32)
    wrong = np.ones((2, 3 + k), dtype=np.float32)
    yield (lambda: [m.get_user_embedding(), m.compute_user_embedding(w.X), m.compute_item_embedding(w.X), m.get_score_from_user_embedding(e)]), [
        lambda: m.compute_user_embedding(w.less()), lambda: m.compute_item_embedding(w.fewer()), lambda: m.get_score_from_user_embedding(wrong), lambda: m.get_score_from_item_embedding(np.arange(1), wrong), lambda: mk["ials"]().get_user_embedding(),
        lambda: mk["ials"]().run_epoch(), lambda: mk["ials"]().load_state(), lambda: mk["ials"]().save_state()]
    top = R.TopPopRecommender(w.X)
    yield (lambda: R.TopPopRecommender(w.X).learn().get_score(np.arange(2))), [lambda: top.get_score(np.arange(2)), lambda: R.CosineKNNRecommender.from_config(w.X, R.TopPopRecommender.config_class())]


def g_ranges(w):
    O, k = w.O, w.k
    lo, hi = 1 + k, 2 + 2 * k

    def r(cls, *a, name="p"):
        return lambda: type(getattr(O, cls)(name, *a)).__name__
    for cls in ("UniformIntegerRange", "LogUniformIntegerRange", "UniformFloatRange", "LogUniformFloatRange"):
        yield r(cls, lo, hi), [r(cls, hi + 1, lo), r(cls, lo, lo - 1), r(cls, lo, hi, name="p q"), r(cls, lo, hi, name="")]
    yield r("CategoricalRange", [1, 2]), [r("CategoricalRange", [1, 2], name="a b")]


def g_native(w):
    """Native classes reachable through the evaluation module."""
    from irspack.evaluation import _core_evaluator as ce
    k = w.k
    core = ce.EvaluatorCore(w.G, [])
    sc = np.ascontiguousarray(w.sc, dtype=np.float64)

    def f(s=sc, cut=w.cut, off=0, t=w.t):
        return lambda: core.get_metrics_f64(s, cut, off, t, False).as_dict()

    def merged(a, b):
        def call():
            x = ce.Metrics(a)
            x.merge(ce.Metrics(b))
            return x.as_dict()
        return call
    yield f(), [f(cut=0), f(cut=w.n + 1 + k), f(cut=neg(k)), f(off=1 + k), f(off=w.m + k), f(t=0), f(s=np.hstack([sc, sc])), f(s=np.vstack([sc, sc])), f(s=sc[:, :-1].copy())]
    yield merged(w.n, w.n), [merged(w.n, w.n + 1 + k), merged(w.n + 1 + k, w.n), merged(400000 * (1 + k), 1)]

    def lists(a, b, n=3, t=w.t):
        return lambda: ce.evaluate_list_vs_list(a, b, n, t).as_dict()
    yield lists([[0], [1]], [[1], [1]]), [lists([[0]], [[0], [1]]), lists([[3 + k]], [[0]]), lists([[0]], [[3 + k]]), lists([[0]], [[0]], t=0), lists([[-1 - k]], [[0]]), lists([[0, 1, 2, 0, 1]], [[0]])]


GROUPS = {"split": g_split, "pair": g_pair, "sparse": g_sparse, "eval": g_eval, "tables": g_tables, "ids": g_ids, "utils": g_utils, "model": g_model, "score": g_score, "ranges": g_ranges, "native": g_native}


_TRIPLES = []


def triples():
    """Every (group, entry, variant), so that long lists of variants are not under-sampled."""
    if not _TRIPLES:
        c = {"X": {"m": 4, "n": 4, "d": 5, "v": "ones", "s": 1, "e": 0}, "k": 1, "b": 0, "t": "float64"}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for g in sorted(GROUPS):
                _TRIPLES.extend((g, e, j, len(bads)) for e, (_, bads) in enumerate(GROUPS[g](W(c))) for j in range(len(bads)))
    return _TRIPLES


def strategy_inv():
    t = triples()
    return st.fixed_dictionaries({"X": mat(7, 6, kinds=("ones", "int"), min_rows=3, min_cols=3), "v": I(0, len(t) - 1), "r": I(0, 11), "k": I(0, 12), "t": st.sampled_from(["float64", "float32"])}).map(
        lambda c: {"X": c["X"], "g": t[c["v"]][0], "e": t[c["v"]][1], "b": t[c["v"]][2] + t[c["v"]][3] * c["r"], "k": c["k"], "t": c["t"]})


def run_inv(c, ctx):
    w = W(c)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        entries = list(GROUPS[c["g"]](w))
        valid, bads = entries[c["e"] % len(entries)]
        j = c["b"] % len(bads)
        first = pickle.loads(pickle.dumps(flat(valid())))
        try:
            got = bads[j]()
        except Exception:
            pass
        else:
            raise Violation(f"invalid call accepted: group {c['g']}, entry {c['e'] % len(entries)}, variant {j} -> {str(flat(got))[:300]}")
        same(first, valid(), f"group {c['g']}, entry {c['e'] % len(entries)}: the valid call after invalid variant {j}", 1e-4 if c["g"] in ("model", "score") else 1e-9)
    ctx.nt(True)
    ctx.tag(c["g"])


FACETS = [Facet("threads", strategy_thr, run_thr, quick=500, thorough=5000, shards=2),
          Facet("invalid", strategy_inv, run_inv, quick=2400, thorough=30000, shards=6)]
