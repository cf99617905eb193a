"""P22: pickling, trainer state and configurations round-trip."""
import copy
import inspect
import io
import pickle
import warnings

import numpy as np
import scipy.sparse as sps

from vlib import alsref, recs
from vlib.evalgen import RESTRICT, SCORE, Model, restriction, score_array, truth
from vlib.gen import ID_KINDS, as_format, build, ids, mat, st
from vlib.harness import Facet, Skip, Violation, check

PROPERTY, NATIVE, BARE = "P22", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 3  # multiplies the quick case counts
RULE = ("every importable recommender (random non-default parameters, side features and feature penalties for iALS) saved before or after learning, by pickle (protocols 2-5), by deepcopy, or by several round trips; "
        "native iALS configurations and trainers, evaluators (masks, restrictions, offsets, cutoffs, cold-user), id mappers, train/test pairs; trainer states saved at one point of a random epoch history and loaded later; "
        "oracle: the original object's own answers (bitwise), a directly constructed model for configurations; non-trivial: the model is learned on a non-empty matrix, or at least one field differs from its default")
ASSUMPTIONS = ["an unpickled iALS trainer answers queries identically but refuses further epochs (it does not carry the interactions)",
               "a trainer state covers the factors, not the position in a feature warm-up schedule"]
HOW = st.sampled_from(["p2", "p4", "p5", "deep", "p5p5"])


def trip(o, how):
    if how == "deep":
        return copy.deepcopy(o)
    for pr in [int(x) for x in how.replace("p", " ").split()]:
        o = pickle.loads(pickle.dumps(o, protocol=pr))
    return o


def rec_strategy():
    return recs.strategy(X=mat(9, 9, min_cols=2), how=HOW, when=st.sampled_from(["before", "after", "after"]), t=st.sampled_from([1, 3]), s=st.integers(0, 99),
                         uf=st.sampled_from([None, "dense", "csr"]), itf=st.sampled_from([None, "dense", "csr"]), lu=st.sampled_from([0.5, 3.0]), li=st.sampled_from([0.25, 2.0]), wu=st.sampled_from([0, 1]))


def answers(cls, rec, C, extra=None):
    m, n = rec.n_users, rec.n_items
    u = np.arange(m)
    out = {"X": rec.X_train_all.toarray(), "score": rec.get_score(u), "seen": rec.get_score_remove_seen(u), "learnt": np.array(sorted(map(str, rec.learnt_config.items())))}
    if cls not in recs.NO_BLOCK:
        out["block"] = rec.get_score_block(m // 2, m)
        out["seenblock"] = rec.get_score_remove_seen_block(0, m)
    if cls not in recs.NO_COLD:
        out["cold"] = rec.get_score_cold_user(C)
        out["coldseen"] = rec.get_score_cold_user_remove_seen(C)
    if hasattr(rec, "get_user_embedding"):
        out["ue"] = rec.get_user_embedding()
    if hasattr(rec, "get_item_embedding"):
        out["ie"] = rec.get_item_embedding()
    if extra:
        for k, f in extra.items():
            out[k] = f(rec)
    return {k: (v.toarray() if sps.issparse(v) else np.asarray(v)) for k, v in out.items()}


def same(cls, a, b, what):
    check(a.keys() == b.keys(), f"{cls}: {what}: different answers offered")
    for k in a:
        ok = a[k].shape == b[k].shape and (np.array_equal(a[k], b[k]) if a[k].dtype.kind in "OUS" else np.array_equal(a[k], b[k], equal_nan=True))
        if not ok and a[k].shape == b[k].shape and a[k].dtype.kind == "f":
            fin = np.isfinite(a[k])  # BLAS may round differently for differently aligned buffers
            ok = np.array_equal(a[k][~fin], b[k][~fin], equal_nan=True) and np.allclose(a[k][fin], b[k][fin], rtol=1e-5, atol=1e-6 * np.abs(a[k][fin]).max(initial=0))
        check(ok, lambda: f"{cls}: {what} answers {k} differently: {a[k].tolist()} vs {b[k].tolist()}"[:600])


def run_rec(c, ctx):
    from irspack import recommenders as R
    cls, p = c["cls"], dict(c["p"])
    X = build(c["X"])
    m, n = X.shape
    if cls in ("TruncatedSVDRecommender", "NMFRecommender") and (X.nnz == 0 or m < 2):
        raise Skip
    if cls == "NMFRecommender":
        p["init"] = "random"
    rng = np.random.RandomState(c["s"])
    C = sps.csr_matrix((rng.uniform(size=(3, n)) < 0.4).astype(float))
    kw, extra = dict(p), {}
    if cls not in recs.NO_THREADS:
        kw["n_threads"] = c["t"]
    if cls == "IALSRecommender":
        uf = itf = None
        if p["solver_type"] != "IALSPP":
            uf, itf = alsref.feats(c["uf"], m, 2, c["s"])[1], alsref.feats(c["itf"], n, 3, c["s"] + 1)[1]
            kw.update(user_features=uf, item_features=itf, lambda_user_feature=c["lu"], lambda_item_feature=c["li"], feature_warmup_epochs=c["wu"])
        T = sps.csr_matrix((rng.uniform(size=(m, 2)) < 0.5).astype(float))
        extra["item_emb"] = lambda r: r.compute_item_embedding(T)
        if uf is not None:
            fu = alsref.feats("dense", 3, 2, c["s"] + 5)[1]
            extra["cold_f"] = lambda r: r.get_score_cold_user(C, user_features=fu)
            extra["cold_f0"] = lambda r: r.get_score_cold_user_from_features(fu)
            extra["fw"] = lambda r: r.trainer_as_ials.transform_user_feature(fu)
        if itf is not None:
            fi = alsref.feats("dense", 4, 3, c["s"] + 6)[1]
            extra["item_f"] = lambda r: r.get_score_from_item_features(np.arange(m), fi)
            extra["cold_if"] = lambda r: r.get_score_cold_user_with_item_features(C, fi)
            extra["fwi"] = lambda r: r.trainer_as_ials.transform_item_feature(fi)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec = getattr(R, cls)(X, **kw)
        if c["when"] == "before":
            rec2 = trip(rec, c["how"])
            rec.learn()
            rec2.learn()
            what = "an unlearned copy, after learning,"
        else:
            rec.learn()
            rec.learnt_config["note"] = c["s"]
            first = answers(cls, rec, C, extra)
            rec2 = trip(rec, c["how"])
            same(cls, first, answers(cls, rec, C, extra), "the original after being saved")
            what = "the restored model"
        check(type(rec2) is type(rec), "restored object has another type")
        a = answers(cls, rec, C, extra)
        b = answers(cls, rec2, C, extra)
    if cls == "IALSRecommender" and c["when"] == "before" and c["t"] > 1:
        pass  # epochs on several threads may round differently (P19)
    else:
        same(cls, a, b, what)
    if cls == "IALSRecommender" and c["when"] == "after":
        for f in (rec2.trainer.run_epoch, rec2.trainer.compute_loss):
            try:
                f()
            except RuntimeError:
                continue
            except Exception as e:
                raise Violation(f"{f.__name__} on a restored trainer raised {type(e).__name__}: {e}")
            raise Violation(f"{f.__name__} on a restored trainer went ahead without interactions")
        same(cls, b, answers(cls, rec2, C, extra), "the restored model after refusing to train")
    if c["when"] == "after":  # learning again from the restored object starts afresh from its own data
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec2.learn()
            if not (cls == "IALSRecommender" and c["t"] > 1):
                rec.learn()
                same(cls, answers(cls, rec, C, extra), answers(cls, rec2, C, extra), "the restored model, learned again,")
    ctx.nt(X.nnz > 0)
    ctx.tag(cls, c["when"], c["how"])


# ---------------------------------------------------------------- native configurations and trainers
def core_strategy():
    return st.fixed_dictionaries({"X": mat(12, 12), "K": st.integers(1, 6), "alpha0": st.sampled_from([0.2, 1.5]), "reg": st.sampled_from([0.05, 0.7]), "nu": st.sampled_from([0.5, 1.25]), "std": st.sampled_from([0.3, 1.0]),
                                  "seed": st.integers(0, 10**6), "loss": st.sampled_from(["IALSPP", "ORIGINAL"]), "lu": st.sampled_from([0.5, 4.0]), "li": st.sampled_from([0.25, 9.0]), "wu": st.integers(0, 3),
                                  "t": st.sampled_from([1, 1, 2, 3]), "solver": st.sampled_from(["CG", "CHOLESKY", "IALSPP"]), "cg": st.integers(0, 4), "sub": st.integers(1, 4), "it": st.integers(1, 4),
                                  "f": st.booleans(), "steps": st.integers(0, 3), "how": HOW, "s": st.integers(0, 99)})


def run_core(c, ctx):
    from irspack.recommenders import _ials_core as core
    X = build(c["X"]).astype(np.float32)
    m, n = X.shape
    if c["f"] and c["solver"] == "IALSPP":
        raise Skip
    mc = (core.IALSModelConfigBuilder().set_K(c["K"]).set_alpha0(c["alpha0"]).set_reg(c["reg"]).set_nu(c["nu"]).set_init_stdev(c["std"]).set_random_seed(c["seed"])
          .set_loss_type(getattr(core.LossType, c["loss"])).set_lambda_user_feature(c["lu"]).set_lambda_item_feature(c["li"]).set_feature_warmup_epochs(c["wu"]).build())
    sc = (core.IALSSolverConfigBuilder().set_n_threads(c["t"]).set_solver_type(getattr(core.SolverType, c["solver"])).set_max_cg_steps(c["cg"]).set_ialspp_subspace_dimension(c["sub"]).set_ialspp_iteration(c["it"]).build())
    mc2, sc2 = trip(mc, c["how"]), trip(sc, c["how"])
    uf, itf = alsref.feats("dense", m, 2, 1)[1].astype(np.float32), alsref.feats("dense", n, 3, 2)[1].astype(np.float32)

    def mk(mc):
        return core.IALSTrainer(mc, X, uf, itf) if c["f"] else core.IALSTrainer(mc, X)
    a, b = mk(mc), mk(mc2)
    tol = 0 if c["t"] == 1 else 1e-3
    def eq(x, y, what, tol=tol):
        x, y = np.asarray(x), np.asarray(y)
        check(x.shape == y.shape and (np.array_equal(x, y, equal_nan=True) if tol == 0 else np.allclose(x, y, rtol=tol, atol=tol * np.abs(x).max(initial=0), equal_nan=True)), lambda: f"{what} differs: {x.tolist()} vs {y.tolist()}"[:500])
    for _ in range(c["steps"]):
        a.step(sc)
        b.step(sc2)
    eq(a.user, b.user, "user factors under restored configurations")
    eq(a.item, b.item, "item factors under restored configurations")
    if c["f"]:
        eq(a.user_feature_weight, b.user_feature_weight, "user feature weights under restored configurations")
        eq(a.item_feature_weight, b.item_feature_weight, "item feature weights under restored configurations")
    eq(a.compute_loss(sc), b.compute_loss(sc2), "loss under restored configurations", max(tol, 1e-5))
    d = trip(a, c["how"])
    for k in ("user", "item", "user_feature_weight", "item_feature_weight"):
        eq(getattr(a, k), getattr(d, k), f"restored trainer's {k}", 0)
    rng = np.random.RandomState(c["s"])
    P = sps.csr_matrix((rng.uniform(size=(3, n)) < 0.4).astype(np.float32))
    Q = sps.csr_matrix((rng.uniform(size=(m, 3)) < 0.4).astype(np.float32))
    eq(a.transform_user(P, sc), d.transform_user(P, sc2), "fold-in of users by the restored trainer")
    eq(a.transform_item(Q, sc), d.transform_item(Q, sc2), "fold-in of items by the restored trainer")
    eq(a.user_scores(0, m, sc), d.user_scores(0, m, sc2), "scores of the restored trainer", max(tol, 1e-6))
    if c["f"]:
        fu, fi = alsref.feats("dense", 3, 2, 5)[1].astype(np.float32), alsref.feats("dense", 3, 3, 6)[1].astype(np.float32)
        eq(a.transform_user_with_feature(P, fu, sc), d.transform_user_with_feature(P, fu, sc2), "fold-in with features by the restored trainer")
        eq(a.transform_item_with_feature(Q, fi, sc), d.transform_item_with_feature(Q, fi, sc2), "item fold-in with features by the restored trainer")
    ctx.nt(X.nnz > 0)
    ctx.tag(c["solver"], c["loss"], "features" if c["f"] else "plain")


# ---------------------------------------------------------------- trainer states along a history
def state_strategy():
    return st.fixed_dictionaries({"X": mat(12, 12), "p": st.fixed_dictionaries(recs.PARAMS["IALSRecommender"]), "uf": st.sampled_from([None, "dense"]), "itf": st.sampled_from([None, "csr"]), "seed2": st.integers(0, 99),
                                  "pre": st.integers(0, 3), "mid": st.integers(0, 3), "post": st.integers(0, 2), "where": st.sampled_from(["same", "fresh", "other"])})


def run_state(c, ctx):
    from irspack.recommenders import IALSRecommender
    p = dict(c["p"])
    X = build(c["X"])
    m, n = X.shape
    kw = {}
    if p["solver_type"] != "IALSPP":
        kw = dict(user_features=alsref.feats(c["uf"], m, 2, 1)[1], item_features=alsref.feats(c["itf"], n, 3, 2)[1], lambda_user_feature=0.5, lambda_item_feature=2.0)

    def mk(**over):
        return IALSRecommender(X, n_threads=1, **{**p, **over}, **kw)._create_trainer()

    def view(t):
        k = t.core_trainer
        out = [k.user, k.item, t.user_scores(0, m)]
        if kw.get("user_features") is not None:
            out += [k.user_feature_weight, t.transform_user_feature(kw["user_features"])]
        if kw.get("item_features") is not None:
            out += [k.item_feature_weight, t.transform_item_feature(kw["item_features"])]
        return [np.array(x) for x in out]
    t = mk()
    for _ in range(c["pre"]):
        t.run_epoch()
    buf = io.BytesIO()
    t.save_state(buf)
    saved = view(t)
    for _ in range(c["mid"]):
        t.run_epoch()
    if c["where"] == "fresh":
        t = mk()
    elif c["where"] == "other":
        t = mk(random_seed=c["seed2"])
        t.run_epoch()
    for _ in range(2):  # a state can be loaded more than once
        buf.seek(0)
        t.load_state(buf)
        for x, y in zip(saved, view(t)):
            check(np.array_equal(x, y) or np.allclose(x, y, rtol=1e-5, atol=1e-6 * np.abs(x).max(initial=0)), "a loaded trainer state differs from the one that was saved")
    ref = mk()
    for _ in range(c["pre"] + c["post"]):
        ref.run_epoch()
    for _ in range(c["post"]):
        t.run_epoch()
    a, b = view(ref), view(t)
    for x, y in zip(a, b):
        check(x.shape == y.shape and np.allclose(x, y, rtol=1e-3, atol=1e-4 * max(1e-6, np.abs(x).max(initial=0))), "training continued from a loaded state departs from uninterrupted training")
    ctx.nt(X.nnz > 0 and c["pre"] + c["mid"] > 0)
    ctx.tag(c["where"])


# ---------------------------------------------------------------- evaluators
def ev_strategy():
    return st.fixed_dictionaries({"G": truth(10, 10), "S": SCORE, "R": RESTRICT, "cut": st.integers(1, 6), "tm": st.sampled_from(["ndcg", "recall", "map", "hit"]), "off": st.integers(0, 3), "mb": st.integers(1, 6), "t": st.sampled_from([1, 3]),
                                  "rwc": st.booleans(), "mask": st.sampled_from([None, "all", "own"]), "kind": st.sampled_from(["hot", "hot", "cold"]), "how": HOW, "used": st.booleans(), "s": st.integers(0, 999)})


def run_ev(c, ctx):
    from irspack import Evaluator, EvaluatorWithColdUser
    G = build(c["G"])
    m, n = G.shape
    rng = np.random.RandomState(c["s"])
    off = c["off"] if c["kind"] == "hot" else 0
    S = score_array(c["S"], m + off + 1, n)
    X = sps.csr_matrix((rng.uniform(size=(m + off + 1, n)) < 0.3).astype(float))
    if off:
        G = sps.csr_matrix(G)
    kw, _, _ = restriction(c["R"], m, n)
    kw.update(cutoff=c["cut"], target_metric=c["tm"], mb_size=c["mb"], n_threads=c["t"], recall_with_cutoff=c["rwc"])
    if c["mask"]:
        kw["masked_interactions"] = sps.csr_matrix((rng.uniform(size=(m, n)) < (1.0 if c["mask"] == "all" else 0.4)).astype(float))
    model = Model(X, S)
    if c["kind"] == "cold":
        model.get_score_cold_user = lambda A: S[: A.shape[0]] + A.toarray() @ np.ones((n, n)) * 0.125
        ev = EvaluatorWithColdUser(X[:m], G, **kw)
    else:
        ev = Evaluator(G, offset=off, **kw)

    def ask(e):
        a = dict(e.get_score(model))
        b = dict(e.get_scores(model, sorted({1, min(3, n), min(c["cut"], n)})))
        return a, b, e.get_target_score(model), e.target_metric_name, e.n_users, e.n_items, e.cutoff, e.mb_size, e.n_threads
    if min(c["cut"], n) != c["cut"]:
        raise Skip
    try:
        first = ask(ev) if c["used"] else None
    except ValueError:
        raise Skip
    ev2 = trip(ev, c["how"])
    a, b = ask(ev), ask(ev2)
    check(np.array_equal(np.array(list(a[0].values())), np.array(list(b[0].values())), equal_nan=True) if c["t"] == 1 else np.allclose(list(a[0].values()), list(b[0].values()), equal_nan=True), lambda: f"get_score of the restored evaluator: {a[0]} vs {b[0]}")
    check(list(a[0]) == list(b[0]) and list(a[1]) == list(b[1]), "restored evaluator names other metrics")
    check(np.allclose(list(a[1].values()), list(b[1].values()), rtol=1e-12, equal_nan=True), lambda: f"get_scores of the restored evaluator: {a[1]} vs {b[1]}")
    check(np.isclose(a[2], b[2], rtol=1e-12, equal_nan=True) and a[3:] == b[3:], lambda: f"target score / settings of the restored evaluator: {a[2:]} vs {b[2:]}")
    if first:
        check(np.allclose(list(first[1].values()), list(a[1].values()), rtol=1e-12, equal_nan=True), "saving changed the original evaluator")
    core = trip(ev.core, c["how"])
    cc = Evaluator.__new__(Evaluator)
    cc.__dict__.update(ev.__dict__)
    cc.core = core
    if c["kind"] == "hot":
        check(np.allclose(list(dict(cc.get_score(model)).values()), list(a[0].values()), rtol=1e-12, equal_nan=True), "restored native evaluator answers differently")
    ctx.nt(G.nnz > 0 and (c["R"]["kind"] != "none" or bool(c["mask"]) or off > 0))
    ctx.tag(c["kind"], c["R"]["kind"], f"mask:{c['mask']}")


# ---------------------------------------------------------------- mappers and pairs
def map_strategy():
    return st.fixed_dictionaries({"X": mat(8, 8, min_cols=2), "ik": st.sampled_from(ID_KINDS), "uk": st.sampled_from(ID_KINDS), "s": st.integers(0, 999), "how": HOW, "k": st.integers(0, 6)})


def run_map(c, ctx):
    from irspack import recommenders as R
    from irspack.split.userwise import UserTrainTestInteractionPair
    from irspack.utils.id_mapping import IDMapper, ItemIDMapper
    X = build(c["X"])
    m, n = X.shape
    I, U = ids(c["ik"], n, c["s"], "i"), ids(c["uk"], m, c["s"] + 1, "u")
    rec = R.TopPopRecommender(X).learn() if c["s"] % 2 else R.CosineKNNRecommender(X, shrinkage=0.5, n_threads=1).learn()
    im, dm = ItemIDMapper(I), IDMapper(U, I)
    im2, dm2 = trip(im, c["how"]), trip(dm, c["how"])
    rng = np.random.RandomState(c["s"])
    sc = np.round(rng.normal(size=(3, n)), 1)
    prof = [[I[j] for j in rng.permutation(n)[: rng.randint(0, n)]] for _ in range(3)]
    k = c["k"]
    for f in (lambda o: list(o.item_ids), lambda o: o.score_to_recommended_items(sc[0], k), lambda o: o.score_to_recommended_items_batch(sc, k), lambda o: o.list_of_user_profile_to_matrix(prof).toarray().tolist(),
              lambda o: o.recommend_for_new_user(rec, prof[0], k), lambda o: o.recommend_for_new_user_batch(rec, prof, k)):
        check(f(im) == f(im2), "restored item mapper answers differently")
        check(f(dm) == f(dm2), "restored mapper answers differently")
    for u in U:
        check(dm.recommend_for_known_user_id(rec, u, k) == dm2.recommend_for_known_user_id(rec, u, k), "restored mapper recommends differently")
    check(dm.recommend_for_known_user_batch(rec, U, k) == dm2.recommend_for_known_user_batch(rec, U, k), "restored mapper recommends differently (batch)")
    Y = build({**c["X"], "s": c["s"]})
    pair = UserTrainTestInteractionPair(U, X, Y, item_ids=I)
    q = trip(pair, c["how"])
    for a, b in ((pair.X_train, q.X_train), (pair.X_test, q.X_test), (pair.X_all, q.X_all)):
        check((a != b).nnz == 0 and a.shape == b.shape, "restored pair has other matrices")
    check(list(q.user_ids) == list(U) and list(q.item_ids) == list(I) and q.n_users == m and q.n_items == n, "restored pair has other ids")
    ctx.nt(X.nnz > 0 and k > 0)
    ctx.tag(c["ik"])


# ---------------------------------------------------------------- configurations
def cfg_strategy():
    return recs.strategy(X=mat(9, 9, min_cols=2), drop=st.lists(st.integers(0, 30), max_size=4), json=st.sampled_from(["no", "dict", "json"]), other=st.integers(0, 13))


def run_cfg(c, ctx):
    from irspack import recommenders as R
    cls, p = c["cls"], dict(c["p"])
    klass = getattr(R, cls)
    X = build(c["X"])
    m, n = X.shape
    if cls in ("TruncatedSVDRecommender", "NMFRecommender") and (X.nnz == 0 or m < 2):
        raise Skip
    if cls == "NMFRecommender":
        p["init"] = "random"
    for d in c["drop"]:  # leave some parameters to the defaults (alpha0 of iALS is handled by its own facet)
        k = sorted(p)[d % len(p)] if p else None
        if k and (cls, k) not in (("IALSRecommender", "alpha0"), ("NMFRecommender", "init")):
            p.pop(k)
    if cls not in recs.NO_THREADS:
        p["n_threads"] = 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cfg = klass.config_class(**p)
        if c["json"] == "dict":
            cfg = klass.config_class(**cfg.dict())
        elif c["json"] == "json":
            cfg = klass.config_class.parse_raw(cfg.json())
        for k, v in p.items():
            check(getattr(cfg, k) == v, f"{cls} configuration holds {k}={getattr(cfg, k)!r} instead of {v!r}")
        a = klass.from_config(X, cfg).learn()
        b = klass(X, **p).learn()
        for k in p:  # what the model says about its own parameters
            if hasattr(a, k) and hasattr(b, k) and isinstance(getattr(b, k), (int, float, str, type(None))):
                check(getattr(a, k) == getattr(b, k), lambda: f"{cls} built from a configuration with {k}={p[k]!r} has {k}={getattr(a, k)!r}, constructed directly {getattr(b, k)!r}")
        C = sps.csr_matrix((np.random.RandomState(3).uniform(size=(3, n)) < 0.4).astype(float))
        same(cls, answers(cls, b, C), answers(cls, a, C), "the model built from the configuration")
        names = [x for x in recs.PARAMS if x != cls]
        other = getattr(R, names[c["other"] % len(names)])
        if not issubclass(other.config_class, klass.config_class):
            try:
                klass.from_config(X, other.config_class())
            except ValueError:
                pass
            else:
                raise Violation(f"{cls} accepted a configuration of {other.__name__}")
        try:
            klass.config_class(**{**p, "no_such_parameter": 1})
        except ValueError:
            pass
        else:
            raise Violation(f"{cls}: unknown configuration field accepted")
    ctx.nt(X.nnz > 0 and len(p) > 1)
    ctx.tag(cls)


def def_strategy():
    return st.fixed_dictionaries({"cls": st.sampled_from(sorted(recs.PARAMS)), "X": mat(6, 6, min_rows=2, min_cols=2)})


SKIP = {("IALSRecommender", "alpha0")}


def run_def(c, ctx):
    """Omitted parameters mean the same in a configuration and in a direct construction."""
    from irspack import recommenders as R
    for name in sorted(recs.PARAMS):
        klass = getattr(R, name)
        cfg = klass.config_class().dict()
        sig = inspect.signature(klass.__init__).parameters
        for k, v in cfg.items():
            d = sig[k].default if k in sig else inspect.Parameter.empty
            if (name, k) in SKIP or d is inspect.Parameter.empty or d is None:  # no declared constant: left to the behavioural comparison
                continue
            check(d == v, f"{name}: omitted {k} means {v!r} in a configuration but {d!r} in the constructor", key=f"default-{name}-{k}")
    klass = getattr(R, c["cls"])
    X = build(c["X"])
    if c["cls"] in ("NMFRecommender", "TruncatedSVDRecommender", "IALSRecommender"):  # default ranks exceed these matrices
        ctx.tag("signature only")
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a, b = klass(X).learn(), klass.from_config(X, klass.config_class()).learn()
        u = np.arange(X.shape[0])
        x, y = (np.asarray(r.get_score(u).toarray() if sps.issparse(r.get_score(u)) else r.get_score(u)) for r in (a, b))
        check(np.allclose(x, y, rtol=1e-4, atol=1e-5 * np.abs(x).max(initial=0)), f"{c['cls']}: default configuration and default construction differ", key=f"default-{c['cls']}")
    ctx.nt(X.nnz > 0)


def run_def_ials(c, ctx):
    from irspack.recommenders import IALSRecommender
    X = build(c["X"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = IALSRecommender(X, n_components=2, n_threads=1, train_epochs=2)
        b = IALSRecommender.from_config(X, IALSRecommender.config_class(n_components=2, n_threads=1, train_epochs=2))
    check(a.alpha0 == b.alpha0, f"omitted alpha0 means {b.alpha0} in IALSConfig but {a.alpha0} in IALSRecommender", key=f"ials-default-alpha0-config{b.alpha0}-ctor{a.alpha0}")
    ctx.nt(X.nnz > 0)


FACETS = [
    Facet("recommender", rec_strategy, run_rec, quick=250, thorough=4000, shards=4),
    Facet("native_ials", core_strategy, run_core, quick=250, thorough=4000, shards=2),
    Facet("trainer_state", state_strategy, run_state, quick=120, thorough=2500, shards=1),
    Facet("evaluator", ev_strategy, run_ev, quick=250, thorough=4000, shards=1),
    Facet("mapper_pair", map_strategy, run_map, quick=120, thorough=2000, shards=1),
    Facet("config", cfg_strategy, run_cfg, quick=300, thorough=4000, shards=2),
    Facet("defaults", def_strategy, run_def, quick=40, thorough=200, shards=1),
    Facet("default_alpha0", lambda: st.fixed_dictionaries({"X": mat(4, 4, min_rows=2, min_cols=2)}), run_def_ials, quick=5, thorough=20, shards=1),
]
