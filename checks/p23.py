"""P23: hyper-parameter tuning."""
import logging
import re
import warnings
import zlib

import numpy as np
import scipy.sparse as sps

from vlib import peer, recs
from vlib.gen import build, mat, st
from vlib.harness import Facet, Skip, Violation, check

PROPERTY, NATIVE, BARE = "P23", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 3  # multiplies the quick case counts
RULE = ("studies over a scripted early-stopping recommender (1-3 random ranges of all five kinds, fixed parameters, default or custom suggestion functions, suggested training data, 1-3 tuning calls continuing one study, trials that fail "
        "or are pruned at generated points, score landscapes full of ties), over every importable real recommender (2-4 trials, each trial's model rebuilt from the table and re-evaluated), dimension doubling, and the parameter ranges alone; "
        "oracle: the recorded constructor calls, a model of early stopping, re-evaluation; non-trivial: >= 2 trials completed with different parameters")
ASSUMPTIONS = ["studies minimise, as documented by the objective (the negated target metric)", "a call in which no trial of the study has completed may fail", "an early-stopping recommender learns its number of epochs, so train_epochs is not fixed by the caller",
               "two suggestion functions do not share a parameter name"]
LOG = logging.getLogger("verif-quiet")
LOG.setLevel(logging.CRITICAL + 1)
LOG.propagate = False


def quiet():
    import optuna
    optuna.logging.set_verbosity(optuna.logging.CRITICAL)
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------- ranges
LOW = st.sampled_from([0.001, 0.5, 1.0, 3.0, 10.0])
RANGE = st.one_of(
    st.fixed_dictionaries({"k": st.just("uf"), "low": st.sampled_from([-3.0, 0.0, 0.25, 5.0]), "w": st.sampled_from([0.0, 0.5, 10.0])}),
    st.fixed_dictionaries({"k": st.just("lf"), "low": LOW, "w": st.sampled_from([0.0, 0.01, 100.0])}),
    st.fixed_dictionaries({"k": st.just("ui"), "low": st.integers(-3, 5), "w": st.integers(0, 9), "step": st.integers(1, 3)}),
    st.fixed_dictionaries({"k": st.just("li"), "low": st.integers(1, 5), "w": st.integers(0, 60)}),
    st.fixed_dictionaries({"k": st.just("cat"), "ch": st.lists(st.sampled_from(["a", "b", True, False, None, 3, 0.5]), min_size=1, max_size=4)}))


def make_range(name, r):
    from irspack import optimization as O
    if r["k"] == "cat":
        return O.CategoricalRange(name, list(r["ch"]))
    lo, hi = r["low"], r["low"] + r["w"]
    if r["k"] == "ui":
        return O.UniformIntegerRange(name, lo, hi, r["step"]) if r["step"] > 1 else O.UniformIntegerRange(name, lo, hi)
    return {"uf": O.UniformFloatRange, "lf": O.LogUniformFloatRange, "li": O.LogUniformIntegerRange}[r["k"]](name, lo, hi)


def inside(r, v):
    if r["k"] == "cat":
        return any(v is x or (type(v) is type(x) and v == x) for x in r["ch"])
    lo, hi = r["low"], r["low"] + r["w"]
    if r["k"] in ("ui", "li"):
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool) and lo <= v <= hi and (r["k"] == "li" or (v - lo) % r["step"] == 0)
    return isinstance(v, float) and lo - 1e-12 * abs(lo) <= v <= hi + 1e-12 * abs(hi)


def range_strategy():
    return st.fixed_dictionaries({"r": RANGE, "prefix": st.sampled_from(["", "p_", "x."]), "seed": st.integers(0, 10**6),
                                  "name": st.one_of(st.sampled_from(["a", "alpha0", "n_components", "9", "a-b", "a__", "_a", "-a", "", "a b", "a.b", "é", "a" * 45 + "!", "a_" * 30 + " "]), st.text("aZ0_- .!", max_size=45)), "n": st.integers(3, 12)})


def run_range(c, ctx):
    import optuna
    from irspack import optimization as O
    quiet()
    r, name = c["r"], c["name"]
    ok = re.fullmatch(r"[a-zA-Z\d][a-zA-Z\d\-_]*", name) is not None
    try:
        rg = make_range(name, r)
    except ValueError:
        check(not ok, f"valid parameter name {name!r} refused")
        ctx.tag("refused")
        return
    check(ok, f"invalid parameter name {name!r} accepted")
    if r["k"] != "cat":
        cls = type(rg)
        try:
            cls(name, r["low"] + r["w"] + 1, r["low"])
        except ValueError:
            pass
        else:
            raise Violation(f"{cls.__name__} accepted low > high")
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=c["seed"]))
    vals = []
    for _ in range(c["n"]):
        t = study.ask()
        v = rg.suggest(t, c["prefix"])
        vals.append(v)
        check(inside(r, v), lambda: f"{type(rg).__name__} suggested {v!r} outside {r}")
        check(list(t.params) == [c["prefix"] + name] and (t.params[c["prefix"] + name] == v), lambda: f"suggestion recorded as {t.params}")
        d = t.distributions[c["prefix"] + name]
        if r["k"] == "cat":
            check(len(d.choices) == len(r["ch"]) and all(type(x) is type(y) and x == y for x, y in zip(d.choices, r["ch"])), "choices searched differ from the declared ones")
        else:
            hi = r["low"] + r["w"]
            if r["k"] == "ui":
                hi -= r["w"] % r["step"]
            check(d.low == r["low"] and d.high == hi and bool(d.log) == (r["k"] in ("lf", "li")), lambda: f"searched range {d} differs from the declared {r}")
        study.tell(t, 0.0)
    ctx.nt(len(set(map(str, vals))) > 1)
    ctx.tag(r["k"])


# ---------------------------------------------------------------- scripted recommender
NAMES = ["alpha", "n-k", "mode_2"]


def mock_strategy():
    return st.fixed_dictionaries({"ranges": st.lists(RANGE, min_size=1, max_size=3), "fixed": st.lists(st.integers(0, 3), max_size=2), "fn": st.sampled_from(["default", "custom", "custom"]), "data": st.sampled_from(["direct", "suggest"]),
                                  "seg": st.lists(st.integers(1, 4), min_size=1, max_size=3), "ev": st.lists(st.sampled_from(["ok", "ok", "ok", "fail", 0, 1, 3]), min_size=12, max_size=12), "seed": st.integers(0, 10**6), "own": st.booleans(),
                                  "max": st.integers(1, 12), "val": st.integers(1, 4), "pat": st.integers(1, 4), "cut": st.integers(1, 30), "grid": st.sampled_from([2, 5, 1000]), "early": st.booleans(), "metric": st.sampled_from(["ndcg", "recall"]),
                                  "suggest_ep": st.booleans()})


def run_mock(c, ctx):
    import optuna
    from irspack import Evaluator, TargetMetric
    from irspack.recommenders.base import BaseRecommender
    from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase
    import pickle
    quiet()
    names = NAMES[: len(c["ranges"])]
    X = [sps.csr_matrix(np.eye(3)), sps.csr_matrix(np.ones((3, 3)))]
    calls, script = [], {"i": 0}

    def value(params, dk, epoch, what):
        key = repr((sorted((k, repr(v)) for k, v in params.items()), dk, epoch, what, c["grid"]))
        return (zlib.crc32(key.encode()) % c["grid"]) / c["grid"]

    class Trainer(TrainerBase):
        def __init__(self):
            self.epoch = 0

        def load_state(self, ifs):
            self.epoch = pickle.load(ifs)

        def save_state(self, ofs):
            pickle.dump(self.epoch, ofs)

        def run_epoch(self):
            self.epoch += 1

    def setup(self, data, params):
        self.given, self.dk = dict(params), int(data.nnz == 9)
        self.ep = params.pop("train_epochs", None)
        self.p = params
        if script.get("on"):
            calls.append(self)
            if c["ev"][(len(calls) - 1) % 12] == "fail":
                raise RuntimeError("scripted failure")

    if c["early"]:
        class Rec(BaseRecommenderWithEarlyStopping, register_class=False):
            def __init__(self, X_train_all, **params):
                super().__init__(X_train_all, train_epochs=params.get("train_epochs", 7))
                setup(self, X_train_all, params)

            def _create_trainer(self):
                return Trainer()

            def epoch(self):
                return self.trainer.epoch

            def get_score(self, user_indices):
                return np.zeros((len(user_indices), 3))
    else:
        class Rec(BaseRecommender, register_class=False):
            def __init__(self, X_train_all, **params):
                super().__init__(X_train_all)
                setup(self, X_train_all, params)

            def _learn(self):
                self.done = True

            def epoch(self):
                return 0 if self.done else None

            def get_score(self, user_indices):
                return np.zeros((len(user_indices), 3))

    class Ev(Evaluator):
        def get_score(self, model):
            return {w: value(model.p, model.dk, model.epoch(), w) for w in ("ndcg", "recall")}

    Rec.default_tune_range = [make_range(n, r) for n, r in zip(names, c["ranges"])]
    ev = Ev(X[0], cutoff=c["cut"], target_metric=c["metric"])

    class Pruner(optuna.pruners.BasePruner):
        def prune(self, study, trial):
            e = c["ev"][trial.number % 12]
            return isinstance(e, int) and len(trial.intermediate_values) - 1 >= e

    pool = names + ["extra"]
    fixed = {pool[i % len(pool)]: f"fixed{i}" for i in c["fixed"]}
    ep_suggested = c["early"] and c["suggest_ep"] and c["fn"] == "custom"

    def suggest(trial):
        d = {n: make_range(n, r).suggest(trial) for n, r in zip(names, c["ranges"])}
        if ep_suggested:
            d["train_epochs"] = trial.suggest_int("train_epochs", 1, 3)
        return d

    def suggest_data(trial):
        return X[trial.suggest_categorical("data_kind", [0, 1])]

    kw = dict(max_epoch=c["max"], validate_epoch=c["val"], score_degradation_max=c["pat"], logger=LOG, **fixed)
    if c["fn"] == "custom":
        kw["parameter_suggest_function"] = suggest
    if c["data"] == "suggest":
        kw["data_suggest_function"] = suggest_data
    data = None if c["data"] == "suggest" else X[0]

    def expect(params, dk, number, pruning):
        """(state, value, best epoch) of one trial"""
        if not c["early"]:
            return "COMPLETE", value(params, dk, 0, c["metric"]), 0
        best, ep, bad, nv = -1.0, None, 0, 0
        for e in range(1, c["max"] + 1):
            if e % c["val"]:
                continue
            s = value(params, dk, e, c["metric"])
            nv += 1
            if s > best:
                best, ep, bad = s, e, 0
            else:
                bad += 1
                if bad >= c["pat"]:
                    break
            p = c["ev"][number % 12]
            if pruning and isinstance(p, int) and nv - 1 >= p:
                return "PRUNED", s, ep
        return ("FAIL", None, None) if ep is None else ("COMPLETE", best, ep)

    if c["own"]:  # one study continued by several calls
        study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=c["seed"]), pruner=Pruner())
        kw["study"] = study
        segs = c["seg"]
    else:
        study = None
        kw.update(tuning_random_seed=c["seed"], prunning_n_startup_trials=1000)
        segs = c["seg"][:1]
    script["on"] = True
    suggested_names = {n for n in names if c["fn"] == "custom" or n not in fixed} | ({"train_epochs"} if ep_suggested else set()) | ({"data_kind"} if c["data"] == "suggest" else set())

    def go(n):
        """one tuning call; (result or None, exception or None)"""
        try:
            return Rec.tune(data, ev, n_trials=n, **kw), None
        except Exception as e:
            return None, e

    for n in segs:
        before = len(calls)
        ran = 0
        fails = []
        while True:  # a failing trial surfaces as an exception; the study is then continued
            res, exc = go(n - ran)
            new = len(calls) - before
            if exc is None:
                break
            last = expect(calls[-1].p, calls[-1].dk, len(calls) - 1, c["own"]) if len(calls) > before else None
            scripted = len(calls) > before and (c["ev"][(len(calls) - 1) % 12] == "fail" or last[0] == "FAIL")
            if not scripted:
                # legitimate only when nothing completed in the study
                done = [expect(x.p, x.dk, i, c["own"])[0] for i, x in enumerate(calls) if c["ev"][i % 12] != "fail"]
                check("COMPLETE" not in done, lambda: f"tuning raised {type(exc).__name__}: {exc} although a trial completed")
                ctx.tag("nothing completed")
                return
            if not c["own"]:
                ctx.tag("failed, study gone")
                return
            ran = new
            if ran >= n:
                res = None
                break
        check(len(calls) - before == n, lambda: f"{len(calls) - before} trials were run instead of {n}")
        if res is None:
            continue
        best, df = res
        # every trial recorded, with what was tried and what came out
        check(list(df.index) == list(range(len(calls))), lambda: f"the history lists trials {list(df.index)}, expected 0..{len(calls) - 1}")
        complete = []
        for i, x in enumerate(calls):
            row = df.loc[i]
            if c["ev"][i % 12] == "fail":
                state, val, ep = "FAIL", None, None
            else:
                state, val, ep = expect(x.p, x.dk, i, c["own"])
            check(row["state"] == state, lambda: f"trial {i} is recorded as {row['state']}, expected {state}")
            for nm in names:
                want = fixed.get(nm)
                if nm in fixed:
                    check(x.given.get(nm) == want, lambda: f"trial {i}: fixed {nm}={want!r} was passed as {x.given.get(nm)!r}")
                    if c["fn"] == "default":
                        check(nm not in df.columns, lambda: f"{nm} was tuned although the caller fixed it")
                else:
                    check(inside(c["ranges"][names.index(nm)], x.given.get(nm)), lambda: f"trial {i}: {nm}={x.given.get(nm)!r} lies outside {c['ranges'][names.index(nm)]}")
                    v = row[nm]
                    check(v == x.given[nm] or (x.given[nm] is None and (v is None or v != v)), lambda: f"trial {i}: history says {nm}={v!r}, the recommender got {x.given[nm]!r}")
            for nm in fixed:
                check(x.given.get(nm) == fixed[nm], lambda: f"trial {i}: fixed {nm} not passed on")
            extra = set(x.given) - set(names) - set(fixed) - {"train_epochs"}
            check(not extra, lambda: f"trial {i}: unexpected parameters {extra}")
            if c["data"] == "suggest":
                check(row["data_kind"] == x.dk, f"trial {i} trained on other data than suggested")
            if state == "COMPLETE":
                complete.append((i, val, ep, x))
                check(np.isclose(row["value"], -val), lambda: f"trial {i}: recorded value {row['value']}, expected {-val}")
                for w in ("ndcg", "recall"):
                    want = value(x.p, x.dk, ep, w)
                    check(f"{w}@{c['cut']}" in df.columns and np.isclose(row[f"{w}@{c['cut']}"], want), lambda: f"trial {i}: {w}@{c['cut']} recorded as {row.get(f'{w}@{c_cut}')}, expected {want}" if False else f"trial {i}: {w}@{c['cut']} is not recorded as {want}")
                if c["early"] and not ep_suggested:
                    check(row["train_epochs"] == ep, lambda: f"trial {i}: recorded train_epochs {row['train_epochs']}, best epoch {ep}")
            elif f"ndcg@{c['cut']}" in df.columns:
                check(row[f"ndcg@{c['cut']}"] != row[f"ndcg@{c['cut']}"], f"trial {i} ({state}) has scores of another trial")
        check(complete, "tuning returned although no trial completed")
        top = max(v for _, v, _, _ in complete)
        # returned parameters: those of a best trial, without the fixed ones
        expected_names = (suggested_names - set(fixed)) | ({"train_epochs"} if c["early"] else set())
        check(set(best) == expected_names, lambda: f"best parameters name {sorted(best)}, expected {sorted(expected_names)}")
        def is_trial(x, ep):
            return all(best[k] == x.given[k] and type(best[k]) is type(x.given[k]) for k in best if k in names) and ("data_kind" not in best or best["data_kind"] == x.dk) and ("train_epochs" not in best or best["train_epochs"] == ep)
        check(any(is_trial(x, ep) for _, v, ep, x in complete if v == top), lambda: f"best parameters {best} are not those of a trial with the best value {top}: {[(x.given, ep, v) for _, v, ep, x in complete]}")
        # rebuilding
        script["on"] = False
        kw2 = {**fixed, **best}
        dk = kw2.pop("data_kind", 0)
        r2 = Rec(X[dk], **kw2)
        r2.learn()
        got = ev.get_score(r2)[c["metric"]]
        check(np.isclose(got, top), lambda: f"a model built from the returned parameters scores {got}, reported best {top}")
        script["on"] = True
        ctx.nt(len({repr(sorted(x.given.items(), key=str)) for _, _, _, x in complete}) >= 2)
        if len(segs) > 1:
            ctx.tag("continued")
    for s in {str(e) for e in c["ev"][: len(calls)]}:
        ctx.tag("ev:" + s)
    if not c["own"]:
        first = [x.given for x in calls]
        calls.clear()
        go(segs[0])
        check([repr(x.given) for x in calls] == [repr(x) for x in first], lambda: f"the same tuning seed searched {[x.given for x in calls]} after {first}")
    ctx.tag(c["fn"], c["data"], "early" if c["early"] else "plain")


# ---------------------------------------------------------------- real recommenders
def real_strategy():
    return st.fixed_dictionaries({"cls": st.sampled_from(sorted(recs.PARAMS)), "X": st.fixed_dictionaries({"m": st.integers(8, 16), "n": st.integers(8, 14), "d": st.sampled_from([3, 5]), "v": st.sampled_from(["ones", "int"]), "s": st.integers(0, 10**6), "e": st.just(0)}),
                                  "nt": st.integers(2, 4), "seed": st.integers(0, 10**6), "cut": st.integers(1, 6), "metric": st.sampled_from(["ndcg", "recall", "map", "hit"]), "fix": st.integers(0, 4), "max": st.integers(1, 4)})


FIX = {"TruncatedSVDRecommender": {"n_components": 3}, "NMFRecommender": {"n_components": 3, "init": "random"}, "IALSRecommender": {"n_components": 3}}


def setup(c):
    from irspack import Evaluator, recommenders as R, rowwise_train_test_split
    quiet()
    klass = getattr(R, c["cls"])
    Xtr, Xte = rowwise_train_test_split(build(c["X"]), test_ratio=0.4, random_state=1)
    if c["cls"] in ("TruncatedSVDRecommender", "NMFRecommender") and Xtr.nnz == 0:
        raise Skip
    ev = Evaluator(Xte, cutoff=c["cut"], target_metric=c["metric"], n_threads=1)
    rg = {r.name: r for r in klass.default_tune_range}
    fixed = dict(FIX.get(c["cls"], {}))
    if c["cls"] not in recs.NO_THREADS:
        fixed["n_threads"] = 1
    par = {"alpha": 0.5, "reg": 2.0, "shrinkage": 1.5, "top_k": 3, "beta": 0.25, "alpha0": 0.3, "l1_ratio": 0.2, "dropout_p": 0.3, "feature_weighting": "TF_IDF", "bm25_k1": 1.0}
    tunable = sorted(n for n in rg if n in par and n not in fixed)
    if tunable and c["fix"]:
        fixed[tunable[c["fix"] % len(tunable)]] = par[tunable[c["fix"] % len(tunable)]]

    def tune():
        return klass.tune(Xtr, ev, n_trials=c["nt"], tuning_random_seed=c["seed"], max_epoch=c["max"], validate_epoch=1, score_degradation_max=2, logger=LOG, **fixed)
    return klass, Xtr, ev, rg, fixed, tune


def answer(c):
    *_, rg, fixed, tune = setup(c)
    best, df = tune()
    return [sorted((k, repr(v)) for k, v in best.items()), {k: [repr(v) for v in df[k]] for k in sorted(rg) if k not in fixed}]


def run_process(c, ctx):
    """The seed alone determines the search: another process tries the same parameters."""
    import json
    mine = json.loads(json.dumps(answer(c)))
    other = peer.ask(PROPERTY, "answer", c, BARE)
    check(mine == other, lambda: f"{c['cls']}: the same tuning seed gave another search in another process: {mine} vs {other}")
    ctx.nt(any(len(set(v)) > 1 for v in mine[1].values()))
    ctx.tag(c["cls"])


def run_real(c, ctx):
    klass, Xtr, ev, rg, fixed, tune = setup(c)
    best, df = tune()
    check(len(df) == c["nt"], lambda: f"history has {len(df)} rows for {c['nt']} trials")
    tuned = [n for n in rg if n not in fixed]
    learnt = ["train_epochs"] if c["cls"] == "IALSRecommender" else []
    check(set(best) == set(tuned) | set(learnt), lambda: f"{c['cls']}: best parameters {sorted(best)}, tuned {sorted(tuned)}")

    def native(v):
        return v.item() if isinstance(v, np.generic) else v

    def score(params):
        return ev.get_score(klass(Xtr, **{**fixed, **params}).learn())
    vals = []
    for i, row in df.iterrows():
        if row["state"] != "COMPLETE":
            continue
        p = {k: native(row[k]) for k in tuned + learnt}
        for k in tuned:
            r, v = rg[k], p[k]
            if hasattr(r, "choices"):
                check(any(v == x for x in r.choices), lambda: f"{k}={v!r} not among {r.choices}")
            else:
                check(r.low * (1 - 1e-9) <= v <= r.high * (1 + 1e-9), lambda: f"{k}={v!r} outside [{r.low}, {r.high}]")
        p = {k: (int(v) if isinstance(rg.get(k), (type(None),)) or "Integer" in type(rg[k]).__name__ else v) for k, v in p.items()}
        got = score(p)
        for w, x in got.items():
            y = row[f"{w}@{c['cut']}"]
            check(np.isclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True), lambda: f"{c['cls']} trial {i}: {w}@{c['cut']} recorded as {y}, rebuilding the model from the row gives {x}")
        check(np.isclose(row["value"], -got[c["metric"]], rtol=1e-6, atol=1e-9), lambda: f"trial {i}: value {row['value']}, metric {got[c['metric']]}")
        vals.append(-row["value"])
    got = score(best)[c["metric"]]
    check(np.isclose(got, max(vals), rtol=1e-6, atol=1e-9), lambda: f"{c['cls']}: the returned parameters give {got}, best recorded {max(vals)}")
    best2, df2 = tune()
    check(best2 == best and all(df2[k].tolist() == df[k].tolist() for k in tuned), "the same tuning seed gave another search")
    ctx.nt(len(tuned) > 0 and len(set(vals)) > 1)
    ctx.tag(c["cls"])


# ---------------------------------------------------------------- dimension doubling
def dbl_strategy():
    return st.fixed_dictionaries({"X": st.fixed_dictionaries({"m": st.one_of(st.integers(6, 14), st.integers(60, 150)), "n": st.integers(6, 12), "d": st.sampled_from([0, 3, 5]), "v": st.just("ones"), "s": st.integers(0, 10**6), "e": st.just(0)}),
                                  "d0": st.integers(1, 3), "d1": st.integers(1, 9), "n0": st.integers(1, 3), "n1": st.integers(1, 3), "scale": st.sampled_from([1.1, 3.0, 10.0]), "seed": st.integers(0, 10**6), "custom": st.booleans(), "cut": st.integers(1, 4)})


def run_dbl(c, ctx):
    import optuna
    from irspack import Evaluator, IALSRecommender, rowwise_train_test_split
    quiet()
    if c["d1"] < c["d0"]:
        raise Skip
    Xtr, Xte = rowwise_train_test_split(build(c["X"]), test_ratio=0.4, random_state=1)
    ev = Evaluator(Xte, cutoff=c["cut"], n_threads=1)
    storage = optuna.storages.InMemoryStorage()
    fn = (lambda t: {"alpha0": t.suggest_float("alpha0", 0.2, 0.4), "reg": t.suggest_float("reg", 1e-3, 1e-2, log=True), "nu": 0.5}) if c["custom"] else None
    import os
    os.environ["IRSPACK_NUM_THREADS_DEFAULT"] = "1"
    try:
        def go(storage):
            return IALSRecommender.tune_doubling_dimension(Xtr, ev, c["d0"], c["d1"], storage=storage, study_name_prefix="pre", n_trials_initial=c["n0"], n_trials_following=c["n1"], max_epoch=3, validate_epoch=1, score_degradation_max=2,
                                                           neighborhood_scale=c["scale"], suggest_function_initial=fn, random_seed=c["seed"])
        bp, df = go(storage)
        bp2, df2 = go(None)
    finally:
        del os.environ["IRSPACK_NUM_THREADS_DEFAULT"]
    dims, d = [], c["d0"]
    while d <= c["d1"]:
        dims.append(d)
        d *= 2
    check(list(dict.fromkeys(df["n_components"].tolist())) == dims, lambda: f"dimensions tried {df['n_components'].tolist()}, expected {dims}")
    studies = {d: optuna.load_study(study_name=f"pre_{d}", storage=storage) for d in dims}
    check(len(df) == c["n0"] + c["n1"] * (len(dims) - 1), "wrong number of trials in the history")
    top = []
    for i, d in enumerate(dims):
        sub = df[df["n_components"] == d]
        ts = studies[d].trials
        check(len(sub) == len(ts) == (c["n0"] if i == 0 else c["n1"]), f"dimension {d}: wrong number of trials")
        for t in ts:
            for k, v in t.params.items():
                check(np.isclose(sub.loc[t.number, k], v), "history and study disagree")
                if i:
                    b = studies[dims[i - 1]].best_params[k]
                    check(b / c["scale"] * (1 - 1e-9) <= v <= b * c["scale"] * (1 + 1e-9), lambda: f"dimension {d}: {k}={v} outside the neighbourhood of {b}")
                elif c["custom"]:
                    check({"alpha0": 0.2, "reg": 1e-3}[k] <= v <= {"alpha0": 0.4, "reg": 1e-2}[k], "initial suggestion function not honoured")
            check(set(t.params) == {"alpha0", "reg"}, lambda: f"parameters {sorted(t.params)} tuned at dimension {d}")
        top.append(min(t.value for t in ts if t.state.name == "COMPLETE"))
    win = dims[int(np.argmin(top))]
    w = studies[bp["n_components"]]
    check(w.best_value == min(top), lambda: f"returned dimension {bp['n_components']} with best value {w.best_value}, best over all {min(top)} (dimension {win})")
    check(all(bp[k] == v for k, v in w.best_params.items()) and bp["train_epochs"] == w.best_trial.user_attrs["train_epochs"], lambda: f"returned parameters {bp} are not those of the best trial {w.best_params}")
    check(bp == bp2 and np.allclose(df["value"].to_numpy(dtype=float), df2["value"].to_numpy(dtype=float), equal_nan=True), "the same seed gave another search")
    if not (c["custom"] and bp["n_components"] == dims[0]):
        model = IALSRecommender(Xtr, n_threads=1, **bp).learn()
        check(np.isclose(ev.get_target_score(model), -min(top), rtol=1e-6), lambda: f"a model built from {bp} scores {ev.get_target_score(model)}, reported {-min(top)}")
    ctx.nt(len(dims) > 1 and len(set(top)) > 1)
    ctx.tag(f"dims:{len(dims)}", "tie" if len(set(top)) < len(top) else "distinct")


FACETS = [
    Facet("range", range_strategy, run_range, quick=300, thorough=5000, shards=1, case_timeout=30.0),
    Facet("scripted", mock_strategy, run_mock, quick=600, thorough=5000, shards=3),
    Facet("recommenders", real_strategy, run_real, quick=120, thorough=1500, shards=2),
    Facet("processes", real_strategy, run_process, quick=40, thorough=800, shards=2),
    Facet("doubling", dbl_strategy, run_dbl, quick=50, thorough=800, shards=2),
]
