"""P21: early-stopped learning keeps the best validated state."""
import numpy as np

from vlib.gen import build, mat, st
from vlib.harness import Facet, check

PROPERTY, NATIVE, BARE = "P21", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 15  # multiplies the quick case counts
RULE = ("scripted validation-score sequences (plateaus, ties, negatives, late improvements, NaN) x maximum epochs 0-25 x interval 1-6 x patience 1-5 x optional pruning point, driven through the real "
        "learning loop on a recording trainer (repeatedly on one object) and on the real ALS recommender with random data; oracle: a direct model of the documented rule and, for ALS, retraining for the "
        "reported number of epochs; non-trivial: at least two validations and a best state that is not the last one")
ASSUMPTIONS = ["a run in which no validation produced a usable score may be refused with an error, but must not silently restore a state of an earlier run",
               "a pruning request that coincides with the last validation before stopping may or may not be honoured"]
SC = st.lists(st.sampled_from([0.0, 0.1, 0.1, 0.2, 0.3, 0.5, 0.5, 0.7, -0.1, -1.0, 0.9, float("-inf"), None]), min_size=25, max_size=25)
CFG = {"scores": SC, "max": st.integers(0, 25), "val": st.integers(1, 6), "pat": st.integers(1, 5), "prune": st.sampled_from([None, None, 0, 1, 2, 5]), "trial": st.booleans()}


def model(c):
    """validated epochs, best epoch (or None), epochs run, stopped by patience, pruned at (index)"""
    best, best_ep, bad, vals, pruned = -float("inf"), None, 0, [], False
    run_ = 0
    stopped = False
    for ep in range(1, c["max"] + 1):
        run_ = ep
        if ep % c["val"]:
            continue
        s = c["scores"][ep - 1]
        s = float("nan") if s is None else s
        vals.append(ep)
        if s > best:
            best, best_ep, bad = s, ep, 0
        else:
            bad += 1
            if bad >= c["pat"]:
                stopped = True
                break
        if c["trial"] and c["prune"] is not None and len(vals) - 1 >= c["prune"]:
            pruned = True
            break
    return vals, best_ep, run_, stopped, pruned


class FakeTrial:
    def __init__(self, prune):
        self.prune, self.reports = prune, []

    def report(self, value, step):
        self.reports.append((value, step))

    def should_prune(self):
        return self.prune is not None and len(self.reports) - 1 >= self.prune


def make_fake():
    import pickle
    from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase

    class Trainer(TrainerBase):
        def __init__(self):
            self.epoch, self.payload = 0, [0]

        def load_state(self, ifs):
            self.epoch, self.payload = pickle.load(ifs)

        def save_state(self, ofs):
            pickle.dump((self.epoch, self.payload), ofs)

        def run_epoch(self):
            self.epoch += 1
            self.payload[0] = self.epoch * 10  # mutable state must be captured by value

    class Rec(BaseRecommenderWithEarlyStopping, register_class=False):
        def __init__(self, X):
            super().__init__(X)
            self.log = []

        def _create_trainer(self):
            self.log = []
            return Trainer()

        def run_epoch(self):
            super().run_epoch()
            self.log.append(self.trainer.epoch)

        def get_score(self, user_indices):
            return np.zeros((len(user_indices), self.n_items))

    return Rec


class Scripted:
    """Stands in for an evaluator; reads the trained epoch from the recommender."""
    target_metric_name = "score"

    def __init__(self, scores, epoch_of):
        self.scores, self.epoch_of, self.seen = scores, epoch_of, []

    def get_target_score(self, rec):
        ep = self.epoch_of(rec)
        self.seen.append(ep)
        s = self.scores[ep - 1]
        return float("nan") if s is None else s


def one(c, rec, epoch_of, on_done, ctx):
    """Drive one run; returns the epoch whose state must be in place (None: refused)."""
    from optuna.exceptions import TrialPruned
    vals, best_ep, run_, stopped, pruned = model(c)
    ev = Scripted(c["scores"], epoch_of)
    trial = FakeTrial(c["prune"]) if c["trial"] else None
    try:
        rec.learn_with_optimizer(ev, trial, max_epoch=c["max"], validate_epoch=c["val"], score_degradation_max=c["pat"])
        outcome = "done"
    except TrialPruned:
        outcome = "pruned"
    except RuntimeError as e:
        check(best_ep is None and not pruned, lambda: f"learning failed with {e} although epoch {best_ep} was validated")
        outcome = "refused"
    check(ev.seen == vals, lambda: f"validated after epochs {ev.seen}, expected {vals}")
    done = on_done(rec)
    check(done["epochs"] == run_, lambda: f"ran {done['epochs']} epochs, expected {run_}")
    check(outcome != "pruned" or pruned or (stopped and trial is not None and trial.should_prune()), "pruned without a pruning request")
    check(outcome == "pruned" or not pruned, "a pruning request was ignored")
    if outcome == "done":
        check(best_ep is not None, "no validation produced a score, yet learning returned as if a best state had been found")
        check(rec.learnt_config.get("train_epochs") == best_ep, lambda: f"reports {rec.learnt_config} instead of epoch {best_ep}")
        check(done["state"] == best_ep, lambda: f"left in the state of epoch {done['state']} instead of the best epoch {best_ep}")
    else:  # at most what this run has found out
        check(rec.learnt_config.get("train_epochs") in (None, best_ep), lambda: f"a run without a best state ({outcome}) reports {rec.learnt_config}, the outcome of an earlier run")
    if trial is not None:
        want = [ep for ep in vals][:len(trial.reports)]
        check(len(trial.reports) >= len(vals) - 1, "validations were not reported to the trial")
        for (v, step), ep in zip(trial.reports, want):
            s = c["scores"][ep - 1]
            check((s is None and np.isnan(v)) or v == -s, lambda: f"epoch {ep} reported to the trial as {v}, score {s}")
        check(all(a[1] < b[1] for a, b in zip(trial.reports, trial.reports[1:])), "trial steps do not increase")
    ctx.nt(len(vals) >= 2 and best_ep is not None and best_ep != vals[-1])
    ctx.tag(outcome, "patience" if stopped else "ran out")
    return best_ep if outcome == "done" else None


def strategy_fake():
    return st.fixed_dictionaries({"runs": st.lists(st.fixed_dictionaries(CFG), min_size=1, max_size=3)})


def run_fake(c, ctx):
    import scipy.sparse as sps
    rec = make_fake()(sps.csr_matrix(np.eye(3)))
    for r in c["runs"]:
        one(r, rec, lambda q: q.trainer.epoch, lambda q: {"epochs": len(q.log), "state": q.trainer.epoch if q.trainer.payload == [q.trainer.epoch * 10] else -1}, ctx)
    if c["runs"][0]["max"]:
        r = c["runs"][0]
        rec.learn_with_optimizer(None, None, max_epoch=r["max"], validate_epoch=r["val"], score_degradation_max=r["pat"])
        check(rec.log == list(range(1, r["max"] + 1)) and rec.trainer.epoch == r["max"], "without an evaluator every epoch is run and the last state kept")
        check(rec.learnt_config.get("train_epochs") in (None, r["max"]), lambda: f"after {r['max']} epochs without validation the model reports {rec.learnt_config}, the outcome of an earlier run")


def strategy_ials():
    from vlib.recs import S
    return st.fixed_dictionaries({**CFG, "max": st.integers(1, 10), "val": st.integers(1, 3), "X": mat(12, 12, min_rows=2, min_cols=2), "seed": st.integers(0, 99), "solver": S(["CG", "CHOLESKY", "IALSPP"]),
                                  "K": st.integers(1, 4), "feat": S(["", "u", "i", "ui"]), "warm": st.integers(0, 2)})


def run_ials(c, ctx):
    from irspack import IALSRecommender
    X = build(c["X"])
    F = np.random.RandomState(c["seed"]).normal(size=(X.shape[0], 2)) if "u" in c["feat"] and c["solver"] != "IALSPP" else None
    G = np.random.RandomState(c["seed"] + 1).normal(size=(X.shape[1], 2)) if "i" in c["feat"] and c["solver"] != "IALSPP" else None
    kw = dict(n_components=c["K"], alpha0=0.1, reg=0.1, solver_type=c["solver"], random_seed=c["seed"], n_threads=1, init_std=0.5)
    if F is not None:
        kw.update(user_features=F, lambda_user_feature=1.0, feature_warmup_epochs=c["warm"])
    if G is not None:
        kw.update(item_features=G, lambda_item_feature=1.0, feature_warmup_epochs=c["warm"])
    rec = IALSRecommender(X, **kw)
    count = [0]
    orig = rec.run_epoch
    rec.run_epoch = lambda: (orig(), count.__setitem__(0, count[0] + 1))
    users = np.arange(X.shape[0])
    snaps = {}

    def epoch_of(q):
        snaps[count[0]] = np.array(q.get_score(users))
        return count[0]

    def on_done(q):
        got = np.array(q.get_score(users))
        _, best, _, _, _ = model(c)
        return {"epochs": count[0], "state": best if best is not None and np.array_equal(got, snaps.get(best)) else -1}

    best = one(c, rec, epoch_of, on_done, ctx)
    if best is not None:
        ref = IALSRecommender(X, **{**kw, **rec.learnt_config}).learn()
        a, b = np.array(rec.get_score(users)), np.array(ref.get_score(users))
        check(np.array_equal(a, b), lambda: f"a model trained for the reported {best} epochs scores differently (max difference {np.abs(a - b).max()})")
        blk = np.array(rec.get_score_block(0, X.shape[0]))
        check(np.allclose(blk, a, atol=1e-4 * (np.abs(a).max() + 1e-3)), "block scores are not those of the restored state")
        if F is not None:
            w1, w2 = np.array(rec.trainer.core_trainer.user_feature_weight), np.array(ref.trainer.core_trainer.user_feature_weight)
            check(np.array_equal(w1, w2), "the feature weights were not restored to the best state")
            e1, e2 = rec.get_score_cold_user_from_features(F[:2]), ref.get_score_cold_user_from_features(F[:2])
            check(np.allclose(e1, e2, atol=1e-5 * (np.abs(e2).max() + 1e-3)), "feature-based scores are not those of the best state")
        if G is not None:
            w1, w2 = np.array(rec.trainer.core_trainer.item_feature_weight), np.array(ref.trainer.core_trainer.item_feature_weight)
            check(np.array_equal(w1, w2), "the item feature weights were not restored to the best state")
            e1, e2 = rec.get_score_from_item_features(users, G[:2]), ref.get_score_from_item_features(users, G[:2])
            check(np.allclose(e1, e2, atol=1e-5 * (np.abs(e2).max() + 1e-3)), "item-feature-based scores are not those of the best state")
        N = X[:1]
        check(np.allclose(rec.get_score_cold_user(N), ref.get_score_cold_user(N), rtol=1e-4, atol=1e-4 * (np.abs(a).max() + 1e-3)), "new-user scores are not those of the best state")


FACETS = [Facet("loop", strategy_fake, run_fake, quick=700, thorough=25000, shards=4),
          Facet("als", strategy_ials, run_ials, quick=200, thorough=6000, shards=4)]
