"""P08: ranking metrics equal their definitions for every score and truth."""
import numpy as np
import scipy.sparse as sps

from vlib.evalgen import SCORE, Model, expected, score_array, truth
from vlib.gen import build, st
from vlib.harness import Facet, check
from vlib.metrics import differs

PROPERTY, NATIVE, BARE = "P08", ("_core_evaluator",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random ground truths (empty users, full users, 1-14 or 60 items) x score matrices (ties, constants, -inf rows, float32/64) x cutoffs x "
        "recall definition, against an independent per-user reference; non-trivial: 0 < hit < 1 or 0 < ndcg < 1")
KEYS = ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage"]


def strategy():
    return st.fixed_dictionaries({"G": truth(), "wide": st.sampled_from([False, False, False, True]), "S": SCORE,
                                  "cutoffs": st.lists(st.integers(1, 14), min_size=1, max_size=4),
                                  "rwc": st.booleans(), "threads": st.sampled_from([1, 2, 4]), "fmt": st.sampled_from(["csr", "csc"]),
                                  "metric": st.sampled_from(["ndcg", "recall", "hit", "map", "precision"])})


def run(c, ctx):
    from irspack.evaluation import Evaluator
    G = build({**c["G"], "n": 60} if c["wide"] else c["G"])
    m, n = G.shape
    cutoffs = [min(k, n) for k in c["cutoffs"]]
    S = score_array(c["S"], m, n)
    D = G.toarray()
    ev = Evaluator(G.asformat(c["fmt"]), cutoff=cutoffs[0], n_threads=c["threads"], recall_with_cutoff=c["rwc"], target_metric=c["metric"])
    want = {k: expected(S, D, k, rwc=c["rwc"]) for k in cutoffs}
    got = ev.get_score_from_score_matrix(S)
    bad = differs(got, want[cutoffs[0]])
    check(not bad, lambda: f"cutoff {cutoffs[0]}: {bad}\nscores {S.tolist()}\ntruth {D.tolist()}")
    many = ev.get_scores_from_score_matrix(S, cutoffs)
    check(set(many) == {f"{k}@{q}" for k in KEYS for q in cutoffs}, f"metric names {sorted(many)}")
    for q in cutoffs:
        bad = differs({k: many[f"{k}@{q}"] for k in KEYS}, want[q], KEYS)
        check(not bad, lambda: f"cutoff {q}: {bad}\nscores {S.tolist()}\ntruth {D.tolist()}")
    model = Model(sps.csr_matrix((m, n)), S)
    bad = differs(ev.get_score(model), want[cutoffs[0]])
    check(not bad, lambda: f"model evaluation, cutoff {cutoffs[0]}: {bad}")
    check(abs(ev.get_target_score(model) - want[cutoffs[0]][c["metric"]]) < 1e-9, "target score")
    many = ev.get_scores(model, cutoffs)
    for q in cutoffs:
        bad = differs({k: many[f"{k}@{q}"] for k in KEYS}, want[q], KEYS)
        check(not bad, lambda: f"model evaluation, cutoff {q}: {bad}")
    ctx.nt(0 < got["ndcg"] < 1 or 0 < got["hit"] < 1)
    ctx.tag(c["S"]["kind"], "rwc" if c["rwc"] else "recall")


FACETS = [Facet("definitions", strategy, run, quick=900, thorough=30000, shards=4)]
