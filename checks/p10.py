"""P10: masking and recommendable restrictions are honoured in evaluation."""
import numpy as np

from vlib.evalgen import RESTRICT, SCORE, Model, expected, restriction, score_array, truth
from vlib.gen import as_format, build, mat, snapshot, st
from vlib.harness import Facet, check
from vlib.metrics import differs

PROPERTY, NATIVE, BARE = "P10", ("_core_evaluator",), True
EFFORT = 15  # multiplies the quick case counts
RULE = ("random truth x scores x training matrix x optional explicit mask x global / per-user recommendable items (lists or sparse, unsorted, empty) x "
        "offset x mini-batch; non-trivial: at least one masked or non-recommendable entry would otherwise have been recommended")


def strategy():
    return st.fixed_dictionaries({
        "G": truth(14, 12), "S": SCORE, "X": mat(1, 1), "R": RESTRICT, "mask": st.sampled_from([None, "csr", "csc", "lil", "zeros"]),
        "offset": st.integers(0, 5), "after": st.integers(0, 3), "cut": st.integers(1, 12), "mb": st.sampled_from([1, 2, 3, 5, 100]),
        "rwc": st.booleans(), "block": st.booleans(), "threads": st.sampled_from([1, 3])})


def run(c, ctx):
    from irspack.evaluation import Evaluator
    G = build(c["G"])
    m, n = G.shape
    N = c["offset"] + m + c["after"]
    S = score_array(c["S"], N, n)
    X = build({**c["X"], "m": N, "n": n, "d": min(c["X"]["d"], 7)})
    kw, cand, n_rec = restriction(c["R"], m, n)
    M = None
    if c["mask"]:
        M = build({**c["X"], "m": m, "n": n, "d": (c["X"]["d"] + 3) % 8, "s": c["X"]["s"] + 7})
        if c["mask"] == "zeros" and M.nnz:
            M.data[::2] = 0.0  # stored zeros do not mask
        M = as_format(M, c["mask"]) if c["mask"] != "zeros" else M
    arg = {k: ([list(x) for x in v] if isinstance(v, list) and v and isinstance(v[0], list) else v) for k, v in kw.items()}
    ev = Evaluator(G, offset=c["offset"], cutoff=min(c["cut"], n), n_threads=c["threads"], mb_size=c["mb"],
                   masked_interactions=M, recall_with_cutoff=c["rwc"], **arg)
    for k in arg:
        if isinstance(arg[k], list):
            check(arg[k] == kw[k], "the caller's list was modified")
    hidden = (M.toarray() if M is not None else X[c["offset"]: c["offset"] + m].toarray()) != 0
    T = S[c["offset"]: c["offset"] + m].copy()
    T0 = T.copy()
    T[hidden] = -np.inf
    cut = min(c["cut"], n)
    want = expected(T, G.toarray(), cut, cand, n_rec, c["rwc"])
    model = Model(X, S, block=c["block"])
    got = ev.get_score(model)
    bad = differs(got, want)
    check(not bad, lambda: f"{bad}\nscores {T.tolist()}\ncandidates {cand}\ntruth {G.toarray().tolist()}")
    # an evaluator has no memory: another model (other training data of the same size, other scores), then the first one again
    X2 = X[np.random.RandomState(c["X"]["s"]).permutation(N)]
    S2 = S[::-1].copy()
    T2 = S2[c["offset"]: c["offset"] + m].copy()
    T2[hidden if M is not None else X2[c["offset"]: c["offset"] + m].toarray() != 0] = -np.inf
    bad = differs(ev.get_score(Model(X2, S2, block=c["block"])), expected(T2, G.toarray(), cut, cand, n_rec, c["rwc"]))
    check(not bad, lambda: f"second model of the same evaluator: {bad}")
    bad = differs(ev.get_score(model), want)
    check(not bad, lambda: f"first model evaluated again: {bad}")
    # the same exclusions as -inf scores in an unrestricted evaluator give the same accuracy
    if cand is not None:
        U = np.full_like(T, -np.inf)
        D = np.zeros_like(G.toarray())
        for u in range(m):
            U[u, cand[u]] = T[u, cand[u]]
            D[u, cand[u]] = G.toarray()[u, cand[u]]
        import scipy.sparse as sps
        plain = Evaluator(sps.csr_matrix(D), cutoff=cut, n_threads=1, recall_with_cutoff=c["rwc"]).get_score_from_score_matrix(U)
        bad = differs(plain, want, ["hit", "recall", "ndcg", "map", "precision", "appeared_item", "entropy", "gini_index", "valid_user"])
        check(not bad, lambda: f"restriction by -inf differs: {bad}")
    # matrix entry point: only an explicit mask applies
    V = T0.copy()
    if M is not None:
        V[hidden] = -np.inf
    bad = differs(ev.get_score_from_score_matrix(T0), expected(V, G.toarray(), cut, cand, n_rec, c["rwc"]))
    check(not bad, lambda: f"score matrix: {bad}")
    free = expected(T0, G.toarray(), cut)
    ctx.nt(any(abs(free[k] - want[k]) > 1e-12 for k in ("ndcg", "hit", "entropy", "recall")))
    ctx.tag(c["R"]["kind"], f"mask_{c['mask']}")


FACETS = [Facet("restricted", strategy, run, quick=800, thorough=25000, shards=4)]
