"""P09: evaluation results do not depend on how the work is scheduled."""
import numpy as np
import scipy.sparse as sps

from vlib.evalgen import RESTRICT, SCORE, Model, expected, restriction, score_array, truth
from vlib.gen import build, mat, snapshot, st
from vlib.harness import Facet, check
from vlib.metrics import differs

PROPERTY, NATIVE, BARE = "P09", ("_core_evaluator",), True
EFFORT = 13  # multiplies the quick case counts
RULE = ("histories of 1-5 evaluations on one evaluator (1-40 or 150 users) mixing model / matrix / chunk-stream entry points, mini-batch sizes, random chunk "
        "partitions (empty chunks, mixed float32/float64, strided or Fortran blocks), thread counts 1-9, user offsets and block/no-block models; "
        "non-trivial: at least two batches or chunks and a non-zero metric")


def strategy():
    step = st.fixed_dictionaries({
        "how": st.sampled_from(["model", "model_noblock", "model_wide", "matrix", "chunks"]),
        "cutoffs": st.lists(st.integers(1, 12), min_size=1, max_size=3), "S": st.integers(0, 1), "p": st.integers(0, 10**6)})
    return st.fixed_dictionaries({
        "G": truth(40, 12), "big": st.sampled_from([False, False, False, False, True]), "A": SCORE, "B": SCORE, "X": mat(1, 1),
        "R": RESTRICT, "offset": st.integers(0, 4), "after": st.integers(0, 3), "mask": st.booleans(),
        "mb": st.sampled_from([1, 2, 3, 7, 16, 128, 1000]), "threads": st.sampled_from([1, 2, 3, 9]),
        "steps": st.lists(step, min_size=1, max_size=5)})


def run(c, ctx):
    from irspack.evaluation import Evaluator
    G = build({**c["G"], "m": 150} if c["big"] else c["G"])
    m, n = G.shape
    D = G.toarray()
    N = c["offset"] + m + c["after"]
    arrays = [score_array(c["A"], N, n), score_array(c["B"], N, n)]
    X = build({**c["X"], "m": N, "n": n, "d": min(c["X"]["d"], 5)})
    M = build({**c["X"], "m": m, "n": n, "d": 3, "s": c["X"]["s"] + 1}) if c["mask"] else None
    kw, cand, n_rec = restriction(c["R"], m, n)
    cut0 = 1 + c["X"]["s"] % n
    ev = Evaluator(G, offset=c["offset"], cutoff=cut0, n_threads=c["threads"], mb_size=c["mb"], masked_interactions=M, **kw)
    frozen = [snapshot(G), snapshot(X)] + ([snapshot(M)] if c["mask"] else [])
    for k, s in enumerate(c["steps"]):
        S = arrays[s["S"]]
        before = S.copy()
        cut = [min(q, n) for q in s["cutoffs"]]
        rng = np.random.RandomState(s["p"])
        T = S[c["offset"]: c["offset"] + m].copy()
        hidden = X[c["offset"]: c["offset"] + m].toarray() != 0
        if s["how"].startswith("model"):
            model = Model(X, S, block=s["how"] != "model_noblock", view="wide" if s["how"] == "model_wide" else "copy")
            got = ev.get_scores(model, cut)
            one = ev.get_score(model)
            pieces = -(-m // c["mb"])
            if M is not None:
                hidden = M.toarray() != 0
        else:
            hidden = M.toarray() != 0 if M is not None else np.zeros((m, n), bool)
            if s["how"] == "matrix":
                A = T.copy() if rng.uniform() < 0.5 else np.asfortranarray(T)
                got = ev.get_scores_from_score_matrix(A, cut)
                one = ev.get_score_from_score_matrix(A)
                check(np.array_equal(A, T), "the caller's score matrix was modified")
                pieces = -(-m // c["mb"])
            else:
                bounds = sorted(rng.randint(0, m + 1, size=rng.randint(0, 6)).tolist())
                bounds = [0] + bounds + [m]
                chunks = []
                for a, b in zip(bounds, bounds[1:]):
                    blk = T[a:b].copy()
                    r = rng.randint(4)
                    if r == 1:
                        blk = blk.astype(np.float64)
                    elif r == 2:
                        blk = np.asfortranarray(blk)
                    elif r == 3 and b - a:
                        w = np.full((2 * (b - a), n + 2), 5.0, dtype=blk.dtype)
                        w[::2, :n] = blk
                        blk = w[::2, :n]
                    chunks.append(blk)
                saved = [x.copy() for x in chunks]
                got = ev.get_scores_from_score_chunks((x for x in chunks), cut)
                one = ev.get_score_from_score_chunks(list(chunks))
                check(all(np.array_equal(x, y) for x, y in zip(chunks, saved)), "a caller's chunk was modified")
                pieces = len(chunks)
        T[hidden] = -np.inf
        want = expected(T, D, cut0, cand, n_rec)
        check(sum(x in one for x in want) >= 9, f"metric names {sorted(one)}")
        bad = differs(one, want, [x for x in want if x in one])
        check(not bad, lambda: f"step {k} ({s['how']}), default cutoff {cut0}: {bad}")
        for q in cut:
            want = expected(T, D, q, cand, n_rec)
            keys = [x for x in want if f"{x}@{q}" in got]
            check(len(keys) == 9, f"metric names {sorted(got)}")
            bad = differs({x: got[f"{x}@{q}"] for x in keys}, want, keys)
            check(not bad, lambda: f"step {k} ({s['how']}), cutoff {q}: {bad}")
            ctx.nt(pieces > 1 and want["hit"] > 0)
        check(np.array_equal(S, before), "the model's score array was modified")
        ctx.tag(s["how"])
    check([snapshot(G), snapshot(X)] + ([snapshot(M)] if c["mask"] else []) == frozen, "a caller's matrix was modified")


def strategy_merge():
    return st.fixed_dictionaries({"G": truth(20, 10, min_rows=2), "S": SCORE, "cut": st.integers(1, 10), "threads": st.sampled_from([1, 2, 4]),
                                  "mb": st.sampled_from([1, 2, 3, 5, 128]), "quiet": st.integers(0, 3), "h": st.integers(0, 20)})


def run_merge(c, ctx):
    """Splitting users over several evaluators and averaging by user counts agrees with one evaluator."""
    from irspack.evaluation import Evaluator
    G = build(c["G"])
    m, n = G.shape
    D = G.toarray()
    if c["quiet"] == 1:  # whole batches of users without ground truth
        D[m // 2:] = 0
    elif c["quiet"] == 2:
        D[: m // 2] = 0
    elif c["quiet"] == 3:
        D[m // 3: 2 * m // 3 + 1] = 0
    G = sps.csr_matrix(D)
    S = score_array(c["S"], m, n)
    cut = min(c["cut"], n)
    whole = Evaluator(G, cutoff=cut, n_threads=c["threads"], mb_size=c["mb"]).get_score_from_score_matrix(S)
    want = expected(S, D, cut)
    bad = differs(whole, want, list(want))
    check(not bad, lambda: f"differs from the definition: {bad}")
    h = min(c["h"], m)
    parts = [Evaluator(G[a:b], cutoff=cut, n_threads=1).get_score_from_score_matrix(S[a:b]) for a, b in ((0, h), (h, m)) if b > a]
    check(whole["valid_user"] == sum(p["valid_user"] for p in parts) and whole["total_user"] == m == sum(p["total_user"] for p in parts), "user counts")
    for k in ("hit", "recall", "ndcg", "map", "precision"):
        a = whole[k] * whole["valid_user"]
        b = sum(p[k] * p["valid_user"] for p in parts)
        check(abs(a - b) < 1e-8 * (1 + abs(b)), f"{k}: whole {a}, parts {b}")
    perm = np.random.RandomState(c["S"]["s"]).permutation(m)
    again = Evaluator(G[perm], cutoff=cut, n_threads=c["threads"]).get_score_from_score_matrix(S[perm])
    bad = differs(again, whole)
    check(not bad, f"depends on the order of users: {bad}")
    ctx.nt(0 < h < m and whole["hit"] > 0)


FACETS = [Facet("decomposition", strategy, run, quick=400, thorough=12000, shards=4),
          Facet("merge", strategy_merge, run_merge, quick=200, thorough=4000, shards=1)]
