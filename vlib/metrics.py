"""Reference definitions of the ranking metrics, one user at a time."""
import math

import numpy as np


def rank(row, cutoff, candidates=None):
    """Item indices by decreasing score, ties by index; -inf is never ranked."""
    cand = range(len(row)) if candidates is None else sorted(candidates)
    c = [j for j in cand if row[j] != -np.inf]
    c.sort(key=lambda j: (-float(row[j]), j))
    return c[:cutoff]


def metrics(recs, truths, n_items, total_users=None, recall_with_cutoff=False, n_recommendable=None):
    """recs/truths: per-user lists; users with empty truth are only counted."""
    hit = recall = ndcg = ap = prec = 0.0
    valid = 0
    cnt = np.zeros(n_items, dtype=int)
    for rec, gt in zip(recs, truths):
        gt = set(gt)
        if not gt:
            continue
        valid += 1
        k = len(rec)
        if k == 0:
            continue
        hits = [r in gt for r in rec]
        for r in rec:
            cnt[r] += 1
        nh = sum(hits)
        hit += nh > 0
        prec += nh / k
        recall += nh / (min(k, len(gt)) if recall_with_cutoff else len(gt))
        dcg = sum(1 / math.log2(i + 2) for i, h in enumerate(hits) if h)
        idcg = sum(1 / math.log2(i + 2) for i in range(min(k, len(gt))))
        ndcg += dcg / idcg
        ap += sum(sum(hits[: i + 1]) / (i + 1) for i, h in enumerate(hits) if h) / len(gt)
    d = max(valid, 1)
    tot = cnt.sum()
    ent = gini = 0.0
    if tot:
        p = cnt[cnt > 0] / tot
        ent = float(-(p * np.log(p)).sum())
        # mean absolute difference form of the Gini index
        gini = float(np.abs(cnt[:, None] - cnt[None, :]).sum() / (2.0 * n_items * tot))
    app = int((cnt > 0).sum())
    out = {"hit": hit / d, "recall": recall / d, "ndcg": ndcg / d, "map": ap / d, "precision": prec / d,
           "gini_index": gini, "entropy": ent, "appeared_item": app, "valid_user": valid,
           "total_user": len(recs) if total_users is None else total_users, "n_items": n_items}
    if n_recommendable is not None:
        out["catalog_coverage"] = app / n_recommendable if n_recommendable else float("nan")
    return out


def differs(got, want, keys=None, tol=1e-9):
    for k in keys or want:
        if k not in got:
            return f"{k} missing from {sorted(got)}"
        a, b = got[k], want[k]
        if (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(b)):
            continue
        return f"{k}: {a!r}, expected {b!r}"
    return None
