"""P26: the news-dataset (MIND) reader."""
import json
import tempfile
from pathlib import Path
from zipfile import ZipFile

import numpy as np
import pandas as pd

from vlib.gen import st
from vlib.harness import Facet, Violation, check
from checks.p25 import eq

PROPERTY, NATIVE, BARE = "P26", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 4  # multiplies the quick case counts
RULE = ("generated train/dev archives: 1-8 impressions per split (1-9 candidates, any label pattern, ids containing hyphens, same users and same impression numbers in both splits, empty histories, all 24 hours on the 12-hour clock), 1-8 articles "
        "(titles/abstracts with quotation marks, commas, missing-value look-alikes, empty fields, non-ASCII text, entity JSON), articles repeated within and across splits, embeddings of 1-5 dimensions, members at the root or in a folder, decoy members; "
        "plus malformed timestamps / entity data / ambiguous archives, which must be refused; oracle: the generated records; non-trivial: >= 2 impressions with >= 2 candidates each, or >= 2 articles with special text")
ASSUMPTIONS = ["user and article ids start with a letter U or N, as the dataset documents", "impression ids are unique within a split", "every impression lists at least one candidate", "an empty metadata field reads as missing", "text fields contain no tab or line break"]
I = st.integers
NID = st.one_of(st.builds(lambda k: f"N{k}", I(0, 12)), st.sampled_from(["N-1-0", "N1-", "N2-1", "Nan"]))
UID = st.one_of(st.builds(lambda k: f"U{k}", I(0, 5)), st.sampled_from(["U-1", "U00"]))
TEXT = st.one_of(st.text(st.sampled_from(list("ab Z'\",:.-!?&é日#01(|")), max_size=14), st.sampled_from(["", "NA", "None", "null", "nan", "N/A", '"Quoted" start', '"', '"a" "b', "1.0", "007", "TRUE", "-"]))
ENT = st.one_of(st.sampled_from(["", "[]"]), st.lists(st.fixed_dictionaries({"Label": TEXT, "WikidataId": st.builds(lambda k: f"Q{k}", I(1, 99)), "Confidence": st.sampled_from([1.0, 0.5]), "OccurrenceOffsets": st.lists(I(0, 9), max_size=2)}), max_size=2))
BEH = st.fixed_dictionaries({"u": UID, "t": st.tuples(I(1, 12), I(1, 28), I(2018, 2020), I(0, 23), I(0, 59), I(0, 59)), "h": st.lists(NID, max_size=4), "c": st.lists(st.tuples(NID, I(0, 1)), min_size=1, max_size=9)})
NEWS = st.fixed_dictionaries({"id": NID, "cat": st.sampled_from(["news", "sports", "NA"]), "sub": st.sampled_from(["world", "null", ""]), "title": TEXT, "abs": TEXT, "url": st.sampled_from(["https://assets.msn.com/labs/mind/AAGH0ET.html", ""]), "te": ENT, "ae": ENT})


def split_s():
    return st.fixed_dictionaries({"b": st.lists(BEH, min_size=1, max_size=8), "n": st.lists(NEWS, min_size=1, max_size=8), "dim": I(1, 5), "e": I(1, 6), "first": I(0, 9), "folder": st.booleans(), "pad": st.booleans(), "nl": st.booleans()})


def strategy():
    return st.fixed_dictionaries({"train": split_s(), "dev": split_s(), "s": I(0, 999), "order": st.permutations(["beh", "imp", "int", "news", "emb"]), "bad": st.sampled_from([None] * 6 + ["time", "time2", "entity", "json", "twice", "absent"]), "bsplit": st.sampled_from(["train", "dev"])})


def stamp(t, pad):
    mo, d, y, h, mi, s = t
    h12 = h % 12 or 12
    return (f"{mo:02d}/{d:02d}/{y} {h12:02d}" if pad else f"{mo}/{d}/{y} {h12}") + f":{mi:02d}:{s:02d} {'AM' if h < 12 else 'PM'}"


def ent_str(e):
    return e if isinstance(e, str) else json.dumps(e)


def emb(c, split, which):
    rng = np.random.RandomState(c["s"] + (7 if split == "dev" else 0) + (3 if which == "r" else 0))
    k = c[split]["e"]
    ids = [f"{'P' if which == 'r' else 'Q'}{x}" for x in rng.permutation(50)[:k]]
    return ids, np.round(rng.normal(size=(k, c[split]["dim"])), 6)


def write(path, c, split, bad):
    s = c[split]
    rows = []
    for k, b in enumerate(s["b"]):
        t = stamp(b["t"], s["pad"])
        if bad == "time" and k == len(s["b"]) - 1:
            t = "not a time"
        if bad == "time2" and k == len(s["b"]) - 1:
            t = f"13/{b['t'][1]}/2019 8:00:00 AM"
        rows.append("\t".join([str(s["first"] + k), b["u"], t, " ".join(b["h"]), " ".join(f"{i}-{l}" for i, l in b["c"])]))
    news = []
    for k, n in enumerate(s["n"]):
        te = ent_str(n["te"])
        if k == 0 and bad == "entity":
            te = '{"Label": "x"}'
        if k == 0 and bad == "json":
            te = '[{"Label": '
        news.append("\t".join([n["id"], n["cat"], n["sub"], n["title"], n["abs"], n["url"], te, ent_str(n["ae"])]))
    pre = f"MINDsmall_{split}/" if s["folder"] else ""
    with ZipFile(path, "w") as z:
        def put(name, lines):
            z.writestr(pre + name, ("\n".join(lines) + ("\n" if s["nl"] else "")).encode("utf-8"))
        if bad != "absent":
            put("behaviors.tsv", rows)
        if bad == "twice":
            z.writestr("a/news.tsv", "x")
            z.writestr("b/news.tsv", "x")
        else:
            put("news.tsv", news)
        z.writestr("old_news.tsv", "decoy\n")
        for which, name in (("e", "entity_embedding.vec"), ("r", "relation_embedding.vec")):
            ids, M = emb(c, split, which)
            put(name, ["\t".join([i] + [f"{x:.6f}" for x in v]) + ("\t" if False else "") for i, v in zip(ids, M)])


def run(c, ctx):
    from irspack.dataset import MINDDataManager
    with tempfile.TemporaryDirectory() as d:
        paths = {s: Path(d) / f"{s}.zip" for s in ("train", "dev")}
        for s in paths:
            write(paths[s], c, s, c["bad"] if s == c["bsplit"] else None)
        with MINDDataManager(paths["train"], str(paths["dev"])) as dm:
            if c["bad"]:
                return refused(dm, c, ctx)
            for what in c["order"]:
                {"beh": check_beh, "imp": check_imp, "int": check_int, "news": check_news, "emb": check_emb}[what](dm, c)
    ctx.nt(sum(len(b["c"]) >= 2 for s in ("train", "dev") for b in c[s]["b"]) >= 2 and any(ch in n["title"] + n["abs"] for s in ("train", "dev") for n in c[s]["n"] for ch in "\"',é日#"))
    ctx.tag("folder" if c["train"]["folder"] else "root")


def refused(dm, c, ctx):
    s, bad = c["bsplit"], c["bad"]
    fs = {"time": [dm.read_behaviors, dm.read_impressions, dm.read_interaction], "time2": [dm.read_behaviors, dm.read_impressions, dm.read_interaction], "absent": [dm.read_behaviors, dm.read_impressions], "twice": [dm.read_item_info], "entity": [dm.read_item_info], "json": [dm.read_item_info]}[bad]
    other = "dev" if s == "train" else "train"
    for f in fs:
        for arg in [s] + ([None] if f != dm.read_behaviors else []):
            if bad in ("entity", "json") and arg is None and s == "dev" and c["dev"]["n"][0]["id"] in {n["id"] for n in c["train"]["n"]}:
                continue
            try:
                f(arg)
            except Exception:
                pass
            else:
                raise Violation(f"{f.__name__}({arg!r}) accepted an archive with malformed content ({bad})")
        f(other)  # the other archive stays readable
    ctx.tag("refused:" + bad)


def when(t):
    mo, d, y, h, mi, s = t
    return pd.Timestamp(year=y, month=mo, day=d, hour=h, minute=mi, second=s)


def none(x):
    return x if x else None


def check_beh(dm, c):
    for s in ("train", "dev"):
        df = dm.read_behaviors(s)
        B = c[s]["b"]
        check(len(df) == len(B), lambda: f"{len(df)} behaviours read, {len(B)} recorded")
        eq(df["impression_id"], [c[s]["first"] + k for k in range(len(B))], "impression_id")
        eq(df["user_id"], [b["u"] for b in B], "behaviour user_id")
        eq(df["timestamp"], [when(b["t"]) for b in B], "behaviour timestamp")
        eq(df["history"], [none(" ".join(b["h"])) for b in B], "history")
        eq(df["impressions"], [" ".join(f"{i}-{l}" for i, l in b["c"]) for b in B], "impressions")
    d2 = dm.read_behaviors()
    eq(d2["user_id"], [b["u"] for b in c["train"]["b"]], "read_behaviors() default split")


def rows(c, splits):
    return [(c[s]["first"] + k, b["u"], when(b["t"]), i, bool(l), p, s) for s in splits for k, b in enumerate(c[s]["b"]) for p, (i, l) in enumerate(b["c"])]


def compare(df, want, cols, what):
    check(set(df.columns) == set(cols), lambda: f"{what} columns {list(df.columns)}")
    check(list(df.index) == list(range(len(df))), f"{what}: row labels are not consecutive")
    names = ["impression_id", "user_id", "timestamp", "item_id", "clicked", "position", "split"]
    for j, col in enumerate(names):
        if col in cols:
            eq(df[col], [w[j] for w in want], f"{what} {col}")


ALL = ["impression_id", "user_id", "timestamp", "item_id", "clicked", "position", "split"]


def check_imp(dm, c):
    for arg, splits in ((None, ("train", "dev")), ("train", ("train",)), ("dev", ("dev",))):
        want = rows(c, splits)
        compare(dm.read_impressions(arg), want, ALL, "impressions")
        compare(dm.read_impressions(arg, clicked_only=True), [w for w in want if w[4]], ALL, "clicked impressions")


def check_int(dm, c):
    for arg, splits in ((None, ("train", "dev")), ("train", ("train",)), ("dev", ("dev",))):
        compare(dm.read_interaction(arg), [w for w in rows(c, splits) if w[4]], ["impression_id", "user_id", "timestamp", "item_id", "split"], "interactions")


def check_news(dm, c):
    for arg, splits in ((None, ("train", "dev")), ("train", ("train",)), ("dev", ("dev",))):
        for parse in (True, False):
            df = dm.read_item_info(arg, parse_entities=parse)
            want, seen = [], set()
            for s in splits:
                for n in c[s]["n"]:
                    if n["id"] not in seen:
                        seen.add(n["id"])
                        want.append(n)
            eq(df.index, [n["id"] for n in want], "article id")
            for col, k in (("category", "cat"), ("subcategory", "sub"), ("title", "title"), ("abstract", "abs"), ("url", "url")):
                eq(df[col], [none(n[k]) for n in want], f"article {col}")
            for col, k in (("title_entities", "te"), ("abstract_entities", "ae")):
                if parse:
                    eq(df[col], [[] if isinstance(n[k], str) else n[k] for n in want], f"article {col}")
                else:
                    eq(df[col], [none(ent_str(n[k])) for n in want], f"article {col}")


def check_emb(dm, c):
    for s in ("train", "dev"):
        for which, f, name in (("e", dm.read_entity_embeddings, "entity_id"), ("r", dm.read_relation_embeddings, "relation_id")):
            ids, M = emb(c, s, which)
            df = f(s)
            eq(df.index, ids, "embedding id")
            check(df.index.name == name and list(df.columns) == [f"embedding_{i}" for i in range(M.shape[1])], "embedding labels")
            check(df.to_numpy().dtype == np.float32 and np.array_equal(df.to_numpy(), M.astype(np.float32)), lambda: f"embedding values {df.to_numpy().tolist()}, stored {M.tolist()}")
    eq(dm.read_entity_embeddings().index, emb(c, "train", "e")[0], "default split")


def arg_strategy():
    return st.fixed_dictionaries({"split": st.sampled_from(["", "test", "Train", "valid", "dev ", "all"]), "size": st.sampled_from(["", "tiny", "Small", "demo"]), "src": st.sampled_from(["", "s3", "Azure", "hf"])})


def run_arg(c, ctx):
    from irspack.dataset import MINDDataManager
    base = {"b": [{"u": "U1", "t": (1, 1, 2019, 0, 0, 0), "h": [], "c": [("N1", 1)]}], "n": [{"id": "N1", "cat": "a", "sub": "b", "title": "t", "abs": "", "url": "", "te": "", "ae": ""}], "dim": 1, "e": 1, "first": 1, "folder": False, "pad": False, "nl": True}
    with tempfile.TemporaryDirectory() as d:
        paths = {s: Path(d) / f"{s}.zip" for s in ("train", "dev")}
        for s in paths:
            write(paths[s], {"train": base, "dev": base, "s": 0}, s, None)
        with MINDDataManager(paths["train"], paths["dev"]) as dm:
            for f in (dm.read_behaviors, dm.read_impressions, dm.read_interaction, dm.read_item_info, dm.read_entity_embeddings, dm.read_relation_embeddings):
                try:
                    f(c["split"])
                except ValueError:
                    continue
                raise Violation(f"{f.__name__} accepted the split {c['split']!r}")
        for kw in ({"size": c["size"]}, {"download_source": c["src"]}):
            try:
                MINDDataManager(paths["train"], paths["dev"], **kw)
            except ValueError:
                continue
            raise Violation(f"accepted {kw}")
    ctx.nt(True)


FACETS = [Facet("archive", strategy, run, quick=400, thorough=6000, shards=4), Facet("arguments", arg_strategy, run_arg, quick=20, thorough=100)]
