"""P25: rating-dataset readers return exactly the archived records."""
import builtins
import csv
import io
import math
import re
import tempfile
from pathlib import Path
from zipfile import ZIP_DEFLATED, ZIP_STORED, ZipFile

import numpy as np
import pandas as pd

from vlib.gen import st
from vlib.harness import Facet, Violation, check

PROPERTY, NATIVE, BARE = "P25", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 11  # multiplies the quick case counts
RULE = ("generated archives of every supported format (MovieLens 100K / 1M / 20M, NeuMF splits, CiteULike-a, Amazon music): 1-12 records per file, ids up to 10^9, timestamps 0..2^33, titles with quotes, commas, colons, apostrophes, "
        "Latin-1 letters, zip codes with leading zeros / letters / hyphens, numeric-looking product ids, files larger than a parser chunk, with and without a final newline; oracle: the generated records themselves; "
        "non-trivial: at least 3 records and one field with special characters or a leading zero")
ASSUMPTIONS = ["files hold at least one record", "genre names of MovieLens 100K contain no white space", "a MovieLens title is not a bare missing-value marker (it carries a year, or is 'unknown')",
               "Amazon timestamps are returned as recorded (seconds)", "NeuMF test users have at least one negative item; an item listed twice for a user is kept once, as positive if it is the positive"]
I = st.integers
TS = st.one_of(I(0, 2**31), I(2**31, 2**33), st.sampled_from([0, 1, 59, 86399, 86400, 978302268]))
ID = st.one_of(I(1, 30), I(1, 10**9))
WORD = st.text(st.sampled_from(list("ab Z'\",:.-!?&éÜ#01(")), min_size=0, max_size=12)
ZIP = st.one_of(st.text("0123456789", min_size=5, max_size=5), st.sampled_from(["00000", "01234", "T8H1N", "98107-2117", "V5A2B", "02139", "00501"]))


def title(w, year, tag=""):
    """what a format-conforming title looks like"""
    w = re.sub(":+", ":", w).strip(" :").replace("|", " ").strip()
    return f"{w or 'x'} ({year})" if year else f"{w or 'x'}{tag}"


def eq(got, want, what):
    got = list(got)
    check(len(got) == len(want), lambda: f"{what}: {len(got)} values for {len(want)} records")
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            ok = g is None or g is pd.NaT or (isinstance(g, float) and math.isnan(g))
        elif isinstance(w, str):
            ok = isinstance(g, str) and g == w
        elif isinstance(w, pd.Timestamp):
            ok = pd.Timestamp(g) == w
        elif isinstance(w, (list, dict)):
            ok = g == w
        else:
            ok = not isinstance(g, str) and g == w
        check(ok, lambda: f"{what}: record {i} reads {g!r}, the archive says {w!r}")


def when(t):
    return pd.Timestamp(0) + pd.Timedelta(seconds=t)


def archive(d, files, comp, newline):
    p = Path(d) / "data.zip"
    with ZipFile(p, "w", compression=ZIP_DEFLATED if comp else ZIP_STORED) as z:
        for k, v in files.items():
            if isinstance(v, str):
                v = v.encode("latin-1")
            if newline and not v.endswith(b"\n"):
                v += b"\n"
            z.writestr(k, v)
    return p


def no_input(*a):
    raise Violation("asked a question although the archive exists")


class Managed:
    def __init__(self, cls, c, files):
        self.cls, self.c, self.files = cls, c, files

    def __enter__(self):
        self.d = tempfile.TemporaryDirectory()
        p = archive(self.d.name, self.files, self.c["comp"], self.c["nl"])
        self.bytes, self.p = p.read_bytes(), p
        old, builtins.input = builtins.input, no_input
        try:
            self.dm = self.cls(str(p) if self.c["comp"] else p)
        finally:
            builtins.input = old
        return self.dm

    def __exit__(self, *a):
        same = self.p.read_bytes() == self.bytes
        self.dm.zf.close()
        self.d.cleanup()
        if a[0] is None:
            check(same, "reading modified the archive")


BASE = {"comp": st.booleans(), "nl": st.booleans()}


def inter(r=I(1, 5), lo=1):
    return st.lists(st.tuples(ID, ID, r, TS), min_size=lo, max_size=12)


def special(*xs):
    return any(any(ch in x for ch in "'\",:#éÜ&") or x[:1] == "0" for x in xs)


def check_inter(df, rows, cols, times=True, key=int):
    check(list(df.columns) == cols, lambda: f"columns {list(df.columns)}, expected {cols}")
    for j, c in enumerate(cols):
        eq(df[c], [when(r[j]) if (c == "timestamp" and times) else r[j] for r in rows], c)


# ---------------------------------------------------------------- MovieLens
def s100k():
    user = st.tuples(I(1, 99), st.sampled_from("MF"), st.sampled_from(["technician", "none", "other", "writer"]), ZIP)
    item = st.tuples(WORD, st.one_of(st.none(), I(1900, 2020)), st.one_of(st.none(), st.tuples(I(1, 28), I(1, 12), I(1922, 1998))), WORD, I(0, 2**6 - 1))
    return st.fixed_dictionaries({**BASE, "x": inter(), "u": st.lists(user, min_size=1, max_size=8), "i": st.lists(item, min_size=1, max_size=8), "g": I(1, 6), "s": I(0, 99)})


GENRES = ["unknown", "Action", "Children's", "Film-Noir", "Sci-Fi", "Western"]
MONTH = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def r100k(c, ctx):
    from irspack.dataset import MovieLens100KDataManager
    rng = np.random.RandomState(c["s"])
    uid = [int(x) for x in rng.permutation(50)[: len(c["u"])] + 1]
    iid = [int(x) for x in rng.permutation(50)[: len(c["i"])] + 1]
    G = GENRES[: c["g"]]
    items = []
    for k, (w, y, d, url, g) in enumerate(c["i"]):
        t = title(w, y) if y else ("unknown" if k % 2 else title(w, 1990))
        items.append((iid[k], t, d, f"http://us.imdb.com/M/title-exact?{url.strip().replace('|', '')}x", [(g >> j) & 1 for j in range(len(G))]))
    fmt = lambda d: "" if d is None else f"{d[0]:02d}-{MONTH[d[1] - 1]}-{d[2]}"
    files = {"ml-100k/u.data": "\n".join("\t".join(map(str, r)) for r in c["x"]),
             "ml-100k/u.user": "\n".join("|".join(map(str, (k,) + tuple(u))) for k, u in zip(uid, c["u"])),
             "ml-100k/u.genre": "\n".join(f"{g}|{j}" for j, g in enumerate(G)) + "\n\n",
             "ml-100k/u.item": "\n".join("|".join([str(k), t, fmt(d), "", u] + list(map(str, g))) for k, t, d, u, g in items)}
    with Managed(MovieLens100KDataManager, c, files) as dm:
        for _ in range(2):
            check_inter(dm.read_interaction(), c["x"], ["userId", "movieId", "rating", "timestamp"])
            u = dm.read_user_info()
            eq(u.index, uid, "userId")
            for j, col in enumerate(["age", "gender", "occupation", "zipcode"]):
                eq(u[col], [x[j] for x in c["u"]], f"user {col}")
            info, genre = dm.read_item_info()
            eq(info.index, iid, "movieId")
            eq(info["title"], [x[1] for x in items], "title")
            eq(info["release_date"], [None if x[2] is None else pd.Timestamp(x[2][2], x[2][1], x[2][0]) for x in items], "release_date")
            eq(info["URL"], [x[3] for x in items], "URL")
            want = [(k, G[j]) for k, _, _, _, g in items for j in range(len(G)) if g[j]]
            check(not (set(G) & set(info.columns)), "genre flags left in the movie table")
            if want:
                eq(genre["movieId"], [x[0] for x in want], "genre table movieId")
                eq(genre["genre"], [x[1] for x in want], "genre table genre")
            else:
                check(len(genre) == 0, "genre table not empty")
    ctx.nt(len(items) >= 3 and special(*[x[1] for x in items], *[u[3] for u in c["u"]]))


def s1m():
    user = st.tuples(st.sampled_from("MF"), st.sampled_from([1, 18, 25, 56]), I(0, 20), ZIP)
    item = st.tuples(WORD, st.one_of(st.none(), I(1900, 2020)), st.lists(st.sampled_from(GENRES), min_size=1, max_size=3, unique=True))
    return st.fixed_dictionaries({**BASE, "x": inter(), "u": st.lists(user, min_size=1, max_size=8), "i": st.lists(item, min_size=1, max_size=8), "s": I(0, 99)})


def r1m(c, ctx):
    from irspack.dataset import MovieLens1MDataManager
    rng = np.random.RandomState(c["s"])
    uid = [int(x) for x in rng.permutation(50)[: len(c["u"])] + 1]
    iid = [int(x) for x in rng.permutation(50)[: len(c["i"])] + 1]
    items = [(k, title(w, y, "_") if y else title(w, None, "_"), "|".join(g), y) for k, (w, y, g) in zip(iid, c["i"])]
    files = {"ml-1m/ratings.dat": "\n".join("::".join(map(str, r)) for r in c["x"]),
             "ml-1m/users.dat": "\n".join("::".join(map(str, (k,) + tuple(u))) for k, u in zip(uid, c["u"])),
             "ml-1m/movies.dat": "\n".join(f"{k}::{t}::{g}" for k, t, g, _ in items)}
    with Managed(MovieLens1MDataManager, c, files) as dm:
        check_inter(dm.read_interaction(), c["x"], ["userId", "movieId", "rating", "timestamp"])
        u = dm.read_user_info()
        eq(u.index, uid, "userId")
        for j, col in enumerate(["gender", "age", "occupation", "zipcode"]):
            eq(u[col], [x[j] for x in c["u"]], f"user {col}")
        info = dm.read_item_info()
        eq(info.index, iid, "movieId")
        eq(info["title"], [x[1] for x in items], "title")
        eq(info["genres"], [x[2] for x in items], "genres")
        eq(info["release_year"], [x[3] for x in items], "release_year")
    ctx.nt(len(items) >= 3 and special(*[x[1] for x in items], *[u[3] for u in c["u"]]))


def s20m():
    return st.fixed_dictionaries({**BASE, "x": inter(st.sampled_from([0.5, 1.0, 3.5, 5.0]))})


def r20m(c, ctx):
    from irspack.dataset import MovieLens20MDataManager
    files = {"ml-20m/ratings.csv": "userId,movieId,rating,timestamp\n" + "\n".join(",".join(map(str, r)) for r in c["x"])}
    with Managed(MovieLens20MDataManager, c, files) as dm:
        check_inter(dm.read_interaction(), c["x"], ["userId", "movieId", "rating", "timestamp"])
    ctx.nt(len(c["x"]) >= 3)


# ---------------------------------------------------------------- NeuMF
def sneu():
    return st.fixed_dictionaries({**BASE, "x": inter(), "t": st.lists(st.tuples(I(0, 9), I(0, 12), st.lists(I(0, 12), min_size=1, max_size=9)), min_size=1, max_size=8), "sp": st.sampled_from(["", " "]), "which": I(0, 1)})


def rneu(c, ctx):
    from irspack.dataset import NeuMFML1MDownloader, NeuMFMPinterestDownloader
    sp = c["sp"]
    files = {"train": "\n".join("\t".join(map(str, r)) for r in c["x"]), "test": "\n".join(f"({u},{sp}{i}){sp}\t" + "\t".join(map(str, neg)) for u, i, neg in c["t"])}
    with Managed([NeuMFML1MDownloader, NeuMFMPinterestDownloader][c["which"]], c, files) as dm:
        train, test = dm.read_train_test()
    check_inter(train, c["x"], ["user_id", "item_id", "rating", "timestamp"])
    want, seen = [], set()
    for u, i, neg in c["t"]:
        for j, (x, lab) in enumerate([(i, True)] + [(x, False) for x in neg]):
            if (u, x) not in seen:
                seen.add((u, x))
                want.append((u, x, lab))
    check(list(test.columns) == ["user_id", "item_id", "positive"], "columns of the test table")
    eq(test["user_id"], [x[0] for x in want], "test user_id")
    eq(test["item_id"], [x[1] for x in want], "test item_id")
    eq(test["positive"], [x[2] for x in want], "test positive")
    ctx.nt(len(want) >= 3 and len(c["t"]) > 1)


# ---------------------------------------------------------------- CiteULike
def scite():
    return st.fixed_dictionaries({**BASE, "u": st.lists(st.lists(I(0, 10**5), max_size=6), min_size=1, max_size=8), "i": st.lists(st.tuples(WORD, WORD, ID), min_size=1, max_size=6), "s": I(0, 99), "bad": st.sampled_from([None, None, -1, 1])})


def rcite(c, ctx):
    from irspack.dataset import CiteULikeADataManager
    rng = np.random.RandomState(c["s"])
    iid = [int(x) for x in rng.permutation(40)[: len(c["i"])] + 1]
    rows = [(k, f"t{a}\nline" if k % 3 == 0 else f"t{a}", f"b{b}", n) for k, (a, b, n) in zip(iid, c["i"])]
    buf = io.StringIO()
    w = csv.writer(buf, quoting=csv.QUOTE_ALL if c["s"] % 2 else csv.QUOTE_MINIMAL, lineterminator="\n")
    w.writerow(["doc.id", "title", "raw.abstract", "citeulike.id"])
    w.writerows(rows)
    lines = [f"{len(x)} " + " ".join(map(str, x)) for x in c["u"]]
    if c["bad"]:
        lines[-1] = f"{max(0, len(c['u'][-1]) + c['bad'])} " + " ".join(map(str, c["u"][-1]))
    files = {"citeulike-a-master/users.dat": "\n".join(lines), "citeulike-a-master/raw-data.csv": buf.getvalue()}
    with Managed(CiteULikeADataManager, c, files) as dm:
        meta = dm.read_item_meta()
        if c["bad"] and not (c["bad"] < 0 and not c["u"][-1]):
            try:
                dm.read_interaction()
            except Exception:
                df = None
            else:
                raise Violation("a user line whose count contradicts its items was accepted")
        else:
            df = dm.read_interaction()
    if df is not None:
        want = [(u, x) for u, xs in enumerate(c["u"]) for x in xs]
        check(list(df.columns) == ["user_id", "item_id"], "columns")
        eq(df["user_id"], [x[0] for x in want], "user_id")
        eq(df["item_id"], [x[1] for x in want], "item_id")
    eq(meta.index, [k - 1 for k in iid], "document index")
    eq(meta["title"], [r[1] for r in rows], "title")
    eq(meta["raw.abstract"], [r[2] for r in rows], "abstract")
    eq(meta["citeulike.id"], [r[3] for r in rows], "citeulike.id")
    ctx.nt(sum(map(len, c["u"])) >= 3 and special(*[r[1] for r in rows]))


# ---------------------------------------------------------------- Amazon
ASIN = st.sampled_from(["5555991584", "0739079891", "0001393774", "B0000000ZW", "B000QK9TPC", "6308051551", "0000000000"])
AUSER = st.sampled_from(["A2EFCYXHNK06IS", "A1WR23ER5HMAA9", "0123456789", "1E5", "00A", "A0"])


def samz():
    meta = st.fixed_dictionaries({"asin": ASIN, "title": st.one_of(st.none(), WORD), "price": st.one_of(st.none(), st.sampled_from([0.99, 12.5, 3.0])), "cats": st.one_of(st.none(), st.lists(st.lists(WORD, max_size=3), min_size=1, max_size=2)), "more": st.booleans()})
    return st.fixed_dictionaries({**BASE, "x": st.lists(st.tuples(AUSER, ASIN, st.sampled_from([1.0, 4.0, 5.0]), TS), min_size=1, max_size=10), "rep": st.sampled_from([1, 1, 1, 1, 1500]), "m": st.lists(meta, min_size=1, max_size=6), "evil": st.sampled_from([False, False, False, True])})


def ramz(c, ctx):
    from irspack.dataset import AmazonMusicDataManager
    rows = [tuple(r) for r in c["x"][:1] * (c["rep"] * 8 if c["rep"] > 1 else 0) + c["x"]]  # the first kind of id may fill a whole parser chunk
    lines = []
    for m in c["m"]:
        d = {"asin": m["asin"]}
        if m["more"]:
            d["related"] = {"also_bought": ["B01"]}
        if m["title"] is not None:
            d["title"] = m["title"]
        if m["price"] is not None:
            d["price"] = m["price"]
        if m["cats"] is not None:
            d["categories"] = m["cats"]
        lines.append(repr(d))
    files = {"amazon-music/ratings.csv": "\n".join(",".join(map(str, r)) for r in rows), "amazon-music/music-meta.json": ("\n".join(lines)).encode("utf-8")}
    with tempfile.TemporaryDirectory() as d:
        mark = Path(d) / "executed"
        if c["evil"]:
            files["amazon-music/music-meta.json"] += f"\n[open({str(mark)!r}, 'w').close(), {{'asin': 'x'}}][1]".encode()
        with Managed(AmazonMusicDataManager, c, files) as dm:
            check_inter(dm.read_interaction(), rows, ["user_id", "music_id", "rating", "timestamp"], times=False)
            try:
                meta = dm.read_metadata()
            except Exception:
                check(c["evil"], "well-formed metadata was refused")
                meta = None
        check(not mark.exists(), "reading the metadata executed code found in the archive")
    if meta is not None and not c["evil"]:
        eq(meta.index, [m["asin"] for m in c["m"]], "music_id")
        eq(meta["title"], [m["title"] for m in c["m"]], "title")
        eq(meta["price"], [m["price"] for m in c["m"]], "price")
        eq(meta["categories"], [None if m["cats"] is None else m["cats"][0] for m in c["m"]], "categories")
    ctx.nt(len(rows) >= 3 and any(r[1][0] == "0" for r in rows))
    ctx.tag("large" if c["rep"] > 1 else "small", "evil" if c["evil"] else "data")


FACETS = [
    Facet("ml100k", s100k, r100k, quick=150, thorough=3000), Facet("ml1m", s1m, r1m, quick=150, thorough=3000), Facet("ml20m", s20m, r20m, quick=60, thorough=800), Facet("neumf", sneu, rneu, quick=120, thorough=2000),
    Facet("citeulike", scite, rcite, quick=150, thorough=3000), Facet("amazon", samz, ramz, quick=150, thorough=3000),
]
