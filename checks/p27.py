"""P27: dataset downloads under faults."""
import builtins
import contextlib
import gzip
import http.client
import io
import os
import resource
import shutil
import tempfile
import urllib.error
import urllib.parse
import urllib.request
from pathlib import Path
from zipfile import ZipFile

import numpy as np

from vlib.gen import st
from vlib.harness import Facet, Violation, check

PROPERTY, NATIVE, BARE = "P27", ("_core_evaluator", "_util_cpp", "_knn", "_ials_core"), False
EFFORT = 3  # multiplies the quick case counts
RULE = ("random histories of 1-4 download attempts per dataset class (MovieLens 100K/1M/20M, CiteULike-a, NeuMF x2, Amazon, MIND small/large from both sources) against a scripted transport below urllib, each attempt with its consent (flag, yes, no, "
        "empty, end of input) and one fault: refused connection, HTTP error status, connection closed or reset after k bytes, keyboard interrupt after k bytes, file-size limit hit after k bytes, process killed after k bytes, in any of the requests of the attempt; "
        "archives absent, present (valid, empty or damaged), or (MIND) one of two present; then a fault-free attempt; oracle: served bytes vs. bytes at the expected path, recorded requests; non-trivial: at least one fault after consent")
ASSUMPTIONS = ["a body without declared length that ends early is indistinguishable from a complete one", "answers other than y/Y/n/N/empty are not classified", "network replaced by a stand-in transport; all files in a scratch directory"]
I = st.integers
FAULT = st.builds(lambda k, f, r, t: {"k": k, "f": f, "r": r, "s": t}, st.sampled_from(["ok", "cut", "reset", "intr", "disk", "crash", "cut", "status", "refuse"]), I(0, 10), I(0, 1), st.sampled_from([401, 403, 404, 409, 500, 503]))
ATT = st.fixed_dictionaries({"consent": st.sampled_from(["force", "force", "y", "force", "Y", "n", "force", "N", "", "eof"]), "fault": FAULT, "len": st.booleans(), "redir": st.booleans()})
KINDS = ["ML100K", "ML1M", "ML20M", "Cite", "NeuMF", "NeuPin", "Amazon", "MIND", "MIND", "MIND"]


def strategy():
    return st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "size": st.sampled_from([50, 9000, 200000]), "att": st.lists(ATT, min_size=1, max_size=4), "have": st.sampled_from([0, 0, 0, 1, 2, 3]), "s": I(0, 999),
                                  "msize": st.sampled_from(["small", "large"]), "src": st.sampled_from(["huggingface", "azure"]), "junk": st.sampled_from([0, 0, 0, 1, 2]), "tok": st.sampled_from([None, "param", "HF_TOKEN", "HUGGING_FACE_HUB_TOKEN", "both"]), "dir": st.booleans()})


def upto(n, f):
    return n - 1 if f == 10 else n * f // 10


class Raw(io.RawIOBase):
    """Bytes of one HTTP response, ending as scripted."""

    def __init__(self, head, body, end, then):
        self.data, self.pos, self.then = head + body[:end], 0, then

    def readable(self):
        return True

    def readinto(self, b):
        if self.pos >= len(self.data):
            if self.then == "reset":
                raise ConnectionResetError(104, "scripted reset")
            if self.then == "intr":
                raise KeyboardInterrupt
            if self.then == "crash":
                os._exit(9)
            return 0
        n = min(len(b), len(self.data) - self.pos, 4096)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    def __init__(self, raw):
        self.raw = raw

    def makefile(self, *a, **k):
        return io.BufferedReader(self.raw, 1)


class Net:
    """Scripted transport."""

    def __init__(self, bodies):
        self.bodies, self.log, self.fault, self.n = bodies, [], {"k": "ok"}, 0
        self.len = self.redir = False
        net = self

        def open_(req):
            return net.serve(req)

        class H(urllib.request.HTTPHandler):
            def http_open(self, req):
                return open_(req)

        class HS(urllib.request.HTTPSHandler):
            def https_open(self, req):
                return open_(req)
        self.opener = urllib.request.build_opener(urllib.request.ProxyHandler({}), H, HS)

    def serve(self, req):
        url = req.full_url
        self.log.append((url, dict((k.lower(), v) for k, v in req.header_items())))
        moved = url.startswith("https://cdn.example/")
        key = urllib.parse.unquote(url[len("https://cdn.example/"):]) if moved else url
        f, mine = self.fault, False
        if not moved:
            mine = self.fault.get("r", 0) == self.n
            self.n += 1
        else:
            mine = self.fault.get("r", 0) == self.n - 1
        k = f["k"] if mine else "ok"
        if key not in self.bodies:
            return self.resp(req, 404, b"", 0, "eof")
        body = self.bodies[key]
        if self.redir and not moved:
            return self.resp(req, 302, b"", 0, "eof", f"Location: https://cdn.example/{urllib.parse.quote(url, safe='')}\r\n")
        if k == "refuse":
            raise urllib.error.URLError(ConnectionRefusedError(111, "scripted refusal"))
        if k == "status":
            return self.resp(req, f["s"], b"", 0, "eof")
        if k in ("cut", "reset", "intr", "crash"):
            return self.resp(req, 200, body, upto(len(body), f["f"]), k, f"Content-Length: {len(body)}\r\n")
        return self.resp(req, 200, body, len(body), "eof", f"Content-Length: {len(body)}\r\n" if self.len else "")

    def resp(self, req, code, body, end, then, extra=""):
        head = f"HTTP/1.1 {code} X\r\nConnection: close\r\n{extra}\r\n".encode()
        r = http.client.HTTPResponse(Sock(Raw(head, body, end, then)), method="GET")
        r.begin()
        r.url, r.msg = req.full_url, r.reason
        return r


def flag(c, force):
    """The consent flag; half of the callers leave it out when they do not consent."""
    return {"force_download": force} if force or c["s"] % 2 else {}


def zipbytes(seed, size):
    b = io.BytesIO()
    with ZipFile(b, "w") as z:
        z.writestr("member", np.random.RandomState(seed).bytes(size))
    return b.getvalue()


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)


def setup(c, root):
    """-> (construct(force), [paths], {url: body}, verify(dm, path index))"""
    from irspack import dataset as D
    size, s = c["size"], c["s"]
    kind = c["kind"]
    rng = np.random.RandomState(s)
    if kind == "MIND":
        base = D.MINDDataManager.HUGGINGFACE_BASE_URL if c["src"] == "huggingface" else D.MINDDataManager.AZURE_BASE_URL
        paths = [root / "sub" / f"{x}.zip" if c["dir"] else root / f"{x}.zip" for x in ("train", "dev")]
        bodies = {f"{base}/MIND{c['msize']}_{x}.zip": zipbytes(s + k, size + 7 * k) for k, x in enumerate(("train", "dev"))}
        complete = [list(bodies.values())[0], list(bodies.values())[1]]
        return (lambda force: D.MINDDataManager(paths[0], str(paths[1]), size=c["msize"], **flag(c, force), download_source=c["src"], hf_token="secret-param" if c["tok"] in ("param", "both") else None)), paths, bodies, (lambda p, i: p.read_bytes() == complete[i])
    path = root / "data.zip"
    if kind in ("ML100K", "ML1M", "ML20M", "Cite"):
        cls = {"ML100K": D.MovieLens100KDataManager, "ML1M": D.MovieLens1MDataManager, "ML20M": D.MovieLens20MDataManager, "Cite": D.CiteULikeADataManager}[kind]
        body = zipbytes(s, size)
        return (lambda force: cls(path, **flag(c, force))), [path], {cls.DOWNLOAD_URL: body}, (lambda p, i: p.read_bytes() == body)
    if kind in ("NeuMF", "NeuPin"):
        cls = D.NeuMFML1MDownloader if kind == "NeuMF" else D.NeuMFMPinterestDownloader
        a, b = rng.bytes(size), rng.bytes(size + 3)
        members = {"train": a, "test": b}
        bodies = {cls.TRAIN_URL: a, cls.NEGATIVE_URL: b}
    else:
        cls = D.AmazonMusicDataManager
        a, b = rng.bytes(size), rng.bytes(size + 3)
        members = {"amazon-music/ratings.csv": a, "amazon-music/music-meta.json": b}
        p = "http://snap.stanford.edu/data/amazon/productGraph/categoryFiles/"
        bodies = {p + "ratings_Digital_Music.csv": a, p + "meta_Digital_Music.json.gz": gzip.compress(b)}

    def verify(p, i):
        try:
            with ZipFile(p) as z:
                return z.testzip() is None and sorted(z.namelist()) == sorted(members) and all(z.read(k) == v for k, v in members.items())
        except Exception:
            return False
    return (lambda force: cls(str(path), **flag(c, force))), [path], bodies, verify


def close(dm):
    if hasattr(dm, "close"):
        dm.close()
    else:
        dm.zf.close()


def run(c, ctx):
    root = Path(tempfile.mkdtemp())
    env = {k: os.environ.pop(k, None) for k in ("HF_TOKEN", "HUGGING_FACE_HUB_TOKEN")}
    try:
        if c["tok"] in ("HF_TOKEN", "both"):
            os.environ["HF_TOKEN"] = "secret-env"
        if c["tok"] == "HUGGING_FACE_HUB_TOKEN":
            os.environ["HUGGING_FACE_HUB_TOKEN"] = "secret-hub"
        drive(c, ctx, root)
    finally:
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(root, ignore_errors=True)


def drive(c, ctx, root):
    make, paths, bodies, verify = setup(c, root)
    net = Net(bodies)
    own = {}
    for i, p in enumerate(paths):
        if c["have"] >> i & 1:
            p.parent.mkdir(parents=True, exist_ok=True)
            own[i] = [zipbytes(c["s"] + 50 + i, 40), b"", b"not an archive"][c["junk"]]
            p.write_bytes(own[i])

    def state_ok(what):
        for i, p in enumerate(paths):
            if i in own:
                check(p.exists() and p.read_bytes() == own[i], f"{what}: an archive that was already there was changed")
            else:
                check(not p.exists() or verify(p, i), f"{what}: a partial archive was left at the expected path ({p.stat().st_size if p.exists() else 0} bytes)")

    faults, crashed = 0, set()
    tmp = root / "tmp"
    tmp.mkdir()
    attempts = c["att"] + [{"consent": "force", "fault": {"k": "ok"}, "len": True, "redir": False}]
    for a in attempts:
        last = a is attempts[-1]
        missing = [i for i, p in enumerate(paths) if not p.exists()]
        f = dict(a["fault"])
        nreq = len(missing) if c["kind"] == "MIND" else len(bodies)
        if "r" in f:
            f["r"] %= max(1, nreq)
        net.fault, net.n, net.len, net.redir, net.log = f, 0, a["len"], a["redir"], []
        asked = []

        def answer(prompt=""):
            asked.append(prompt)
            if a["consent"] in ("eof", "force"):
                raise EOFError
            return a["consent"]
        consent = a["consent"] in ("force", "y", "Y")
        limit = None
        if f["k"] == "disk" and missing and consent:
            first = list(bodies.values())[missing[0] if c["kind"] == "MIND" else 0]
            limit = upto(len(first), f["f"])

        def attempt():
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            with patched(builtins, "input", answer), patched(urllib.request, "_opener", net.opener), patched(tempfile, "tempdir", str(tmp)), contextlib.redirect_stdout(io.StringIO()):
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
                try:
                    return make(a["consent"] == "force"), None
                except BaseException as e:
                    if isinstance(e, (MemoryError, SystemExit)):
                        raise
                    return None, e
                finally:
                    if limit is not None:
                        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        if f["k"] == "crash" and missing and consent:
            pid = os.fork()
            if pid == 0:
                try:
                    dm, e = attempt()
                    os._exit(0 if e is None else 3)
                finally:
                    os._exit(4)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            check(code == 9, lambda: f"the killed download attempt ended with {code}")
            state_ok("after the process was killed during a download")
            faults += 1
            crashed.update(q for q in root.rglob("*") if q not in paths)
            ctx.tag("crash")
            continue
        dm, e = attempt()
        what = f"after an attempt with consent {a['consent']!r} and fault {f}"
        if not missing:
            check(e is None or own and c["junk"], lambda: f"archives present, but opening them raised {type(e).__name__}: {e}")
            check(not net.log and not asked, f"{what}: archives present, yet {'downloaded' if net.log else 'asked'}")
        elif not consent:
            check(e is not None and not net.log, f"{what}: went ahead without consent")
            check(isinstance(e, RuntimeError) or a["consent"] == "eof", lambda: f"declined download raised {type(e).__name__}")
            check(all(not paths[i].exists() for i in missing), f"{what}: a file appeared without consent")
            ctx.tag("declined")
        else:
            check((a["consent"] == "force") == (not asked), lambda: f"{what}: asked {len(asked)} questions")
            hard = f["k"] not in ("ok", "disk") or limit is not None
            if hard:
                check(e is not None, f"{what}: the failed download went unnoticed")
                faults += 1
                ctx.tag(f["k"])
            else:
                check(e is None or own and c["junk"], lambda: f"{what}: a fault-free download raised {type(e).__name__}: {e}")
                check(all(p.exists() for p in paths), f"{what}: nothing was saved")
            if isinstance(e, KeyboardInterrupt):
                check(f["k"] == "intr", "unexpected interrupt")
        state_ok(what)
        stray = sorted(str(q.relative_to(root)) for q in root.rglob("*") if q.is_file() and q not in paths and q not in crashed)
        check(not stray, lambda: f"{what}: temporary files left behind: {stray}")
        for url, h in net.log:
            host = urllib.parse.urlparse(url).netloc
            auth = h.get("authorization")
            check(auth is None or host == "huggingface.co", lambda: f"the Hugging Face token was sent to {host}")
            if host == "huggingface.co" and c["kind"] == "MIND":
                want = {"param": "Bearer secret-param", "both": "Bearer secret-param", "HF_TOKEN": "Bearer secret-env", "HUGGING_FACE_HUB_TOKEN": "Bearer secret-hub", None: None}[c["tok"]]
                check(auth == want, lambda: f"token sent: {auth!r}, expected {want!r}")
        if dm is not None:
            close(dm)
        if last:
            check(dm is not None or own and c["junk"], "the archives cannot be opened after a fault-free attempt")
    ctx.nt(faults > 0)
    ctx.tag(c["kind"])


FACETS = [Facet("history", strategy, run, quick=1200, thorough=10000, shards=4)]
