"""check P01 [--tier quick|thorough] [--replay FILE] [--facet NAME]"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from vlib import harness, native

VERIF = harness.VERIF
KNOWN = VERIF / "known_findings.jsonl"


class Job:
    def __init__(self, prop, facet, spec, scratch: Path, tag: str):
        self.facet, self.spec = facet, spec
        self.out = scratch / f"{tag}.json"
        self.cur = scratch / f"{tag}.cur"
        self.log = scratch / f"{tag}.log"
        spec.update(property=prop, facet=facet.name,
                    out=str(self.out), cur=str(self.cur))
        self.scratch = scratch
        self.timeout = facet.case_timeout
        self.p = None
        self.mark, self.stuck, self.seen = None, 0.0, None  # time spent in the current case, as seen by a running supervisor

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(VERIF),
                   PYTHONWARNINGS="ignore", TMPDIR=str(self.scratch), HOME=str(self.scratch))
        env.pop("IRSPACK_NUM_THREADS_DEFAULT", None)
        if self.facet.flavour != "plain":
            env["VERIF_FLAVOUR"] = self.facet.flavour
        env.update(self.facet.env)
        self.t0 = time.time()
        self.p = subprocess.Popen([sys.executable, "-m", "vlib.worker", json.dumps(self.spec)],
                                  cwd=str(self.scratch), env=env, stdout=open(self.log, "wb"),
                                  stderr=subprocess.STDOUT, start_new_session=True)

    def tail(self):
        text = self.log.read_text(errors="replace")
        at = [text.find(x) for x in ("WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "runtime error:") if x in text]
        return text[max(0, min(at) - 100):][:2400] if at else text[-2400:]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def poll(self):
        """None while running, else a result dict."""
        rc = self.p.poll()
        if rc is None:
            try:
                st = json.loads(self.cur.read_text())
            except (OSError, ValueError):
                return None
            now, mark = time.monotonic(), st.get("t", 0)
            if mark != self.mark:
                self.mark, self.stuck = mark, 0.0
            elif self.seen is not None:
                self.stuck += min(now - self.seen, 1.0)  # a suspended machine is not a hanging case
            self.seen = now
            if self.stuck > self.timeout:
                if self.facet.flavour == "plain":
                    self.p.send_signal(signal.SIGUSR1)
                    time.sleep(0.5)
                self.kill()
                tail = self.tail()
                return {"facet": self.facet.name, "evaluations": 0, "failure": {
                    "case": st["case"], "key": "hang",
                    "msg": f"no result within {self.timeout:.0f} s\n{tail}"}}
            return None
        if self.out.exists():
            return json.loads(self.out.read_text())
        tail = self.tail()
        if rc < 0 and self.cur.exists():
            try:
                case = json.loads(self.cur.read_text())["case"]
            except ValueError:
                return {"error": f"died with signal {-rc}\n{tail}"}
            return {"facet": self.facet.name, "evaluations": 0, "failure": {
                "case": case, "key": f"signal{-rc}", "msg": f"process died with signal {-rc}\n{tail}"}}
        return {"error": f"facet {self.facet.name} exited with {rc}\n{tail}"}


def run_jobs(jobs, width, grace=None):
    """Runs the jobs; once one of them has failed, the others get `grace` more seconds."""
    todo, live, done = list(jobs), [], []
    end = None
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop(0)
            j.start()
            live.append(j)
        time.sleep(0.05)
        for j in list(live):
            r = j.poll()
            if r is not None:
                live.remove(j)
                done.append((j, r))
                if grace is not None and end is None and "failure" in r:
                    end = time.time() + grace
        if end is not None and time.time() > end:
            for j in live:
                j.kill()
            break
    return done


def simpler(case):
    """One-step simplifications of a JSON case (used for crashes and hangs)."""
    def rec(v):
        if isinstance(v, bool):
            if v:
                yield False
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1):
                if 0 <= c < v:
                    yield c
        elif isinstance(v, list):
            for i in range(len(v)):
                yield v[:i] + v[i + 1:]
            for i, x in enumerate(v):
                for y in rec(x):
                    yield v[:i] + [y] + v[i + 1:]
        elif isinstance(v, dict):
            for k in v:
                for y in rec(v[k]):
                    yield {**v, k: y}
    yield from rec(case)


def shrink_crash(prop, bare, facet, res, scratch, deadline):
    best = res["failure"]
    if best["key"] == "hang":
        return best
    improved, k = True, 0
    while improved and time.time() < deadline:
        improved = False
        cands = list(simpler(best["case"]))[:48]
        for i in range(0, len(cands), 8):
            if time.time() > deadline:
                break
            jobs = []
            for c in cands[i:i + 8]:
                k += 1
                jobs.append(Job(prop, facet, {"case": c, "bare": bare}, scratch, f"shr{k}"))
                jobs[-1].timeout = min(30.0, facet.case_timeout)
            hit = [r["failure"] for _, r in run_jobs(jobs, 8, 0)
                   if "failure" in r and r["failure"]["key"] == best["key"]]
            if hit:
                best, improved = hit[0], True
                break
    return best


def settle_hangs(prop, bare, done, scratch):
    """A case that gave no result counts as hanging if it does so again in a process of its own;
    otherwise the machine had stalled, and its shard runs once more."""
    hung = [(j, r) for j, r in done if r.get("failure", {}).get("key") == "hang"]
    if not hung:
        return done
    probes = [Job(prop, j.facet, {"case": r["failure"]["case"], "bare": bare}, scratch, f"hang-{k}-{i}")
              for k, (j, r) in enumerate(hung[:4]) for i in range(2)]
    if any("failure" in r for _, r in run_jobs(probes, 8, 0)):
        return done
    for _, r in hung:
        print("note: a case gave no result in time, but does so when run again; its shard is repeated\n"
              + r["failure"]["msg"][-1200:], file=sys.stderr)
    fresh = [Job(prop, j.facet, j.spec, scratch, j.out.stem + "-again") for j, _ in hung]
    return [x for x in done if x not in hung] + run_jobs(fresh, 8, 150.0)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    sys.dont_write_bytecode = True
    harness.use_hypothesis()
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
    try:
        return _main(a, prop, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, scratch, t0):
    mod = importlib.import_module(f"checks.{prop.lower()}")
    facets = [f for f in mod.FACETS if not a.facet or f.name in a.facet]
    if mod.NATIVE:
        try:
            for fl in sorted({f.flavour for f in facets}):
                native.build(os.environ.get("VERIF_FLAVOUR", fl) if fl == "plain" else fl,
                             [m for m in native.MODULES if m.split(".")[-1] in mod.NATIVE])
        except native.BuildError as e:
            print(f"ERROR: the native sources do not build\n{e}", file=sys.stderr)
            return 2
    if a.replay:
        rep = json.loads(Path(a.replay).read_text())
        facet = next(f for f in mod.FACETS if f.name == rep["facet"])
        [(j, r)] = run_jobs([Job(prop, facet, {"case": rep["case"], "bare": mod.BARE}, scratch, "replay")], 1)
        if "error" in r:
            print(r["error"], file=sys.stderr)
            return 2
        if "failure" in r:
            print(r["failure"]["msg"])
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print(f"replay of {a.replay}: the property holds on this case")
        return 0

    thorough = a.tier == "thorough"
    jobs = []
    for f in facets:
        total = int((f.thorough if thorough else f.quick * getattr(mod, "EFFORT", 1)) * a.scale)
        shards = max(f.shards, 4) if thorough else max(f.shards, min(8, total // 150))
        budget = f.thorough_budget if thorough else f.budget
        if f.shards == 0:  # exhaustive facet: examples only
            shards = 1
            total = 0
        for s in range(shards):
            seed = a.seed * 1000003 + int(harness.digest([prop, f.name])[:6], 16) + 7919 * s
            spec = {"seed": seed, "n": -(-total // shards), "budget": budget, "examples": s == 0, "bare": mod.BARE}
            jobs.append(Job(prop, f, spec, scratch, f"{f.name}-{s}"))
    done = settle_hangs(prop, mod.BARE, run_jobs(jobs, 8, 150.0), scratch)
    errors = [r["error"] for _, r in done if "error" in r]
    known = []
    if KNOWN.exists():
        known = [json.loads(x) for x in KNOWN.read_text().splitlines() if x.strip()]
        known = [k for k in known if k.get("status") == "known" and k["property"] == prop]

    per, nontriv, samples = {}, set(), []
    evaluations = 0
    violations, seen_known = [], {}
    for j, r in sorted(done, key=lambda x: (x[0].facet.name, x[0].spec["seed"])):
        if "error" in r:
            continue
        f = j.facet
        d = per.setdefault(f.name, {"evaluations": 0, "skipped": 0, "distinct_nontrivial": 0, "tags": {}})
        d["evaluations"] += r["evaluations"]
        d["skipped"] += r.get("skipped", 0)
        new = {f"{f.name}:{h}" for h in r.get("nontrivial", [])} - nontriv
        d["distinct_nontrivial"] += len(new)
        nontriv |= new
        for k, v in r.get("tags", {}).items():
            d["tags"][k] = d["tags"].get(k, 0) + v
        evaluations += r["evaluations"]
        samples += [{"facet": f.name, "case": c} for c in r.get("samples", [])[:2]]
        if "failure" in r:
            fl = r["failure"]
            m = [k for k in known if k["facet"] == f.name and k["key"] == fl["key"]]
            if m:
                seen_known[m[0]["key"]] = m[0]
            else:
                violations.append((f, r))
    # Known findings are replayed explicitly, so they are always reported.
    kj = [Job(prop, next(f for f in mod.FACETS if f.name == k["facet"]), {"case": k["case"], "bare": mod.BARE}, scratch, f"kf{i}")
          for i, k in enumerate(known)]
    for (j, r), k in zip(sorted(run_jobs(kj, 8), key=lambda x: x[0].out.name), known):
        if "failure" in r and r["failure"]["key"] == k["key"]:
            seen_known[k["key"]] = k
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    rc = 0
    reported = set()
    violations.sort(key=lambda v: len(json.dumps(v[1]["failure"]["case"])))
    for f, r in violations:
        if f.name in reported:
            continue
        reported.add(f.name)
        fl = r["failure"]
        if fl["key"] and fl["key"].startswith("signal"):
            fl = shrink_crash(prop, mod.BARE, f, r, scratch, time.time() + 60)
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{prop}-{f.name}-{harness.digest(fl['case'])}.json"
        path.write_text(json.dumps({"property": prop, "facet": f.name, "case": fl["case"],
                                    "message": fl["msg"]}, indent=1))
        print(fl["msg"][-2500:])
        print(f"facet {f.name}, case {json.dumps(fl['case'])}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    for e in sorted(set(errors))[:3]:
        print(f"ERROR: {e[:1500]}", file=sys.stderr)
    if errors and rc == 0:
        rc = 2
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(nontriv),
                       "rule": mod.RULE, "samples": samples[:12], "facets": per},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    (VERIF / "evidence").mkdir(exist_ok=True)
    if not a.facet:
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if a.v:
        print(json.dumps(per, indent=1))
    print(f"{prop} {a.tier}: {evaluations} cases, {len(nontriv)} distinct non-trivial, "
          f"{len(reported)} violation(s), {time.time() - t0:.1f} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
