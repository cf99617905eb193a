"""Property-based testing harness: facets, statistics, hypothesis driver.

A check is a module in /verif/checks with PROPERTY, RULE, FACETS (and optionally
ASSUMPTIONS, LEVEL).  A facet pairs a hypothesis strategy, producing a small
JSON-able case, with run(case, ctx), which drives the real code and raises when
the observed behaviour departs from the facet's oracle.
"""
from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def use_hypothesis() -> None:
    """Import hypothesis (pure Python) without letting the tooling venv shadow
    the packages irspack itself runs on."""
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    sys.path.append(VT_SITE)
    import hypothesis  # noqa: F401
    import sortedcontainers  # noqa: F401

    sys.path.remove(VT_SITE)


class Violation(AssertionError):
    """The code under test departed from the oracle."""

    def __init__(self, msg: str, key: str | None = None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The generated case lies outside the property's precondition."""


def check(cond: Any, msg: str | Callable[[], str], key: str | None = None) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Facet:
    def __init__(self, name: str, strategy: Callable[[], Any], run: Callable[[dict, "Ctx"], None],
                 quick: int = 100, thorough: int = 2000, shards: int = 1,
                 budget: float = 90.0, thorough_budget: float = 420.0,
                 examples: tuple = (), case_timeout: float = 90.0, flavour: str = "plain",
                 env: dict | None = None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.budget, self.thorough_budget = budget, thorough_budget
        self.examples, self.case_timeout = list(examples), case_timeout
        self.flavour, self.env = flavour, env or {}


class Ctx:
    """Collects what the run covered."""

    def __init__(self) -> None:
        self.evaluations = 0
        self.skipped = 0
        self.tags: dict[str, int] = {}
        self.nontrivial: dict[str, dict] = {}
        self._nt = False
        self.case: dict = {}

    def begin(self, case: dict) -> None:
        self.evaluations += 1
        self._nt = False
        self.case = case

    def nt(self, cond: bool = True) -> None:
        """Mark the current case non-trivial."""
        self._nt = self._nt or bool(cond)

    def tag(self, *names: str) -> None:
        for n in names:
            self.tags[n] = self.tags.get(n, 0) + 1

    def end(self) -> None:
        if self._nt:
            s = json.dumps(self.case, sort_keys=True)
            h = hashlib.sha1(s.encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial[h] = self.case if len(self.nontrivial) < 40 else {}


def _size(case: dict) -> tuple:
    s = json.dumps(case, sort_keys=True)
    return (len(s), s)


def drive(facet: Facet, seed: int, n: int, budget: float, cur: Path, run_examples: bool) -> dict:
    """Run one facet; returns the JSON result."""
    use_hypothesis()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    # Spend every example on a fresh draw: the engine's mutation of earlier examples copies choices
    # between equally shaped draws, which mostly drags these cases towards trivial ones.
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    ConjectureRunner.generate_mutations_from = lambda self, data: None

    ctx = Ctx()
    fails: list[tuple[tuple, dict, str, str | None]] = []
    t_end = time.monotonic() + budget
    shrink_end: list[float] = []

    def once(case: dict) -> None:
        case = json.loads(json.dumps(case))
        ctx.begin(case)
        cur.write_text(json.dumps({"t": time.time(), "case": case}))
        try:
            facet.run(case, ctx)
        except Skip:
            ctx.skipped += 1
        except ImportError:
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            fails.append((_size(case), case, f"{type(e).__name__}: {e}\n{tb}",
                          getattr(e, "key", None)))
            raise
        ctx.end()

    if run_examples:
        for ex in facet.examples:
            try:
                once(ex)
            except ImportError:
                raise
            except Exception:
                pass

    def body(case: dict) -> None:
        now = time.monotonic()
        if fails:
            if not shrink_end:
                shrink_end.append(now + 45)
            if now > shrink_end[0]:
                raise KeyboardInterrupt
        elif now > t_end:
            raise KeyboardInterrupt
        once(case)

    if not fails and n > 0:
        test = given(facet.strategy())(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink],
                        report_multiple_bugs=False, print_blob=False)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except KeyboardInterrupt:
            pass
        except BaseException as e:
            if not fails:
                raise
    cur.unlink(missing_ok=True)
    res = {"facet": facet.name, "evaluations": ctx.evaluations, "skipped": ctx.skipped,
           "tags": ctx.tags, "nontrivial": list(ctx.nontrivial),
           "samples": [c for c in ctx.nontrivial.values() if c][:5]}
    if fails:
        _, case, msg, key = min(fails, key=lambda f: f[0])
        res["failure"] = {"case": case, "msg": msg, "key": key}
    return res


def digest(obj: Any) -> str:
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]
