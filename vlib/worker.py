"""Runs one facet (or one replay case) in its own process."""
import faulthandler
import importlib
import json
import os
import signal
import sys
from pathlib import Path


def main() -> int:
    spec = json.loads(sys.argv[1])
    if "VERIF_FLAVOUR" not in os.environ:  # a handler of ours could block a sanitizer's abort
        faulthandler.enable()
        faulthandler.register(signal.SIGUSR1, all_threads=True)  # the supervisor asks where a hanging case is
    from vlib import harness, native

    mod_name = f"checks.{spec['property'].lower()}"
    out = Path(spec["out"])
    harness.use_hypothesis()
    try:
        native.install(bare=spec["bare"])
        mod = importlib.import_module(mod_name)
    except native.BuildError as e:
        out.write_text(json.dumps({"error": f"build: {e}"}))
        return 3
    facet = next(f for f in mod.FACETS if f.name == spec["facet"])
    cur = Path(spec["cur"])
    if "case" in spec:
        ctx = harness.Ctx()
        cur.write_text(json.dumps({"case": spec["case"]}))
        ctx.begin(spec["case"])
        res = {"facet": facet.name, "evaluations": 1}
        try:
            facet.run(spec["case"], ctx)
        except harness.Skip:
            res["skipped"] = 1
        except Exception as e:
            import traceback

            res["failure"] = {"case": spec["case"], "key": getattr(e, "key", None),
                              "msg": f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}"}
        cur.unlink(missing_ok=True)
    else:
        res = harness.drive(facet, spec["seed"], spec["n"], spec["budget"], cur, spec["examples"])
    out.write_text(json.dumps(res))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
    sys.exit(main())
