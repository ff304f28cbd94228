#!/usr/bin/env python
"""vreplay.py out/<file>.json : run one reported violation on the real code of /repo (in a scratch copy)."""
import os, sys, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
import symx
from symx import runner
if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    import importlib
    mod = importlib.import_module("checks." + r["property"])
    o = runner.run_replays(r["property"], r["tier"], [dict(job=r["job"], inputs=r["inputs"])], r["needs_ext"], None, getattr(mod, "REPLAY_ENV", None), getattr(mod, "REPLAY_ASAN", False))[0]
    print(json.dumps(o, indent=1))
    sys.exit(1 if o["failed"] else 0)
