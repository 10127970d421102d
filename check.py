#!/opt/venv/bin/python
"""check.py PID [--tier quick|thorough] [--seed N] [--replay SCEN:IDX] [--only SCEN]"""
import argparse
import os
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")

if __name__ == "__main__":
    if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
        os.execv(PY, [PY, "-B"] + sys.argv)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    sys.dont_write_bytecode = True
    sys.path[:0] = [ROOT]
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--total", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.shard or a.replay:
        sys.path[:0] = [REPO]
        import numpy, scipy.spatial, scipy.stats, scipy.integrate, scipy.optimize, scipy.special, sparse  # noqa

        # always compile the package from its current source
        sys.pycache_prefix = tempfile.gettempdir() + "/no-such-cache-%d" % os.getpid()
        import logging
        import warnings

        warnings.simplefilter("ignore")
        import infomeasure

        assert os.path.realpath(infomeasure.__file__).startswith(os.path.realpath(REPO) + "/"), infomeasure.__file__
        logging.getLogger("infomeasure").setLevel(logging.CRITICAL)
    from monitor import core
    import monitor.props.all  # noqa

    P = core.PROPS[a.pid]
    if a.only:
        P.scenarios = [s for s in P.scenarios if s[0] in a.only.split(",")]
    if a.replay:
        name, idx = a.replay.split(":")
        fn = [s for s in P.scenarios if s[0] == name][0][2]
        r = core.run_case(P, name, fn, int(idx), a.seed, a.tier)
        import json

        print(json.dumps(r, indent=1, default=str))
        sys.exit(0 if r["status"] in ("ok", "skip") else 1)
    if a.shard:
        i, n = map(int, a.shard.split("/"))
        core.shard_main(P, a.tier, a.seed, i, n, a.total, a.cap, a.out)
        sys.exit(0)
    if a.total:
        P.quick = P.thorough = a.total
    sys.exit(core.run_property(P, a.tier, a.seed, a.only))
