#!/usr/bin/env python3
"""run.py <property id>  |  run.py replay <file>  |  run.py all"""
import atexit
import os
import shutil
import sys
import tempfile

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get("PYTHONHASHSEED") != "0" or sys.flags.optimize:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ=os.environ.get("TZ", "UTC0"))
        env.pop("PYTHONOPTIMIZE", None)
        env.pop("PYTHONPATH", None)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, "-B"] + sys.argv, env)
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix="verif-run-")
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True) if os.getpid() == pid else None)
    os.environ["VERIF_SCRATCH"] = scratch
    sys.pycache_prefix = os.path.join(scratch, "pyc")  # never read or write byte code beside the sources
    sys.path.insert(0, HERE)
    from vlib import monitor
    sys.path.insert(0, monitor.REPO)
    import procmon_parser
    src = os.path.dirname(os.path.abspath(procmon_parser.__file__))
    if src != os.path.join(os.path.abspath(monitor.REPO), "procmon_parser"):
        print("INCONCLUSIVE wrong procmon_parser: %s" % src)
        return 3
    import checks.logs, checks.events, checks.values, checks.config, checks.robust, checks.hosting, checks.faults, checks.nested  # noqa
    from vlib import dictionary
    from vlib.rng import R
    R.INTS, R.STRS = dictionary.fresh(src)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if sys.argv[1] == "setup":
        print("setup: %d checks" % len(monitor.CHECKS))
        return 0
    if sys.argv[1] == "replay":
        return monitor.replay(sys.argv[2])
    if sys.argv[1] == "all":
        rc = 0
        for p in sorted(monitor.CHECKS):
            c = os.spawnv(os.P_WAIT, sys.executable, [sys.executable, "-B", os.path.abspath(__file__), p])
            rc = rc or c
        return rc
    return monitor.run_check(sys.argv[1], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE harness error")
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
