#!/usr/bin/env python3
"""Entry point of every check.

    run.py <PROPERTY> quick|thorough      explore, write evidence/<PROPERTY>.json
    run.py --replay <file>                re-run the task of a recorded violation

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was
printed.  This process only supervises: the exploration runs in a child, so
that a crash or a hang of the code under test is itself reported.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEUTRALOCEAN_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
HARD = {"quick": 840, "thorough": 14400}


def main(argv):
    if argv[:1] == ["--replay"]:
        with open(argv[1]) as fh:
            rec = json.load(fh)
        prop, tier, only = rec["property"], rec["tier"], str(rec["task"])
    else:
        prop = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        only = argv[2] if len(argv) > 2 else ""
    sys.stdout.reconfigure(line_buffering=True)

    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.pathsep.join([REPO, VERIF]),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONWARNINGS="ignore",
        NUMBA_BOUNDSCHECK="1",
        **({"NUMBA_OPT": "0"} if prop == "C20" else {}),  # compiles hundreds of functions, runs each briefly
        NUMBA_DISABLE_PERFORMANCE_WARNINGS="1",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MC_SCRATCH=scratch,
        MC_RESULT=os.path.join(scratch, "result.json"),
        MC_ONLY=only,
        MC_REPO=REPO,
        TMPDIR=scratch,
    )
    env.pop("NUMBA_DISABLE_JIT", None)
    t0 = time.time()
    rc, timed_out = None, False
    try:
        child = subprocess.Popen(
            [PY, "-X", "faulthandler", "-m", "mc.engine", prop, tier],
            cwd=scratch, env=env, start_new_session=True,
        )
        try:
            rc = child.wait(timeout=HARD[tier])
        except subprocess.TimeoutExpired:
            timed_out = True
        finally:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            child.wait()
        result = None
        try:
            with open(env["MC_RESULT"]) as fh:
                result = json.load(fh)
        except (OSError, ValueError):
            pass
        if result is not None and result.get("done"):
            return result["rc"]
        # The child died or hung outside the watched part of the exploration.
        why = "did not terminate" if timed_out else "died with status %s" % rc
        sys.path.insert(0, VERIF)
        from mc import report

        return report.orphan(prop, tier, why, time.time() - t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
