#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: run one check (see /verif/DESIGN.md)."""
import importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_INNER") != "1":
    env = dict(os.environ)
    env.update(VERIF_INNER="1", PYTHONPATH=os.environ.get("VERIF_REPO", "/repo") + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[:0] = [os.path.join(HERE, "..", "lib"), HERE]
import vlib

pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")


def runner(ck):
    import numpy, warnings, logging
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    import diffpy.srmise
    if not os.path.realpath(diffpy.srmise.__file__).startswith(vlib.REPO_SRC):
        raise vlib.MachineryError("diffpy.srmise is not imported from /repo: %s" % diffpy.srmise.__file__)
    from diffpy.srmise import srmiselog
    if pid != "C19":  # starts from the default log settings
        srmiselog.setlevel("critical")
    numpy.random.seed(ck.seed)
    importlib.import_module(pid.lower()).run(ck)


sys.exit(vlib.main(pid, tier, runner))
