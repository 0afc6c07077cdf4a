"""Decides one property of mixtera by bounded symbolic execution of the code in the repository's working tree.

  run.py C01                decide property C01 (tier from VERIF_TIER, default quick)
  run.py --replay FILE      re-run a reported counterexample on the unpatched code
"""
import json
import os
import sys

VENV_PY = "/opt/venv/bin/python"
ENVV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "HF_HUB_OFFLINE": "1", "HF_DATASETS_OFFLINE": "1", "TOKENIZERS_PARALLELISM": "false", "OMP_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": ""}
if os.path.exists(VENV_PY) and (os.environ.get("_VERIF_REEXEC") != "1"):
    env = dict(os.environ, _VERIF_REEXEC="1", TQDM_DISABLE="1", **ENVV)
    repo = os.environ.get("VERIF_REPO", "/repo")
    env["PYTHONPATH"] = repo
    os.execve(VENV_PY, [VENV_PY, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)


import warnings

sys.set_int_max_str_digits(0)

warnings.filterwarnings("ignore")


def main() -> int:
    from symx import repo

    repo.load()
    from symx import harness

    a = sys.argv[1:]
    if a == ["--selftest"]:
        from symx import selftest

        return selftest.main()
    if a and a[0] in ("--replay", "--replay-json"):
        d = json.loads(a[1]) if a[0] == "--replay-json" else json.load(open(a[1]))
        import importlib

        mod = importlib.import_module(d["module"])
        sc = next(s for s in mod.scenarios(d["tier"]) if s.name == d["scenario"])
        r = harness.run_concrete(sc, d["inputs"])
        print("REPLAY " + json.dumps(r))
        return 1 if r["reproduced"] else 0
    if a and a[0] == "--replay-candidates":
        d = json.load(sys.stdin)
        import importlib

        mod = importlib.import_module(d["module"])
        sc = next(s for s in mod.scenarios(d["tier"]) if s.name == d["scenario"])
        for inputs in d["candidates"]:
            r = harness.run_concrete(sc, inputs)
            if r["reproduced"]:
                print("REPLAY " + json.dumps({"inputs": inputs, "result": r}))
                return 1
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    return harness.run_check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
