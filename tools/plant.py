"""Development aid for planted bugs (not used by any check).

    plant.py verify ID...   demo, stable tests, own check in a scratch copy
    plant.py catch ID...    own check in a scratch copy (--all: every check)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, src=None, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1")
    if src:
        env["PYTHONPATH"] = src
        env["VERIF_REPO"] = os.path.dirname(src)
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=cwd, env=env, **k)


def tests(repo):
    """Names of the stable tests that fail in a copy."""
    rep = os.path.join(os.path.dirname(repo), "reports")
    os.makedirs(rep)
    run = (f"{PY} -m pytest -q -p no:cacheprovider -n 4 --timeout=300 --tb=no --continue-on-collection-errors --doctest-modules "
           "--doctest-continue-on-failure --ignore=test/test_igrf.py -o junit_family=xunit2 {} src/harmonica test")
    pre = "export MPLBACKEND=agg NUMBA_NUM_THREADS=2 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2 PYTHONHASHSEED=0; "
    sh(pre + "NUMBA_DISABLE_JIT=1 " + run.format(f"--junitxml={rep}/nojit.xml"), repo, repo + "/src")
    sh(pre + "NUMBA_DISABLE_JIT=0 " + run.format(f"-m use_numba --junitprefix=numba --junitxml={rep}/jit.xml"), repo, repo + "/src")
    sh(f"/usr/bin/python3 /opt/vp/results.py {rep}/out.json 'junit:{rep}/*.xml'", repo)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(json.load(open(rep + "/out.json"))["passed"]))


def one(bug, mode, everything):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = [bug, prop]
    top = tempfile.mkdtemp(prefix="plant.")
    try:
        repo, ver = top + "/repo", top + "/verif"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)
        shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns("__pycache__", ".git", "seeded", "evidence"))
        src = repo + "/src"
        if mode == "verify":
            r = sh(f"bash {d}/demo.sh", repo, src, timeout=300)
            out.append(f"clean demo {r.returncode}")
            if r.returncode:
                print(r.stdout[-600:], r.stderr[-900:])
        r = sh(f"git apply {d}/patch.diff", repo)
        if r.returncode:
            print(bug, "DOES NOT APPLY", r.stderr)
            return
        if mode == "verify":
            r = sh(f"bash {d}/demo.sh", repo, src, timeout=300)
            out.append(f"patched demo {r.returncode}")
            bad = tests(repo)
            out.append(f"tests broken {len(bad)}")
            if bad:
                print("   ", bad[:5])
        props = [prop]
        if everything:
            props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "symx", "props")) if f[0] == "p" and f[1:3].isdigit())
        for p in props:
            r = sh(f"{PY} check.py {p}", ver, src)
            if everything and r.returncode == 0:
                continue
            line = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "INCONCLUSIVE"))][:1]
            out.append(f"{p} exit {r.returncode} {line[0][-110:] if line else ''}")
    finally:
        shutil.rmtree(top)
    print(" | ".join(out), flush=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    for b in args or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        one(b, sys.argv[1], "--all" in sys.argv)
