#!/usr/bin/env python3
"""Runs checks against quick mutations in scratch copies: mutate.py FILE [NUMBER...]
FILE defines M: a list of (file, old, new, [checks])."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(a):
    i, (f, old, new, checks) = a
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        edits = [(f, old, new)] if isinstance(f, str) else f
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return f"{i:3} NOTFOUND {old!r}"
            open(p, "w").write(s.replace(old, new, 1))
        r = []
        for c in checks:
            e = dict(os.environ, BM25S_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            q = subprocess.run([PY, os.path.join(V, "check.py"), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            n = sum(z.startswith("VIOLATION") for z in q.stdout.splitlines())
            r.append(f"{c} rc={q.returncode} v={n}" + ("" if q.returncode in (0, 1) else " " + q.stdout[-300:]))
        t = ""
        if any("rc=0" in z for z in r):
            q = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/core", "tests/numba", "tests/stopwords"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=d, JAX_PLATFORMS="cpu", HF_HUB_OFFLINE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            t = " TESTS " + q.stdout.strip().splitlines()[-1]
        return f"{i:3} {'MISS' if any('rc=0' in z for z in r) else 'ok'} {'; '.join(r)} | {old.strip()[:60]!r} -> {new.strip()[:80]!r}{t}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    m = list(enumerate(runpy.run_path(sys.argv[1])["M"]))
    sel = set(map(int, sys.argv[2:]))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for z in ex.map(run, [x for x in m if not sel or x[0] in sel]):
            print(z, flush=True)
