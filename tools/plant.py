#!/usr/bin/env python3
"""Plants and verifies bugs in scratch copies: plant.py FILE [ID...]
FILE defines BUGS: a list of dict(id, prop, edits=[(file, old, new)], needs, breaks, demo).
Writes seeded/<id>/ if the patched copy builds, passes the stable tests and the demo tells them apart."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu DISABLE_TQDM=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", HF_HUB_OFFLINE="1", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(b):
    d = tempfile.mkdtemp(prefix="plant-")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        dst = os.path.join(V, "seeded", b["id"])
        os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(os.path.join(dst, "demo.sh"), "w") as f:
            f.write(SH)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        clean = sh(["bash", os.path.join(dst, "demo.sh")], d, timeout=300)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return b["id"], False, f"not found: {old!r}"
            i = b.get("nth", 0)
            pos = -1
            for _ in range(i + 1):
                pos = s.find(old, pos + 1)
            s = s[:pos] + new + s[pos + len(old):]
            open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        with open(os.path.join(dst, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), f, indent=1)
        # removed lines must be of the original repository
        first = subprocess.run("git rev-list --max-parents=0 HEAD", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()[0]
        orig = 0
        for f, old, new in b["edits"]:
            base = subprocess.run(["git", "show", f"{first}:{f}"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()
            cur = diff
        removed = [z[1:] for z in diff.splitlines() if z.startswith("-") and not z.startswith("---")]
        base = subprocess.run(["git", "show", f"{first}:{b['edits'][0][0]}"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()
        orig = [z for z in removed if z in base and z.strip()]
        patched = sh(["bash", os.path.join(dst, "demo.sh")], d, timeout=300)
        junit = os.path.join(d, "junit.xml")
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--junitxml", junit, "-o", "junit_family=xunit2", "tests/core", "tests/numba", "tests/stopwords"], d)
        import xml.etree.ElementTree as ET
        ok = set()
        for c in ET.parse(junit).iter("testcase"):
            if not [x for x in c if x.tag in ("failure", "error", "skipped")]:
                ok.add(c.get("classname") + "." + c.get("name") if "::" in next(iter(STABLE)) and False else c.get("classname") + "::" + c.get("name"))
        bad = STABLE - ok
        out = [f"clean={clean.returncode} patched={patched.returncode} orig_lines={len(orig)} tests_failing={sorted(bad)[:3]}"]
        good = clean.returncode == 0 and patched.returncode != 0 and orig and not bad
        if clean.returncode:
            out.append(clean.stdout[-800:])
        if not patched.returncode or os.environ.get("V"):
            out.append(patched.stdout[-500:])
        res = []
        if good:
            for c in [b["prop"]] + b.get("also", []):
                e = dict(os.environ, BM25S_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                r = subprocess.run([PY, os.path.join(V, "check.py"), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                v = [z for z in r.stdout.splitlines() if z.startswith("VIOLATION")]
                res.append(f"{c}: rc={r.returncode} {len(v)} violations" + ("" if r.returncode in (0, 1) else r.stdout[-500:]))
        return b["id"], bool(good), "; ".join(out + res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    sel = sys.argv[2:]
    bugs = [b for b in bugs if not sel or b["id"] in sel]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for i, good, msg in ex.map(plant, bugs):
            print("OK  " if good else "BAD ", i, msg, flush=True)
