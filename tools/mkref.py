#!/usr/bin/env python3
"""Applies behaviour-preserving edits (tools/refactors/*.py) to scratch copies of /repo, runs the tests and all checks on each.

usage: mkref.py [ID..]     (no arguments: all)     a check that exits non-zero is a false alarm"""
import glob, json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get("V", "/verif")
ALL = {}
for f in sorted(glob.glob(f"{V}/tools/refactors/*.py")):
    ALL.update(runpy.run_path(f)["R"])


def one(rid):
    w = f"/tmp/refw/{rid}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ("src", "tests", "pyproject.toml"):
        subprocess.run(["cp", "-a", f"/repo/{d}", w], check=True)
    for f, old, new, *n in ALL[rid]:
        p = f"{w}/src/svdsuite/{f}"
        t = open(p).read()
        if (n and t.count(old) == 0) or (not n and t.count(old) != 1):
            return rid, f"edit matches {t.count(old)} times: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    env = dict(os.environ, PYTHONPATH=f"{w}/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return rid, "TESTS FAIL " + r.stdout[-500:]
    out, und = [], []
    for c in sorted(os.path.basename(x)[:3].upper() for x in glob.glob(f"{V}/svdabs/checks/c[0-9]*.py")):
        if os.environ.get("ONLY") and c not in os.environ["ONLY"].split(","):
            continue
        if c in ("C01", "C02", "C03", "C06") and not any(f[0] in ("parse.py", "util/xml_parse.py", "model/types.py") for f in ALL[rid]):
            continue
        r = subprocess.run(["python3", f"{V}/run.py", c, "--repo", w, "--out", f"{w}/out"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            out.append(f"{c} rc={r.returncode} " + " | ".join(l[:260] for l in r.stdout.splitlines() if "[" in l)[:800])
        try:
            e = json.load(open(f"{w}/out/evidence/{c}.json"))
            u = e["coverage"].get("undecided") or []
            if u:
                und.append(f"{c}:{len(u)}")
        except OSError:
            pass
    return rid, ("ALARM " + "\n    ".join(out) if out else "quiet") + "  undecided " + " ".join(und)


with ThreadPoolExecutor(int(os.environ.get("W", "3"))) as ex:
    for rid, msg in ex.map(one, sys.argv[1:] or list(ALL)):
        print(rid, msg, flush=True)
