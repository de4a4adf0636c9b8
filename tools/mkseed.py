#!/usr/bin/env python3
"""Builds and confirms the planted bugs of tools/seeds/*.py in scratch copies of /repo.

usage: mkseed.py [ID..]     (no arguments: every seed not confirmed yet)
Each tools/seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ..] and DEMO (a program).
"""
import json, os, re, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
HEAD = '''import sys, warnings
sys.path.insert(0, "src")
import svdsuite
from svdsuite.process import Process, ProcessException, ProcessWarning
from svdsuite.parse import Parser, ParserException
warnings.simplefilter("ignore")


def device(body, head=""):
    return ('<device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance">'
            "<name>D</name><version>1</version><description>d</description>" + head +
            "<addressUnitBits>8</addressUnitBits><width>32</width><peripherals>" + body + "</peripherals></device>")


def peripheral(name, registers, base="0x1000", more="", attrs="", block="<addressBlock><offset>0</offset><size>0x100</size><usage>registers</usage></addressBlock>"):
    return (f"<peripheral{attrs}><name>{name}</name>{more}<baseAddress>{base}</baseAddress>{block}"
            + (f"<registers>{registers}</registers>" if registers else "") + "</peripheral>")


def register(name, offset="0", more="", attrs=""):
    return f"<register{attrs}><name>{name}</name>{{0}}<addressOffset>{offset}</addressOffset>{more}</register>".replace("{0}", "")


def process(xml):
    return Process.from_xml_str(xml).get_processed_device()


def seen(xml):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        d = process(xml)
    return d, [str(x.message) for x in w]

'''


def one(sid):
    s = runpy.run_path(f"{V}/tools/seeds/{sid}.py")
    w = f"/tmp/seedw/{sid}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for d in ("src", "tests", "pyproject.toml"):
        subprocess.run(["cp", "-a", f"/repo/{d}", w], check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm a", shell=True, cwd=w, check=True)
    for f, old, new in s["EDITS"]:
        p = f"{w}/src/svdsuite/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return sid, f"edit matches {t.count(old)} times: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    o = f"{V}/seeded/{sid}"
    os.makedirs(o, exist_ok=True)
    open(f"{o}/patch.diff", "w").write(diff)
    open(f"{o}/demo.py", "w").write(HEAD + s["DEMO"].strip("\n") + "\n")
    open(f"{o}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{o}/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{o}/meta.json", "w"), indent=1)
    good = subprocess.run([f"{o}/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = subprocess.run([f"{o}/demo.sh"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if good.returncode:
        return sid, "demo fails on clean: " + good.stdout[-600:]
    if not bad.returncode:
        return sid, "demo passes with the bug"
    env = dict(os.environ, PYTHONPATH=f"{w}/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return sid, "tests fail: " + " ".join(re.findall(r"FAILED (\S+)", r.stdout))[:400]
    ids = sys.argv[0:0] or [s["PROPERTY"]] + list(s.get("ALSO", []))
    out = []
    for i in ids:
        c = subprocess.run([sys.executable, f"{V}/run.py", i, "--repo", w, "--out", f"{w}/out"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")]
        out.append(f"{i}={c.returncode} {' '.join(v)[:160]}")
    shutil.rmtree(w, ignore_errors=True)
    return sid, "OK " + " | ".join(out)


if __name__ == "__main__":
    ids = sys.argv[1:] or [f[:-3] for f in sorted(os.listdir(f"{V}/tools/seeds")) if not os.path.exists(f"{V}/seeded/{f[:-3]}/meta.json")]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)
