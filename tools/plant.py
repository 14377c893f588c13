"""Make and validate planted bugs: python3 plant.py BUGS.py [id ...]

BUGS.py has a list BUGS of dicts: id, property, file, edits [(old, new), ...], needs, breaks, demo (Python source).
Writes seeded/<id>/ when the tests pass with the change and the demonstration fails with it and passes without.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", JAX_PLATFORMS="cpu", TF_CPP_MIN_LOG_LEVEL="3", PYTHONDONTWRITEBYTECODE="1")
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport lab as B\nimport stheno\nfrom stheno import *\n\n"


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"])


def run(bug, work):
    d = os.path.join(work, bug["id"])
    shutil.copytree("/repo", d, symlinks=True)
    try:
        f = os.path.join(d, bug["file"])
        for file, old, new in [(e if len(e) == 3 else (bug["file"],) + tuple(e)) for e in bug["edits"]]:
            f = os.path.join(d, file)
            s = open(f).read()
            if s.count(old) != 1:
                return f"{bug['id']}: text occurs {s.count(old)} times: {old[:60]!r}"
            open(f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(work, bug["id"] + ".out")
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + bug["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport CUDA_VISIBLE_DEVICES= JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        if a.returncode:
            return f"{bug['id']}: demonstration fails on the unchanged tree:\n{a.stderr[-600:]}"
        b = subprocess.run(["bash", out + "/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True)
        if not b.returncode:
            return f"{bug['id']}: demonstration passes with the change"
        rep = os.path.join(work, bug["id"] + ".xml")
        t = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-n", "3", "-p", "no:cacheprovider", "-p", "no:cov", "--timeout=300", "-W", "ignore", "--junitxml", rep], cwd=d, env=ENV, capture_output=True, text=True)
        if t.returncode:
            return f"{bug['id']}: tests fail:\n" + "\n".join(l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))[-500:]
        n = int(ET.parse(rep).getroot().find("testsuite").get("tests")) if ET.parse(rep).getroot().tag != "testsuite" else int(ET.parse(rep).getroot().get("tests"))
        if n < 93:
            return f"{bug['id']}: only {n} tests"
        dst = os.path.join(V, "seeded", bug["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return f"{bug['id']}: OK ({b.stderr.strip().splitlines()[-1][:100] if b.stderr.strip() else ''})"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    from concurrent.futures import ThreadPoolExecutor

    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    bugs = [b for b in bugs if not want or b["id"] in want]
    work = "/tmp/plant.%d" % os.getpid()
    os.makedirs(work)
    try:
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda b: run(b, work), bugs):
                print(r, flush=True)
    finally:
        shutil.rmtree(work)


main()
