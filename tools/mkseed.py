#!/usr/bin/env python3
"""mkseed.py SPEC.py...  -- SPEC defines id, property, edits=[(file, old, new)], needs, what, demo (python text).
Validates in a scratch copy of /repo and writes /verif/seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, **kw)


def tests(root):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp/lib",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    w = tempfile.mkdtemp()
    r = sh([PY, "-m", "pytest", "-q", "-x", "--rootdir=" + root, "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p",
            "vp_seed", "--timeout=120", root + "/test"], w, env=env)
    shutil.rmtree(w)
    return r


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    for d in g["seeds"]:
        one(d)


def one(d):
    w = tempfile.mkdtemp(prefix="seed_")
    root = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", root)
        for f, old, new in d["edits"]:
            p = os.path.join(root, "pyembroidery", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print("%s: edit text occurs %d times in %s" % (d["id"], s.count(old), f))
                return
            open(p, "w", newline="").write(s.replace(old, new))
        out = os.path.join("/verif/seeded", d["id"])
        demo = os.path.join(w, "demo.py")
        open(demo, "w").write(d["demo"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        a = sh(["bash", "-c", 'PYTHONPATH="$PWD" %s -B %s' % (PY, demo)], "/repo", env=env)
        b = sh(["bash", "-c", 'PYTHONPATH="$PWD" %s -B %s' % (PY, demo)], root, env=env)
        if a.returncode != 0:
            print("%s: demo fails on the unchanged tree: %s" % (d["id"], a.stdout[-400:]))
            return
        if b.returncode == 0:
            print("%s: demo passes with the change" % d["id"])
            return
        t = tests(root)
        if t.returncode != 0:
            print("%s: tests fail: %s" % (d["id"], [x for x in t.stdout.splitlines() if "FAILED" in x or "rror" in x][:4]))
            return
        diff = subprocess.run(["git", "diff"], cwd=root, stdout=subprocess.PIPE).stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(d["demo"])
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# run with cwd = the repository\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$HERE/demo.py"\n')
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("%s: kept" % d["id"])
    finally:
        shutil.rmtree(w, ignore_errors=True)


for x in sys.argv[1:]:
    make(x)
