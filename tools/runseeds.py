#!/usr/bin/env python3
"""runseeds.py [ids...]: run the check of each seeded bug's property against a patched scratch copy."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

S = "/verif/seeded"


def run(i):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    w = tempfile.mkdtemp(prefix="rs_")
    try:
        root = os.path.join(w, "repo")
        shutil.copytree("/repo", root)
        r = subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=root, capture_output=True, text=True)
        if r.returncode:
            return i, m["property"], "patch does not apply: " + r.stderr[:200]
        env = dict(os.environ, VERIF_ROOT=root, VERIF_EVIDENCE=w)
        r = subprocess.run(["python3", "check.py", m["property"], "quick"], cwd="/verif", env=env, capture_output=True,
                           text=True, timeout=1500)
        det = [x.strip()[:170] for x in r.stdout.splitlines() if x.strip().startswith("violated")][:2]
        return i, m["property"], "%s %s" % ({1: "CAUGHT", 0: "missed"}.get(r.returncode, "ERROR " + r.stderr[-300:] + r.stdout[-200:]), det)
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(S))
ids = [i for i in sorted(os.listdir(S)) if any(i.startswith(x) for x in ids)]
with cf.ThreadPoolExecutor(int(os.environ.get("W", "3"))) as ex:
    for i, p, r in ex.map(run, ids):
        print(i, p, r, flush=True)
