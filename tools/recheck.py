#!/usr/bin/env python3
"""recheck.py [ID...]: runs the own-property quick check against each seeded change (in scratch copies) and updates seeded_results.json."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))


def one(i):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = "/tmp/recheck-%s" % i
    shutil.rmtree(wt, ignore_errors=True)
    try:
        shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns("mujoco_menagerie"))
        r = subprocess.run(["git", "-C", wt, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return i, prop, "patch fails", r.stderr
        env = dict(os.environ, PKV_REPO=wt, PKV_NO_EVIDENCE="1", PKV_WORKERS="4")
        p = subprocess.run([sys.executable, "run.py", prop, "--seed", os.environ.get("SEED", "1")], cwd=V, env=env, capture_output=True, text=True, timeout=1500)
        return i, prop, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc %d" % p.returncode), p.stdout.strip().split("\n")[0][:200]
    finally:
        shutil.rmtree(wt, ignore_errors=True)


path = os.path.join(V, "seeded_results.json")
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for i, prop, res, msg in ex.map(one, ids):
        print(i, prop, res, "|", msg, flush=True)
        if res in ("MISSED", "caught"):
            allr = json.load(open(path))
            r = allr.setdefault(i, {"property": prop, "status": "kept, " + res})
            r.setdefault("seeds", {})[os.environ.get("SEED", "1")] = res
            r["status"] = "kept, " + res
            r["check_says"] = msg.split(" replay=")[0] + (" facet " + msg.split("replays/")[1].split("-", 1)[1].rsplit("-", 1)[0] if "replays/" in msg else "")
            json.dump(allr, open(path, "w"), indent=1, sort_keys=True)
