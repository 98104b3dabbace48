#!/usr/bin/env python3
"""Applies planted changes to a scratch worktree of /repo, one after another, and runs checks against it.

tools/try_seeded.py [ID...] [--all-checks] [--checks P01,P02] [--seed N]   (default: each change's own property)
"""
import argparse, glob, json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--all-checks", action="store_true")
ap.add_argument("--checks", default="")
ap.add_argument("--seed", default="1")
a = ap.parse_args()
tree = tempfile.mkdtemp(prefix="nnseeded-") + "/repo"
env = dict(os.environ, VERIF_SEED=a.seed, VERIF_TIER="quick")
subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tree, "HEAD"], check=True)
missed = []
try:
    for d in sorted(glob.glob(HERE + "/seeded/*")):
        name = os.path.basename(d)
        if a.ids and name not in a.ids:
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", tree, "apply", d + "/patch.diff"], check=True)
        checks = [prop]
        if a.checks:
            checks = a.checks.split(",")
        if a.all_checks:
            checks = ["P%02d" % i for i in range(1, 29)]
        hits = []
        for c in checks:
            p = subprocess.run([HERE + "/run.py", c, "--repo", tree], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and "VIOLATION property=" + c in p.stdout:
                hits.append(c)
            elif p.returncode != 0:
                hits.append(c + "(rc %d)" % p.returncode)
        if prop not in hits:
            missed.append(name)
        print("%-34s %s caught by %s" % (name, prop, " ".join(hits) or "nothing"), flush=True)
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tree])
    os.rmdir(os.path.dirname(tree))
print("missed by their own property's check: " + (" ".join(missed) or "none"))
