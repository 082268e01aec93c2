#!/usr/bin/env python3
"""trybug.py [-p PROPS] ID ...: runs the check(s) against scratch copies of /repo with planted bugs applied."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(bug, props=None):
    d = bug if os.path.isdir(bug) else os.path.join(ROOT, "seeded", bug)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="try.")
    out = []
    try:
        repo = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, check=True)
        ver = tmp + "/verif"
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        for p in props or [meta["property"]]:
            r = subprocess.run([ver + "/check.py", p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            lab = re.findall(r"VIOLATION.*\n  (.*)", r.stdout)
            out.append("%-28s %s exit %d %s %s" % (os.path.basename(d), p, r.returncode, lab, r.stderr[-600:]))
    finally:
        shutil.rmtree(tmp)
    return "\n".join(out)


args = sys.argv[1:]
props = None
if args[0] == "-p":
    props = args[1].split(",")
    args = args[2:]
with ThreadPoolExecutor(max_workers=int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(lambda b: run(b, props), args):
        print(r, flush=True)
