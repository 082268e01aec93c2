#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and keeps it under /verif/seeded.
seed.py FILE.py ...: each file defines id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source
with TestSeededDemo)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the code behaves; non-zero: it does not. Run in the repository.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)szz_seeded_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
exec_go() { go test -count=1 -timeout 200s %(flags)s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' ./%(pkg)s; }
exec_go
'''


def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True)


def run(path):
    ns = {}
    exec(open(path).read(), ns)
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        out = os.path.join(tmp, "bug")
        os.makedirs(out)
        pkg = ns.get("pkg", "")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % {"pkg": pkg, "flags": ns.get("flags", "")})
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo_test.go.txt"), "w").write(ns["demo"].lstrip())
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        d0 = subprocess.run([out + "/demo.sh"], cwd=repo, capture_output=True, text=True)
        if d0.returncode:
            return "demo fails on the unchanged tree:\n" + d0.stdout[-1500:] + d0.stderr[-1500:]
        for f, old, new in ns["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d occurrences of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(out, "patch.diff"), "w").write(sh("git diff", repo).stdout)
        touched = False
        for f, old, new in ns["edits"]:
            gone = [l for l in sh("git diff -U0 -- " + f, repo).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            base = sh("git show d57ca6d:" + f, repo).stdout.splitlines()
            touched = touched or any(g[1:] in base and g[1:].strip() not in ("}", "{", "") for g in gone)
        if not touched:
            return "changes no original line"
        b = sh("go build ./... && go vet . ./messages ./serializers ./auth ./util ./internal ./transports", repo)
        if b.returncode:
            return "does not build: " + b.stderr[-1500:]
        for k in range(2):
            t = sh("go test -count=1 $(go list ./... | grep -v interop) 2>&1", repo)
            if t.returncode:
                return "tests fail: " + t.stdout[-1500:]
        d1 = subprocess.run([out + "/demo.sh"], cwd=repo, capture_output=True, text=True)
        if not d1.returncode:
            return "demo passes with the change"
        if "build failed" in d1.stdout:
            return "demo does not build with the change" + d1.stdout
        dst = os.path.join(ROOT, "seeded", ns["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return "kept"
    finally:
        shutil.rmtree(tmp)


for p in sys.argv[1:]:
    print(os.path.basename(p), run(p), flush=True)
