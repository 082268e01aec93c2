#!/usr/bin/env python3
"""mutate.py OUT N FILE ...: a development aid, used by no check. Applies N small changes (tools/mutgen) of each FILE of /repo
one at a time to scratch copies; for those that build and pass the tests it runs the file's component of the checks, all labels
counted, and writes what was and what was not noticed to OUT (JSON lines). ALL=1 in the environment: run every change."""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import core, plans

CACHE = "/tmp/mutcache"
_run = core.tlc.run
core.tlc.run = lambda *a, **k: _run(*a, **dict(k, workers=2))
ENV = dict(core.GOENV, GOFLAGS="")
GEN = "/tmp/mutgen"


class All(core.Ctx):
    def label(self, label, rec):
        self.bad.append((label, rec))

    def models_par(self, jobs):
        key = hashlib.sha256(json.dumps(jobs, sort_keys=True, default=lambda x: sorted(map(str, x))).encode()).hexdigest()[:20]
        p = os.path.join(CACHE, key)
        if not os.path.exists(p):
            r = core.Ctx.models_par(self, jobs)
            with open(p + ".new%d" % os.getpid(), "wb") as f:
                pickle.dump({k: [(list(h), getattr(h, "facts", ())) for h in v] for k, v in r.items()}, f)
            os.rename(p + ".new%d" % os.getpid(), p)
        out = {}
        for k, v in pickle.load(open(p, "rb")).items():
            out[k] = []
            for h, f in v:
                x = core.Hist(h)
                x.facts = f
                out[k].append(x)
        return out


def component(ctx, name):
    m = dict(plans.dealer_models(False), **plans.dealer_sims(False))
    plans.D_FOCUS["ALL"] = list(m)
    plans.B_FOCUS["ALL"] = list(plans.broker_models(False)) + list(plans.broker_sims(False))
    ctx.prop = "ALL"
    if name == "dealer":
        plans.dealer(ctx, 0.25)
    elif name == "broker":
        plans.broker(ctx, 0.3)
    elif name == "session":
        plans.session(ctx, 0.4)
    elif name == "handshake":
        plans.handshake(ctx, 0.5)
    elif name == "raw":
        plans.rawsocket(ctx)
    elif name == "ids":
        ctx.prop = "C26"
        plans.ids_traces(ctx)
    elif name == "codec":
        plans.codec(ctx, ["trip"])
        plans.codec(ctx, ["decode"], fuzz=5000)
        plans.codec(ctx, ["payload"], fuzz=3000)


def comps(path):
    if path.startswith("auth/") or path in ("acceptor.go", "joiner.go"):
        return ["handshake"]
    if path.startswith("messages/"):
        return ["codec"]
    if path.startswith("serializers/"):
        return ["codec"]
    return {"dealer.go": ["dealer"], "broker.go": ["broker"], "session.go": ["session"], "idgen.go": ["ids"],
            "types.go": ["dealer", "broker", "handshake"], "util/util.go": ["codec", "dealer", "broker", "handshake"],
            "transports/rawsocket.go": ["raw"]}[path]


def one(job):
    path, m = job
    tmp = tempfile.mkdtemp(prefix="mut.")
    res = dict(m, file=path)
    try:
        repo = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        f = os.path.join(repo, path)
        src = open(f, "rb").read()
        res["was"] = src[m["from"]:m["to"]].decode()[:200]
        open(f, "wb").write(src[:m["from"]] + m["text"].encode() + src[m["to"]:])
        if subprocess.run(["go", "build", "./..."], cwd=repo, env=ENV, capture_output=True).returncode:
            res["result"] = "nobuild"
            return res
        pk = subprocess.run("go test -vet=off -count=1 -timeout 60s $(go list -e ./... | grep -v /tests/interop/)", shell=True, cwd=repo, env=ENV,
                            capture_output=True)
        if pk.returncode:
            res["result"] = "tests"
            return res
        core.REPO = repo
        labels = []
        for c in comps(path):
            ctx = All("ALL", "quick", 1)
            try:
                component(ctx, c)
                known = core.known_findings()
                labels = sorted({l for l, _ in ctx.bad if l not in known})
            except core.ToolError as e:
                labels = ["TOOL " + str(e)[:300]]
            finally:
                ctx.cleanup()
            if labels:
                break
        res["result"] = "caught" if labels else "SURVIVED"
        res["labels"] = labels[:4]
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    out, n, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    os.makedirs(CACHE, exist_ok=True)
    jobs = []
    for path in files:
        ms = [json.loads(l) for l in subprocess.run([GEN, "/repo/" + path], capture_output=True, text=True).stdout.splitlines()]
        src = open("/repo/" + path, "rb").read()
        keep, seen = [], set()
        for m in ms:
            k = (m["from"], m["to"], m["text"])
            line = src[src.rfind(b"\n", 0, m["from"]) + 1:m["from"]].decode()
            if k in seen or m["op"] == "exchange" and random.random() < 0.7 or (m["op"] in ("string", "swap-args", "nil-arg") and re.search(r"Errorf\(|errors\.New\(|Printf\(", line)):
                continue
            seen.add(k)
            keep.append(m)
        random.Random(int(os.environ.get("SEED", "1"))).shuffle(keep)
        jobs += [(path, m) for m in keep[:n]]
    for c in sorted({c for p, _ in jobs for c in comps(p)}):   # fill the cache of models
        ctx = All("ALL", "quick", 1)
        try:
            component(ctx, c)
            print(c, "unchanged:", sorted({l for l, _ in ctx.bad}), flush=True)
        finally:
            ctx.cleanup()
    cnt = {}
    with ProcessPoolExecutor(max_workers=int(os.environ.get("J", "4"))) as ex, open(out, "a") as f:
        for r in ex.map(one, jobs):
            cnt[r["result"]] = cnt.get(r["result"], 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["result"] == "SURVIVED":
                print("%s:%d %s: %s -> %s" % (r["file"], r["line"], r["op"], r["was"], r["text"][:200]), flush=True)
    print(cnt)


main()
