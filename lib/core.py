"""What every check does: build the harness against /repo, model-check and
generate with TLC, run the scenarios on the real code, have TLC judge the
recorded runs, and report."""
import collections, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import tlc
from tlc import ToolError

ROOT = tlc.ROOT
REPO = os.environ.get("VERIF_REPO", "/repo")
GOENV = {"PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
         "HOME": os.environ.get("HOME", "/root"), "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod",
         "GOWORK": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build"}


def known_findings():
    """label -> text, for the findings that are recorded and not repaired."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'KNOWN-FINDING: property=(C\d\d) label="([^"]*)" (.*)', line.strip())
            if m:
                out[m.group(2)] = m.group(3)
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s." % prop)
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.states = self.transitions = self.traces = self.steps = 0
        self.models = []          # what was model-checked
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.extra = collections.OrderedDict()
        self.bad = []             # (label, replay record)
        self.other = collections.Counter()
        self._bins = {}

    # -- building ---------------------------------------------------------
    def build(self, race=False, inst=False):
        """The harness linked with /repo's code; inst: with a scheduling point before every statement of it."""
        key = (race, inst)
        if key in self._bins:
            return self._bins[key]
        overlay = []
        if inst:
            plain = self.build()
            o = os.path.join(self.tmp, "overlay")
            if not os.path.isdir(o):
                os.makedirs(o)
                p = subprocess.run([plain, "instrument", "-repo", REPO, "-out", o], capture_output=True, text=True)
                if p.returncode:
                    raise ToolError("instrumentation failed: " + p.stderr[-2000:])
            overlay = ["-overlay", os.path.join(o, "overlay.json")]
        d = os.path.join(self.tmp, "build%s%s" % ("-race" if race else "", "-inst" if inst else ""))
        os.makedirs(d)
        for f in os.listdir(os.path.join(ROOT, "harness")):
            if f.endswith(".go"):
                shutil.copy(os.path.join(ROOT, "harness", f), d)
        mod = open(os.path.join(REPO, "go.mod")).read()
        req = "\n".join(re.findall(r"^require \(.*?^\)|^require [^(\n]+$", mod, re.M | re.S))
        gov = re.search(r"^go .*$", mod, re.M)
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module verifharness\n\n%s\n\nrequire github.com/xconnio/wampproto-go v0.0.0\n"
                    "replace github.com/xconnio/wampproto-go => %s\n\n%s\n" % (gov.group(0) if gov else "go 1.22", REPO, req))
        if os.path.exists(os.path.join(REPO, "go.sum")):
            shutil.copy(os.path.join(REPO, "go.sum"), d)
        exe = os.path.join(d, "harness")
        p = subprocess.run(["go", "build"] + (["-race"] if race else []) + overlay + ["-o", exe, "."], cwd=d, env=dict(GOENV),
                           capture_output=True, text=True)
        if p.returncode and inst:   # sources the instrumentation cannot handle: run them as they are
            self.notes.append("instrumented build failed, plain build used: " + p.stderr[-300:])
            exe = self.build(race)
        elif p.returncode:
            raise ToolError("harness does not build: " + p.stderr[-3000:])
        self._bins[key] = exe
        return exe

    def harness_twins(self, argss):
        """Runs the harness several times at the same moment, if possible also with the same process ids."""
        self.build()
        try:
            ns = ["unshare", "-Urpf", "--kill-child"]
            if subprocess.run(ns + ["true"], capture_output=True, timeout=20).returncode:
                ns = []
        except (OSError, subprocess.TimeoutExpired):
            ns = []
        self.notes.append("twin processes %s process ids" % ("share their" if ns else "have their own"))
        time.sleep(1.02 - time.time() % 1)   # within one second
        with ThreadPoolExecutor(max_workers=len(argss)) as ex:
            return "\n".join(x for x in ex.map(lambda a: self.harness(a, prefix=ns), argss) if x)

    def harness(self, args, race=False, inst=False, timeout=600, mem=None, prefix=()):
        """Runs the harness; returns "" or a description of how the real code brought the process down."""
        exe = self.build(race, inst)
        env = dict(GOENV, GOTRACEBACK="all", GORACE="halt_on_error=1 exitcode=66")
        try:
            limit = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))) if mem else None
            p = subprocess.run(list(prefix) + [exe] + [str(a) for a in args], env=env, capture_output=True, text=True, timeout=timeout,
                               errors="replace", preexec_fn=limit)
        except subprocess.TimeoutExpired:
            raise ToolError("harness ran out of its %d s: %s" % (timeout, args))
        if p.returncode == 0:
            return ""
        err = p.stderr
        if (p.returncode == 66 or "WARNING: DATA RACE" in err) and "xconnio/wampproto-go" in err:
            return "data race\n" + err[:6000]
        if p.returncode == 2 and ("fatal error:" in err or "panic:" in err) and "xconnio/wampproto-go" in err:
            block = re.search(r"^goroutine \d+ .*\[running.*?(?=\n\n|\Z)", err, re.M | re.S)
            if block and "xconnio/wampproto-go" not in block.group() and ("panic:" in err.split("goroutine")[0] or "concurrent map writes" in err):
                raise ToolError("the harness itself crashed: " + err[:3000])
            return "process crashed\n" + err[:6000]
        raise ToolError("harness failed (%d): %s" % (p.returncode, err[-3000:]))

    def path(self, name):
        return os.path.join(self.tmp, name)

    # -- model checking and generation --------------------------------------
    def model(self, name, module, consts, invariants, emit=True, view="View", simulate=None, depth=None, seed=None, **kw):
        """Checks a model; gives the histories it printed."""
        r = tlc.run(module, consts, invariants=invariants, view=None if simulate else view,
                    action_constraint="EmitHist" if emit else None, simulate=simulate, depth=depth,
                    seed=self.seed if seed is None else seed, tmp=self.tmp, **kw)
        if r.error:
            raise ToolError("model %s: %s" % (name, r.error[-6000:]))
        return name, module, consts, invariants, simulate, r

    def models_par(self, jobs):
        with ThreadPoolExecutor(max_workers=6) as ex:
            rs = [f.result() for f in [ex.submit(lambda j=j: self.model(**j)) for j in jobs]]
        out = {}
        for name, module, consts, invs, sim, r in rs:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"model": name, "module": module, "mode": "simulation" if sim else "exhaustive",
                                "constants": {k: tlc.tla(v)[:300] for k, v in consts.items()}, "invariants": list(invs),
                                "distinct_states": r.distinct, "states_generated": r.generated,
                                "histories": len(r.lines), "seconds": round(r.secs, 1)})
            out[name] = leaves(r.lines)
        return out

    # -- conformance ------------------------------------------------------
    def judge(self, module, tracefile, env=None, keep=None, count=True, workers=8, heap="6g", timeout=800):
        """TLC evaluates the specification on recorded runs; collects broken conjuncts."""
        traces = {}
        total = 0
        for line in open(tracefile):
            t = json.loads(line)
            traces[t["id"]] = t
            total += len(t["steps"]) + 1
        if not traces:
            raise ToolError("no traces recorded in " + tracefile)
        e = {"TRACES": tracefile}
        e.update(env or {})
        r = tlc.run(module, {}, env=e, workers=workers, tmp=self.tmp, heap=heap, timeout=timeout)
        if r.error:
            raise ToolError("%s: %s" % (module, r.error[-5000:]))
        if r.distinct != total:
            raise ToolError("%s visited %d states, the traces have %d" % (module, r.distinct, total))
        if count:
            self.traces += len(traces)
            self.steps += total - len(traces)
        for line in r.lines:
            if not line.startswith("BAD "):
                continue
            b = json.loads(line[4:])
            for label in b["bad"]:
                self.label(label, {"trace": traces[b["t"]], "step": b["i"], "module": module})
        if len(self.samples) < 4:
            ids = sorted(traces)
            t = traces[ids[self.rng.randrange(len(ids))]]
            self.samples.append({"kind": "recorded run judged by " + module, "id": t["id"], "steps": t["steps"][:10],
                                 "length": len(t["steps"])})
        return traces

    def lin(self, what, tracefile, label, workers=8, heap="8g", timeout=800):
        """TLC looks for a sequential explanation of each recorded concurrent run."""
        traces = {}
        for line in open(tracefile):
            t = json.loads(line)
            traces[t["id"]] = t
        if not traces:
            raise ToolError("no concurrent runs recorded")
        r = tlc.run("Lin", {}, env={"TRACES": tracefile, "WHAT": what}, workers=workers, tmp=self.tmp, heap=heap, timeout=timeout)
        if r.error:
            raise ToolError("Lin: " + r.error[-5000:])
        ok = {json.loads(l[4:]) for l in r.lines if l.startswith("LIN ")}
        self.traces += len(traces)
        self.steps += sum(len(t["steps"]) for t in traces.values())
        x = self.extra.setdefault("linearization_states", 0)
        self.extra["linearization_states"] = x + r.distinct
        for k in sorted(set(traces) - ok):
            self.label(label, {"trace": traces[k], "module": "Lin", "what": what})
        ids = sorted(traces)
        t = traces[ids[self.rng.randrange(len(ids))]]
        if len(self.samples) < 6:
            self.samples.append({"kind": "concurrent run explained by Lin (%s)" % what, "id": t["id"], "steps": t["steps"][:14],
                                 "length": len(t["steps"])})

    def label(self, label, rec):
        if label.split(":")[0] == self.prop:
            self.bad.append((label, rec))
        else:
            self.other[label] += 1

    # -- reporting ----------------------------------------------------------
    def finish(self):
        known = known_findings()
        seen_known = collections.Counter()
        new = collections.OrderedDict()
        for label, rec in self.bad:
            if label in known:
                seen_known[label] += 1
            else:
                new.setdefault(label, []).append(rec)
        # a recorded finding is reported on every run of its property
        for label in sorted(known):
            if label.startswith(self.prop + ":"):
                print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (self.prop, known[label], seen_known[label]))
        viol = 0
        evd = os.path.join(ROOT, "evidence")
        os.makedirs(evd, exist_ok=True)
        for k, (label, recs) in enumerate(new.items()):
            viol += len(recs)
            rec = min(recs, key=lambda r: len(json.dumps(r, default=str)))
            path = os.path.join("evidence", "replay-%s-%d.json" % (self.prop, k + 1))
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump({"property": self.prop, "violation": label, "occurrences": len(recs), "tier": self.tier,
                           "seed": self.seed, "record": rec,
                           "reproduce": "VERIF_SEED=%d VERIF_TIER=%s ./check.py %s" % (self.seed, self.tier, self.prop)},
                          f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s (%d times)" % (label, len(recs)))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": collections.OrderedDict([
                  ("states", self.states), ("transitions", self.transitions),
                  ("traces_validated_against_impl", self.traces), ("steps_judged", self.steps),
                  ("samples", self.samples), ("models", self.models)] + list(self.extra.items())),
              "assumptions": self.assumptions + self.notes, "wall_s": round(time.time() - self.t0, 1), "violations": viol}
        if self.other:
            ev["coverage"]["labels_of_other_properties_seen"] = dict(self.other)
        if seen_known:
            ev["coverage"]["known_findings_seen"] = dict(seen_known)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d model states, %d runs (%d steps) of the real code judged, %d violations, %.1f s" %
              (self.prop, self.tier, self.states, self.traces, self.steps, viol, time.time() - self.t0))
        return 1 if new else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


class Hist(list):
    """A history of the model; facts: what the model noted that it shows."""
    facts = ()


def leaves(lines):
    """The printed histories that are not a proper prefix of another one."""
    hs = []
    for line in lines:
        if line.startswith("SCN "):
            x = json.loads(line[4:])
            h = Hist(x["h"] if isinstance(x, dict) else x)
            h.facts = tuple(sorted(x["f"])) if isinstance(x, dict) else ()
            hs.append(h)
    ser = [tuple(json.dumps(o, sort_keys=True) for o in h) for h in hs]
    pre = {s[:-1] for s in ser}
    out, seen = [], set()
    for h, s in zip(hs, ser):
        if s not in pre and s not in seen:
            seen.add(s)
            out.append(h)
    return out


def sample(hs, cap, rng):
    """cap of the histories: half for showing a combination of facts seldom chosen so far, a quarter for showing a single
    fact, a step or two steps in a row; then any."""
    order = list(range(len(hs)))
    rng.shuffle(order)
    keys = {}

    def steps(h):
        ks = [keys.setdefault(json.dumps(o, sort_keys=True), len(keys)) for o in h]
        return set(ks) | set(zip(ks, ks[1:])) | set(getattr(h, "facts", ()))
    chosen = []
    for limit, feats in ((cap // 2, lambda h: {getattr(h, "facts", ())}), (cap * 3 // 4, steps)):
        seen = collections.Counter()
        rest = []
        for i in order:
            fs = feats(hs[i]) if len(chosen) < limit else ()
            if any(seen[f] < 2 for f in fs):
                seen.update(fs)
                chosen.append(i)
            else:
                rest.append(i)
        order = rest
    return sorted(chosen + order[:cap - len(chosen)])


def write_scenarios(path, groups, caps, rng):
    """groups: name -> histories; at most caps[name] of each, sampled."""
    n = 0
    with open(path, "w") as f:
        for name, hs in groups.items():
            cap = caps.get(name, 10 ** 9)
            if len(hs) > cap:
                hs = [hs[i] for i in sample(hs, cap, rng)]
            for i, h in enumerate(hs):
                f.write(json.dumps({"id": "%s.%d" % (name, i), "ops": h}) + "\n")
                n += 1
    return n
