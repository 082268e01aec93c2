"""Running TLC on generated configurations of the modules in /verif/spec."""
import json, os, re, shutil, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = shutil.which("java") or "/usr/bin/java"


class ToolError(Exception):
    pass


def tla(v):
    """A Python value as TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class Result:
    def __init__(self):
        self.distinct = self.generated = 0
        self.lines = []       # payloads of printed strings
        self.error = None     # text of a TLC error (invariant violated, evaluation error, ...)
        self.secs = 0.0
        self.out = ""


def run(module, consts=None, spec="Spec", invariants=(), view=None, action_constraint=None, constraint=None,
        properties=(), env=None, workers=1, simulate=None, depth=None, seed=None, tmp=None, heap="3g", timeout=600,
        deadlock=False, keep_out=False):
    """Runs TLC; constants are Python values (see tla)."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=tmp)
    try:
        with open(os.path.join(d, "Run.tla"), "w") as f:
            f.write("---- MODULE Run ----\nEXTENDS %s\n" % module)
            for k, v in (consts or {}).items():
                f.write("c_%s == %s\n" % (k, tla(v)))
            f.write("====\n")
        with open(os.path.join(d, "Run.cfg"), "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if consts:
                f.write("CONSTANTS\n")
                for k in consts:
                    f.write(" %s <- c_%s\n" % (k, k))
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
            if properties:
                f.write("PROPERTIES %s\n" % " ".join(properties))
            if view:
                f.write("VIEW %s\n" % view)
            if action_constraint:
                f.write("ACTION_CONSTRAINT %s\n" % action_constraint)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
        cmd = [JAVA, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if not deadlock:
            cmd += ["-deadlock"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
        if seed is not None:
            cmd += ["-seed", str(seed), "-fp", "1"]
        cmd += ["-config", "Run.cfg", "Run.tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of its %d s on %s" % (timeout, module))
        r = Result()
        r.secs = time.time() - t0
        msgs = []
        for line in p.stdout.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    r.lines.append(json.loads(line))
                except ValueError:
                    r.lines.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
            else:
                msgs.append(line)
        r.out = "\n".join(msgs)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m:
            r.generated = int(m[-1])
            r.distinct = r.distinct or r.generated
        if "Error:" in r.out or p.returncode not in (0,):
            i = r.out.find("Error:")
            r.error = r.out[max(i, 0):][:20000] or ("exit %d: %s" % (p.returncode, p.stderr[-2000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
