"""Per property: which models are checked, which histories are generated and
replayed on the real code, and what judges them."""
import json, os
from core import ToolError, write_scenarios

PLANS = {}


def plan(*props):
    def deco(f):
        for p in props:
            PLANS[p] = f
        return f
    return deco


# ---------------------------------------------------------------- dealer ---
D_INV = ("C03_Specificity C06_Routed C07_Identity C08_Policy C09_OneFinalReply C10_OneInvocation C11_OnlyCallee "
         "C12_NothingLeft C14_Disclosure").split()
D_BASE = dict(Sess={"s1", "s2"}, InitAtt={"s1", "s2"}, InitRegs=[], RegSpecs={("a.b", "exact", "single")},
              CallUris={"a.b"}, Reqs={1}, Progs={False}, Rps={False}, YProgs={False}, OpsOn={"register", "call"}, Depth=6,
              MaxPend=1, Sim=False, Emit="all", Script=[])


def dm(**kw):
    c = dict(D_BASE)
    c.update(kw)
    return c


def dealer_models(thorough):
    x = 1 if thorough else 0
    T, F = True, False
    m = {}
    m["routing"] = dm(RegSpecs={("a.b.c", "exact", "single"), ("a.b", "prefix", "single"), ("a", "prefix", "single"),
                                ("a.*", "wildcard", "single")}, CallUris={"a.b.c"}, Sess={"s1", "s2"},
                      OpsOn={"register", "unregister", "call", "detach", "attach"}, Depth=6 + x)
    m["wild"] = dm(RegSpecs={("*.b", "wildcard", "single"), ("a.*", "wildcard", "single"), ("a.b.c", "prefix", "single")},
                   CallUris={"a.b", "a.b.c", "c.b"}, OpsOn={"register", "unregister", "call", "detach"}, Depth=6 + x)
    m["admission"] = dm(RegSpecs={("p", mt, pol) for mt in ("exact", "prefix") for pol in ("single", "first", "last")},
                        CallUris={"p"}, OpsOn={"register", "unregister", "call", "detach", "attach"}, Depth=5 + x)
    for pol in ("first", "last", "roundrobin"):
        m["policy-" + pol] = dm(Sess={"s1", "s2", "s3"}, InitAtt={"s1", "s2", "s3"},
                                InitRegs=[("s1", "p", "exact", pol), ("s2", "p", "exact", pol)],
                                RegSpecs={("p", "exact", pol)}, CallUris={"p"}, MaxPend=4,
                                OpsOn={"register", "unregister", "call", "detach"}, Depth=9 + x)
    m["policy-prefix"] = dm(Sess={"s1", "s2", "s3"}, InitAtt={"s1", "s2", "s3"}, RegSpecs={("p", "prefix", "roundrobin")},
                            CallUris={"p.x"}, MaxPend=3, OpsOn={"register", "unregister", "call", "detach"}, Depth=8 + x)
    m["pending"] = dm(Sess={"s1", "s2", "s3"}, InitAtt={"s1", "s2", "s3"}, InitRegs=[("s1", "p", "exact", "single")],
                      RegSpecs={("p", "exact", "single")}, CallUris={"p"}, Reqs={1, 2}, MaxPend=3,
                      OpsOn={"call", "yield", "error"}, Depth=7 + x)
    m["departing"] = dm(Sess={"s1", "s2", "s3"}, InitAtt={"s1", "s2", "s3"},
                        InitRegs=[("s1", "p", "exact", "roundrobin"), ("s2", "p", "exact", "roundrobin")],
                        RegSpecs={("p", "exact", "roundrobin")}, CallUris={"p"}, MaxPend=2,
                        OpsOn={"call", "yield", "detach", "attach", "register"}, Depth=8 + x)
    m["progress"] = dm(Sess={"s1", "s2", "s3"}, InitAtt={"s1", "s2", "s3"},
                       InitRegs=[("s1", "p", "exact", "roundrobin"), ("s2", "p", "exact", "roundrobin")],
                       CallUris={"p"}, Progs={T, F}, Rps={T, F}, YProgs={T, F}, MaxPend=2,
                       OpsOn={"call", "yield", "error"}, Depth=8 + x)
    m["progress-pol"] = dm(Sess={"s1", "s2", "s3"}, InitAtt={"s1", "s2", "s3"},
                           InitRegs=[("s1", "p", "exact", "random"), ("s2", "p", "exact", "random")],
                           RegSpecs={("p", "exact", "random"), ("p.x", "exact", "single")}, CallUris={"p", "p.x"},
                           Progs={T, F}, Rps={T}, YProgs={T}, MaxPend=2, OpsOn={"call", "yield", "register"}, Depth=8 + x)
    # URIs that are one another's with something before or after (see rename in the harness)
    m["glued"] = dm(RegSpecs={(u, mt, pol) for u, mt in (("a", "prefix"), ("a", "exact"), ("ab", "exact"), ("ba", "exact"), ("ac", "wildcard"))
                              for pol in ("single", "roundrobin")}, CallUris={"ab", "ac"}, OpsOn={"register", "unregister", "call"}, Depth=4 + x)
    m["disclosure"] = dm(InitRegs=[("s1", "p", "prefix", "single")], CallUris={"p", "p.q"}, MaxPend=2,
                         OpsOn={"call", "discl", "detach", "attach", "register"}, RegSpecs={("p.q", "exact", "single")}, Depth=7 + x)
    return m


SIM_SPECS = {("a.b", "exact", "roundrobin"), ("a.b.c", "exact", "first"), ("a", "prefix", "last"), ("a.b.", "prefix", "roundrobin"),
             ("", "prefix", "single"), ("a.*", "wildcard", "single"), ("*.c", "wildcard", "random"), ("a.c", "exact", "random"),
             ("a.c", "exact", "single"), ("a.b", "prefix", "roundrobin"), ("a.b", "exact", "last")}


def dealer_sims(thorough):
    T, F = True, False
    crowd = {"s%d" % k for k in range(1, 31)}
    procs = {"%s.%s%d" % (a, b, k) for a in "ab" for b in "xy" for k in range(18)}
    n = 12 if thorough else 3
    all_ops = {"attach", "detach", "register", "unregister", "call", "yield", "error", "discl"}
    s4, s5 = {"s1", "s2", "s3", "s4"}, {"s1", "s2", "s3", "s4", "s5"}
    return {
        "sim-all": (dm(Sess=s4, InitAtt={"s1", "s2", "s3"}, RegSpecs=SIM_SPECS, CallUris={"a.b", "a.b.c", "a.c", "x.c", "b"},
                       Reqs={1, 2}, Progs={T, F}, Rps={T, F}, YProgs={T, F}, OpsOn=all_ops, Depth=45, MaxPend=4, Sim=True,
                       Emit="end"), 150 * n, 50),
        "sim-policy": (dm(Sess=s5, InitAtt=s5, RegSpecs={("p", "exact", "roundrobin"), ("q", "exact", "first"), ("r", "exact", "last"),
                                                         ("p.x", "prefix", "roundrobin")},
                          CallUris={"p", "q", "r", "p.x.y"}, OpsOn={"register", "unregister", "call", "yield", "detach", "attach"},
                          Depth=50, MaxPend=5, Sim=True, Emit="end"), 100 * n, 55),
        "sim-members": (dm(Sess=s5, InitAtt=s5, RegSpecs={("p", "exact", "roundrobin"), ("p.", "prefix", "first"), ("q*", "wildcard", "last"),
                                                          ("q.*", "wildcard", "roundrobin"), ("s.", "prefix", "roundrobin")},
                           CallUris={"p", "p.x", "q.y", "s.t"}, OpsOn={"register", "unregister", "call", "detach", "attach"},
                           Depth=50, MaxPend=50, Sim=True, Emit="end"), 120 * n, 55),
        # many callees, many open calls, many procedures
        "sim-crowd": (dm(Sess=crowd, InitAtt=crowd, RegSpecs={("p", "exact", "roundrobin"), ("q.", "prefix", "last"), ("p", "exact", "roundrobin"),
                                                              ("r", "exact", "first")},
                         CallUris={"p", "q.x", "r"}, Reqs=set(range(1, 60)), OpsOn={"register", "unregister", "call", "yield", "error", "detach"},
                         Depth=220, MaxPend=100, Sim=True, Emit="end"), 4 * n, 230),
        "sim-many": (dm(Sess=s4, InitAtt=s4, RegSpecs={(u, "exact", "single") for u in procs} | {(u[:3], "prefix", "roundrobin") for u in procs} |
                        {(u[0] + ".*" + u[3:], "wildcard", "first") for u in procs},
                        CallUris=procs, Reqs=set(range(1, 60)), OpsOn={"register", "unregister", "call", "yield"},
                        Depth=220, MaxPend=100, Sim=True, Emit="end"), 4 * n, 230),
        # everything opened first and ended then
        "sim-fill": (dm(Sess=crowd, InitAtt=crowd, RegSpecs={("p", "exact", "roundrobin"), ("q.", "prefix", "last"), ("r", "exact", "first")},
                        CallUris={"p", "q.x", "r"}, Reqs=set(range(1, 60)), OpsOn={"register", "unregister", "call", "yield", "error", "detach"},
                        Script=[(90, {"register"}), (260, {"call"}), (420, {"yield", "error"}), (460, {"unregister", "register"})],
                        Depth=500, MaxPend=400, Sim=True, Emit="end"), n, 510),
        "sim-procs": (dm(Sess=s4, InitAtt=s4, RegSpecs={(u, "exact", "single") for u in procs} | {(u[:3], "prefix", "roundrobin") for u in procs} |
                         {(u[0] + ".*" + u[3:], "wildcard", "first") for u in procs},
                         CallUris=procs, Reqs=set(range(1, 60)), OpsOn={"register", "unregister", "call", "yield"},
                         Script=[(150, {"register"}), (240, {"call", "yield"}), (300, {"unregister", "register"})],
                         Depth=340, MaxPend=100, Sim=True, Emit="end"), n, 350),
        # sessions that leave and come back as somebody else
        "sim-return": (dm(Sess=s4, InitAtt={"s1", "s2", "s3"}, RegSpecs={("p", "exact", "roundrobin"), ("q.", "prefix", "single"), ("r*", "wildcard", "first")},
                          CallUris={"p", "q.x", "rr"}, Reqs={1, 2, 3}, Progs={T, F}, Rps={T, F}, YProgs={T, F},
                          OpsOn={"register", "call", "yield", "error", "detach", "attach", "discl"},
                          Script=[(10, {"register", "discl"}), (24, {"call", "yield", "error"}), (28, {"detach"}), (34, {"attach"}),
                                  (42, {"register", "discl"}), (58, {"call", "yield"}), (62, {"detach"}), (68, {"attach"}), (76, {"register", "discl"})],
                          Depth=95, MaxPend=30, Sim=True, Emit="end"), 40 * n, 105),
        "sim-pending": (dm(Sess=s4, InitAtt=s4, InitRegs=[("s1", "p", "exact", "roundrobin"), ("s2", "p", "exact", "roundrobin"),
                                                          ("s3", "q", "exact", "single")],
                           RegSpecs={("p", "exact", "roundrobin"), ("q", "exact", "single")}, CallUris={"p", "q"}, Reqs={1, 2, 3},
                           Progs={T, F}, Rps={T, F}, YProgs={T, F}, OpsOn={"register", "call", "yield", "error", "detach", "attach"},
                           Depth=45, MaxPend=5, Sim=True, Emit="end"), 100 * n, 50),
    }


# models a property leans on: all their histories are replayed, of the others a sample
D_FOCUS = {"C03": ["routing", "glued", "wild", "sim-all", "sim-members", "sim-many", "sim-procs"], "C06": ["routing", "admission", "sim-all", "sim-many", "sim-procs", "sim-crowd", "sim-fill"],
           "C07": ["admission", "routing", "glued", "sim-all", "sim-members", "sim-many", "sim-procs", "sim-crowd", "sim-fill"],
           "C08": ["policy-first", "policy-last", "policy-roundrobin", "policy-prefix", "sim-policy", "sim-members", "sim-crowd", "sim-fill"],
           "C09": ["pending", "departing", "sim-pending", "sim-crowd", "sim-fill"], "C10": ["progress", "progress-pol", "sim-pending"],
           "C11": ["pending", "sim-pending", "sim-crowd", "sim-fill"],
           "C12": ["departing", "routing", "disclosure", "sim-all", "sim-members", "sim-crowd", "sim-fill", "sim-return"],
           "C13": ["pending", "progress", "sim-pending", "sim-return"], "C14": ["disclosure", "sim-all", "sim-return"]}


def chaos_runs(ctx):
    return (4000 if ctx.thorough else 400) if ctx.prop == "C12" else 0


def dealer(ctx, scale=1.0):
    th = ctx.thorough
    focus = D_FOCUS[ctx.prop]
    models, sims = dealer_models(th), dealer_sims(th)
    if not th:   # quick: the models in focus and the cheap general ones
        models = {k: v for k, v in models.items() if k in focus or k in ("routing", "departing", "progress")}
    jobs = [dict(name=k, module="DealerModel", consts=v, invariants=D_INV) for k, v in models.items()]
    jobs += [dict(name=k, module="DealerModel", consts=c, invariants=D_INV, simulate=n, depth=dp)
             for k, (c, n, dp) in sims.items() if th or k in focus or k == "sim-all"]
    groups = ctx.models_par(jobs)
    f, o = (20000, 6000) if th else (int(1500 * scale), int(350 * scale))
    caps = {k: f if k in focus else o for k in groups}
    scn = ctx.path("dealer.scn")
    write_scenarios(scn, groups, caps, ctx.rng)
    run_component(ctx, "dealer", "Trace_Dealer", scn, ["-spread", 6 if ctx.prop == "C08" else 0, "-chaos", chaos_runs(ctx)])


# histories of very many requests, per component and property
# (the first two of a component's are a crowd of sessions)
BULK = {("dealer", "C06"): 7, ("dealer", "C07"): 6, ("dealer", "C08"): 7, ("dealer", "C09"): 6, ("dealer", "C12"): 4,
        ("broker", "C01"): 5, ("broker", "C02"): 6, ("broker", "C04"): 5, ("broker", "C05"): 2, ("broker", "C12"): 4,
        ("session", "C15"): 8, ("session", "C16"): 12}


def run_component(ctx, sub, module, scn, extra):
    out = ctx.path(sub + ".tr")
    bulk, many = BULK.get((sub, ctx.prop), 0), 200000 if ctx.thorough else 70000
    crash = ctx.harness([sub, "-in", scn, "-out", out, "-seed", ctx.seed] + extra + (["-bulk", bulk, "-many", many] if bulk else []))
    if crash:
        ctx.label(ctx.prop + ":process brought down while running " + sub + " histories", {"stderr": crash})
        return
    if bulk and os.path.getsize(out + ".bulk"):
        ctx.judge(module, out + ".bulk")
    ctx.judge(module, out)


# ---------------------------------------------------------------- broker ---
B_INV = "C01_Recipients C02_Identity C03_Specificity C04_Acknowledged C05_Exclusion C12_NothingLeft C14_Disclosure".split()
B_BASE = dict(Sess={"s1", "s2"}, InitAtt={"s1", "s2"}, SubSpecs={("a.b", "exact")}, PubUris={"a.b"}, Excl={True, False}, Acks={True},
              OpsOn={"subscribe", "unsubscribe", "publish"}, Depth=6, Sim=False, Emit="all", Script=[])


def bm(**kw):
    c = dict(B_BASE)
    c.update(kw)
    return c


def broker_models(thorough):
    x = 1 if thorough else 0
    s3 = {"s1", "s2", "s3"}
    T, F = True, False
    return {
        "b-routing": bm(SubSpecs={("a.b.c", "exact"), ("a.b", "prefix"), ("a", "prefix"), ("a.*", "wildcard")}, PubUris={"a.b.c"},
                        Excl={F}, OpsOn={"subscribe", "unsubscribe", "publish", "detach"}, Depth=6 + x),
        "b-same": bm(SubSpecs={("a", "exact"), ("a", "prefix"), ("a", "wildcard")}, PubUris={"a", "a.b"},
                     OpsOn={"subscribe", "unsubscribe", "publish", "detach"}, Depth=6 + x),
        "b-members": bm(Sess=s3, InitAtt=s3, SubSpecs={("t", "exact"), ("t", "prefix")}, PubUris={"t"}, Excl={F},
                        OpsOn={"subscribe", "unsubscribe", "publish", "detach", "attach"}, Depth=7 + x),
        "b-exclude": bm(Sess=s3, InitAtt=s3, SubSpecs={("t", "exact"), ("t*", "wildcard"), ("t", "prefix")}, PubUris={"t"}, Acks={T, F},
                        OpsOn={"subscribe", "publish", "unsubscribe"}, Depth=6 + x),
        "b-departing": bm(SubSpecs={("t", "exact"), ("t", "prefix"), ("u", "exact")}, PubUris={"t", "u"}, Excl={F},
                          OpsOn={"subscribe", "publish", "detach", "attach", "unsubscribe"}, Depth=6 + x),
        "b-glued": bm(SubSpecs={("a", "exact"), ("a", "prefix"), ("a", "wildcard"), ("ab", "exact"), ("ba", "exact"), ("ac", "exact"), ("ca", "prefix")},
                      PubUris={"ab", "ba", "ac"}, Excl={F}, OpsOn={"subscribe", "unsubscribe", "publish"}, Depth=4 + x),
        "b-disclosure": bm(SubSpecs={("t", "prefix"), ("t.u", "exact")}, PubUris={"t.u"}, Excl={F},
                           OpsOn={"subscribe", "publish", "detach", "attach", "discl"}, Depth=6 + x),
    }


def broker_sims(thorough):
    T, F = True, False
    n = 12 if thorough else 3
    s5 = {"s1", "s2", "s3", "s4", "s5"}
    crowd = {"s%d" % k for k in range(1, 31)}
    topics = {"%s.%s%d" % (a, b, k) for a in "ab" for b in "xy" for k in range(18)}
    specs = {("a.b", "exact"), ("a.b.c", "exact"), ("a", "prefix"), ("a.b.", "prefix"), ("", "prefix"), ("a.*", "wildcard"),
             ("*.c", "wildcard"), ("a.b", "prefix"), ("a.b", "wildcard"), ("a.c", "exact")}
    ops = {"attach", "detach", "subscribe", "unsubscribe", "publish", "discl"}
    return {
        "b-sim-all": (bm(Sess=s5, InitAtt={"s1", "s2", "s3"}, SubSpecs=specs, PubUris={"a.b", "a.b.c", "a.c", "x.c", "b", "a"},
                         Acks={T, F}, OpsOn=ops, Depth=45, Sim=True, Emit="end"), 150 * n, 50),
        "b-sim-crowd": (bm(Sess=crowd, InitAtt=crowd, SubSpecs={("a.b", "exact"), ("a", "prefix"), ("t*", "wildcard")}, PubUris={"a.b", "a", "tt"},
                           Acks={T, F}, OpsOn=ops, Depth=200, Sim=True, Emit="end"), 4 * n, 210),
        "b-sim-many": (bm(Sess=s5, InitAtt=s5, SubSpecs={(u, "exact") for u in topics} | {(u[:3], "prefix") for u in topics} |
                          {(u[0] + ".*" + u[3:], "wildcard") for u in topics}, PubUris=topics,
                          Acks={T, F}, OpsOn=ops - {"detach", "attach"}, Depth=200, Sim=True, Emit="end"), 4 * n, 210),
        "b-sim-fill": (bm(Sess=crowd, InitAtt=crowd, SubSpecs={("a.b", "exact"), ("a", "prefix"), ("t*", "wildcard")}, PubUris={"a.b", "a", "tt"},
                          Acks={T, F}, OpsOn=ops, Script=[(140, {"subscribe"}), (170, {"publish"}), (200, {"unsubscribe", "publish"}),
                                                          (230, {"detach", "publish"})],
                          Depth=260, Sim=True, Emit="end"), 2 * n, 270),
        "b-sim-topics": (bm(Sess=s5, InitAtt=s5, SubSpecs={(u, "exact") for u in topics} | {(u[:3], "prefix") for u in topics} |
                            {(u[0] + ".*" + u[3:], "wildcard") for u in topics}, PubUris=topics, Acks={T, F}, OpsOn=ops,
                            Script=[(200, {"subscribe"}), (260, {"publish"}), (320, {"unsubscribe", "publish"})],
                            Depth=340, Sim=True, Emit="end"), n, 350),
        "b-sim-return": (bm(Sess=s5, InitAtt={"s1", "s2", "s3"}, SubSpecs={("a.b", "exact"), ("a", "prefix"), ("t*", "wildcard")}, PubUris={"a.b", "a", "tt"},
                            Acks={T, F}, OpsOn=ops, Script=[(12, {"subscribe", "discl"}), (24, {"publish"}), (28, {"detach"}), (34, {"attach"}),
                                                            (42, {"subscribe", "discl"}), (56, {"publish"}), (60, {"detach"}), (66, {"attach"}),
                                                            (74, {"subscribe", "discl"}), (85, {"publish"})],
                            Depth=95, Sim=True, Emit="end"), 30 * n, 105),
        "b-sim-few": (bm(Sess=s5, InitAtt=s5, SubSpecs={("a.b", "exact"), ("a", "prefix"), ("a*", "wildcard")}, PubUris={"a.b", "a"},
                         Acks={T, F}, OpsOn=ops, Depth=45, Sim=True, Emit="end"), 100 * n, 50),
    }


B_FOCUS = {"C01": ["b-members", "b-routing", "b-sim-few", "b-sim-crowd", "b-sim-fill"], "C02": ["b-same", "b-glued", "b-members", "b-sim-all", "b-sim-many", "b-sim-topics"],
           "C03": ["b-routing", "b-glued", "b-same", "b-sim-all", "b-sim-many", "b-sim-topics"], "C04": ["b-exclude", "b-members", "b-sim-few", "b-sim-crowd", "b-sim-fill"],
           "C05": ["b-exclude", "b-sim-few", "b-sim-crowd", "b-sim-fill"], "C12": ["b-departing", "b-members", "b-disclosure", "b-sim-all", "b-sim-crowd", "b-sim-fill", "b-sim-return"],
           "C14": ["b-disclosure", "b-sim-all", "b-sim-return"]}


def broker(ctx, scale=1.0):
    th = ctx.thorough
    focus = B_FOCUS[ctx.prop]
    models, sims = broker_models(th), broker_sims(th)
    if not th:
        models = {k: v for k, v in models.items() if k in focus or k in ("b-routing", "b-same", "b-departing")}
    jobs = [dict(name=k, module="BrokerModel", consts=v, invariants=B_INV) for k, v in models.items()]
    jobs += [dict(name=k, module="BrokerModel", consts=c, invariants=B_INV, simulate=n, depth=dp)
             for k, (c, n, dp) in sims.items() if th or k in focus or k == "b-sim-all"]
    groups = ctx.models_par(jobs)
    f, o = (20000, 6000) if th else (int(1500 * scale), int(350 * scale))
    caps = {k: f if k in focus else o for k in groups}
    scn = ctx.path("broker.scn")
    write_scenarios(scn, groups, caps, ctx.rng)
    run_component(ctx, "broker", "Trace_Broker", scn, ["-chaos", chaos_runs(ctx)])


@plan("C06", "C07", "C08", "C09", "C10", "C11", "C13")
def dealer_only(ctx):
    dealer(ctx)


@plan("C01", "C02", "C04", "C05")
def broker_only(ctx):
    broker(ctx)


@plan("C03", "C12", "C14")
def router_both(ctx):
    dealer(ctx, 0.7)
    broker(ctx, 0.7)


# --------------------------------------------------------------- session ---
S_INV = ["C15_Once", "C16_Held"]
S_SENDS = {"call", "register", "unregister", "subscribe", "unsubscribe", "publish"}
S_RECVS = {"result", "registered", "unregistered", "subscribed", "unsubscribed", "published", "event", "invocation"}
S_OTHER_SEND = {"yield", "inverror", "goodbye", "result", "event", "invocation", "welcome", "error", "interrupt", "registered",
                "challenge", "published", "subscribed", "unregistered", "unsubscribed"}
S_OTHER_RECV = {"goodbye", "abort", "call", "yield", "hello", "publish", "junk", "welcome", "register", "unregister", "subscribe",
                "unsubscribe", "authenticate", "cancel", "interrupt", "challenge"}


def session_models(thorough):
    x = 1 if thorough else 0
    b = dict(Reqs={"1", "2"}, Ids={"5", "6"}, Sim=False, Emit="all", Steps=0, Script=[])

    def sm(send, recv, err, depth, **kw):
        c = dict(b, SendKinds=set(send), RecvKinds=set(recv), ErrKinds=set(err), Depth=depth)
        c.update(kw)
        return c
    s3 = {"1", "2", "3"}
    return {
        "s-sub": sm(["subscribe", "unsubscribe"], ["subscribed", "unsubscribed", "event"], ["subscribe", "unsubscribe"], 6 + x),
        "s-reg": sm(["register", "unregister"], ["registered", "unregistered", "invocation"], ["register", "unregister"], 6 + x),
        "s-sub-steps": sm(["subscribe", "unsubscribe"], ["subscribed", "unsubscribed", "event"], ["unsubscribe"], 6 + x, Steps=2, Reqs={"1"}),
        "s-reg-steps": sm(["register", "unregister"], ["registered", "unregistered", "invocation"], ["unregister"], 6 + x, Steps=2, Reqs={"1"}),
        "s-both": sm(["subscribe", "unsubscribe", "register", "unregister"],
                     ["subscribed", "unsubscribed", "registered", "unregistered", "event", "invocation"], [], 6 + x, Ids={"5"},
                     Reqs={"1", "2"}),
        "s-call": sm(["call", "publish"], ["result", "published"], ["call", "publish", "register"], 6 + x),
        "s-kinds": sm(S_SENDS, S_RECVS, S_SENDS | {"invocation"}, 4 + x, Reqs={"1"}, Ids={"1"}),
        "s-all": sm(S_SENDS | S_OTHER_SEND, S_RECVS | S_OTHER_RECV, S_SENDS | {"invocation", "result", "hello"}, 2 + x, Reqs={"1"},
                    Ids={"1"}),
    }


def session_sims(thorough):
    n = 12 if thorough else 4
    b = dict(Reqs={"1", "2", "3"}, Ids={"1", "5", "6"}, Sim=True, Emit="end", Steps=0, Script=[])
    return {
        "s-sim-all": (dict(b, SendKinds=S_SENDS | S_OTHER_SEND, RecvKinds=S_RECVS | S_OTHER_RECV, ErrKinds=S_SENDS | {"invocation"},
                           Depth=60), 200 * n, 65),
        "s-sim-crowd": (dict(b, SendKinds=S_SENDS, RecvKinds=S_RECVS, ErrKinds=S_SENDS, Depth=400, Reqs={str(k) for k in range(1, 151)},
                             Ids={str(k) for k in range(1, 81)}), 5 * n, 410),
        "s-sim-fill": (dict(b, SendKinds=S_SENDS, RecvKinds=S_RECVS, ErrKinds=S_SENDS, Depth=750, Reqs={str(k) for k in range(1, 151)},
                            Ids={str(k) for k in range(1, 151)}, Script=[(400, {"Send"}), (540, {"RecvOpen"}), (600, {"SendHeld"}), (680, {"RecvOpen", "RecvHeld"})]),
                       n, 760),
        "s-sim-main": (dict(b, SendKinds=S_SENDS, RecvKinds=S_RECVS, ErrKinds=S_SENDS, Depth=60), 300 * n, 65),
    }


def session(ctx, scale=1.0):
    th = ctx.thorough
    models, sims = session_models(th), session_sims(th)
    jobs = [dict(name=k, module="SessionModel", consts=v, invariants=S_INV) for k, v in models.items()]
    jobs += [dict(name=k, module="SessionModel", consts=c, invariants=S_INV, simulate=n, depth=dp) for k, (c, n, dp) in sims.items()]
    groups = ctx.models_par(jobs)
    cap = 30000 if th else int(2500 * scale)
    scn = ctx.path("session.scn")
    write_scenarios(scn, groups, {k: cap for k in groups}, ctx.rng)
    run_component(ctx, "session", "Trace_Session", scn, [])


@plan("C15", "C16")
def session_only(ctx):
    session(ctx)


# ------------------------------------------------------------- handshake ---
H_INV = ["C18_Welcome", "C19_Bound", "C20_Once", "C21_Agree"]
H_OTHERS = {"welcome", "challenge", "abort", "goodbye", "call", "subscribe", "publish", "register", "yield", "result", "error", "event",
            "invocation", "junk"}
H_USERS = {"A", "B", "C", "alias", "both", "plain", "junk", "anyone", "nobody"}


def sig(k, who, par="-", form="std"):
    return {"k": k, "who": who, "par": par, "form": form}


class Raw(dict):
    """A record that can be put in a Python set."""
    def __hash__(self):
        return hash(json.dumps(self, sort_keys=True))


def recs(xs):
    return {Raw(x) for x in xs}


def cra_sigs(users):
    return [sig("cra", u, "own") for u in users] + [sig("cra", u, p) for u in users for p in ("plain", "iter", "keylen", "salt", "raw")] + \
        [sig("cra", u, "own", f) for u in users for f in ("trunc", "ext", "empty", "flip", "hex", "short")]


def cs_sigs(users):
    return [sig("cs", u, "-", f) for u in users for f in ("std", "upper", "bare", "spliced", "othermsg", "long", "part", "hexmsg", "trunc", "flip",
                                                          "flipmsg", "empty", "zero", "nothex")]


def ticket_sigs(users):
    return [sig("ticket", u, "-", f) for u in users for f in ("std", "ext", "trunc", "empty", "upper")]


def h_pairs(users, realms):
    out = []
    for en in ([], ["anonymous"], ["ticket"], ["wampcra"], ["cryptosign"], ["cryptosign", "wampcra", "ticket", "anonymous"], ["default"]):
        for m in ("anonymous", "ticket", "wampcra", "cryptosign"):
            for r in realms:
                for u in users:
                    for c in {u if u in ("A", "B", "C", "alias", "junk", "plain", "both") else "A", "A", "B"}:
                        if m == "anonymous" and c != "A":
                            continue
                        out.append({"op": "pair", "h": "p", "enabled": ["anonymous"] if en == ["default"] else en, "nilauth": en == ["default"],
                                    "method": m, "realm": r, "authid": u, "cred": c})
    return out


def handshake_models(thorough):
    x = 1 if thorough else 0
    allm = ("anonymous", "cryptosign", "ticket", "wampcra")
    base = dict(Hs={"h1"}, Configs={allm}, Offers={()}, Realms={"r1"}, Ids={"A"}, Pks={"A"}, Sigs=set(), Others=set(), Js=set(), JCreds=set(),
                JMsgs=set(), Pairs=set(), Keys=set(), Changes=set(), OpsOn={"hello", "auth", "other"}, Depth=3, Sim=False, Emit="all")

    def hm(**kw):
        c = dict(base)
        c.update(kw)
        return c
    offers = {()} | {(m,) for m in allm + ("scram", "")} | {(a, b) for a in allm + ("scram",) for b in allm + ("scram",) if a != b}
    one = {(m,) for m in allm}
    m = {}
    m["h-select"] = hm(Configs={(), ("default",), allm, ("anonymous",), ("ticket",), ("wampcra", "cryptosign"), ("scram", "ticket"),
                                ("anonymous", "ticket")}, Offers=offers, Pks={"A", "missing"}, Depth=2)
    m["h-users"] = hm(Configs={allm}, Offers=one, Ids=H_USERS, Realms={"r1", "r2", "r3"},
                      Pks={"A", "B", "junk", "alias", "both", "missing", "int", "empty"}, Depth=2)
    m["h-ticket"] = hm(Offers={("ticket",)}, Ids={"A", "B", "alias", "nobody", "both"}, Realms={"r1", "r2"},
                       Sigs=recs(ticket_sigs(["A", "B", "alias"]) + [sig("garbage", "A")]), Depth=4)
    m["h-cra"] = hm(Offers={("wampcra",)}, Hs={"h1", "h2"} if thorough else {"h1"}, Ids={"A", "B", "C", "alias"},
                    Sigs=recs(cra_sigs(["A", "B", "C", "alias"]) + [sig("garbage", "A"), sig("ticket", "A")]), Depth=3 + x)
    m["h-cs"] = hm(Offers={("cryptosign",)}, Ids={"A", "alias", "junk"}, Pks={"A", "alias", "junk"},
                   Sigs=recs(cs_sigs(["A", "B", "alias", "junk"]) + [sig("garbage", "A")]), Depth=3 + x)
    m["h-replay"] = hm(Hs={"h1", "h2"}, Offers={("wampcra",), ("cryptosign",)}, Ids={"A", "B"}, Pks={"A", "B"},
                       Sigs=recs([sig("cra", "A", "own"), sig("cra", "B", "own"), sig("cs", "A"), sig("cs", "B")]), Depth=5 + x)
    m["h-realms"] = hm(Hs={"h1", "h2"}, Offers={("wampcra",), ("cryptosign",), ("ticket",)}, Ids={"A", "B"}, Pks={"A"}, Realms={"r1", "r2"},
                       Sigs=recs([sig("cra", "A", "own"), sig("cs", "A"), sig("ticket", "A")]), Depth=4 + x)
    m["h-change"] = hm(Hs={"h1"}, Offers={("wampcra",), ("cryptosign",), ("ticket",), ("anonymous",)}, Ids={"A", "B"}, Pks={"A", "B"}, Realms={"r2"},
                       Sigs=recs([sig("cra", "A", "own"), sig("cra", "B", "own"), sig("cra", "B", "rot"), sig("cs", "B"), sig("ticket", "B"),
                                  sig("ticket", "B", "-", "rot")]),
                       Changes={("B", k) for k in ("as", "revoked", "demoted", "rotated")}, OpsOn={"hello", "auth"}, Depth=5 + x)
    m["h-order"] = hm(Offers=one, Ids={"A", "nobody"}, Pks={"A", "missing"}, Others=H_OTHERS,
                      Sigs=recs([sig("ticket", "A"), sig("cra", "A", "own"), sig("cs", "A"), sig("garbage", "A")]), Depth=4 + x)
    jm = [{"kind": k, "method": "-", "form": "-"} for k in sorted(H_OTHERS - {"welcome", "challenge"}) + ["hello", "authenticate"]] + \
         [{"kind": "welcome", "method": "ticket", "form": f} for f in ("full", "bare", "typed")] + \
         [{"kind": "challenge", "method": k, "form": f} for k in allm for f in ("ok", "nochallenge", "nothex", "nonstring", "badsalt")]
    m["h-joiner"] = hm(Hs=set(), Configs=set(), Js={"j1"}, JCreds={("r1", k, u) for k in allm for u in ("A",)}, JMsgs=recs(jm), Depth=5)
    m["h-pairs"] = hm(Hs=set(), Configs=set(), Pairs=recs(h_pairs(sorted(H_USERS), ["r1", "r2"])), OpsOn={"pair"}, Depth=1)
    m["h-keys"] = hm(Hs=set(), Configs=set(), Depth=1, Keys=recs(
        {"op": "key", "h": "k", "form": f, "pub": p, "n": n} for f in ("std", "upper", "short", "odd", "long", "expanded", "nothex")
        for p in ("none", "right", "upper", "wrong", "kind") for n in range(20 if thorough else 4)))
    return m, hm, jm


def challenges(ctx):
    """Challenges handed out by several processes: none is used twice."""
    steps = []
    outs = [ctx.path("challenges%d" % k) for k in range(5)]
    args = lambda o, big: ["challenges", "-out", o, "-n", 200 if ctx.thorough else 40, "-big", big]
    crash = ctx.harness_twins([args(o, 0) for o in outs[:4]]) or ctx.harness(args(outs[4], 3000000 if ctx.thorough else 300000))
    if crash:
        ctx.label(ctx.prop + ":process brought down while handing out challenges", {"stderr": crash})
        return
    for o in outs:
        steps += json.loads(open(o).readline())["steps"]
    with open(ctx.path("challenges"), "w") as f:
        f.write(json.dumps({"id": "challenges", "steps": steps}) + "\n")
    ctx.judge("Trace_Handshake", ctx.path("challenges"))


def handshake(ctx, scale=1.0):
    th = ctx.thorough
    n = 15 if th else 1
    models, hm, jm = handshake_models(th)
    allm = ("anonymous", "cryptosign", "ticket", "wampcra")
    sims = {
        "h-sim": (hm(Hs={"h1", "h2", "h3"}, Configs={allm, ("cryptosign", "wampcra"), ("wampcra",), ("cryptosign",)},
                     Offers={(), ("cryptosign",), ("wampcra",), ("ticket",), ("cryptosign", "wampcra"), ("anonymous",)}, Ids=H_USERS - {"nobody"},
                     Realms={"r1", "r2"}, Pks={"A", "B", "C", "alias", "junk"},
                     Sigs=recs(cra_sigs(["A", "B", "C"]) + cs_sigs(["A", "B"]) + ticket_sigs(["A", "B"])), Others={"goodbye", "junk", "call"},
                     Js={"j1", "j2"}, JCreds={(r, k, u) for r in ("r1", "r2") for k in allm for u in ("A", "B", "C")}, JMsgs=recs(jm),
                     Pairs=recs(h_pairs(["A", "B", "C", "alias", "anyone"], ["r1", "r2"])), OpsOn={"hello", "auth", "other", "pair"}, Depth=20,
                     Sim=True, Emit="end"), 800 * n, 25),
        "h-sim-replay": (hm(Hs={"h1", "h2", "h3", "h4"}, Configs={("cryptosign", "wampcra")}, Offers={("cryptosign",), ("wampcra",)},
                            Ids={"A", "B", "C"}, Realms={"r1", "r2"}, Pks={"A", "B", "C"},
                            Sigs=recs([sig("cra", u, "own") for u in "ABC"] + [sig("cs", u) for u in "ABC"]), OpsOn={"hello", "auth"},
                            Depth=14, Sim=True, Emit="end"), 800 * n, 20),
        "h-sim-again": (hm(Hs={"h%d" % k for k in range(1, 8)}, Configs={allm}, Offers={("cryptosign",), ("wampcra",), ("ticket",), ("anonymous",)},
                           Ids={"A", "B", "C", "alias"}, Realms={"r1", "r2", "r3"}, Pks={"A", "B", "C", "alias"},
                           Changes={(u, k) for u in ("A", "B", "C", "alias") for k in ("as", "revoked", "demoted", "rotated")},
                           Pairs=recs(p for p in h_pairs(["A", "B", "C", "alias"], ["r1", "r2"]) if len(p["enabled"]) == 4),
                           OpsOn={"again", "pair"}, Depth=24, Sim=True, Emit="end"), 800 * n, 30)}
    jobs = [dict(name=k, module="HandshakeModel", consts=v, invariants=H_INV) for k, v in models.items()]
    jobs += [dict(name=k, module="HandshakeModel", consts=c, invariants=H_INV, simulate=nn, depth=dp) for k, (c, nn, dp) in sims.items()]
    groups = ctx.models_par(jobs)
    cap = 30000 if th else int(2500 * scale)
    scn = ctx.path("handshake.scn")
    write_scenarios(scn, groups, {k: cap for k in groups}, ctx.rng)
    run_component(ctx, "handshake", "Trace_Handshake", scn, [])


@plan("C18", "C19", "C20", "C21")
def handshake_only(ctx):
    handshake(ctx)
    if ctx.prop == "C19":
        challenges(ctx)


# ----------------------------------------------------------- concurrency ---
def conc_jobs(what, th):
    """Models whose histories are cut into a sequential part and a window run by several goroutines."""
    T, F = True, False
    n = 1500 if th else 250
    s3, s4 = {"s1", "s2", "s3"}, {"s1", "s2", "s3", "s4"}
    if what == "dealer":
        regs = {("p", "exact", "roundrobin"), ("p.", "prefix", "first"), ("q*", "wildcard", "last"), ("p", "exact", "single")}
        sim = dm(Sess=s4, InitAtt=s3, RegSpecs=regs, CallUris={"p", "p.x", "q"}, Reqs={1, 2}, Progs={T, F}, Rps={T, F}, YProgs={T, F},
                 OpsOn={"attach", "detach", "register", "unregister", "call", "yield", "error", "discl"}, Depth=18, MaxPend=4, Sim=True,
                 Emit="end")
        hot = dm(Sess=s3, InitAtt=s3, InitRegs=[("s1", "p", "exact", "roundrobin"), ("s2", "p", "exact", "roundrobin")],
                 RegSpecs={("p", "exact", "roundrobin")}, CallUris={"p"}, Rps={T}, YProgs={T, F}, MaxPend=3,
                 OpsOn={"register", "unregister", "call", "yield", "error", "detach", "attach"}, Depth=8 + (1 if th else 0))
        t = ["t%d" % k for k in range(1, 6)]
        leave = dm(RegSpecs={(u, "exact", "single") for u in t} | {("t", "prefix", "roundrobin"), ("u*", "wildcard", "single")}, CallUris=set(t),
                   Script=[(12, {"register"}), (13, {"detach"})], Depth=13, Sim=True, Emit="end")
        return [dict(name="conc-sim", module="DealerModel", consts=sim, invariants=D_INV, simulate=n, depth=25),
                dict(name="conc-leave", module="DealerModel", consts=leave, invariants=D_INV, simulate=n // 2, depth=20),
                dict(name="conc-hot", module="DealerModel", consts=hot, invariants=D_INV)]
    if what == "broker":
        subs = {("p", "exact"), ("p", "prefix"), ("q*", "wildcard")}
        sim = bm(Sess=s4, InitAtt=s3, SubSpecs=subs, PubUris={"p", "p.x", "q"}, Acks={T, F},
                 OpsOn={"attach", "detach", "subscribe", "unsubscribe", "publish", "discl"}, Depth=18, Sim=True, Emit="end")
        hot = bm(Sess=s3, InitAtt=s3, SubSpecs={("p", "exact"), ("p", "prefix")}, PubUris={"p"}, Excl={F},
                 OpsOn={"subscribe", "unsubscribe", "publish", "detach"}, Depth=7)
        t = ["t%d" % k for k in range(1, 6)]
        leave = bm(SubSpecs={(u, "exact") for u in t} | {("t", "prefix"), ("u*", "wildcard")}, PubUris=set(t),
                   Script=[(12, {"subscribe"}), (13, {"detach"})], Depth=13, Sim=True, Emit="end")
        return [dict(name="conc-sim", module="BrokerModel", consts=sim, invariants=B_INV, simulate=n, depth=25),
                dict(name="conc-leave", module="BrokerModel", consts=leave, invariants=B_INV, simulate=n // 2, depth=20),
                dict(name="conc-hot", module="BrokerModel", consts=hot, invariants=B_INV)]
    b = dict(Reqs={"1"}, Ids={"5"}, Sim=False, Emit="all", Depth=6, Steps=0, Script=[])
    return [
        dict(name="conc-sub", module="SessionModel", invariants=S_INV,
             consts=dict(b, SendKinds={"subscribe", "unsubscribe"}, RecvKinds={"subscribed", "unsubscribed", "event"}, ErrKinds={"subscribe"})),
        dict(name="conc-reg", module="SessionModel", invariants=S_INV,
             consts=dict(b, SendKinds={"register", "unregister"}, RecvKinds={"registered", "unregistered", "invocation"},
                         ErrKinds={"unregister"})),
        dict(name="conc-call", module="SessionModel", invariants=S_INV,
             consts=dict(b, Reqs={"1", "2"}, SendKinds={"call", "publish"}, RecvKinds={"result", "published"}, ErrKinds={"call"}, Depth=5)),
        dict(name="conc-sim", module="SessionModel", invariants=S_INV, simulate=n, depth=25,
             consts=dict(b, Reqs={"1", "2"}, Ids={"5", "6"}, Sim=True, Emit="end", SendKinds=S_SENDS, RecvKinds=S_RECVS, ErrKinds=S_SENDS,
                         Depth=20))]


def conc(ctx, what):
    th = ctx.thorough
    jobs = conc_jobs(what, th)
    groups = ctx.models_par(jobs)
    scn, out = ctx.path("conc-%s.scn" % what), ctx.path("conc-%s.tr" % what)
    cap = 3000 if th else 300
    reps = 40 if th else (30 if what == "session" else 15)
    nscn = write_scenarios(scn, groups, {k: cap for k in groups}, ctx.rng)
    args = ["conc", "-what", what, "-in", scn, "-out", out, "-seed", ctx.seed]
    crash = ctx.harness(args + ["-reps", reps, "-budget", "%ds" % (400 if th else 60)], inst=True, timeout=700)
    if crash:
        ctx.label("%s:process brought down by concurrent use (%s)" % (ctx.prop, what), {"stderr": crash})
        return
    ctx.lin(what, out, "%s:no sequential order explains a concurrent run (%s)" % (ctx.prop, what))
    # the same programs under the race detector
    crash = ctx.harness(["conc", "-what", what, "-in", scn, "-out", out + ".race", "-seed", ctx.seed, "-reps", 4 if th else 2,
                         "-budget", "%ds" % (200 if th else 40)], race=True, inst=True, timeout=700)
    if crash:
        ctx.label("%s:data race or crash under the race detector (%s)" % (ctx.prop, what), {"stderr": crash})
    ctx.extra["concurrent_programs_" + what] = nscn


@plan("C17")
def session_conc(ctx):
    conc(ctx, "session")


@plan("C27")
def router_conc(ctx):
    conc(ctx, "dealer")
    conc(ctx, "broker")


# ------------------------------------------------------------ identifiers ---
def ids_traces(ctx, conc=True):
    th = ctx.thorough
    merged = ctx.path("ids.tr")
    steps, rest = [], []
    outs = [ctx.path("ids%d" % k) for k in range(3)]
    for k, o in enumerate(outs):   # three processes: their random ids must differ
        crash = ctx.harness(["ids", "-out", o, "-n", 900 if th else 300, "-big", 4000 if k else 400000 if th else 200000, "-reps", 2000 if th else 300],
                            race=k == 2, inst=k > 0)
        if crash:
            ctx.label(ctx.prop + ":process brought down by concurrent id generation", {"stderr": crash})
            return
        for line in open(o):
            t = json.loads(line)
            if t["id"] == "random":
                steps += t["steps"]
            else:
                t["id"] += "-%d" % k
                rest.append(t)
        for t in map(json.loads, open(o + ".conc")):
            t["id"] += "-%d" % k
            rest.append(dict(t, conc=True))
    twins = [ctx.path("idtwin%d" % k) for k in range(4)]
    crash = ctx.harness_twins([["ids", "-out", o, "-n", 60, "-big", 400, "-reps", 0] for o in twins])
    if crash:
        ctx.label(ctx.prop + ":process brought down by id generation", {"stderr": crash})
        return
    for o in twins:
        steps += json.loads(open(o).readline())["steps"]
    with open(merged, "w") as f:
        f.write(json.dumps({"id": "random", "steps": steps}) + "\n")
        for t in rest:
            if not t.get("conc"):
                f.write(json.dumps(t) + "\n")
    ctx.judge("Trace_Ids", merged)
    if conc:
        with open(merged + ".conc", "w") as f:
            for t in rest:
                if t.get("conc"):
                    f.write(json.dumps(t) + "\n")
        ctx.lin("ids", merged + ".conc", ctx.prop + ":no sequential order explains concurrent id generation")


@plan("C26")
def ids(ctx):
    ctx.models_par([dict(name="ids-%d" % m, module="IdsModel", consts=dict(Threads={"t1", "t2", "t3"}, Max=m, Calls=3 if m < 5 or ctx.thorough else 2,
                                                                           Locked=True),
                         invariants=["C26_Sequence", "C26_Unique"], emit=False, view=None) for m in (2, 5, 100)])
    ids_traces(ctx)


# ------------------------------------------------------------------ codec ---
C_INV = {"trip": ["C22_Inverse", "C23_Grammar"], "decode": ["C23_Verdict", "C23_Grammar"], "payload": ["C24_Verdict"]}


def codec(ctx, whats, fuzz=0):
    th = ctx.thorough
    groups = ctx.models_par([dict(name=w, module="CodecModel", consts=dict(What=w, Devs=2 if th and w == "decode" else 1), invariants=C_INV[w],
                                  heap="6g", timeout=800) for w in whats])
    for w in whats:
        scn, out = ctx.path(w + ".scn"), ctx.path(w + ".tr")
        hs = groups[w]
        ctx.rng.shuffle(hs)
        write_scenarios(scn, {w: hs}, {w: 40000}, ctx.rng)
        reps = {"trip": 12 if th else 3, "decode": 1, "payload": 8 if th else 2}[w]
        run_codec(ctx, ["codec", "-in", scn, "-out", out, "-seed", ctx.seed, "-reps", reps], out)
        if w == "trip":   # and with the race detector, on serializers shared by goroutines
            lines = open(scn).read().splitlines()
            few = ctx.path("shared.scn")
            with open(few, "w") as f:
                f.write("\n".join(ctx.rng.sample(lines, min(len(lines), 800 if th else 160))) + "\n")
            run_codec(ctx, ["codec", "-in", few, "-out", ctx.path("shared.tr"), "-seed", ctx.seed, "-par"], ctx.path("shared.tr"), race=True)
    if fuzz:
        out = ctx.path("fuzz.tr")
        run_codec(ctx, ["codec", "-out", out, "-seed", ctx.seed, "-fuzz", fuzz], out)


def run_codec(ctx, args, out, race=False):
    crash = ctx.harness(args, timeout=800, mem=None if race else 16, race=race)
    if crash:
        ctx.label(ctx.prop + ":process brought down by the codec", {"stderr": crash, "args": [str(a) for a in args]})
        return
    for part in split_file(out, 2500):
        ctx.judge("Trace_Codec", part)


def split_file(path, n):
    """Parts of at most n traces, so that TLC holds one at a time."""
    parts, k, f = [], 0, None
    for line in open(path):
        if k % n == 0:
            if f:
                f.close()
            parts.append("%s.%d" % (path, len(parts)))
            f = open(parts[-1], "w")
        f.write(line)
        k += 1
    if f:
        f.close()
    return parts


@plan("C22")
def wire(ctx):
    codec(ctx, ["trip"])


@plan("C24")
def payloads(ctx):
    codec(ctx, ["payload"], fuzz=60000 if ctx.thorough else 6000)


@plan("C23")
def malformed(ctx):
    codec(ctx, ["decode"], fuzz=200000 if ctx.thorough else 15000)
    n = 20000 if ctx.thorough else 1500
    for cmd, module in (("dealer", "Trace_Dealer"), ("broker", "Trace_Broker"), ("session", "Trace_Session"), ("handshake", "Trace_Handshake")):
        out = ctx.path(cmd + "-chaos.tr")
        scn = ctx.path("chaos.scn")
        open(scn, "w").close()
        if cmd == "handshake":
            hk, _, _ = handshake_models(ctx.thorough)
            write_scenarios(scn, ctx.models_par([dict(name="h-keys", module="HandshakeModel", consts=hk["h-keys"], invariants=H_INV)]), {}, ctx.rng)
        crash = ctx.harness([cmd, "-in", scn, "-out", out, "-seed", ctx.seed, "-chaos", n], timeout=800)
        if crash:
            ctx.label("C23:process brought down by a message (%s)" % cmd, {"stderr": crash})
            continue
        ctx.judge(module, out)


@plan("C25")
def rawsocket(ctx):
    groups = ctx.models_par([dict(name="raw", module="RawModel", consts=dict(Fine=509 if ctx.thorough else 8191), invariants=["C25_Inverse"])])
    scn, out = ctx.path("raw.scn"), ctx.path("raw.tr")
    write_scenarios(scn, groups, {}, ctx.rng)
    crash = ctx.harness(["raw", "-in", scn, "-out", out, "-seed", ctx.seed, "-fuzz", 200000 if ctx.thorough else 10000])
    if crash:
        ctx.label("C25:process brought down", {"stderr": crash})
        return
    ctx.judge("Trace_Raw", out)


# ----------------------------------------------------------- whole system ---
Y_INV = ["C28_EndToEnd", "C28_AllAnswered", "C28_Views"]


def system_models(thorough):
    T, F = True, False
    x = 1 if thorough else 0
    base = dict(Clients={"c1", "c2"}, InitIn={"c1", "c2"}, Prefix=[], SubSpecs={("t", "exact")}, PubUris={"t"}, RegSpecs={("p", "exact", "single")},
                CallUris={"p"}, Acks={F}, Excls={F}, Progs={F}, Rps={F}, Errs={F}, Discls={F}, OpsOn=set(), MaxSend=3, MaxOut=2, Depth=100,
                Sim=False, Emit="some")

    def ym(**kw):
        c = dict(base)
        c.update(kw)
        return c
    c3, c4 = {"c1", "c2", "c3"}, {"c1", "c2", "c3", "c4"}
    c6 = c4 | {"c5", "c6"}
    models = {
        "y-sub": ym(OpsOn={"subscribe", "publish", "unsubscribe"}, MaxSend=4 + x),
        "y-rpc": ym(OpsOn={"register", "unregister", "call"}, MaxSend=4 + x, Errs={T, F}),
        "y-prog": ym(OpsOn={"call", "progress"}, Prefix=[("c2", "p", "exact", "single")], Progs={T, F}, Rps={T}, MaxSend=2 + x),
        "y-leave": ym(OpsOn={"subscribe", "publish", "register", "call", "leave", "join"}, MaxSend=3 + x, Acks={T}),
        "y-shared": ym(Clients=c3, InitIn=c3, Prefix=[("c1", "p", "exact", "roundrobin"), ("c2", "p", "exact", "roundrobin")],
                       RegSpecs={("p", "exact", "roundrobin")}, OpsOn={"register", "unregister", "call"}, MaxSend=2 + x, Errs={F}),
    }
    subs = {("t", "exact"), ("t", "prefix"), ("t*", "wildcard"), ("u.", "prefix"), ("u.a", "exact")}
    regs = {("p", "exact", "single"), ("q", "exact", "roundrobin"), ("q", "prefix", "roundrobin"), ("r.", "prefix", "first"), ("r*", "wildcard", "last"),
            ("s", "exact", "random")}
    n = 15 if thorough else 1
    ends = {"subscribe", "unsubscribe", "publish", "register", "unregister", "call"}
    sims = {
        "y-sim": (ym(Clients=c4, InitIn=c3, SubSpecs=subs, PubUris={"t", "t.x", "u.a", "u.b"}, RegSpecs=regs, CallUris={"p", "q", "q.x", "r.z", "rr", "s"},
                     Acks={T, F}, Excls={T, F}, Rps={T, F}, Errs={T, F}, Discls={T, F}, OpsOn=ends | {"leave", "join", "progress"}, MaxSend=60, MaxOut=4,
                     Depth=120, Sim=True, Emit="end"), 60 * n, 130),
        "y-sim-stay": (ym(Clients=c3, InitIn=c3, SubSpecs={("t", "exact"), ("t", "prefix")}, PubUris={"t"}, RegSpecs={("p", "exact", "roundrobin")},
                          CallUris={"p"}, Acks={T, F}, Excls={T, F}, Rps={T, F}, Errs={T, F}, Discls={T, F}, OpsOn=ends | {"progress"}, MaxSend=80,
                          MaxOut=6, Depth=150, Sim=True, Emit="end"), 50 * n, 160),
        "y-sim-crowd": (ym(Clients=c6, InitIn=c6, SubSpecs={("t", "exact")}, PubUris={"t"}, RegSpecs={("p", "exact", "roundrobin")}, CallUris={"p"},
                           Excls={T, F}, OpsOn=ends | {"leave", "join"}, MaxSend=60, MaxOut=3, Depth=150, Sim=True, Emit="end"), 40 * n, 160),
        "y-sim-prog": (ym(Clients=c4, InitIn=c4, Prefix=[("c1", "p", "exact", "roundrobin"), ("c2", "p", "exact", "roundrobin"), ("c3", "q", "prefix", "single")],
                          CallUris={"p", "q.x"}, Progs={T, F}, Rps={T, F}, Errs={T, F}, Discls={T, F}, OpsOn={"call", "progress"}, MaxSend=70, MaxOut=4,
                          Depth=140, Sim=True, Emit="end"), 50 * n, 150),
    }
    return models, sims


@plan("C28")
def whole(ctx):
    th = ctx.thorough
    models, sims = system_models(th)
    jobs = [dict(name=k, module="SystemModel", consts=v, invariants=Y_INV, workers=4 if th else 2, heap="5g", timeout=700) for k, v in models.items()]
    jobs += [dict(name=k, module="SystemModel", consts=c, invariants=Y_INV, simulate=n, depth=dp, timeout=700) for k, (c, n, dp) in sims.items()]
    groups = ctx.models_par(jobs)
    cap = 8000 if th else 800
    scn = ctx.path("e2e.scn")
    write_scenarios(scn, groups, {k: cap for k in groups}, ctx.rng)
    out = ctx.path("e2e.tr")
    crash = ctx.harness(["e2e", "-in", scn, "-out", out, "-seed", ctx.seed])
    if crash:
        ctx.label("C28:process brought down", {"stderr": crash})
        return
    for part in split_file(out, 1500):
        ctx.judge("Trace_System", part)
