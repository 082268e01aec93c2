------------------------------- MODULE Dealer -------------------------------
(* The router's RPC half. The specification is a labelled relation: for a    *)
(* dealer state d and an observed operation e (the request, who sent it, and *)
(* in e.out everything that could be observed of its outcome), DJudge(d, e)  *)
(* gives the next state and the set of property conjuncts that this outcome  *)
(* breaks. Model checking (MC_Dealer) explores exactly the outcomes that     *)
(* break none; conformance (Trace_Dealer) evaluates it on recorded runs.     *)
EXTENDS Uri

DInit == [att   |-> NoFun,   \* attached session -> [authid, authrole, static, twice (was attached again in vain)]
          regs  |-> NoFun,   \* live registration id -> registration
          dead  |-> {},      \* ids of registrations that ended
          invs  |-> NoFun,   \* invocation id -> invocation, open or not
          discl |-> FALSE]   \* caller disclosure on

\* A registration: [uri, match, policy, callees (in order of joining), rr]
\* where rr is the index of the callee served last (0: unknown).
DReg(d, r) == d.regs[r]
RegsOf(d, uri) == {r \in DOMAIN d.regs : d.regs[r].uri = uri}
SharedPolicies == {"first", "last", "roundrobin", "random"}

Route(d, uri) == LET E(r) == d.regs[r] IN Best(E, DOMAIN d.regs, uri)

Holds(d, s, r) == r \in DOMAIN d.regs /\ InSeq(d.regs[r].callees, s)

\* The callees the policy of registration g may pick now.
Choices(g) ==
  LET n == Len(g.callees) IN
  CASE g.policy = "first" -> {g.callees[1]}
    [] g.policy = "last"  -> {g.callees[n]}
    [] g.policy = "roundrobin" /\ g.rr # 0 -> {g.callees[(g.rr % n) + 1]}
    [] OTHER -> SeqSet(g.callees)

LeaveReg(d, s, r) ==
  LET g == [d.regs[r] EXCEPT !.callees = Without(@, s), !.rr = 0] IN
  IF g.callees = <<>>
  THEN [d EXCEPT !.regs = Drop(@, {r}), !.dead = @ \cup {r}]
  ELSE [d EXCEPT !.regs[r] = g]

OpenInv(d, i) == i \in DOMAIN d.invs /\ d.invs[i].open
CloseInv(d, i, how) == [d EXCEPT !.invs[i].open = FALSE, !.invs[i].how = how]

\* What the receiver of a forwarded payload must see (C13).
PayOK(sent, got, static) ==
  IF sent.bin /\ static
  THEN got.bin /\ got.ser = sent.ser /\ got.data = sent.data
  ELSE ~got.bin /\ got.args = sent.args /\ got.kwargs = sent.kwargs

Refused(o) == o.k \in {"err", "error"}
Crashed(o) == o.k \in {"panic", "hang"}

-----------------------------------------------------------------------------
DJAttach(d, e) ==
  IF e.s \in DOMAIN d.att
  THEN R([d EXCEPT !.att[e.s].twice = TRUE], Ck(e.out.k = "err", {"C12:second attach of a session accepted"}))
  ELSE R([d EXCEPT !.att = Put(@, e.s, [authid |-> e.authid, authrole |-> e.authrole, static |-> e.static, twice |-> FALSE])],
         Ck(e.out.k = "ok", {"C12:attach refused"}))

Depart(d, s) ==
  LET held == {r \in DOMAIN d.regs : InSeq(d.regs[r].callees, s)}
      gone == {r \in held : Len(d.regs[r].callees) = 1}
      mine(i) == d.invs[i].open /\ (d.invs[i].caller = s \/ d.invs[i].callee = s)
  IN [d EXCEPT !.att = Drop(@, {s}),
               !.dead = @ \cup gone,
               !.regs = [r \in DOMAIN @ \ gone |->
                           IF r \in held THEN [@[r] EXCEPT !.callees = Without(@, s), !.rr = 0] ELSE @[r]],
               !.invs = [i \in DOMAIN @ |->
                           IF mine(i) THEN [@[i] EXCEPT !.open = FALSE, !.how = "departed"] ELSE @[i]]]

DJDetach(d, e) ==
  IF e.s \notin DOMAIN d.att
  THEN R(d, Ck(e.out.k = "err", {"C12:removal of an absent session accepted"}))
  ELSE R(Depart(d, e.s), Ck(e.out.k = "ok", {"C12:removal refused or failed"}))

DJDiscl(d, e) == R([d EXCEPT !.discl = e.on], {})

DJRegister(d, e) ==
  LET o == e.out
      m == NormMatch(e.match)
      there == RegsOf(d, e.uri)
  IN
  IF e.s \notin DOMAIN d.att
  THEN R(d, Ck(o.k = "err", {"C07:register by an unattached session accepted", "C12:register by a departed session accepted"}))
  ELSE IF there = {}
  THEN LET new == [uri |-> e.uri, match |-> m, policy |-> e.invoke, callees |-> <<e.s>>, rr |-> 0]
       IN IF o.k = "registered"
          THEN R([d EXCEPT !.regs = Put(@, o.reg, new)],
                 Ck(o.to = e.s /\ o.req = e.req, {"C07:REGISTERED to the wrong session or request"})
                 \cup Ck(o.reg \notin DOMAIN d.regs \cup d.dead, {"C07:registration id reused"}))
          ELSE R(d, {"C07:free procedure not registered", "C12:leftover blocks a registration"})
  ELSE LET r == CHOOSE x \in there : TRUE
           g == d.regs[r]
           joins == g.policy \in SharedPolicies /\ e.invoke = g.policy /\ m = g.match
           joined == IF InSeq(g.callees, e.s) THEN d
                     ELSE [d EXCEPT !.regs[r].callees = Append(@, e.s), !.regs[r].rr = 0]
       IN IF joins
          THEN R(joined,
                 IF o.k = "registered"
                 THEN Ck(o.to = e.s /\ o.req = e.req, {"C07:REGISTERED to the wrong session or request"})
                      \cup Ck(o.reg = r, {"C07:shared registration got another id"})
                 ELSE {"C07:shared registration refused"})
          ELSE R(d,
                 Ck(/\ o.k = "error" /\ o.to = e.s /\ o.req = e.req /\ o.rtype = "REGISTER"
                    /\ o.uri = "wamp.error.procedure_already_exists",
                    {"C07:occupied procedure not answered with procedure_already_exists"}))

DJUnregister(d, e) ==
  LET o == e.out IN
  IF e.s \in DOMAIN d.att /\ Holds(d, e.s, e.reg)
  THEN R(LeaveReg(d, e.s, e.reg),
         Ck(o.k = "unregistered" /\ o.to = e.s /\ o.req = e.req, {"C07:unregister of a held registration not confirmed"}))
  ELSE R(d, Ck(Refused(o) /\ (o.k = "error" => o.to = e.s /\ e.s \in DOMAIN d.att),
               {"C07:unregister of a registration not held accepted"}))

DisclOK(d, e, o) ==
  IF d.discl
  THEN /\ o.details.procedure = e.uri
       /\ o.details.caller = e.sid
       /\ o.details.caller_authid = d.att[e.s].authid
       /\ o.details.caller_authrole = d.att[e.s].authrole
  ELSE \A f \in {"procedure", "caller", "caller_authid", "caller_authrole"} : o.details[f] = "-"

\* Open invocations of which this call is a further chunk (at most one).
Continued(d, e) ==
  {i \in DOMAIN d.invs : /\ d.invs[i].open /\ d.invs[i].caller = e.s /\ d.invs[i].req = e.req /\ d.invs[i].prog}

\* Judges of an invocation message that hold for new and continued calls.
InvCommon(d, e, o) ==
  Ck(o.to \in DOMAIN d.att, {"C06:invocation for a session that is not attached", "C12:invocation for a departed session"})
  \cup Ck(o.to \notin DOMAIN d.att \/ PayOK(e.pay, o.pay, d.att[o.to].static),
            {"C13:call payload changed"} \cup IF d.att[o.to].twice THEN {"C12:a refused attach had an effect"} ELSE {})
  \cup Ck(DisclOK(d, e, o), {"C14:caller disclosure wrong"}
                             \cup IF d.att[e.s].twice THEN {"C12:a refused attach had an effect"} ELSE {})
  \cup Ck(o.details.progress = e.progress, {"C10:progress flag of the chunk not delivered"})
  \cup Ck(o.details.rp = e.rp \/ \E i \in Continued(d, e) : d.invs[i].rp # e.rp, {"C10:receive_progress not delivered"})

NewInv(d, e, o, r) ==
  [d EXCEPT !.invs = Put(@, o.inv, [caller |-> e.s, req |-> e.req, callee |-> o.to, rp |-> e.rp,
                                    prog |-> e.progress, reg |-> r, open |-> TRUE, how |-> "open"])]

\* A call that starts a new invocation.
DJFresh(d, e) ==
  LET o == e.out
      cands == Route(d, e.uri)
  IN
  IF cands = {}
  THEN IF o.k = "invocation"
       THEN R(IF o.inv \in DOMAIN d.invs THEN d ELSE NewInv(d, e, o, o.reg),
              {"C03:call routed though nothing matches", "C06:call routed though nothing matches",
               "C07:call routed to a registration that ended"}
              \cup Ck(o.to \in DOMAIN d.att, {"C12:invocation for a departed session"}))
       ELSE R(d, Ck(/\ o.k = "error" /\ o.to = e.s /\ o.req = e.req /\ o.rtype = "CALL"
                    /\ o.uri = "wamp.error.no_such_procedure",
                    {"C06:unroutable call not answered with no_such_procedure", "C03:unroutable call not answered with no_such_procedure"}))
  ELSE IF o.k # "invocation"
  THEN R(d, {"C03:call not routed though a registration matches", "C06:call not routed though a registration matches",
             "C07:membership lost", "C12:registration of another session lost"})
  ELSE
  LET r == IF o.reg \in cands THEN o.reg ELSE CHOOSE x \in cands : TRUE
      g == d.regs[r]
      mem == InSeq(g.callees, o.to)
      d1 == NewInv(d, e, o, r)
      d2 == IF mem THEN [d1 EXCEPT !.regs[r].rr = IndexOf(g.callees, o.to)] ELSE d1
  IN R(IF OpenInv(d, o.inv) THEN d ELSE d2,
       InvCommon(d, e, o)
       \cup Ck(o.reg \in cands, {"C03:wrong registration chosen", "C06:wrong registration chosen"})
       \cup Ck(mem, {"C06:invocation for a session that does not hold the registration",
                     "C07:former callee invoked", "C08:session outside the registration invoked",
                     "C12:former callee invoked"})
       \cup Ck(mem => o.to \in Choices(g), {"C08:callee not the one of the policy"})
       \cup Ck(o.inv \notin DOMAIN d.invs, {"C06:invocation id reused", "C09:invocation id reused",
                                            "C10:new call delivered under an old invocation"}))

DJCall(d, e) ==
  LET o == e.out IN
  IF e.s \notin DOMAIN d.att
  THEN R(d, Ck(o.k = "err", {"C06:call by an unattached session not refused", "C12:call by a departed session accepted"}))
  ELSE IF Continued(d, e) = {} THEN DJFresh(d, e)
  ELSE
  LET i == CHOOSE x \in Continued(d, e) : TRUE
      v == d.invs[i]
      \* when the callee unregistered meanwhile, the chunk may also be refused or treated as a new call
      free == ~Holds(d, v.callee, v.reg)
  IN IF o.k = "invocation" /\ (o.inv = i \/ ~free)
     THEN R(IF o.inv = i THEN [d EXCEPT !.invs[i].prog = e.progress]
            ELSE IF o.inv \in DOMAIN d.invs THEN d ELSE NewInv(d, e, o, o.reg),
            InvCommon(d, e, o)
            \cup Ck(o.inv = i, {"C10:chunk started another invocation"})
            \cup Ck(o.to = v.callee, {"C10:chunk sent to another callee", "C06:chunk sent to another callee"})
            \cup Ck(o.reg = v.reg, {"C10:chunk under another registration"}))
     ELSE IF o.k = "invocation"
     THEN LET j == DJFresh(d, e) IN
          R(IF o.inv \in DOMAIN d.invs THEN j.st ELSE [j.st EXCEPT !.invs[i].prog = FALSE], j.bad)
     ELSE R(d, IF free THEN Ck(Refused(o), {"C10:chunk not delivered"}) ELSE {"C10:chunk not delivered"})

\* The answer of a callee; fin: this answer completes the call.
DJAnswer(d, e, fin, good, labels) ==
  LET o == e.out IN
  IF ~OpenInv(d, e.inv)
  THEN LET dep == e.inv \in DOMAIN d.invs /\ d.invs[e.inv].how = "departed"
       IN R(d, Ck(o.k = "err", {"C09:answer to an unknown or completed invocation forwarded",
                                "C11:answer to an unknown or completed invocation forwarded"}
                               \cup (IF dep THEN {"C12:answer for a call of a departed session forwarded"} ELSE {})
                               \cup (IF e.inv \in DOMAIN d.invs /\ (d.invs[e.inv].rp \/ d.invs[e.inv].prog)
                                     THEN {"C10:second final reply"} ELSE {})))
  ELSE
  LET v == d.invs[e.inv] IN
  IF e.s # v.callee
  THEN IF o.k = "err" THEN R(d, {})
       ELSE R(IF fin THEN CloseInv(d, e.inv, "foreign") ELSE d,
              {"C11:" \o e.op \o " from a session that was not invoked takes effect"}
              \cup IF o.k # good THEN {"C09:answer turned into something else"}
                   ELSE Ck(o.to = v.caller /\ o.req = v.req, {"C09:reply to the wrong session or request"}) \cup labels)
  ELSE R(IF fin THEN CloseInv(d, e.inv, "answered") ELSE d,
         IF o.k # good
         THEN {"C09:answer not forwarded", "C10:answer not forwarded", "C11:answer of the real callee not forwarded",
               "C12:pending call lost"}
         ELSE Ck(o.to = v.caller, {"C09:reply to the wrong session"}
                                  \cup (IF o.to \in DOMAIN d.att THEN {} ELSE {"C12:reply to a departed session"}))
              \cup Ck(o.req = v.req, {"C09:reply under the wrong request id"})
              \cup labels)

DJYield(d, e) ==
  LET o == e.out
      open == OpenInv(d, e.inv)
      prog == open /\ e.progress /\ d.invs[e.inv].rp
      static == open /\ d.invs[e.inv].caller \in DOMAIN d.att /\ d.att[d.invs[e.inv].caller].static
  IN DJAnswer(d, e, ~prog, "result",
       IF o.k = "result"
       THEN Ck(o.progress = prog, {"C10:result wrongly (not) marked as progress"})
            \cup Ck(PayOK(e.pay, o.pay, static), {"C13:result payload changed"})
       ELSE {})

DJError(d, e) ==
  LET o == e.out IN
  DJAnswer(d, e, TRUE, "error",
       IF o.k = "error"
       THEN Ck(o.rtype = "CALL", {"C09:call error has the wrong request type"})
            \cup Ck(o.uri = e.uri /\ o.edetails = e.edetails, {"C13:error URI or details changed"})
            \cup Ck(o.pay.args = e.pay.args /\ o.pay.kwargs = e.pay.kwargs, {"C13:error payload changed"})
       ELSE {})

\* After many calls of one procedure: the callees that were picked.
DJSpread(d, e) ==
  LET c == Route(d, e.uri) IN
  R(d, Ck(\A r \in c : SeqSet(d.regs[r].callees) = SeqSet(e.picked), {"C08:random policy never picks some callee"}))

\* Very many requests of one session in a row. Only the number of answers and of ids never seen before are recorded,
\* which callee came directly after which, and a sample of what was made; the state knows the sample only.
FromSample(seq, key(_), val(_)) == [x \in {key(seq[k]) : k \in 1..Len(seq)} |-> val(seq[CHOOSE k \in 1..Len(seq) : key(seq[k]) = x])]
DJBulkCall(d, e) ==
  LET o == e.out
      r == CHOOSE x \in Route(d, e.uri) : TRUE
      g == d.regs[r]
      key(v) == v.inv
      val(v) == [caller |-> e.s, req |-> v.req, callee |-> v.to, rp |-> FALSE, prog |-> FALSE, reg |-> v.reg, open |-> TRUE, how |-> "open"]
      d1 == [d EXCEPT !.invs = FromSample(o.sample, key, val) @@ @]
  IN R(IF InSeq(g.callees, o.last) THEN [d1 EXCEPT !.regs[r].rr = IndexOf(g.callees, o.last)] ELSE d1,
       Ck(o.answered = e.n, {"C06:call of many not routed", "C03:call of many not routed"})
       \cup Ck(o.fresh = o.answered, {"C06:invocation id reused among many", "C09:invocation id reused among many"})
       \cup Ck(\A v \in SeqSet(o.sample) : v.reg = r, {"C06:wrong registration chosen among many"})
       \cup Ck(\A t \in SeqSet(o.turns) : InSeq(g.callees, t.a) /\ t.b \in Choices([g EXCEPT !.rr = IndexOf(g.callees, t.a)]),
               {"C08:callee not the one of the policy among many calls"}))
DJBulkRegister(d, e) ==
  LET o == e.out
      key(v) == v.reg
      val(v) == [uri |-> v.uri, match |-> e.match, policy |-> "single", callees |-> <<e.s>>, rr |-> 0]
  IN R([d EXCEPT !.regs = FromSample(o.sample, key, val) @@ @],
       Ck(o.answered = e.n, {"C07:free procedure among many not registered"})
       \cup Ck(o.fresh = o.answered, {"C07:registration id reused among many"}))

\* Which procedures the dealer reports as available after the operation.
HasOK(d, e) ==
  Ck({u \in e.uni : RegsOf(d, u) # {}} = e.has,
     {"C07:HasProcedure wrong"} \cup (IF e.op = "detach" THEN {"C12:HasProcedure wrong after a departure"} ELSE {}))

\* A query on its own (concurrent runs).
DJHas(d, e) == R(d, Ck(e.out.val = (RegsOf(d, e.uri) # {}), {"C07:HasProcedure wrong"}))

CrashLabels(op) ==
  {"C23:" \o op \o " crashed"} \cup
  CASE op = "call"       -> {"C06:call crashed", "C03:call crashed", "C08:call crashed", "C10:call crashed", "C14:call crashed"}
    [] op = "register"   -> {"C07:register crashed"}
    [] op = "unregister" -> {"C07:unregister crashed"}
    [] op = "yield"      -> {"C09:yield crashed", "C10:yield crashed", "C13:yield crashed"}
    [] op = "chaos"      -> {}
    [] op = "error"      -> {"C09:error crashed", "C13:error crashed"}
    [] OTHER             -> {"C12:" \o op \o " crashed"}

DJudge0(d, e) ==
  CASE e.op = "attach"     -> DJAttach(d, e)
    [] e.op = "detach"     -> DJDetach(d, e)
    [] e.op = "discl"      -> DJDiscl(d, e)
    [] e.op = "register"   -> DJRegister(d, e)
    [] e.op = "unregister" -> DJUnregister(d, e)
    [] e.op = "call"       -> DJCall(d, e)
    [] e.op = "yield"      -> DJYield(d, e)
    [] e.op = "error"      -> DJError(d, e)
    [] e.op = "spread"     -> DJSpread(d, e)
    [] e.op = "bulkcall"   -> DJBulkCall(d, e)
    [] e.op = "bulkregister" -> DJBulkRegister(d, e)
    [] e.op = "has"        -> DJHas(d, e)
    [] OTHER               -> \* "chaos": any message, with any options
         R(d, Ck(e.out.k # "nil", {"C23:message neither answered nor refused"})
              \cup Ck("to" \notin DOMAIN e.out \/ e.out.to \in DOMAIN d.att, {"C12:message for a session that is not attached"}))

\* e: the operation; in e.out what came back.
DJudge(d, e) ==
  IF Crashed(e.out) THEN R(d, CrashLabels(e.op))
  ELSE DJudge0(d, e)
=============================================================================
