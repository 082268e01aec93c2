----------------------------- MODULE DealerModel -----------------------------
(* The dealer as a transition system: sessions send any request the          *)
(* constants allow, the dealer answers with any outcome in which no property *)
(* conjunct of Dealer.tla is broken. Used for model checking (the properties *)
(* are stated again below, over ghost variables and not through DJudge) and  *)
(* for generating operation histories for the real code.                     *)
EXTENDS Dealer, Json

CONSTANTS Sess,      \* session names
          InitAtt,   \* those attached from the beginning
          InitRegs,  \* <<session, uri, match, policy>> registered from the beginning, in order
          RegSpecs,  \* <<uri, match, policy>> that may be registered
          CallUris,
          Reqs,      \* request ids of calls
          Progs, Rps, YProgs,   \* subsets of BOOLEAN: flags that may be used
          OpsOn,     \* kinds of operations
          Script,    \* <<n, kinds>> ...: only these kinds until so many operations are done (random walks)
          Depth,     \* length of histories
          MaxPend,   \* bound on open invocations
          Sim,       \* TRUE: pick parameters at random (simulation)
          Emit       \* "none", "all" (every transition) or "end" (full length)

VARIABLES d, n, hist, mem, last, ghost
vars == <<d, n, hist, mem, last, ghost>>

Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

\* the kinds of operations allowed now
Phase == {k \in 1..Len(Script) : n < Script[k][1]}
Ops == IF Phase = {} THEN OpsOn ELSE Script[CHOOSE k \in Phase : \A j \in Phase : k <= j][2]
\* in random walks, do this one time out of k
Now(k) == ~Sim \/ Phase # {} \/ RandomElement(1..k) = 1

Pay == [bin |-> FALSE, args |-> "p", kwargs |-> "q", ser |-> "0", data |-> ""]
Auth(s) == [authid |-> "id-" \o s, authrole |-> "role-" \o s]
DetFor(st, e) ==
  IF st.discl /\ e.s \in DOMAIN st.att
  THEN [progress |-> e.progress, rp |-> e.rp, procedure |-> e.uri, caller |-> e.sid,
        caller_authid |-> st.att[e.s].authid, caller_authrole |-> st.att[e.s].authrole]
  ELSE [progress |-> e.progress, rp |-> e.rp, procedure |-> "-", caller |-> "-", caller_authid |-> "-", caller_authrole |-> "-"]

ErrMsg(to, req, rtype, uri) ==
  [k |-> "error", to |-> to, req |-> req, rtype |-> rtype, uri |-> uri, edetails |-> "", pay |-> Pay]

Callers(e) == IF Sim /\ e.inv \in DOMAIN d.invs THEN {d.invs[e.inv].caller} \cap DOMAIN d.att ELSE DOMAIN d.att
\* Candidate outcomes, good or bad; the model takes the good ones.
Cands(e) ==
  {[k |-> "err"]} \cup
  CASE e.op \in {"attach", "detach", "discl"} -> {[k |-> "ok"]}
    [] e.op = "register" ->
         {[k |-> "registered", to |-> e.s, req |-> e.req, reg |-> r] :
             r \in (IF Sim THEN RegsOf(d, e.uri) ELSE DOMAIN d.regs) \cup {"r" \o ToString(n + 1)}}
         \cup {ErrMsg(e.s, e.req, "REGISTER", "wamp.error.procedure_already_exists")}
    [] e.op = "unregister" -> {[k |-> "unregistered", to |-> e.s, req |-> e.req]}
    [] e.op = "call" ->
         \* (random walks only look at likely outcomes, that is quicker)
         {[k |-> "invocation", to |-> cr[1], inv |-> v, reg |-> cr[2], details |-> DetFor(d, e), pay |-> Pay] :
             cr \in IF Sim THEN UNION {{<<c, r>> : c \in SeqSet(d.regs[r].callees)} : r \in {x \in DOMAIN d.regs : Matches(d.regs[x].match, d.regs[x].uri, e.uri)}} ELSE (DOMAIN d.att) \X (DOMAIN d.regs),
             v \in (IF Sim THEN Continued(d, e) ELSE {x \in DOMAIN d.invs : d.invs[x].open}) \cup {"i" \o ToString(n + 1)}}
         \cup {ErrMsg(e.s, e.req, "CALL", "wamp.error.no_such_procedure")}
    [] e.op = "yield" ->
         {[k |-> "result", to |-> s, req |-> q, progress |-> p, pay |-> Pay] :
             s \in Callers(e), q \in IF Sim /\ e.inv \in DOMAIN d.invs THEN {d.invs[e.inv].req} ELSE Reqs, p \in BOOLEAN}
    [] e.op = "error" ->
         {[ErrMsg(s, q, "CALL", e.uri) EXCEPT !.edetails = e.edetails] :
             s \in Callers(e), q \in IF Sim /\ e.inv \in DOMAIN d.invs THEN {d.invs[e.inv].req} ELSE Reqs}
    [] OTHER -> {}

Good(e) == {o \in Cands(e) : DJudge(d, e @@ [out |-> o]).bad = {}}

\* Facts remembered about the past; part of the VIEW, so that histories that
\* differ in them are all continued although the abstract state is the same.
Facts(e, o) ==
  CASE e.op = "detach" -> {<<"left", e.s>>}
    [] e.op = "unregister" /\ o.k = "unregistered" ->
         {<<"ended", d.regs[e.reg].uri, d.regs[e.reg].match, Len(d.regs[e.reg].callees)>>}
    [] e.op = "register" /\ o.k = "registered" /\ RegsOf(d, e.uri) # {} -> {<<"again", e.uri>>}
    [] e.op \in {"yield", "error"} /\ o.k # "err" /\ e.op = "yield" /\ o.progress -> {<<"prog">>}
    [] e.op \in {"yield", "error"} /\ o.k # "err" -> {<<"answered", e.op>>}
    [] OTHER -> {}

\* Ghost state for the properties: what was asked and what was delivered.
GInit == [calls |-> NoFun,    \* invocation -> <<caller, req>> of the call that started it
          to    |-> NoFun,    \* invocation -> callee
          finals |-> NoFun]   \* invocation -> number of final replies
GStep(g, e, o) ==
  CASE e.op = "call" /\ o.k = "invocation" /\ o.inv \notin DOMAIN g.calls ->
         [calls |-> Put(g.calls, o.inv, <<e.s, e.req>>), to |-> Put(g.to, o.inv, o.to),
          finals |-> Put(g.finals, o.inv, 0)]
    [] e.op = "yield" /\ o.k = "result" /\ ~o.progress /\ e.inv \in DOMAIN g.finals ->
         [g EXCEPT !.finals[e.inv] = @ + 1]
    [] e.op = "error" /\ o.k = "error" /\ e.inv \in DOMAIN g.finals -> [g EXCEPT !.finals[e.inv] = @ + 1]
    [] OTHER -> g

Do(e) ==
  /\ n < Depth
  /\ \E o \in Pick(Good(e)) :
       LET full == e @@ [out |-> o] IN
       /\ d' = DJudge(d, full).st
       /\ n' = n + 1
       /\ hist' = Append(hist, e)
       /\ mem' = mem \cup Facts(e, o)
       /\ last' = [e |-> e, o |-> o, pre |-> d]
       /\ ghost' = GStep(ghost, e, o)

Attach == "attach" \in Ops /\ Now(3) /\ \E s \in Pick(Sess) :
            Do([op |-> "attach", s |-> s, authid |-> Auth(s).authid, authrole |-> Auth(s).authrole, static |-> FALSE])
Detach == "detach" \in Ops /\ Now(4) /\ \E s \in Pick(Sess) : Do([op |-> "detach", s |-> s])
Discl  == "discl" \in Ops /\ Now(4) /\ \E b \in Pick(BOOLEAN) : Do([op |-> "discl", s |-> "", on |-> b])
Register == "register" \in Ops /\ \E s \in Pick(Sess), x \in Pick(RegSpecs) :
            Do([op |-> "register", s |-> s, req |-> 1, uri |-> x[1], match |-> x[2], invoke |-> x[3]])
Unregister == "unregister" \in Ops /\ Now(3) /\ \E s \in Pick(Sess) :
            \E r \in Pick(DOMAIN d.regs \cup {x \in d.dead : Cardinality(d.dead) < 3 \/ Sim} \cup {"bogus"}) :
            Do([op |-> "unregister", s |-> s, req |-> 1, reg |-> r])
\* unregister something held, so that random walks do it often
UnregisterHeld == Sim /\ "unregister" \in Ops /\ Now(3) /\
            \E x \in Pick({y \in Sess \X DOMAIN d.regs : Holds(d, y[1], y[2])}) :
            Do([op |-> "unregister", s |-> x[1], req |-> 2, reg |-> x[2]])
OpenIds == {i \in DOMAIN d.invs : d.invs[i].open}
Call == "call" \in Ops /\ Cardinality(OpenIds) < MaxPend /\
        \E s \in Pick(Sess), u \in Pick(CallUris), q \in Pick(Reqs), p \in Pick(Progs), rp \in Pick(Rps) :
            LET e == [op |-> "call", s |-> s, sid |-> s, req |-> q, uri |-> u, progress |-> p, rp |-> rp, pay |-> Pay] IN
            /\ \A i \in Continued(d, e) : d.invs[i].rp = rp   \* receive_progress stays the same within a call
            /\ Do(e)
\* the next chunk of an open progressive call
Chunk == "call" \in Ops /\ TRUE \in Progs /\
         \E i \in Pick({x \in OpenIds : d.invs[x].prog}), p \in Pick(Progs) :
            Do([op |-> "call", s |-> d.invs[i].caller, sid |-> d.invs[i].caller, req |-> d.invs[i].req,
                uri |-> IF d.invs[i].reg \in DOMAIN d.regs THEN d.regs[d.invs[i].reg].uri ELSE CHOOSE u \in CallUris : TRUE,
                progress |-> p, rp |-> d.invs[i].rp, pay |-> Pay])
Closed == {i \in DOMAIN d.invs : ~d.invs[i].open}
Answerable == OpenIds \cup (IF Cardinality(Closed) > 2 /\ ~Sim THEN {} ELSE Closed)
Who(i) == IF i \in OpenIds /\ Sim THEN {d.invs[i].callee, RandomElement(Sess)} ELSE Sess
Role(i, s) == IF d.invs[i].callee = s THEN "callee" ELSE "other"
YieldOf(i, s, p) == Do([op |-> "yield", s |-> s, role |-> Role(i, s), inv |-> i, progress |-> p, pay |-> Pay])
Yield == "yield" \in Ops /\ \E i \in Pick(Answerable) : \E s \in Pick(Who(i)), p \in Pick(YProgs) : YieldOf(i, s, p)
YieldOpen == Sim /\ "yield" \in Ops /\ \E i \in Pick(OpenIds), p \in Pick(YProgs) : YieldOf(i, d.invs[i].callee, p)
ErrorOf(i, s) == Do([op |-> "error", s |-> s, role |-> Role(i, s), inv |-> i, uri |-> "err.uri", edetails |-> "", pay |-> Pay])
Error == "error" \in Ops /\ \E i \in Pick(Answerable) : \E s \in Pick(Who(i)) : ErrorOf(i, s)

InitOps == LET q == SetToSeqOf(InitAtt) IN
           [k \in 1..Len(q) |-> [op |-> "attach", s |-> q[k], authid |-> Auth(q[k]).authid,
                                 authrole |-> Auth(q[k]).authrole, static |-> FALSE]]
           \o [k \in 1..Len(InitRegs) |-> [op |-> "register", s |-> InitRegs[k][1], req |-> 1, uri |-> InitRegs[k][2],
                                           match |-> InitRegs[k][3], invoke |-> InitRegs[k][4]]]
InitOut(st, e, k) ==
  IF e.op = "attach" THEN [k |-> "ok"]
  ELSE [k |-> "registered", to |-> e.s, req |-> e.req,
        reg |-> IF RegsOf(st, e.uri) = {} THEN "r" \o ToString(k) ELSE CHOOSE r \in RegsOf(st, e.uri) : TRUE]
RECURSIVE After(_, _)
After(st, k) == IF k > Len(InitOps) THEN st
                ELSE LET j == DJudge(st, InitOps[k] @@ [out |-> InitOut(st, InitOps[k], k)])
                     IN After(IF j.bad = {} THEN j.st ELSE Assert(FALSE, "bad initial operation"), k + 1)

Init == /\ d = After(DInit, 1)
        /\ hist = InitOps
        /\ n = Len(InitOps)
        /\ mem = {}
        /\ last = [e |-> [op |-> "init"], o |-> [k |-> "ok"], pre |-> DInit]
        /\ ghost = GInit

Next == Attach \/ Detach \/ Discl \/ Register \/ Unregister \/ UnregisterHeld \/ Call \/ Chunk \/ Yield \/ YieldOpen \/ Error
Spec == Init /\ [][Next]_vars

\* Generation: print the history of each transition, or of each full walk.
Print1 == PrintT("SCN " \o ToJson([h |-> hist', f |-> {ToString(x) : x \in mem'}]))
EmitHist ==
  CASE Emit = "all" -> Print1
    [] Emit = "end" /\ n' = Depth -> Print1
    [] OTHER -> TRUE

AbsRegs == {[uri |-> d.regs[r].uri, match |-> d.regs[r].match, policy |-> d.regs[r].policy,
             callees |-> d.regs[r].callees, rr |-> d.regs[r].rr] : r \in DOMAIN d.regs}
AbsInvs == {[caller |-> d.invs[i].caller, req |-> d.invs[i].req, callee |-> d.invs[i].callee, rp |-> d.invs[i].rp,
             prog |-> d.invs[i].prog, open |-> d.invs[i].open, how |-> d.invs[i].how] : i \in DOMAIN d.invs}
View == <<DOMAIN d.att, AbsRegs, AbsInvs, Cardinality(OpenIds), d.discl, mem>>

-----------------------------------------------------------------------------
(* The properties, stated over what was observed (last, ghost) and the state *)
(* before the step; none of them uses DJudge.                                *)
e0 == last.e
o0 == last.o
p0 == last.pre
IsInv == e0.op = "call" /\ o0.k = "invocation"
Fresh == IsInv /\ o0.inv \notin DOMAIN p0.invs

\* C03: no live registration that matches is more specific than the one used.
Rank(m, u) == CASE m = "exact" -> 1000 [] m = "prefix" -> 1 + Len(u) [] OTHER -> 0
C03_Specificity ==
  Fresh => \A r \in DOMAIN p0.regs :
             Matches(p0.regs[r].match, p0.regs[r].uri, e0.uri)
             => Rank(p0.regs[r].match, p0.regs[r].uri) <= Rank(p0.regs[o0.reg].match, p0.regs[o0.reg].uri)
C06_Routed ==
  /\ Fresh => /\ o0.to \in DOMAIN p0.att /\ e0.s \in DOMAIN p0.att
              /\ InSeq(p0.regs[o0.reg].callees, o0.to)
              /\ Matches(p0.regs[o0.reg].match, p0.regs[o0.reg].uri, e0.uri)
  /\ e0.op = "call" /\ o0.k = "error" /\ Continued(p0, e0) = {} =>
       \A r \in DOMAIN p0.regs : ~Matches(p0.regs[r].match, p0.regs[r].uri, e0.uri)
C07_Identity ==
  /\ \A r1, r2 \in DOMAIN d.regs : d.regs[r1].uri = d.regs[r2].uri => r1 = r2
  /\ \A r \in DOMAIN d.regs : /\ r \notin d.dead
                              /\ d.regs[r].callees # <<>>
                              /\ Len(d.regs[r].callees) > 1 => d.regs[r].policy \in SharedPolicies
                              /\ Cardinality(SeqSet(d.regs[r].callees)) = Len(d.regs[r].callees)
  /\ e0.op = "unregister" /\ o0.k = "unregistered" => \A r \in DOMAIN p0.regs \ {e0.reg} : d.regs[r] = p0.regs[r]
  /\ e0.op \in {"register", "unregister"} /\ o0.k \in {"err", "error"} => d = p0
C08_Policy ==
  Fresh => LET g == p0.regs[o0.reg] IN
           /\ g.policy = "first" => o0.to = g.callees[1]
           /\ g.policy = "last" => o0.to = g.callees[Len(g.callees)]
           /\ g.policy = "roundrobin" /\ g.rr # 0 => o0.to = g.callees[IF g.rr = Len(g.callees) THEN 1 ELSE g.rr + 1]
C09_OneFinalReply ==
  /\ \A i \in DOMAIN ghost.finals : ghost.finals[i] <= 1
  /\ e0.op \in {"yield", "error"} /\ o0.k \in {"result", "error"} =>
       /\ e0.inv \in DOMAIN ghost.calls
       /\ ghost.calls[e0.inv] = <<o0.to, o0.req>>
       /\ ghost.finals[e0.inv] = IF o0.k = "result" /\ o0.progress THEN 0 ELSE 1
C10_OneInvocation ==
  /\ IsInv /\ ~Fresh => /\ ghost.calls[o0.inv] = <<e0.s, e0.req>> /\ ghost.to[o0.inv] = o0.to
                        /\ p0.invs[o0.inv].prog
  /\ Fresh => \A i \in DOMAIN p0.invs : ~(/\ p0.invs[i].open /\ p0.invs[i].prog /\ p0.invs[i].caller = e0.s
                                          /\ p0.invs[i].req = e0.req /\ Holds(p0, p0.invs[i].callee, p0.invs[i].reg))
  /\ e0.op = "yield" /\ o0.k = "result" => o0.progress = (e0.progress /\ p0.invs[e0.inv].rp)
C11_OnlyCallee ==
  e0.op \in {"yield", "error"} /\ o0.k # "err" => e0.s = ghost.to[e0.inv]
C12_NothingLeft ==
  /\ \A r \in DOMAIN d.regs : SeqSet(d.regs[r].callees) \subseteq DOMAIN d.att
  /\ \A i \in OpenIds : d.invs[i].caller \in DOMAIN d.att /\ d.invs[i].callee \in DOMAIN d.att
  /\ o0.k \in {"invocation", "result", "error", "registered", "unregistered"} => o0.to \in DOMAIN p0.att
C14_Disclosure ==
  Fresh => (o0.details.caller # "-") = p0.discl
\* Every request of the model has an admissible outcome.
Answered == \A s \in Sess : Good([op |-> "detach", s |-> s]) # {}
=============================================================================
