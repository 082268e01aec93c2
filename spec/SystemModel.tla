----------------------------- MODULE SystemModel -----------------------------
(* The whole system: the specifications of dealer, broker and client session *)
(* put together with ordered connections and well-behaved clients. Every     *)
(* behaviour of this composition is checked against System.tla, which shows  *)
(* that the component properties add up to the end-to-end one; the same      *)
(* behaviours are the schedules that are run on the real code.               *)
EXTENDS Dealer, Broker, Session, System, Json

CONSTANTS Clients, InitIn,  \* clients, and those connected from the beginning
          Prefix,           \* messages <<client, message>> exchanged before the run, one after the other
          SubSpecs, PubUris, RegSpecs, CallUris,
          Acks, Excls, Progs, Rps, Errs, Discls,  \* subsets of BOOLEAN
          OpsOn,            \* what clients do
          MaxSend, MaxOut,  \* bounds: requests altogether, unanswered requests of one client
          Depth, Sim, Emit

VARIABLES d, b, ss, cl, y, n, k, hist, last, reach
vars == <<d, b, ss, cl, y, n, k, hist, last, reach>>
\* d, b: dealer and broker; ss: client -> session; cl: client -> what it knows; y: the end-to-end view (its queues are
\* the connections); k: requests sent

Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Now(x) == ~Sim \/ RandomElement(1..x) = 1
Slowly == Now(2) \/ \A c \in DOMAIN y.who : y.up[c] = <<>> /\ y.down[c] = <<>>   \* rarer while messages are under way

M0 == [kind |-> "-", req |-> "-", id |-> "-", n |-> "-", a |-> "-", m |-> "-", pol |-> "-", prog |-> FALSE, rp |-> FALSE, ack |-> FALSE,
       excl |-> TRUE, rtype |-> "-", disc |-> "-"]
Who(c) == c \o "|id-" \o c \o "|role-" \o c
C0 == [req |-> 1, invs |-> <<>>, prog |-> <<>>]   \* next request id; invocations to answer; progressive calls not finished

DPay(m) == [bin |-> FALSE, args |-> m.n, kwargs |-> "", ser |-> "0", data |-> ""]
BPay(m) == [args |-> m.n, kwargs |-> ""]

-----------------------------------------------------------------------------
\* What the dealer and the broker may make of a message: the outcomes their specifications allow.
DEvent(c, m) ==
  CASE m.kind = "register" -> [op |-> "register", s |-> c, req |-> m.req, uri |-> m.a, match |-> m.m, invoke |-> m.pol]
    [] m.kind = "unregister" -> [op |-> "unregister", s |-> c, req |-> m.req, reg |-> m.id]
    [] m.kind = "call" -> [op |-> "call", s |-> c, sid |-> c, req |-> m.req, uri |-> m.a, progress |-> m.prog, rp |-> m.rp, pay |-> DPay(m)]
    [] m.kind = "yield" -> [op |-> "yield", s |-> c, inv |-> m.req, progress |-> m.prog, pay |-> DPay(m)]
    [] m.kind = "error" -> [op |-> "error", s |-> c, inv |-> m.req, uri |-> m.a, edetails |-> "", pay |-> DPay(m)]
BEvent(c, m) ==
  CASE m.kind = "subscribe" -> [op |-> "subscribe", s |-> c, req |-> m.req, uri |-> m.a, match |-> m.m]
    [] m.kind = "unsubscribe" -> [op |-> "unsubscribe", s |-> c, req |-> m.req, sub |-> m.id]
    [] m.kind = "publish" -> [op |-> "publish", s |-> c, sid |-> c, req |-> m.req, uri |-> m.a, exclude |-> m.excl, ack |-> m.ack, pay |-> BPay(m)]

DErr(to, req, rtype, uri, pay) == [k |-> "error", to |-> to, req |-> req, rtype |-> rtype, uri |-> uri, edetails |-> "", pay |-> pay]
DDet(e) == LET f(x) == IF d.discl THEN x ELSE "-" IN
  [progress |-> e.progress, rp |-> e.rp, procedure |-> f(e.uri), caller |-> f(e.s), caller_authid |-> f("id-" \o e.s),
   caller_authrole |-> f("role-" \o e.s)]
Fresh(S, x) == CHOOSE z \in {x \o ToString(q) : q \in 1..200} : z \notin S /\ \A q \in 1..200 : (x \o ToString(q)) \notin S => q >= CHOOSE w \in 1..200 : z = x \o ToString(w)
DCands(e) ==
  {[k |-> "err"]} \cup
  CASE e.op = "register" ->
         {[k |-> "registered", to |-> e.s, req |-> e.req, reg |-> r] : r \in DOMAIN d.regs \cup {Fresh(DOMAIN d.regs \cup d.dead, "r")}}
         \cup {DErr(e.s, e.req, "REGISTER", "wamp.error.procedure_already_exists", DPay(M0))}
    [] e.op = "unregister" -> {[k |-> "unregistered", to |-> e.s, req |-> e.req], DErr(e.s, e.req, "UNREGISTER", "wamp.error.no_such_registration", DPay(M0))}
    [] e.op = "call" ->
         {[k |-> "invocation", to |-> c, inv |-> v, reg |-> r, details |-> DDet(e), pay |-> e.pay] :
             c \in DOMAIN d.att, r \in DOMAIN d.regs, v \in {x \in DOMAIN d.invs : d.invs[x].open} \cup {Fresh(DOMAIN d.invs, "i")}}
         \cup {DErr(e.s, e.req, "CALL", "wamp.error.no_such_procedure", DPay(M0))}
    [] e.inv \notin DOMAIN d.invs -> {}
    [] e.op = "yield" ->
         {[k |-> "result", to |-> d.invs[e.inv].caller, req |-> d.invs[e.inv].req, progress |-> p, pay |-> e.pay] : p \in BOOLEAN}
    [] e.op = "error" -> {DErr(d.invs[e.inv].caller, d.invs[e.inv].req, "CALL", e.uri, e.pay)}
BCands(e) ==
  {[k |-> "err"]} \cup
  CASE e.op = "subscribe" ->
         {[k |-> "subscribed", to |-> e.s, req |-> e.req, sub |-> i] : i \in DOMAIN b.subs \cup {Fresh(DOMAIN b.subs \cup b.dead, "u")}}
    [] e.op = "unsubscribe" -> {[k |-> "unsubscribed", to |-> e.s, req |-> e.req]}
    [] e.op = "publish" ->
         LET p == Fresh(b.pubs, "p")
             f(x) == IF b.discl THEN x ELSE "-"
             det == [topic |-> f(e.uri), publisher |-> f(e.s), publisher_authid |-> f("id-" \o e.s), publisher_authrole |-> f("role-" \o e.s)] IN
         {[k |-> "publication", ack |-> IF e.ack THEN <<[to |-> e.s, req |-> e.req, pub |-> p]>> ELSE <<>>, event |-> v, to |-> t] :
            v \in {<<>>} \cup {<<[sub |-> i, pub |-> p, details |-> det, pay |-> e.pay]>> : i \in DOMAIN b.subs},
            t \in {SetToSeqOf(x) : x \in SUBSET DOMAIN b.att}}

DGood(e) == {o \in DCands(e) : DJudge(d, e @@ [out |-> o]).bad = {}}
BGood(e) == {o \in BCands(e) : BJudge(b, e @@ [out |-> o]).bad = {}}

To(c, m) == [to |-> c, msg |-> m]
Lower(t) == CASE t = "REGISTER" -> "register" [] t = "UNREGISTER" -> "unregister" [] t = "CALL" -> "call" [] OTHER -> "-"
DMsgs(o) ==
  CASE o.k = "registered" -> <<To(o.to, [M0 EXCEPT !.kind = "registered", !.req = o.req, !.id = o.reg])>>
    [] o.k = "unregistered" -> <<To(o.to, [M0 EXCEPT !.kind = "unregistered", !.req = o.req])>>
    [] o.k = "invocation" ->
         LET t == o.details IN
         <<To(o.to, [M0 EXCEPT !.kind = "invocation", !.req = o.inv, !.id = o.reg, !.n = o.pay.args, !.prog = t.progress, !.rp = t.rp,
                     !.disc = IF t.caller = "-" THEN "-" ELSE t.procedure \o "|" \o t.caller \o "|" \o t.caller_authid \o "|" \o t.caller_authrole])>>
    [] o.k = "result" -> <<To(o.to, [M0 EXCEPT !.kind = "result", !.req = o.req, !.n = o.pay.args, !.prog = o.progress])>>
    [] o.k = "error" -> <<To(o.to, [M0 EXCEPT !.kind = "error", !.req = o.req, !.rtype = Lower(o.rtype), !.a = o.uri,
                                              !.n = o.pay.args])>>
    [] OTHER -> <<>>
BMsgs(o) ==
  CASE o.k = "subscribed" -> <<To(o.to, [M0 EXCEPT !.kind = "subscribed", !.req = o.req, !.id = o.sub])>>
    [] o.k = "unsubscribed" -> <<To(o.to, [M0 EXCEPT !.kind = "unsubscribed", !.req = o.req])>>
    [] o.k = "publication" ->
         [q \in 1..Len(o.ack) |-> To(o.ack[q].to, [M0 EXCEPT !.kind = "published", !.req = o.ack[q].req])] \o
         (IF o.event = <<>> THEN <<>>
          ELSE LET v == o.event[1] IN
               [q \in 1..Len(o.to) |-> To(o.to[q], [M0 EXCEPT !.kind = "event", !.id = v.sub, !.n = v.pay.args,
                  !.disc = IF v.details.publisher = "-" THEN "-" ELSE v.details.topic \o "|" \o v.details.publisher \o "|" \o
                           v.details.publisher_authid \o "|" \o v.details.publisher_authrole])])
    [] OTHER -> <<>>

\* the session's view of a message
SEvent(op, m) == [op |-> op, kind |-> IF op = "send" /\ m.kind = "error" THEN "inverror" ELSE m.kind, req |-> m.req, id |-> m.id, rtype |-> m.rtype,
                  progress |-> m.prog, ack |-> m.ack, bad |-> FALSE]
SOuts == {[k |-> "ok", clean |-> TRUE], [k |-> "err", clean |-> TRUE]}
SGood(c, e) == {o \in SOuts : SJudge(ss[c], e @@ [out |-> o]).bad = {}}

-----------------------------------------------------------------------------
Step(e, op) ==
  LET j == YJudge(y, e) IN
  /\ n < Depth
  /\ n' = n + 1
  /\ y' = j.st
  /\ last' = j.bad
  /\ hist' = Append(hist, op)
  /\ reach' = reach \cup {e.op}

Conn(c) == c \in DOMAIN y.who
Att(c) == [op |-> "attach", s |-> c, authid |-> "id-" \o c, authrole |-> "role-" \o c, static |-> FALSE, out |-> [k |-> "ok"]]
Det(c) == [op |-> "detach", s |-> c, out |-> [k |-> "ok"]]

Join == "join" \in OpsOn /\ Now(3) /\ \E c \in Pick(Clients \ DOMAIN y.who) :
  /\ d' = DJudge(d, Att(c)).st /\ b' = BJudge(b, Att(c)).st
  /\ ss' = Put(ss, c, SInit) /\ cl' = Put(cl, c, C0) /\ k' = k
  /\ Step([op |-> "join", c |-> c, who |-> Who(c), told |-> Who(c), out |-> [k |-> "ok"]], [op |-> "join", c |-> c])

Leave == "leave" \in OpsOn /\ Now(12) /\ \E c \in Pick(DOMAIN y.who) :
  /\ d' = DJudge(d, Det(c)).st /\ b' = BJudge(b, Det(c)).st
  /\ ss' = Drop(ss, {c}) /\ cl' = Drop(cl, {c}) /\ k' = k
  /\ Step([op |-> "leave", c |-> c, out |-> [k |-> "ok"]], [op |-> "leave", c |-> c])

\* A client hands a message to its session; the operation for the harness names what the client means and not ids.
SendAs(c, m, op, know) ==
  \E o \in Pick(SGood(c, SEvent("send", m))) :
    /\ ss' = [ss EXCEPT ![c] = SJudge(@, SEvent("send", m) @@ [out |-> o]).st]
    /\ cl' = [cl EXCEPT ![c] = know]
    /\ UNCHANGED <<d, b>>
    /\ Step([op |-> "send", c |-> c, msg |-> m, out |-> [k |-> o.k]], op)

Room(c) == k < MaxSend /\ Cardinality(DOMAIN ss[c].open) < MaxOut
Rq(c) == ToString(cl[c].req)
NextRq(c) == [cl[c] EXCEPT !.req = @ + 1]
Op(c, kind) == [op |-> "send", c |-> c, kind |-> kind]

Subscribe == "subscribe" \in OpsOn /\ Slowly /\ \E c \in Pick({x \in DOMAIN y.who : Room(x)}), x \in Pick(SubSpecs) :
  /\ k' = k + 1
  /\ SendAs(c, [M0 EXCEPT !.kind = "subscribe", !.req = Rq(c), !.a = x[1], !.m = x[2]], Op(c, "subscribe") @@ [a |-> x[1], m |-> x[2]], NextRq(c))
\* a client ends a subscription or registration once
Ending(c, kind) == {ss[c].open[q] : q \in {z \in DOMAIN ss[c].open : z[1] = kind}}
Unsubscribe == "unsubscribe" \in OpsOn /\ Slowly /\ \E c \in Pick({x \in DOMAIN y.who : Room(x)}) :
  \E i \in Pick({z \in ss[c].subs : <<c, z>> \in DOMAIN y.subs} \ Ending(c, "unsubscribe")) :
  /\ k' = k + 1
  /\ SendAs(c, [M0 EXCEPT !.kind = "unsubscribe", !.req = Rq(c), !.id = i],
            Op(c, "unsubscribe") @@ [a |-> y.subs[<<c, i>>].uri, m |-> y.subs[<<c, i>>].match], NextRq(c))
Publish == "publish" \in OpsOn /\ Slowly /\ \E c \in Pick({x \in DOMAIN y.who : Room(x)}), u \in Pick(PubUris), a \in Pick(Acks), x \in Pick(Excls) :
  /\ k' = k + 1
  /\ SendAs(c, [M0 EXCEPT !.kind = "publish", !.req = Rq(c), !.a = u, !.n = "n" \o ToString(k), !.ack = a, !.excl = x],
            Op(c, "publish") @@ [a |-> u, ack |-> a, excl |-> x], NextRq(c))
Register == "register" \in OpsOn /\ Slowly /\ \E c \in Pick({x \in DOMAIN y.who : Room(x)}), x \in Pick(RegSpecs) :
  /\ k' = k + 1
  /\ SendAs(c, [M0 EXCEPT !.kind = "register", !.req = Rq(c), !.a = x[1], !.m = x[2], !.pol = x[3]],
            Op(c, "register") @@ [a |-> x[1], m |-> x[2], pol |-> x[3]], NextRq(c))
Unregister == "unregister" \in OpsOn /\ Slowly /\ \E c \in Pick({x \in DOMAIN y.who : Room(x)}) :
  \E i \in Pick({z \in ss[c].regs : <<c, z>> \in DOMAIN y.regs} \ Ending(c, "unregister")) :
  /\ k' = k + 1
  /\ SendAs(c, [M0 EXCEPT !.kind = "unregister", !.req = Rq(c), !.id = i], Op(c, "unregister") @@ [a |-> y.regs[<<c, i>>].uri], NextRq(c))
Call == "call" \in OpsOn /\ Slowly /\ \E c \in Pick({x \in DOMAIN y.who : Room(x)}), u \in Pick(CallUris), p \in Pick(Progs), rp \in Pick(Rps) :
  LET m == [M0 EXCEPT !.kind = "call", !.req = Rq(c), !.a = u, !.n = "n" \o ToString(k), !.prog = p, !.rp = rp] IN
  /\ k' = k + 1
  /\ SendAs(c, m, Op(c, "call") @@ [a |-> u, prog |-> p, rp |-> rp],
            IF p THEN [NextRq(c) EXCEPT !.prog = Append(@, m)] ELSE NextRq(c))
\* the final answer of a call is under way; more of the call of an invocation is under way
Closing(c, req) ==
  \/ \E q \in 1..Len(y.down[c]) : AnswerTo(y.down[c][q]) = <<"call", req>>
  \/ \E x \in DOMAIN y.pend : /\ y.pend[x].caller = c /\ y.pend[x].req = req /\ x[1] \in DOMAIN y.who
                             /\ \E q \in 1..Len(y.up[x[1]]) : LET m == y.up[x[1]][q] IN
                                  m.kind \in {"yield", "error"} /\ m.req = x[2] /\ ~(m.kind = "yield" /\ m.prog)
Flowing(c, inv) ==
  \/ \E q \in 1..Len(y.down[c]) : y.down[c][q].kind = "invocation" /\ y.down[c][q].req = inv
  \/ /\ <<c, inv>> \in DOMAIN y.pend
     /\ LET v == y.pend[<<c, inv>>] IN
        v.caller \in DOMAIN y.who /\ \E q \in 1..Len(y.up[v.caller]) : y.up[v.caller][q].kind = "call" /\ y.up[v.caller][q].req = v.req
Chunk == "call" \in OpsOn /\ \E c \in Pick(DOMAIN y.who) :
  \E w \in Pick({x \in 1..Len(cl[c].prog) : ~Closing(c, cl[c].prog[x].req)}), p \in Pick(Progs) :
  LET m == [cl[c].prog[w] EXCEPT !.n = "n" \o ToString(k), !.prog = p] IN
  /\ k' = k + 1 /\ (p => k < MaxSend)   \* the last chunk is always sent
  /\ SendAs(c, m, Op(c, "chunk") @@ [which |-> w, prog |-> p],
            IF p THEN cl[c] ELSE [cl[c] EXCEPT !.prog = SubSeq(@, 1, w - 1) \o SubSeq(@, w + 1, Len(@))])
\* A callee answers. The final answer comes after the last chunk of the call, or at once where no more of the call is
\* under way: a chunk that crosses the final answer would be a call of its own.
Answer == \E c \in Pick(DOMAIN y.who) : \E w \in Pick(1..Len(cl[c].invs)), p \in Pick(BOOLEAN), x \in Pick(Errs) :
  LET v == cl[c].invs[w]
      m == [M0 EXCEPT !.kind = IF x THEN "error" ELSE "yield", !.req = v.inv, !.n = "n" \o ToString(k), !.prog = p, !.a = IF x THEN "err.uri" ELSE "-"] IN
  /\ (p => v.rp /\ ~x /\ k < MaxSend /\ "progress" \in OpsOn)
  /\ (~p /\ v.more => Now(3) /\ ~Flowing(c, v.inv))
  /\ k' = k + 1
  /\ SendAs(c, m, Op(c, IF x THEN "error" ELSE "yield") @@ [which |-> w, prog |-> p],
            IF p THEN cl[c] ELSE [cl[c] EXCEPT !.invs = SubSeq(@, 1, w - 1) \o SubSeq(@, w + 1, Len(@))])

RouteFirst == \E c \in Pick({x \in DOMAIN y.who : y.up[x] # <<>>}) :
  LET m == Head(y.up[c]) IN
  /\ IF m.kind \in {"subscribe", "unsubscribe", "publish"}
     THEN LET e == BEvent(c, m) IN
          \E o \in Pick(BGood(e)) :
            /\ b' = BJudge(b, e @@ [out |-> o]).st /\ d' = d
            /\ Step([op |-> "route", c |-> c, out |-> [k |-> "ok", msgs |-> BMsgs(o)]], [op |-> "route", c |-> c])
     ELSE LET e == DEvent(c, m) IN
          \E o \in Pick(DGood(e)) :
            /\ d' = DJudge(d, e @@ [out |-> o]).st /\ b' = b
            /\ Step([op |-> "route", c |-> c, out |-> [k |-> "ok", msgs |-> DMsgs(o)]], [op |-> "route", c |-> c])
  /\ UNCHANGED <<ss, cl, k>>

\* a client keeps the invocations it has to answer
Learn(c, m) ==
  IF AnswerTo(m)[1] = "call" THEN [cl[c] EXCEPT !.prog = SelectSeq(@, LAMBDA x : x.req # m.req)]
  ELSE IF m.kind # "invocation" THEN cl[c]
  ELSE LET at == {q \in 1..Len(cl[c].invs) : cl[c].invs[q].inv = m.req} IN
       IF at = {} THEN [cl[c] EXCEPT !.invs = Append(@, [inv |-> m.req, more |-> m.prog, rp |-> m.rp])]
       ELSE [cl[c] EXCEPT !.invs[CHOOSE q \in at : TRUE].more = m.prog]
DeliverFirst == \E c \in Pick({x \in DOMAIN y.who : y.down[x] # <<>>}) :
  LET m == Head(y.down[c])
      e == SEvent("recv", m) IN
  \E o \in Pick(SGood(c, e)) :
    /\ ss' = [ss EXCEPT ![c] = SJudge(@, e @@ [out |-> o]).st]
    /\ cl' = [cl EXCEPT ![c] = Learn(c, m)]
    /\ UNCHANGED <<d, b, k>>
    /\ Step([op |-> "deliver", c |-> c, out |-> [k |-> o.k, msg |-> m]], [op |-> "deliver", c |-> c])

-----------------------------------------------------------------------------
Next == Join \/ Leave \/ Subscribe \/ Unsubscribe \/ Publish \/ Register \/ Unregister \/ Call \/ Chunk \/ Answer \/ RouteFirst \/ DeliverFirst

\* the state after the clients in InitIn joined and exchanged the messages of Prefix; all of it goes into the history
Reply(st, c, m) ==   \* registrations only
  LET e == [op |-> "register", s |-> c, req |-> m.req, uri |-> m.a, match |-> m.m, invoke |-> m.pol]
      same == {r \in DOMAIN st.d.regs : st.d.regs[r].uri = m.a}
      r == IF same # {} THEN CHOOSE x \in same : TRUE ELSE "r" \o ToString(Cardinality(DOMAIN st.d.regs) + 1)
      o == [k |-> "registered", to |-> c, req |-> m.req, reg |-> r]
      got == [M0 EXCEPT !.kind = "registered", !.req = m.req, !.id = r]
      y1 == YJudge(st.y, [op |-> "send", c |-> c, msg |-> m, out |-> [k |-> "ok"]]).st
      y2 == YJudge(y1, [op |-> "route", c |-> c, out |-> [k |-> "ok", msgs |-> <<To(c, got)>>]]).st
      y3 == YJudge(y2, [op |-> "deliver", c |-> c, out |-> [k |-> "ok", msg |-> got]]).st
      ok == [out |-> [k |-> "ok", clean |-> TRUE]]
  IN [d |-> DJudge(st.d, e @@ [out |-> o]).st, y |-> y3,
      ss |-> [st.ss EXCEPT ![c] = SJudge(SJudge(@, SEvent("send", m) @@ ok).st, SEvent("recv", got) @@ ok).st],
      cl |-> [st.cl EXCEPT ![c].req = @ + 1],
      h |-> st.h \o <<Op(c, "register") @@ [a |-> m.a, m |-> m.m, pol |-> m.pol], [op |-> "route", c |-> c], [op |-> "deliver", c |-> c]>>]
RECURSIVE Replies(_, _)
Replies(st, p) == IF p = <<>> THEN st
                  ELSE LET c == Head(p)[1]
                           m == [M0 EXCEPT !.kind = "register", !.req = ToString(st.cl[c].req), !.a = Head(p)[2], !.m = Head(p)[3], !.pol = Head(p)[4]]
                       IN Replies(Reply(st, c, m), Tail(p))
RECURSIVE Joins(_, _)
Joins(st, q) == IF q = <<>> THEN st
                ELSE LET c == Head(q) IN
                     Joins([st EXCEPT !.d = DJudge(@, Att(c)).st, !.b = BJudge(@, Att(c)).st, !.ss = Put(@, c, SInit), !.cl = Put(@, c, C0),
                            !.y = YJudge(@, [op |-> "join", c |-> c, who |-> Who(c), told |-> Who(c), out |-> [k |-> "ok"]]).st,
                            !.h = Append(@, [op |-> "join", c |-> c])], Tail(q))

Init == \E on \in Discls :
        LET st0 == [d |-> [DInit EXCEPT !.discl = on], b |-> [BInit EXCEPT !.discl = on], ss |-> NoFun, cl |-> NoFun,
                    y |-> [YInit EXCEPT !.discl = on], h |-> <<[op |-> "discl", on |-> on]>>]
            st1 == Joins(st0, SetToSeqOf(InitIn))
            st2 == Replies([d |-> st1.d, y |-> st1.y, ss |-> st1.ss, cl |-> st1.cl, h |-> st1.h], Prefix)
        IN /\ d = st2.d /\ b = st1.b /\ ss = st2.ss /\ cl = st2.cl /\ y = st2.y /\ hist = st2.h
           /\ n = 0 /\ k = 0 /\ last = {} /\ reach = {}
Spec == Init /\ [][Next]_vars

EmitHist ==
  CASE Emit = "all" -> PrintT("SCN " \o ToJson(hist'))
    [] Emit = "some" -> RandomElement(1..30) = 1 => PrintT("SCN " \o ToJson(hist'))
    [] Emit = "end" /\ n' = Depth -> PrintT("SCN " \o ToJson(hist'))
    [] OTHER -> TRUE
View == <<d, b, ss, cl, y, k>>

-----------------------------------------------------------------------------
\* The component specifications put together never break the end-to-end property,
C28_EndToEnd == last = {}
\* and when nothing is under way everything has been answered.
Quiet == /\ \A c \in DOMAIN y.who : y.up[c] = <<>> /\ y.down[c] = <<>> /\ cl[c].invs = <<>> /\ cl[c].prog = <<>>
C28_AllAnswered == Quiet => YEnd(y).bad = {}
\* The three views of who holds what agree whenever nothing is on the way.
C28_Views ==
  (\A c \in DOMAIN y.who : y.up[c] = <<>> /\ y.down[c] = <<>>) =>
    \A c \in DOMAIN y.who :
      /\ ss[c].subs = {i \in DOMAIN b.subs : c \in b.subs[i].holders}
      /\ ss[c].regs = {r \in DOMAIN d.regs : InSeq(d.regs[r].callees, c)}
      /\ {x[2] : x \in {z \in DOMAIN y.subs : z[1] = c}} = ss[c].subs
      /\ {x[2] : x \in {z \in DOMAIN y.regs : z[1] = c}} = ss[c].regs
=============================================================================
