---------------------------- MODULE SessionModel ----------------------------
(* The client session as a transition system, driven by an arbitrary peer:   *)
(* any message in any order. For model checking and for generating histories.*)
EXTENDS Session, Json

CONSTANTS Reqs,      \* request ids
          Ids,       \* subscription and registration ids
          SendKinds, RecvKinds, ErrKinds,
          Script,     \* <<n, kinds>> ...: only these kinds of steps until so many are done (random walks)
          Steps,      \* number of last steps that tell states apart (histories into one state through different steps)
          Depth, Sim, Emit

VARIABLES s, n, hist, mem, last, ghost
vars == <<s, n, hist, mem, last, ghost>>

Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

Phase == {k \in 1..Len(Script) : n < Script[k][1]}
Now(kind) == IF Phase = {} THEN TRUE ELSE kind \in Script[CHOOSE k \in Phase : \A j \in Phase : k <= j][2]

Outs == {[k |-> "ok", clean |-> TRUE], [k |-> "err", clean |-> TRUE]}
Good(e) == {o \in Outs : SJudge(s, e @@ [out |-> o]).bad = {}}
E(op, kind, req, id) == [op |-> op, kind |-> kind, req |-> req, id |-> id, rtype |-> "-", progress |-> FALSE, ack |-> TRUE, bad |-> FALSE]

\* ghost: requests sent, final responses accepted, holdings by confirmation
GInit == [sent |-> NoFun, done |-> NoFun, subs |-> {}, regs |-> {}]
Cnt(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Key(e) == IF e.kind = "error" THEN <<e.rtype, e.req>> ELSE <<AnswerOf[e.kind], e.req>>
IsFinal(e) == e.op = "recv" /\ (e.kind = "error" \/ (e.kind \in DOMAIN AnswerOf /\ ~(e.kind = "result" /\ e.progress)))
GStep(g, e, o) ==
  IF o.k # "ok" THEN g
  ELSE IF e.op = "send" /\ e.kind \in Requests /\ (e.kind # "publish" \/ e.ack)
  THEN [g EXCEPT !.sent = Put(@, <<e.kind, e.req>>, Cnt(@, <<e.kind, e.req>>) + 1)]
  ELSE IF IsFinal(e)
  THEN [g EXCEPT !.done = Put(@, Key(e), Cnt(@, Key(e)) + 1),
                 !.subs = CASE e.kind = "subscribed" -> @ \cup {e.id} [] e.kind = "unsubscribed" -> @ \ {s.open[Key(e)]} [] OTHER -> @,
                 !.regs = CASE e.kind = "registered" -> @ \cup {e.id} [] e.kind = "unregistered" -> @ \ {s.open[Key(e)]} [] OTHER -> @]
  ELSE g

Facts(e, o) == CASE e.op = "recv" /\ o.k = "ok" -> {<<e.kind, e.rtype>>}
                 [] OTHER -> {}

Do(e) ==
  /\ n < Depth
  /\ \E o \in Pick(Good(e)) :
       /\ s' = SJudge(s, e @@ [out |-> o]).st
       /\ n' = n + 1
       /\ hist' = Append(hist, e)
       /\ mem' = mem \cup Facts(e, o)
       /\ last' = [e |-> e, o |-> o, gpre |-> ghost]
       /\ ghost' = GStep(ghost, e, o)

\* requests other than calls are not sent again under an outstanding id
Send == Now("Send") /\ n < Depth /\ \E kind \in Pick(SendKinds), i \in Pick(Ids) :
          \E q \in Pick({x \in Reqs : kind \in Requests \ {"call"} => ~Open(s, kind, x)}),
             a \in Pick(IF kind \in {"publish", "yield"} THEN BOOLEAN ELSE {TRUE}) :
          Do([E("send", kind, q, IF kind \in {"unsubscribe", "unregister"} THEN i ELSE "-")
              EXCEPT !.ack = (kind # "publish" \/ a), !.progress = (kind = "yield" /\ a)])
SendBad == Now("SendBad") /\ Sim /\ \E kind \in Pick({"call", "publish"}), q \in Pick(Reqs) :
          /\ ~Open(s, kind, q)
          /\ Do([E("send", kind, q, "-") EXCEPT !.bad = TRUE])
Recv == Now("Recv") /\ n < Depth /\ \E kind \in Pick(RecvKinds \ {"junk"}), q \in Pick(Reqs), i \in Pick(Ids), p \in Pick(BOOLEAN) :
          /\ (kind # "result" => ~p)
          /\ (kind = "event" \/ kind = "invocation" => q = CHOOSE x \in Reqs : TRUE)
          /\ Do([E("recv", kind, q, IF kind \in {"subscribed", "registered", "event", "invocation"} THEN i ELSE "-")
                 EXCEPT !.progress = p])
RecvErr == Now("RecvErr") /\ n < Depth /\ \E t \in Pick(ErrKinds), q \in Pick(Reqs) : Do([E("recv", "error", q, "-") EXCEPT !.rtype = t])
\* the right answer to something outstanding, so that walks get far
Many == Cardinality(Reqs) > 10   \* let many requests be outstanding at once
RecvOpen == Now("RecvOpen") /\ Sim /\ (~Many \/ Phase # {} \/ RandomElement(1..3) = 1) /\ \E key \in Pick(DOMAIN s.open), i \in Pick(Ids) :
          LET kind == CHOOSE x \in DOMAIN AnswerOf : AnswerOf[x] = key[1] IN
          Do([E("recv", kind, key[2], IF kind \in {"subscribed", "registered"} THEN i ELSE "-") EXCEPT !.progress = FALSE])
\* what was held before
ended == <<{hist[k].id : k \in {j \in 1..Len(hist) : hist[j].kind = "unsubscribe"}},
           {hist[k].id : k \in {j \in 1..Len(hist) : hist[j].kind = "unregister"}}>>
\* the end of something held, and a delivery for it
SendHeld == Now("SendHeld") /\ Sim /\ \E x \in Pick({y \in ({"unsubscribe"} \X s.subs) \cup ({"unregister"} \X s.regs) : y[1] \in SendKinds}) :
          \E q \in Pick({y \in Reqs : ~Open(s, x[1], y)}) : Do(E("send", x[1], q, x[2]))
RecvHeld == Now("RecvHeld") /\ Sim /\ \E x \in Pick({<<"event", i>> : i \in s.subs \cup ended[1]} \cup {<<"invocation", i>> : i \in s.regs \cup ended[2]}) :
          Do(E("recv", x[1], CHOOSE q \in Reqs : TRUE, x[2]))
Junk == Now("Junk") /\ "junk" \in RecvKinds /\ Do(E("junk", "-", CHOOSE x \in Reqs : TRUE, "-"))

Init == s = SInit /\ n = 0 /\ hist = <<>> /\ mem = {} /\ ghost = GInit
        /\ last = [e |-> E("init", "-", CHOOSE x \in Reqs : TRUE, "-"), o |-> [k |-> "ok", clean |-> TRUE], gpre |-> GInit]
Next == Send \/ SendBad \/ Recv \/ RecvErr \/ RecvOpen \/ SendHeld \/ RecvHeld \/ Junk
Spec == Init /\ [][Next]_vars

Print1 == PrintT("SCN " \o ToJson([h |-> hist', f |-> {ToString(x) : x \in mem'}]))
EmitHist ==
  CASE Emit = "all" -> Print1
    [] Emit = "end" /\ n' = Depth -> Print1
    [] OTHER -> TRUE
LastOps == SubSeq(hist, IF Len(hist) > Steps THEN Len(hist) - Steps + 1 ELSE 1, Len(hist))
View == <<s, mem, LastOps>>

-----------------------------------------------------------------------------
e0 == last.e
o0 == last.o
g0 == last.gpre
\* C15: per request id never more final responses than requests; progressive results only before the final one.
C15_Once ==
  /\ \A k \in DOMAIN ghost.done : ghost.done[k] <= Cnt(ghost.sent, k)
  /\ IsFinal(e0) /\ o0.k = "ok" => Cnt(g0.sent, Key(e0)) > 0
  /\ e0.op = "recv" /\ e0.kind = "result" /\ e0.progress =>
       (o0.k = "ok" => Cnt(g0.sent, <<"call", e0.req>>) > Cnt(g0.done, <<"call", e0.req>>))
C16_Held ==
  /\ s.subs = ghost.subs /\ s.regs = ghost.regs
  /\ e0.op = "recv" /\ e0.kind = "event" => (o0.k = "ok") = (e0.id \in g0.subs)
  /\ e0.op = "recv" /\ e0.kind = "invocation" => (o0.k = "ok") = (e0.id \in g0.regs)
  /\ e0.op = "send" /\ e0.kind = "unsubscribe" => (o0.k = "ok") = (e0.id \in g0.subs)
=============================================================================
