----------------------------- MODULE BrokerModel -----------------------------
(* The broker as a transition system, in the same style as DealerModel:      *)
(* used for model checking and for generating operation histories.           *)
EXTENDS Broker, Json

CONSTANTS Sess, InitAtt,
          SubSpecs,  \* <<uri, match>> that may be subscribed
          PubUris,
          Excl, Acks,  \* subsets of BOOLEAN
          OpsOn, Depth, Sim, Emit,
          Script     \* <<n, kinds>> ...: only these kinds until so many operations are done (random walks)

VARIABLES b, n, hist, mem, last, ghost
vars == <<b, n, hist, mem, last, ghost>>

Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
\* the kinds of operations allowed now
Phase == {k \in 1..Len(Script) : n < Script[k][1]}
Ops == IF Phase = {} THEN OpsOn ELSE Script[CHOOSE k \in Phase : \A j \in Phase : k <= j][2]
\* in random walks, do this one time out of k
Now(k) == ~Sim \/ Phase # {} \/ RandomElement(1..k) = 1

Pay == [args |-> "p", kwargs |-> "q"]
Auth(s) == [authid |-> "id-" \o s, authrole |-> "role-" \o s]
DetFor(st, e) ==
  IF st.discl /\ e.s \in DOMAIN st.att
  THEN [topic |-> e.uri, publisher |-> e.sid, publisher_authid |-> st.att[e.s].authid,
        publisher_authrole |-> st.att[e.s].authrole]
  ELSE [topic |-> "-", publisher |-> "-", publisher_authid |-> "-", publisher_authrole |-> "-"]

\* (random walks only look at likely outcomes, that is quicker)
Likely(e) == IF Sim THEN {i \in DOMAIN b.subs : Matches(b.subs[i].match, b.subs[i].uri, e.uri)} ELSE DOMAIN b.subs
Groups(e) == IF Sim THEN {{}} \cup UNION {{b.subs[i].holders, b.subs[i].holders \ {e.s}} : i \in Likely(e)} ELSE SUBSET DOMAIN b.att
Cands(e) ==
  {[k |-> "err"]} \cup
  CASE e.op \in {"attach", "detach", "discl"} -> {[k |-> "ok"]}
    [] e.op = "subscribe" ->
         {[k |-> "subscribed", to |-> e.s, req |-> e.req, sub |-> i] : i \in DOMAIN b.subs \cup {"u" \o ToString(n + 1)}}
    [] e.op = "unsubscribe" -> {[k |-> "unsubscribed", to |-> e.s, req |-> e.req]}
    [] e.op = "publish" ->
         LET p == "p" \o ToString(n + 1) IN
         {[k |-> "publication", ack |-> a, event |-> v, to |-> t] :
            a \in {<<>>, <<[to |-> e.s, req |-> e.req, pub |-> p]>>},
            v \in {<<>>} \cup {<<[sub |-> i, pub |-> p, details |-> DetFor(b, e), pay |-> Pay]>> : i \in Likely(e)},
            t \in {SetToSeqOf(x) : x \in Groups(e)}}
    [] OTHER -> {}

Good(e) == {o \in Cands(e) : BJudge(b, e @@ [out |-> o]).bad = {}}

Facts(e, o) ==
  CASE e.op = "detach" -> {<<"left", e.s>>}
    [] e.op = "unsubscribe" /\ o.k = "unsubscribed" ->
         {<<"ended", b.subs[e.sub].uri, b.subs[e.sub].match, Cardinality(b.subs[e.sub].holders)>>}
    [] e.op = "subscribe" /\ o.k = "subscribed" /\ \E i \in DOMAIN b.subs : b.subs[i].uri = e.uri ->
         {<<"again", e.uri>>}
    [] OTHER -> {}

\* Ghost: who subscribed to what, according to requests and confirmations only.
GInit == [holds |-> {},     \* <<session, uri, match>>
          ids   |-> {},     \* <<id, uri, match>> ever confirmed
          pubs  |-> {}, fresh |-> TRUE]
GStep(g, e, o) ==
  CASE e.op = "subscribe" /\ o.k = "subscribed" ->
         [g EXCEPT !.holds = @ \cup {<<e.s, e.uri, NormMatch(e.match)>>}, !.ids = @ \cup {<<o.sub, e.uri, NormMatch(e.match)>>}]
    [] e.op = "unsubscribe" /\ o.k = "unsubscribed" ->
         [g EXCEPT !.holds = {h \in @ : ~(h[1] = e.s /\ <<e.sub, h[2], h[3]>> \in g.ids)}]
    [] e.op = "detach" -> [g EXCEPT !.holds = {h \in @ : h[1] # e.s}]
    [] e.op = "publish" /\ o.k = "publication" ->
         LET ids == {o.ack[k].pub : k \in 1..Len(o.ack)} \cup {o.event[k].pub : k \in 1..Len(o.event)} IN
         [g EXCEPT !.pubs = @ \cup ids, !.fresh = (ids \cap g.pubs = {} /\ Cardinality(ids) <= 1)]
    [] OTHER -> g

Do(e) ==
  /\ n < Depth
  /\ \E o \in Pick(Good(e)) :
       /\ b' = BJudge(b, e @@ [out |-> o]).st
       /\ n' = n + 1
       /\ hist' = Append(hist, e)
       /\ mem' = mem \cup Facts(e, o)
       /\ last' = [e |-> e, o |-> o, pre |-> b, gpre |-> ghost]
       /\ ghost' = GStep(ghost, e, o)

Attach == "attach" \in Ops /\ Now(3) /\ \E s \in Pick(Sess) :
            Do([op |-> "attach", s |-> s, authid |-> Auth(s).authid, authrole |-> Auth(s).authrole, static |-> FALSE])
Detach == "detach" \in Ops /\ Now(3) /\ \E s \in Pick(Sess) : Do([op |-> "detach", s |-> s])
Discl  == "discl" \in Ops /\ Now(4) /\ \E x \in Pick(BOOLEAN) : Do([op |-> "discl", s |-> "", on |-> x])
Subscribe == "subscribe" \in Ops /\ \E s \in Pick(Sess), x \in Pick(SubSpecs) :
            Do([op |-> "subscribe", s |-> s, req |-> 1, uri |-> x[1], match |-> x[2]])
Unsubscribe == "unsubscribe" \in Ops /\ Now(3) /\ \E s \in Pick(Sess) :
            \E i \in Pick(DOMAIN b.subs \cup {x \in b.dead : Cardinality(b.dead) < 3 \/ Sim} \cup {"bogus"}) :
            Do([op |-> "unsubscribe", s |-> s, req |-> 1, sub |-> i])
UnsubscribeHeld == Sim /\ "unsubscribe" \in Ops /\ Now(2) /\
            \E x \in Pick({y \in Sess \X DOMAIN b.subs : BHolds(b, y[1], y[2])}) :
            Do([op |-> "unsubscribe", s |-> x[1], req |-> 2, sub |-> x[2]])
Publish == "publish" \in Ops /\ \E s \in Pick(Sess), u \in Pick(PubUris), x \in Pick(Excl), a \in Pick(Acks) :
            Do([op |-> "publish", s |-> s, sid |-> s, req |-> 1, uri |-> u, exclude |-> x, ack |-> a, pay |-> Pay])
\* a holder publishes to something it holds
PublishOwn == Sim /\ "publish" \in Ops /\
         \E h \in Pick({y \in Sess \X DOMAIN b.subs : BHolds(b, y[1], y[2]) /\ b.subs[y[2]].uri \in PubUris}) :
         \E x \in Pick(Excl), a \in Pick(Acks) :
            Do([op |-> "publish", s |-> h[1], sid |-> h[1], req |-> 2, uri |-> b.subs[h[2]].uri, exclude |-> x, ack |-> a, pay |-> Pay])

InitOps == LET q == SetToSeqOf(InitAtt) IN
           [k \in 1..Len(q) |-> [op |-> "attach", s |-> q[k], authid |-> Auth(q[k]).authid,
                                 authrole |-> Auth(q[k]).authrole, static |-> FALSE]]
RECURSIVE AttAll(_, _)
AttAll(st, seq) == IF seq = <<>> THEN st ELSE AttAll(BJudge(st, Head(seq) @@ [out |-> [k |-> "ok"]]).st, Tail(seq))

Init == /\ b = AttAll(BInit, InitOps)
        /\ hist = InitOps
        /\ n = Len(InitOps)
        /\ mem = {}
        /\ last = [e |-> [op |-> "init"], o |-> [k |-> "ok"], pre |-> BInit, gpre |-> GInit]
        /\ ghost = GInit

Next == Attach \/ Detach \/ Discl \/ Subscribe \/ Unsubscribe \/ UnsubscribeHeld \/ Publish \/ PublishOwn
Spec == Init /\ [][Next]_vars

Print1 == PrintT("SCN " \o ToJson([h |-> hist', f |-> {ToString(x) : x \in mem'}]))
EmitHist ==
  CASE Emit = "all" -> Print1
    [] Emit = "end" /\ n' = Depth -> Print1
    [] OTHER -> TRUE

View == <<DOMAIN b.att, {b.subs[i] : i \in DOMAIN b.subs}, b.discl, mem>>

-----------------------------------------------------------------------------
(* The properties again, over ghost variables only (last, ghost).            *)
e0 == last.e
o0 == last.o
p0 == last.pre
g0 == last.gpre
IsPub == e0.op = "publish" /\ o0.k = "publication"
Rec == {o0.to[k] : k \in 1..Len(o0.to)}
\* entries somebody holds that match u, as <<uri, match>>
Live(g, u) == {<<h[2], h[3]>> : h \in {x \in g.holds : Matches(x[3], x[2], u)}}
Rank(x) == CASE x[2] = "exact" -> 1000 [] x[2] = "prefix" -> 1 + Len(x[1]) [] OTHER -> 0
Top(g, u) == {x \in Live(g, u) : \A y \in Live(g, u) : Rank(y) <= Rank(x)}
HoldersOf(g, x) == {h[1] : h \in {y \in g.holds : y[2] = x[1] /\ y[3] = x[2]}}

C01_Recipients ==
  IsPub => /\ Len(o0.to) = Cardinality(Rec)
           /\ (Live(g0, e0.uri) = {} => Rec = {} /\ o0.event = <<>>)
           /\ (~e0.exclude /\ Live(g0, e0.uri) # {} =>
                 \E x \in Top(g0, e0.uri) : Rec = HoldersOf(g0, x) /\ Len(o0.event) = 1
                                            /\ <<o0.event[1].sub, x[1], x[2]>> \in ghost.ids)
C02_Identity ==
  /\ \A x, y \in ghost.ids : x[1] = y[1] => x = y
  /\ \A h \in ghost.holds : Cardinality({x \in ghost.ids : x[2] = h[2] /\ x[3] = h[3] /\ x[1] \in DOMAIN b.subs}) = 1
  /\ {<<s, b.subs[i].uri, b.subs[i].match>> : s \in DOMAIN b.att, i \in DOMAIN b.subs} \cap ghost.holds = ghost.holds
  /\ \A i \in DOMAIN b.subs : b.subs[i].holders = HoldersOf(ghost, <<b.subs[i].uri, b.subs[i].match>>)
  /\ e0.op \in {"subscribe", "unsubscribe"} /\ o0.k = "err" => b = p0
C03_Specificity ==
  IsPub /\ o0.event # <<>> => \E x \in Top(g0, e0.uri) : <<o0.event[1].sub, x[1], x[2]>> \in g0.ids
C04_Acknowledged ==
  IsPub => /\ (o0.ack # <<>>) = e0.ack /\ ghost.fresh
           /\ (o0.ack # <<>> => o0.ack[1].to = e0.s /\ o0.ack[1].req = e0.req)
C05_Exclusion ==
  IsPub => /\ e0.exclude => e0.s \notin Rec
           /\ \A x \in Top(g0, e0.uri) :
                Top(g0, e0.uri) = {x} => Rec \ {e0.s} = HoldersOf(g0, x) \ {e0.s}
C12_NothingLeft ==
  /\ \A h \in ghost.holds : h[1] \in DOMAIN b.att
  /\ IsPub => Rec \subseteq DOMAIN p0.att
  /\ e0.op = "detach" /\ o0.k = "ok" => ghost.holds = {h \in g0.holds : h[1] # e0.s}
C14_Disclosure ==
  IsPub /\ o0.event # <<>> => (o0.event[1].details.publisher = IF p0.discl THEN e0.sid ELSE "-")
=============================================================================
