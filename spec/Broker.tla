------------------------------- MODULE Broker -------------------------------
(* The router's publish/subscribe half, in the same style as Dealer.         *)
EXTENDS Uri

BInit == [att   |-> NoFun,   \* attached session -> [authid, authrole, twice (was attached again in vain)]
          subs  |-> NoFun,   \* live subscription id -> [uri, match, holders]
          dead  |-> {},      \* ids of subscriptions that ended
          pubs  |-> {},      \* publication ids used
          discl |-> FALSE]

SubsOf(b, uri, m) == {i \in DOMAIN b.subs : b.subs[i].uri = uri /\ b.subs[i].match = m}
BRoute(b, uri) == LET E(i) == b.subs[i] IN Best(E, DOMAIN b.subs, uri)
BHolds(b, s, i) == i \in DOMAIN b.subs /\ s \in b.subs[i].holders

BRefused(o) == o.k \in {"err", "error"}
BCrashed(o) == o.k \in {"panic", "hang"}

LeaveSub(b, s, i) ==
  IF b.subs[i].holders = {s}
  THEN [b EXCEPT !.subs = Drop(@, {i}), !.dead = @ \cup {i}]
  ELSE [b EXCEPT !.subs[i].holders = @ \ {s}]

BJAttach(b, e) ==
  IF e.s \in DOMAIN b.att
  THEN R([b EXCEPT !.att[e.s].twice = TRUE], Ck(e.out.k = "err", {"C12:second attach of a session accepted"}))
  ELSE R([b EXCEPT !.att = Put(@, e.s, [authid |-> e.authid, authrole |-> e.authrole, twice |-> FALSE])],
         Ck(e.out.k = "ok", {"C12:attach refused"}))

BDepart(b, s) ==
  LET held == {i \in DOMAIN b.subs : s \in b.subs[i].holders}
      gone == {i \in held : b.subs[i].holders = {s}}
  IN [b EXCEPT !.att = Drop(@, {s}), !.dead = @ \cup gone,
               !.subs = [i \in DOMAIN @ \ gone |-> [@[i] EXCEPT !.holders = @ \ {s}]]]

BJDetach(b, e) ==
  IF e.s \notin DOMAIN b.att
  THEN R(b, Ck(e.out.k = "err", {"C12:removal of an absent session accepted"}))
  ELSE R(BDepart(b, e.s), Ck(e.out.k = "ok", {"C12:removal refused or failed"}))

BJSubscribe(b, e) ==
  LET o == e.out
      m == NormMatch(e.match)
      there == SubsOf(b, e.uri, m)
  IN IF e.s \notin DOMAIN b.att
     THEN R(b, Ck(o.k = "err", {"C02:subscribe by an unattached session accepted", "C12:subscribe by a departed session accepted"}))
     ELSE IF o.k # "subscribed"
     THEN R(b, {"C02:subscribe refused", "C01:subscribe refused"})
     ELSE LET adr == Ck(o.to = e.s /\ o.req = e.req, {"C02:SUBSCRIBED to the wrong session or request"}) IN
          IF there # {}
          THEN LET i == CHOOSE x \in there : TRUE IN
               R([b EXCEPT !.subs[i].holders = @ \cup {e.s}],
                 adr \cup Ck(o.sub = i, {"C02:same topic and policy got another id"}))
          ELSE R(IF o.sub \in DOMAIN b.subs THEN b
                 ELSE [b EXCEPT !.subs = Put(@, o.sub, [uri |-> e.uri, match |-> m, holders |-> {e.s}])],
                 adr \cup Ck(o.sub \notin DOMAIN b.subs, {"C02:different subscriptions share an id"})
                     \cup Ck(o.sub \notin b.dead, {"C02:subscription id reused"}))

BJUnsubscribe(b, e) ==
  LET o == e.out IN
  IF e.s \in DOMAIN b.att /\ BHolds(b, e.s, e.sub)
  THEN R(LeaveSub(b, e.s, e.sub),
         Ck(o.k = "unsubscribed" /\ o.to = e.s /\ o.req = e.req, {"C02:unsubscribe of a held subscription not confirmed"}))
  ELSE R(b, Ck(BRefused(o) /\ (o.k = "error" => o.to = e.s /\ e.s \in DOMAIN b.att), {"C02:unsubscribe of a subscription not held accepted"}))

BDisclOK(b, e, v) ==
  IF b.discl
  THEN /\ v.details.topic = e.uri
       /\ v.details.publisher = e.sid
       /\ v.details.publisher_authid = b.att[e.s].authid
       /\ v.details.publisher_authrole = b.att[e.s].authrole
  ELSE \A f \in {"topic", "publisher", "publisher_authid", "publisher_authrole"} : v.details[f] = "-"

\* e.out of a publish: [k |-> "publication", ack |-> <<>> or <<[to, req, pub]>>,
\*                      event |-> <<>> or <<[sub, pub, details, pay]>>, to |-> sequence of recipients]
BJPublish(b, e) ==
  LET o == e.out IN
  IF e.s \notin DOMAIN b.att
  THEN R(b, Ck(o.k = "err", {"C04:publish by an unattached session accepted", "C12:publish by a departed session accepted"}))
  ELSE IF o.k # "publication"
  THEN R(b, {"C04:publish refused", "C01:publish refused"})
  ELSE
  LET cands == BRoute(b, e.uri)
      acks  == SeqSet(o.ack)     \* zero or one
      evs   == SeqSet(o.event)   \* zero or one
      ids   == {a.pub : a \in acks} \cup {v.pub : v \in evs}
      to    == SeqSet(o.to)
      hold(i) == b.subs[i].holders
      want(i) == IF e.exclude THEN hold(i) \ {e.s} ELSE hold(i)
      evsub == {v.sub : v \in evs}
      \* the subscription served: the one of the event; without an event any that leaves nobody to receive it
      none == {x \in cands : want(x) = {}}
      i0 == IF cands = {} THEN {}
            ELSE IF evsub \subseteq cands /\ evsub # {} THEN evsub
            ELSE IF evsub = {} /\ none # {} THEN none ELSE {CHOOSE x \in cands : TRUE}
      dup == Len(o.to) # Cardinality(to)
  IN R([b EXCEPT !.pubs = @ \cup ids],
       \* acknowledgement
       Ck((acks # {}) = e.ack, {"C04:acknowledged iff requested broken"})
       \cup Ck(\A a \in acks : a.to = e.s /\ a.req = e.req, {"C04:acknowledgement to the wrong session or request"})
       \cup Ck(Cardinality(ids) <= 1, {"C04:acknowledgement and event carry different publication ids"})
       \cup Ck(ids \cap b.pubs = {}, {"C04:publication id reused"})
       \* recipients
       \cup Ck(to \subseteq DOMAIN b.att, {"C12:event for a departed session", "C01:event for a departed session"})
       \cup Ck(~dup, {"C01:recipient listed twice"})
       \cup IF cands = {}
            THEN Ck(to = {}, {"C01:event though nothing matches", "C03:event though nothing matches", "C12:event though nothing matches"})
                 \cup Ck(evs = {}, {"C01:event though nothing matches", "C03:event though nothing matches"})
            ELSE LET i == CHOOSE x \in i0 : TRUE
                     w == want(i)
                 IN \* an event may be omitted when nobody is left to receive it
                    (IF evs = {}
                     THEN Ck(w = {}, {"C01:no event though a subscription matches", "C03:no event though a subscription matches",
                                      "C12:subscription of another session lost"})
                     ELSE Ck(evsub \subseteq cands, {"C03:event under the wrong subscription", "C04:event under the wrong subscription"}))
                    \cup Ck(to \ {e.s} = w \ {e.s},
                            {"C01:wrong recipients", "C12:wrong recipients"}
                            \cup (IF e.s \in hold(i) THEN {"C05:other holders affected"} ELSE {}))
                    \cup (IF e.s \in hold(i)
                          THEN Ck((e.s \in to) = ~e.exclude,
                                  {"C05:publisher exclusion wrong"}
                                  \cup IF e.exclude THEN {} ELSE {"C01:wrong recipients"})
                          ELSE Ck(e.s \notin to, {"C01:publisher is a recipient without a subscription", "C05:publisher is a recipient without a subscription"}))
       \* content
       \cup Ck(\A v \in evs : v.pay = e.pay, {"C04:event payload changed"})
       \cup Ck(\A v \in evs : BDisclOK(b, e, v), {"C14:publisher disclosure wrong"}
               \cup IF b.att[e.s].twice THEN {"C12:a refused attach had an effect"} ELSE {}))

\* Very many requests of one session in a row: recorded are the numbers of answers and of ids never seen before, how
\* many events there were and how many went to whom, and a sample of the subscriptions.
BJBulkPublish(b, e) ==
  LET o == e.out
      i == CHOOSE x \in BRoute(b, e.uri) : TRUE
      want == b.subs[i].holders \ {e.s}
  IN R(b, Ck(o.answered = e.n, {"C04:acknowledgement missing among many"})
          \cup Ck(o.fresh = o.answered, {"C04:publication id reused among many"})
          \cup Ck(o.events = e.n, {"C01:event missing among many", "C04:event and acknowledgement differ among many"})
          \cup Ck(SeqSet(o.to) = {[s |-> s, n |-> e.n] : s \in want}, {"C01:wrong recipients among many", "C05:wrong recipients among many"}))
BJBulkSubscribe(b, e) ==
  LET o == e.out
      at(x) == CHOOSE k \in 1..Len(o.sample) : o.sample[k].sub = x
  IN R([b EXCEPT !.subs = [x \in {o.sample[k].sub : k \in 1..Len(o.sample)} |->
                             [uri |-> o.sample[at(x)].uri, match |-> e.match, holders |-> {e.s}]] @@ @],
       Ck(o.answered = e.n, {"C02:subscribe refused among many", "C01:subscribe refused among many"})
       \cup Ck(o.fresh = o.answered, {"C02:subscription id reused among many"}))

BHas(b, u) == \E i \in DOMAIN b.subs : b.subs[i].uri = u
BHasOK(b, e) ==
  Ck({u \in e.uni : BHas(b, u)} = e.has,
     {"C02:HasSubscription wrong"} \cup (IF e.op = "detach" THEN {"C12:HasSubscription wrong after a departure"} ELSE {}))

BJHas(b, e) == R(b, Ck(e.out.val = BHas(b, e.uri), {"C02:HasSubscription wrong"}))

BCrashLabels(op) ==
  {"C23:" \o op \o " crashed"} \cup
  CASE op = "publish"     -> {"C01:publish crashed", "C03:publish crashed", "C04:publish crashed", "C05:publish crashed", "C14:publish crashed"}
    [] op = "subscribe"   -> {"C02:subscribe crashed"}
    [] op = "unsubscribe" -> {"C02:unsubscribe crashed"}
    [] op = "chaos"       -> {}
    [] OTHER              -> {"C12:" \o op \o " crashed"}

BJudge0(b, e) ==
  CASE e.op = "attach"      -> BJAttach(b, e)
    [] e.op = "detach"      -> BJDetach(b, e)
    [] e.op = "discl"       -> R([b EXCEPT !.discl = e.on], {})
    [] e.op = "subscribe"   -> BJSubscribe(b, e)
    [] e.op = "unsubscribe" -> BJUnsubscribe(b, e)
    [] e.op = "publish"     -> BJPublish(b, e)
    [] e.op = "has"         -> BJHas(b, e)
    [] e.op = "bulkpublish" -> BJBulkPublish(b, e)
    [] e.op = "bulksubscribe" -> BJBulkSubscribe(b, e)
    [] OTHER                -> \* "chaos": any message, with any options
         R(b, Ck(e.out.k # "nil", {"C23:message neither answered nor refused"})
              \cup Ck("to" \notin DOMAIN e.out \/ SeqSet(e.out.to) \subseteq DOMAIN b.att, {"C12:message for a session that is not attached"}))

BJudge(b, e) == IF BCrashed(e.out) THEN R(b, BCrashLabels(e.op)) ELSE BJudge0(b, e)
=============================================================================
