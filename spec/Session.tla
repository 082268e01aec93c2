------------------------------- MODULE Session -------------------------------
(* The client session: which messages may be sent and which are accepted.    *)
(* Same style as Dealer: SJudge(s, e) gives the next state and the property  *)
(* conjuncts that the observed outcome of e breaks.                          *)
(* e: [op |-> "send"/"recv"/"junk", kind, req, id, rtype, progress, ack]     *)
(* e.out: [k |-> "ok"/"err"/"panic"/"hang", clean |-> BOOLEAN]; clean: an    *)
(* accepted message came back (or was serialized) as it was, a refused one   *)
(* produced nothing.                                                         *)
EXTENDS Uri

SInit == [open  |-> NoFun,   \* outstanding requests <<kind, req>> -> subscription or registration id, or ""
          subs  |-> {},      \* subscriptions held
          regs  |-> {},      \* registrations held
          vague |-> {}]      \* outstanding requests whose confirmation contradicts what is held

Requests == {"call", "register", "unregister", "subscribe", "unsubscribe", "publish"}
\* messages a client may send, and those it must be able to send in any state
Sendable == Requests \cup {"yield", "inverror", "goodbye"}
\* router-to-client messages, each with the request it responds to
AnswerOf == [result |-> "call", registered |-> "register", unregistered |-> "unregister", subscribed |-> "subscribe",
             unsubscribed |-> "unsubscribe", published |-> "publish"]
RouterOnly == DOMAIN AnswerOf \cup {"event", "invocation", "welcome", "challenge", "interrupt"}
ClientOnly == {"call", "yield", "register", "unregister", "subscribe", "unsubscribe", "publish", "hello", "authenticate", "cancel"}

SCrashed(o) == o.k \in {"panic", "hang"}
Open(s, kind, req) == <<kind, req>> \in DOMAIN s.open
Consume(s, key) == [s EXCEPT !.open = Drop(@, {key}), !.vague = @ \ {key}]
Keep(s, key, id) == [s EXCEPT !.open = Put(@, key, id), !.vague = @ \ {key}]

SJSend(s, e) ==
  LET o == e.out
      ok == o.k = "ok"
      key == <<e.kind, e.req>>
  IN
  CASE e.bad ->   \* content that no serializer can write
         R(s, Ck(~ok /\ o.clean, {"C15:unserializable message sent", "C16:unserializable message sent"}))
    [] e.kind = "unsubscribe" ->
         IF e.id \in s.subs
         THEN R(IF ok THEN Keep(s, key, e.id) ELSE s, Ck(ok /\ o.clean, {"C16:unsubscribe of a held subscription refused"}))
         ELSE R(s, Ck(~ok /\ o.clean, {"C16:unsubscribe of a subscription not held sent"}))
    [] e.kind = "unregister" /\ e.id \notin s.regs ->   \* may be refused or sent
         R(IF ok THEN Keep(s, key, e.id) ELSE s, Ck(o.clean, {"C16:sent message damaged"}))
    [] e.kind = "publish" /\ ~e.ack ->
         R(s, Ck(ok /\ o.clean, {"C15:publish refused"}))
    [] e.kind \in Requests ->
         R(IF ok THEN Keep(s, key, e.id) ELSE s, Ck(ok /\ o.clean, {"C15:request refused or damaged"}))
    [] e.kind \in Sendable ->
         R(s, Ck(ok /\ o.clean, {"C16:client message refused or damaged"}))
    [] e.kind \in RouterOnly \cup {"error"} ->
         R(s, Ck(~ok /\ o.clean, {"C16:router message sent by a client"}))
    [] OTHER -> R(s, {})

\* A response that ends request key; grow: what it adds to the state.
SJFinal(s, e, key, grow(_)) ==
  LET ok == e.out.k = "ok" IN
  IF key \in s.vague THEN R(IF ok THEN grow(Consume(s, key)) ELSE s, {})
  ELSE IF key \in DOMAIN s.open
  THEN R(grow(Consume(s, key)), Ck(ok /\ e.out.clean, {"C15:response to an outstanding request refused or damaged"}))
  ELSE R(s, Ck(~ok /\ e.out.clean, {"C15:response without an outstanding request accepted"}))

Same(s) == s

SJRecv(s, e) ==
  LET o == e.out
      ok == o.k = "ok"
  IN
  CASE e.kind = "result" /\ e.progress ->
         R(s, IF Open(s, "call", e.req)
              THEN Ck(ok /\ o.clean, {"C15:progressive result of an outstanding call refused or damaged"})
              ELSE Ck(~ok /\ o.clean, {"C15:progressive result without an outstanding call accepted"}))
    [] e.kind = "registered" ->
         LET g(x) == [x EXCEPT !.regs = @ \cup {e.id}] IN SJFinal(s, e, <<"register", e.req>>, g)
    [] e.kind = "subscribed" ->
         LET g(x) == [x EXCEPT !.subs = @ \cup {e.id}] IN SJFinal(s, e, <<"subscribe", e.req>>, g)
    [] e.kind \in {"unregistered", "unsubscribed"} ->
         LET kind == AnswerOf[e.kind]
             key == <<kind, e.req>>
             held == IF kind = "unregister" THEN s.regs ELSE s.subs
             g(x) == IF kind = "unregister" THEN [x EXCEPT !.regs = @ \ {s.open[key]}] ELSE [x EXCEPT !.subs = @ \ {s.open[key]}]
         IN IF key \in DOMAIN s.open /\ s.open[key] \notin held
            THEN R(IF ok THEN Consume(s, key) ELSE [s EXCEPT !.vague = @ \cup {key}], {})
            ELSE SJFinal(s, e, key, g)
    [] e.kind \in DOMAIN AnswerOf -> SJFinal(s, e, <<AnswerOf[e.kind], e.req>>, Same)
    [] e.kind = "error" ->
         IF e.rtype \in Requests THEN SJFinal(s, e, <<e.rtype, e.req>>, Same)
         ELSE R(s, Ck(~ok /\ o.clean, {"C15:error for something that is no request accepted"}))
    [] e.kind = "event" ->
         R(s, IF e.id \in s.subs THEN Ck(ok /\ o.clean, {"C16:event of a held subscription refused or damaged"})
              ELSE Ck(~ok /\ o.clean, {"C16:event of a subscription not held accepted"}))
    [] e.kind = "invocation" ->
         R(s, IF e.id \in s.regs THEN Ck(ok /\ o.clean, {"C16:invocation of a held registration refused or damaged"})
              ELSE Ck(~ok /\ o.clean, {"C16:invocation of a registration not held accepted"}))
    [] e.kind \in {"goodbye", "abort"} -> R(s, Ck(ok /\ o.clean, {"C16:router message refused or damaged"}))
    [] e.kind \in ClientOnly -> R(s, Ck(~ok /\ o.clean, {"C16:client message accepted"}))
    [] OTHER -> R(s, {})

\* Very many requests of one kind, all outstanding at once. out: how many of the n were accepted: answers before the
\* requests, requests, answers to other requests, answers, the same answers again, uses of what is held now and of what
\* is not, requests to end it, their answers, those again, and uses of what was given back.
SJBulk(s, e) ==
  LET o == e.out
      holds == e.kind \in {"subscribe", "register"}
  IN R(s, Ck(o.sent = e.n, {"C15:request among many refused"})
          \cup Ck(o.early = 0 /\ o.strange = 0 /\ o.again = 0 /\ o.endedagain = 0, {"C15:response without an outstanding request accepted among many"})
          \cup Ck(o.answered = e.n, {"C15:response to an outstanding request among many refused"})
          \cup (IF ~holds THEN {} ELSE
                Ck(o.used = e.n, {"C16:event or invocation of one held among many refused"})
                \cup Ck(o.unheld = 0 /\ o.left = 0, {"C16:event or invocation of one not held accepted among many"})
                \cup Ck(o.ending = e.n, {"C16:end of one held among many refused"})
                \cup Ck(o.ended = e.n, {"C15:response to an outstanding request among many refused"})))

SJudge(s, e) ==
  IF SCrashed(e.out) THEN R(s, {"C23:session crashed", "C15:session crashed", "C16:session crashed"})
  ELSE CASE e.op = "send" -> SJSend(s, e)
         [] e.op = "recv" -> SJRecv(s, e)
         [] e.op = "bulk" -> SJBulk(s, e)
         [] e.op = "junk" -> R(s, Ck(e.out.k = "err", {"C15:undecodable bytes accepted"}))
         [] OTHER -> R(s, Ck(e.out.k # "nil", {"C23:message neither answered nor refused"}))   \* "chaos": any message
=============================================================================
