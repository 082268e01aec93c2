------------------------------- MODULE System -------------------------------
(* Clients and router together, seen from outside: what well-behaved clients *)
(* hand to their sessions, what the router makes of each message it takes    *)
(* from a connection, and what the sessions give to the clients. Connections *)
(* are ordered in both directions. YJudge(y, e) is the same kind of relation *)
(* as in the other modules; it knows nothing of how dealer, broker and       *)
(* session work. SystemModel shows that it follows from Dealer, Broker and   *)
(* Session; Trace_System evaluates it on runs of the real code.              *)
(*                                                                           *)
(* A message: [kind, req, id, n, a, m, pol, prog, rp, ack, excl, rtype, disc]*)
(*  id: subscription or registration; n: payload; a: URI; m, pol: match and  *)
(*  invocation policy; rtype: what an ERROR responds to; disc: who sent it.  *)
EXTENDS Uri

YInit == [who    |-> NoFun,  \* connected client -> what it is known as ("session|authid|authrole")
          gone   |-> {},     \* the same of clients that left
          up     |-> NoFun,  \* client -> messages sent and not yet routed
          down   |-> NoFun,  \* client -> messages addressed to it and not yet received
          wait   |-> NoFun,  \* client -> its requests <<kind, req>> without a final answer
          subs   |-> NoFun,  \* <<client, subscription id>> -> [uri, match]
          regs   |-> NoFun,  \* <<client, registration id>> -> [uri, match, pol]
          pend   |-> NoFun,  \* <<callee, invocation id>> -> [caller, req, rp, prog]
          orphan |-> {},     \* the same whose caller left
          lost   |-> {},     \* calls <<client, req>> whose callee left
          discl  |-> FALSE]

Requesting == {"call", "register", "unregister", "subscribe", "unsubscribe", "publish"}
Answering == [result |-> "call", registered |-> "register", unregistered |-> "unregister", subscribed |-> "subscribe",
              unsubscribed |-> "unsubscribe", published |-> "publish"]
Shared == {"first", "last", "roundrobin", "random"}

Failed(o) == o.k # "ok"
Subscribers(y, x) == {k[1] : k \in {z \in DOMAIN y.subs : y.subs[z] = x}}
YBest(f, u) == LET E(x) == x IN Best(E, {[uri |-> v.uri, match |-> v.match] : v \in Range(f)}, u)

YJoin(y, e) ==
  LET c == e.c IN
  IF Failed(e.out) THEN R(y, {"C28:client could not join"})
  ELSE R([y EXCEPT !.who = Put(@, c, e.who), !.up = Put(@, c, <<>>), !.down = Put(@, c, <<>>), !.wait = Put(@, c, {})],
         Ck(\A x \in DOMAIN y.who : y.who[x] # e.who, {"C28:two clients cannot be told apart"})
         \cup Ck(e.who = e.told, {"C28:client and router disagree about who the client is"}))

YLeave(y, e) ==
  LET c == e.c
      mine(k) == y.pend[k].caller = c
  IN R([y EXCEPT !.who = Drop(@, {c}), !.gone = @ \cup {y.who[c]}, !.up = Drop(@, {c}), !.down = Drop(@, {c}), !.wait = Drop(@, {c}),
                 !.subs = Drop(@, {k \in DOMAIN @ : k[1] = c}), !.regs = Drop(@, {k \in DOMAIN @ : k[1] = c}),
                 !.orphan = {k \in @ : k[1] # c} \cup {k \in DOMAIN y.pend : mine(k) /\ k[1] # c},
                 !.lost = {x \in @ : x[1] # c} \cup {<<y.pend[k].caller, y.pend[k].req>> : k \in {z \in DOMAIN y.pend : z[1] = c /\ ~mine(z)}},
                 !.pend = Drop(@, {k \in DOMAIN @ : k[1] = c \/ mine(k)})],
       Ck(~Failed(e.out), {"C28:client could not leave"}))

YSend(y, e) ==
  LET c == e.c
      m == e.msg
  IN IF Failed(e.out) THEN R(y, {"C28:session refuses a message of a well-behaved client"})
     ELSE R([y EXCEPT !.up[c] = Append(@, m),
                      !.wait[c] = IF m.kind \in Requesting /\ (m.kind = "publish" => m.ack) THEN @ \cup {<<m.kind, m.req>>} ELSE @], {})

-----------------------------------------------------------------------------
\* Routing of the first message of a connection; ms: what the router addresses to whom.

One(ms, c, kind, req) == Len(ms) = 1 /\ ms[1].to = c /\ ms[1].msg.kind = kind /\ ms[1].msg.req = req
Disc(y, c, m) == IF y.discl THEN m.a \o "|" \o y.who[c] ELSE "-"

YRSubscribe(y, c, m, ms) ==
  IF One(ms, c, "subscribed", m.req)
  THEN R([y EXCEPT !.subs = Put(@, <<c, ms[1].msg.id>>, [uri |-> m.a, match |-> NormMatch(m.m)])], {})
  ELSE R(y, {"C28:subscribe not answered with SUBSCRIBED"})

YRUnsubscribe(y, c, m, ms) ==
  IF <<c, m.id>> \notin DOMAIN y.subs THEN R(y, {})
  ELSE R([y EXCEPT !.subs = Drop(@, {<<c, m.id>>})],
         Ck(One(ms, c, "unsubscribed", m.req), {"C28:unsubscribe not answered with UNSUBSCRIBED"}))

YRPublish(y, c, m, ms) ==
  LET evs == {k \in 1..Len(ms) : ms[k].msg.kind = "event"}
      oth == {k \in 1..Len(ms) : ms[k].msg.kind # "event"}
      best == YBest(y.subs, m.a)
      rec == {ms[k].to : k \in evs}
      want(x) == Subscribers(y, x) \ (IF m.excl THEN {c} ELSE {})
      fits(x) == rec = want(x) /\ \A k \in evs : <<ms[k].to, ms[k].msg.id>> \in DOMAIN y.subs /\ y.subs[<<ms[k].to, ms[k].msg.id>>] = x
  IN R(y, Ck(IF best = {} THEN evs = {} ELSE \E x \in best : fits(x), {"C28:event not sent to the subscribers"})
          \cup Ck(Cardinality(evs) = Cardinality(rec), {"C28:event sent twice"})
          \cup Ck(\A k \in evs : ms[k].msg.n = m.n, {"C28:event carries something else than was published"})
          \cup Ck(\A k \in evs : ms[k].msg.disc = Disc(y, c, m), {"C28:event names the wrong publisher"})
          \cup Ck(IF m.ack THEN \E k \in oth : oth = {k} /\ ms[k].to = c /\ ms[k].msg.kind = "published" /\ ms[k].msg.req = m.req ELSE oth = {},
                  {"C28:publish not acknowledged once"}))

YRRegister(y, c, m, ms) ==
  LET there == {k \in DOMAIN y.regs : y.regs[k].uri = m.a}
      new == [uri |-> m.a, match |-> NormMatch(m.m), pol |-> m.pol]
      joins == \A k \in there : y.regs[k] = new /\ m.pol \in Shared
  IN IF One(ms, c, "registered", m.req)
     THEN R([y EXCEPT !.regs = Put(@, <<c, ms[1].msg.id>>, new)], Ck(joins, {"C28:register of a taken procedure confirmed"}))
     ELSE R(y, Ck(One(ms, c, "error", m.req) /\ ms[1].msg.rtype = "register" /\ ~joins, {"C28:register not answered"}))

YRUnregister(y, c, m, ms) ==
  IF <<c, m.id>> \in DOMAIN y.regs
  THEN R([y EXCEPT !.regs = Drop(@, {<<c, m.id>>})], Ck(One(ms, c, "unregistered", m.req), {"C28:unregister not answered with UNREGISTERED"}))
  ELSE R(y, Ck(One(ms, c, "error", m.req) /\ ms[1].msg.rtype = "unregister", {"C28:unregister not answered"}))

YRCall(y, c, m, ms) ==
  LET cont == {k \in DOMAIN y.pend : y.pend[k].caller = c /\ y.pend[k].req = m.req}
      best == YBest(y.regs, m.a)
      i == ms[1].msg
      key == <<ms[1].to, i.req>>
      inv == Len(ms) = 1 /\ i.kind = "invocation"
      reg(k) == [uri |-> y.regs[k].uri, match |-> y.regs[k].match]
      content == Ck(i.n = m.n, {"C28:invocation carries something else than the call"})
                 \cup Ck(i.prog = m.prog /\ i.rp = m.rp, {"C28:invocation has other progress flags than the call"})
                 \cup Ck(i.disc = Disc(y, c, m), {"C28:invocation names the wrong caller"})
  IN IF cont # {}
     THEN IF inv /\ key \in cont THEN R([y EXCEPT !.pend[key].prog = m.prog], content)
          ELSE R(y, {"C28:chunk of a call not sent to its callee"})
     ELSE IF best = {}
     THEN R(y, Ck(One(ms, c, "error", m.req) /\ ms[1].msg.rtype = "call", {"C28:call without a callee not answered with an error"}))
     ELSE IF ~inv THEN R(y, {"C28:call not sent to a callee"})
     ELSE R([y EXCEPT !.pend = Put(@, key, [caller |-> c, req |-> m.req, rp |-> m.rp, prog |-> m.prog]), !.lost = @ \ {<<c, m.req>>}],
            content
            \cup Ck(<<key[1], i.id>> \in DOMAIN y.regs /\ reg(<<key[1], i.id>>) \in best, {"C28:call sent to somebody who is no callee"})
            \cup Ck(key \notin DOMAIN y.pend /\ key \notin y.orphan, {"C28:two calls under one invocation id"}))

YRAnswer(y, c, m, ms) ==
  LET key == <<c, m.req>>
      v == y.pend[key]
      prog == m.kind = "yield" /\ m.prog /\ v.rp
      r == ms[1].msg
  IN IF key \notin DOMAIN y.pend
     THEN R([y EXCEPT !.orphan = @ \ (IF m.kind = "yield" /\ m.prog THEN {} ELSE {key})], Ck(ms = <<>>, {"C28:answer without a caller sent to somebody"}))
     ELSE R([y EXCEPT !.pend = IF prog THEN @ ELSE Drop(@, {key})],
            IF One(ms, v.caller, IF m.kind = "yield" THEN "result" ELSE "error", v.req)
            THEN Ck(r.n = m.n, {"C28:caller gets something else than the callee's answer"})
                 \cup Ck(m.kind = "yield" => r.prog = prog, {"C28:result has the wrong progress flag"})
                 \cup Ck(m.kind = "error" => r.rtype = "call" /\ r.a = m.a, {"C28:error of the callee changed"})
            ELSE {"C28:answer not sent to the caller"})

RECURSIVE Push(_, _)
Push(down, ms) == IF ms = <<>> THEN down
                  ELSE Push(IF Head(ms).to \in DOMAIN down THEN [down EXCEPT ![Head(ms).to] = Append(@, Head(ms).msg)] ELSE down, Tail(ms))

YRoute(y, e) ==
  LET c == e.c
      m == Head(y.up[c])
      ms == e.out.msgs
      j == CASE m.kind = "subscribe" -> YRSubscribe(y, c, m, ms)
             [] m.kind = "unsubscribe" -> YRUnsubscribe(y, c, m, ms)
             [] m.kind = "publish" -> YRPublish(y, c, m, ms)
             [] m.kind = "register" -> YRRegister(y, c, m, ms)
             [] m.kind = "unregister" -> YRUnregister(y, c, m, ms)
             [] m.kind = "call" -> YRCall(y, c, m, ms)
             [] OTHER -> YRAnswer(y, c, m, ms)
  IN IF y.up[c] = <<>> THEN R(y, {"C28:message that nobody sent"})
     ELSE IF e.out.k \notin {"ok", "err"} THEN R(y, {"C28:router brought down or message lost on the way to it"})
     ELSE R([j.st EXCEPT !.up[c] = Tail(@), !.down = Push(@, ms)],
            j.bad \cup Ck(\A k \in 1..Len(ms) : ms[k].to \in DOMAIN y.who, {"C28:message to somebody who is not there"}))

-----------------------------------------------------------------------------
AnswerTo(m) ==   \* the request that a message answers for good
  IF m.kind = "error" THEN <<m.rtype, m.req>>
  ELSE IF m.kind \in DOMAIN Answering /\ ~(m.kind = "result" /\ m.prog) THEN <<Answering[m.kind], m.req>>
  ELSE <<"-", "-">>

YDeliver(y, e) ==
  LET c == e.c
      m == Head(y.down[c])
      key == AnswerTo(m)
  IN IF y.down[c] = <<>> THEN R(y, {"C28:message that the router did not send"})
     ELSE R([y EXCEPT !.down[c] = Tail(@), !.wait[c] = @ \ {key}],
            IF Failed(e.out) THEN {"C28:message refused by the session it was addressed to"}
            ELSE Ck(e.out.msg = m, {"C28:message changed on the way to the client"})
                 \cup Ck(key[1] # "-" => key \in y.wait[c], {"C28:request answered twice"})
                 \cup Ck(m.kind = "result" /\ m.prog => <<"call", m.req>> \in y.wait[c], {"C28:progress after the end of the call"}))

\* Everything sent has been routed, received and answered.
YEnd(y) ==
  R(y, Ck(\A c \in DOMAIN y.who : y.up[c] = <<>> /\ y.down[c] = <<>>, {"C28:messages left over"})
       \cup Ck(DOMAIN y.pend = {}, {"C28:invocation never reached its callee"})
       \cup Ck(\A c \in DOMAIN y.who : \A k \in y.wait[c] : k[1] = "call" /\ <<c, k[2]>> \in y.lost, {"C28:request never answered"}))

YJudge(y, e) ==
  CASE e.op = "join" -> YJoin(y, e)
    [] e.op = "leave" -> YLeave(y, e)
    [] e.op = "discl" -> R([y EXCEPT !.discl = e.on], {})
    [] e.op = "send" -> YSend(y, e)
    [] e.op = "route" -> YRoute(y, e)
    [] e.op = "deliver" -> YDeliver(y, e)
    [] e.op = "end" -> YEnd(y)
    [] OTHER -> R(y, {})
=============================================================================
