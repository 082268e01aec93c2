------------------------------ MODULE Handshake ------------------------------
(* The opening handshake, both sides. Messages are abstract; cryptography is *)
(* symbolic: a signature is described by who made it, with which parameters, *)
(* over which challenge. Any number of acceptors (router side) and joiners   *)
(* (client side) live in one history, so that answers can be carried from    *)
(* one handshake to another. HJudge(s, e) gives the next state and the       *)
(* property conjuncts that the observed outcome of e breaks.                 *)
EXTENDS Uri

\* ---- the server's accounts; the harness has the same table ------------------
\* id, role: what the server's authenticator answers; realms: where it approves
Acc(id, role, realms, salt) == [id |-> id, role |-> role, realms |-> realms, salt |-> salt]
Accounts ==
  [A     |-> Acc("A", "user", {"r1"}, "none"),
   B     |-> Acc("B", "admin", {"r1", "r2"}, "salted"),
   C     |-> Acc("C", "user", {"r1", "r2"}, "custom"),   \* own iterations and key length
   alias |-> Acc("real", "guest", {"r1"}, "none"),       \* the server knows this user under another name
   both  |-> Acc("both", "user", {}, "none"),            \* refused, with a response beside the error
   plain |-> Acc("plain", "user", {"r1"}, "none"),       \* WAMP-CRA answered without a secret
   junk  |-> Acc("junk", "user", {"r1"}, "none"),        \* approved, but its public key is not a key
   anyone |-> Acc("anonymous", "anonymous", {"r1", "r2"}, "none")]
AuthIds == DOMAIN Accounts \cup {"nobody"}
Methods == {"anonymous", "ticket", "wampcra", "cryptosign"}

Knows(realm, authid) == authid \in DOMAIN Accounts /\ realm \in Accounts[authid].realms
\* Accounts change while the server runs: what it says now of this one:
\* "as" in the table, "revoked", "demoted" to another role, "rotated": ticket and secret are others
Status(s, authid) == IF authid \in DOMAIN s.now THEN s.now[authid] ELSE "as"
\* the decision of the server's authenticator; cred: the ticket's or key's owner
Approves(x, nilauth, method, realm, authid, cred) ==
  IF nilauth THEN method = "anonymous"
  ELSE /\ Knows(realm, authid) /\ x # "revoked"
       /\ method = "ticket" => cred = (IF x = "rotated" THEN authid \o "+" ELSE authid)
       /\ method = "cryptosign" => cred = authid
Answer(x, nilauth, authid) ==
  IF nilauth THEN [id |-> "anonymous", role |-> "anonymous"]
  ELSE [id |-> Accounts[authid].id, role |-> IF x = "demoted" THEN "demoted" ELSE Accounts[authid].role]

\* methods the acceptor may go on with
Admissible(enabled, offered) ==
  IF offered = <<>> THEN {"anonymous"} \cap enabled ELSE Range(offered) \cap enabled

NoDet == [k |-> "none"]
NewAcceptor(enabled, nilauth) ==
  [ph |-> "none", enabled |-> enabled, nilauth |-> nilauth, erred |-> FALSE, method |-> "-", realm |-> "-", authid |-> "-",
   pk |-> "-", ch |-> "-", was |-> "as", det |-> NoDet]
NewJoiner(realm, method, authid) ==
  [ph |-> "new", realm |-> realm, method |-> method, authid |-> authid, erred |-> FALSE, det |-> NoDet]

HInit == [a |-> NoFun, j |-> NoFun, seen |-> {}, now |-> NoFun]

HCrashed(o) == o.k \in {"panic", "hang"}

\* ---- router side ----------------------------------------------------------
\* requests put to the authenticator are the client's, whatever comes of them
ReqsOk(e, method, realm, authid, cred) ==
  \A i \in DOMAIN e.out.reqs :
    LET q == e.out.reqs[i] IN q.method = method /\ q.realm = realm /\ q.authid = authid /\ q.cred = cred /\ q.extra

\* a WELCOME: its contents, those of the session details, and the approval behind it, given when the account was as in X
WelcomeBad(X, a, e, method, realm, authid) ==
  LET o == e.out
      fit == {x \in X : Answer(x, a.nilauth, authid) = [id |-> o.authid, role |-> o.authrole]}
      ans == Answer(CHOOSE x \in (IF fit = {} THEN X ELSE fit) : TRUE, a.nilauth, authid)
      want == [k |-> "some", realm |-> realm, authid |-> ans.id, authrole |-> ans.role, method |-> method, sid |-> o.sid]
  IN Ck(o.realm = realm /\ o.authid = ans.id /\ o.authrole = ans.role /\ o.method = method,
        {"C18:WELCOME differs from what was approved", "C21:WELCOME differs from what was approved"})
     \cup Ck(o.det = want, {"C18:session details differ from what was approved", "C20:no session details after WELCOME",
                            "C21:session details differ from the WELCOME"})
     \cup Ck(o.sidok /\ o.rolesok, {"C21:WELCOME without a session id in range and the router's roles"})
     \cup Ck(o.recok, {"C21:session details do not record the serializer and the time"})

ChallengeBad(s, e, method, authid) ==
  LET o == e.out IN
  Ck(method \in {"wampcra", "cryptosign"} => o.ch # "-" /\ o.ch \notin s.seen /\ o.fresh, {"C19:challenge used before or missing"})
  \cup Ck(o.formok, {"C21:challenge not of the standard form", "C19:challenge not of the standard form"})

Set(s, h, x) == [s EXCEPT !.a = Put(@, h, x)]

Refused(s, h, a, e) ==
  IF e.out.k = "abort" THEN Set(s, h, [a EXCEPT !.ph = "over"])
  ELSE Set(s, h, [a EXCEPT !.erred = TRUE])

\* what a side reports when nothing was established by this step
DetKept(a, e) == Ck(e.out.det = a.det, {"C20:session details without a WELCOME or lost"})
FlagOk(e) == Ck(e.out.flag, {"C20:welcomed flag differs from the message sent"})

HJHello(s, e) ==
  LET h == e.h
      a == s.a[h]
      o == e.out
      M == Admissible(a.enabled, e.offered)
      m == o.method
      now == Status(s, e.authid)
      \* would be taken further: approved (anonymous, wampcra, cryptosign) or asked for the ticket
      goodM(x) ==
        CASE x = "ticket" -> TRUE
          [] x = "cryptosign" -> Approves(now, a.nilauth, x, e.realm, e.authid, e.pk)
          [] x = "wampcra" -> Approves(now, a.nilauth, x, e.realm, e.authid, "-") /\ e.authid # "plain"
          [] x = "anonymous" -> Approves(now, a.nilauth, x, e.realm, e.authid, "-")
          [] OTHER -> FALSE
      next == [a EXCEPT !.method = m, !.realm = e.realm, !.authid = e.authid, !.pk = e.pk, !.was = now, !.erred = FALSE]
      reqs == \E x \in M \cup {"-"} : ReqsOk(e, x, e.realm, e.authid, IF x = "cryptosign" THEN e.pk ELSE "-")
  IN
  CASE o.k = "welcome" ->
         R(Set(s, h, [next EXCEPT !.ph = "over", !.det = o.det]),
           Ck(a.ph = "none", {"C20:WELCOME in answer to a later HELLO", "C18:WELCOME in answer to a later HELLO"})
           \cup Ck(m = "anonymous" /\ m \in M, {"C18:welcomed by a method not enabled and offered"})
           \cup Ck(goodM("anonymous"), {"C18:welcomed without approval"})
           \cup (IF goodM("anonymous") THEN WelcomeBad({now}, a, e, m, e.realm, e.authid) ELSE {})
           \cup Ck(a.nilauth \/ (o.reqs # <<>> /\ reqs), {"C18:authenticator not asked about this request"}) \cup FlagOk(e))
    [] o.k = "challenge" ->
         R([Set(s, h, [next EXCEPT !.ph = "challenged", !.ch = o.ch]) EXCEPT !.seen = @ \cup {o.ch}],
           Ck(a.ph = "none", {"C20:CHALLENGE in answer to a later HELLO"})
           \cup Ck(m \in M \ {"anonymous"}, {"C18:challenge of a method not enabled and offered"})
           \cup Ck(goodM(m), {"C18:challenge for a request that was refused"})
           \cup Ck(reqs, {"C18:authenticator asked about another request"})
           \cup ChallengeBad(s, e, m, e.authid) \cup DetKept(a, e) \cup FlagOk(e))
    [] o.k \in {"abort", "err"} ->
         R(IF a.ph # "over" THEN Refused(s, h, a, e) ELSE s,
           Ck(a.ph # "none" \/ a.erred \/ M = {} \/ \E x \in M : ~goodM(x), {"C21:HELLO with an enabled method refused"})
           \cup Ck(reqs, {"C18:authenticator asked about another request"}) \cup DetKept(a, e) \cup FlagOk(e))
    [] OTHER -> R(s, {"C20:HELLO answered by another message"})

\* whose ticket it is; each account has one, and another one after a rotation
TicketOf(g) == IF g.k # "ticket" THEN "?" ELSE IF g.form = "std" THEN g.who ELSE IF g.form = "rot" THEN g.who \o "+" ELSE "?"
\* the signature e.sig, given to handshake a whose account is as x: "yes", "no", "either"
VerifiesAs(x, a, e) ==
  LET g == e.sig
      mine == g.chs = a.ch /\ a.ch # "-"
  IN
  CASE a.method = "ticket" -> IF Approves(x, a.nilauth, "ticket", a.realm, a.authid, TicketOf(g)) THEN "yes" ELSE "no"
    [] a.method = "wampcra" -> IF g.k = "cra" /\ g.who = a.authid /\ mine
                                /\ (g.par = (IF x = "rotated" THEN "rot" ELSE "own") \/ (g.par = "plain" /\ x # "rotated" /\ Accounts[g.who].salt = "none"))
                                /\ g.form = "std" /\ Approves(x, a.nilauth, "wampcra", a.realm, a.authid, "-") THEN "yes" ELSE "no"
    [] a.method = "cryptosign" ->
         IF a.pk = "junk" \/ ~Approves(x, a.nilauth, "cryptosign", a.realm, a.authid, a.pk) THEN "no"
         ELSE IF g.k = "cs" /\ g.who = a.pk /\ mine /\ g.form = "std" THEN "yes"
         ELSE IF g.k = "cs" /\ g.who = a.pk /\ mine /\ g.form \in {"upper", "bare"} THEN "either" ELSE "no"
    [] OTHER -> "no"

\* the approval of WAMP-CRA and cryptosign may be that of the HELLO or a later one
Asked(s, a) == IF a.method = "ticket" THEN {Status(s, a.authid)} ELSE {a.was, Status(s, a.authid)}
Verifies(s, a, e) ==
  LET V == {VerifiesAs(x, a, e) : x \in Asked(s, a)} IN IF V = {"yes"} THEN "yes" ELSE IF V = {"no"} THEN "no" ELSE "either"

HJAuth(s, e) ==
  LET h == e.h
      a == s.a[h]
      o == e.out
      v == IF a.ph = "challenged" THEN Verifies(s, a, e) ELSE "no"
      tick == IF a.method = "ticket" THEN TicketOf(e.sig)
              ELSE IF a.method = "cryptosign" THEN a.pk ELSE "-"
      reqs == ReqsOk(e, a.method, a.realm, a.authid, tick)
  IN
  CASE o.k = "welcome" ->
         R(Set(s, h, [a EXCEPT !.ph = "over", !.det = o.det]),
           Ck(a.ph = "challenged", {"C20:WELCOME without a challenge outstanding", "C18:WELCOME without a challenge outstanding"})
           \cup Ck(a.ph # "challenged" \/ v # "no",
                   IF a.method = "ticket" THEN {"C18:welcomed with a wrong ticket"}
                   ELSE {"C18:welcomed with a wrong signature", "C19:answer to another challenge or by another key accepted"})
           \cup (IF a.ph = "challenged" /\ Knows(a.realm, a.authid) THEN WelcomeBad(Asked(s, a), a, e, a.method, a.realm, a.authid) ELSE {})
           \cup Ck(a.method # "ticket" \/ (o.reqs # <<>> /\ reqs), {"C18:authenticator not asked about this ticket"}) \cup FlagOk(e))
    [] o.k \in {"abort", "err"} ->
         R(IF a.ph # "over" THEN Refused(s, h, a, e) ELSE s,
           Ck(v # "yes" \/ a.erred, {"C21:right answer to the challenge refused", "C19:right answer to the challenge refused"})
           \cup Ck(a.ph # "challenged" \/ reqs, {"C18:authenticator asked about another request"}) \cup DetKept(a, e) \cup FlagOk(e))
    [] OTHER -> R(s, {"C20:AUTHENTICATE answered by another message"})

HJOther(s, e) ==
  LET a == s.a[e.h] IN
  R(IF a.ph # "over" THEN Refused(s, e.h, a, e) ELSE s,
    Ck(e.out.k \in {"abort", "err"}, {"C20:message that is not part of the handshake answered",
                                      "C18:message that is not part of the handshake answered"}) \cup DetKept(a, e) \cup FlagOk(e))

\* ---- client side ----------------------------------------------------------
\* out: k "hello" / "authenticate" / "joined" / "err"; det
SetJ(s, h, x) == [s EXCEPT !.j = Put(@, h, x)]

HJSendHello(s, e) ==
  LET j == s.j[e.h]
      o == e.out IN
  R(SetJ(s, e.h, [j EXCEPT !.ph = "hello"]),
    Ck(o.k = "hello" /\ o.realm = j.realm /\ o.authid = j.authid /\ o.offered = <<j.method>> /\ o.pkok /\ o.rolesok,
       {"C21:HELLO does not carry the client's identity"}) \cup Ck(o.det = NoDet, {"C20:session details without a WELCOME"}))

HJJoinerRecv(s, e) ==
  LET j == s.j[e.h]
      o == e.out
      waiting == j.ph \in {"hello", "auth"}
      kept == Ck(o.det = j.det, {"C20:session details without a WELCOME or lost"})
      erred == SetJ(s, e.h, [j EXCEPT !.erred = TRUE])
  IN
  CASE e.kind = "welcome" ->
         IF waiting THEN
           IF o.k = "joined"
           THEN R(SetJ(s, e.h, [j EXCEPT !.ph = "over", !.det = o.det]),
                  Ck(o.det.k = "some", {"C20:no session details after WELCOME"})
                  \cup Ck(o.det.k # "some" \/ e.form # "full" \/
                          o.det = [k |-> "some", realm |-> j.realm, authid |-> e.authid, authrole |-> e.authrole, method |-> e.method,
                                   sid |-> e.sid], {"C21:session details differ from the WELCOME"})
                  \cup Ck(e.form # "full" \/ o.rolesok, {"C21:router roles differ from the WELCOME"})
                  \cup Ck(o.recok, {"C21:session details do not record the serializer and the time"}))
           ELSE R(erred, Ck(o.k = "err", {"C20:WELCOME answered by another message"})
                         \cup Ck(j.erred \/ e.form # "full", {"C20:awaited WELCOME refused", "C21:awaited WELCOME refused"}) \cup kept)
         ELSE R(erred, Ck(o.k = "err", {"C20:WELCOME accepted that was not awaited"}) \cup kept)
    [] e.kind = "challenge" ->
         IF j.ph = "hello" THEN
           IF o.k = "authenticate"
           THEN R(SetJ(s, e.h, [j EXCEPT !.ph = "auth"]),
                  Ck(e.method # j.method \/ e.form # "ok" \/ o.sigok, {"C19:challenge not answered by the standard signature",
                                                                       "C21:challenge not answered by the standard signature"}) \cup kept)
           ELSE R(erred, Ck(o.k = "err", {"C20:CHALLENGE answered by another message"})
                         \cup Ck(j.erred \/ e.method # j.method \/ e.form # "ok" \/ j.method = "anonymous",
                                 {"C21:challenge not answered", "C20:awaited CHALLENGE refused"}) \cup kept)
         ELSE R(erred, Ck(o.k = "err", {"C20:CHALLENGE accepted that was not awaited"}) \cup kept)
    [] e.kind = "abort" ->
         R(SetJ(s, e.h, [j EXCEPT !.ph = "over", !.erred = TRUE, !.det = o.det]),
           Ck(o.k = "err", {"C20:ABORT not reported"})
           \cup Ck(o.det = j.det \/ (j.det # NoDet /\ o.det = NoDet), {"C20:session details without a WELCOME"}))
    [] OTHER -> R(erred, Ck(o.k = "err", {"C20:message that is not part of the handshake accepted"}) \cup kept)

\* ---- both library sides together, undisturbed -------------------------------
PairMatches(s, e) ==
  /\ e.method \in Range(e.enabled)
  /\ IF e.nilauth THEN e.method = "anonymous"
     ELSE /\ Knows(e.realm, e.authid) /\ Status(s, e.authid) # "revoked"
          /\ e.method \in {"ticket", "wampcra"} => Status(s, e.authid) # "rotated"
          /\ e.method = "wampcra" => e.authid # "plain"
          /\ e.method = "cryptosign" => e.authid # "junk"
          /\ e.method # "anonymous" => e.cred = e.authid

HJPair(s, e) ==
  LET o == e.out
      ans == Answer(Status(s, e.authid), e.nilauth, e.authid)
      fits(d) == d.k = "some" /\ d.realm = e.realm /\ d.authid = ans.id /\ d.authrole = ans.role /\ d.method = e.method
  IN
  R(s, IF PairMatches(s, e)
       THEN Ck(o.router.k = "some" /\ o.client.k = "some", {"C21:handshake with matching credentials does not complete"})
            \cup Ck((o.router.k = "some" /\ o.client.k = "some") => (o.router = o.client /\ fits(o.router) /\ o.rolesok),
                    {"C21:client and router disagree about the session"})
            \cup Ck(o.recok, {"C21:session details do not record the serializer and the time"})
       ELSE Ck(o.router.k = "none" /\ o.client.k = "none",
               {"C21:handshake completes although the credentials do not match",
                "C18:handshake completes although the credentials do not match"}))

\* ---- keys and challenges by themselves -----------------------------------------
\* a cryptosign client made of a private key (form) and perhaps a public key (pub)
KeyVerdict(form, pub) ==
  IF form \in {"short", "odd", "long", "nothex"} \/ pub = "wrong" THEN "no"
  ELSE IF form = "expanded" \/ pub \in {"upper", "kind"} THEN "either" ELSE "yes"

HJKey(s, e) ==
  LET o == e.out
      v == KeyVerdict(e.form, e.pub) IN
  R(s, Ck(o.k \in {"ok", "err"}, {"C21:client made although its key was refused"})
       \cup Ck(o.k # "ok" \/ v # "no", {"C21:key accepted that is not one or does not fit its public key"})
       \cup Ck(o.k = "ok" \/ v # "yes", {"C21:private key refused"})
       \cup (IF o.k = "ok" /\ v # "no"
             THEN Ck(o.sig, {"C19:challenge not answered by the standard signature", "C21:challenge not answered by the standard signature"})
                  \cup Ck(o.method = "cryptosign" /\ o.authid = "A" /\ (o.pub \/ e.pub \in {"upper", "kind"}),
                          {"C21:HELLO does not carry the client's identity"})
             ELSE {}))

\* a challenge or key given out by whichever process
HJIssued(s, e) ==
  LET o == e.out IN
  R([s EXCEPT !.seen = @ \cup {o.ch}],
    Ck(o.k = "ok" /\ o.ch # "", {"C19:no challenge generated"}) \cup Ck(o.ch \notin s.seen, {"C19:challenge used before or missing"}))

HJudge(s, e) ==
  IF HCrashed(e.out) THEN R(s, {"C23:handshake crashed", "C18:handshake crashed", "C20:handshake crashed", "C21:handshake crashed"})
  ELSE CASE e.op = "new" -> R([s EXCEPT !.a = Put(@, e.h, NewAcceptor(Range(e.enabled), e.nilauth))],
                              Ck(e.out.det = NoDet, {"C20:session details without a WELCOME"}))
         [] e.op = "hello" -> HJHello(s, e)
         [] e.op = "auth" -> HJAuth(s, e)
         [] e.op = "other" -> HJOther(s, e)
         [] e.op = "jnew" -> R([s EXCEPT !.j = Put(@, e.h, NewJoiner(e.realm, e.method, e.authid))],
                               Ck(e.out.det = NoDet, {"C20:session details without a WELCOME"})
                               \cup Ck(e.out.k = "ok", {"C21:private key refused"}))
         [] e.op = "jhello" -> HJSendHello(s, e)
         [] e.op = "jrecv" -> HJJoinerRecv(s, e)
         [] e.op = "pair" -> HJPair(s, e)
         [] e.op = "change" -> R([s EXCEPT !.now = Put(@, e.who, e.to)], {})
         [] e.op = "key" -> HJKey(s, e)
         [] e.op = "aged" -> R(s, Ck(e.out.ok, {"C21:session details do not record when the session was created"}))
         [] e.op = "issued" -> HJIssued(s, e)
         [] e.op = "many" -> R(s, Ck(e.out.dup = 0, {"C19:challenge used before or missing"}))
         [] OTHER -> R(s, Ck(e.out.k # "nil", {"C23:message neither answered nor refused"}))   \* "chaos": any message
=============================================================================
