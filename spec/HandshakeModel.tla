--------------------------- MODULE HandshakeModel ---------------------------
(* Acceptors and joiners as a transition system: an adversary starts them in *)
(* any configuration, sends any message in any order, and answers challenges *)
(* with any signature, also those of other handshakes.                       *)
EXTENDS Handshake, Json

CONSTANTS Hs,          \* acceptors
          Configs,     \* sets of enabled methods, each a sequence; <<"default">>: no authenticator
          Offers,      \* sequences of offered methods
          Realms, Ids, \* of HELLO
          Pks,         \* pubkey in authextra: an owner, or "missing", "int", "empty"
          Sigs,        \* signatures: records without ch
          Others,      \* other messages for acceptors
          Js, JCreds,  \* joiners; <<realm, method, authid>>
          JMsgs,       \* messages for joiners: records [kind, method, form]
          Pairs,       \* pair events
          Keys,        \* key events
          Changes,     \* of accounts: <<authid, status>>
          OpsOn, Depth, Sim, Emit

VARIABLES s, n, hist, mem, last, ghost
vars == <<s, n, hist, mem, last, ghost>>

Pick(S) == IF Sim THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S

Fresh == "c" \o ToString(Cardinality(s.seen) + 1)
Det(realm, id, role, m) == [k |-> "some", realm |-> realm, authid |-> id, authrole |-> role, method |-> m, sid |-> "1"]

\* everything a side might answer; the specification says which of it is right
Outs(e) ==
  CASE e.op \in {"hello", "auth"} ->
         LET realm == IF e.op = "hello" THEN e.realm ELSE s.a[e.h].realm
             authid == IF e.op = "hello" THEN e.authid ELSE s.a[e.h].authid
             nil == s.a[e.h].nilauth
             cred(m) == IF e.op = "hello" THEN (IF m = "cryptosign" THEN e.pk ELSE "-")
                        ELSE IF m = "ticket" THEN TicketOf(e.sig)
                        ELSE IF m = "cryptosign" THEN s.a[e.h].pk ELSE "-"
             req(m) == [method |-> m, realm |-> realm, authid |-> authid, cred |-> cred(m), extra |-> TRUE]
             known == nil \/ authid \in DOMAIN Accounts
             answers == IF known THEN {Answer(x, nil, authid) : x \in {Status(s, authid), IF e.op = "auth" THEN s.a[e.h].was ELSE Status(s, authid)}}
                        ELSE {[id |-> "?", role |-> "?"]}
             base(k, m, c, d, q, ans) == [k |-> k, realm |-> realm, authid |-> ans.id, authrole |-> ans.role, method |-> m, sid |-> "1",
                                     sidok |-> TRUE, rolesok |-> TRUE, recok |-> TRUE, ch |-> c, fresh |-> TRUE, formok |-> TRUE, det |-> d, flag |-> TRUE,
                                     reqs |-> q]
             ms == IF e.op = "hello" THEN Admissible(s.a[e.h].enabled, e.offered) ELSE {s.a[e.h].method}
             had == s.a[e.h].det
         IN UNION {{base("welcome", m, "-", Det(realm, ans.id, ans.role, m), IF nil THEN <<>> ELSE <<req(m)>>, ans),
                    base("challenge", m, IF m = "ticket" THEN "-" ELSE Fresh, had, IF nil \/ m = "ticket" THEN <<>> ELSE <<req(m)>>, ans),
                    base("abort", m, "-", had, IF nil THEN <<>> ELSE <<req(m)>>, ans)} : m \in ms, ans \in answers}
            \cup {base("abort", "-", "-", had, <<>>, ans) : ans \in answers} \cup {base("err", "-", "-", had, <<>>, ans) : ans \in answers}
    [] e.op = "other" -> {[k |-> "err", det |-> s.a[e.h].det, flag |-> TRUE]}
    [] e.op = "change" -> {[k |-> "ok"]}
    [] e.op \in {"new", "jnew"} -> {[k |-> "ok", det |-> NoDet]}
    [] e.op = "jhello" -> LET j == s.j[e.h] IN
         {[k |-> "hello", realm |-> j.realm, authid |-> j.authid, offered |-> <<j.method>>, pkok |-> TRUE, rolesok |-> TRUE, det |-> NoDet]}
    [] e.op = "jrecv" -> LET j == s.j[e.h] IN
         {[k |-> "err", det |-> j.det, rolesok |-> TRUE, sigok |-> TRUE, recok |-> TRUE], [k |-> "authenticate", det |-> j.det, rolesok |-> TRUE, sigok |-> TRUE, recok |-> TRUE],
          [k |-> "joined", det |-> Det(j.realm, e.authid, e.authrole, e.method), rolesok |-> TRUE, sigok |-> TRUE, recok |-> TRUE]}
    [] e.op = "pair" -> LET ans == IF Knows(e.realm, e.authid) \/ e.nilauth THEN Answer(Status(s, e.authid), e.nilauth, e.authid) ELSE [id |-> "?", role |-> "?"]
                            d == Det(e.realm, ans.id, ans.role, e.method) IN
         {[k |-> "ok", router |-> d, client |-> d, rolesok |-> TRUE, recok |-> TRUE], [k |-> "ok", router |-> NoDet, client |-> NoDet, rolesok |-> FALSE, recok |-> TRUE]}
    [] e.op = "key" -> {[k |-> k, pub |-> TRUE, sig |-> TRUE, method |-> "cryptosign", authid |-> "A"] : k \in {"ok", "err"}}

Good(e) == {o \in Outs(e) : HJudge(s, e @@ [out |-> o]).bad = {}}

\* ghost: what was said in each handshake, for stating the properties anew
GNew == [hellos |-> 0, welcomes |-> 0, aborted |-> FALSE, late |-> FALSE]
GStep(g, e, o) ==
  IF e.op = "new" THEN Put(g, e.h, GNew)
  ELSE IF e.op \notin {"hello", "auth", "other"} THEN g
  ELSE Put(g, e.h, [g[e.h] EXCEPT !.welcomes = @ + (IF o.k = "welcome" THEN 1 ELSE 0),
                                  !.aborted = @ \/ o.k = "abort",
                                  !.late = @ \/ (o.k \in {"welcome", "challenge"} /\ (g[e.h].aborted \/ g[e.h].welcomes > 0)),
                                  !.hellos = @ + (IF e.op = "hello" /\ o.k \in {"challenge", "welcome"} THEN 1 ELSE 0)])

Facts(e, o) == {<<e.op, o.k, IF e.op \in {"hello", "auth", "other"} THEN s.a[e.h].ph ELSE IF e.op = "jrecv" THEN s.j[e.h].ph ELSE "-">>}
               \cup (IF e.op = "auth" THEN {<<e.sig.k, e.sig.who, e.sig.par, e.sig.ch, e.sig.form, s.a[e.h].method, s.a[e.h].authid, s.a[e.h].ph, s.a[e.h].was, Status(s, s.a[e.h].authid)>>} ELSE {})
               \cup (IF e.op = "pair" THEN {<<e.enabled, e.method, e.realm, e.authid, e.cred>>} ELSE {})
               \cup (IF e.op = "key" THEN {<<e.form, e.pub>>} ELSE {})
               \cup (IF e.op = "jrecv" THEN {<<e.kind, e.method, e.form>>} ELSE {})

Do(e) ==
  /\ n < Depth
  /\ \E o \in Pick(Good(e)) :
       /\ s' = HJudge(s, e @@ [out |-> o]).st
       /\ n' = n + 1
       /\ hist' = Append(hist, e)
       /\ mem' = IF Sim THEN {} ELSE Facts(e, o)
       /\ last' = [e |-> e, o |-> o, ph |-> IF e.op \in {"hello", "auth", "other"} THEN s.a[e.h] ELSE [ph |-> "-"],
                   now |-> IF e.op = "hello" THEN {Status(s, e.authid)} ELSE IF e.op = "auth" THEN {Status(s, s.a[e.h].authid)}
                           ELSE IF e.op = "pair" THEN {PairMatches(s, e)} ELSE {},
                   jph |-> IF e.op = "jrecv" THEN s.j[e.h].ph ELSE "-"]
       /\ ghost' = GStep(ghost, e, o)

Started == DOMAIN s.a
New == Hs \ Started # {} /\ \E h \in {CHOOSE x \in Hs \ Started : TRUE}, c \in Pick(Configs) :
         /\ Do([op |-> "new", h |-> h, enabled |-> IF c = <<"default">> THEN <<"anonymous">> ELSE c, nilauth |-> c = <<"default">>])
Hello == \E h \in Pick(Started), r \in Pick(Realms), i \in Pick(Ids), of \in Pick(Offers), pk \in Pick(Pks) :
           /\ "hello" \in OpsOn
           /\ ("cryptosign" \notin SeqSet(of) => pk = CHOOSE x \in Pks : TRUE)
           /\ Do([op |-> "hello", h |-> h, realm |-> r, authid |-> i, offered |-> of, pk |-> pk])
\* the adversary waits for a challenge before answering, most of the time
Auth == \E h \in Pick(Started), g \in Pick(Sigs), c \in Pick(Started \cup {"forged"}) :
          /\ "auth" \in OpsOn
          /\ g.k = "ticket" => c = "forged"
          /\ LET chs == IF c \in Started /\ s.a[c].ch # "-" THEN s.a[c].ch ELSE "x" IN
             Do([op |-> "auth", h |-> h, sig |-> g @@ [ch |-> c, chs |-> chs]])
Other == (~Sim \/ RandomElement(1..4) = 1) /\ \E h \in Pick(Started), k \in Pick(Others) : "other" \in OpsOn /\ Do([op |-> "other", h |-> h, kind |-> k])
JNew == \E h \in Pick(Js \ DOMAIN s.j), c \in Pick(JCreds) :
          Do([op |-> "jnew", h |-> h, realm |-> c[1], method |-> c[2], authid |-> c[3]])
JHello == \E h \in Pick(DOMAIN s.j) : s.j[h].ph = "new" /\ Do([op |-> "jhello", h |-> h])
JRecv == \E h \in Pick(DOMAIN s.j), m \in Pick(JMsgs) :
           Do([op |-> "jrecv", h |-> h, kind |-> m.kind, method |-> m.method, form |-> m.form, authid |-> "B", authrole |-> "admin",
               sid |-> "1"])
\* Simulation: steps that let a handshake get far
Further == Sim /\ \E h \in Pick(Started) :
  LET a == s.a[h]
      kind == [ticket |-> "ticket", wampcra |-> "cra", cryptosign |-> "cs"] IN
  /\ a.ph = "challenged"
  /\ \E rot \in Pick(IF a.was = "rotated" \/ Status(s, a.authid) = "rotated" THEN BOOLEAN ELSE {FALSE}) :
     Do([op |-> "auth", h |-> h, sig |-> [k |-> kind[a.method], who |-> IF a.method = "cryptosign" THEN a.pk ELSE a.authid,
                                          par |-> IF a.method = "wampcra" THEN (IF rot THEN "rot" ELSE "own") ELSE "-",
                                          form |-> IF rot /\ a.method = "ticket" THEN "rot" ELSE "std", ch |-> h, chs |-> a.ch]])
\* Simulation: a proper HELLO, and the answer of one handshake given to another of the same user
Greet == Sim /\ \E h \in Pick({x \in Started : s.a[x].ph = "none"}), r \in Pick(Realms), i \in Pick(Ids \cap Pks), of \in Pick(Offers) :
           /\ OpsOn \cap {"hello", "again"} # {}
           /\ Do([op |-> "hello", h |-> h, realm |-> r, authid |-> i, offered |-> of, pk |-> i])
Cross == Sim /\ \E h \in Pick({x \in Started : s.a[x].ph = "challenged" /\ s.a[x].method # "ticket"}) :
  LET a == s.a[h] IN
  \E g \in Pick({x \in Started \ {h} : s.a[x].ch # "-" /\ s.a[x].method = a.method /\ s.a[x].authid = a.authid}) :
    /\ "auth" \in OpsOn
    /\ Do([op |-> "auth", h |-> h, sig |-> [k |-> IF a.method = "wampcra" THEN "cra" ELSE "cs", who |-> IF a.method = "cryptosign" THEN a.pk ELSE a.authid,
                                           par |-> IF a.method = "wampcra" THEN "own" ELSE "-", form |-> "std", ch |-> g, chs |-> s.a[g].ch]])
\* what was approved once is asked for again: elsewhere, or after the account has changed
Change == \E c \in Pick(Changes) : n < Depth /\ Status(s, c[1]) # c[2] /\ Do([op |-> "change", who |-> c[1], to |-> c[2]])
Again == "again" \in OpsOn /\ \E h \in Pick({x \in Started : s.a[x].ph = "none"}), g \in Pick({x \in Started : s.a[x].det # NoDet}), r \in Pick(Realms) :
           LET a == s.a[g] IN
           Do([op |-> "hello", h |-> h, realm |-> r, authid |-> a.authid, offered |-> <<a.method>>,
               pk |-> IF a.method = "cryptosign" THEN a.pk ELSE CHOOSE x \in Pks : TRUE])
Pair == n < Depth /\ (~Sim \/ RandomElement(1..8) = 1) /\ \E e \in Pick(Pairs) : "pair" \in OpsOn /\ Do(e)
Key == n < Depth /\ \E e \in Pick(Keys) : Do(e)

Init == s = HInit /\ n = 0 /\ hist = <<>> /\ mem = {} /\ ghost = NoFun
        /\ last = [e |-> [op |-> "init"], o |-> [k |-> "ok"], ph |-> [ph |-> "-"], now |-> {}, jph |-> "-"]
Next == New \/ Hello \/ Greet \/ Cross \/ Auth \/ Other \/ JNew \/ JHello \/ JRecv \/ Further \/ Change \/ Again \/ Pair \/ Key
Spec == Init /\ [][Next]_vars

Print1 == PrintT("SCN " \o ToJson([h |-> hist', f |-> {ToString(x) : x \in mem'}]))
EmitHist ==
  CASE Emit = "all" -> Print1
    [] Emit = "end" /\ n' = Depth -> Print1
    [] OTHER -> TRUE
View == <<s, mem>>

-----------------------------------------------------------------------------
e0 == last.e
o0 == last.o
a0 == last.ph
\* C18: behind every WELCOME stand an enabled and offered method, an account of the realm, and its own credential.
C18_Welcome ==
  o0.k = "welcome" =>
    LET m == o0.method IN
    /\ m \in a0.enabled
    /\ \/ a0.nilauth
       \/ /\ o0.realm \in Accounts[IF e0.op = "hello" THEN e0.authid ELSE a0.authid].realms
          /\ e0.op = "hello" => m = "anonymous" /\ (e0.offered = <<>> \/ m \in Range(e0.offered))
          /\ e0.op = "auth" => e0.sig.who = a0.authid
          /\ "revoked" \in last.now => e0.op = "auth" /\ m # "ticket" /\ a0.was # "revoked"
\* C19: it answers the challenge of this very handshake, and no two handshakes have the same.
C19_Bound ==
  /\ o0.k = "welcome" /\ e0.op = "auth" /\ a0.method # "ticket" => e0.sig.chs = a0.ch /\ e0.sig.ch = e0.h
  /\ \A g, h \in DOMAIN s.a : g # h /\ s.a[g].ch # "-" => s.a[g].ch # s.a[h].ch
\* C20: at most one HELLO taken up, nothing after WELCOME or ABORT, details exactly after a WELCOME.
C20_Once ==
  /\ \A h \in DOMAIN ghost : ghost[h].hellos <= 1 /\ ~ghost[h].late /\ (s.a[h].det # NoDet) = (ghost[h].welcomes = 1)
  /\ o0.k = "joined" => last.jph \in {"hello", "auth"}
  /\ o0.k = "authenticate" => last.jph = "hello"
C21_Agree ==
  /\ e0.op = "key" => (o0.k = "ok" => e0.form \in {"std", "upper", "expanded"} /\ e0.pub # "wrong")
  /\ e0.op = "pair" => (o0.router = o0.client /\ (o0.router # NoDet) = (TRUE \in last.now))
=============================================================================
