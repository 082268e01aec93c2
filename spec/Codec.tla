-------------------------------- MODULE Codec --------------------------------
(* The grammar of WAMP messages on the wire, and the payload codecs.         *)
(* A value is a record [k |-> kind, v |-> text]: two values are the same     *)
(* exactly when their texts are. Kinds: "int" (an integer in 1..2^53),       *)
(* "num" (any other number), "str", "bin", "list", "map", "bool", "nil",     *)
(* "other".                                                                  *)
EXTENDS Uri

Absent == "absent"
NoArgs == "[]"
NoKw == "{}"

\* name, type code, fields by position after the code; the last two of a
\* message with payload are optional
G(name, code, fields, pay) == [name |-> name, code |-> code, fields |-> fields, pay |-> pay]
I(f) == <<f, "id">>
S(f) == <<f, "str">>
M(f) == <<f, "map">>
Grammar == {
  G("HELLO", "1", <<S("realm"), M("hello")>>, FALSE),
  G("WELCOME", "2", <<I("session"), M("details")>>, FALSE),
  G("ABORT", "3", <<M("details"), S("reason")>>, TRUE),
  G("CHALLENGE", "4", <<S("authmethod"), M("extra")>>, FALSE),
  G("AUTHENTICATE", "5", <<S("signature"), M("extra")>>, FALSE),
  G("GOODBYE", "6", <<M("details"), S("reason")>>, FALSE),
  G("ERROR", "8", <<I("rtype"), I("request"), M("details"), S("uri")>>, TRUE),
  G("PUBLISH", "16", <<I("request"), M("options"), S("uri")>>, TRUE),
  G("PUBLISHED", "17", <<I("request"), I("publication")>>, FALSE),
  G("SUBSCRIBE", "32", <<I("request"), M("options"), S("uri")>>, FALSE),
  G("SUBSCRIBED", "33", <<I("request"), I("subscription")>>, FALSE),
  G("UNSUBSCRIBE", "34", <<I("request"), I("subscription")>>, FALSE),
  G("UNSUBSCRIBED", "35", <<I("request")>>, FALSE),
  G("EVENT", "36", <<I("subscription"), I("publication"), M("details")>>, TRUE),
  G("CALL", "48", <<I("request"), M("options"), S("uri")>>, TRUE),
  G("CANCEL", "49", <<I("request"), M("options")>>, FALSE),
  G("RESULT", "50", <<I("request"), M("details")>>, TRUE),
  G("REGISTER", "64", <<I("request"), M("options"), S("uri")>>, FALSE),
  G("REGISTERED", "65", <<I("request"), I("registration")>>, FALSE),
  G("UNREGISTER", "66", <<I("request"), I("registration")>>, FALSE),
  G("UNREGISTERED", "67", <<I("request")>>, FALSE),
  G("INVOCATION", "68", <<I("request"), I("registration"), M("details")>>, TRUE),
  G("INTERRUPT", "69", <<I("request"), M("options")>>, FALSE),
  G("YIELD", "70", <<I("request"), M("options")>>, TRUE)}
Codes == {g.code : g \in Grammar}
ByCode == [c \in Codes |-> CHOOSE g \in Grammar : g.code = c]
ByName == [n \in {g.name : g \in Grammar} |-> CHOOSE g \in Grammar : g.name = n]

MinLen(g) == 1 + Len(g.fields)
MaxLen(g) == MinLen(g) + (IF g.pay THEN 2 ELSE 0)
\* what belongs at position p (1 is the type code)
Wants(g, p) == IF p - 1 <= Len(g.fields) THEN g.fields[p - 1][2] ELSE IF p = MinLen(g) + 1 THEN "list" ELSE "map"

\* "yes": must be taken, "no": must be refused, "open": either
Fits(want, item) ==
  CASE want = "id" -> IF item.k = "int" THEN "yes" ELSE IF item.k = "num" THEN "open" ELSE "no"
    [] OTHER -> IF item.k = want THEN "yes" ELSE "no"
All(S0) == IF "no" \in S0 THEN "no" ELSE IF "open" \in S0 THEN "open" ELSE "yes"

\* HELLO details: entries of another kind than documented may be refused or ignored
HelloOk(d) ==
  /\ ("authid" \in DOMAIN d => d.authid.k = "str")
  /\ ("authextra" \in DOMAIN d => d.authextra.k = "map")
  /\ ("roles" \in DOMAIN d => d.roles.k = "map")
  /\ ("authmethods" \in DOMAIN d => d.authmethods.k = "list" /\ d.authmethods.strs)

\* is this list a message?
Verdict(items) ==
  IF Len(items) = 0 THEN "no"
  ELSE IF items[1].k = "num" THEN "open"
  ELSE IF items[1].k # "int" \/ items[1].v \notin Codes THEN "no"
  ELSE LET g == ByCode[items[1].v] IN
       IF Len(items) < MinLen(g) \/ Len(items) > MaxLen(g) THEN "no"
       ELSE LET a == All({Fits(Wants(g, p), items[p]) : p \in 2..Len(items)}) IN
            IF a = "yes" /\ g.name = "HELLO" /\ ~HelloOk(items[3].sub) THEN "open" ELSE a

\* the fields of the message that the list is
Sub(d, f, kind, none) == IF f \in DOMAIN d /\ d[f].k = kind THEN d[f].v ELSE none
HelloFields(d) == [authid |-> Sub(d, "authid", "str", "\"\""), authmethods |-> Sub(d, "authmethods", "list", NoArgs),
                   authextra |-> Sub(d, "authextra", "map", NoKw), roles |-> Sub(d, "roles", "map", NoKw)]
FieldsOf(items) ==
  LET g == ByCode[items[1].v]
      plain == [f \in {g.fields[p][1] : p \in 1..Len(g.fields)} |->
                  LET p == CHOOSE q \in 1..Len(g.fields) : g.fields[q][1] = f IN items[p + 1].v]
      pay == IF ~g.pay THEN <<>>
             ELSE [args |-> IF Len(items) > MinLen(g) THEN items[MinLen(g) + 1].v ELSE NoArgs,
                   kwargs |-> IF Len(items) > MinLen(g) + 1 THEN items[MinLen(g) + 2].v ELSE NoKw]
  IN IF g.name = "HELLO" THEN [realm |-> plain.realm] @@ HelloFields(items[3].sub)
     ELSE IF g.pay THEN plain @@ pay ELSE plain

\* fields whose item the grammar leaves open need not be rendered in one way
OpenFields(items) ==
  LET g == ByCode[items[1].v] IN {g.fields[p][1] : p \in {q \in 1..Len(g.fields) : items[q + 1].k = "num"}}

\* the list that a message is: args are needed where kwargs are present
ListOf(name, f, hasArgs, hasKw) ==
  LET g == ByName[name]
      kind == [id |-> "int", str |-> "str", map |-> "map"]
      head == <<[k |-> "int", v |-> g.code]>> \o
              [p \in 1..Len(g.fields) |-> IF g.fields[p][2] = "map" /\ g.fields[p][1] = "hello"
                 THEN [k |-> "map", v |-> "-", sub |-> [authid |-> [k |-> "str", v |-> f.authid],
                         authmethods |-> [k |-> "list", v |-> f.authmethods, strs |-> TRUE],
                         authextra |-> [k |-> "map", v |-> f.authextra], roles |-> [k |-> "map", v |-> f.roles]]]
                 ELSE [k |-> kind[g.fields[p][2]], v |-> f[g.fields[p][1]]]]
  IN head \o (IF g.pay /\ (hasArgs \/ hasKw) THEN <<[k |-> "list", v |-> f.args]>> ELSE <<>>)
          \o (IF g.pay /\ hasKw THEN <<[k |-> "map", v |-> f.kwargs]>> ELSE <<>>)

Same(want, got) == DOMAIN want \subseteq DOMAIN got /\ \A f \in DOMAIN want : want[f] = got[f]

(* ------------------------------------------------------------- judgement *)
CCrashed(o) == o.k \in {"panic", "hang"}
Crash(o, x) == IF CCrashed(o) THEN {x} ELSE {}

Ser == {"1", "2", "3"}    \* JSON, MessagePack, CBOR

\* what decoding a payload list gives: "ok" with args and kwargs, "err", or "open"
PayVerdict(items) ==
  CASE Len(items) = 0 -> "ok"
    [] Len(items) > 2 -> "err"
    [] items[1].k = "nil" \/ (Len(items) = 2 /\ items[2].k = "nil" /\ items[1].k = "list") -> "open"
    [] items[1].k # "list" -> "err"
    [] Len(items) = 2 /\ items[2].k # "map" -> "err"
    [] OTHER -> "ok"
PayArgs(items) == IF Len(items) > 0 THEN items[1].v ELSE NoArgs
PayKw(items) == IF Len(items) > 1 THEN items[2].v ELSE NoKw
\* the pair form: exactly two items, each of its kind or nil
PairVerdict(items) ==
  IF Len(items) # 2 THEN "err"
  ELSE IF items[1].k \notin {"list", "nil"} \/ items[2].k \notin {"map", "nil"} THEN "err"
  ELSE IF items[1].k = "nil" \/ items[2].k = "nil" THEN "open" ELSE "ok"

CJudge(s, e) ==
  LET o == e.out IN
  CASE e.op = "decode" ->
         LET v == Verdict(e.items) IN
         R(s, IF CCrashed(o) THEN {"C23:deserializer panics"}
              ELSE IF o.k = "err" THEN Ck(v # "yes", {"C23:well-formed message refused"})
              ELSE Ck(v # "no", {"C23:malformed message accepted"})
                   \cup (IF v = "no" \/ e.items[1].k # "int" THEN {}
                         ELSE Ck(o.name = ByCode[e.items[1].v].name, {"C23:message of another type"})
                              \cup (IF o.name # ByCode[e.items[1].v].name THEN {}
                                    ELSE LET w == FieldsOf(e.items) IN
                                         Ck(Same([f \in DOMAIN w \ OpenFields(e.items) |-> w[f]], o.f),
                                            {"C23:fields are not the items"}))))
    [] e.op = "garbage" -> \* bytes that are no list at all
         R(s, IF CCrashed(o) THEN {"C23:deserializer panics"} ELSE Ck(o.k = "err", {"C23:undecodable bytes accepted"}))
    [] e.op = "feed" -> R(s, Crash(o, "C23:bytes crash a joiner, acceptor or session"))
    [] e.op = "trip" ->    \* encoded and decoded, once or more
         R(s, IF CCrashed(o) THEN {"C22:encoding or decoding a message panics", "C23:deserializer panics"}
              ELSE IF o.k = "err" THEN {"C22:message does not survive the wire"}
              ELSE Ck(o.name = e.name, {"C22:message changes type on the wire"})
                   \cup Ck(o.name # e.name \/ Same(e.f, o.f), {"C22:message changes on the wire"})
                   \cup Ck(Same(e.f, o.sent), {"C22:sending a message changes the sender's copy"}))
    [] e.op = "penc" ->
         R(s, IF CCrashed(o) THEN {"C24:payload codec panics"}
              ELSE IF e.ser \in Ser
              THEN IF o.k = "err" THEN {"C24:payload does not survive its codec"}
                   ELSE Ck(o.args = e.args /\ o.kwargs = e.kwargs, {"C24:payload changes in its codec"})
                        \cup Ck(o.sent = <<e.args, e.kwargs>>, {"C24:encoding changes the sender's payload"})
              ELSE IF e.ser = "0"
              THEN IF e.nargs = 0 /\ e.nkw = 0
                   THEN Ck(o.k = "ok" /\ o.args = NoArgs /\ o.kwargs = NoKw, {"C24:empty raw payload"})
                   ELSE IF e.nargs = 1 /\ e.nkw = 0 /\ e.arg0 = "bin"
                   THEN Ck(o.k = "ok" /\ (o.args = e.args \/ (e.empty0 /\ o.args = NoArgs)) /\ o.kwargs = NoKw,
                           {"C24:byte string changes in the raw codec"})
                   ELSE Ck(o.k = "err", {"C24:payload that does not fit the raw codec accepted"})
              ELSE Ck(o.k = "err", {"C24:unknown serializer id accepted"}))
    [] e.op = "pdec" ->
         R(s, IF CCrashed(o) THEN {"C24:payload codec panics"}
              ELSE IF e.ser = "0" THEN Ck(o.k = "ok" /\ (o.args = e.raw \/ (e.size = 0 /\ o.args = NoArgs)) /\ o.kwargs = NoKw,
                                          {"C24:byte string changes in the raw codec"})
              ELSE IF e.ser \notin Ser THEN Ck(o.k = "err", {"C24:unknown serializer id accepted"})
              ELSE IF e.size = 0 THEN Ck(o.k = "ok" /\ o.args = NoArgs /\ o.kwargs = NoKw, {"C24:empty payload"})
              ELSE IF ~e.list THEN Ck(o.k = "err", {"C24:undecodable payload accepted"})
              ELSE LET v == PayVerdict(e.items) IN
                   CASE v = "ok" -> Ck(o.k = "ok" /\ o.args = PayArgs(e.items) /\ o.kwargs = PayKw(e.items),
                                       {"C24:payload is not decoded to its items"})
                     [] v = "err" -> Ck(o.k = "err", {"C24:wrongly shaped payload accepted"})
                     [] OTHER -> {})
    [] e.op = "cenc" ->
         R(s, IF CCrashed(o) THEN {"C24:payload codec panics"}
              ELSE Ck(o.k = "ok" /\ o.args = e.args /\ o.kwargs = e.kwargs, {"C24:CBOR pair changes in its codec"})
                   \cup Ck(o.k # "ok" \/ o.sent = <<e.args, e.kwargs>>, {"C24:encoding changes the sender's payload"}))
    [] e.op = "cdec" ->
         R(s, IF CCrashed(o) THEN {"C24:payload codec panics"}
              ELSE IF ~e.list THEN Ck(o.k = "err", {"C24:undecodable payload accepted"})
              ELSE LET v == PairVerdict(e.items) IN
                   CASE v = "ok" -> Ck(o.k = "ok" /\ o.args = e.items[1].v /\ o.kwargs = e.items[2].v,
                                       {"C24:payload is not decoded to its items"})
                     [] v = "err" -> Ck(o.k = "err", {"C24:wrongly shaped payload accepted"})
                     [] OTHER -> {})
    [] OTHER -> R(s, {})
=============================================================================
