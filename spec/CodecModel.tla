----------------------------- MODULE CodecModel ------------------------------
(* Enumerates abstract messages, lists and payloads. Each is checked against *)
(* Codec.tla (encoding and decoding are inverse; every list gets a verdict)  *)
(* and printed as a case for the harness.                                    *)
EXTENDS Codec, Json

CONSTANTS What,    \* "trip", "decode", "payload"
          Devs     \* positions of a list that may hold a wrong kind

VARIABLES x, n
vars == <<x, n>>

Kinds == {"int", "num", "str", "bin", "list", "map", "bool", "nil"}
Names == {g.name : g \in Grammar}
Unknown == {"7", "9", "15", "31", "37", "47", "51", "63", "71", "255", "256", "304"}  \* 48 + 256 among them
Presence == {"none", "empty", "some"}

Trip == {[op |-> "trip", name |-> m, args |-> a, kwargs |-> k, ids |-> c, maps |-> d, strs |-> s] :
           m \in Names, a \in Presence, k \in Presence, c \in {"small", "edge", "any"}, d \in Presence, s \in {"plain", "odd"}}
Trips == {t \in Trip : ByName[t.name].pay \/ (t.args = "none" /\ t.kwargs = "none")}

RightKind(g, p) == IF Wants(g, p) = "id" THEN "int" ELSE Wants(g, p)
Base(g, len) == [p \in 1..(len - 1) |-> IF p + 1 <= MaxLen(g) THEN RightKind(g, p + 1) ELSE "map"]
Patch(b, ps, f) == [p \in DOMAIN b |-> IF p \in ps THEN f[p] ELSE b[p]]
ListsOf(g) ==
  UNION {LET b == Base(g, len) IN
         UNION {{[op |-> "decode", code |-> g.code, ck |-> "int", kinds |-> Patch(b, ps, f)] : f \in [ps -> Kinds]} :
                ps \in {q \in SUBSET (1..(len - 1)) : Cardinality(q) <= Devs}} : len \in 1..(MaxLen(g) + 2)}
Lists == UNION {ListsOf(g) : g \in Grammar}
  \cup {[op |-> "decode", code |-> c, ck |-> "int", kinds |-> Base(g, MinLen(g))] : c \in Unknown, g \in Grammar}
  \cup {[op |-> "decode", code |-> g.code, ck |-> k, kinds |-> Base(g, MinLen(g))] : k \in Kinds \ {"int"}, g \in Grammar}
  \cup {[op |-> "decode", code |-> "-", ck |-> "none", kinds |-> <<>>]}

PaySers == {"0", "1", "2", "3", "4", "16", "255", "257", "18446744073709551615"}
PayArgsKinds == {"none", "empty", "bin", "emptybin", "nilbin", "str", "int", "two", "twobin", "nested", "many", "big"}
PayKinds == {"list", "map", "nil", "int", "str", "bin"}
Seqs(ks, m) == UNION {[1..k -> ks] : k \in 0..m}
Payloads ==
  {[op |-> "penc", ser |-> s, args |-> a, kwargs |-> k] : s \in PaySers, a \in PayArgsKinds, k \in Presence}
  \cup {[op |-> "cenc", args |-> a, kwargs |-> k] : a \in PayArgsKinds, k \in Presence}
  \cup {[op |-> o, ser |-> s, top |-> "list", kinds |-> q] : o \in {"pdec"}, s \in PaySers, q \in Seqs(PayKinds, 3)}
  \cup {[op |-> "cdec", ser |-> "3", top |-> "list", kinds |-> q] : q \in Seqs(PayKinds, 3)}
  \cup {[op |-> o, ser |-> s, top |-> t, kinds |-> <<>>] : o \in {"pdec", "cdec"}, s \in PaySers,
          t \in {"map", "nil", "int", "str", "bool", "none", "junk", "cut", "more"}}

Shapes == CASE What = "trip" -> Trips [] What = "decode" -> Lists [] OTHER -> Payloads

Init == x \in Shapes /\ n = 0
Next == n = 0 /\ n' = 1 /\ x' = x
Spec == Init /\ [][Next]_vars
EmitHist == PrintT("SCN " \o ToJson(<<x>>))
View == <<x, n>>

\* abstract values: the text says where they came from
Val(f) == "<" \o f \o ">"
FieldVals(t) ==
  LET g == ByName[t.name]
      fs == {g.fields[p][1] : p \in 1..Len(g.fields)} \ {"hello"}
      base == [f \in fs |-> Val(f)]
      pay == [args |-> IF t.args = "some" THEN "<args>" ELSE NoArgs, kwargs |-> IF t.kwargs = "some" THEN "<kwargs>" ELSE NoKw]
      hello == [authid |-> "<authid>", authmethods |-> "<authmethods>", authextra |-> "<authextra>", roles |-> "<roles>"]
  IN IF t.name = "HELLO" THEN base @@ hello ELSE IF g.pay THEN base @@ pay ELSE base
C22_Inverse ==
  x.op = "trip" =>
    LET f == FieldVals(x)
        l == ListOf(x.name, f, x.args # "none", x.kwargs # "none")
    IN /\ Verdict(l) = "yes"
       /\ FieldsOf(l) = f
       /\ Len(l) >= MinLen(ByName[x.name]) /\ Len(l) <= MaxLen(ByName[x.name])
\* an item of a wrong kind, or too few or too many items: refused, and nothing else is
Item(k, p) == IF k = "map" THEN [k |-> k, v |-> "x", sub |-> <<>>] ELSE [k |-> k, v |-> "x"]
ItemsOf(t) == <<[k |-> t.ck, v |-> t.code]>> \o [p \in 1..Len(t.kinds) |-> Item(t.kinds[p], p)]
C23_Verdict ==
  x.op = "decode" /\ x.ck = "int" =>
    LET v == Verdict(ItemsOf(x)) IN
    /\ v \in {"yes", "no", "open"}
    /\ x.code \in Unknown => v = "no"
    /\ x.code \in Codes =>
         LET g == ByCode[x.code] IN
         /\ v = "yes" <=> (Len(x.kinds) + 1 \in MinLen(g)..MaxLen(g) /\ \A p \in 1..Len(x.kinds) : x.kinds[p] = RightKind(g, p + 1))
         /\ v = "open" => \E p \in 1..Len(x.kinds) : x.kinds[p] = "num" /\ RightKind(g, p + 1) = "int"
C24_Verdict ==
  x.op \in {"pdec", "cdec"} /\ x.top = "list" =>
    LET q == [p \in 1..Len(x.kinds) |-> Item(x.kinds[p], p)] IN
    /\ PayVerdict(q) \in {"ok", "err", "open"} /\ PairVerdict(q) \in {"ok", "err", "open"}
    /\ Len(q) > 2 => PayVerdict(q) = "err" /\ PairVerdict(q) = "err"
    /\ x.kinds \in {<<>>, <<"list">>, <<"list", "map">>} <=> PayVerdict(q) = "ok"
    /\ x.kinds = <<"list", "map">> <=> PairVerdict(q) = "ok"
\* codes and names are one to one, and no message is a prefix variant of another type
C23_Grammar == Cardinality(Codes) = Cardinality(Grammar) /\ Cardinality(Names) = Cardinality(Grammar)
=============================================================================
