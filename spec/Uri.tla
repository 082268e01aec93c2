-------------------------------- MODULE Uri --------------------------------
(* URIs, the three match policies and specificity, and small helpers used    *)
(* by all specifications. URIs are TLC strings; Len, SubSeq work on them.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}

\* Labels of a conjunct of a property: empty when it holds.
Ck(cond, labels) == IF cond THEN {} ELSE labels
R(st, bad) == [st |-> st, bad |-> bad]

First(s) == SubSeq(s, 1, 1)
Rest(s)  == SubSeq(s, 2, Len(s))

IsPrefixOf(p, u) == Len(p) <= Len(u) /\ SubSeq(u, 1, Len(p)) = p

\* Wildcard patterns: '*' stands for any text that has no '/', '?' for one character other than '/'.
RECURSIVE Glob(_, _)
Glob(p, u) ==
  IF p = "" THEN u = ""
  ELSE IF First(p) = "*"
       THEN \/ Glob(Rest(p), u)
            \/ u # "" /\ First(u) # "/" /\ Glob(p, Rest(u))
       ELSE IF First(p) = "?" THEN u # "" /\ First(u) # "/" /\ Glob(Rest(p), Rest(u))
       ELSE u # "" /\ First(p) = First(u) /\ Glob(Rest(p), Rest(u))

Matches(match, pat, u) ==
  CASE match = "prefix"   -> IsPrefixOf(pat, u)
    [] match = "wildcard" -> Glob(pat, u)
    [] OTHER              -> pat = u

\* The entries (records with fields uri and match) that u is routed to:
\* exact wins over prefix, the longest prefix over shorter ones, and any
\* prefix over wildcards; all matching wildcards are equally good.
Best(E(_), ids, u) ==
  LET hit(m) == {i \in ids : E(i).match = m /\ Matches(m, E(i).uri, u)}
      pre    == hit("prefix")
  IN IF hit("exact") # {} THEN hit("exact")
     ELSE IF pre # {}
          THEN {i \in pre : \A j \in pre : Len(E(j).uri) <= Len(E(i).uri)}
          ELSE hit("wildcard")

\* The match policy a request asks for: anything unknown means exact.
NormMatch(m) == IF m \in {"prefix", "wildcard"} THEN m ELSE "exact"

IndexOf(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
InSeq(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Without(seq, x) == SelectSeq(seq, LAMBDA y : y # x)
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqOf(S \ {x})
SeqSet(seq) == {seq[i] : i \in 1..Len(seq)}
=============================================================================
