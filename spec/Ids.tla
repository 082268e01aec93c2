--------------------------------- MODULE Ids ---------------------------------
(* Identifiers. A value is <<hi, lo>> with value hi * 2^27 + lo, because     *)
(* TLC's integers are too small for 2^53.                                    *)
EXTENDS Uri

Base == 134217728              \* 2^27
MaxId == <<67108864, 0>>       \* 2^53
InRange(v) == (v[1] > 0 \/ v[2] > 0) /\ (v[1] < MaxId[1] \/ v = MaxId)
Succ(v) == IF v = MaxId THEN <<0, 1>>
           ELSE IF v[2] = Base - 1 THEN <<v[1] + 1, 0>> ELSE <<v[1], v[2] + 1>>

IInit == [last |-> <<0, 0>>,    \* the session scope generator
          loose |-> FALSE,      \* last was set from outside: it may be the next or the previous value
          seen |-> {},          \* random ids
          chs |-> {}]           \* challenges, nonces, keys

ICrashed(o) == o.k \in {"panic", "hang"}

IJudge(s, e) ==
  LET o == e.out IN
  IF ICrashed(o) THEN R(s, {"C26:identifier generation crashed"})
  ELSE
  CASE e.op = "next" ->
         \* a counter set from outside may not be what the generator goes by
         IF s.loose /\ o.v # s.last /\ o.v # Succ(s.last)
         THEN R([s EXCEPT !.last = o.v, !.loose = FALSE], Ck(InRange(o.v), {"C26:session scope id out of range"}))
         ELSE R([s EXCEPT !.last = o.v, !.loose = FALSE],
                Ck(o.v = Succ(s.last) \/ (s.loose /\ InRange(o.v)), {"C26:session scope ids are not 1, 2, 3, ... wrapping after 2^53"}))
    [] e.op = "jump" -> R([s EXCEPT !.last = e.v, !.loose = TRUE], {})
    [] e.op \in {"random", "welcome"} ->
         R([s EXCEPT !.seen = @ \cup {o.v}],
           Ck(InRange(o.v), {"C26:random id out of range"})
           \cup Ck(o.v \notin s.seen, {"C26:random id repeats"}))
    [] e.op = "challenge" ->
         R([s EXCEPT !.chs = @ \cup {o.v}],
           Ck(o.v \notin s.chs /\ Len(o.v) >= 16, {"C19:challenge, nonce or key repeats", "C26:challenge, nonce or key repeats"}))
    [] e.op = "many" ->
         R(s, Ck(o.dup = 0, {"C26:random ids repeat"}) \cup Ck(o.outside = 0, {"C26:random id out of range"})
              \cup Ck(o.stuck = 0, {"C26:random ids do not use the whole range"}))
    [] OTHER -> R(s, {})
=============================================================================
