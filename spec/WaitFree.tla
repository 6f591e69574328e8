---- MODULE WaitFree ----
(* Wait-freedom of the queue: one side stops in the midst of an operation (outer), for as long as it likes, while the other side
   carries out operations of its own (inner), which must all complete, as if the outer one had not begun or were done.
     q     the elements, numbered in the order they are accepted;  last   the number of the last accepted one
   Each case gives the outcomes that are possible; one outcome is <<result of outer, results of inner, what is left>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Len2
VARIABLES off, r, outer, inner
vars == <<off, r, outer, inner>>
Producer == {"push", "pushm", "emplace", "wa"}
Consumer == {"pop", "consume", "ra"}
Apply(op, s) ==                                            \* s: <<results, q, last>>
  LET res == s[1] q == s[2] last == s[3] IN
  CASE op \in {"push", "pushm", "emplace"} -> IF Len(q) < N - 1 THEN <<Append(res, 1), Append(q, last + 1), last + 1>> ELSE <<Append(res, 0), q, last>>
    [] op = "wa" -> <<Append(res, N - 1 - Len(q)), q, last>>
    [] op = "ra" -> <<Append(res, Len(q)), q, last>>
    [] op = "pop" -> <<Append(res, 0), Tail(q), last>>
    [] op = "consume" -> <<Append(res, Head(q)), Tail(q), last>>
RECURSIVE Run(_, _)
Run(ops, s) == IF ops = <<>> THEN s ELSE Run(Tail(ops), Apply(Head(ops), s))
Start == <<<<>>, [i \in 1..r |-> off + i], off + r>>
Takes(ops) == Cardinality({i \in DOMAIN ops : ops[i] \in {"pop", "consume"}})
Inners(S) == {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S} \cup (IF Len2 THEN {} ELSE {<<a, b, d>> : a, b, d \in S})
Before == LET s == Run(<<outer>> \o inner, Start) IN <<s[1][1], Tail(s[1]), s[2]>>
After == LET s == Run(inner \o <<outer>>, Start) IN <<s[1][Len(s[1])], SubSeq(s[1], 1, Len(s[1]) - 1), s[2]>>
(* a query that is overtaken may answer with anything in between *)
Possible == {Before, After} \cup IF outer \notin {"wa", "ra"} THEN {} ELSE
  {<<x, After[2], After[3]>> : x \in {v \in 0..N : (Before[1] <= v /\ v <= After[1]) \/ (After[1] <= v /\ v <= Before[1])}}
Init == /\ off \in 0..N - 1 /\ r \in 0..N - 1
        /\ outer \in Producer \cup Consumer
        /\ inner \in Inners(IF outer \in Producer THEN Consumer ELSE Producer)
        /\ Takes(<<outer>> \o inner) <= r                  \* only what is there is taken
Next == UNCHANGED vars
(* accepted elements leave in order, and nothing is lost whichever side is first *)
Laws == \A o \in Possible : Len(o[3]) <= N - 1 /\ \A i \in 1..Len(o[3]) - 1 : o[3][i + 1] = o[3][i] + 1
Emit == PrintT("@E " \o ToJson([off |-> off, r |-> r, outer |-> outer, inner |-> inner, may |-> Possible, first |-> After, last |-> Before]))
====
