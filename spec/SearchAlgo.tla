---- MODULE SearchAlgo ----
(* The design of the vectorised find and reverse, checked against their definitions for all small inputs:
   W elements are compared (swapped) at a time, the rest one by one.
   reads: the positions read (and written) so far, which must lie inside the range 0..n-1. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, MaxN
VARIABLES mode, a, n, i, s, pc, res, reads, a0
vars == <<mode, a, n, i, s, pc, res, reads, a0>>
Pos == 0..n - 1
Init == /\ mode \in {"find", "reverse"} /\ n \in 0..MaxN
        /\ a \in (IF mode = "find" THEN [0..n - 1 -> BOOLEAN] ELSE {[p \in 0..n - 1 |-> p]})     \* TRUE: equal to the needle
        /\ i = 0 /\ s = n /\ pc = "block" /\ res = -1 /\ reads = {} /\ a0 = a
Hits == {k \in 0..W - 1 : a[i + k]}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Done(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<i, s, a, reads>>
FindBlock == /\ mode = "find" /\ pc = "block"
  /\ IF i + W <= n
     THEN /\ reads' = reads \cup {i + k : k \in 0..W - 1} /\ UNCHANGED <<a, s>>
          /\ IF Hits = {} THEN i' = i + W /\ UNCHANGED <<pc, res>> ELSE pc' = "done" /\ res' = i + Min(Hits) /\ UNCHANGED i
     ELSE pc' = "tail" /\ UNCHANGED <<i, s, a, reads, res>>
FindTail == /\ mode = "find" /\ pc = "tail"
  /\ IF i = n THEN Done(n) ELSE IF a[i] THEN pc' = "done" /\ res' = i /\ reads' = reads \cup {i} /\ UNCHANGED <<i, s, a>>
     ELSE i' = i + 1 /\ reads' = reads \cup {i} /\ UNCHANGED <<s, a, pc, res>>
(* s - W .. s - 1 and i .. i + W - 1 are loaded, reversed and stored crosswise, (n \div 2) \div W times *)
RevBlock == /\ mode = "reverse" /\ pc = "block"
  /\ IF i \div W < (n \div 2) \div W
     THEN LET lo == {i + k : k \in 0..W - 1}  hi == {s - W + k : k \in 0..W - 1} IN
          /\ reads' = reads \cup lo \cup hi
          /\ a' = [p \in Pos |-> IF p \in lo THEN a[s - 1 - (p - i)] ELSE IF p \in hi THEN a[i + (s - 1 - p)] ELSE a[p]]
          /\ i' = i + W /\ s' = s - W /\ UNCHANGED <<pc, res>>
     ELSE pc' = "tail" /\ UNCHANGED <<i, s, a, reads, res>>
RevTail == /\ mode = "reverse" /\ pc = "tail"
  /\ IF i < s THEN /\ a' = [a EXCEPT ![i] = a[s - 1], ![s - 1] = a[i]] /\ reads' = reads \cup {i, s - 1} /\ i' = i + 1 /\ s' = s - 1 /\ UNCHANGED <<pc, res>>
     ELSE Done(n)
Next == (FindBlock \/ FindTail \/ RevBlock \/ RevTail) /\ UNCHANGED <<mode, n, a0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside == reads \subseteq Pos
Found == mode = "find" /\ pc = "done" => IF \E p \in Pos : a0[p] THEN res = Min({p \in Pos : a0[p]}) ELSE res = n
Reversed == mode = "reverse" /\ pc = "done" => res = n /\ \A p \in Pos : a[p] = a0[n - 1 - p]
Ends == <>(pc = "done")
====
