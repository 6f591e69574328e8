---- MODULE Reverse ----
(* Inputs of reverse and their results.  Memory holds L cells before the range, its N cells and T cells behind it,
   all recognisable (numbered, modulo 251).  Afterwards the range is reversed and nothing else changed. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, Long, Before, Behind
VARIABLES c
Mem(m) == [i \in 1..m |-> (i - 1) % 251]
After(l, n, t) == LET s == Mem(l + n + t) IN [i \in 1..l + n + t |-> IF l < i /\ i <= l + n THEN s[2 * l + n + 1 - i] ELSE s[i]]
Init == \E n \in (0..MaxN) \cup Long, l \in Before, t \in Behind :
          c = [n |-> n, l |-> l, t |-> t, ret |-> l + n, mem |-> After(l, n, t)]
(* what the result means, in the words of the property *)
Right == LET s == Mem(Len(c.mem)) IN
         \A i \in 1..Len(s) : c.mem[i] = IF c.l < i /\ i <= c.l + c.n THEN s[c.l + 1 + (c.l + c.n - i)] ELSE s[i]
Next == FALSE /\ c' = c
Emit == PrintT("@E " \o ToJson(c))
====
