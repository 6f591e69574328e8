---- MODULE Utilities ----
(* Numbers of W bits are sets of bit positions; a negative number is in two's complement. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Dense         \* Dense: how many low or high positions are combined freely
VARIABLES c
Bits == 0..W - 1
Ordered(S) == SelectSeq([i \in 1..W |-> i - 1], LAMBDA i : i \in S)
Near == {i \in Bits : i < 9 \/ i > W - 9 \/ i % 16 \in {0, 15} \/ Dense > 8}          \* positions paired with each other
Patterns == {{}, Bits} \cup {{i} : i \in Bits} \cup {Bits \ {i} : i \in Bits} \cup {{i, j} : i, j \in Near} \cup {i..j : i, j \in Near}
            \cup {Bits \ {i, j} : i, j \in Near} \cup SUBSET (0..Dense - 1) \cup SUBSET (W - Dense..W - 1) \cup {{0, W - 1} \cup s : s \in SUBSET ((W \div 2) - 2..(W \div 2) + 1)}
SingleBit(P) == Cardinality(P) = 1
(* as a signed number: negative iff its highest bit is set *)
Sign(P) == IF W - 1 \in P THEN -1 ELSE IF P = {} THEN 0 ELSE 1
(* every value of a type with few bits, as runs of equal answers: <<from, to, answer>> *)
RECURSIVE Pow(_)
Pow(i) == IF i = 0 THEN 1 ELSE 2 * Pow(i - 1)
RECURSIVE Runs(_)
Runs(i) == IF i = W THEN <<>>
           ELSE LET to == Pow(i + 1) - 1 IN
                (IF i = 0 THEN <<<<0, 0, 0>>, <<1, 2, 1>>>> ELSE IF i = 1 THEN <<<<3, 3, 0>>>> ELSE <<<<Pow(i), Pow(i), 1>>, <<Pow(i) + 1, to, 0>>>>) \o Runs(i + 1)
Init == (W < 30 /\ c \in {[op |-> "single runs", x |-> <<>>, r |-> Runs(0)],
                          [op |-> "sign runs", x |-> <<>>, r |-> <<<<-Pow(W - 1), -1, -1>>, <<0, 0, 0>>, <<1, Pow(W - 1) - 1, 1>>>>]})
     \/ \E P \in Patterns : c = [op |-> "number", x |-> Ordered(P), single |-> IF SingleBit(P) THEN 1 ELSE 0, sign |-> Sign(P)]
Next == UNCHANGED c
Emit == PrintT("@E " \o ToJson(c))
(* a number with one bit is not changed by isolating its lowest bit; without its lowest bit nothing is left *)
Laws == c.op = "number" => (c.single = 1 <=> (Len(c.x) > 0 /\ c.x[1] = c.x[Len(c.x)]))
====
