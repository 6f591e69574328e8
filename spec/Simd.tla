---- MODULE Simd ----
(* Which instruction set levels a program may use.  Requesting a level enables it and every level below; the compiler's target
   has a level when its flags raise it that far and do not switch off it or one it builds on (MMX stands alone). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Pairs                                \* the size of the sets whose unions and intersections are asked for
Levels == <<"mmx", "sse", "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512f">>
N == Len(Levels)
UpTo(n) == 1..n
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Baseline == 3                                 \* x86-64
Enabled(requested) == UpTo(Max(requested))
Has(up, down) ==                              \* flags -m<level> for up (0: none) and -mno-<level> for down (N + 1: none)
  LET raised == UpTo(Max({Baseline, up})) IN IF down = 1 THEN raised \ {1} ELSE {l \in raised : l < down \/ l = 1}
Names(S) == [i \in 1..N |-> IF i \in S THEN 1 ELSE 0]
VARIABLE case
Small(k) == {S \in SUBSET (1..N) : Cardinality(S) <= k}
Init == \/ \E r \in SUBSET (1..N) : case = [k |-> "enable", a |-> Names(r), r |-> Names(Enabled(r))]
        \/ \E up \in {0} \cup 4..N, down \in 1..N + 1 : (up = 0 \/ down # up) /\ case = [k |-> "target", up |-> up, down |-> down, r |-> Names(Has(up, down))]
        \/ \E a, b \in Small(Pairs) \cup {1..N} : case = [k |-> "ops", a |-> Names(a), b |-> Names(b), or |-> Names(a \cup b), and |-> Names(a \cap b)]
Next == FALSE /\ UNCHANGED case
(* enabling is a closure, and more requests never enable less *)
Laws == \A r \in Small(2), s \in Small(1) :
          /\ r \subseteq Enabled(r) /\ Enabled(Enabled(r)) = Enabled(r) /\ Enabled(r) \subseteq Enabled(r \cup s)
          /\ \A l \in Enabled(r) : UpTo(l) \subseteq Enabled(r)
Emit == PrintT("@E " \o ToJson(case))
====
