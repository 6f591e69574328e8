---- MODULE Tuple ----
(* Two tuples a, b of K components with values 1..D; 0 is the value of a component that was moved from.
   act: op, how (the access path, which does not matter to the result), x (arguments), r (what the action yields). *)
EXTENDS Seqs, TLC, Json
CONSTANTS K, D
VARIABLES a, b, act
state == <<a, b>>
V == 0..D
Idx == 1..K
Zero == [i \in Idx |-> 0]
RECURSIVE Lex(_, _)
Lex(s, t) == IF s = <<>> THEN 0 ELSE IF Head(s) < Head(t) THEN -1 ELSE IF Head(s) > Head(t) THEN 1 ELSE Lex(Tail(s), Tail(t))
Init == a = Zero /\ b = Zero /\ act = [op |-> "init"]
Do(op, how, x, r, na, nb) == a' = na /\ b' = nb /\ act' = [op |-> op, how |-> how, x |-> x, r |-> r]
B(c) == IF c THEN 1 ELSE 0
Values == [Idx -> 1..D]
Read == \E i \in Idx, h \in {"get", "cget", "rget", "crget", "idx", "cidx", "sb", "member"} : Do("read", h, <<i>>, <<a[i]>>, a, b)
Write == \E i \in Idx, v \in 1..D, h \in {"get", "idx", "sb", "member", "tie"} : Do("write", h, <<i, v>>, <<>>, [a EXCEPT ![i] = v], b)
TakeOut == \E i \in Idx, h \in {"get", "rget", "ridx", "sb"} : Do("take", h, <<i>>, <<a[i]>>, [a EXCEPT ![i] = 0], b)
Swap == \E h \in {"member", "free", "ranges"} : Do("swap", h, <<>>, <<>>, b, a)
Assign ==
  \/ \E h \in {"copy", "std", "const", "other"} : Do("assign", h, <<>>, <<>>, b, b)
  \/ \E h \in {"move", "std", "other"} : Do("massign", h, <<>>, <<>>, b, Zero)
  \/ Do("self", "copy", <<>>, <<>>, a, b)
Compare == \E h \in {"value", "const"} :
  LET c == Lex(a, b) IN Do("cmp", h, <<>>, <<B(a = b), B(a # b), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), c>>, a, b)
Apply ==
  \/ \E h \in {"ref", "const"} : Do("apply", h, <<>>, a, a, b)
  \/ Do("apply", "move", <<>>, a, Zero, b)
Build ==
  \/ \E v \in Values, h \in {"make", "ctad", "aggregate"} : Do("new", h, v, <<>>, v, b)
  \/ \E h \in {"std", "aggregate"} : Do("conv", h, <<>>, a, a, b)
  \/ Do("conv", "copy", <<>>, a, a, b)
  \/ Do("conv", "move", <<>>, a, Zero, b)
  \/ \E h \in {"tie", "stdtie"} : Do("tie", h, <<>>, a, a, b)         \* assigns a copy of a to a tie of variables
  \/ Do("fwd", "forward", <<>>, a, Zero, b)                           \* forward_as_tuple of a's components as rvalues
(* concatenation: arguments by value category; only rvalue arguments are moved from *)
Cat ==
  \/ Do("cat", "a b", <<>>, a \o b, a, b) \/ Do("cat", "A b", <<>>, a \o b, Zero, b)
  \/ Do("cat", "a B", <<>>, a \o b, a, Zero) \/ Do("cat", "A B", <<>>, a \o b, Zero, Zero)
  \/ Do("cat", "b a", <<>>, b \o a, a, b) \/ Do("cat", "c b a", <<>>, a \o b \o a, a, b)
  \/ Do("cat", "a", <<>>, a, a, b) \/ Do("cat", "A", <<>>, a, Zero, b) \/ Do("cat", "none", <<>>, <<>>, a, b)
  \/ Do("cat", "e A e B", <<>>, a \o b, Zero, Zero)                   \* e: the empty tuple
  \/ Do("cat", "stdB A", <<>>, b \o a, Zero, Zero)                    \* an rvalue std::tuple holding b
  \/ Do("cat", "a tieb", <<>>, a \o b, a, b)                          \* references to b's components
Next == Read \/ Write \/ TakeOut \/ Swap \/ Assign \/ Compare \/ Apply \/ Build \/ Cat
Types == a \in [Idx -> V] /\ b \in [Idx -> V]
Emit == PrintT("@E " \o ToJson([f |-> state, a |-> act', t |-> state']))
====
