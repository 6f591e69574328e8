---- MODULE ForwardLike ----
(* The category and constness of a value forwarded like a model type. *)
EXTENDS Sequences, TLC, Json
VARIABLES c
Const == {0, 1}
Cases == [like : {"value", "lvalue", "rvalue"}, likeconst : Const, arg : {"lvalue", "rvalue"}, argconst : Const]
Result(x) == [category |-> IF x.like = "lvalue" THEN "lvalue" ELSE "rvalue",
              const |-> IF x.likeconst = 1 \/ x.argconst = 1 THEN 1 ELSE 0]
Init == c \in Cases
Next == UNCHANGED c
Emit == PrintT("@E " \o ToJson([x |-> c, r |-> Result(c)]))
Laws == /\ Result(c) = Result([c EXCEPT !.arg = "lvalue"])                       \* the argument's own category does not matter
        /\ Result(c).const = Result([c EXCEPT !.like = "lvalue"]).const
====
