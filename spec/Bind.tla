---- MODULE Bind ----
(* Objects a and b, each binding K values and a function object that counts its calls (modulo 2).
   A value is 1..D, or 0 once it was moved from.  The function adds 1 (modulo D) to every argument it may change.
   Categories: "l" lvalue, "c" const lvalue, "r" rvalue, "k" const rvalue.
   act.r: for a call, the category the function object was called as, its count, and what it saw: <<value, category>>. *)
EXTENDS Seqs, TLC, Json
CONSTANTS K, D, Front, Long     \* Long: how many shapes of call arguments
VARIABLES a, b, x, act                     \* x: a variable that is bound by reference (position 1) if K > 0
state == <<a, b, x>>
Cats == {"l", "c", "r", "k"}
(* the categories of the call arguments *)
Calls == IF Long = 0 THEN {<<>>, <<"r">>, <<"l", "c">>} ELSE
         {<<>>} \cup {<<c>> : c \in Cats} \cup {<<"l", "r">>, <<"r", "c">>, <<"k", "l">>} \cup IF Long = 2 THEN {<<"r", "l", "c">>} ELSE {}
Fresh == [v |-> [i \in 1..K |-> 1], n |-> 0, ref |-> FALSE]
Init == a = Fresh /\ b = Fresh /\ x = 1 /\ act = [op |-> "init"]
Up(v) == IF v >= D THEN 1 ELSE v + 1
Do(op, how, xs, r, na, nb, nx) == a' = na /\ b' = nb /\ x' = nx /\ act' = [op |-> op, how |-> how, x |-> xs, r |-> r]
Values == IF K = 3 THEN {<<1, 2, 3>>} ELSE [1..K -> 1..D]
(* binding: from lvalues and const lvalues by copy, from rvalues by moving; r: the sources afterwards.
   The sources are changed after binding by lvalue, which must not matter. *)
Bind == \E v \in Values :
  \/ \E h \in {"l", "c"} : Do("bind", h, v, v, [v |-> v, n |-> 0, ref |-> FALSE], b, x)
  \/ Do("bind", "r", v, [i \in 1..K |-> 0], [v |-> v, n |-> 0, ref |-> FALSE], b, x)
  \/ K > 0 /\ Do("bind", "ref", v, v, [v |-> v, n |-> 0, ref |-> TRUE], b, x)
SetX == \E v \in 1..D : K > 0 /\ x # v /\ Do("setx", "", <<v>>, <<>>, a, b, v)
Bound(o) == [i \in 1..K |-> IF o.ref /\ i = 1 THEN x ELSE o.v[i]]
(* calling a with category c of the object and the arguments 1..Len(cs) with categories cs *)
Arg(i) == 10 + i
Seen(o, c, cs) ==
  LET bs == [i \in 1..K |-> <<Bound(o)[i], IF o.ref /\ i = 1 THEN "l" ELSE IF c = "k" THEN "c" ELSE c>>]
      as == [i \in 1..Len(cs) |-> <<Arg(i), cs[i]>>]
  IN IF Front THEN bs \o as ELSE as \o bs
Toggle(n, c) == IF c \in {"l", "r"} THEN 1 - n ELSE n
After(o, c) == [v |-> [i \in 1..K |-> IF o.ref /\ i = 1 THEN o.v[i] ELSE IF c = "l" THEN Up(o.v[i]) ELSE IF c = "r" THEN 0 ELSE o.v[i]],
                n |-> Toggle(o.n, c), ref |-> o.ref]
XAfter(o) == IF o.ref THEN Up(x) ELSE x
Call == \E c \in Cats, cs \in Calls :
  \/ Do("call", "a", <<c, cs>>, <<c, Toggle(a.n, c), Seen(a, c, cs)>>, After(a, c), b, XAfter(a))
  \/ Do("call", "b", <<c, cs>>, <<c, Toggle(b.n, c), Seen(b, c, cs)>>, a, After(b, c), XAfter(b))
Copy == \E h \in {"ctor", "assign"} : Do("copy", h, <<>>, <<>>, a, a, x)
Move == \E h \in {"ctor", "assign"} : Do("move", h, <<>>, <<>>, Fresh, a, x)      \* a is then made afresh
(* copying a value throws: the exception reaches the caller and changes nothing *)
Fail == \E h \in {"bind", "copy", "assign"} : K > 0 /\ Do("fail", h, <<>>, <<>>, a, b, x)
Next == Fail \/ Bind \/ SetX \/ Call \/ Copy \/ Move
View == state
Emit == PrintT("@E " \o ToJson([f |-> state, a |-> act', t |-> state']))
====
