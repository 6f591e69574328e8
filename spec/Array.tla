---- MODULE Array ----
(* All histories of two dynamic arrays up to a size and capacity.  Elements are data the array never inspects, so a
   state is the shape (sizes and capacities) and each transition relates the contents before and after by labels:
   1..n the elements of a, 101.. those of b, 201.. the new ones.  The transitions are replayed on the real class. *)
EXTENDS ArrayOps, TLC, Json
CONSTANTS MaxLen, MaxCap, MaxRange, BLen, BCap
VARIABLES na, ca, nb, cb, act
vars == <<na, ca, nb, cb, act>>
shape == <<na, ca, nb, cb>>

S == [a |-> Arr(Iota(na, 0), ca), b |-> Arr(Iota(nb, 100), cb)]
New(k) == Iota(k, 200)

Init == na = 0 /\ ca = 0 /\ nb = 0 /\ cb = 0 /\ act = [op |-> "init"]

Do(op, x) ==
  LET T == Apply(S, op, x) IN
  /\ Len(T.a.s) <= MaxLen /\ T.a.c <= MaxCap /\ Len(T.b.s) <= BLen /\ T.b.c <= BCap
  /\ na' = Len(T.a.s) /\ ca' = T.a.c /\ nb' = Len(T.b.s) /\ cb' = T.b.c
  /\ act' = [op |-> op, x |-> x, r |-> T.r, sa |-> T.a.s, sb |-> T.b.s]

Construct == \/ \E o \in {"def", "defal", "copyctor", "movector"} : Do(o, <<>>)
             \/ \E n \in 0..MaxCap : Do("cap", <<n>>)
             \/ \E n \in 0..MaxRange : Do("fill", <<n, 201>>)
             \/ \E n \in 0..2 : Do("il", New(n))
             \/ \E n \in 0..MaxRange, o \in {"iter", "range", "ranget", "input"} : Do(o, New(n))
Assign == \/ \E o \in {"assign", "assignself", "massign", "swap", "swapself"} : Do(o, <<>>)
          \/ \E n \in 0..2 : Do("ilassign", New(n))
Push == \/ \E o \in {"push", "pushl", "emplace"} : Do(o, New(1))
        \/ \E i \in 0..(na-1), o \in {"pushself", "emplself"} : Do(o, <<i>>)
        \/ \E n \in 0..MaxRange, o \in {"pushr", "pushrange", "pushin"} : Do(o, New(n))
        \/ Do("pushb", <<>>)
Insert == \E p \in 0..na :
            \/ \E o \in {"ins", "insl"} : Do(o, <<p, 201>>)
            \/ \E i \in 0..(na-1) : Do("insself", <<p, i>>)
            \/ \E n \in 0..MaxRange, o \in {"insr", "insin", "insrange"} : Do(o, <<p>> \o New(n))
            \/ \E f \in 0..nb : \E l \in f..nb : Do("insb", <<p, f, l>>)
Remove == \/ na > 0 /\ Do("pop", <<>>)
          \/ \E p \in 0..(na-1) : Do("erase", <<p>>)
          \/ \E p \in 0..na : \E q \in p..na : Do("eraser", <<p, q>>)
          \/ Do("clear", <<>>)
Space == \E n \in 0..MaxCap : Do("reserve", <<n>>) \/ Do("resize", <<n>>)
Write == \E p \in 0..(na-1) : Do("set", <<p, 201>>)

Next == Construct \/ Assign \/ Push \/ Insert \/ Remove \/ Space \/ Write
Spec == Init /\ [][Next]_vars

(* Design-level properties: capacity bounds the size; an operation keeps, drops or duplicates what it says only. *)
Fits == na <= ca /\ nb <= cb
Labels == act.op = "init" \/ \A i \in 1..Len(act.sa) : act.sa[i] > 0
Conserve == \* operations that only add keep every old element of a exactly once, in order, except an own copy
  act.op \in {"push", "pushl", "emplace", "ins", "insl", "insr", "insin", "insrange", "insb", "pushr", "pushrange",
              "pushin", "pushb", "reserve"} =>
    LET old == SelectSeq(act.sa, LAMBDA v : v < 100) IN old = Iota(Len(old), 0)
Emit == PrintT("@E " \o ToJson([f |-> shape, a |-> act', t |-> shape']))
====
