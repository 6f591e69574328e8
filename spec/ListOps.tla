---- MODULE ListOps ----
(* The documented meaning of every operation of the singly linked list, on mathematical sequences.
   S.a, S.b: contents of two lists.  Position -1 stands before the first element.
   L(S, op, x): the lists afterwards and r, the position the operation reports (-2: none).
   Values that stay in a list keep their node; `Fresh` tells which operations give a new list. *)
EXTENDS Seqs

Rest(x, n) == SubSeq(x, n, Len(x))
LR(A, B, r) == [a |-> A, b |-> B, r |-> r]
L(S, op, x) ==
  LET A == S.a  B == S.b IN
  CASE op = "def"                   -> LR(<<>>, B, -2)
    [] op = "n"                     -> LR(Rep(x[1], 0), B, -2)
    [] op = "nv"                    -> LR(Rep(x[1], x[2]), B, -2)
    [] op \in {"iter", "input", "il", "range", "ilassign", "assignr", "assigni", "assignin", "assignil"} -> LR(x, B, -2)
    [] op = "copyctor"              -> LR(A, A, -2)
    [] op = "movector"              -> LR(<<>>, A, -2)
    [] op = "assign"                -> LR(B, B, -2)
    [] op = "assignb"               -> LR(B, B, -2)
    [] op = "assignself"            -> LR(A, B, -2)
    [] op = "massign"               -> LR(B, <<>>, -2)
    [] op \in {"pushf", "pushfl"}   -> LR(<<x[1]>> \o A, B, -2)
    [] op = "pushself"              -> LR(<<A[x[1] + 1]>> \o A, B, -2)
    [] op = "emplf"                 -> LR(<<x[1]>> \o A, B, 0)
    [] op = "popf"                  -> LR(Tail(A), B, -2)
    [] op \in {"insa", "insal", "empla"} -> LR(InsertAt(A, x[1] + 1, <<x[2]>>), B, x[1] + 1)
    [] op = "insself"               -> LR(InsertAt(A, x[1] + 1, <<A[x[2] + 1]>>), B, x[1] + 1)
    [] op \in {"insar", "insain", "insarr"} -> LR(InsertAt(A, x[1] + 1, Rest(x, 2)), B, x[1] + Len(x) - 1)
    [] op = "insab"                 -> LR(InsertAt(A, x[1] + 1, B), B, x[1] + Len(B))
    [] op = "erasea"                -> LR(CutAt(A, x[1] + 1, x[1] + 2), B, -2)
    [] op = "erasear"               -> LR(CutAt(A, x[1] + 1, x[2]), B, -2)
    [] op = "reverse"               -> LR(Flip(A), B, -2)
    [] op = "clear"                 -> LR(<<>>, B, -2)

Constructing == {"def", "n", "nv", "iter", "input", "il", "range", "copyctor", "movector"}
Assigning == {"ilassign", "assignr", "assigni", "assignin", "assignil", "assign", "assignb", "assignself"}
RangeInserting == {"insar", "insain", "insarr", "insab"}
NoThrow == {"def", "movector", "massign", "popf", "erasea", "erasear", "reverse", "clear"}
(* What a list may hold after an operation failed on a throwing constructor, assignment or allocation. *)
AfterFailure(S, op, x, A) ==
  LET T == L(S, op, x).a IN
  CASE op \in Assigning -> Len(A) <= Mx(Len(S.a), Len(T))
                           /\ \A i \in 1..Len(A) : (i <= Len(S.a) /\ A[i] = S.a[i]) \/ (i <= Len(T) /\ A[i] = T[i])
    [] op \in RangeInserting -> LET v == IF op = "insab" THEN S.b ELSE Rest(x, 2) IN
                                \E k \in 0..Len(v) : A = InsertAt(S.a, x[1] + 1, Take(v, k))
    [] OTHER -> A = S.a
====
