---- MODULE ArrayOps ----
(* The documented meaning of every operation of the dynamic array, on mathematical sequences.
   A state S has two arrays S.a and S.b, each with contents s and capacity c.  Operations act on a; b is the other
   array of copies, moves, swaps and of insertions of another array's elements.
   Apply(S, op, x) is the state after operation op with the integer arguments x, and r, the position it reports
   (-1 if none).  c follows the documented capacity policy; whether it binds is up to the user of this module. *)
EXTENDS Seqs

Rest(x, n) == SubSeq(x, n, Len(x))
Arr(s, c) == [s |-> s, c |-> c]
Grow1(y) == IF Len(y.s) = y.c THEN y.c + Mx(y.c, 1) ELSE y.c     \* for one more element
GrowN(y, n) == IF Len(y.s) + n > y.c THEN y.c + n ELSE y.c       \* for a range inserted
GrowX(y, n) == Mx(y.c, Len(y.s) + n)                             \* for a range appended
RECURSIVE PushAll(_, _)
PushAll(y, t) == IF t = <<>> THEN y ELSE PushAll(Arr(Append(y.s, Head(t)), Grow1(y)), Tail(t))

R(A, B, r) == [a |-> A, b |-> B, r |-> r]

Apply(S, op, x) ==
  LET A == S.a  B == S.b IN
  CASE op \in {"def", "defal"}       -> R(Arr(<<>>, 0), B, -1)
    [] op = "cap"                    -> R(Arr(<<>>, x[1]), B, -1)
    [] op = "fill"                   -> R(Arr(Rep(x[1], x[2]), x[1]), B, -1)
    [] op \in {"il", "iter", "range", "ranget", "ilassign"} -> R(Arr(x, Len(x)), B, -1)
    [] op = "input"                  -> R(PushAll(Arr(<<>>, 0), x), B, -1)
    [] op = "copyctor"               -> R(A, Arr(A.s, Len(A.s)), -1)
    [] op = "movector"               -> R(Arr(<<>>, 0), A, -1)
    [] op = "assign"                 -> R(Arr(B.s, Len(B.s)), B, -1)
    [] op = "assignself"             -> R(Arr(A.s, Len(A.s)), B, -1)
    [] op = "massign"                -> R(B, Arr(<<>>, 0), -1)
    [] op = "swap"                   -> R(B, A, -1)
    [] op = "swapself"               -> R(A, B, -1)
    [] op \in {"push", "pushl"}      -> R(Arr(Append(A.s, x[1]), Grow1(A)), B, -1)
    [] op = "emplace"                -> R(Arr(Append(A.s, x[1]), Grow1(A)), B, Len(A.s))
    [] op = "pushself"               -> R(Arr(Append(A.s, A.s[x[1] + 1]), Grow1(A)), B, -1)
    [] op = "emplself"               -> R(Arr(Append(A.s, A.s[x[1] + 1]), Grow1(A)), B, Len(A.s))
    [] op = "pushin"                 -> R(PushAll(A, x), B, -1)
    [] op \in {"pushr", "pushrange"} -> R(Arr(A.s \o x, GrowX(A, Len(x))), B, -1)
    [] op = "pushb"                  -> R(Arr(A.s \o B.s, GrowX(A, Len(B.s))), B, -1)
    [] op \in {"ins", "insl"}        -> R(Arr(InsertAt(A.s, x[1], <<x[2]>>), Grow1(A)), B, x[1])
    [] op = "insself"                -> R(Arr(InsertAt(A.s, x[1], <<A.s[x[2] + 1]>>), Grow1(A)), B, x[1])
    [] op \in {"insr", "insin", "insrange"} -> R(Arr(InsertAt(A.s, x[1], Rest(x, 2)), GrowN(A, Len(x) - 1)), B, x[1])
    [] op = "insb"                   -> R(Arr(InsertAt(A.s, x[1], SubSeq(B.s, x[2] + 1, x[3])), GrowN(A, x[3] - x[2])), B, x[1])
    [] op = "pop"                    -> R(Arr(Take(A.s, Len(A.s) - 1), A.c), B, -1)
    [] op = "erase"                  -> R(Arr(CutAt(A.s, x[1], x[1] + 1), A.c), B, x[1])
    [] op = "eraser"                 -> R(Arr(CutAt(A.s, x[1], x[2]), A.c), B, x[1])
    [] op = "clear"                  -> R(Arr(<<>>, A.c), B, -1)
    [] op = "reserve"                -> R(Arr(A.s, Mx(A.c, x[1])), B, -1)
    [] op = "resize"                 -> R(Arr(Take(A.s, Mn(Len(A.s), x[1])), x[1]), B, -1)
    [] op = "set"                    -> R(Arr([A.s EXCEPT ![x[1] + 1] = x[2]], A.c), B, -1)

(* Classes of operations used by the properties about memory and exceptions. *)
Replacing == {"def", "defal", "cap", "fill", "il", "iter", "range", "ranget", "input", "copyctor", "movector", "assign",
              "assignself", "massign", "ilassign", "swap", "swapself"}
Appending1 == {"push", "pushl", "emplace", "pushself", "emplself"}
NoThrow == {"def", "defal", "movector", "massign", "swap", "swapself", "pop", "clear"}
Strong == {"cap", "fill", "il", "iter", "range", "ranget", "input", "copyctor", "assign", "assignself", "ilassign",
           "reserve", "resize"} \cup Appending1
(* Where the first element the operation may touch is, in an operation that works in place. *)
FirstTouched(S, op, x) ==
  CASE op \in {"ins", "insl", "insself", "insr", "insin", "insrange", "insb", "erase", "eraser", "set"} -> x[1]
    [] op \in Appending1 \cup {"pushin", "pushr", "pushrange", "pushb"} -> Len(S.a.s)
    [] op = "pop" -> Len(S.a.s) - 1
    [] op \in {"reserve", "resize"} -> Len(S.a.s)
    [] OTHER -> 0
====
