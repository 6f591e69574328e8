---- MODULE LinkedList ----
(* All histories of two linked lists up to a size, over labels as in Array: 1..n the elements of a, 101.. those of b,
   201.. new values.  A label that survives an operation is an element that was not erased: iterators to it stay
   valid.  Operations that overwrite or copy elements give labels 301.. / 401..: the same values in other nodes. *)
EXTENDS ListOps, TLC, Json
CONSTANTS MaxLen, MaxRange, BLen
VARIABLES na, nb, act
shape == <<na, nb>>
S == [a |-> Iota(na, 0), b |-> Iota(nb, 100)]
New(k) == Iota(k, 200)
Init == na = 0 /\ nb = 0 /\ act = [op |-> "init"]

(* Elements of T that are copies, not the nodes themselves. *)
Copied(op) == Assigning \cup {"copyctor", "insab"}
Relabel(op, T) ==
  CASE op = "copyctor" -> [T EXCEPT !.b = [i \in 1..Len(T.b) |-> T.b[i] + 300]]
    [] op \in {"assign", "assignb"} -> [T EXCEPT !.a = [i \in 1..Len(T.a) |-> T.a[i] + 300]]
    [] op = "assignself" -> [T EXCEPT !.a = [i \in 1..Len(T.a) |-> T.a[i] + 300]]
    [] op = "insab" -> [T EXCEPT !.a = [i \in 1..Len(T.a) |-> IF T.a[i] > 100 THEN T.a[i] + 300 ELSE T.a[i]]]
    [] OTHER -> T
Do(op, x) ==
  LET T == Relabel(op, L(S, op, x)) IN
  /\ Len(T.a) <= MaxLen /\ Len(T.b) <= BLen
  /\ na' = Len(T.a) /\ nb' = Len(T.b)
  /\ act' = [op |-> op, x |-> x, r |-> T.r, sa |-> T.a, sb |-> T.b]
DoSelf(op, x, at) == \* the copied element gets a label of its own
  LET U == L(S, op, x)  T == [U EXCEPT !.a[at] = @ + 300] IN
  /\ Len(T.a) <= MaxLen /\ na' = Len(T.a) /\ nb' = nb
  /\ act' = [op |-> op, x |-> x, r |-> T.r, sa |-> T.a, sb |-> T.b]

Next ==
  \/ \E o \in {"def", "copyctor", "movector", "assign", "assignb", "assignself", "massign", "reverse", "clear"} : Do(o, <<>>)
  \/ \E n \in 0..MaxLen : Do("n", <<n>>) \/ Do("nv", <<n, 201>>)
  \/ \E n \in 0..MaxRange, o \in {"iter", "input", "range", "assignr", "assigni", "assignin"} : Do(o, New(n))
  \/ \E n \in 0..2, o \in {"il", "ilassign", "assignil"} : Do(o, New(n))
  \/ \E o \in {"pushf", "pushfl", "emplf"} : Do(o, New(1))
  \/ na > 0 /\ Do("popf", <<>>)
  \/ \E q \in 0..(na - 1) : DoSelf("pushself", <<q>>, 1)
  \/ \E p \in -1..(na - 1) :
       \/ \E o \in {"insa", "insal", "empla"} : Do(o, <<p, 201>>)
       \/ \E q \in 0..(na - 1) : DoSelf("insself", <<p, q>>, p + 2)
       \/ \E n \in 0..MaxRange, o \in {"insar", "insain", "insarr"} : Do(o, <<p>> \o New(n))
       \/ Do("insab", <<p>>)
       \/ p < na - 1 /\ Do("erasea", <<p>>)
       \/ \E q \in (p + 1)..na : Do("erasear", <<p, q>>)
Spec == Init /\ [][Next]_<<na, nb, act>>
(* An element that is not erased occurs exactly once afterwards, in one of the lists. *)
OncePerNode ==
  act.op = "init" \/ (LET all == act.sa \o act.sb
                          old == SelectSeq(all, LAMBDA v : v \in 1..200) IN Cardinality(Img(old)) = Len(old))
Emit == PrintT("@E " \o ToJson([f |-> shape, a |-> act', t |-> shape']))
====
