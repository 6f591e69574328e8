---- MODULE Iter ----
(* Two iterators x and y over one sequence of n elements.  An iterator is a position 0..n in its own direction
   (n: one past its last element); rev says that it runs from the back.  w: the elements (counted from the front)
   that have been written through an iterator.
   Cat: 1 forward, 2 bidirectional, 3 random access.  Conv: which of x, y may be made from the other one.
   Cmp: x and y can be compared (and, random access, subtracted).  Wr: which of them allow writing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Cat, RevX, RevY, Conv, Cmp, Wr, Ordered
VARIABLES n, p, w, act
vars == <<n, p, w, act>>
Slots == {"x", "y"}
Rev(s) == IF s = "x" THEN RevX ELSE RevY
Other(s) == IF s = "x" THEN "y" ELSE "x"
View == <<n, p, w>>
A(op, s, k, r) == [op |-> op, s |-> s, k |-> k, r |-> r]
At(s, q) == IF Rev(s) THEN n - 1 - q ELSE q                   \* the element at position q, counted from the front
Value(e) == IF e \in w THEN 100 + e ELSE e
Init == n \in Ns /\ p = [s \in Slots |-> 0] /\ w = {} /\ act = A("init", "x", n, 0)
Move(s, q) == p' = [p EXCEPT ![s] = q] /\ UNCHANGED <<n, w>>
Stay == UNCHANGED <<n, p, w>>
In(q) == 0 <= q /\ q <= n
Step(s) ==
  \/ /\ p[s] < n /\ Move(s, p[s] + 1) /\ \/ act' = A("++i", s, 0, p[s] + 1) \/ act' = A("i++", s, 0, p[s])
  \/ /\ Cat >= 2 /\ p[s] > 0 /\ Move(s, p[s] - 1) /\ \/ act' = A("--i", s, 0, p[s] - 1) \/ act' = A("i--", s, 0, p[s])
Jump(s) == Cat = 3 /\ \E k \in -n..n :
  \/ /\ In(p[s] + k) /\ \/ act' = A("i+=k", s, k, p[s] + k) /\ Move(s, p[s] + k)
                        \/ \E o \in {"i+k", "k+i"} : act' = A(o, s, k, p[s] + k) /\ Stay
  \/ /\ In(p[s] - k) /\ \/ act' = A("i-=k", s, k, p[s] - k) /\ Move(s, p[s] - k)
                        \/ act' = A("i-k", s, k, p[s] - k) /\ Stay
  \/ /\ 0 <= p[s] + k /\ p[s] + k < n /\ act' = A("i[k]", s, k, Value(At(s, p[s] + k))) /\ Stay
Read(s) == p[s] < n /\ Stay /\ \E o \in {"*i", "i->"} : act' = A(o, s, 0, Value(At(s, p[s])))
Write(s) == s \in Wr /\ UNCHANGED <<n, p>> /\
  LET flip(e) == w' = (IF e \in w THEN w \ {e} ELSE w \cup {e})  new(e) == IF e \in w THEN e ELSE 100 + e IN
  \/ p[s] < n /\ flip(At(s, p[s])) /\ \E o \in {"*i=", "i->="} : act' = A(o, s, new(At(s, p[s])), 0)
  \/ Cat = 3 /\ \E k \in -n..n : 0 <= p[s] + k /\ p[s] + k < n /\ flip(At(s, p[s] + k)) /\ act' = A("i[k]=", s, k, new(At(s, p[s] + k)))
Begin(s) == \/ Move(s, 0) /\ act' = A("first", s, 0, 0)
            \/ Move(s, n) /\ act' = A("last", s, 0, n)
(* an iterator of the other direction made from s is placed at the same boundary *)
Convert(s) == s \in Conv /\ LET q == IF RevX = RevY THEN p[s] ELSE n - p[s] IN
  /\ p' = [p EXCEPT ![Other(s)] = q] /\ UNCHANGED <<n, w>> /\ \E o \in {"make", "assign"} : act' = A(o, s, 0, q)
Copy(s) == Stay /\ \E o \in {"copy", "self"} : act' = A(o, s, 0, p[s])
Relations(a, b) == <<a = b, a # b>> \o (IF Ordered THEN <<a < b, a > b, a <= b, a >= b>> ELSE <<>>)
Compare(s) == Cmp /\ Stay /\ \/ act' = A("compare", s, 0, Relations(p[s], p[Other(s)]))
                             \/ Cat = 3 /\ act' = A("distance", s, 0, p[s] - p[Other(s)])
                             \/ Ordered /\ act' = A("three-way", s, 0, IF p[s] < p[Other(s)] THEN -1 ELSE IF p[s] > p[Other(s)] THEN 1 ELSE 0)
Walk(s) == Stay /\ \/ act' = A("walk", s, 0, [q \in 1..n |-> Value(At(s, q - 1))])
                   \/ Cat >= 2 /\ act' = A("walk back", s, 0, [q \in 1..n |-> Value(At(s, n - q))])
Next == \E s \in Slots : Step(s) \/ Jump(s) \/ Read(s) \/ Write(s) \/ Begin(s) \/ Convert(s) \/ Copy(s) \/ Compare(s) \/ Walk(s)
Emit == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> View']))
TypeOK == In(p.x) /\ In(p.y) /\ w \subseteq 0..n - 1
(* jumping equals stepping; the directions mirror each other *)
Laws == \A s \in Slots : \A q \in 0..n - 1 : At(s, q) \in 0..n - 1 /\ (Rev(s) => At(s, q) + q = n - 1)
====
