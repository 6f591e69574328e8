---- MODULE Allocators ----
(* Two arrays with allocators that are not interchangeable: allocator k hands out the memory of arena k, and accepts back only that.
   a[i] is the arena of array i, n[i] its length.  An array is given its allocator where it is made (arena 0 if none is named) and keeps it
   through every operation on its contents; construction from another array takes that one's allocator, as does assignment from it (the
   allocators propagate), and a swap exchanges the allocators with the contents.
   Memory and elements are therefore always held by the arena of the array they belong to. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Arenas
VARIABLES a, n, act
View == <<a, n>>
I == {1, 2}
Other(i) == 3 - i
A == 0..(Arenas - 1)
K == 0..MaxLen
Init == a = [i \in I |-> 0] /\ n = [i \in I |-> 0] /\ act = [op |-> "start", i |-> 0, x |-> <<>>]
Do(op, i, x, na, nn) == a' = na /\ n' = nn /\ act' = [op |-> op, i |-> i, x |-> x]
Set(f, i, v) == [f EXCEPT ![i] = v]
Empty == {"alloc", "cap"}                                        \* constructors that make no elements
Sized == {"fill", "il", "range", "input", "rng"}
Made(i) ==
  \/ \E k \in A : \E h \in Empty : Do(h, i, <<k, 2>>, Set(a, i, k), Set(n, i, 0))
  \/ \E k \in A, m \in K : \E h \in Sized : Do(h, i, <<k, m>>, Set(a, i, k), Set(n, i, m))
  \/ Do("none", i, <<>>, Set(a, i, 0), Set(n, i, 0))
  \/ \E m \in K : \E h \in Sized : Do(h, i, <<-1, m>>, Set(a, i, 0), Set(n, i, m))
Whole(i) == LET j == Other(i) IN
  \/ \E h \in {"copy", "assign"} : Do(h, i, <<>>, Set(a, i, a[j]), Set(n, i, n[j]))
  \/ \E h \in {"move", "massign"} : Do(h, i, <<>>, Set(a, i, a[j]), [k \in I |-> IF k = i THEN n[j] ELSE 0])
  \/ \E h \in {"assignself", "massignself", "swapself"} : Do(h, i, <<>>, a, n)
  \/ \E m \in K : Do("ilassign", i, <<m>>, a, Set(n, i, m))
  \/ Do("swap", i, <<>>, [k \in I |-> a[3 - k]], [k \in I |-> n[3 - k]])
Content(i) ==
  \/ n[i] < MaxLen /\ \E h \in {"push", "emplace", "pushl"} : Do(h, i, <<>>, a, Set(n, i, n[i] + 1))
  \/ n[i] < MaxLen /\ \E p \in 0..n[i] : \E h \in {"ins", "insl"} : Do(h, i, <<p>>, a, Set(n, i, n[i] + 1))
  \/ \E m \in 0..(MaxLen - n[i]), p \in 0..n[i] : \E h \in {"insr", "insin"} : Do(h, i, <<p, m>>, a, Set(n, i, n[i] + m))
  \/ \E m \in 0..(MaxLen - n[i]) : \E h \in {"pushr", "pushin"} : Do(h, i, <<m>>, a, Set(n, i, n[i] + m))
  \/ n[i] > 0 /\ Do("pop", i, <<>>, a, Set(n, i, n[i] - 1))
  \/ n[i] > 0 /\ \E p \in 0..(n[i] - 1) : Do("erase", i, <<p>>, a, Set(n, i, n[i] - 1))
  \/ \E p \in 0..n[i], q \in 0..n[i] : p <= q /\ Do("eraser", i, <<p, q>>, a, Set(n, i, n[i] - (q - p)))
  \/ Do("clear", i, <<>>, a, Set(n, i, 0))
  \/ \E m \in {0, 1, MaxLen, MaxLen + 2} : Do("reserve", i, <<m>>, a, n) \/ Do("resize", i, <<m>>, a, Set(n, i, IF m < n[i] THEN m ELSE n[i]))
Next == \E i \in I : Made(i) \/ Whole(i) \/ Content(i)
Live(k) == (IF a[1] = k THEN n[1] ELSE 0) + (IF a[2] = k THEN n[2] ELSE 0)
(* every element lives in the arena of some array, and nothing lives elsewhere *)
Held == \A k \in A : Live(k) > 0 => \E i \in I : a[i] = k
(* operations on the contents, and assignment of a list, never change an allocator *)
Kept == [][\A i \in I : a'[i] # a[i] => act'.op \in (Empty \cup Sized \cup {"none", "copy", "assign", "move", "massign", "swap"})]_<<a, n, act>>
(* what an operation on array i may do to the other one *)
Apart == [][\A i \in I : act'.i # i /\ act'.op # "swap" => a'[i] = a[i] /\ (act'.op \notin {"move", "massign"} => n'[i] = n[i])]_<<a, n, act>>
Emit == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> View']))
====
