---- MODULE AlignedData ----
(* Slots of aligned storage next to each other, each holding no object (0) or one with a value.
     make: construct an object in raw storage through the address the storage gives
     born: new storage constructed together with its object
     put:  assign to the object through the pointer the storage gives
     drop: destroy the object;  renew: new storage without an object
   The layout: storage number i begins at base + i * stride; its object takes size bytes from there. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Slots, Values
VARIABLES s, act
View == s
Init == s = [i \in 1..Slots |-> 0] /\ act = [op |-> "start", i |-> 0, v |-> 0]
Do(op, i, v, to) == s' = [s EXCEPT ![i] = to] /\ act' = [op |-> op, i |-> i, v |-> v]
Next == \E i \in 1..Slots :
  \/ s[i] = 0 /\ (\E v \in 1..Values : Do("make", i, v, v) \/ Do("born", i, v, v) \/ Do("bornl", i, v, v))
  \/ s[i] = 0 /\ Do("renew", i, 0, 0)
  \/ s[i] # 0 /\ (\E v \in 1..Values : Do("put", i, v, v))
  \/ s[i] # 0 /\ (Do("drop", i, 0, 0) \/ Do("look", i, 0, s[i]))
Emit == PrintT("@E " \o ToJson([f |-> s, a |-> act', t |-> s']))
(* the layout every configuration must have: with storage of the given size and alignment at multiples of the stride, objects are
   aligned and do not overlap *)
Up(x, a) == ((x + a - 1) \div a) * a
Layout == \A size \in 1..40, a \in {1, 2, 4, 8, 16, 32, 64}, base \in 0..4 :
             LET stride == Up(size, a) at(i) == base * a + i * stride IN
             \A i \in 0..3 : at(i) % a = 0 /\ at(i) + size <= at(i + 1)
ASSUME Layout
====
