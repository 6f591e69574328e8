---- MODULE ConstTrace ----
(* The constants the library gives, judged by the values computed here.  Records: n the name, p the precision of the type in
   bits, s and m the number. *)
EXTENDS Constants, Json, IOUtils
CONSTANT Part                                \* the names to judge; each has at least one record
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, c
Init == \E t \in {Trace} : \E k \in Part : n = k /\ c = [v |-> Value(k), t |-> SelectSeq(t, LAMBDA r : r.n = k)]
Next == FALSE /\ UNCHANGED <<n, c>>
Known == n \in Names /\ Len(c.t) >= 1
Lawful == Law(n, c.v)
(* within one unit of the last place *)
Accurate == \A i \in 1..Len(c.t) : LET r == c.t[i] IN Close(Num(r.s, r.m), c.v, c.v, r.p - 1)
====
