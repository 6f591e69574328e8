---- MODULE Uninit ----
(* Construction in raw memory and destruction, one element at a time.
   copy: in elements into room for no; fill: no elements; destroy: no elements; the f-th construction throws (f = 0: none). *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS K
VARIABLES op, ni, no, f, i, live, phase
vars == <<op, ni, no, f, i, live, phase>>
Min(a, b) == IF a < b THEN a ELSE b
Todo == IF op = "copy" THEN Min(ni, no) ELSE no
Build == op \in {"copy", "fill"}
Init == /\ op \in {"copy", "fill", "destroy"} /\ no \in 0..K /\ ni \in (IF op = "copy" THEN 0..K ELSE {0})
        /\ f \in (IF op = "destroy" THEN {0} ELSE 0..Todo) /\ i = 0
        /\ live = (IF op = "destroy" THEN 1..no ELSE {}) /\ phase = "run"
Step == /\ phase = "run" /\ i < Todo
        /\ IF Build /\ i + 1 = f THEN phase' = "back" /\ UNCHANGED <<i, live>>
           ELSE i' = i + 1 /\ live' = (IF Build THEN live \cup {i + 1} ELSE live \ {i + 1}) /\ UNCHANGED phase
        /\ UNCHANGED <<op, ni, no, f>>
Back == /\ phase = "back" /\ live # {} /\ \E k \in live : live' = live \ {k} /\ UNCHANGED <<op, ni, no, f, i, phase>>
End == /\ (phase = "run" /\ i = Todo) \/ (phase = "back" /\ live = {})
       /\ phase' = (IF phase = "run" THEN "returned" ELSE "thrown") /\ UNCHANGED <<op, ni, no, f, i, live>>
Next == Step \/ Back \/ End
AllOrNothing == /\ phase = "returned" => live = (IF Build THEN 1..Todo ELSE {})
                /\ phase = "thrown" => live = {} /\ f > 0
Emit == (phase' \in {"returned", "thrown"}) => PrintT("@E " \o ToJson([op |-> op, ni |-> ni, no |-> no, f |-> f, thrown |-> phase' = "thrown"]))
====
