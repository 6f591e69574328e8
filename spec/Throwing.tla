---- MODULE Throwing ----
(* Exceptions of elements and callables reach the caller, and what may throw is not declared not to.
     kinds   for each part: nothing it does may throw ("none"), only what the operation needs of it may ("only"), or anything but that ("others")
     at      the part whose operation throws, 0: none
   Parts are numbered; the destination's part i has the value i, the source's the value 10 + i, and 0 is what a moved-from part has. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES op, kinds, at
vars == <<op, kinds, at>>
Assign == {"copy", "move", "assign", "like", "likemove"}
Swap == {"swap", "freeswap"}
Make == {"make", "makemove", "bind", "bindmove", "back", "backmove"}
Call == {"apply", "applymove", "applyconst", "call", "callconst", "callmove", "callconstmove", "callback", "backconst", "backcallmove", "backconstmove", "delegate"}
Algo == {"find", "findrange", "reverse", "reverserange"}
Parts(o) == IF o \in Call THEN {1} ELSE IF o \in Algo THEN {1} ELSE 1..3
May(k) == k = "only"
Init == /\ op \in Assign \cup Swap \cup Make \cup Call \cup Algo
        /\ kinds \in UNION {[1..n -> {"none", "only", "others"}] : n \in Parts(op)}
        /\ at \in {0} \cup {i \in DOMAIN kinds : May(kinds[i])}
Next == UNCHANGED vars
Throws == \E i \in DOMAIN kinds : May(kinds[i])
(* what the language guarantees by default has to be exact: containers choose moves by it *)
Exact == op \in {"copy", "move", "swap", "freeswap"} \cup (Call \ {"delegate"})
Moves == op \in {"move", "likemove", "makemove", "bindmove", "backmove"}
Old(i) == i
New(i) == 10 + i
(* each part has been dealt with or not, but the one that threw has not; without an exception all have *)
Dest(i) == IF op \in Make \cup Call \cup Algo THEN {} ELSE IF at = 0 THEN {New(i)} ELSE IF at = i THEN {Old(i)} ELSE {Old(i), New(i)}
Source(i) == LET done == IF op \in Swap THEN Old(i) ELSE IF Moves THEN 0 ELSE New(i) IN
             IF at = 0 THEN {done} ELSE IF at = i THEN {New(i)} ELSE {New(i), done}
Laws == at # 0 => Throws
Emit == PrintT("@E " \o ToJson([op |-> op, kinds |-> kinds, at |-> at, noexcept |-> IF Throws THEN {FALSE} ELSE IF Exact THEN {TRUE} ELSE {TRUE, FALSE},
          threw |-> at # 0, dest |-> [i \in DOMAIN kinds |-> Dest(i)], source |-> [i \in DOMAIN kinds |-> Source(i)]]))
====
