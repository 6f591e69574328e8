---- MODULE HeapTrace ----
(* Validates recorded executions of two heaps.  Each element is <<rank, identity>>; a greater rank goes first.
   <<"call", op, elements>> then <<"ret", layout of a, layout of b, front of a or <<>>>>. *)
EXTENDS Seqs, TLC, Json, IOUtils
VARIABLES l, a, b, front, call, skip     \* a, b: sets of elements (identities make them distinct)
tvars == <<l, a, b, front, call, skip>>
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Idle == [op |-> "", x |-> <<>>]
Init == l = 1 /\ a = {} /\ b = {} /\ front = <<>> /\ call = Idle /\ skip = FALSE

Expect ==
  LET X == Img(call.x) IN
  CASE call.op = "def" -> <<{}, b>>
    [] call.op \in {"iter", "list", "range", "urange", "input"} -> <<X, b>>
    [] call.op \in {"push", "pushl", "emplace"} -> <<a \cup X, b>>
    [] call.op = "pop" -> <<a \ {front}, b>>                  \* exactly the element that was at the front
    [] call.op = "copyctor" -> <<a, a>>
    [] call.op = "movector" -> <<{}, a>>
    [] call.op = "assign" -> <<b, b>>
    [] call.op = "massign" -> <<b, {}>>
    [] call.op = "swap" -> <<b, a>>
Layout(s, set) ==
  /\ Len(s) = Cardinality(set) /\ Img(s) = set
  /\ \A i \in 2..Len(s) : s[i \div 2][1] >= s[i][1]
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> call.x,
                                          before |-> [a |-> a, b |-> b, front |-> front]]))
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] \in {"reset", "quit"} -> a' = {} /\ b' = {} /\ front' = <<>> /\ call' = Idle /\ skip' = FALSE
       [] e[1] \notin {"reset", "quit"} /\ skip -> UNCHANGED <<a, b, front, call, skip>>
       [] e[1] = "call" /\ ~skip -> call' = [op |-> e[2], x |-> e[3]] /\ UNCHANGED <<a, b, front, skip>>
       [] e[1] = "ret" /\ ~skip ->
            LET T == Expect
                why == IF ~Layout(e[2], T[1]) THEN "contents or order of the heap"
                       ELSE IF ~Layout(e[3], T[2]) THEN "contents or order of the other heap"
                       ELSE IF T[1] = {} /\ e[4] # <<>> THEN "front of an empty heap"
                       ELSE IF T[1] # {} /\ (e[4] \notin T[1] \/ \E x \in T[1] : x[1] > e[4][1]) THEN "front is outranked"
                       ELSE ""
            IN /\ IF why = "" THEN skip' = FALSE ELSE Reject(e, why) /\ skip' = TRUE
               /\ a' = Img(e[2]) /\ b' = Img(e[3]) /\ front' = e[4] /\ call' = Idle
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
