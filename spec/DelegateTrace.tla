---- MODULE DelegateTrace ----
(* Validates what delegates do to their targets.  Slots 1..3.
   <<"call", op, i, j, kind, value>>, micro events of the targets and their storage,
   <<"ret", exception, <<kind, value>> of slot 1, of slot 2, of slot 3>>.
   Kind 0: empty; kind 1: a function (no object); other kinds: an object whose lifetime is recorded. *)
EXTENDS Lifetime, TLC, Json, IOUtils
VARIABLES l, d, call, skip
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Idle == [op |-> "", i |-> 1, j |-> 1, k |-> 0, v |-> 0, thrown |-> FALSE]
Empty == <<0, 0>>
Fresh == [s \in 1..3 |-> Empty]
Init == l = 1 /\ d = Fresh /\ call = Idle /\ skip = FALSE /\ blk = NoBlocks /\ tmp = {}
RECURSIVE Sum(_)
Sum(B) == IF B = {} THEN 0 ELSE LET b == CHOOSE b \in B : TRUE IN Cardinality(blk[b].live) + Sum(B \ {b})
LiveObjects == Sum(DOMAIN blk) + Cardinality(tmp)
Objects(s) == Cardinality({x \in 1..3 : s[x][1] > 1})
(* ctor-like operations first destroy what the slot held *)
After(e) ==
  LET i == call.i  j == call.j IN
  IF e[2] = 1
  THEN IF call.op \in {"ctor", "ctorl", "copyctor"} THEN [d EXCEPT ![i] = Empty] ELSE d
  ELSE CASE call.op \in {"ctor", "ctorl", "assign", "assignl"} -> [d EXCEPT ![i] = <<call.k, call.v>>]
         [] call.op \in {"null", "default"} -> [d EXCEPT ![i] = Empty]
         [] call.op \in {"copyctor", "copyassign"} -> [d EXCEPT ![i] = d[j]]
         [] call.op \in {"movector", "moveassign"} -> IF i = j THEN d ELSE [d EXCEPT ![i] = d[j], ![j] = Empty]
         [] call.op = "swap" -> [d EXCEPT ![i] = d[j], ![j] = d[i]]
         [] call.op = "call" -> d
         [] call.op = "destroyall" -> Fresh
MayThrow == {"ctor", "ctorl", "assign", "assignl", "copyctor", "copyassign"}
Why(e) ==
  LET T == After(e) IN
  IF e[2] = 1 /\ (call.op \notin MayThrow \/ ~call.thrown) THEN "throws by itself"
  ELSE IF e[2] = 0 /\ call.thrown THEN "swallows an exception"
  ELSE IF e[3] # T[1] \/ e[4] # T[2] \/ e[5] # T[3] THEN "held target"
  ELSE IF LiveObjects # Objects(T) THEN "number of live targets"
  ELSE IF Cardinality(DOMAIN blk) > Objects(T) THEN "storage is not released"
  ELSE ""
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> <<call.i, call.j, call.k>>,
                                          before |-> [d |-> d, blk |-> ToString(blk), tmp |-> tmp]]))
Clear == d' = Fresh /\ call' = Idle /\ skip' = FALSE /\ blk' = NoBlocks /\ tmp' = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] \in {"reset", "quit"} ->
            /\ (~skip /\ ~AllReleased => Reject(e, "not released at the end of the history"))
            /\ Clear
       [] e[1] \notin {"reset", "quit"} /\ skip -> UNCHANGED <<d, call, skip, blk, tmp>>
       [] e[1] = "call" /\ ~skip ->
            call' = [Idle EXCEPT !.op = e[2], !.i = e[3], !.j = e[4], !.k = e[5], !.v = e[6]] /\ UNCHANGED <<d, skip, blk, tmp>>
       [] e[1] = "throw" /\ ~skip -> call' = [call EXCEPT !.thrown = TRUE] /\ UNCHANGED <<d, skip, blk, tmp>>
       [] e[1] = "ret" /\ ~skip ->
            LET why == Why(e) IN
            /\ (IF why = "" THEN skip' = FALSE ELSE Reject(e, why) /\ skip' = TRUE)
            /\ d' = After(e) /\ call' = Idle /\ UNCHANGED <<blk, tmp>>
       [] e[1] \in Micro /\ ~skip ->
            IF Legal(e) THEN blk' = BlkAfter(e) /\ tmp' = TmpAfter(e) /\ UNCHANGED <<d, call, skip>>
            ELSE Reject(e, "illegal " \o e[1]) /\ skip' = TRUE /\ UNCHANGED <<d, call, blk, tmp>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
