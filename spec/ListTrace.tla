---- MODULE ListTrace ----
(* Validates recorded executions of the linked list: element and memory events between calls, and at each return the
   nodes of both lists: <<"ret", exception, position, <<<<block, value>>, ...>>, ...>>. *)
EXTENDS ListOps, Lifetime, TLC, Json, IOUtils
CONSTANTS Values, Life, Faults
VARIABLES l, S, nodes, call, skip
tvars == <<l, S, nodes, call, skip, blk, tmp>>
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Empty == [a |-> <<>>, b |-> <<>>]
Idle == [op |-> "", x |-> <<>>, thrown |-> FALSE]
Init == l = 1 /\ S = Empty /\ nodes = Empty /\ call = Idle /\ skip = FALSE /\ blk = NoBlocks /\ tmp = {}

Vals(p) == [i \in 1..Len(p) |-> p[i][2]]
Blks(p) == [i \in 1..Len(p) |-> p[i][1]]
LifeOK(e) ==
  LET all == Blks(e[4]) \o Blks(e[5]) IN
  /\ Cardinality(Img(all)) = Len(all)                     \* every node is in one place of one list
  /\ DOMAIN blk = Img(all)                                \* and no other node exists
  /\ \A b \in DOMAIN blk : blk[b].n = 1 /\ blk[b].live = {0}
ValuesOK(e, T) == e[3] = T.r /\ Vals(e[4]) = T.a /\ Vals(e[5]) = T.b
FaultOK(e) ==
  IF e[2] = 1
  THEN call.thrown /\ call.op \notin NoThrow /\ AfterFailure(S, call.op, call.x, Vals(e[4])) /\ Vals(e[5]) = S.b
  ELSE ~call.thrown /\ ValuesOK(e, L(S, call.op, call.x))
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> call.x,
                                          before |-> S, blk |-> ToString(blk)]))
Micros(e) ==
  IF Life /\ ~Legal(e)
  THEN Reject(e, "illegal " \o e[1]) /\ skip' = TRUE /\ UNCHANGED <<S, nodes, call, blk, tmp>>
  ELSE /\ (IF Legal(e) THEN blk' = BlkAfter(e) /\ tmp' = TmpAfter(e) ELSE UNCHANGED <<blk, tmp>>)
       /\ UNCHANGED <<S, nodes, call, skip>>
Ret(e) ==
  LET why == IF Life /\ ~LifeOK(e) THEN "nodes and live objects"
             ELSE IF Values /\ e[2] = 0 /\ ~ValuesOK(e, L(S, call.op, call.x)) THEN "contents"
             ELSE IF Values /\ e[2] = 1 /\ ~Faults THEN "exception"
             ELSE IF Faults /\ ~FaultOK(e) THEN "exception guarantee"
             ELSE ""
  IN /\ IF why = "" THEN skip' = FALSE ELSE Reject(e, why) /\ skip' = TRUE
     /\ S' = [a |-> Vals(e[4]), b |-> Vals(e[5])]
     /\ nodes' = [a |-> Blks(e[4]), b |-> Blks(e[5])]
     /\ call' = Idle /\ UNCHANGED <<blk, tmp>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] \in {"reset", "quit"} ->
            /\ (Life /\ ~skip /\ ~AllReleased => Reject(e, "not released at the end of the history"))
            /\ S' = Empty /\ nodes' = Empty /\ call' = Idle /\ skip' = FALSE /\ blk' = NoBlocks /\ tmp' = {}
       [] e[1] # "reset" /\ skip -> UNCHANGED <<S, nodes, call, skip, blk, tmp>>
       [] e[1] = "call" /\ ~skip -> call' = [Idle EXCEPT !.op = e[2], !.x = e[3]] /\ UNCHANGED <<S, nodes, skip, blk, tmp>>
       [] e[1] = "throw" /\ ~skip -> call' = [call EXCEPT !.thrown = TRUE] /\ UNCHANGED <<S, nodes, skip, blk, tmp>>
       [] e[1] = "ret" /\ ~skip -> Ret(e)
       [] e[1] \in Micro /\ ~skip -> Micros(e)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
