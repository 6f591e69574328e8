---- MODULE SpscLife ----
(* Validates lifetimes in the queue.  <<"call", op, value>>, element and memory events,
   <<"ret", exception, result, read_available, write_available>>; "new" constructs the queue of capacity N,
   "delete" destroys it.  The storage of a fixed-capacity queue (the queue itself) is a block of its own. *)
EXTENDS Lifetime, TLC, Json, IOUtils
VARIABLES l, N, alive, q, call, skip
tvars == <<l, N, alive, q, call, skip, blk, tmp>>
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Idle == [op |-> "", v |-> 0, thrown |-> FALSE]
Init == l = 1 /\ N = 0 /\ alive = FALSE /\ q = <<>> /\ call = Idle /\ skip = FALSE /\ blk = NoBlocks /\ tmp = {}
RECURSIVE Sum(_)
Sum(D) == IF D = {} THEN 0 ELSE LET b == CHOOSE b \in D : TRUE IN Cardinality(blk[b].live) + Sum(D \ {b})
LiveCells == Sum(DOMAIN blk)
Taken == Len(q) > 0
(* what the sequence of elements must be after the call, or <<-1>> if it must not return like this *)
After(e) ==
  IF e[2] = 1                                    \* an exception
  THEN IF ~call.thrown THEN <<-1>>
       ELSE IF call.op = "consume" THEN (IF LiveCells = Len(q) THEN q ELSE Tail(q))   \* the function threw: kept or taken
       ELSE q                                    \* a failed push leaves nothing
  ELSE CASE call.op = "new" -> <<>>
         [] call.op = "delete" -> <<>>
         [] call.op \in {"push", "pushl", "emplace"} ->
              IF call.thrown THEN <<-1>> ELSE IF e[3] = 1 THEN Append(q, call.v) ELSE IF e[3] = 0 THEN q ELSE <<-1>>
         [] call.op \in {"pop", "consume", "peekpop"} -> IF q = <<>> THEN <<-1>> ELSE Tail(q)
Why(e) ==
  LET T == After(e)  on == IF call.op = "new" THEN e[2] = 0 ELSE IF call.op = "delete" THEN FALSE ELSE alive IN
  IF T = <<-1>> THEN "result of the call"
  ELSE IF tmp # {} THEN "an object lives outside of the queue"
  ELSE IF on /\ LiveCells # Len(T) THEN "number of live elements"
  ELSE IF ~on /\ DOMAIN blk # {} THEN "storage is not released"
  ELSE IF on /\ (e[4] # Len(T) \/ e[5] # N - 1 - Len(T)) THEN "availability"
  ELSE IF call.op \in {"push", "pushl", "emplace"} /\ e[2] = 0 /\ e[3] = 0 /\ Len(q) < N - 1 THEN "refused although not full"
  ELSE ""
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> call.v,
                                          before |-> [q |-> q, blk |-> ToString(blk), tmp |-> tmp]]))
Clear == N' = 0 /\ alive' = FALSE /\ q' = <<>> /\ call' = Idle /\ skip' = FALSE /\ blk' = NoBlocks /\ tmp' = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] \in {"reset", "quit"} ->
            /\ (~skip /\ ~AllReleased => Reject(e, "not released at the end of the history"))
            /\ Clear
       [] e[1] \notin {"reset", "quit"} /\ skip -> UNCHANGED <<N, alive, q, call, skip, blk, tmp>>
       [] e[1] = "call" /\ ~skip ->
            /\ call' = [Idle EXCEPT !.op = e[2], !.v = e[3]]
            /\ N' = IF e[2] = "new" THEN e[3] ELSE N
            /\ UNCHANGED <<alive, q, skip, blk, tmp>>
       [] e[1] = "throw" /\ ~skip -> call' = [call EXCEPT !.thrown = TRUE] /\ UNCHANGED <<N, alive, q, skip, blk, tmp>>
       [] e[1] = "ret" /\ ~skip ->
            LET why == Why(e) IN
            /\ (IF why = "" THEN skip' = FALSE ELSE Reject(e, why) /\ skip' = TRUE)
            /\ q' = After(e)
            /\ alive' = (IF call.op = "new" THEN e[2] = 0 ELSE IF call.op = "delete" THEN FALSE ELSE alive)
            /\ call' = Idle /\ UNCHANGED <<N, blk, tmp>>
       [] e[1] \in Micro /\ ~skip ->
            IF Legal(e) THEN blk' = BlkAfter(e) /\ tmp' = TmpAfter(e) /\ UNCHANGED <<N, alive, q, call, skip>>
            ELSE Reject(e, "illegal " \o e[1]) /\ skip' = TRUE /\ UNCHANGED <<N, alive, q, call, blk, tmp>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
