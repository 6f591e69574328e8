---- MODULE UninitTrace ----
(* Validates recorded executions of the functions that construct in raw memory and destroy.
     <<"call", op, [src, dst, all, fault]>>  src: the cells <<block, cell>> of the input, in order (empty for fill and destroy); dst: the cells
       of the target range, in order, each a sequence of cells (an element that is an array has several); fault: which
       construction throws, 0 if none
     element events, <<"throw">>, and
     <<"ret", exception, input position, output position, constructions and destructions not made by the allocator, values>>
       where values are those of the target cells (any number where nothing lives); the input's values are 1, 2, .. and fill's value is 5 *)
EXTENDS Lifetime, TLC, Json, IOUtils
VARIABLES l, call, skip, at, made, before
tvars == <<l, call, skip, at, made, before, blk, tmp>>
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Idle == [op |-> "", src |-> <<>>, dst |-> <<>>, thrown |-> FALSE]
Init == l = 1 /\ call = Idle /\ skip = FALSE /\ at = 0 /\ made = {} /\ before = NoBlocks /\ blk = NoBlocks /\ tmp = {}
Cells == UNION {{call.dst[i][j] : j \in 1..Len(call.dst[i])} : i \in 1..Len(call.dst)}
Build == call.op \in {"copy", "fill"}
Min(a, b) == IF a < b THEN a ELSE b
Todo == IF call.op = "copy" THEN Min(Len(call.src), Len(call.dst)) ELSE Len(call.dst)
Lives(c, B) == c[1] \in DOMAIN B /\ c[2] \in B[c[1]].live
(* the memory as it must be at the end: exactly the cells of C live or dead as given, everything else as before *)
Rest(C) == \A b \in DOMAIN blk : b \in DOMAIN before /\ \A i \in 0..blk[b].n - 1 : <<b, i>> \notin C => (i \in blk[b].live <=> i \in before[b].live)
Value(i) == IF call.op = "fill" THEN 5 ELSE i
(* an event inside the call *)
EventOK(e) ==
  CASE e[1] \in {"ctor", "copy", "move"} /\ e[2] # 0 -> /\ Build /\ ~call.thrown /\ at < Todo
                                                       /\ <<e[2], e[3]>> = call.dst[at + 1][1]      \* in order
                                                       /\ (e[1] = "copy" /\ call.op = "copy" /\ e[4] # 0 => <<e[4], e[5]>> = call.src[at + 1])
    [] e[1] = "dtor" /\ e[2] # 0 -> IF Build THEN call.thrown /\ <<e[2], e[3]>> \in made ELSE <<e[2], e[3]>> \in Cells
    [] e[1] \in {"alloc", "dealloc", "asg", "masg"} -> FALSE
    [] OTHER -> TRUE
Why(e) ==
  IF tmp # {} THEN "an object is left outside of the memory"
  ELSE IF e[5] # 0 THEN "not through the allocator"
  ELSE IF DOMAIN blk # DOMAIN before THEN "memory"
  ELSE IF ~Rest(Cells) THEN "another element changed"
  ELSE IF e[2] = 1 THEN IF ~call.thrown THEN "exception out of nothing" ELSE IF \E c \in Cells : Lives(c, blk) THEN "constructed elements are left" ELSE ""
  ELSE IF call.thrown THEN "the exception is lost"
  ELSE IF ~Build THEN IF \E c \in Cells : Lives(c, blk) THEN "elements are left" ELSE ""
  ELSE IF \E i \in 1..Len(call.dst) : Lives(call.dst[i][1], blk) # (i <= Todo) THEN "constructed elements"
  ELSE IF \E i \in 1..Todo : e[6][i] # Value(i) THEN "values"
  ELSE IF e[4] # Todo \/ (call.op = "copy" /\ e[3] # Todo) THEN "returned positions"
  ELSE ""
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> [src |-> call.src, dst |-> call.dst], before |-> ToString(before)]))
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] \in {"reset", "quit"} ->
            call' = Idle /\ skip' = FALSE /\ at' = 0 /\ made' = {} /\ before' = NoBlocks /\ blk' = NoBlocks /\ tmp' = {}
       [] e[1] \notin {"reset", "quit"} /\ skip -> UNCHANGED <<call, skip, at, made, before, blk, tmp>>
       [] e[1] = "call" /\ ~skip -> /\ call' = [op |-> e[2], src |-> e[3], dst |-> e[4], thrown |-> FALSE] /\ at' = 0 /\ made' = {} /\ before' = blk
                                    /\ UNCHANGED <<skip, blk, tmp>>
       [] e[1] = "throw" /\ ~skip -> call' = [call EXCEPT !.thrown = TRUE] /\ UNCHANGED <<skip, at, made, before, blk, tmp>>
       [] e[1] = "ret" /\ ~skip ->
            LET why == Why(e) IN
            /\ (IF why = "" THEN skip' = FALSE ELSE Reject(e, why) /\ skip' = TRUE)
            /\ call' = Idle /\ UNCHANGED <<at, made, before, blk, tmp>>
       [] e[1] \in Micro /\ ~skip ->
            LET new == e[1] \in {"ctor", "copy", "move"} /\ e[2] # 0 IN
            IF ~Legal(e) \/ (call.op # "" /\ ~EventOK(e))
            THEN /\ Reject(e, (IF Legal(e) THEN "misplaced " ELSE "illegal ") \o e[1]) /\ skip' = TRUE /\ UNCHANGED <<call, at, made, before, blk, tmp>>
            ELSE /\ blk' = BlkAfter(e) /\ tmp' = TmpAfter(e)
                 /\ at' = (IF new THEN at + 1 ELSE at) /\ made' = (IF new THEN made \cup {<<e[2], e[3]>>} ELSE IF e[1] = "dtor" THEN made \ {<<e[2], e[3]>>} ELSE made)
                 /\ UNCHANGED <<call, skip, before>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
