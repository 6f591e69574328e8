---- MODULE SharedTrace ----
(* Validates recorded histories of library objects: <<"call", op, s, t, name>>, the loader's calls <<"dlopen", name, handle>> (0: failed),
   <<"dlclose", handle>>, <<"dlsym", handle, name, address>>, and <<"ret", result, open flags>>; see SharedLibrary. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, own, live, call, skip
tvars == <<l, own, live, call, skip>>
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
S == 1..3
None == [s \in S |-> -1]
Idle == [op |-> "", s |-> 0, t |-> 0, name |-> "", opened |-> <<>>, syms |-> <<>>, closed |-> {}]
Init == l = 1 /\ own = None /\ live = {} /\ call = Idle /\ skip = FALSE
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> <<call.s, call.t, call.name>>, before |-> [own |-> own, live |-> ToString(live)]]))
Opening == {"open", "newopen"}
(* who may own what after the call *)
After ==
  LET s == call.s  t == call.t IN
  CASE call.op \in Opening -> [own EXCEPT ![s] = call.opened[1][2]]
    [] call.op \in {"new", "close"} -> [own EXCEPT ![s] = 0]
    [] call.op = "destroy" -> [own EXCEPT ![s] = -1]
    [] call.op = "movector" -> [own EXCEPT ![s] = own[t], ![t] = 0]
    [] call.op = "massign" -> IF s = t THEN own ELSE [own EXCEPT ![s] = own[t], ![t] = IF own[s] > 0 /\ own[s] \in live THEN own[s] ELSE 0]
    [] call.op = "swap" -> [own EXCEPT ![s] = own[t], ![t] = own[s]]
    [] OTHER -> own
Flags(o) == [s \in S |-> IF o[s] > 0 THEN 1 ELSE o[s]]
Why(e) ==
  IF call.op \in Opening /\ (Len(call.opened) # 1 \/ call.opened[1][1] # call.name) THEN "opens something else"
  ELSE IF call.op \notin Opening /\ call.opened # <<>> THEN "opens a library"
  ELSE IF call.op = "sym" /\ (Len(call.syms) # 1 \/ call.syms[1] # <<own[call.s], call.name, e[2]>>) THEN "looks up something else"
  ELSE IF call.op # "sym" /\ call.syms # <<>> THEN "looks up a symbol"
  ELSE IF live # {After[s] : s \in {x \in S : After[x] > 0}} THEN "libraries open and owned"
  ELSE IF [s \in S |-> e[3][s]] # Flags(After) THEN "reported as open"
  ELSE ""
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] = "reset" -> /\ (~skip /\ live # {} => Reject(e, "never closed"))
                            /\ own' = None /\ live' = {} /\ call' = Idle /\ skip' = FALSE
       [] e[1] # "reset" /\ skip -> UNCHANGED <<own, live, call, skip>>
       [] e[1] = "call" /\ ~skip -> call' = [Idle EXCEPT !.op = e[2], !.s = e[3], !.t = e[4], !.name = e[5]] /\ UNCHANGED <<own, live, skip>>
       [] e[1] = "dlopen" /\ ~skip -> /\ call' = [call EXCEPT !.opened = Append(@, <<e[2], e[3]>>)] /\ live' = (IF e[3] > 0 THEN live \cup {e[3]} ELSE live) /\ UNCHANGED <<own, skip>>
       [] e[1] = "dlsym" /\ ~skip -> /\ call' = [call EXCEPT !.syms = Append(@, <<e[2], e[3], e[4]>>)] /\ UNCHANGED <<own, live>>
                                     /\ (IF e[2] \in live THEN skip' = FALSE ELSE Reject(e, "uses a closed library") /\ skip' = TRUE)
       [] e[1] = "dlclose" /\ ~skip -> /\ live' = live \ {e[2]} /\ UNCHANGED <<own, call>>
                                       /\ (IF e[2] \in live THEN skip' = FALSE ELSE Reject(e, "closes what is not open") /\ skip' = TRUE)
       [] e[1] = "ret" /\ ~skip -> LET why == Why(e) IN
            /\ (IF why = "" THEN own' = After /\ skip' = FALSE ELSE Reject(e, why) /\ own' = own /\ skip' = TRUE)
            /\ call' = Idle /\ live' = live
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
