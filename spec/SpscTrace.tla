---- MODULE SpscTrace ----
(* Validates executions of the real queue recorded under a scheduler that controls every interleaving and every value an
   atomic load returns (harness/mm.cpp).  Thread 1 produces, thread 2 consumes, thread 0 runs before the fork and after
   the join.  Events:
     <<"reset", N>>  <<"fork">>  <<"join">>  <<"stuck", t>>
     <<"call", t, op, v>>, <<"ret", t, result>>          op: push, take, rav (read_available), wav (write_available)
     <<"ald", t, x, cell, ts, acquire>>                  t loads store number ts of atomic x
     <<"ast", t, x, cell, ts, release>>  <<"rmw", t, x, cell, ts, release, acquire>>  <<"fence", t, acquire, release>>
     <<"r", t, cell>> <<"w", t, cell>>                   plain accesses to the queue's memory
   The clocks are those of SPSC: clk[t][u] is what t knows of u.  Fifo, Race, Avail select C08, C09, C10. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Fifo, Race, Avail
VARIABLES l, N,
  clk, msg, pend, rfence, \* vector clocks; clocks of release stores; what relaxed loads saw; release fences
  lastrel,                \* epoch of the last release of each thread
  wr, rd, aw,             \* per cell: last plain write <<t, epoch>>, plain reads and atomic writes <<epoch1, epoch2>>
  acc, got,               \* accepted and taken values
  pushed, taken,          \* epochs that tell when a push / a take is known to the other thread
  cur,                    \* cur[t]: the call of t in progress
  promise,                \* pushes that write_available promised
  skip
tvars == <<l, N, clk, msg, pend, rfence, lastrel, wr, rd, aw, acc, got, pushed, taken, cur, promise, skip>>
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

Z == <<0, 0>>
None == [op |-> "", v |-> 0]
NoFun == [x \in {} |-> 0]
Join(a, b) == <<IF a[1] > b[1] THEN a[1] ELSE b[1], IF a[2] > b[2] THEN a[2] ELSE b[2]>>
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Oth(t) == 3 - t
Fresh == /\ clk' = <<<<1, 0>>, <<0, 1>>>> /\ msg' = NoFun /\ pend' = <<Z, Z>> /\ rfence' = <<Z, Z>> /\ lastrel' = Z
         /\ wr' = NoFun /\ rd' = NoFun /\ aw' = NoFun
         /\ acc' = <<>> /\ got' = <<>> /\ pushed' = <<>> /\ taken' = <<>> /\ cur' = <<None, None, None>>
         /\ promise' = 0
Init == /\ l = 1 /\ N = 0 /\ clk = <<<<1, 0>>, <<0, 1>>>> /\ msg = NoFun /\ pend = <<Z, Z>> /\ rfence = <<Z, Z>> /\ lastrel = Z
        /\ wr = NoFun /\ rd = NoFun /\ aw = NoFun
        /\ acc = <<>> /\ got = <<>> /\ pushed = <<>> /\ taken = <<>> /\ cur = <<None, None, None>>
        /\ promise = 0 /\ skip = FALSE
mem == <<clk, msg, pend, rfence, lastrel, wr, rd, aw>>
api == <<acc, got, pushed, taken, cur, promise>>
Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> cur,
                                          before |-> [accepted |-> acc, taken |-> got, clocks |-> clk]]))
C(t) == t + 1            \* index of thread t in cur (thread 0 included)

(* ---- memory ---- *)
Conflict(t, c, write) ==
  LET u == Oth(t)  k == clk[t][u] IN
  \/ (c \in DOMAIN wr /\ wr[c][u] > k)
  \/ (c \in DOMAIN aw /\ aw[c][u] > k)
  \/ (write /\ c \in DOMAIN rd /\ rd[c][u] > k)
ConflictAtomic(t, c) == LET u == Oth(t) IN c \in DOMAIN wr /\ wr[c][u] > clk[t][u]
Mem(e) ==
  LET k == e[1]  t == e[2]  own == clk[t][t] IN
  CASE k = "r" ->
         /\ rd' = Put(rd, e[3], [Get(rd, e[3], Z) EXCEPT ![t] = own])
         /\ UNCHANGED <<clk, msg, pend, rfence, lastrel, wr, aw>>
    [] k = "w" ->
         /\ wr' = Put(wr, e[3], [Get(wr, e[3], Z) EXCEPT ![t] = own])
         /\ UNCHANGED <<clk, msg, pend, rfence, lastrel, rd, aw>>
    [] k = "ald" ->
         LET m == Get(msg, <<e[3], e[5]>>, Z) IN
         /\ (IF e[6] = 1 THEN clk' = [clk EXCEPT ![t] = Join(@, m)] /\ UNCHANGED pend
             ELSE pend' = [pend EXCEPT ![t] = Join(@, m)] /\ UNCHANGED clk)
         /\ UNCHANGED <<msg, rfence, lastrel, wr, rd, aw>>
    [] k = "ast" ->
         /\ msg' = Put(msg, <<e[3], e[5]>>, IF e[6] = 1 THEN clk[t] ELSE rfence[t])
         /\ clk' = (IF e[6] = 1 THEN [clk EXCEPT ![t][t] = @ + 1] ELSE clk)
         /\ lastrel' = [lastrel EXCEPT ![t] = IF e[6] = 1 THEN own ELSE IF rfence[t] # Z THEN rfence[t][t] ELSE @]
         /\ aw' = Put(aw, e[4], [Get(aw, e[4], Z) EXCEPT ![t] = own])
         /\ UNCHANGED <<pend, rfence, wr, rd>>
    [] k = "rmw" ->
         LET m == Get(msg, <<e[3], e[5] - 1>>, Z)
             c1 == IF e[7] = 1 THEN Join(clk[t], m) ELSE clk[t] IN
         /\ msg' = Put(msg, <<e[3], e[5]>>, Join(m, IF e[6] = 1 THEN c1 ELSE rfence[t]))
         /\ clk' = [clk EXCEPT ![t] = IF e[6] = 1 THEN [c1 EXCEPT ![t] = @ + 1] ELSE c1]
         /\ pend' = (IF e[7] = 1 THEN pend ELSE [pend EXCEPT ![t] = Join(@, m)])
         /\ lastrel' = (IF e[6] = 1 THEN [lastrel EXCEPT ![t] = own] ELSE lastrel)
         /\ aw' = Put(aw, e[4], [Get(aw, e[4], Z) EXCEPT ![t] = own])
         /\ UNCHANGED <<rfence, wr, rd>>
    [] k = "fence" ->
         LET c1 == IF e[3] = 1 THEN Join(clk[t], pend[t]) ELSE clk[t] IN
         /\ rfence' = (IF e[4] = 1 THEN [rfence EXCEPT ![t] = c1] ELSE rfence)
         /\ clk' = [clk EXCEPT ![t] = IF e[4] = 1 THEN [c1 EXCEPT ![t] = @ + 1] ELSE c1]
         /\ UNCHANGED <<msg, pend, lastrel, wr, rd, aw>>
Racy(e) ==
  CASE e[1] = "r" -> Conflict(e[2], e[3], FALSE)
    [] e[1] = "w" -> Conflict(e[2], e[3], TRUE)
    [] e[1] \in {"ald", "ast", "rmw"} -> ConflictAtomic(e[2], e[4])
    [] OTHER -> FALSE

(* ---- calls ---- *)
(* How many of the accepted pushes (takes) thread t knows of; thread 0 knows everything. *)
Known(t, ep, u) == IF t # u /\ t # 0 THEN Cardinality({i \in 1..Len(ep) : ep[i] <= clk[t][u]}) ELSE Len(ep)
(* The epoch that tells the other thread that the call that returns now took effect. *)
Told(t) == IF t = 0 THEN 0 ELSE IF lastrel[t] > 0 /\ lastrel[t] = clk[t][t] - 1 THEN lastrel[t] ELSE clk[t][t]
InFlight == {u \in {1, 2} : cur[C(u)].op = "push"}
Taking == {u \in {1, 2} : cur[C(u)].op = "take"}
MayHold == acc \o (IF cur[C(1)].op = "push" THEN <<cur[C(1)].v>> ELSE <<>>)   \* a push in progress may already be visible
RetOK(e) ==
  LET t == e[2]  q == cur[C(t)]  r == e[3] IN
  CASE q.op = "take" -> (~Fifo) \/ (Len(got) < Len(MayHold) /\ (r = MayHold[Len(got) + 1] \/ r = -1))
    [] q.op = "push" -> r \in {0, 1} /\
         (~Avail \/ (IF r = 0 THEN promise = 0 /\ Len(acc) - Known(t, taken, 2) >= N - 1
                     ELSE Len(acc) - Len(got) - Cardinality(Taking \ {t}) < N - 1))
    [] q.op = "rav" -> ~Avail \/
         (/\ r >= 0 /\ r <= Len(MayHold) - Len(got)
          /\ (InFlight = {} /\ Known(t, pushed, 1) = Len(acc) => r = Len(acc) - Len(got)))
    [] q.op = "wav" -> ~Avail \/
         (/\ r >= 0 /\ r <= N - 1 - (Len(acc) - Len(got) - Cardinality(Taking))
          /\ (Taking = {} /\ Known(t, taken, 2) = Len(got) => r = N - 1 - (Len(acc) - Len(got))))
Ret(e) ==
  LET t == e[2]  q == cur[C(t)]  r == e[3] IN
  /\ (IF q.op = "push" /\ r = 1 THEN acc' = Append(acc, q.v) /\ pushed' = Append(pushed, Told(t))
      ELSE UNCHANGED <<acc, pushed>>)
  /\ (IF q.op = "take" THEN got' = Append(got, r) /\ taken' = Append(taken, Told(t)) ELSE UNCHANGED <<got, taken>>)
  /\ promise' = (CASE q.op = "wav" -> r [] q.op = "push" /\ r = 1 /\ promise > 0 -> promise - 1 [] OTHER -> promise)
  /\ cur' = [cur EXCEPT ![C(t)] = None]
FinalOK == ~Fifo \/ (Len(got) <= Len(acc) /\ \A i \in 1..Len(got) : got[i] \in {acc[i], -1})

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] = "reset" -> (~skip /\ ~FinalOK => Reject(e, "elements at the end")) /\ N' = e[2] /\ Fresh /\ skip' = FALSE
       [] e[1] # "reset" /\ skip -> UNCHANGED <<N, mem, api, skip>>
       [] e[1] = "quit" /\ ~skip -> (~FinalOK => Reject(e, "elements at the end")) /\ UNCHANGED <<N, mem, api, skip>>
       [] e[1] \in {"fork", "join"} /\ ~skip -> UNCHANGED <<N, mem, api, skip>>
       [] e[1] = "stuck" /\ ~skip -> Reject(e, "the call does not return") /\ skip' = TRUE /\ UNCHANGED <<N, mem, api>>
       [] e[1] = "call" /\ ~skip -> cur' = [cur EXCEPT ![C(e[2])] = [op |-> e[3], v |-> e[4]]]
                                    /\ UNCHANGED <<N, mem, acc, got, pushed, taken, promise, skip>>
       [] e[1] = "ret" /\ ~skip ->
            /\ (IF RetOK(e) THEN skip' = FALSE ELSE Reject(e, "result of the call") /\ skip' = TRUE)
            /\ Ret(e) /\ UNCHANGED <<N, mem>>
       [] e[1] \in {"r", "w", "ald", "ast", "rmw", "fence"} /\ ~skip ->
            /\ (IF (Race \/ Fifo) /\ Racy(e) THEN Reject(e, "unordered accesses") /\ skip' = TRUE ELSE skip' = FALSE)
            /\ Mem(e) /\ UNCHANGED <<N, api>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
