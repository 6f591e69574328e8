---- MODULE SPSC ----
(* Design of the single-producer single-consumer queue under release/acquire memory.
   The queue is a ring of N slots with a write index (stored by the producer only) and a read index (stored by the
   consumer only).  Every atomic load and store is one action.  An atomic location is its history of stores; a load may
   return any store not older than one the thread already knows of.  A release store carries the clock of its thread,
   an acquire load joins it, and two accesses of one slot by different threads must be ordered by these clocks.
   Orders: the memory orders of the four relevant accesses, so that the check can be repeated with weaker ones.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS N, Pushes, Takes, WRel, WAcq, RRel, RAcq
Thr == {"p", "c"}
VARIABLES
  hist,      \* hist[x]: stores of index x, each [val, clk]; x in {"w","r"}
  seen,      \* seen[t][x]: newest store of x that t knows of
  clk,       \* clk[t][u]: the part of u's history that t knows of
  slot,      \* slot[i]: value, or 0 if raw
  last,      \* last[i][t]: clock of t at its last access to slot i
  pc, tmp,   \* program counters and local index values
  sent, got, \* accepted and taken values
  todo,      \* calls left
  race, refused
vars == <<hist, seen, clk, slot, last, pc, tmp, sent, got, todo, race, refused>>

Zero == [t \in Thr |-> 0]
Join(a, b) == [t \in Thr |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Init ==
  /\ hist = [x \in {"w", "r"} |-> <<[val |-> 0, clk |-> Zero]>>]
  /\ seen = [t \in Thr |-> [x \in {"w", "r"} |-> 1]]
  /\ clk = [t \in Thr |-> [Zero EXCEPT ![t] = 1]]
  /\ slot = [i \in 0..(N-1) |-> 0]
  /\ last = [i \in 0..(N-1) |-> Zero]
  /\ pc = [t \in Thr |-> "idle"] /\ tmp = [t \in Thr |-> 0]
  /\ sent = <<>> /\ got = <<>> /\ todo = [p |-> Pushes, c |-> Takes]
  /\ race = FALSE /\ refused = FALSE

Other(t) == IF t = "p" THEN "c" ELSE "p"
Own(x) == hist[x][Len(hist[x])].val                   \* a thread's own index: it is the only writer
Load(t, x, acq, k) ==                                 \* t reads the k-th store of x
  /\ k \in seen[t][x]..Len(hist[x])
  /\ seen' = [seen EXCEPT ![t][x] = k]
  /\ clk' = IF acq THEN [clk EXCEPT ![t] = Join(@, hist[x][k].clk)] ELSE clk
Store(t, x, v, rel) ==
  /\ hist' = [hist EXCEPT ![x] = Append(@, [val |-> v, clk |-> IF rel THEN clk[t] ELSE Zero])]
  /\ seen' = [seen EXCEPT ![t][x] = Len(hist[x]) + 1]
  /\ clk' = IF rel THEN [clk EXCEPT ![t][t] = @ + 1] ELSE clk
Touch(t, i) ==                                        \* a plain access of t to slot i
  /\ race' = (race \/ last[i][Other(t)] > clk[t][Other(t)])
  /\ last' = [last EXCEPT ![i][t] = clk[t][t]]
Nxt(i) == (i + 1) % N

(* push: load r; refuse or construct; store w *)
PLoad == /\ pc.p = "idle" /\ todo.p > 0
         /\ \E k \in 1..Len(hist["r"]) :
              /\ Load("p", "r", RAcq, k)
              /\ IF Nxt(Own("w")) = hist["r"][k].val
                 THEN \* refused: allowed only if N-1 accepted elements are not known to be taken out
                      /\ refused' = (refused \/ Len(sent) - (k - 1) < N - 1)
                      /\ pc' = pc /\ todo' = [todo EXCEPT !.p = @ - 1]
                 ELSE pc' = [pc EXCEPT !.p = "make"] /\ UNCHANGED <<todo, refused>>
         /\ UNCHANGED <<hist, slot, last, tmp, sent, got, race>>
PMake == /\ pc.p = "make"
         /\ Touch("p", Own("w")) /\ slot' = [slot EXCEPT ![Own("w")] = Len(sent) + 1]
         /\ pc' = [pc EXCEPT !.p = "publish"]
         /\ UNCHANGED <<hist, seen, clk, tmp, sent, got, todo, refused>>
PPublish == /\ pc.p = "publish"
            /\ Store("p", "w", Nxt(Own("w")), WRel)
            /\ sent' = Append(sent, slot[Own("w")])
            /\ pc' = [pc EXCEPT !.p = "idle"] /\ todo' = [todo EXCEPT !.p = @ - 1]
            /\ UNCHANGED <<slot, last, tmp, got, race, refused>>
(* take: read_available (load w); move the element out and destroy it; store r *)
CLoad == /\ pc.c = "idle" /\ todo.c > 0
         /\ \E k \in 1..Len(hist["w"]) :
              /\ Load("c", "w", WAcq, k)
              /\ IF hist["w"][k].val = Own("r") THEN pc' = pc /\ todo' = [todo EXCEPT !.c = @ - 1]
                 ELSE pc' = [pc EXCEPT !.c = "take"] /\ UNCHANGED todo
         /\ UNCHANGED <<hist, slot, last, tmp, sent, got, race, refused>>
CTake == /\ pc.c = "take"
         /\ Touch("c", Own("r")) /\ got' = Append(got, slot[Own("r")]) /\ slot' = [slot EXCEPT ![Own("r")] = 0]
         /\ pc' = [pc EXCEPT !.c = "release"]
         /\ UNCHANGED <<hist, seen, clk, tmp, sent, todo, refused>>
CRelease == /\ pc.c = "release"
            /\ Store("c", "r", Nxt(Own("r")), RRel)
            /\ pc' = [pc EXCEPT !.c = "idle"] /\ todo' = [todo EXCEPT !.c = @ - 1]
            /\ UNCHANGED <<slot, last, tmp, sent, got, race, refused>>
Next == PLoad \/ PMake \/ PPublish \/ CLoad \/ CTake \/ CRelease
Spec == Init /\ [][Next]_vars /\ WF_vars(PLoad \/ PMake \/ PPublish) /\ WF_vars(CLoad \/ CTake \/ CRelease)

Fifo == Len(got) <= Len(sent) /\ got = SubSeq(sent, 1, Len(got)) /\ \A i \in 1..Len(sent) : sent[i] = i
NoRace == ~race
RefusesOnlyFull == ~refused
Bounded == Len(sent) - Len(got) <= N - 1 + (IF pc.c = "release" THEN 0 ELSE 0)
Stored == {i \in 0..(N-1) : slot[i] # 0}
Holds == Cardinality(Stored) = Len(sent) - Len(got) + (IF pc.p = "publish" THEN 1 ELSE 0)
ReadAvail(k) == LET d == hist["w"][k].val - Own("r") IN IF d >= 0 THEN d ELSE d + N
AvailSound == \A k \in seen.c["w"]..Len(hist["w"]) :
                pc.c = "idle" => ReadAvail(k) <= Len(sent) - Len(got)
WriteAvail(k) == LET d == hist["r"][k].val - Own("w") - 1 IN IF d >= 0 THEN d ELSE d + N
SpaceSound == \A k \in seen.p["r"]..Len(hist["r"]) :
                pc.p = "idle" => WriteAvail(k) <= N - 1 - (Len(sent) - (Len(hist["r"]) - 1))
Drained == <>(todo.p = 0 /\ todo.c = 0)
====
