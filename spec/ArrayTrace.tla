---- MODULE ArrayTrace ----
(* Validates recorded executions of the dynamic array.  A trace is a sequence of histories, each begun by "reset":
   calls, returns with the projected state, and in between every element and memory event.
   The constants select the guarantees that bind: Values (C01), Life (C02), Space (C03), Faults (C04). *)
EXTENDS ArrayOps, Lifetime, TLC, Json, IOUtils
CONSTANTS Values, Life, Space, Faults
VARIABLES l,      \* next event
          S,      \* contents of the two arrays
          mem,    \* the blocks they own: <<block of a, block of b>>
          call,   \* the call in progress
          run,    \* consecutive single appends: [len, grown]
          skip    \* the rest of this history is not judged
tvars == <<l, S, mem, call, run, skip, blk, tmp>>

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Empty == [a |-> Arr(<<>>, 0), b |-> Arr(<<>>, 0)]
Idle == [op |-> "", x |-> <<>>, thrown |-> FALSE, touched |-> 1000000]
Run0 == [len |-> 0, grown |-> 0]

Init == l = 1 /\ S = Empty /\ mem = <<0, 0>> /\ call = Idle /\ run = Run0 /\ skip = FALSE /\ blk = NoBlocks /\ tmp = {}

(* ---- what must hold when a call returns ---- *)
Owns(p) == \* p = <<block, size, capacity, contents>>
  /\ p[2] = Len(p[4])
  /\ IF p[1] = 0 THEN p[2] = 0 /\ p[3] = 0
     ELSE HasBlock(p[1]) /\ blk[p[1]].n = p[3] /\ blk[p[1]].live = 0..(p[2] - 1)
LifeOK(e) == Owns(e[4]) /\ Owns(e[5]) /\ DOMAIN blk = {e[4][1], e[5][1]} \ {0} /\ (e[4][1] = e[5][1] => e[4][1] = 0)
ValuesOK(e, T) == e[3] = T.r /\ e[4][4] = T.a.s /\ e[5][4] = T.b.s
InPlace(e, T) ==
  call.op \notin Replacing /\ ~(call.op = "resize" /\ call.x[1] < S.a.c) /\ Len(T.a.s) <= S.a.c
    /\ ~(call.op \in {"reserve", "resize"} /\ call.x[1] > S.a.c)
SpaceOK(e, T) ==
  /\ e[4][3] >= e[4][2] /\ e[5][3] >= e[5][2]
  /\ (e[4][1] # 0 => blk[e[4][1]].n = e[4][3])
  /\ InPlace(e, T) => e[4][1] = mem[1] /\ e[4][3] = S.a.c /\ call.touched >= FirstTouched(S, call.op, call.x)
  /\ call.op = "reserve" => e[4][3] = Mx(S.a.c, call.x[1])
  /\ call.op \in {"resize", "cap"} => e[4][3] = call.x[1]
  /\ call.op \in {"clear", "erase", "eraser", "pop", "set"} => e[4][3] = S.a.c
  /\ call.op \notin (Replacing \ {"swapself"}) => e[5][1] = mem[2] /\ e[5][3] = S.b.c
  /\ call.op \in {"copyctor"} => e[4][1] = mem[1]
  /\ call.op \in {"movector"} => e[5][1] = mem[1] /\ e[5][3] = S.a.c
  /\ call.op \in {"massign"} => e[4][1] = mem[2] /\ e[4][3] = S.b.c
  /\ call.op = "swap" => e[4][1] = mem[2] /\ e[5][1] = mem[1]
NextRun(e) == IF call.op \in Appending1
              THEN [len |-> run.len + 1, grown |-> run.grown + (IF e[4][1] # mem[1] THEN 1 ELSE 0)]
              ELSE Run0
GrowthOK(r) == r.grown <= 3 \/ (r.grown <= 18 /\ 3^(r.grown - 3) <= r.len * 2^(r.grown - 3))
FaultOK(e) ==
  IF e[2] = 1
  THEN /\ call.thrown                                                                        \* nothing else throws
       /\ call.op \notin NoThrow
       /\ call.op \in Strong => e[4][4] = S.a.s /\ e[5][4] = S.b.s
  ELSE ~call.thrown                                                                          \* the caller sees the exception

Reject(e, why) == PrintT("@R " \o ToJson([l |-> l, why |-> why, event |-> e, call |-> call.op, args |-> call.x,
                                          before |-> [a |-> S.a, b |-> S.b], blk |-> ToString(blk)]))

Micros(e) ==
  IF Life /\ ~Legal(e)
  THEN Reject(e, "illegal " \o e[1]) /\ skip' = TRUE /\ UNCHANGED <<S, mem, call, run, blk, tmp>>
  ELSE /\ (IF (Life \/ Space) /\ Legal(e) THEN blk' = BlkAfter(e) /\ tmp' = TmpAfter(e) ELSE UNCHANGED <<blk, tmp>>)
       /\ call' = (IF ~Space THEN call
                   ELSE LET t == (IF e[1] \in {"copy", "ctor", "dtor", "asg"} /\ e[2] = mem[1] /\ mem[1] # 0 THEN {e[3]}
                                  ELSE IF e[1] \in {"move", "masg"} /\ mem[1] # 0
                                  THEN (IF e[2] = mem[1] THEN {e[3]} ELSE {}) \cup (IF e[4] = mem[1] THEN {e[5]} ELSE {})
                                  ELSE {})
                        IN IF t = {} THEN call
                           ELSE [call EXCEPT !.touched = CHOOSE m \in t \cup {@} : \A z \in t \cup {@} : m <= z])
       /\ UNCHANGED <<S, mem, run, skip>>

Ret(e) ==
  LET T == Apply(S, call.op, call.x)
      ok == e[2] = 0
      why == IF Life /\ ~LifeOK(e) THEN "live objects and storage"
             ELSE IF Values /\ ok /\ ~ValuesOK(e, T) THEN "contents"
             ELSE IF Values /\ ~ok /\ ~Faults THEN "exception"
             ELSE IF Space /\ ok /\ ~SpaceOK(e, T) THEN "capacity"
             ELSE IF Space /\ ok /\ ~GrowthOK(NextRun(e)) THEN "growth"
             ELSE IF Faults /\ ~FaultOK(e) THEN "exception guarantee"
             ELSE ""
  IN /\ IF why = "" THEN skip' = FALSE ELSE Reject(e, why) /\ skip' = TRUE
     /\ S' = [a |-> Arr(e[4][4], e[4][3]), b |-> Arr(e[5][4], e[5][3])]      \* equal to T where values bind
     /\ mem' = <<e[4][1], e[5][1]>>
     /\ run' = NextRun(e)
     /\ call' = Idle
     /\ UNCHANGED <<blk, tmp>>

Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e[1] \in {"reset", "quit"} ->
            /\ (Life /\ ~skip /\ ~AllReleased => Reject(e, "not released at the end of the history"))
            /\ S' = Empty /\ mem' = <<0, 0>> /\ call' = Idle /\ run' = Run0 /\ skip' = FALSE
            /\ blk' = NoBlocks /\ tmp' = {}
       [] e[1] # "reset" /\ skip -> UNCHANGED <<S, mem, call, run, skip, blk, tmp>>
       [] e[1] = "call" /\ ~skip -> /\ call' = [Idle EXCEPT !.op = e[2], !.x = e[3]]
                                    /\ UNCHANGED <<S, mem, run, skip, blk, tmp>>
       [] e[1] = "throw" /\ ~skip -> call' = [call EXCEPT !.thrown = TRUE] /\ UNCHANGED <<S, mem, run, skip, blk, tmp>>
       [] e[1] = "ret" /\ ~skip -> Ret(e)
       [] e[1] \in Micro /\ ~skip -> Micros(e)
Done == l = Len(Trace) + 1 /\ UNCHANGED tvars
Next == Step
TraceSpec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
