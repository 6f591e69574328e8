---- MODULE SpscQueue ----
(* The queue as its two users see it without concurrency: a bounded sequence, at every fill level and every position of
   the ring.  pos is the ring position of the oldest element; it matters to no result, and is here to make every
   wrap-around a state of its own.  Elements are numbers counted modulo M, so that a state determines them.
   Ways of pushing: push (rvalue), pushl (lvalue), emplace (constructor argument); ways of taking: pop, consume, peekpop
   (consume by reference, leaving the element in place to be destroyed).                                              *)
EXTENDS Seqs, TLC, Json
CONSTANTS N
VARIABLES q, pos, act
state == <<q, pos>>
Room == N - 1 - Len(q)
Init == q = <<>> /\ pos = 0 /\ act = [op |-> "init"]
Shown(r) == [r |-> r, rav |-> Len(q'), wav |-> N - 1 - Len(q')]
Push(op) ==
  /\ LET v == (pos + Len(q)) % N IN
     IF Room > 0 THEN q' = Append(q, v) /\ pos' = pos /\ act' = [op |-> op, x |-> v] @@ Shown(1)
     ELSE UNCHANGED <<q, pos>> /\ act' = [op |-> op, x |-> v] @@ Shown(0)
Pop(op) ==
  /\ q # <<>> /\ q' = Tail(q) /\ pos' = (pos + 1) % N
  /\ act' = [op |-> op, x |-> -1] @@ Shown(IF op = "pop" THEN -2 ELSE Head(q))
Next == \/ \E o \in {"push", "pushl", "emplace"} : Push(o)
        \/ \E o \in {"pop", "consume", "peekpop"} : Pop(o)
Spec == Init /\ [][Next]_<<q, pos, act>>
Bounded == Len(q) <= N - 1
InOrder == \A i \in 1..Len(q) : q[i] = (pos + i - 1) % N
AddUp == act.op = "init" \/ act.rav + act.wav = N - 1
Emit == PrintT("@E " \o ToJson([f |-> state, a |-> act', t |-> state']))
====
