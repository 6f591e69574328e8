---- MODULE SharedLibrary ----
(* Library objects and the dynamic loader.  own[s]: -1 no object, 0 a closed one, h the handle it owns.
   The loader gives every successful dlopen a handle of its own; libs[h] is what it was opened as.
   Assigning by move may hand the old library over or close it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Libs, Handles           \* Libs: libraries that exist; library 0 does not
VARIABLES own, libs, live, act
vars == <<own, libs, live>>
S == 1..Slots
Act(op, s, t, k) == act' = [op |-> op, s |-> s, t |-> t, k |-> k]
Fresh == CHOOSE h \in 1..Handles : h \notin live
Init == own = [s \in S |-> -1] /\ libs = [h \in 1..Handles |-> 0] /\ live = {} /\ act = [op |-> "start", s |-> 0, t |-> 0, k |-> 0]
(* the object o \in {-1, 0, handle} loses its library, and then the loader opens library k *)
Replace(s, k) == LET rest == live \ {own[s]} IN
  IF k = 0 THEN own' = [own EXCEPT ![s] = 0] /\ live' = rest /\ libs' = libs
  ELSE LET h == CHOOSE h \in 1..Handles : h \notin rest IN own' = [own EXCEPT ![s] = h] /\ live' = rest \cup {h} /\ libs' = [libs EXCEPT ![h] = k]
New(s) == own[s] = -1 /\ own' = [own EXCEPT ![s] = 0] /\ UNCHANGED <<libs, live>> /\ Act("new", s, 0, 0)
NewOpen(s, k) == own[s] = -1 /\ Replace(s, k) /\ Act("newopen", s, 0, k)
MoveNew(s, t) == own[s] = -1 /\ own[t] # -1 /\ own' = [own EXCEPT ![s] = own[t], ![t] = 0] /\ UNCHANGED <<libs, live>> /\ Act("movector", s, t, 0)
MoveAssign(s, t) == /\ own[s] # -1 /\ own[t] # -1 /\ libs' = libs /\ Act("massign", s, t, 0)
                    /\ IF s = t THEN UNCHANGED <<own, live>>
                       ELSE \/ own' = [own EXCEPT ![s] = own[t], ![t] = own[s]] /\ live' = live
                            \/ own' = [own EXCEPT ![s] = own[t], ![t] = 0] /\ live' = live \ {own[s]}
Swap(s, t) == own[s] # -1 /\ own[t] # -1 /\ s < t /\ own' = [own EXCEPT ![s] = own[t], ![t] = own[s]] /\ UNCHANGED <<libs, live>> /\ Act("swap", s, t, 0)
Open(s, k) == own[s] # -1 /\ Replace(s, k) /\ Act("open", s, 0, k)
Close(s) == own[s] # -1 /\ Replace(s, 0) /\ Act("close", s, 0, 0)
Destroy(s) == own[s] # -1 /\ own' = [own EXCEPT ![s] = -1] /\ live' = live \ {own[s]} /\ libs' = libs /\ Act("destroy", s, 0, 0)
Sym(s, k) == own[s] > 0 /\ UNCHANGED vars /\ Act("sym", s, 0, k)
Next == \E s \in S :
  \/ New(s) \/ Close(s) \/ Destroy(s)
  \/ \E k \in 0..Libs : NewOpen(s, k) \/ Open(s, k)
  \/ \E k \in 0..2 : Sym(s, k)
  \/ \E t \in S : MoveAssign(s, t) \/ (s # t /\ MoveNew(s, t)) \/ Swap(s, t)
View == vars
Shape == [s \in S |-> IF own[s] > 0 THEN libs[own[s]] ELSE own[s] - 1]        \* what distinguishes histories: which library each object has open
Emit == PrintT("@E " \o ToJson([f |-> Shape, a |-> act', t |-> Shape']))
OwnedOnce == \A s, t \in S : s # t /\ own[s] > 0 => own[s] # own[t]
LiveIffOwned == live = {own[s] : s \in {x \in S : own[x] > 0}}
====
