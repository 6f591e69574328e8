---- MODULE Delegate ----
(* Slots 1..S each hold a delegate: <<0,0,0>> is empty, <<k,t,n>> holds a target of kind k with tag t that has been
   called n times (function objects keep that count in their own state; functions and member pointers have none).
   act: op, how (the access path), x (arguments), r (what the action yields; <<-1>>: the call of an empty delegate). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS S, Free, Objects, T, N        \* Free: kinds without state, Objects: kinds with state
VARIABLES d, act
state == d
Slots == 1..S
Empty == <<0, 0, 0>>
Kinds == Free \cup Objects
Held(s) == s # Empty
Init == d = [i \in Slots |-> Empty] /\ act = [op |-> "init"]
Do(op, how, x, r, nd) == d' = nd /\ act' = [op |-> op, how |-> how, x |-> x, r |-> r]
Put(i, s) == [d EXCEPT ![i] = s]
Make == \E i \in Slots, k \in Kinds, t \in 1..T : \E h \in {"ctor", "ctorl", "ctorc", "assign", "assignl"} :
          Do("make", h, <<i, k, t>>, <<>>, Put(i, <<k, t, 0>>))
Null == \E i \in Slots, h \in {"default", "nullfn", "nullmember", "assignnull", "assignnullfn"} : Do("null", h, <<i>>, <<>>, Put(i, Empty))
Copy == \/ \E i, j \in Slots : i # j /\ Do("copy", "ctor", <<i, j>>, <<>>, Put(i, d[j]))
        \/ \E i, j \in Slots : Do("copy", "assign", <<i, j>>, <<>>, Put(i, d[j]))       \* also to itself
Move == \E i, j \in Slots, h \in {"ctor", "assign"} : i # j /\ Do("move", h, <<i, j>>, <<>>, [d EXCEPT ![i] = d[j], ![j] = Empty])
Swap == \E i, j \in Slots, h \in {"member", "ranges"} : i <= j /\ (h = "ranges" => i # j) /\ Do("swap", h, <<i, j>>, <<>>, [d EXCEPT ![i] = d[j], ![j] = d[i]])
Call == \E i \in Slots, h \in {"ref", "const"} :
  IF ~Held(d[i]) THEN Do("call", h, <<i, i + 4>>, <<-1>>, d)
  ELSE IF d[i][1] \in Free THEN Do("call", h, <<i, i + 4>>, <<d[i][2], 0, i + 4>>, d)
  ELSE d[i][3] < N /\ Do("call", h, <<i, i + 4>>, <<d[i][2], d[i][3] + 1, i + 4>>, Put(i, <<d[i][1], d[i][2], d[i][3] + 1>>))
Next == Make \/ Null \/ Copy \/ Move \/ Swap \/ Call
Types == \A i \in Slots : d[i] = Empty \/ d[i] \in Kinds \X (1..T) \X (0..N)
Emit == PrintT("@E " \o ToJson([f |-> state, a |-> act', t |-> state']))
====
