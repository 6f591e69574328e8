---- MODULE Threads ----
(* Two threads, each with an object of its own, and a constant object both look at.  Whatever the order of their steps, what a thread sees
   depends on its own steps only: a step of one leaves the other's object and the shared one alone.
     own  the elements of the objects of threads 1 and 2;  alone  the same, had the other thread never run *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, Max
VARIABLES own, alone, act
vars == <<own, alone, act>>
Ordered == Kind = "heap"
Fixed == Kind \in {"numbers", "view"}                        \* no elements are added or removed, but replaced
Shared == IF Ordered THEN <<3, 1>> ELSE <<1, 3>>
Add(s, x) == IF ~Ordered THEN Append(s, x) ELSE LET n == Cardinality({i \in DOMAIN s : s[i] >= x}) IN SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Drop(s) == IF Ordered THEN Tail(s) ELSE SubSeq(s, 1, Len(s) - 1)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Start == IF Fixed THEN <<2, 2>> ELSE <<>>
Ops == {"add", "drop", "clear", "reverse", "copy", "move", "swap", "read", "peek", "same", "born"}
(* what an operation makes of the thread's own object, and what it answers *)
Can(s, op, x) == CASE op = "add" -> x \in 1..3 /\ (Fixed \/ Len(s) < Max) [] op = "drop" -> s # <<>> /\ ~Fixed [] op = "clear" -> ~Fixed [] op = "reverse" -> ~Ordered [] OTHER -> TRUE
Does(s, op, x) == CASE op = "add" -> IF Fixed THEN <<s[2], x>> ELSE Add(s, x) [] op = "drop" -> Drop(s) [] op = "clear" -> <<>> [] op = "reverse" -> Rev(s)
                    [] op \in {"copy", "move", "swap"} -> Shared [] OTHER -> s
Says(s, op, x) == CASE op = "peek" -> Shared [] op = "same" -> <<IF s = Shared THEN 1 ELSE 0>> [] op = "born" -> Add(Shared, 2) [] OTHER -> Does(s, op, x)
Init == own = <<Start, Start>> /\ alone = <<Start, Start>> /\ act = [t |-> 0]
Step(t, op, x) == /\ Can(own[t], op, x)
                  /\ own' = [own EXCEPT ![t] = Does(@, op, x)] /\ alone' = [alone EXCEPT ![t] = Does(@, op, x)]
                  /\ act' = [t |-> t, op |-> op, x |-> x, says |-> Says(own[t], op, x)]
Next == \E t \in 1..2, op \in Ops, x \in 0..3 : (op # "add" => x = 0) /\ Step(t, op, x)
Seen == own
Independent == own = alone
Untouched == [][\A t \in 1..2 : act'.t # t => own'[t] = own[t]]_vars
Emit == PrintT("@E " \o ToJson([f |-> own, a |-> act', t |-> own']))
====
