---- MODULE Environment ----
(* The process environment as a map from names to values; setting the empty value removes a name.
   Names and values are indices into the lists of texts that the check chooses; value 0 stands for "none" (and, set, for the empty text). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names, Values
VARIABLES env, act
Init == env = [n \in 1..Names |-> 0] /\ act = [op |-> "start", n |-> 0, v |-> 0]
Set(n, v) == env' = [env EXCEPT ![n] = v] /\ act' = [op |-> "set", n |-> n, v |-> v]
Get(n) == env' = env /\ act' = [op |-> "get", n |-> n, v |-> env[n]]
Next == \E n \in 1..Names : Get(n) \/ \E v \in 0..Values : Set(n, v)
View == env
Emit == PrintT("@E " \o ToJson([f |-> env, a |-> act', t |-> env']))
LastWriteWins == [][\A n \in 1..Names : env'[n] # env[n] => act'.op = "set" /\ act'.n = n /\ act'.v = env'[n]]_<<env, act>>
====
