---- MODULE Search ----
(* Inputs of find and their results.  A range is a sequence of cells, each "eq" (equal to the needle, same bytes),
   "eqv" (equal, other bytes), "ne" (different, but close) or "bytes" (same bytes, but not equal: NaN).
   A case: length n, the first equal cell at p (n: none) of class e, the cells behind it by shape q. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Long, Never      \* Long: further lengths; Never: the needle is not equal to itself
VARIABLES c
Shapes == {"none", "next", "last", "all", "other"}
Cells(n, p, e, q) == [i \in 1..n |->
   IF i - 1 < p THEN (IF Never THEN "bytes" ELSE "ne")
   ELSE IF i - 1 = p THEN e
   ELSE IF q = "next" /\ i - 1 = p + 1 THEN "eq" ELSE IF q = "last" /\ i = n THEN "eq" ELSE IF q = "all" THEN "eq"
   ELSE IF q = "other" /\ (i % 2 = 0) THEN "eqv" ELSE "ne"]
Equal(x) == x \in {"eq", "eqv"}
Find(s) == IF \E i \in 1..Len(s) : Equal(s[i]) THEN (CHOOSE i \in 1..Len(s) : Equal(s[i]) /\ \A j \in 1..i - 1 : ~Equal(s[j])) - 1 ELSE Len(s)
Positions(n) == IF Never THEN {n} ELSE IF n <= MaxN THEN 0..n ELSE {0, 1, n \div 2, n - 2, n - 1, n}
Case == [n : (0..MaxN) \cup Long, e : {"eq", "eqv"}, q : Shapes]
Init == \E x \in Case : \E p \in Positions(x.n) :
          /\ (p = x.n => x.q = "none" /\ x.e = "eq") /\ (x.q = "next" => p + 1 < x.n) /\ (x.q \in {"last", "other"} => p + 2 < x.n) /\ (x.q = "all" => p + 3 < x.n)
          /\ c = [n |-> x.n, p |-> p, e |-> x.e, q |-> x.q, r |-> Find(Cells(x.n, p, x.e, x.q))]
Next == FALSE /\ c' = c
Emit == PrintT("@E " \o ToJson(c))
====
