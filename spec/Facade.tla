---- MODULE Facade ----
(* What a container gets from IContainer: the container offers iterators of one category, an end, and perhaps its own size;
   everything else follows from that.
     cat  what its iterators can do;  end  whether the end is an iterator, something else, or something that can be subtracted from
     thru  which objects can be iterated: mutable and constant ones (whose elements are constant), only mutable ones, or both with the same
           constant elements;  refs  iterators lead to the elements themselves, or to values made from them;  own  it has a size() of its own
     s  the elements;  as  the object is used as a constant;  op, k  what is asked for *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len0
VARIABLES cat, end, thru, refs, own, s, as, op, k
vars == <<cat, end, thru, refs, own, s, as, op, k>>
Rank(c) == CASE c = "input" -> 0 [] c = "forward" -> 1 [] c = "bidirectional" -> 2 [] c = "random" -> 3 [] c = "contiguous" -> 4
Init == /\ cat \in {"input", "forward", "bidirectional", "random", "contiguous"} /\ end \in {"same", "other", "sized"}
        /\ thru \in {"both", "mutable", "constant"} /\ refs \in {"cells", "values"} /\ own \in BOOLEAN /\ as \in BOOLEAN
        /\ (refs = "values" => cat # "contiguous") /\ (cat = "input" => end # "same")
        /\ \E n \in 0..Len0 : s = [i \in 1..n |-> i * i]
        /\ \/ op \in {"empty", "size", "data"} /\ k = 0
           \/ op \in {"front", "back"} /\ k = 0 /\ s # <<>>
           \/ op = "index" /\ k \in 0..Len(s) - 1
Next == UNCHANGED vars
Iterable == thru # "mutable" \/ ~as
Sized == own \/ (Iterable /\ Rank(cat) >= 1 /\ (end = "sized" \/ (end = "same" /\ Rank(cat) >= 3)))
Offered == CASE op = "size" -> Sized
             [] op = "empty" -> Iterable /\ Rank(cat) >= 1
             [] op = "front" -> Iterable /\ Rank(cat) >= 1
             [] op = "back" -> Iterable /\ Rank(cat) >= 2 /\ end = "same"
             [] op = "index" -> Iterable /\ Rank(cat) >= 3
             [] op = "data" -> Iterable /\ Rank(cat) = 4
Writable == refs = "cells" /\ thru # "constant" /\ ~as
At == CASE op = "back" -> Len(s) - 1 [] op = "index" -> k [] OTHER -> 0
(* an answer: the value, where it is (-1: nowhere, a value of its own), whether it can be written to; and the elements after writing 7 there *)
Answer == CASE ~Offered -> [offered |-> FALSE, value |-> 0, at |-> 0, writable |-> FALSE]
            [] op \in {"size", "empty"} -> [offered |-> TRUE, value |-> IF op = "size" THEN Len(s) ELSE IF s = <<>> THEN 1 ELSE 0, at |-> -1, writable |-> FALSE]
            [] op = "data" -> [offered |-> TRUE, value |-> 0, at |-> 0, writable |-> Writable]
            [] OTHER -> [offered |-> TRUE, value |-> s[At + 1], at |-> IF refs = "cells" THEN At ELSE -1, writable |-> Writable]
After == IF Answer.writable /\ s # <<>> THEN [s EXCEPT ![At + 1] = 7] ELSE s
Laws == /\ (op = "data" /\ Offered /\ end # "other" => Sized)
        /\ (Answer.writable => Answer.at >= 0 /\ ~as)
        /\ (op \in {"index", "back"} /\ Offered => Iterable)
Emit == PrintT("@E " \o ToJson([c |-> <<Rank(cat), CHOOSE i \in 0..2 : <<"same", "other", "sized">>[i + 1] = end, CHOOSE i \in 0..2 : <<"both", "mutable", "constant">>[i + 1] = thru,
                                        IF refs = "values" THEN 1 ELSE 0, IF own THEN 1 ELSE 0>>,
                                as |-> as, op |-> op, k |-> k, n |-> Len(s), ans |-> Answer, after |-> After]))
====
