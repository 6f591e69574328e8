---- MODULE Interop ----
(* What the algorithms and views of the standard library and range-v3 do with a sequence, whatever holds it.
     s  the elements;  op, x, k  the algorithm with a value and a position
     ans  what it answers (positions count from 0, the length is the end);  after  the elements then (as far as it defines them)
   need  how strong the iterators must be: 1 forward, 2 bidirectional, 3 random access;  writes  whether it changes elements *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Len0, Vals, Long      \* all sequences up to a length, and some of certain lengths
VARIABLES s, op, x, k
vars == <<s, op, x, k>>
Seqs == UNION {[1..n -> 1..Vals] : n \in 0..Len0}
LongSeqs == {[i \in 1..n |-> 1 + ((i * i * m + i) % 7)] : n \in Long, m \in {1, 3}} \cup {[i \in 1..n |-> (i * 7) \div n] : n \in Long}
Places == IF Len(s) > Len0 THEN {0, 1, Len(s) \div 3, Len(s) - 1} ELSE 0..Len(s)
Read1 == {"pairs", "fewer", "findend", "inclusive", "equalrange", "count", "find", "search", "lower", "upper", "binary"}          \* with a value
Read0 == {"sum", "min", "max", "adjacent", "sorted", "distance", "equal", "less", "mismatch", "copy", "all", "gather", "moveout", "uniquecopy", "partialsum", "differences", "isperm", "rotatecopy", "minmax", "products"}
Views0 == {"reversed", "transformed", "twice"}
ViewsK == {"taken", "dropped", "slice", "strided"}
Views1 == {"filtered", "kept"}
Write1 == {"fill", "replace", "remove", "partitioned"}
Write0 == {"iota", "bump", "unique", "swapends"}
WriteK == {"rotate", "filltail"}
Back0 == {"merge", "reverse", "shift", "permute", "backcopy"}
Rand0 == {"sort", "stable", "heap", "descending"}
RandK == {"partial", "nth", "index"}
Need == CASE op \in Back0 \cup {"reversed", "kept"} -> 2 [] op \in Rand0 \cup RandK -> 3 [] OTHER -> 1
Writes == op \in Write1 \cup Write0 \cup WriteK \cup (Back0 \ {"backcopy"}) \cup Rand0 \cup {"partial", "nth"}
Init == /\ s \in Seqs \cup LongSeqs
        /\ \/ op \in Read1 \cup Views1 \cup Write1 /\ x \in 1..Vals /\ k = 0
           \/ op \in Read0 \cup Views0 \cup Write0 \cup Back0 \cup Rand0 /\ x = 0 /\ k = 0
           \/ op \in ViewsK \cup WriteK \cup {"partial"} /\ x = 0 /\ k \in Places
           \/ op \in {"nth", "index"} /\ x = 0 /\ k \in Places \ {Len(s)}
        /\ (op \in {"lower", "upper", "binary", "equalrange"} => \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1])
        /\ (Len(s) > Len0 => op \notin {"permute", "iota"})
        /\ (op = "merge" => LET h == Len(s) \div 2 IN \A i \in 1..Len(s) - 1 : i = h \/ s[i] <= s[i + 1])
        /\ (op \in {"shift", "swapends"} => s # <<>>)
Next == UNCHANGED vars
N == Len(s)
First(P(_)) == IF \E i \in 1..N : P(i) THEN (CHOOSE i \in 1..N : P(i) /\ \A j \in 1..i - 1 : ~P(j)) - 1 ELSE N
Final(P(_)) == IF \E i \in 1..N : P(i) THEN (CHOOSE i \in 1..N : P(i) /\ \A j \in i + 1..N : ~P(j)) - 1 ELSE N
How(P(_)) == Cardinality({i \in 1..N : P(i)})
Sorted == SortSeq(s, LAMBDA a, b : a < b)
Rev(t) == [i \in 1..Len(t) |-> t[Len(t) + 1 - i]]
Unique == LET keep == {i \in 1..N : i = 1 \/ s[i] # s[i - 1]} IN [i \in 1..Cardinality(keep) |-> s[CHOOSE j \in keep : Cardinality({l \in keep : l < j}) = i - 1]]
Without(t, P(_)) == SelectSeq(t, LAMBDA e : ~P(e))
Pattern == <<x, x>>
(* the next permutation in lexicographic order, the first one after the last *)
RECURSIVE LessThan(_, _)
LessThan(a, b) == b # <<>> /\ (a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LessThan(Tail(a), Tail(b))))
Arrangements == {[i \in 1..N |-> s[p[i]]] : p \in {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}}
Later == {a \in Arrangements : LessThan(s, a)}
Permuted == IF Later = {} THEN Sorted ELSE CHOOSE a \in Later : \A b \in Later : ~LessThan(b, a)
Other == [i \in 1..N |-> IF i = N THEN 2 ELSE s[i]]         \* what is compared with
Ans == CASE op = "count" -> How(LAMBDA i : s[i] = x)
         [] op = "find" -> First(LAMBDA i : s[i] = x)
         [] op = "search" -> First(LAMBDA i : i < N /\ s[i] = x /\ s[i + 1] = x)
         [] op = "pairs" -> First(LAMBDA i : i < N /\ s[i] = x /\ s[i + 1] = x)                     \* search_n
         [] op = "fewer" -> First(LAMBDA i : s[i] < x)                                            \* find_if
         [] op = "findend" -> Final(LAMBDA i : i < N /\ s[i] = x /\ s[i + 1] = x)
         [] op = "inclusive" -> How(LAMBDA i : s[i] >= x)
         [] op = "equalrange" -> 1000 * First(LAMBDA i : s[i] >= x) + How(LAMBDA i : s[i] = x)
         [] op = "isperm" -> IF Sorted = SortSeq(Other, LAMBDA a, b : a < b) THEN 1 ELSE 0
         [] op = "minmax" -> 1000 * First(LAMBDA i : \A j \in 1..N : s[i] <= s[j]) + Final(LAMBDA i : \A j \in 1..N : s[i] >= s[j])
         [] op = "products" -> FoldLeft(LAMBDA a, i : (a + s[i] * Other[i]) % 10007, 0, [i \in 1..N |-> i])
         [] op = "lower" -> First(LAMBDA i : s[i] >= x)
         [] op = "upper" -> First(LAMBDA i : s[i] > x)
         [] op = "binary" -> IF \E i \in 1..N : s[i] = x THEN 1 ELSE 0
         [] op = "sum" -> FoldLeft(LAMBDA a, b : (3 * a + b) % 10007, 0, s)
         [] op = "min" -> First(LAMBDA i : \A j \in 1..N : s[i] <= s[j])
         [] op = "max" -> First(LAMBDA i : \A j \in 1..N : s[i] >= s[j])
         [] op = "adjacent" -> First(LAMBDA i : i < N /\ s[i] = s[i + 1])
         [] op = "sorted" -> IF \A i \in 1..N - 1 : s[i] <= s[i + 1] THEN 1 ELSE 0
         [] op = "distance" -> N
         [] op = "equal" -> IF s = Other THEN 1 ELSE 0
         [] op = "less" -> IF LessThan(s, Other) THEN 1 ELSE 0
         [] op = "mismatch" -> First(LAMBDA i : s[i] # Other[i])
         [] op = "all" -> IF \A i \in 1..N : s[i] > 1 THEN 1 ELSE 0
         [] op = "remove" -> How(LAMBDA i : s[i] # x)
         [] op = "unique" -> Len(Unique)
         [] op = "permute" -> IF Later = {} THEN 0 ELSE 1
         [] op = "nth" -> Sorted[k + 1]
         [] op = "index" -> s[k + 1]
         [] OTHER -> 0
RECURSIVE Merged(_, _)
Merged(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF Head(b) < Head(a) THEN <<Head(b)>> \o Merged(a, Tail(b)) ELSE <<Head(a)>> \o Merged(Tail(a), b)
After == CASE op \in Read1 \cup {"sum", "min", "max", "adjacent", "sorted", "distance", "equal", "less", "mismatch", "copy", "all", "gather", "moveout", "index", "isperm", "minmax", "products"} -> s
           [] op = "uniquecopy" -> Unique
           [] op = "partialsum" -> [i \in 1..N |-> IF i = 1 THEN s[1] ELSE FoldLeft(LAMBDA a, e : (a + e) % 7, 0, SubSeq(s, 1, i))]
           [] op = "differences" -> [i \in 1..N |-> IF i = 1 THEN s[1] ELSE (s[i] - s[i - 1] + 7) % 7]
           [] op = "rotatecopy" -> IF N = 0 THEN s ELSE Tail(s) \o <<Head(s)>>
           [] op = "merge" -> LET h == N \div 2 IN Merged(SubSeq(s, 1, h), SubSeq(s, h + 1, N))
           [] op \in {"reversed", "reverse", "backcopy"} -> Rev(s)
           [] op \in {"transformed", "bump"} -> [i \in 1..N |-> s[i] + 10]
           [] op = "twice" -> Rev(Rev(s)) \o s
           [] op = "taken" -> SubSeq(s, 1, k)
           [] op = "dropped" -> SubSeq(s, k + 1, N)
           [] op = "slice" -> SubSeq(s, k + 1, N - 1)
           [] op = "strided" -> [i \in 1..(N + k) \div (k + 1) |-> s[(i - 1) * (k + 1) + 1]]
           [] op = "filtered" -> Without(s, LAMBDA e : e = x)
           [] op = "kept" -> Rev(SelectSeq(s, LAMBDA e : e = x \/ e = 1))
           [] op = "fill" -> [i \in 1..N |-> x]
           [] op = "replace" -> [i \in 1..N |-> IF s[i] = x THEN 9 ELSE s[i]]
           [] op = "remove" -> Without(s, LAMBDA e : e = x)
           [] op = "partitioned" -> SelectSeq(s, LAMBDA e : e < x) \o SelectSeq(s, LAMBDA e : e >= x)
           [] op = "iota" -> [i \in 1..N |-> i]
           [] op = "unique" -> Unique
           [] op = "swapends" -> [s EXCEPT ![1] = s[N], ![N] = s[1]]
           [] op = "rotate" -> SubSeq(s, k + 1, N) \o SubSeq(s, 1, k)
           [] op = "filltail" -> [i \in 1..N |-> IF i <= k THEN s[i] ELSE 7]
           [] op = "shift" -> <<s[1]>> \o SubSeq(s, 1, N - 1)
           [] op = "permute" -> Permuted
           [] op \in {"sort", "stable", "heap"} -> Sorted
           [] op = "descending" -> Rev(Sorted)
           [] op = "partial" -> SubSeq(Sorted, 1, k)
           [] op = "nth" -> <<>>
Laws == /\ (op \in {"merge", "sort", "rotate", "reverse", "permute", "shift"} /\ op # "shift" => \A v \in 1..Vals : Cardinality({i \in 1..N : s[i] = v}) = Cardinality({i \in DOMAIN After : After[i] = v}))
        /\ (op = "permute" /\ Ans = 1 => LessThan(s, After))
Emit == PrintT("@E " \o ToJson([s |-> s, op |-> op, x |-> x, k |-> k, need |-> Need, writes |-> Writes, ans |-> Ans, after |-> After]))
====
