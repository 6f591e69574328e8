---- MODULE Footprint ----
(* What an operation may look at or change, and what it may cost: the documented complexities.
     n, m   the number of elements of the first and of the second object (for a view: its length and where it begins)
   An action says which elements of the objects as they were before it may be touched (<<object, position>>), or at most how many
   ("most", -1 for no bound beyond the set), how many allocations and comparisons it may make (-1: any), and whether an
   allocation lets it touch all elements, as the storage is then moved ("grow").
   A list counts its elements from 1, position 0 is before the first; arrays, heaps and views count from 0, and the
   queue by the order of its elements. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, Max, Cap
VARIABLES n, m, act
vars == <<n, m, act>>
RECURSIVE Log(_)
Log(k) == IF k <= 1 THEN 0 ELSE 1 + Log(k \div 2)
Levels(k) == IF k = 0 THEN 0 ELSE Log(k) + 1               \* of a heap of k elements
A(S) == {<<1, i>> : i \in S}
B(S) == {<<2, i>> : i \in S}
Spots(lo, hi) == IF hi - lo < 5 THEN lo..hi ELSE {lo, lo + 1, (lo + hi) \div 2, hi - 1, hi}
Do(op, x, may, most, allocs, cmp, grow, nn, mm) ==
  /\ nn \in 0..Max /\ mm \in 0..Max
  /\ n' = nn /\ m' = mm /\ act' = [op |-> op, x |-> x, may |-> may, most |-> most, allocs |-> allocs, cmp |-> cmp, grow |-> grow]
Plain(op, x, may, nn) == Do(op, x, may, -1, 0, -1, FALSE, nn, m)
List ==
  \/ \E op \in {"pushf", "pushl", "emplacef"} : Do(op, <<>>, A({1}), -1, 1, -1, FALSE, n + 1, m)
  \/ n > 0 /\ (Plain("popf", <<>>, A({1, 2}), n - 1) \/ Plain("front", <<>>, A({1}), n))
  \/ \E op \in {"begin", "empty"} : Plain(op, <<>>, A({1}), n)
  \/ \E k \in Spots(0, n) : \E op \in {"ins", "insl", "emplace"} : Do(op, <<k>>, A({k, k + 1}), -1, 1, -1, FALSE, n + 1, m)
  \/ \E k \in Spots(0, n), j \in 0..2 : Do("insr", <<k, j>>, A({k, k + 1}), -1, j, -1, FALSE, n + j, m)
  \/ n > 0 /\ \E k \in Spots(0, n - 1) : Plain("erase", <<k>>, A({k, k + 1, k + 2}), n - 1)
  \/ n > 0 /\ \E k \in Spots(0, n - 1), l \in Spots(1, n + 1) : k < l /\ Plain("eraser", <<k, l>>, A(k..l), n - (l - k - 1))
  \/ n > 0 /\ \E k \in Spots(1, n) : Plain("next", <<k>>, A({k}), n) \/ Plain("deref", <<k>>, A({k}), n)
  \/ Plain("clear", <<>>, A(1..n), 0) \/ Plain("reverse", <<>>, A(1..n), n)
  \/ Do("movector", <<>>, {}, -1, 0, -1, FALSE, 0, n)                          \* the second object is made from the first
  \/ Do("massign", <<>>, B(1..m), -1, 0, -1, FALSE, 0, n)
Array ==
  \/ \E op \in {"push", "pushl", "emplace"} : Do(op, <<>>, {}, -1, 1, -1, TRUE, n + 1, m)
  \/ \E j \in 0..2 : Do("pushr", <<j>>, {}, -1, 2, -1, TRUE, n + j, m)
  \/ n > 0 /\ (Plain("pop", <<>>, A({n - 1}), n - 1) \/ Plain("front", <<>>, A({0}), n) \/ Plain("back", <<>>, A({n - 1}), n))
  \/ n > 0 /\ \E k \in Spots(0, n - 1) : Plain("at", <<k>>, A({k}), n) \/ Plain("iter", <<k>>, A({k}), n) \/ Plain("erase", <<k>>, A(k..n - 1), n - 1)
  \/ \E i \in Spots(0, n), j \in Spots(0, n) : i <= j /\ Plain("eraser", <<i, j>>, IF i = j THEN {} ELSE A(i..n - 1), n - (j - i))
  \/ \E k \in Spots(0, n) : \E op \in {"ins", "insl"} : Do(op, <<k>>, A(k..n - 1), -1, 1, -1, TRUE, n + 1, m)
  \/ \E k \in Spots(0, n), j \in 0..2 : Do("insr", <<k, j>>, A(k..n - 1), -1, 1, -1, TRUE, n + j, m)
  \/ Plain("sizes", <<>>, {}, n) \/ Plain("walk", <<>>, {}, n) \/ Plain("clear", <<>>, A(0..n - 1), 0)
  \/ \E r \in {0, n, n + 3} : Do("reserve", <<r>>, {}, -1, 1, -1, TRUE, n, m)
  \/ Do("movector", <<>>, {}, -1, 0, -1, FALSE, 0, n) \/ Do("massign", <<>>, B(0..m - 1), -1, 0, -1, FALSE, 0, n)
  \/ Do("swap", <<>>, {}, -1, 0, -1, FALSE, m, n) \/ Do("stdswap", <<>>, {}, -1, 0, -1, FALSE, m, n)
(* the logarithmic operations of a heap: every level of the tree is passed at most once, with at most two elements looked at *)
Heap ==
  \/ \E op \in {"push", "pushl", "emplace"} : Do(op, <<>>, A(0..n - 1), 2 * Levels(n + 1) + 2, 1, 2 * Levels(n + 1) + 2, TRUE, n + 1, m)
  \/ n > 0 /\ (Do("pop", <<>>, A(0..n - 1), 2 * Levels(n) + 2, 0, 3 * Levels(n) + 3, FALSE, n - 1, m) \/ Plain("front", <<>>, A({0}), n))
  \/ Plain("sizes", <<>>, {}, n) \/ Plain("walk", <<>>, {}, n)
  \/ n <= 3 /\ (Do("movector", <<>>, {}, -1, 0, 0, FALSE, 0, n) \/ Do("massign", <<>>, B(0..m - 1), -1, 0, 0, FALSE, 0, n) \/ Do("stdswap", <<>>, {}, -1, 0, 0, FALSE, m, n))
(* windows of Max elements; nothing about a view needs the elements but reading them *)
View ==
  \/ \E o \in Spots(0, Max), k \in Spots(0, Max) : o + k <= Max /\ \E op \in {"pointers", "counted", "range"} : Do(op, <<o, k>>, {}, -1, 0, -1, FALSE, k, o)
  \/ \E op \in {"whole", "stdarray", "fixed"} : Do(op, <<>>, {}, -1, 0, -1, FALSE, Max, 0)
  \/ \E k \in Spots(0, n) : Do("first", <<k>>, {}, -1, 0, -1, FALSE, k, m) \/ Do("last", <<k>>, {}, -1, 0, -1, FALSE, k, m + n - k)
  \/ \E o \in Spots(0, n), k \in Spots(0, n) : o + k <= n /\ Do("sub", <<o, k>>, {}, -1, 0, -1, FALSE, k, m + o)
  \/ Plain("copy", <<>>, {}, n) \/ Plain("sizes", <<>>, {}, n) \/ Plain("walk", <<>>, {}, n) \/ Plain("bytes", <<>>, {}, n)
  \/ n > 0 /\ \E k \in Spots(0, n - 1) : Plain("at", <<k>>, A({m + k}), n) \/ Plain("iter", <<k>>, A({m + k}), n)
Queue ==
  \/ \E op \in {"push", "pushl", "emplace"} : Plain(op, <<>>, {}, IF n < Cap - 1 THEN n + 1 ELSE n)
  \/ n > 0 /\ \E op \in {"pop", "consume"} : Plain(op, <<>>, A({0}), n - 1)
  \/ Plain("sizes", <<>>, {}, n)
Init == n = (IF Kind = "view" THEN Max ELSE 0) /\ m = 0 /\ act = [op |-> ""]
Next == CASE Kind = "list" -> List [] Kind = "array" -> Array [] Kind = "heap" -> Heap [] Kind = "view" -> View [] Kind = "queue" -> Queue
Seen == <<n, m>>
Emit == PrintT("@E " \o ToJson([f |-> <<n, m>>, a |-> act', t |-> <<n', m'>>]))
(* only what is copied, built, or laid out anew costs memory, and what is taken over costs nothing *)
Laws == act.op \in {"movector", "massign", "swap", "stdswap", "sizes", "pop", "popf", "erase", "eraser", "clear"} => act.allocs = 0
====
