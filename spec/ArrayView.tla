---- MODULE ArrayView ----
(* Views of a block of memory of n cells, numbered 0..n-1.  A view denotes the window of cnt cells from cell off on;
   st: its extent is part of its type; ro: it views constant elements.  An empty view keeps its position too
   (it is where a search or a split ended); a view that was never given a position has off = -1.
   act.cells is what the view denotes and act.at its position after the action, act.wrote the cells the action changed, act.bytes the changed or
   covered bytes as <<cell, byte>> (byte 0 or 1: the first or last byte of the cell). *)
EXTENDS Seqs, TLC, Json
CONSTANTS MaxN
VARIABLES n, off, cnt, st, ro, act
state == <<n, off, cnt, st, ro>>
Window(o, c) == [i \in 1..c |-> o + i - 1]
Init == n = 0 /\ off = -1 /\ cnt = 0 /\ st = FALSE /\ ro = FALSE /\ act = [op |-> "init"]
View(op, x, o, c, s, r, m) ==
  /\ n' = m /\ cnt' = c /\ off' = o /\ st' = s /\ ro' = r
  /\ act' = [op |-> op, x |-> x, cells |-> Window(o, c), at |-> o, st |-> s, wrote |-> {}]
(* whole sources: a C array, std::array, std::vector, Array, span, each mutable or constant, deduced or dynamic extent *)
FixedSrc == {"carr", "stdarr", "ccarr", "cstdarr"}
DynSrc == {"carrdyn", "stdarrdyn", "vector", "xarray", "span", "cvector", "cxarray", "cspan"}
ReadOnly(k) == k \in {"ccarr", "cstdarr", "cvector", "cxarray", "cspan"}
Make ==
  \/ \E m \in 1..MaxN, k \in FixedSrc : View(k, <<m>>, 0, m, TRUE, ReadOnly(k), m)
  \/ \E m \in 1..MaxN, k \in {"carrdyn", "stdarrdyn"} : View(k, <<m>>, 0, m, FALSE, FALSE, m)
  \/ \E m \in 0..MaxN, k \in DynSrc \ {"carrdyn", "stdarrdyn"} : View(k, <<m>>, 0, m, FALSE, ReadOnly(k), m)
  \/ View("default", <<>>, -1, 0, FALSE, FALSE, n)
  \/ View("sdefault", <<>>, -1, 0, TRUE, FALSE, n)
Part ==
  \E o \in 0..n : \E c \in 0..(n - o) :
     \/ \E k \in {"ptr", "ptrs", "iter"} : View(k, <<o, c>>, o, c, FALSE, FALSE, n)
     \/ View("sptr", <<o, c>>, o, c, TRUE, FALSE, n)
     \/ View("cptr", <<o, c>>, o, c, FALSE, TRUE, n)
Narrow ==
  \/ \E c \in 0..cnt :
       \/ View("first", <<c>>, off, c, FALSE, ro, n) \/ View("sfirst", <<c>>, off, c, TRUE, ro, n)
       \/ View("last", <<c>>, off + cnt - c, c, FALSE, ro, n) \/ View("slast", <<c>>, off + cnt - c, c, TRUE, ro, n)
  \/ \E o \in 0..cnt : \E c \in 0..(cnt - o) :
       View("subview", <<o, c>>, off + o, c, FALSE, ro, n) \/ View("ssubview", <<o, c>>, off + o, c, TRUE, ro, n)
  \/ View("copy", <<>>, off, cnt, st, ro, n)
Same(op, x, wrote) == UNCHANGED state /\ act' = [op |-> op, x |-> x, cells |-> Window(off, cnt), at |-> off, st |-> st, wrote |-> wrote]
Write ==
  /\ ~ro
  /\ \/ \E i \in 0..(cnt - 1), k \in {"windex", "witer", "wrev", "wstdrev"} : Same(k, <<i>>, {off + (IF k \in {"wrev", "wstdrev"} THEN cnt - 1 - i ELSE i)})
     \/ cnt > 0 /\ (Same("wfront", <<>>, {off}) \/ Same("wback", <<>>, {off + cnt - 1}))
     \/ Same("wall", <<>>, {off + i : i \in 0..(cnt - 1)})
Bytes(op, x, b) == UNCHANGED state /\ act' = [op |-> op, x |-> x, bytes |-> b, st |-> st]
AsBytes ==
  \/ Bytes("bytes", <<>>, <<off, cnt>>)                            \* first cell and number of cells covered
  \/ ~ro /\ \E i \in 0..(cnt - 1), j \in {0, 1} : Bytes("wbyte", <<i, j>>, <<off + i, j>>)
Next == Make \/ Part \/ Narrow \/ Write \/ AsBytes
Inside == off + cnt <= n /\ (off = -1 => cnt = 0)
Emit == PrintT("@E " \o ToJson([f |-> state, a |-> act', t |-> state']))
====
