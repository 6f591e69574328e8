---- MODULE Seqs ----
(* Operators on mathematical sequences shared by the container specifications.  Positions count from 0. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Mn(x, y) == IF x < y THEN x ELSE y
Mx(x, y) == IF x > y THEN x ELSE y
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
InsertAt(s, p, t) == Take(s, p) \o t \o Drop(s, p)          \* t before position p
CutAt(s, p, q) == Take(s, p) \o Drop(s, q)                  \* without the positions p .. q-1
Flip(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(n, v) == [i \in 1..n |-> v]
Iota(n, from) == [i \in 1..n |-> from + i]
Img(s) == {s[i] : i \in 1..Len(s)}
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, t) == Len(s) = Len(t) /\ \A v \in Img(s) : Count(s, v) = Count(t, v)
====
