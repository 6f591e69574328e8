---- MODULE Heap ----
(* A binary heap in an array: the sift algorithms over every history up to a size, with ties.
   Elements are records of a rank and an identity.  Checked here: the layout stays heap ordered, the front is a greatest
   element, nothing is lost or duplicated, and pop removes exactly the front.  The transitions give the histories
   which are run on the real class and judged by HeapTrace (which does not prescribe a layout). *)
EXTENDS Seqs, TLC, Json
CONSTANTS MaxLen, Ranks
VARIABLES h,     \* layout: sequence of ranks
          act
Par(i) == i \div 2                      \* positions from 1
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _), Down(_, _)
Up(s, i) == IF i = 1 \/ s[Par(i)] >= s[i] THEN s ELSE Up(Swap(s, i, Par(i)), Par(i))
Down(s, i) ==
  LET l == 2 * i  r == 2 * i + 1
      m1 == IF l <= Len(s) /\ s[i] < s[l] THEN l ELSE i
      m2 == IF r <= Len(s) /\ s[m1] < s[r] THEN r ELSE m1
  IN IF m2 = i THEN s ELSE Down(Swap(s, i, m2), m2)
Push(s, x) == Up(Append(s, x), Len(s) + 1)
Pop(s) == IF Len(s) = 1 THEN <<>> ELSE Down([Take(s, Len(s) - 1) EXCEPT ![1] = s[Len(s)]], 1)
Init == h = <<>> /\ act = [op |-> "init"]
DoPush(x) == Len(h) < MaxLen /\ h' = Push(h, x) /\ act' = [op |-> "push", x |-> x]
DoPop == h # <<>> /\ h' = Pop(h) /\ act' = [op |-> "pop", x |-> 0]
Next == DoPop \/ \E x \in Ranks : DoPush(x)
Ordered == \A i \in 2..Len(h) : h[Par(i)] >= h[i]
FrontGreatest == h # <<>> => \A i \in 1..Len(h) : h[1] >= h[i]
Conserves == [][IF act'.op = "push" THEN SameBag(h', Append(h, act'.x)) ELSE SameBag(Append(h', h[1]), h)]_<<h, act>>
Spec == Init /\ [][Next]_<<h, act>>
View == h
Emit == PrintT("@E " \o ToJson([f |-> h, a |-> act', t |-> h']))
====
