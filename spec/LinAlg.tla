---- MODULE LinAlg ----
(* Exact linear algebra.  A vector is a sequence of numbers, a matrix the sequence of its columns. *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Sum(s) == SumTo(s, Len(s))
Fill(n, k) == [i \in 1..n |-> k]
Basis(n, i) == [j \in 1..n |-> IF i = j THEN 1 ELSE 0]
(* vectors *)
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VMul(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
Scale(a, k) == [i \in 1..Len(a) |-> a[i] * k]
VNeg(a) == [i \in 1..Len(a) |-> -a[i]]
Divides(d, x) == d # 0 /\ (IF x < 0 THEN -x ELSE x) % (IF d < 0 THEN -d ELSE d) = 0
Quot(x, d) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF d < 0 THEN -d ELSE d) IN IF (x < 0) # (d < 0) THEN -q ELSE q   \* exact quotients
VDiv(a, b) == [i \in 1..Len(a) |-> Quot(a[i], b[i])]
Dot(a, b) == Sum(VMul(a, b))
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Lex(a, b) == IF a = b THEN 0 ELSE LET i == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..i - 1 : a[j] = b[j] IN Sgn(a[i] - b[i])
IsSquare(x) == x >= 0 /\ x < 1000000 /\ \E r \in 0..1000 : r * r = x
Root(x) == CHOOSE r \in 0..1000 : r * r = x
Abs(x) == IF x < 0 THEN -x ELSE x
(* matrices *)
Cols(m) == Len(m)
Rows(m) == Len(m[1])
Row(m, r) == [c \in 1..Cols(m) |-> m[c][r]]
MAdd(a, b) == [c \in 1..Cols(a) |-> VAdd(a[c], b[c])]
MSub(a, b) == [c \in 1..Cols(a) |-> VSub(a[c], b[c])]
MNeg(a) == [c \in 1..Cols(a) |-> VNeg(a[c])]
MScale(a, k) == [c \in 1..Cols(a) |-> Scale(a[c], k)]
MVec(m, v) == [r \in 1..Rows(m) |-> Dot(Row(m, r), v)]
MMul(a, b) == [c \in 1..Cols(b) |-> MVec(a, b[c])]
Transpose(m) == [r \in 1..Rows(m) |-> Row(m, r)]
Identity(n) == [i \in 1..n |-> Basis(n, i)]
Diag(c, r, k) == [i \in 1..c |-> [j \in 1..r |-> IF i = j THEN k ELSE 0]]
Outer(a, b) == [c \in 1..Len(b) |-> Scale(a, b[c])]
Hadamard(a, b) == [c \in 1..Cols(a) |-> VMul(a[c], b[c])]
Minor(m, c, r) == [i \in 1..Cols(m) - 1 |-> LET col == m[IF i < c THEN i ELSE i + 1] IN [j \in 1..Rows(m) - 1 |-> col[IF j < r THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(m) == IF Cols(m) = 1 THEN m[1][1]
          ELSE Sum([c \in 1..Cols(m) |-> (IF c % 2 = 1 THEN 1 ELSE -1) * m[c][1] * Det(Minor(m, c, 1))])
RECURSIVE Flat(_)
Flat(m) == IF m = <<>> THEN <<>> ELSE Head(m) \o Flat(Tail(m))
(* quaternions <<w, x, y, z>> *)
QMul(p, q) == <<p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1]>>
QNorm2(q) == Dot(q, q)
====
