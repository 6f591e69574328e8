---- MODULE Matrices ----
(* Matrix operations on probe matrices of C columns and R rows, with their results; the laws the results obey.
   A case carries its matrices flattened column by column, which is also how they lie in memory. *)
EXTENDS Extended, FiniteSets, TLC, Json
CONSTANTS C, R, Ks, Level
VARIABLES c
Random(cols, rows, k) == [i \in 1..cols |-> [j \in 1..rows |-> LET n == i * 7 + j * 3 + i * j * k + k * k + i * i IN (n % 19) - 9]]
Unit(cols, rows, x, y) == [i \in 1..cols |-> [j \in 1..rows |-> IF i = x /\ j = y THEN 1 ELSE 0]]
Count(cols, rows) == [i \in 1..cols |-> [j \in 1..rows |-> (i - 1) * rows + j]]
Probes(cols, rows) == {Count(cols, rows), Diag(cols, rows, 1), Diag(cols, rows, 0)} \cup {Random(cols, rows, k) : k \in 1..(3 + 4 * Level)}
Units(cols, rows) == {Unit(cols, rows, x, y) : x \in 1..cols, y \in 1..rows}
VecProbes(n) == {[i \in 1..n |-> i], [i \in 1..n |-> ((5 * i * i) % 11) - 5], [i \in 1..n |-> IF i = n THEN 4 ELSE -2]} \cup {Basis(n, i) : i \in 1..n}
Big == [i \in 1..C |-> [j \in 1..R |-> 20000001 + 2 * (i * R + j)]]
Degree(op) == CASE op \in {"matmul", "matvec", "hadamard", "outer", "xmatmul", "xmatvec", "xhadamard", "xouter"} -> 2 [] op = "det" -> C [] op \in {"compare", "default", "xcompare"} -> 0 [] OTHER -> 1
(* numbers whose range a component type has to represent: operands, result, and the products that are summed *)
Mk(op, a, b, s, r, extra) ==
  LET all == a \o b \o <<s>> \o r \o extra IN
  [op |-> op, d |-> Degree(op), a |-> a, b |-> b, s |-> s, r |-> r,
   lo |-> CHOOSE x \in {all[i] : i \in 1..Len(all)} : \A i \in 1..Len(all) : x <= all[i],
   hi |-> CHOOSE x \in {all[i] : i \in 1..Len(all)} : \A i \in 1..Len(all) : x >= all[i]]
B2(x) == IF x THEN 1 ELSE 0
Scalars == {-2, 0, 1, 3, 8}
Bound(a, b, n) == LET m(s) == CHOOSE x \in {Abs(s[i]) : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= Abs(s[i]) IN <<n * m(a) * m(b)>>
Singles(m) ==
  {Mk("construct", Flat(m), <<>>, 0, Flat(m), <<>>), Mk("neg", Flat(m), <<>>, 0, Flat(MNeg(m)), <<>>), Mk("transpose", Flat(m), <<>>, 0, Flat(Transpose(m)), <<>>),
   Mk("selfadd", Flat(m), <<>>, 0, Flat(MScale(m, 2)), <<>>), Mk("selfsub", Flat(m), <<>>, 0, Flat(MScale(m, 0)), <<>>)}
  \cup {Mk("mulall", Flat(m), <<>>, s, Flat(MScale(m, s)), <<>>) : s \in Scalars} \cup {Mk("divall", Flat(MScale(m, s)), <<>>, s, Flat(m), <<>>) : s \in Scalars \ {0}}
  \cup {Mk("addall", Flat(m), <<>>, s, Flat([i \in 1..C |-> VAdd(m[i], Fill(R, s))]), <<>>) : s \in Scalars} \cup {Mk("suball", Flat(m), <<>>, s, Flat([i \in 1..C |-> VSub(m[i], Fill(R, s))]), <<>>) : s \in Scalars}
  \cup {Mk("column", Flat(m), <<i - 1>>, 0, m[i], <<>>) : i \in 1..C} \cup {Mk("row", Flat(m), <<j - 1>>, 0, Row(m, j), <<>>) : j \in 1..R}
  \cup {Mk("set", Flat(m), <<i - 1, j - 1>>, 7, Flat([m EXCEPT ![i] = [@ EXCEPT ![j] = 7]]), <<>>) : i \in 1..C, j \in 1..R}
  \cup {Mk("setcolumn", Flat(m), <<i - 1>>, 7, Flat([m EXCEPT ![i] = [j \in 1..R |-> 7 * j]]), <<>>) : i \in 1..C}
Dets(m) == IF C = R /\ C \in 2..4 THEN {Mk("det", Flat(m), <<>>, 0, <<Det(m)>>, Bound(<<Det(m)>>, <<1>>, 1))} ELSE {}
Pairs(m, n) ==
  {Mk("add", Flat(m), Flat(n), 0, Flat(MAdd(m, n)), <<>>), Mk("sub", Flat(m), Flat(n), 0, Flat(MSub(m, n)), <<>>),
   Mk("hadamard", Flat(m), Flat(n), 0, Flat(Hadamard(m, n)), <<>>), Mk("compare", Flat(m), Flat(n), 0, <<B2(m = n), Lex(Flat(m), Flat(n))>>, <<>>)}
Product(m, n) == Mk("matmul", Flat(m), Flat(n), 0, Flat(MMul(m, n)), Bound(Flat(m), Flat(n), C))
Apply(m, v) == Mk("matvec", Flat(m), v, 0, MVec(m, v), Bound(Flat(m), v, C))
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Plain ==
        \/ \E m \in Probes(C, R) : c \in Singles(m) \cup Dets(m)
        \/ \E m \in Probes(C, R), n \in Probes(C, R) \cup Units(C, R) : c \in Pairs(m, n) \cup Pairs(n, m)
        \/ \E k \in Ks : \E m \in Probes(C, R), n \in Probes(k, C) : c = Product(m, n)
        \/ \E k \in Ks : \E m \in Units(C, R), n \in Units(k, C) : c = Product(MScale(m, 2), MScale(n, 3))                    \* all of the bilinear map
        \/ \E m \in Probes(C, R) \cup Units(C, R), v \in VecProbes(C) : c = Apply(m, v)
        \/ \E v \in VecProbes(R), w \in VecProbes(C) : c = Mk("outer", v, w, 0, Flat(Outer(v, w)), <<>>)
        \/ \E s \in Scalars : c = Mk("diag", <<>>, <<>>, s, Flat(Diag(C, R, s)), <<>>)
        \/ c = Mk("default", <<>>, <<>>, 0, Flat(Diag(C, R, 1)), <<>>)
        \/ /\ C = 4 /\ R = 4
           /\ \E m \in Probes(3, 3) : c = [Mk("from3", Flat(m), <<>>, 0, Flat([i \in 1..4 |-> IF i = 4 THEN Basis(4, 4) ELSE m[i] \o <<0>>]), <<>>) EXCEPT !.d = 0]
        \/ /\ C = R /\ C \in 2..4
           /\ \E p \in Perms(C), k \in {1, 2} : c \in Dets([i \in 1..C |-> Scale(Basis(C, p[i]), i + k)])                  \* all terms of the determinant
        \/ /\ C = R /\ C \in 2..4
           /\ \E k \in 1..(30 + 60 * Level) : c \in Dets(Random(C, C, 7 * k + 5))
        \/ c \in {Mk("construct", Flat(Big), <<>>, 0, Flat(Big), <<>>), Mk("neg", Flat(Big), <<>>, 0, Flat(MNeg(Big)), <<>>), Mk("transpose", Flat(Big), <<>>, 0, Flat(Transpose(Big)), <<>>),
                  Mk("add", Flat(Big), Flat(Big), 0, Flat(MScale(Big, 2)), <<>>), Mk("diag", <<>>, <<>>, 20000001, Flat(Diag(C, R, 20000001)), <<>>),
                  Mk("addall", Flat(Count(C, R)), <<>>, 20000001, Flat([i \in 1..C |-> VAdd(Count(C, R)[i], Fill(R, 20000001))]), <<>>),
                  Mk("mulall", Flat(Count(C, R)), <<>>, 20000001, Flat(MScale(Count(C, R), 20000001)), <<>>),
                  Mk("divall", Flat(MScale(Count(C, R), 20000001)), <<>>, 20000001, Flat(Count(C, R)), <<>>)}
        \/ \E v \in {Basis(C, i) : i \in 1..C} : c = Mk("matvec", Flat(Big), v, 0, MVec(Big, v), <<>>)
        \/ \E k \in Ks : c = Mk("matmul", Flat(Big), Flat(Diag(k, C, 1)), 0, Flat(MMul(Big, Diag(k, C, 1))), <<>>)
(* infinities and not-a-number in one element reach only the elements that depend on it *)
Specials == {PInf, NInf, NaN, 0, -2}
Map1(Op(_), m) == [i \in 1..Cols(m) |-> [j \in 1..Rows(m) |-> Op(m[i][j])]]
MapM(Op(_, _), m, n) == [i \in 1..Cols(m) |-> Map2(Op, m[i], n[i])]
AllOf(s) == [i \in 1..C |-> Fill(R, s)]
Among(m, x, y, v) == [m EXCEPT ![x] = [@ EXCEPT ![y] = v]]
XMVec(m, v) == [r \in 1..Rows(m) |-> XDot(Row(m, r), v)]
XMMul(m, n) == [k \in 1..Cols(n) |-> XMVec(m, n[k])]
XSingles(m, s) ==
  {Mk("xconstruct", Flat(m), <<>>, 0, Flat(m), <<>>), Mk("xneg", Flat(m), <<>>, 0, Flat(Map1(XNeg, m)), <<>>), Mk("xtranspose", Flat(m), <<>>, 0, Flat(Transpose(m)), <<>>),
   Mk("xaddall", Flat(m), <<>>, s, Flat(MapM(XAdd, m, AllOf(s))), <<>>), Mk("xsuball", Flat(m), <<>>, s, Flat(MapM(XSub, m, AllOf(s))), <<>>),
   Mk("xmulall", Flat(m), <<>>, s, Flat(MapM(XMul, m, AllOf(s))), <<>>)}
  \cup (IF \A i \in 1..C, j \in 1..R : XDivides(s, m[i][j]) THEN {Mk("xdivall", Flat(m), <<>>, s, Flat(MapM(XDiv, m, AllOf(s))), <<>>)} ELSE {})
  \cup {Mk("xcolumn", Flat(m), <<i - 1>>, 0, m[i], <<>>) : i \in 1..C} \cup {Mk("xrow", Flat(m), <<j - 1>>, 0, Row(m, j), <<>>) : j \in 1..R}
XPairs(m, n) ==
  {Mk("xadd", Flat(m), Flat(n), 0, Flat(MapM(XAdd, m, n)), <<>>), Mk("xsub", Flat(m), Flat(n), 0, Flat(MapM(XSub, m, n)), <<>>),
   Mk("xhadamard", Flat(m), Flat(n), 0, Flat(MapM(XMul, m, n)), <<>>), Mk("xcompare", Flat(m), Flat(n), 0, <<B2(VEq(Flat(m), Flat(n))), XLex(Flat(m), Flat(n))>>, <<>>)}
Exotic ==
        \/ \E x \in 1..C, y \in 1..R, u, v \in Specials : c \in XPairs(Among(Count(C, R), x, y, u), Among(Count(C, R), x, y, v))
        \/ \E x \in 1..C, y \in 1..R, u, s \in Specials : c \in XSingles(Among(Count(C, R), x, y, u), s)
        \/ \E x \in 1..C, y \in 1..R, u \in Specials, v \in VecProbes(C) : c = LET m == Among(Count(C, R), x, y, u) IN Mk("xmatvec", Flat(m), v, 0, XMVec(m, v), <<>>)
        \/ \E x \in 1..C, u \in Specials : c = LET v == [i \in 1..C |-> IF i = x THEN u ELSE i] IN Mk("xmatvec", Flat(Count(C, R)), v, 0, XMVec(Count(C, R), v), <<>>)
        \/ \E x \in 1..C, y \in 1..R, u \in {PInf, NaN} : \E k \in Ks : c = LET m == Among(Count(C, R), x, y, u)  n == Random(k, C, 2) IN Mk("xmatmul", Flat(m), Flat(n), 0, Flat(XMMul(m, n)), <<>>)
        \/ \E k \in Ks : \E x \in 1..k, y \in 1..C, u \in {NInf, NaN} : c = LET m == Random(C, R, 3)  n == Among(Count(k, C), x, y, u) IN Mk("xmatmul", Flat(m), Flat(n), 0, Flat(XMMul(m, n)), <<>>)
        \/ \E y \in 1..R, u \in Specials, w \in VecProbes(C) : c = LET v == [i \in 1..R |-> IF i = y THEN u ELSE i] IN Mk("xouter", v, w, 0, Flat([i \in 1..C |-> Map2(XMul, v, Fill(R, w[i]))]), <<>>)
Init == Plain \/ Exotic
Next == FALSE /\ c' = c
Emit == PrintT("@E " \o ToJson(c))
Un(f, cols, rows) == [i \in 1..cols |-> SubSeq(f, (i - 1) * rows + 1, i * rows)]
Small(f) == \A i \in 1..Len(f) : Abs(f[i]) < 1000
(* the laws that follow for every shape *)
Laws == Small(c.a) /\ Small(c.b) =>
  /\ c.op = "matmul" => LET k == Len(c.b) \div C  a == Un(c.a, C, R)  b == Un(c.b, k, C)  r == Un(c.r, k, R) IN
       /\ \A v \in VecProbes(k) : MVec(r, v) = MVec(a, MVec(b, v))
       /\ Transpose(r) = MMul(Transpose(b), Transpose(a))
       /\ MMul(r, Count(2, k)) = MMul(a, MMul(b, Count(2, k)))
       /\ (C = R /\ k = C /\ C <= 3 => Det(r) = Det(a) * Det(b))
  /\ c.op = "det" => LET a == Un(c.a, C, R) IN c.r[1] = Det(Transpose(a))
  /\ c.op = "transpose" => Transpose(Un(c.r, R, C)) = Un(c.a, C, R)
  /\ c.op = "outer" => \A v \in VecProbes(C) : MVec(Un(c.r, C, R), v) = Scale(c.a, Dot(c.b, v))
  /\ c.op = "matvec" => c.r = [j \in 1..R |-> Sum([i \in 1..C |-> c.b[i] * Un(c.a, C, R)[i][j]])]
====
