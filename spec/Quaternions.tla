---- MODULE Quaternions ----
(* The Hamilton algebra on <<w, x, y, z>>, on probes and all pairs of basis elements. *)
EXTENDS Extended, FiniteSets, TLC, Json
CONSTANTS Level
VARIABLES c
Random(k) == [i \in 1..4 |-> ((i * i * k + 5 * i + k * k * i) % 23) - 11]
Probes == {<<1, 2, 3, 4>>, <<-5, 7, -11, 13>>, <<0, 0, 0, 0>>, <<2, 0, 0, 0>>, <<0, 3, 0, -2>>} \cup {Random(k) : k \in 1..(4 + 12 * Level)}
Units == {Scale(Basis(4, i), k) : i \in 1..4, k \in {1, -3}}
Huge == <<20000001, 20000003, -20000005, 20000007>>
Degree(op) == CASE op \in {"mul", "selfmul", "xmul", "wmul"} -> 2 [] op \in {"compare", "xcompare"} -> 0 [] OTHER -> 1
Mk(op, a, b, s, r, extra) ==
  LET all == a \o b \o <<s>> \o r \o extra IN
  [op |-> op, d |-> Degree(op), a |-> a, b |-> b, s |-> s, r |-> r,
   lo |-> CHOOSE x \in {all[i] : i \in 1..Len(all)} : \A i \in 1..Len(all) : x <= all[i],
   hi |-> CHOOSE x \in {all[i] : i \in 1..Len(all)} : \A i \in 1..Len(all) : x >= all[i]]
Min4(v) == CHOOSE x \in {v[i] : i \in 1..4} : \A i \in 1..4 : x <= v[i]
Max4(v) == CHOOSE x \in {v[i] : i \in 1..4} : \A i \in 1..4 : x >= v[i]
B2(x) == IF x THEN 1 ELSE 0
Bound(a, b) == LET m(s) == CHOOSE x \in {Abs(s[i]) : i \in 1..4} : \A i \in 1..4 : x >= Abs(s[i]) IN <<4 * m(a) * m(b)>>
Pairs(a, b) ==
  {Mk("add", a, b, 0, VAdd(a, b), <<>>), Mk("sub", a, b, 0, VSub(a, b), <<>>), Mk("compare", a, b, 0, <<B2(a = b), Lex(a, b)>>, <<>>), Mk("mul", a, b, 0, QMul(a, b), Bound(a, b))}
Singles(a) ==
  {Mk("construct", a, <<>>, 0, a, <<>>), Mk("selfadd", a, <<>>, 0, Scale(a, 2), <<>>)}
  \cup {Mk("get", a, <<i - 1>>, 0, <<a[i]>>, <<>>) : i \in 1..4} \cup {Mk("set", a, <<i - 1>>, 7, [a EXCEPT ![i] = 7], <<>>) : i \in 1..4}
Plain ==
        \/ \E a \in Probes \cup Units, b \in Probes \cup Units : c \in Pairs(a, b)
        \/ \E a \in Probes \cup Units : c \in Singles(a) \cup {Mk("selfmul", a, <<>>, 0, QMul(a, a), Bound(a, a))}
        \/ c \in Singles(Huge) \cup {x \in Pairs(Huge, Basis(4, 1)) : x.op # "mul"}
        \/ \E u \in Units : c \in {Mk("mul", Huge, u, 0, QMul(Huge, u), <<>>), Mk("mul", u, Huge, 0, QMul(u, Huge), <<>>)}
(* infinities and not-a-number *)
Specials == {PInf, NInf, NaN, 0, -2}
Among(k, x) == [<<2, 3, 5, 7>> EXCEPT ![k] = x]
Sum4(a, b, d, e) == XAdd(XAdd(a, b), XAdd(d, e))
XQMul(p, q) == LET m(n, l) == XMul(p[n], q[l])  w(n, l) == XNeg(XMul(p[n], q[l])) IN
  <<Sum4(m(1, 1), w(2, 2), w(3, 3), w(4, 4)), Sum4(m(1, 2), m(2, 1), m(3, 4), w(4, 3)), Sum4(m(1, 3), w(2, 4), m(3, 1), m(4, 2)), Sum4(m(1, 4), m(2, 3), w(3, 2), m(4, 1))>>
ASSUME \A p, q \in Probes : XQMul(p, q) = QMul(p, q)
XPairs(a, b) ==
  {Mk("xadd", a, b, 0, Map2(XAdd, a, b), <<>>), Mk("xsub", a, b, 0, Map2(XSub, a, b), <<>>), Mk("xmul", a, b, 0, XQMul(a, b), <<>>),
   Mk("xcompare", a, b, 0, <<B2(VEq(a, b)), XLex(a, b)>>, <<>>)}
Exotic ==
        \/ \E n, l \in 1..4, u, v \in Specials : c \in XPairs(Among(n, u), Among(l, v))
        \/ \E n \in 1..4, u \in Specials : c \in {Mk("xconstruct", Among(n, u), <<>>, 0, Among(n, u), <<>>), Mk("xget", Among(n, u), <<n - 1>>, 0, <<u>>, <<>>), Mk("xset", Among(n, u), <<n - 1>>, 7, Among(n, 7), <<>>), Mk("xset", Among(n, u), <<n % 4>>, 7, [Among(n, u) EXCEPT ![(n % 4) + 1] = 7], <<>>)}
(* operands of different precision: the right one has more digits than a float, but the result has not *)
Small == {<<1, 1, 0, 0>>, <<-1, 0, 1, 0>>, <<0, 1, 0, 1>>, <<1, 0, 0, -1>>, <<1, 1, -1, 1>>, <<0, 0, 3, 3>>, <<16777215, 1, -1, -16777215>>, <<-3, 5, 7, -9>>, <<1, 0, 0, 0>>, <<0, 0, 0, -1>>}
Wide == {[n \in 1..4 |-> CASE n = p -> 16777217 [] n = q -> m [] OTHER -> k] : p, q \in 1..4, m \in {16777215, -16777215, -16777217}, k \in {0, -2, 16777217}}
Fits(x) == \/ Abs(x) <= 16777216 \/ (Abs(x) <= 33554432 /\ x % 2 = 0) \/ (Abs(x) <= 67108864 /\ x % 4 = 0)
AllFit(v) == \A n \in 1..4 : Fits(v[n])
Width(x) == [x EXCEPT !.lo = Min4(x.a), !.hi = Max4(x.a)]
Wider(a, b) ==
  {Width(x) : x \in {Mk("wadd", a, b, 0, VAdd(a, b), <<>>), Mk("wsub", a, b, 0, VSub(a, b), <<>>)}} \cup (IF \A n \in 1..4 : Abs(a[n]) < 10 THEN {Width(Mk("wmul", a, b, 0, QMul(a, b), <<>>))} ELSE {})
Mixed == \E a \in Small, b \in Wide : c \in {x \in Wider(a, b) : AllFit(x.r)}
Init == Plain \/ Exotic \/ Mixed
Next == FALSE /\ c' = c
Emit == PrintT("@E " \o ToJson(c))
one == Basis(4, 1)  i == Basis(4, 2)  j == Basis(4, 3)  k == Basis(4, 4)
ASSUME Hamilton == /\ QMul(i, j) = k /\ QMul(j, k) = i /\ QMul(k, i) = j /\ QMul(j, i) = VNeg(k) /\ QMul(k, j) = VNeg(i) /\ QMul(i, k) = VNeg(j)
                   /\ \A q \in {i, j, k} : QMul(q, q) = VNeg(one) /\ QMul(one, q) = q /\ QMul(q, one) = q
Laws == c.op = "mul" /\ (\A n \in 1..4 : Abs(c.a[n]) < 1000 /\ Abs(c.b[n]) < 1000) =>
  /\ QNorm2(c.r) = QNorm2(c.a) * QNorm2(c.b)
  /\ \A q \in Units \cup {<<1, 2, 3, 4>>, <<-5, 7, -11, 13>>} : QMul(c.r, q) = QMul(c.a, QMul(c.b, q)) /\ QMul(c.a, VAdd(c.b, q)) = VAdd(c.r, QMul(c.a, q)) /\ QMul(VAdd(c.a, q), c.b) = VAdd(c.r, QMul(q, c.b))
====
