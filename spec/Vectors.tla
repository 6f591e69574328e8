---- MODULE Vectors ----
(* Vector operations on probe operands, with their results; the laws the results obey.
   lo, hi: the least and greatest number occurring, so that a component type can be asked only what it can represent. *)
EXTENDS Extended, FiniteSets, TLC, Json
CONSTANTS N, Level
VARIABLES c
Prime == <<2, 3, 5, 7, 11, 13, 17, 19>>
Probe(k) == [i \in 1..N |->
   CASE k = 1 -> Prime[i]                                [] k = 2 -> Prime[N + 1 - i] * (IF i % 2 = 0 THEN -1 ELSE 1)
     [] k = 3 -> 0                                       [] k = 4 -> i
     [] k = 5 -> -i - 1                                  [] k = 6 -> (IF i = 1 THEN 4 ELSE 0)
     [] k = 7 -> (IF i = N THEN -2 ELSE 0)               [] k = 8 -> ((i * i) % 5) - 2
     [] k = 9 -> (IF i = 1 THEN 3 ELSE IF i = 2 THEN -4 ELSE IF i = 4 THEN 12 ELSE 0)
     [] k = 10 -> (IF i = 2 THEN 2 ELSE IF i = 3 THEN 3 ELSE IF i = 1 THEN -6 ELSE 0)
     [] k = 11 -> (IF i = N THEN 1 ELSE 2)               [] k = 12 -> 12 * ((i % 3) - 1) + 12
     [] k = 13 -> (IF i = 1 THEN 1 ELSE 6)               [] k = 14 -> 60 * i - 61
     [] k = 16 -> (IF i = 1 THEN 12345 ELSE IF i = 2 THEN -1023 ELSE 3)
     [] k = 15 -> (IF i < N THEN 5 ELSE 4)               [] OTHER -> ((7 * i + k * k) % 23) - 11]
Ks == {k \in 1..(15 + 4 * Level) : k # 16}
Big == Probe(16)
Huge == [i \in 1..N |-> 20000003 - 2 * i]      \* more digits than a float has
Scalars == {-3, -1, 0, 1, 2, 4, 7}
(* homogeneity: with every operand 2^k times as large (the scalar of "mulall" and "divall", the second operand of "reflect"
   and percents apart), the result is 2^(k d) times as large; so the harness also asks every case with fractions and with huge numbers *)
Degree(op) == CASE op \in {"mul", "dot", "cross", "selfmul", "mulown", "xmul", "xdot"} -> 2 [] op \in {"div", "selfdiv", "sign", "unit", "compare", "xdiv", "xcompare"} -> 0 [] OTHER -> 1
Mk(op, a, b, s, r, extra) ==
  LET all == a \o b \o <<s>> \o r \o extra IN
  [op |-> op, d |-> Degree(op), a |-> a, b |-> b, s |-> s, r |-> r,
   lo |-> CHOOSE x \in {all[i] : i \in 1..Len(all)} : \A i \in 1..Len(all) : x <= all[i],
   hi |-> CHOOSE x \in {all[i] : i \in 1..Len(all)} : \A i \in 1..Len(all) : x >= all[i]]
B2(x) == IF x THEN 1 ELSE 0
Partial(a, b) == [i \in 1..N |-> SumTo(VMul(a, b), i)] \o VMul(a, b)
Pairs(a, b) ==
  {Mk("add", a, b, 0, VAdd(a, b), <<>>), Mk("sub", a, b, 0, VSub(a, b), <<>>), Mk("mul", a, b, 0, VMul(a, b), <<>>),
   Mk("compare", a, b, 0, <<B2(a = b), Lex(a, b)>>, <<>>), Mk("dot", a, b, 0, <<Dot(a, b)>>, Partial(a, b)),
   Mk("face", a, b, 0, IF Dot(a, b) < 0 THEN a ELSE VNeg(a), Partial(a, b)),
   IF a[1] > 10000 THEN Mk("add", b, a, 0, VAdd(a, b), <<>>) ELSE Mk("reflect", a, b, 0, VSub(a, Scale(b, 2 * Dot(a, b))), Partial(a, b) \o Scale(b, Dot(a, b)) \o Scale(b, 2 * Dot(a, b)) \o <<2 * Dot(a, b)>>)}
  \cup (IF \A i \in 1..N : Divides(b[i], a[i]) THEN {Mk("div", a, b, 0, VDiv(a, b), <<>>)} ELSE {})
  \cup (IF N = 3 THEN {Mk("cross", a, b, 0, Cross(a, b), VMul(a, Cross(b, a)) \o <<a[2]*b[3], a[3]*b[2], a[3]*b[1], a[1]*b[3], a[1]*b[2], a[2]*b[1]>>)} ELSE {})
  \cup (IF IsSquare(Dot(VSub(a, b), VSub(a, b))) THEN {Mk("distance", a, b, 0, <<Root(Dot(VSub(a, b), VSub(a, b)))>>, <<Dot(VSub(a, b), VSub(a, b))>>)} ELSE {})
  \cup {Mk("lerp", Scale(a, 4), Scale(b, 4), k, VAdd(Scale(a, 4 - k), Scale(b, k)), <<>>) : k \in {0, 1, 2, 3, 4, -4, 8, 5}}      \* percent k / 4
  \cup {Mk("lerpv", Scale(a, 4), Scale(b, 4), k, [i \in 1..N |-> LET p == ((k + 3 * i) % 7) - 1 IN a[i] * (4 - p) + b[i] * p], <<>>) : k \in {0, 4}}    \* percents ((k + 3 i) mod 7 - 1) / 4
  \cup {Mk("lerpb", a, b, k, [i \in 1..N |-> IF (i + k) % 3 = 0 THEN a[i] ELSE b[i]], <<>>) : k \in 0..2}                       \* percents true and false
Singles(a) ==
  {Mk("neg", a, <<>>, 0, VNeg(a), <<>>), Mk("sign", a, <<>>, 0, [i \in 1..N |-> Sgn(a[i])], <<>>), Mk("construct", a, <<>>, 0, a, <<>>)}
  \cup {Mk("addall", a, <<>>, s, VAdd(a, Fill(N, s)), <<>>) : s \in Scalars} \cup {Mk("suball", a, <<>>, s, VSub(a, Fill(N, s)), <<>>) : s \in Scalars}
  \cup {Mk("mulall", a, <<>>, s, Scale(a, s), <<>>) : s \in Scalars} \cup {Mk("divall", a, <<>>, s, VDiv(a, Fill(N, s)), <<>>) : s \in {t \in Scalars : \A i \in 1..N : Divides(t, a[i])}}
  \cup {Mk("fill", a, <<>>, s, Fill(N, s), <<>>) : s \in Scalars}
  \cup {Mk("get", a, <<i>>, 0, <<a[i + 1]>>, <<>>) : i \in 0..N - 1} \cup {Mk("set", a, <<i>>, s, [a EXCEPT ![i + 1] = s], <<>>) : i \in 0..N - 1, s \in {0, 7}}
  \cup {Mk("selfadd", a, <<>>, 0, Scale(a, 2), <<>>), Mk("selfsub", a, <<>>, 0, Fill(N, 0), <<>>), Mk("selfmul", a, <<>>, 0, VMul(a, a), <<>>)}
  \cup (IF \A i \in 1..N : a[i] # 0 THEN {Mk("selfdiv", a, <<>>, 0, Fill(N, 1), <<>>)} ELSE {})
  \cup {Mk("addown", a, <<i>>, 0, VAdd(a, Fill(N, a[i + 1])), <<>>) : i \in 0..N - 1} \cup {Mk("mulown", a, <<i>>, 0, Scale(a, a[i + 1]), <<>>) : i \in 0..N - 1}
  \cup (IF IsSquare(Dot(a, a)) THEN {Mk("length", a, <<>>, 0, <<Root(Dot(a, a))>>, Partial(a, a))} ELSE {})
  \cup (IF IsSquare(Dot(a, a)) /\ Root(Dot(a, a)) \in {1, 2, 4, 8} THEN {Mk("unit", a, <<>>, 0, Scale(a, 8 \div Root(Dot(a, a))), <<>>)} ELSE {})      \* eight times the normalised vector
  \cup {Mk("unit", Scale(Basis(N, i), k), <<>>, 0, Scale(Basis(N, i), 8 * Sgn(k)), <<>>) : i \in 1..N, k \in {1, -2, 4}}
Plain ==
        \/ FALSE
        \/ \E i \in Ks, j \in Ks : c \in Pairs(Probe(i), Probe(j))
        \/ \E i \in Ks : c \in Singles(Probe(i))
        \/ \E i \in Ks : c \in {x \in Pairs(Big, VNeg(VAdd(Big, Probe(i)))) : x.op \notin {"distance"}}
        \/ c \in {x \in Singles(Big) : x.op # "length"}
        \/ c \in {Mk("add", Huge, Probe(2), 0, VAdd(Huge, Probe(2)), <<>>), Mk("sub", Probe(2), Huge, 0, VSub(Probe(2), Huge), <<>>), Mk("neg", Huge, <<>>, 0, VNeg(Huge), <<>>),
                   Mk("construct", Huge, <<>>, 0, Huge, <<>>), Mk("compare", Huge, VAdd(Huge, Basis(N, N)), 0, <<0, -1>>, <<>>),
                   Mk("addall", Probe(2), <<>>, Huge[1], VAdd(Probe(2), Fill(N, Huge[1])), <<>>), Mk("suball", Huge, <<>>, Huge[1], VSub(Huge, Fill(N, Huge[1])), <<>>),
                   Mk("mulall", Probe(2), <<>>, Huge[1], Scale(Probe(2), Huge[1]), <<>>), Mk("divall", Scale(Probe(2), Huge[1]), <<>>, Huge[1], Probe(2), <<>>),
                   Mk("mul", Probe(2), Huge, 0, VMul(Probe(2), Huge), <<>>), Mk("div", VMul(Probe(2), Huge), Huge, 0, Probe(2), <<>>),
                   Mk("fill", Huge, <<>>, Huge[1], Fill(N, Huge[1]), <<>>), Mk("set", Probe(2), <<N - 1>>, Huge[1], [Probe(2) EXCEPT ![N] = Huge[1]], <<>>)}
(* infinities and not-a-number in one component leave the others alone *)
Specials == {PInf, NInf, NaN, 0, 6, -2}
Among(base, k, x) == [base EXCEPT ![k] = x]
XPairs(a, b) ==
  {Mk("xadd", a, b, 0, Map2(XAdd, a, b), <<>>), Mk("xsub", a, b, 0, Map2(XSub, a, b), <<>>), Mk("xmul", a, b, 0, Map2(XMul, a, b), <<>>),
   Mk("xcompare", a, b, 0, <<B2(VEq(a, b)), XLex(a, b)>>, <<>>), Mk("xdot", a, b, 0, <<XDot(a, b)>>, <<>>)}
  \cup (IF \A i \in 1..N : XDivides(b[i], a[i]) THEN {Mk("xdiv", a, b, 0, Map2(XDiv, a, b), <<>>)} ELSE {})
XSingles(a) ==
  {Mk("xneg", a, <<>>, 0, [i \in 1..N |-> XNeg(a[i])], <<>>), Mk("xconstruct", a, <<>>, 0, a, <<>>)}
  \cup {Mk("xget", a, <<i - 1>>, 0, <<a[i]>>, <<>>) : i \in 1..N}
  \cup {Mk("xset", a, <<i - 1>>, s, Among(a, i, s), <<>>) : i \in 1..N, s \in {PInf, NaN, 7}}
  \cup UNION {{Mk("xaddall", a, <<>>, s, Map2(XAdd, a, Fill(N, s)), <<>>), Mk("xsuball", a, <<>>, s, Map2(XSub, a, Fill(N, s)), <<>>), Mk("xmulall", a, <<>>, s, Map2(XMul, a, Fill(N, s)), <<>>)} : s \in Specials}
  \cup {Mk("xdivall", a, <<>>, s, Map2(XDiv, a, Fill(N, s)), <<>>) : s \in {t \in Specials : \A i \in 1..N : XDivides(t, a[i])}}
Exotic == \/ \E k \in 1..N, u, v \in Specials : c \in XPairs(Among(Scale(Probe(4), 12), k, u), Among([i \in 1..N |-> 1 + (i % 3)], k, v))
          \/ \E k \in 1..N, u, v \in Specials : c \in {x \in XPairs(Among(Probe(4), k, u), Among(Probe(4), k, v)) : x.op = "xcompare"}
          \/ \E k \in 1..N, u \in Specials : c \in XSingles(Among(Probe(4), k, u))
Init == Plain \/ Exotic
Next == FALSE /\ c' = c
Emit == PrintT("@E " \o ToJson(c))
(* the definitions mean what geometry says *)
Laws == LET a == c.a  b == c.b IN
  /\ c.op = "cross" /\ a[1] < 10000 => Dot(c.r, a) = 0 /\ Dot(c.r, b) = 0 /\ Cross(b, a) = VNeg(c.r) /\ (a[1] < 1000 => Dot(c.r, c.r) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b))
  /\ c.op = "dot" => c.r[1] = Dot(b, a)
  /\ c.op = "add" => VSub(c.r, b) = a /\ c.r = VAdd(b, a)
  /\ c.op = "reflect" /\ Dot(b, b) = 1 => Dot(c.r, c.r) = Dot(a, a) /\ Dot(c.r, b) = -Dot(a, b)
  /\ c.op = "face" /\ Dot(a, b) # 0 => Dot(c.r, b) < 0 /\ c.r \in {a, VNeg(a)}
  /\ c.op = "length" => c.r[1] >= 0
====
