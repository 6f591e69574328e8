---- MODULE Extended ----
(* Arithmetic with infinities and not-a-number, as IEC 60559 defines it; every zero operand is a positive zero. *)
EXTENDS LinAlg
PInf == 7001
NInf == 7002
NaN == 7003
Special(x) == x \in {PInf, NInf, NaN}
XSgn(x) == CASE x = PInf -> 1 [] x = NInf -> -1 [] OTHER -> Sgn(x)
XInf(s) == IF s > 0 THEN PInf ELSE NInf
XNeg(x) == CASE x = PInf -> NInf [] x = NInf -> PInf [] x = NaN -> NaN [] OTHER -> -x
XAdd(x, y) == IF NaN \in {x, y} THEN NaN ELSE IF Special(x) /\ Special(y) THEN (IF x = y THEN x ELSE NaN)
              ELSE IF Special(x) THEN x ELSE IF Special(y) THEN y ELSE x + y
XSub(x, y) == XAdd(x, XNeg(y))
XMul(x, y) == IF NaN \in {x, y} THEN NaN ELSE IF Special(x) \/ Special(y) THEN (IF 0 \in {x, y} THEN NaN ELSE XInf(XSgn(x) * XSgn(y))) ELSE x * y
XDivides(y, x) == Special(x) \/ Special(y) \/ y = 0 \/ Divides(y, x)
XDiv(x, y) == IF NaN \in {x, y} \/ (Special(x) /\ Special(y)) THEN NaN
              ELSE IF Special(y) THEN 0
              ELSE IF y = 0 THEN (IF x = 0 THEN NaN ELSE XInf(XSgn(x)))
              ELSE IF Special(x) THEN XInf(XSgn(x) * XSgn(y)) ELSE Quot(x, y)
XEq(x, y) == x = y /\ x # NaN
XOrder(x, y) == IF NaN \in {x, y} THEN 2 ELSE IF x = y THEN 0 ELSE IF x = PInf \/ y = NInf THEN 1 ELSE IF x = NInf \/ y = PInf THEN -1 ELSE Sgn(x - y)     \* 2: unordered
RECURSIVE XLex(_, _)
XLex(a, b) == IF a = <<>> THEN 0 ELSE IF XEq(a[1], b[1]) THEN XLex(Tail(a), Tail(b)) ELSE XOrder(a[1], b[1])
VEq(a, b) == \A i \in 1..Len(a) : XEq(a[i], b[i])
Map2(Op(_, _), a, b) == [i \in 1..Len(a) |-> Op(a[i], b[i])]
RECURSIVE XSum(_)
XSum(s) == IF s = <<>> THEN 0 ELSE XAdd(s[1], XSum(Tail(s)))
XDot(a, b) == XSum(Map2(XMul, a, b))
ASSUME \A x, y \in {PInf, NInf, NaN, 0, 2, -3} :
  /\ XAdd(x, y) = XAdd(y, x) /\ XMul(x, y) = XMul(y, x) /\ XSub(x, y) = XNeg(XSub(y, x)) /\ XMul(XNeg(x), y) = XNeg(XMul(x, y))
  /\ (XOrder(x, y) = 2) = (NaN \in {x, y}) /\ (XOrder(x, y) = 0) = XEq(x, y) /\ XNeg(XNeg(x)) = x
====
