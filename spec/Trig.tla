---- MODULE Trig ----
(* Sine and cosine by quadrants and their power series, and what each function of the library has to give in terms of them. *)
EXTENDS Constants
(* <<term, k, sum>>: the terms of x^k/k! with k even or odd and alternating signs *)
Series(first, k, sq) == Iterate(LAMBDA a : IF IsZero(a[1]) THEN a ELSE
  <<Over(Neg(Mul(a[1], sq)), (a[2] + 1) * (a[2] + 2)), a[2] + 2, Add(a[3], a[1])>>, <<first, k, Zero>>, 24)[3]
SinCos0(r) == Strict({<<Series(r, 1, q), Series(One, 0, q)>> : q \in {Sqr(r)}})            \* |r| <= 0.8
(* the quadrant n of |x| (a number without fraction) with | |x| - n pi/2 | <= pi/4 and what is left *)
Floor(x) == Num(x.s, [i \in 1..L |-> IF i <= 4 THEN x.m[i] ELSE 0])                         \* x >= 0
Half == Over(One, 2)
SinCos(x, pi) ==                                                                            \* <<sin x, cos x>>
  Strict({ Strict({ Strict({ LET q == n.m[4] % 4
                                 s == IF q = 0 THEN sc[1] ELSE IF q = 1 THEN sc[2] ELSE IF q = 2 THEN Neg(sc[1]) ELSE Neg(sc[2])
                                 c == IF q = 0 THEN sc[2] ELSE IF q = 1 THEN Neg(sc[1]) ELSE IF q = 2 THEN Neg(sc[2]) ELSE sc[1]
                             IN <<IF x.s < 0 THEN Neg(s) ELSE s, c>> : sc \in {SinCos0(Sub(Abs(x), Mul(n, h)))} })
                    : n \in {Floor(Add(Div(Abs(x), h), Half))} }) : h \in {Over(pi, 2)} })
Angles == {"radians", "degrees"}
Direct == {"sin", "cos", "tan", "sec", "csc", "cot"}
Arcs == {"arcsin", "arccos", "arctan"}
Within(x, lo, hi, p) == (Cmp(x, lo) >= 0 /\ Cmp(x, hi) <= 0) \/ Close(x, lo, lo, p - 1) \/ Close(x, hi, hi, p - 1)
AgreesDirect(f, y, s, c, t) ==               \* s, c: sine and cosine of the argument
  CASE f = "sin" -> Close(y, s, s, t)
    [] f = "cos" -> Close(y, c, c, t)
    [] f = "tan" -> Close(Grow(Mul(y, c), y.e), s, s, t)
    [] f = "sec" -> Close(Grow(Mul(y, c), y.e), One, One, t)
    [] f = "csc" -> Close(Grow(Mul(y, s), y.e), One, One, t)
    [] f = "cot" -> Close(Grow(Mul(y, s), y.e), c, c, t)
AgreesArc(f, x, y, s, c, p, pi) ==           \* s, c: sine and cosine of the result, which may be off by e
  LET e == Shrink(Abs(y), p - 3)  h == Over(pi, 2)
  IN CASE f = "arcsin" -> Close(s, x, Mul(e, Add(Abs(c), e)), 0) /\ Within(y, Neg(h), h, p)
       [] f = "arccos" -> Close(c, x, Mul(e, Add(Abs(s), e)), 0) /\ Within(y, Zero, pi, p)
       [] f = "arctan" -> Close(s, Mul(x, c), Mul(e, Add(Abs(c), Mul(Abs(x), Abs(s)))), 0) /\ Within(y, Neg(h), h, p)
(* f(x) = y 2^y.e to the last few bits of a precision of p bits *)
Agrees(f, x, y, p, pi) ==
  LET t == p - 3                              \* tolerances are 2^-t
  IN CASE f = "radians" -> y.e = 0 /\ Strict({Close(Small(y, 180), v, v, t) : v \in {Mul(x, pi)}})
       [] f = "degrees" -> y.e = 0 /\ Strict({Close(Mul(y, pi), v, v, t) : v \in {Small(x, 180)}})
       [] f \in Direct -> \A a \in {SinCos(x, pi)} : AgreesDirect(f, y, a[1], a[2], t)
       [] f \in Arcs -> y.e = 0 /\ \A a \in {SinCos(y, pi)} : AgreesArc(f, x, y, a[1], a[2], p, pi)
(* where the function has no value *)
Undefined(f, x) == f \in {"arcsin", "arccos"} /\ Cmp(Abs(x), One) > 0
Pole(f, x) == f \in {"csc", "cot"} /\ IsZero(x)
====
