---- MODULE Constants ----
(* The mathematical constants by their defining series, to more than 40 decimals. *)
EXTENDS BigNum
(* the sum of sign^k / ((2k+1) q^(2k+1)): arctan(1/q) or artanh(1/q); <<term, k, sum>> *)
ArcSeries(q, alt) == Iterate(LAMBDA a : IF IsZero(a[1]) THEN a ELSE
  <<Over(a[1], q * q), a[2] + 1, Add(a[3], Over(IF alt /\ a[2] % 2 = 1 THEN Neg(a[1]) ELSE a[1], 2 * a[2] + 1))>>, <<Over(One, q), 0, Zero>>, 85)[3]
ArcTanInv(q) == ArcSeries(q, TRUE)
ArTanhInv(q) == ArcSeries(q, FALSE)
Pi == Sub(Small(ArcTanInv(5), 16), Small(ArcTanInv(239), 4))                                      \* Machin
Pi2 == Sqr(Pi)
LnTwo == Add(Add(Small(ArTanhInv(31), 14), Small(ArTanhInv(49), 10)), Small(ArTanhInv(161), 6))
LnTen == Add(Add(Small(ArTanhInv(31), 46), Small(ArTanhInv(49), 34)), Small(ArTanhInv(161), 20))
Exp(x) == Strict({Iterate(LAMBDA a : IF IsZero(a[1]) THEN a ELSE <<Over(Mul(a[1], u), a[2]), a[2] + 1, Add(a[3], a[1])>>, <<One, 1, Zero>>, 90)[3] : u \in {x}})
E == Exp(One)
(* F(n) = (phi^n - (-1/phi)^n) / sqrt 5 *)
SqrtFive == Sqrt(Whole(5))
Phi == Over(Add(One, SqrtFive), 2)
Psi(n, x, u) == IF n > 32 THEN LET w == IF n % 2 = 0 THEN Sqr(u) ELSE Neg(Sqr(u)) IN Strict({Mul(u, Add(One, Add(v, Sqr(v)))) : v \in {w}})      \* u / (1 - w), |w| < 10^-13; u w^3 < 10^-46
                ELSE Strict({Div(u, IF n % 2 = 0 THEN Sub(One, v) ELSE Add(One, v)) : v \in {Sqr(u)}})
InvFibonacci == Strict({Mul(root, Iterate(LAMBDA a : IF IsZero(a[1]) THEN a ELSE                \* sum of sqrt5 x^n / (1 - (-1)^n x^(2n)), x = 1/phi
  <<Mul(a[1], x), a[2] + 1, Add(a[3], Psi(a[2], x, a[1]))>>, <<x, 1, Zero>>, 240)[3]) : root \in {SqrtFive}, x \in {Sub(Phi, One)}})
(* sums over n of +- 1/(n^3 C(2n, n)) and of 1/((2n+1)^2 C(2n, n)); <<1/C(2n, n), n, sum>> *)
Cube(x, n) == Over(Over(Over(x, n), n), n)
CentralSum(kind) == Iterate(LAMBDA a : IF IsZero(a[1]) THEN a ELSE
  <<Over(Small(a[1], a[2] + 1), 2 * (2 * a[2] + 1)), a[2] + 1,
    Add(a[3], IF kind = "zeta" THEN (IF a[2] = 0 THEN Zero ELSE Small(Cube(a[1], a[2]), IF a[2] % 2 = 1 THEN 1 ELSE -1)) ELSE Over(Over(a[1], 2 * a[2] + 1), 2 * a[2] + 1))>>, <<One, 0, Zero>>, 85)[3]
ZetaThree == Over(Small(CentralSum("zeta"), 5), 2)
ThirdSeries == Iterate(LAMBDA a : <<Over(a[1], 3), a[2] + 1, Add(a[3], Over(a[1], 2 * a[2] + 1))>>, <<One, 0, Zero>>, 105)[3]      \* sum of 3^-n / (2n + 1)
SqrtThree == Sqrt(Whole(3))
LnTwoPlusSqrtThree == Div(Small(ThirdSeries, 2), SqrtThree)
Catalan == Add(Over(Mul(Pi, LnTwoPlusSqrtThree), 8), Over(Small(CentralSum("catalan"), 3), 8))
Harmonic(n) == FoldLeft(LAMBDA a, i : Add(a, Over(One, i)), Zero, Upto(n))
Bernoulli == <<<<1, 6>>, <<-1, 30>>, <<1, 42>>, <<-1, 30>>, <<5, 66>>, <<-691, 2730>>, <<7, 6>>, <<-3617, 510>>, <<43867, 798>>, <<-174611, 330>>, <<854513, 138>>>>
ByWhole(x, n) == IF n > 100000 \/ n < -100000 THEN Mul(Whole(n), x) ELSE Small(x, n)
MaclaurinTail == FoldLeft(LAMBDA a, k : <<Over(a[1], 10000), Add(a[2], Over(Over(ByWhole(a[1], Bernoulli[k][1]), Bernoulli[k][2]), 2 * k))>>, <<Over(One, 10000), Zero>>, Upto(11))[2]       \* sum of B(2k) / (2k 100^(2k))
Euler == Add(Sub(Sub(Harmonic(100), Small(LnTen, 2)), Over(One, 200)), MaclaurinTail)
Agm(a, b) == Iterate(LAMBDA p : <<Over(Add(p[1], p[2]), 2), Sqrt(Mul(p[1], p[2]))>>, <<a, b>>, 7)[1]
SqrtTwo == Sqrt(Whole(2))
Gauss == Div(One, Agm(One, SqrtTwo))
Plastic == Iterate(LAMBDA x : Div(Add(Small(Mul(Sqr(x), x), 2), One), Sub(Small(Sqr(x), 3), One)), One, 9)                 \* the root of x^3 = x + 1
SqrtPi == Sqrt(Pi)
Names == {"e", "e_sqr", "e_pow_pi", "pi", "two_pi", "two_over_pi", "pi_over_two", "pi_sqr", "inv_pi", "tau", "log2_e", "log10_e", "ln_two", "ln_ten",
  "sqrt_two", "sqrt_three", "sqrt_five", "sqrt_e", "sqrt_pi", "sqrt_two_pi", "sqrt_two_pi_e", "inv_sqrt_pi", "cbrt_two", "inv_fibonacci", "phi", "catalan",
  "euler", "gauss", "plastic", "zeta_two", "zeta_three", "zeta_four"}
Value(n) ==
  CASE n = "e" -> E [] n = "e_sqr" -> Sqr(E) [] n = "e_pow_pi" -> Exp(Pi) [] n = "pi" -> Pi [] n \in {"two_pi", "tau"} -> Small(Pi, 2)
    [] n = "two_over_pi" -> Div(Whole(2), Pi) [] n = "pi_over_two" -> Over(Pi, 2) [] n = "pi_sqr" -> Pi2 [] n = "inv_pi" -> Div(One, Pi)
    [] n = "log2_e" -> Div(One, LnTwo) [] n = "log10_e" -> Div(One, LnTen) [] n = "ln_two" -> LnTwo [] n = "ln_ten" -> LnTen
    [] n = "sqrt_two" -> SqrtTwo [] n = "sqrt_three" -> SqrtThree [] n = "sqrt_five" -> SqrtFive [] n = "sqrt_e" -> Sqrt(E) [] n = "sqrt_pi" -> SqrtPi
    [] n = "sqrt_two_pi" -> Sqrt(Small(Pi, 2)) [] n = "sqrt_two_pi_e" -> Sqrt(Small(Mul(Pi, E), 2)) [] n = "inv_sqrt_pi" -> Div(One, SqrtPi)
    [] n = "cbrt_two" -> Cbrt(Whole(2)) [] n = "inv_fibonacci" -> InvFibonacci [] n = "phi" -> Phi [] n = "catalan" -> Catalan [] n = "euler" -> Euler
    [] n = "gauss" -> Gauss [] n = "plastic" -> Plastic [] n = "zeta_two" -> Over(Pi2, 6) [] n = "zeta_three" -> ZetaThree [] n = "zeta_four" -> Over(Sqr(Pi2), 90)
(* What the value has to satisfy besides: relations its series does not presuppose. *)
Near(x, y) == Close(x, y, One, 126)
Cubed(x) == Mul(x, Sqr(x))
Law(n, v) ==
  CASE n = "ln_two" -> Near(Exp(v), Whole(2)) [] n = "ln_ten" -> Near(Exp(v), Whole(10)) [] n = "log2_e" -> Near(Exp(Div(One, v)), Whole(2)) [] n = "log10_e" -> Near(Exp(Div(One, v)), Whole(10))
    [] n = "sqrt_two" -> Near(Sqr(v), Whole(2)) [] n = "sqrt_three" -> Near(Sqr(v), Whole(3)) [] n = "sqrt_five" -> Near(Sqr(v), Whole(5))
    [] n = "sqrt_e" -> Near(Sqr(v), E) [] n = "sqrt_pi" -> Near(Sqr(v), Pi) [] n = "sqrt_two_pi" -> Near(Over(Sqr(v), 2), Pi) [] n = "inv_sqrt_pi" -> Near(Mul(Sqr(v), Pi), One)
    [] n = "cbrt_two" -> Near(Cubed(v), Whole(2)) [] n = "phi" -> Near(Sqr(v), Add(v, One)) [] n = "plastic" -> Near(Cubed(v), Add(v, One))
    [] n = "pi" -> Near(Small(ArcTanInv(2), 4), Sub(v, Small(ArcTanInv(3), 4))) [] n = "inv_pi" -> Near(Mul(v, Pi), One)
    [] n = "catalan" -> Near(Exp(LnTwoPlusSqrtThree), Add(Whole(2), SqrtThree)) [] n = "e" -> Near(Mul(v, Exp(Whole(-1))), One)
    [] OTHER -> TRUE
====
