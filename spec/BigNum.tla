---- MODULE BigNum ----
(* Fixed-point numbers of 4 integer and F fraction limbs in base 10^4.  A magnitude is a sequence of limbs, most significant
   first; a number is [s |-> 1 or -1, m |-> magnitude].  Results are truncated: each operation is off by at most a few units
   of the last place.  Magnitudes have to stay below 10^16. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
LOCAL I == 4
F == 12
L == I + F
B == 10000
(* TLC evaluates an argument where it is used; the elements of a set are evaluated once.  Strict gives the value of one. *)
Strict(S) == CHOOSE x \in S : TRUE
Upto(n) == [i \in 1..n |-> i]
Iterate(Step(_), x, n) == FoldLeft(LAMBDA acc, i : Step(acc), x, Upto(n))
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE CarryFrom(_, _, _, _)             \* raw: limbs that may be >= B (or negative), rightmost first; acc is what is to their right
CarryFrom(raw, k, carry, acc) ==
  IF k = 0 THEN acc
  ELSE LET v == raw[k] + carry IN CarryFrom(raw, k - 1, v \div B, <<v % B>> \o acc)
Normal(raw) == Strict({CarryFrom(r, Len(r), 0, <<>>) : r \in {TLCEval(raw)}})
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k > L THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpFrom(a, b, k + 1)
MCmp(a, b) == Strict({CmpFrom(x, y, 1) : x \in {a}, y \in {b}})
MAdd(a, b) == Strict({Normal([i \in 1..L |-> x[i] + y[i]]) : x \in {a}, y \in {b}})
MSub(a, b) == Strict({Normal([i \in 1..L |-> x[i] - y[i]]) : x \in {a}, y \in {b}})                           \* a >= b
RECURSIVE Products(_, _, _, _, _)            \* the sum of a[j] * b[k - j] for j in from..to
Products(a, b, k, from, to) == IF from > to THEN 0 ELSE a[from] * b[k - from] + Products(a, b, k, from + 1, to)
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x > y THEN x ELSE y
MMul(a, b) == Strict({SubSeq(Normal([i \in 1..L + 1 |-> Products(x, y, i + I, Most(1, i + I - L), Least(L, i + I - 1))]), 1, L) : x \in {a}, y \in {b}})
MMulSmall(a, n) == Strict({Normal([i \in 1..L |-> x[i] * n]) : x \in {a}})                        \* n < 200000
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, n, k, rem, acc) == IF k > L THEN acc ELSE LET v == rem * B + a[k] IN DivFrom(a, n, k + 1, v % n, Append(acc, v \div n))
MDivSmall(a, n) == Strict({DivFrom(x, n, 1, 0, <<>>) : x \in {a}})                                \* n < 200000
(* long division: limbs of a / b, most significant first; rem and b are compared as whole numbers *)
RECURSIVE Digit(_, _, _, _)                  \* the greatest d in lo..hi with d * b <= rem
Digit(rem, b, lo, hi) == IF lo = hi THEN lo
                         ELSE LET mid == (lo + hi + 1) \div 2 IN IF MCmp(MMulSmall(b, mid), rem) <= 0 THEN Digit(rem, b, mid, hi) ELSE Digit(rem, b, lo, mid - 1)
ShiftIn(rem, d) == Append(Tail(rem), d)
RECURSIVE Long(_, _, _, _, _)
Long(digits, b, k, rem, acc) ==
  IF k > Len(digits) THEN acc
  ELSE Strict({Long(digits, b, k + 1, rd[1], Append(acc, rd[2])) : rd \in {LET r == ShiftIn(rem, digits[k])  d == Digit(r, b, 0, B - 1) IN <<MSub(r, MMulSmall(b, d)), d>>}})
MDiv(a, b) == Strict({SubSeq(Long(x \o Zeros(F), y, 1, Zeros(L), <<>>), F + 1, F + L) : x \in {a}, y \in {b}})      \* b < 10^12
(* signed *)
Num(s, m) == [s |-> s, m |-> m]
Zero == Num(1, Zeros(L))
Whole(n) == LET a == IF n < 0 THEN -n ELSE n IN Num(IF n < 0 THEN -1 ELSE 1, Normal([i \in 1..L |-> IF i = I THEN a ELSE 0]))
Neg(x) == Strict({Num(-u.s, u.m) : u \in {x}})
Abs(x) == Num(1, x.m)
Add2(x, y) == IF x.s = y.s THEN Num(x.s, MAdd(x.m, y.m)) ELSE IF MCmp(x.m, y.m) >= 0 THEN Num(x.s, MSub(x.m, y.m)) ELSE Num(y.s, MSub(y.m, x.m))
Add(x, y) == Strict({Add2(u, v) : u \in {x}, v \in {y}})
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Strict({Num(u.s * v.s, MMul(u.m, v.m)) : u \in {x}, v \in {y}})
Div(x, y) == Strict({Num(u.s * v.s, MDiv(u.m, v.m)) : u \in {x}, v \in {y}})
Small(x, n) == Strict({IF n < 0 THEN Num(-u.s, MMulSmall(u.m, -n)) ELSE Num(u.s, MMulSmall(u.m, n)) : u \in {x}})
Over(x, n) == Strict({IF n < 0 THEN Num(-u.s, MDivSmall(u.m, -n)) ELSE Num(u.s, MDivSmall(u.m, n)) : u \in {x}})
Cmp(x, y) == Strict({IF MCmp(d.m, Zeros(L)) = 0 THEN 0 ELSE d.s : d \in {Sub(x, y)}})
IsZero(x) == MCmp(x.m, Zeros(L)) = 0
Sqr(x) == Strict({Mul(u, u) : u \in {x}})
One == Whole(1)
Shrink(x, k) == LET y == Iterate(LAMBDA z : Over(z, 65536), x, k \div 16) IN IF k % 16 = 0 THEN y ELSE Over(y, 2 ^ (k % 16))     \* x / 2^k
Grow(x, k) == LET y == Iterate(LAMBDA z : Small(z, 65536), x, k \div 16) IN IF k % 16 = 0 THEN y ELSE Small(y, 2 ^ (k % 16))     \* x 2^k
(* |x - y| <= scale / 2^p + 10^-40 *)
Close(x, y, scale, p) == MCmp(Sub(x, y).m, MAdd(Shrink(Abs(scale), p).m, [i \in 1..L |-> IF i = I + 10 THEN 1 ELSE 0])) <= 0
(* Newton's iteration for square and cubic roots, from a start above the root *)
(* <<y, whether a step no longer makes it less>> *)
Descend(Step(_), y) == Iterate(LAMBDA a : IF a[2] THEN a ELSE Strict({<<z, Cmp(z, a[1]) >= 0>> : z \in {Step(a[1])}}), <<y, FALSE>>, 40)[1]
Sqrt(x) == IF IsZero(x) THEN x ELSE Strict({Descend(LAMBDA y : Over(Add(y, Div(u, y)), 2), IF Cmp(u, One) > 0 THEN u ELSE One) : u \in {x}})
Cbrt(x) == Strict({Descend(LAMBDA y : Over(Add(Small(y, 2), Div(u, Sqr(y))), 3), IF Cmp(u, One) > 0 THEN u ELSE One) : u \in {x}})
====
