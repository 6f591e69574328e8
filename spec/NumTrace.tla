---- MODULE NumTrace ----
(* Results of the trigonometric helpers judged one by one.  Records: f the function, t the type of the argument, p the precision
   in bits of the type of the result, x and y as s and m (y.s = 0: not a number; y.s = 2 or -2: infinite). *)
EXTENDS Trig, Json, IOUtils
CONSTANTS Part, Parts
Trace == ndJsonDeserialize(IOEnv.TRACE)
Precision(t) == CASE t = "float" -> 24 [] t = "double" -> 53 [] t = "long double" -> 64 [] OTHER -> 53      \* integral arguments count as double
Judge(r, pi) ==
  /\ r.p = Precision(r.t)
  /\ IF Undefined(r.f, r.x) THEN r.y.s = 0
     ELSE IF Pole(r.f, r.x) THEN r.y.s \in {-2, 2}
     ELSE r.y.s \in {-1, 1} /\ Agrees(r.f, r.x, r.y, r.p, pi)
VARIABLES i, ok
Init == \E t \in {Trace} : \E pi \in {Pi} : \E k \in {k \in 1..Len(t) : k % Parts = Part} : i = k /\ ok = Judge(t[k], pi)
Next == FALSE /\ UNCHANGED <<i, ok>>
Right == ok
====
