---- MODULE Transforms ----
(* Affine transforms and projections, in exact fractions.  A result is a sequence of numerators over the case's denominator d.
   A transform is given twice: by what it does to a point (its geometry) and by its matrix; Laws says that they agree. *)
EXTENDS LinAlg, FiniteSets, TLC, Json
CONSTANTS Clip, Level                        \* Clip: the configured handedness, "rh" or "lh"
VARIABLES c
(* ---- affine transforms: kind, parameters; all results over Den(t) ---- *)
Translation(v, den) == [k |-> "translate", p |-> v \o <<den>>]
Scaling(v, den) == [k |-> "scale", p |-> v \o <<den>>]
Rotation(n, q, cos, sin, e, turns) == [k |-> "rotate", p |-> n \o <<q, cos, sin, e, turns>>]     \* about n/q by the angle whose cosine and sine are cos/e and sin/e, and whole turns
Den(t) == CASE t.k = "rotate" -> t.p[4] * t.p[4] * t.p[7] [] OTHER -> t.p[4]
Xyz(s) == <<s[1], s[2], s[3]>>
(* geometry: the image of the point p, times Den(t) *)
Move(t, p) == LET v == Xyz(t.p) IN
  CASE t.k = "translate" -> VAdd(Scale(p, t.p[4]), v)
    [] t.k = "scale" -> VMul(p, v)
    [] OTHER -> LET q == t.p[4]  cs == t.p[5]  sn == t.p[6]  e == t.p[7] IN                           \* Rodrigues: p cos + (n x p) sin + n (n.p) (1 - cos)
                VAdd(VAdd(Scale(p, q * q * cs), Scale(Cross(v, p), q * sn)), Scale(v, Dot(v, p) * (e - cs)))
(* the matrix, times Den(t) *)
Mat(t) == LET n == Xyz(t.p)  d == Den(t) IN
  CASE t.k = "translate" -> <<Scale(Basis(4, 1), d), Scale(Basis(4, 2), d), Scale(Basis(4, 3), d), n \o <<d>>>>
    [] t.k = "scale" -> <<Scale(Basis(4, 1), n[1]), Scale(Basis(4, 2), n[2]), Scale(Basis(4, 3), n[3]), Scale(Basis(4, 4), d)>>
    [] OTHER -> LET q == t.p[4]  cs == t.p[5]  sn == q * t.p[6]  k == t.p[7] - cs  dg == q * q * cs IN
                << <<dg + k * n[1] * n[1], k * n[1] * n[2] + sn * n[3], k * n[1] * n[3] - sn * n[2], 0>>,
                   <<k * n[1] * n[2] - sn * n[3], dg + k * n[2] * n[2], k * n[2] * n[3] + sn * n[1], 0>>,
                   <<k * n[1] * n[3] + sn * n[2], k * n[2] * n[3] - sn * n[1], dg + k * n[3] * n[3], 0>>, Scale(Basis(4, 4), d) >>
Axes == {<<<<1, 0, 0>>, 1>>, <<<<0, 1, 0>>, 1>>, <<<<0, 0, 1>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<1, 2, 2>>, 3>>, <<<<-2, 1, 2>>, 3>>, <<<<2, -2, -1>>, 3>>, <<<<2, 3, 6>>, 7>>, <<<<0, 3, 4>>, 5>>, <<<<-4, 0, 3>>, 5>>}
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-5, 12, 13>>, <<-15, -8, 17>>}
Rotations == {Rotation(n[1], n[2], g[1], g[2], g[3], k) : n \in Axes, g \in Angles, k \in {0, 1, -1}}
Vecs == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -3, 5>>, <<-7, 1, 4>>, <<0, 0, 0>>, <<1, 1, 1>>}
Simple == {Translation(v, d) : v \in Vecs, d \in {1, 8}} \cup {Scaling(v, d) : v \in Vecs, d \in {1, 8}}
Priors == {Identity(4), [i \in 1..4 |-> [j \in 1..4 |-> 4 * i + j - 10]], [i \in 1..4 |-> [j \in 1..4 |-> ((7 * i * i + 5 * j + i * j * j) % 17) - 8]]}
          \cup (IF Level = 0 THEN {} ELSE {[i \in 1..4 |-> [j \in 1..4 |-> ((k * i * i + 5 * j + i * j * j * k) % 17) - 8]] : k \in 1..12})
          \cup {[i \in 1..4 |-> [j \in 1..4 |-> IF i = x /\ j = y THEN 1 ELSE 0]] : x \in 1..4, y \in 1..4}
Short == {Translation(<<2, -3, 5>>, 1), Translation(<<0, 1, 0>>, 2), Scaling(<<2, -1, 3>>, 1), Scaling(<<1, 4, 6>>, 2), Rotation(<<0, 0, 1>>, 1, 3, 4, 5, 0), Rotation(<<1, 0, 0>>, 1, 0, 1, 1, 0), Rotation(<<1, 2, 2>>, 3, 4, -3, 5, 1)}
Codes == [translate |-> 0, scale |-> 1, rotate |-> 2]
Code(t) == <<Codes[t.k], Len(t.p)>> \o t.p
Mk(op, d, a, b, s, r) == [op |-> op, d |-> d, a |-> a, b |-> b, s |-> s, r |-> r, lo |-> 0, hi |-> 0]
Apply(m, t) == Mk(t.k, Den(t), Flat(m), t.p, 0, Flat(MMul(m, Mat(t))))
(* transforming the identity by t1, then t2, then t3, and applying the result to a point *)
RECURSIVE Image(_, _, _)                     \* <<numerators, denominator>> of the image of p / den under ts[1] after ts[2] after ...
Image(ts, p, den) ==
  IF ts = <<>> THEN <<p, den>>
  ELSE LET t == ts[Len(ts)]
           q == IF t.k = "translate" THEN VAdd(Scale(p, t.p[4]), Scale(Xyz(t.p), den)) ELSE Move(t, p)
       IN Image(SubSeq(ts, 1, Len(ts) - 1), q, den * Den(t))
ChainCase(ts, p) == LET im == Image(ts, p, 1) IN Mk("chain", im[2], p, IF Len(ts) = 2 THEN Code(ts[1]) \o Code(ts[2]) ELSE Code(ts[1]) \o Code(ts[2]) \o Code(ts[3]), Len(ts), im[1])
(* ---- projections ---- *)
(* A point of the view volume is given by its place in the cross-section (u, v in halves, -2..2) and its depth.  The image is (u, v) and the depth mapped by A + B/depth
   (perspective) or A + B depth (orthographic), with near going to -1 and far to +1. *)
Places == {<<-2, -2>>, <<-2, 2>>, <<2, -2>>, <<2, 2>>, <<0, 0>>, <<1, -2>>}
Volumes == {<<-1, 1, -1, 1, 1, 3>>, <<-2, 1, -1, 3, 1, 4>>, <<0, 4, 1, 2, 2, 10>>, <<-3, -1, -2, 5, 1, 2>>, <<1, 2, 3, 5, 7, 11>>, <<-5, 3, -9, -2, 4, 5>>,
             <<-1, 1, 3, -2, 1, 3>>, <<4, 1, -1, 3, 1, 4>>, <<3, -5, 7, 1, 2, 5>>, <<-2, 1, -1, 3, 6, 2>>, <<5, 2, 2, -3, 9, 4>>}     \* mirrored, and with the depth reversed
           \cup (IF Level = 0 THEN {} ELSE {<<l, l + w, b, b + h, n, n + k>> : l \in {-4, 0, 3}, w \in {1, 6}, b \in {-5, 0, 2}, h \in {2, 7}, n \in {1, 3}, k \in {1, 9}})
Boxes == Volumes \cup {<<0, 8, 6, 0, -1, 1>>, <<2, -3, 1, 4, 5, 2>>, <<-1, 1, -1, 1, -7, -3>>, <<0, 1920, 1080, 0, 0, 5>>}
Lenses == {<<hn, hd, an, ad, n, f>> : hn \in {1, 2, 3}, hd \in {1, 4}, an \in {1, 16}, ad \in {1, 9}, n \in {1, 3}, f \in {4, 50}} \cup {<<1, 2, 16, 9, 8, 3>>, <<3, 4, 1, 1, 50, 1>>}
Depths(n, f) == {n, f} \cup (IF f - n > 1 THEN {n + 1} ELSE IF n - f > 1 THEN {f + 1} ELSE {})
Side(h, d) == IF h = 2 \/ (h = 0 /\ Clip = "lh") THEN d ELSE -d        \* right-handed volumes extend along -z
Middle(lo, hi, u) == (lo + hi) * 2 + (hi - lo) * u                   \* four times the coordinate
PerspectiveDepth(n, f, d) == <<(f + n) * d - 2 * f * n, (f - n) * d>>
Frustum(v, h, p, d) == LET n == v[5]  f == v[6]  z == PerspectiveDepth(n, f, d) IN
  Mk("frustum", 2 * z[2], v, <<Middle(v[1], v[2], p[1]) * d, 4 * n, Middle(v[3], v[4], p[2]) * d, 4 * n, Side(h, d)>>, h, <<p[1] * z[2], p[2] * z[2], 2 * z[1]>>)
Lens(v, h, p, d) == LET n == v[5]  f == v[6]  z == PerspectiveDepth(n, f, d) IN
  Mk("perspective", 2 * z[2], v, <<p[1] * v[1] * v[3] * d, 2 * v[2] * v[4], p[2] * v[1] * d, 2 * v[2], Side(h, d)>>, h, <<p[1] * z[2], p[2] * z[2], 2 * z[1]>>)
Ortho(v, h, p, d) == LET n == v[5]  f == v[6] IN
  Mk("ortho", 2 * (f - n), v, <<Middle(v[1], v[2], p[1]), 4, Middle(v[3], v[4], p[2]), 4, Side(h, d)>>, h, <<p[1] * (f - n), p[2] * (f - n), 2 * (2 * d - (f + n))>>)
Init == \/ \E m \in Priors, t \in Simple : c = Apply(m, t)
        \/ \E m \in {x \in Priors : Level > 0 \/ x[4][4] # 0 \/ x[2][1] # 0 \/ x[1][3] # 0}, t \in Rotations : c = Apply(m, t)
        \/ \E x, y \in Short, p \in Vecs : c = ChainCase(<<x, y>>, p)
        \/ \E x, y, z \in Short, p \in {<<1, 0, 0>>, <<2, -3, 5>>} : c = ChainCase(<<x, y, z>>, p)
        \/ \E v \in Volumes, h \in 0..2, p \in Places : \E d \in Depths(v[5], v[6]) : c = Frustum(v, h, p, d)
        \/ \E v \in Lenses, h \in 0..2, p \in Places : \E d \in Depths(v[5], v[6]) : c = Lens(v, h, p, d)
        \/ \E v \in Boxes, h \in 0..2, p \in Places : \E d \in Depths(v[5], v[6]) : c = Ortho(v, h, p, d)
Next == FALSE /\ c' = c
Emit == PrintT("@E " \o ToJson(c))
Un(f) == [i \in 1..4 |-> SubSeq(f, (i - 1) * 4 + 1, i * 4)]
Laws ==
  /\ c.op \in {"translate", "scale", "rotate"} =>                                 \* the matrix moves points as the geometry says
       LET t == [k |-> c.op, p |-> c.b] IN
       /\ c.r = Flat(MMul(Un(c.a), Mat(t)))
       /\ \A p \in Vecs : MVec(Mat(t), p \o <<1>>) = Move(t, p) \o <<Den(t)>>
  /\ c.op = "rotate" =>                                                           \* a rotation keeps its axis, lengths and orientation, and turns counter-clockwise
       LET t == [k |-> c.op, p |-> c.b]  n == Xyz(c.b)  q == c.b[4]  e == c.b[7]  d == Den(t) IN
       /\ Move(t, n) = Scale(n, d)
       /\ \A p \in Vecs : Dot(Move(t, p), Move(t, p)) = d * d * Dot(p, p)
       /\ \A p \in Vecs : LET w == Cross(n, p) IN                                  \* w is orthogonal to the axis, and so is n x w, a quarter turn ahead of it
            Scale(Move(t, w), 1) = VAdd(Scale(w, q * q * c.b[5]), Scale(Cross(n, w), q * c.b[6]))
  /\ c.op \in {"frustum", "perspective", "ortho"} =>                              \* corners go to corners
       LET dd == IF c.s = 2 \/ (c.s = 0 /\ Clip = "lh") THEN c.b[5] ELSE -c.b[5] IN
       /\ (dd = c.a[5] => c.r[3] = -c.d) /\ (dd = c.a[6] => c.r[3] = c.d)
       /\ (c.op = "frustum" /\ c.r[1] = c.d => c.b[1] * c.a[5] = c.a[2] * dd * c.b[2]) /\ (c.op = "frustum" /\ c.r[1] = -c.d => c.b[1] * c.a[5] = c.a[1] * dd * c.b[2])
       /\ (c.op = "ortho" /\ c.r[2] = c.d => c.b[3] = c.a[4] * c.b[4]) /\ (c.op = "ortho" /\ c.r[2] = -c.d => c.b[3] = c.a[3] * c.b[4])
====
