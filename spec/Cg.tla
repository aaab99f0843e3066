--------------------------------- MODULE Cg ---------------------------------
(* Contract of the geometric tools: cones, orientation and intersection         *)
(* predicates, convex hull, triangles, random shapes.  Inputs are integer       *)
(* points (the binding scales them by a unit), results are truth values or      *)
(* measured points in units of 1/S.                                            *)
EXTENDS Geom, TLC

S == 1000
Req(b, name) == IF b THEN {} ELSE {name}
B(x) == x = 1

-----------------------------------------------------------------------------
(* Cones: C = <<apex, d1, d2>>, d1 and d2 not in the same direction             *)
InCone(p, C) == IF p = C[1] THEN 0 ELSE InSector(Sub(p, C[1]), C[2], C[3])
\* All of the cones: 1 inside, -1 outside, 0 on the boundary of some and outside of none
InCones(p, Cs) == LET R == {InCone(p, Cs[i]) : i \in 1..Len(Cs)}
                  IN IF -1 \in R THEN -1 ELSE IF 0 \in R THEN 0 ELSE 1
\* d turned slightly counter-clockwise is in the open sector
JustAfter(d, C) == SameDir(d, C[2]) \/ (~ SameDir(d, C[3]) /\ InSector(d, C[2], C[3]) = 1)
\* Cones with a common apex have no interior point in common
EmptySameApex(Cs) == \A i \in 1..Len(Cs) : \E j \in 1..Len(Cs) : ~ JustAfter(Cs[i][2], Cs[j])
\* pts: points, m: their membership as reported
Agree(pts, m, Cs) == Len(m) = Len(pts) /\ \A i \in 1..Len(pts) : LET r == InCones(pts[i], Cs) IN r = 0 \/ (m[i] = 1) = (r = 1)
QCone(e) == Req(Agree(e.pts, e.x[1], <<e.cone>>), "cone.member")
            \cup Req(Agree(e.pts, e.x[2], <<e.cone>>), "cone.polygon")
            \cup Req(e.x[3] = <<IF CrossV(e.cone[2], e.cone[3]) > 0 THEN 1 ELSE 0>>, "cone.convex")
\* x: membership in the intersection; area: 1 if the area is positive; same: all have the same apex
QCones(e) == Req(Agree(e.pts, e.x, e.cones), "cones.member")
             \cup Req(~ e.same \/ ~ EmptySameApex(e.cones) \/ ~ e.area, "cones.empty")
\* intersection_same_apex of two cones, x: membership in any of the returned cones, n: their number
QParts(e) == Req(Agree(e.pts, e.x, e.cones), "parts.member")
             \cup Req(~ EmptySameApex(e.cones) \/ e.n = 0, "parts.empty")
             \cup Req(e.n <= 2, "parts.number")

-----------------------------------------------------------------------------
(* Predicates *)
QOrient(e) == LET c == Sgn(Cross(e.p[1], e.p[2], e.p[3]))
              IN Req(e.x[1] = (IF c > 0 THEN 1 ELSE 0), "orient.ccw")
                 \cup Req(e.x[2] = (IF c < 0 THEN 1 ELSE 0), "orient.cw")
                 \cup Req(e.x[3] = (IF c = 0 THEN 1 ELSE 0), "orient.collinear")
                 \cup Req(e.x[4] = -c /\ e.x[5] = -c, "orient.value")
QBetween(e) == Req(e.x[1] = (IF OnSeg(e.p[2], e.p[1], e.p[3]) THEN 1 ELSE 0), "between")
Proper4(p) == ProperCross(p[1], p[2], p[3], p[4])
Meet4(p) == SegsMeet(p[1], p[2], p[3], p[4])
QIntersect(e) == Req(~ Proper4(e.p) \/ (B(e.x[1]) /\ B(e.x[2])), "intersect.missed")
                 \cup Req(Meet4(e.p) \/ (e.x[1] = 0 /\ e.x[2] = 0), "intersect.wrong")

\* The measured point r is within tol/S of the line / segment / ray
OnLineM(r, a, b, tol) == LET d == Sub(b, a) IN Abs(CrossV(d, Sub(r, Scale(S, a)))) <= tol * Norm1(d)
OnSegM(r, a, b, tol) == LET d == Sub(b, a) IN
  /\ OnLineM(r, a, b, tol)
  /\ DotV(d, Sub(r, Scale(S, a))) >= -tol * Norm1(d) /\ DotV(d, Sub(r, Scale(S, b))) <= tol * Norm1(d)
OnRayM(r, a, b, tol) == LET d == Sub(b, a) IN OnLineM(r, a, b, tol) /\ DotV(d, Sub(r, Scale(S, a))) >= -tol * Norm1(d)
\* Rays from a through b and from c through d meet; not parallel
RaysMeet(a, b, c, d) ==
  LET u == Sub(b, a)
      v == Sub(d, c)
      w == Sub(c, a)
      den == CrossV(u, v)
  IN Sgn(CrossV(w, v)) * Sgn(den) >= 0 /\ Sgn(CrossV(w, u)) * Sgn(den) >= 0
\* r: <<>> or the reported point (sequence of length one)
Parallel4(p) == CrossV(Sub(p[2], p[1]), Sub(p[4], p[3])) = 0
QGetI(e) == Req((e.k = "none") = ~ Meet4(e.p), "segments.exists")
            \cup Req(e.k = "none" \/ (OnSegM(e.x, e.p[1], e.p[2], 3) /\ OnSegM(e.x, e.p[3], e.p[4], 3)), "segments.point")
QLineI(e) == Req((e.k = "none") = Parallel4(e.p), "lines.exists")
             \cup Req(e.k = "none" \/ (OnLineM(e.x, e.p[1], e.p[2], 3) /\ OnLineM(e.x, e.p[3], e.p[4], 3)), "lines.point")
\* where they only touch, rounded input decides
QSegI(e) == Req(IF Parallel4(e.p) THEN e.k = "none" \/ Meet4(e.p)
                ELSE (e.k = "none") = ~ Meet4(e.p) \/ (~ e.exact /\ Meet4(e.p) /\ ~ Proper4(e.p)), "segments2.exists")
            \cup Req(e.k = "none" \/ (OnSegM(e.x, e.p[1], e.p[2], 3) /\ OnSegM(e.x, e.p[3], e.p[4], 3)), "segments2.point")
RaysTouch(a, b, c, d) == CrossV(Sub(c, a), Sub(d, c)) = 0 \/ CrossV(Sub(c, a), Sub(b, a)) = 0
QRayI(e) == Req(Parallel4(e.p) \/ (e.k = "none") = ~ RaysMeet(e.p[1], e.p[2], e.p[3], e.p[4])
                \/ (~ e.exact /\ RaysTouch(e.p[1], e.p[2], e.p[3], e.p[4])), "rays.exists")
            \cup Req(e.k = "none" \/ (OnRayM(e.x, e.p[1], e.p[2], 3) /\ OnRayM(e.x, e.p[3], e.p[4], 3)), "rays.point")

-----------------------------------------------------------------------------
(* Convex hull *)
Range(s) == {s[i] : i \in 1..Len(s)}
Collinear(A) == \A a, b, c \in A : Cross(a, b, c) = 0
\* v is an extreme point of A: in no segment or triangle of other points
IsExtreme(v, A) == LET R == A \ {v} IN
  /\ \A a, b \in R : ~ OnSeg(v, a, b)
  /\ \A a, b, c \in R : ~ (Cross(a, b, v) > 0 /\ Cross(b, c, v) > 0 /\ Cross(c, a, v) > 0)
QHull(e) ==
  LET A == Range(e.p)
      H == e.x
      n == Len(H)
  IN Req(\A i \in 1..n : H[i] \in A, "hull.points")
     \cup Req(Cardinality(Range(H)) = n, "hull.once")
     \cup Req(\A v \in A : IsExtreme(v, A) => v \in Range(H), "hull.extreme")
     \cup Req(\A i \in 1..n : \A v \in A : Cross(H[i], H[Nxt(H, i)], v) >= 0, "hull.ccw")
     \cup Req(Collinear(A) \/ \A i \in 1..n : (DotV(Sub(H[i], H[Prv(H, i)]), Sub(H[Nxt(H, i)], H[i])) > 0
                              \/ Cross(H[Prv(H, i)], H[i], H[Nxt(H, i)]) > 0), "hull.forward")

-----------------------------------------------------------------------------
(* Triangles *)
\* c centre, l side length / 10, r = <<cos, sin, h>> of the rotation; x: measured corners
QEqui(e) ==
  LET v == [i \in 1..3 |-> Sub(e.x[i], Scale(S, e.c))]
      up == <<-e.r[2], e.r[1]>>
      side(a, b) == ISqrt(Dist2(a, b))
      l == e.l * (S \div 10)
  IN Req(Near(Add(Add(v[1], v[2]), v[3]), <<0, 0>>, 3), "equilateral.centre")
     \cup Req(\A i, j \in 1..3 : i < j => Abs(side(e.x[i], e.x[j]) - l) <= 3, "equilateral.side")
     \cup Req(\E i \in 1..3 : Abs(CrossV(up, v[i])) <= 3 * e.r[3] /\ DotV(up, v[i]) > 0, "equilateral.rotation")
\* x: measured points
InTriM(q, a, b, c) == LET s == Sgn(Cross(a, b, c))
                          ok(u, v) == s * CrossV(Sub(v, u), Sub(q, Scale(S, u))) >= -2 * Norm1(Sub(v, u))
                      IN ok(a, b) /\ ok(b, c) /\ ok(c, a)
QTri(e) == Req(\A i \in 1..Len(e.x) : InTriM(e.x[i], e.p[1], e.p[2], e.p[3]), "triangle.in")
           \* not stuck in a part: every corner third gets points
           \cup Req(\A k \in 1..3 : \E i \in 1..Len(e.x) :
                      LET a == e.p[k] b == e.p[Nxt(e.p, k)] c == e.p[Prv(e.p, k)]
                      IN 3 * Abs(CrossV(Sub(c, b), Sub(e.x[i], Scale(S, b)))) >= S * Abs(Cross(a, b, c)), "triangle.spread")
\* The segment between a and b without its ends; the ray from a in direction b -> c
QSegment(e) == LET d == Sub(e.p[2], e.p[1]) IN
  Req(\A i \in 1..2 : OnSegM(e.x[i], e.p[1], e.p[2], 2), "segment.on")
  \cup Req(e.x[3] = <<0, 0>>, "segment.open")      \* distances of the ends are positive
  \cup Req(Near(e.x[1], Scale(S, e.p[1]), 1 + Norm1(d)) /\ Near(e.x[2], Scale(S, e.p[2]), 1 + Norm1(d)), "segment.ends")
\* x: start at scale S; end at scale 1
QRay(e) == LET d == Sub(e.p[3], e.p[2]) IN
  Req(OnRayM(e.x[1], e.p[1], Add(e.p[1], d), 2), "ray.start")
  \cup Req(Near(e.x[1], Scale(S, e.p[1]), 1 + Norm1(d)), "ray.near")
  \cup Req(Near(e.x[2], Add(e.p[1], Scale(100000, d)), 2), "ray.end")
\* Rotation by r and translation by t, or the inverse of that; x at scale S
QAffine(e) ==
  LET h == e.r[3]
      d == Sub(e.p, e.t)
      y == IF e.inv THEN <<e.r[1] * d[1] + e.r[2] * d[2], e.r[1] * d[2] - e.r[2] * d[1]>>
           ELSE Add(Scale(h, e.t), <<e.r[1] * e.p[1] - e.r[2] * e.p[2], e.r[2] * e.p[1] + e.r[1] * e.p[2]>>)
      m(i) == <<S * (y[i] \div h) + (S * (y[i] % h)) \div h>>
  IN Req(Abs(e.x[1] - m(1)[1]) <= 2 /\ Abs(e.x[2] - m(2)[1]) <= 2, "affine")

-----------------------------------------------------------------------------
(* Random shapes *)
\* x: vertices relative to the box in units of 1/10000
QConvGen(e) ==
  LET P == e.x
      n == Len(P)
      X == {P[i][1] : i \in 1..n}
      Y == {P[i][2] : i \in 1..n}
      width(A) == CHOOSE w \in {a - b : a, b \in A} : \A a, b \in A : a - b <= w
  IN Req(n = e.n, "convex.number")
     \cup IF n < 3 THEN {} ELSE
        Req(\A i \in 1..n : \A j \in 1..n : Cross(P[i], P[Nxt(P, i)], P[j]) >= -2 * (Norm1(Sub(P[Nxt(P, i)], P[i])) + Norm1(Sub(P[j], P[i])) + 2), "convex.convex")
        \cup Req(Abs(Sum(LAMBDA i : P[i][1], n)) <= n /\ Abs(Sum(LAMBDA i : P[i][2], n)) <= n, "convex.centre")
        \cup Req(width(X) <= 10002 /\ width(Y) <= 10002, "convex.box")
        \cup Req(width(X) > 0 /\ width(Y) > 0, "convex.flat")
\* x: vertices relative to centre and average radius in units of 1/10000, r: radii
\* regular: no angle between consecutive vertices can reach a half turn, and no radius zero
QStarGen(e) ==
  LET P == e.x
      n == Len(P)
  IN Req(n = e.n, "star.number")
     \cup Req(\A i \in 1..n : e.r[i] >= 0 /\ e.r[i] <= 20001, "star.radius")
     \cup IF ~ e.regular THEN {} ELSE
        Req(\A i \in 1..n : CrossV(P[i], P[Nxt(P, i)]) >= -4 * (Norm1(P[i]) + Norm1(P[Nxt(P, i)])), "star.order")
        \cup Req(Cardinality({i \in 1..n : P[i][2] < 0 /\ P[Nxt(P, i)][2] >= 0}) = 1, "star.turn")
QSteps(e) == LET n == Len(e.x) IN
  Req(n = e.n, "steps.number") \cup Req(\A i \in 1..n : e.x[i] >= 0, "steps.sign")
  \cup Req(Abs(Sum(LAMBDA i : e.x[i], n) - 3600000) <= n, "steps.sum")
\* Invalid parameters are rejected, valid ones are not; k: name of the exception or "val"
QReject(e) == Req((e.k = "ValueError") = (e.i < 0 \/ e.i > 100 \/ e.s < 0 \/ e.s > 100), "star.reject")

-----------------------------------------------------------------------------
(* Drawings of points, rays and cones *)
\* x: for every artist its point, number of points, and whether it has the marker asked for
QDrawPoint(e) == Req(Len(e.x) = 1 /\ Near(e.x[1][1], Scale(S, e.p), 1) /\ e.x[1][2] = 1 /\ e.x[1][3] = 1, "p30.point")
\* Unit vector w (by 10000) has the direction of the integer vector d
Along(w, d) == Abs(CrossV(w, d)) <= 4 * (Abs(d[1]) + Abs(d[2])) /\ DotV(w, d) > 0
\* x: the points of the line, of the head, the direction of the head
QDrawRay(e) == Req(Len(e.x[1]) = 2 /\ Near(e.x[1][1], Scale(S, e.p), 1) /\ Near(e.x[1][2], Scale(S, e.p2), 1), "p30.ray")
               \cup Req(Len(e.x[2]) = 1 /\ Near(e.x[2][1], Scale(S, e.p2), 1) /\ Along(e.x[3], Sub(e.p2, e.p)), "p30.head")
\* x: membership of the points in the region drawn, the border lines with origin, direction, length and colour as they should be
QDrawCone(e) == Req(Agree(e.pts, e.x[1], <<e.cone>>), "p30.cone")
                \cup Req(Len(e.x[2]) = 2 * e.rays /\ \A i \in 1..Len(e.x[2]) :
                            LET l == e.x[2][i] IN Near(l[1], Scale(S, e.cone[1]), 1) /\ Along(l[2], e.cone[i + 1]) /\ l[3] = 1 /\ l[4] = 1, "p30.border")

-----------------------------------------------------------------------------
Query(e) ==
  IF e.q = "reject" THEN QReject(e)
  ELSE IF (e.k = "none" /\ e.q \in {"geti", "linei", "segi", "rayi"}) \/ e.k = "val" THEN
    CASE e.q = "cone" -> QCone(e)
      [] e.q = "drawpoint" -> QDrawPoint(e)
      [] e.q = "drawray" -> QDrawRay(e)
      [] e.q = "drawcone" -> QDrawCone(e)
      [] e.q = "cones" -> QCones(e)
      [] e.q = "parts" -> QParts(e)
      [] e.q = "orient" -> QOrient(e)
      [] e.q = "between" -> QBetween(e)
      [] e.q = "intersect" -> QIntersect(e)
      [] e.q = "geti" -> QGetI(e)
      [] e.q = "linei" -> QLineI(e)
      [] e.q = "segi" -> QSegI(e)
      [] e.q = "rayi" -> QRayI(e)
      [] e.q = "hull" -> QHull(e)
      [] e.q = "equi" -> QEqui(e)
      [] e.q = "tri" -> QTri(e)
      [] e.q = "segment" -> QSegment(e)
      [] e.q = "ray" -> QRay(e)
      [] e.q = "affine" -> QAffine(e)
      [] e.q = "convgen" -> QConvGen(e)
      [] e.q = "stargen" -> QStarGen(e)
      [] e.q = "steps" -> QSteps(e)
  ELSE {e.q \o "." \o e.k}
=============================================================================
