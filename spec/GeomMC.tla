------------------------------- MODULE GeomMC -------------------------------
(* The predicates of Geom against independent definitions, for all simple      *)
(* polygons with at most N vertices on a small grid, all points around, and    *)
(* all directions; arithmetic and sectors on ranges.  Everything which is      *)
(* judged by the other modules rests on these predicates.                      *)
EXTENDS Geom, TLC

CONSTANTS W, N      \* grid 0..W x 0..W, number of vertices

VARIABLE P          \* a path, or polygon

Grid == (0..W) \X (0..W)
Around == (-1..W+1) \X (-1..W+1)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* Paths which do not touch themselves, from their least vertex
Path(p, v) ==
  /\ \A i \in 1..Len(p) : p[i] # v
  /\ \A i \in 1..Len(p)-1 : ~ OnSeg(v, p[i], p[i+1])
  /\ Len(p) >= 2 => ~ OnSeg(p[Len(p)-1], p[Len(p)], v)
  /\ \A i \in 1..Len(p)-2 : ~ SegsMeet(p[i], p[i+1], p[Len(p)], v)

Init == P \in {<<g>> : g \in Grid}
Next == /\ Len(P) < N
        /\ \E v \in Grid : Before(P[1], v) /\ Path(P, v) /\ P' = Append(P, v)
Spec == Init /\ [][Next]_P

Poly == Len(P) >= 3 /\ IsSimple(P)

-----------------------------------------------------------------------------
(* Location *)
\* Signed number of turns around q, counted on a ray in another direction (down)
Winding(q) ==
  LET term(i) == LET a == P[i]
                     b == P[Nxt(P, i)]
                 IN  IF a[1] <= q[1] /\ b[1] > q[1] /\ Cross(a, b, q) > 0 THEN 1
                     ELSE IF a[1] > q[1] /\ b[1] <= q[1] /\ Cross(a, b, q) < 0 THEN -1 ELSE 0
  IN  Sum(term, Len(P))
Location == Poly => \A q \in Around : Loc(q, P) = IF OnBoundary(q, P) THEN 0 ELSE IF Winding(q) # 0 THEN -1 ELSE 1
\* Pick's theorem relates area, boundary and interior
Pick == Poly => Abs(Area2(P)) = 2 * Cardinality({q \in Grid : Loc(q, P) = -1}) + Cardinality({q \in Grid : Loc(q, P) = 0}) - 2
Orientation == Poly => /\ Area2(CCW(P)) > 0
                       /\ Area2(Rev(P)) = -Area2(P)

(* Convexity, kernel, visibility *)
Dbl(p) == Scale(2, p)
\* every vertex and every edge midpoint is seen (polygon doubled)
Witnesses == LET D == [i \in 1..Len(P) |-> Scale(8, P[i])]
             IN  {D[i] : i \in 1..Len(P)} \cup {<<(D[i][1] + D[Nxt(P, i)][1]) \div 2, (D[i][2] + D[Nxt(P, i)][2]) \div 2>> : i \in 1..Len(P)}
Sees8(k, v) ==
  LET D == [i \in 1..Len(P) |-> Scale(8, P[i])]
  IN  /\ \A i \in 1..Len(P) : ~ ProperCross(k, v, D[i], D[Nxt(D, i)])
      \* between any two neighbouring touching points the segment stays inside: its three quarter points
      /\ \A j \in 1..3 : Loc(<<k[1] + (j * (v[1] - k[1])) \div 4, k[2] + (j * (v[2] - k[2])) \div 4>>, D) <= 0
Seen8(k) == \A v \in Witnesses : \A d \in {Sub(v, Scale(8, k))} : Sees8(Scale(8, k), v)
\* the half plane definition of the kernel implies that everything is seen, and seeing everything
\* (no edge in the way, quarter points inside) implies the half planes
Kernel == Poly => \A k \in Grid : (InKernel(k, CCW(P)) => (Loc(k, P) <= 0 /\ Seen8(k)))
KernelOnly == Poly => \A k \in Grid : ((Loc(k, P) <= 0 /\ Seen8(k)) => InKernel(k, CCW(P)))
\* convex iff all vertices are in the kernel iff all midpoints of vertices are inside
Convex == Poly => /\ IsConvex(P) <=> \A i \in 1..Len(P) : InKernel(P[i], CCW(P))
                  /\ IsConvex(P) => \A i, j \in 1..Len(P) : Loc(Add(P[i], P[j]), [l \in 1..Len(P) |-> Dbl(P[l])]) <= 0
\* a strict kernel point is interior, and sees every boundary point on its own
Strict == Poly => \A k \in Grid : StrictInKernel(k, CCW(P)) => InKernel(k, CCW(P)) /\ Loc(k, P) = -1

(* Views from outside *)
Far == 40
Dirs == {d \in (-3..3) \X (-3..3) : d # <<0, 0>>}
Rays == Poly => \A q \in Around : Loc(q, P) = 1 =>
          \A d \in Dirs :
             LET e == Add(q, Scale(Far, d))
                 on == {i \in 1..Len(P) : OnSeg(P[i], q, e)}
                 cr == \E i \in 1..Len(P) : ProperCross(q, e, P[i], P[Nxt(P, i)])
             IN  /\ RayHitsOpen(q, P, d) <=> cr
                 /\ RayHits(q, P, d) => cr \/ on # {}
                 /\ (cr \/ on # {}) => RayHits(q, P, d) \/ \A i \in on : CrossV(Sub(P[Prv(P, i)], q), d) = 0 \/ CrossV(Sub(P[Nxt(P, i)], q), d) = 0
\* of a convex polygon the tangent vertices have the polygon on one side, and there are some
Tangents == Poly /\ IsConvex(P) => \A q \in Around : Loc(q, P) = 1 =>
          /\ LeftTangents(q, P) = {i \in 1..Len(P) : \A j \in 1..Len(P) : Cross(q, P[i], P[j]) <= 0}
          /\ LeftTangents(q, P) # {} /\ RightTangents(q, P) # {}
          /\ RightTangents(q, P) = {i \in 1..Len(P) : \A j \in 1..Len(P) : Cross(q, P[i], P[j]) >= 0}
          /\ FreeExterior(q, P)
\* outside the hull there is always a free direction; the view is blocked all around only in pockets
FreeView == Poly => \A q \in Around : (Loc(q, P) = 1 /\ (q[1] < 0 \/ q[1] > W \/ q[2] < 0 \/ q[2] > W)) => FreeExterior(q, P) /\ RightTangents(q, P) # {}

(* Distances *)
Distance == Poly => \A q \in Around : \A r2 \in {1, 2, 4, 5} :
              /\ (\E p \in Grid : Loc(p, P) <= 0 /\ Dist2(p, q) <= r2) => WithinDist(q, P, r2)
              /\ WithinDist(q, P, 1) => WithinDist(q, P, r2)
              /\ WithinDistQ(q, P, 2 * r2, 2) = WithinDist(q, P, r2)
\* no point of the polygon on a twice finer grid is nearer than allowed by WithinDist
DistanceFine == Poly /\ Len(P) = 3 => \A q \in Around :
                  LET D == [i \in 1..3 |-> Dbl(P[i])]
                  IN  ~ WithinDist(q, P, 1) => \A p \in (0..2*W) \X (0..2*W) : Loc(p, D) <= 0 => Dist2(p, Dbl(q)) > 4

(* Two polygons meet iff no edge direction of either separates them *)
Tri == {<<a, b, c>> : a, b, c \in {<<0, 0>>, <<W, 0>>, <<1, 1>>, <<0, W>>, <<W, 1>>, <<W+1, W>>, <<-1, 1>>}}
Separated(A, B) == \E i \in 1..3 : \A j \in 1..3 : Cross(A[i], A[Nxt(A, i)], B[j]) < 0
Meeting == Poly /\ Len(P) = 3 => \A T \in {t \in Tri : Area2(t) > 0} :
             PolysMeet(P, T) <=> ~ (Separated(CCW(P), T) \/ Separated(T, CCW(P)))

-----------------------------------------------------------------------------
(* Segments by Cramer's rule *)
Meets(a, b, c, d) ==
  LET u == Sub(b, a)
      v == Sub(d, c)
      w == Sub(c, a)
      D == CrossV(u, v)
      t == Sgn(D) * CrossV(w, v)
      s == Sgn(D) * CrossV(w, u)
      Lo(x, y) == Min2(x, y)
      Hi(x, y) == Max2(x, y)
      box(i) == Max2(Lo(a[i], b[i]), Lo(c[i], d[i])) <= Min2(Hi(a[i], b[i]), Hi(c[i], d[i]))
  IN  IF D # 0 THEN t >= 0 /\ t <= Abs(D) /\ s >= 0 /\ s <= Abs(D)
      ELSE CrossV(w, u) = 0 /\ CrossV(w, v) = 0 /\ box(1) /\ box(2)
G3 == (0..2) \X (0..2)
ASSUME Segments == \A a, b, c, d \in G3 : a # b /\ c # d => SegsMeet(a, b, c, d) = Meets(a, b, c, d)

(* Sectors: directions numbered counter-clockwise *)
Compass == <<<<1, 0>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 1>>, <<-1, 2>>, <<-1, 1>>, <<-2, 1>>,
             <<-1, 0>>, <<-2, -1>>, <<-1, -1>>, <<-1, -2>>, <<0, -1>>, <<1, -2>>, <<1, -1>>, <<2, -1>>>>
ASSUME Sectors == \A i, j, k \in 1..16 : i # j =>
         InSector(Scale(3, Compass[k]), Compass[i], Scale(2, Compass[j])) =
           IF k = i \/ k = j THEN 0 ELSE IF (k - i) % 16 < (j - i) % 16 THEN 1 ELSE -1

(* Arithmetic *)
ASSUME Fractions == \A p, r \in -7..7 : \A q, s \in 1..6 : RatCmp(p, q, r, s) = Sgn(p * s - r * q)
ASSUME Squares == \A b \in -9..9 : \A a, c \in 1..12 : SqCmp(b, a, c) = Sgn(b * b - a * c)
ASSUME Roots == \A n \in (0..3000) \cup {46340 * 46340, 46340 * 46340 - 1, 2147483647} :
                  LET m == ISqrt(n) IN m * m <= n /\ (m = 46340 \/ (m + 1) * (m + 1) > n)
ASSUME Rounding == \A a \in -50..50 : \A b \in 1..9 : LET m == RDiv(a, b) IN 2 * Abs(m * b - a) <= b

(* Ellipses: roots on segments, by points on the segment *)
ASSUME EllipseRoots ==
  \A e \in {<<2, 1>>, <<1, 3>>, <<2, 2>>} : \A p, r \in ((-4)..4) \X ((-3)..3) : p # r =>
     LET n == EllRoots(p, r, e)
         pt(k) == Add(Scale(16 - k, p), Scale(k, r))
         in == \E k \in 0..16 : EllF(pt(k), Scale(16, e)) < 0
     IN  /\ n = 1 <=> EllLoc(p, e) * EllLoc(r, e) < 0
         /\ (in /\ EllLoc(p, e) > 0 /\ EllLoc(r, e) > 0) => n = 2
         /\ n = 0 => (in <=> EllLoc(p, e) < 0)
         /\ EllRoots(r, p, e) = n
ASSUME EllipseRays ==
  \A e \in {<<2, 1>>, <<1, 3>>} : \A q \in ((-4)..4) \X ((-4)..4) : EllLoc(q, e) > 0 =>
     \A d \in {<<1, 0>>, <<1, 1>>, <<-1, 2>>, <<0, -1>>, <<-2, -1>>} :
       LET n == EllRoots(q, Add(q, Scale(20, d)), e)
       IN  /\ (n = 2) <=> (EllRay(q, d, e) = 1)
           /\ n = -1 => EllRay(q, d, e) = 0
=============================================================================
