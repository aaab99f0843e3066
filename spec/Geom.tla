-------------------------------- MODULE Geom --------------------------------
(* Exact plane geometry on integer coordinates: the mathematical vocabulary of *)
(* all other modules.  Points are <<x, y>>, polygons are sequences of points.  *)
(* Nothing in here is taken from the implementation.                           *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
\* Rounding division, b > 0
RDiv(a, b) == (2 * a + b) \div (2 * b)

Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Scale(k, a) == <<k * a[1], k * a[2]>>
Neg(a) == <<-a[1], -a[2]>>
CrossV(u, v) == u[1] * v[2] - u[2] * v[1]
DotV(u, v) == u[1] * v[1] + u[2] * v[2]
Norm1(v) == Abs(v[1]) + Abs(v[2])
\* > 0: o, a, b is a left turn
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol

\* Sign of p/q - r/s for q, s > 0 without products (continued fractions), for
\* fractions whose cross products exceed the integer range
RECURSIVE RatCmp(_, _, _, _)
RatCmp(p, q, r, s) ==
  LET fp == p \div q
      fr == r \div s
      rp == p % q
      rr == r % s
  IN  IF fp # fr THEN Sgn(fp - fr)
      ELSE IF rp = 0 \/ rr = 0 THEN Sgn(rp - rr)
      ELSE -RatCmp(q, rp, s, rr)
\* Sign of b*b - a*c for a, c > 0
SqCmp(b, a, c) == IF b = 0 THEN -1 ELSE RatCmp(Abs(b), a, c, Abs(b))

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2
                           IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
\* Integer square root, n < 2^31
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtIn(n, 0, 46341)

-----------------------------------------------------------------------------
(* Segments *)
OnSeg(q, a, b) == Cross(a, b, q) = 0 /\ DotV(Sub(q, a), Sub(q, b)) <= 0
\* Crossing in the relative interior of both
ProperCross(a, b, c, d) ==
  /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0
  /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
SegsMeet(a, b, c, d) ==
  \/ ProperCross(a, b, c, d)
  \/ OnSeg(a, c, d) \/ OnSeg(b, c, d) \/ OnSeg(c, a, b) \/ OnSeg(d, a, b)

-----------------------------------------------------------------------------
(* Polygons *)
Nxt(P, i) == IF i = Len(P) THEN 1 ELSE i + 1
Prv(P, i) == IF i = 1 THEN Len(P) ELSE i - 1
Rev(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + Sum(f, n - 1)
Area2(P) == Sum(LAMBDA i : CrossV(P[i], P[Nxt(P, i)]), Len(P))
CCW(P) == IF Area2(P) < 0 THEN Rev(P) ELSE P

OnBoundary(q, P) == \E i \in 1..Len(P) : OnSeg(q, P[i], P[Nxt(P, i)])
Crossings(q, P) ==
  Cardinality({i \in 1..Len(P) :
     LET a == P[i]
         b == P[Nxt(P, i)]
     IN  \/ a[2] <= q[2] /\ b[2] > q[2] /\ Cross(a, b, q) > 0
         \/ a[2] > q[2] /\ b[2] <= q[2] /\ Cross(a, b, q) < 0})
\* -1 interior, 0 boundary, 1 exterior
Loc(q, P) == IF OnBoundary(q, P) THEN 0 ELSE IF Crossings(q, P) % 2 = 1 THEN -1 ELSE 1

IsSimple(P) ==
  /\ Len(P) >= 3
  /\ \A i, j \in 1..Len(P) : i < j =>
       LET a == P[i] b == P[Nxt(P, i)] c == P[j] d == P[Nxt(P, j)] IN
       IF j = i + 1 THEN ~ OnSeg(d, a, b) /\ ~ OnSeg(a, c, d) /\ b # a /\ c # d
       ELSE IF i = 1 /\ j = Len(P) THEN ~ OnSeg(c, a, b) /\ ~ OnSeg(b, c, d)
       ELSE ~ SegsMeet(a, b, c, d)

\* Without repeated vertices
RECURSIVE Dedup(_, _)
Dedup(P, i) == IF i > Len(P) THEN <<>>
               ELSE IF P[i] = P[Prv(P, i)] THEN Dedup(P, i + 1)
               ELSE <<P[i]>> \o Dedup(P, i + 1)
Distinct(P) == Dedup(P, 1)

\* A simple polygon is convex iff no two turns have opposite sign
IsConvex(P0) ==
  LET P == Distinct(P0)
      T == {Sgn(Cross(P[Prv(P, i)], P[i], P[Nxt(P, i)])) : i \in 1..Len(P)}
  IN ~ ({-1, 1} \subseteq T)

\* Kernel: the intersection of the half planes to the left of the edges
InKernel(k, P) == \A i \in 1..Len(P) : Cross(P[i], P[Nxt(P, i)], k) >= 0
StrictInKernel(k, P) == \A i \in 1..Len(P) : P[i] = P[Nxt(P, i)] \/ Cross(P[i], P[Nxt(P, i)], k) > 0
\* Kernel membership by visibility of every vertex and edge midpoint, from the
\* definition (all segments from k to the boundary are in the closed polygon);
\* used to establish InKernel as a theorem on all small polygons (GeomMC)
SeesPoint(k, v, P) ==   \* P doubled so that midpoints are integer
  /\ \A i \in 1..Len(P) : ~ ProperCross(k, v, P[i], P[Nxt(P, i)])
  /\ Loc(<<(k[1] + v[1]) \div 2, (k[2] + v[2]) \div 2>>, P) <= 0

PolysMeet(P, Q) ==
  \/ \E i \in 1..Len(P), j \in 1..Len(Q) : SegsMeet(P[i], P[Nxt(P, i)], Q[j], Q[Nxt(Q, j)])
  \/ Loc(P[1], Q) <= 0
  \/ Loc(Q[1], P) <= 0

-----------------------------------------------------------------------------
(* Directions seen from a point.  An edge with ends a, b (relative to the       *)
(* viewer, a clockwise of b) covers the sector from a to b, less than a half    *)
(* turn.                                                                        *)
SectorClosed(d, a, b) == CrossV(a, b) > 0 /\ CrossV(a, d) >= 0 /\ CrossV(d, b) >= 0
SectorOpen(d, a, b) == CrossV(a, b) > 0 /\ CrossV(a, d) > 0 /\ CrossV(d, b) > 0
SectorAfter(d, a, b) == CrossV(a, b) > 0 /\ CrossV(a, d) >= 0 /\ CrossV(d, b) > 0
SectorBefore(d, a, b) == CrossV(a, b) > 0 /\ CrossV(a, d) > 0 /\ CrossV(d, b) >= 0
SomeEdge(q, P, Sector(_, _, _), d) ==
  \E i \in 1..Len(P) : LET a == Sub(P[i], q)
                            b == Sub(P[Nxt(P, i)], q)
                        IN Sector(d, a, b) \/ Sector(d, b, a)
\* The ray from q in direction d meets P / crosses an edge of P in its interior
RayHits(q, P, d) == SomeEdge(q, P, SectorClosed, d)
RayHitsOpen(q, P, d) == SomeEdge(q, P, SectorOpen, d)
\* The ray turned slightly to the left / right of d is blocked
BlockedLeft(q, P, d) == SomeEdge(q, P, SectorAfter, d)
BlockedRight(q, P, d) == SomeEdge(q, P, SectorBefore, d)
\* Vertices at the left / right end of the view of P from q
LeftTangents(q, P) == {i \in 1..Len(P) : P[i] # q /\ ~ BlockedLeft(q, P, Sub(P[i], q))}
RightTangents(q, P) == {i \in 1..Len(P) : P[i] # q /\ ~ BlockedRight(q, P, Sub(P[i], q))}
\* Outside, and some direction is free
FreeExterior(q, P) == Loc(q, P) = 1 /\ LeftTangents(q, P) # {}

\* d in the sector counter-clockwise from d1 to d2 (d1, d2 not parallel to each
\* other in the same direction): 1 inside, 0 on a boundary ray, -1 outside
SameDir(u, v) == CrossV(u, v) = 0 /\ DotV(u, v) > 0
InSector(d, d1, d2) ==
  IF SameDir(d, d1) \/ SameDir(d, d2) THEN 0
  ELSE IF CrossV(d1, d2) > 0 \/ (CrossV(d1, d2) = 0 /\ DotV(d1, d2) < 0)
       THEN IF CrossV(d1, d2) = 0 THEN (IF CrossV(d1, d) > 0 THEN 1 ELSE -1)
            ELSE IF CrossV(d1, d) > 0 /\ CrossV(d, d2) > 0 THEN 1 ELSE -1
       ELSE IF CrossV(d2, d) > 0 /\ CrossV(d, d1) > 0 THEN -1 ELSE 1

-----------------------------------------------------------------------------
(* Distance of a point from a segment or polygon, compared with r >= 0          *)
\* Sign of dist(q, [a, b])^2 - num/den
SegDistCmp(q, a, b, num, den) ==
  LET ab == Sub(b, a)
      t == DotV(Sub(q, a), ab)
      l2 == DotV(ab, ab)
  IN  IF t <= 0 \/ l2 = 0 THEN Sgn(den * Dist2(q, a) - num)
      ELSE IF t >= l2 THEN Sgn(den * Dist2(q, b) - num)
      ELSE LET c == Cross(a, b, q) IN Sgn(den * c * c - num * l2)
\* Squared distance to the (filled) polygon at most num/den
WithinDistQ(q, P, num, den) ==
  Loc(q, P) <= 0 \/ \E i \in 1..Len(P) : SegDistCmp(q, P[i], P[Nxt(P, i)], num, den) <= 0
WithinDist(q, P, r2) == WithinDistQ(q, P, r2, 1)

-----------------------------------------------------------------------------
(* Ellipses with semi-axes e = <<a, b>> about the origin                        *)
EllF(q, e) == e[2] * e[2] * q[1] * q[1] + e[1] * e[1] * q[2] * q[2] - e[1] * e[1] * e[2] * e[2]
EllLoc(q, e) == Sgn(EllF(q, e))
\* Number of points a segment shares with the ellipse, -1: not decided here
\* (end on the boundary, or tangent)
EllRoots(p, r, e) ==
  LET d == Sub(r, p)
      f0 == EllF(p, e)
      f1 == EllF(r, e)
      A == e[2] * e[2] * d[1] * d[1] + e[1] * e[1] * d[2] * d[2]
      B == e[2] * e[2] * p[1] * d[1] + e[1] * e[1] * p[2] * d[2]
      disc == SqCmp(B, A, f0)
  IN  IF f0 = 0 \/ f1 = 0 THEN -1
      ELSE IF f0 < 0 /\ f1 < 0 THEN 0
      ELSE IF (f0 < 0) # (f1 < 0) THEN 1
      ELSE IF B >= 0 \/ -B >= A THEN 0      \* closest approach not inside the segment
      ELSE IF disc < 0 THEN 0 ELSE IF disc = 0 THEN -1 ELSE 2
\* The ray from q (outside) in direction d meets the ellipse: 1 crosses, 0 touches, -1 misses
EllRay(q, d, e) ==
  LET A == e[2] * e[2] * d[1] * d[1] + e[1] * e[1] * d[2] * d[2]
      B == e[2] * e[2] * q[1] * d[1] + e[1] * e[1] * q[2] * d[2]
      C == EllF(q, e)
  IN  IF B >= 0 THEN -1 ELSE SqCmp(B, A, C)
=============================================================================
