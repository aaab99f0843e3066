-------------------------------- MODULE Hull ---------------------------------
(* Admissible kernels and star-shaped hulls of obstacles.                       *)
(*                                                                             *)
(* The admissible kernel of an obstacle for a position x: the positions k such  *)
(* that the ray from x away from k does not hit the obstacle, decided exactly   *)
(* on the lattice.                                                             *)
(* The star-shaped hull of obstacles for kernel points K: the points on the     *)
(* segments between the convex hull of K and a point of an obstacle, i.e. the   *)
(* union of the obstacles and the convex hulls of K and each edge.              *)
EXTENDS Scene

-----------------------------------------------------------------------------
(* Event ak: obstacle o, position x, k "none" | "val", qs: triples k, membership *)
(* by the cone, sign of the location of k relative to the polygon of the cone   *)
\* Obstacle in its own frame, times h
LocalShape(o) == [i \in 1..Len(o.geo) |-> Scale(o.h, o.geo[i])]
\* An exterior position clear of the approximations of an ellipse by polygons
EllClear(o, q) == LET e == Scale(o.h, o.geo[1])
                  IN EllF(q, e) \div (2 * Max2(e[1], e[2]) * Max2(e[1], e[2])) > (Norm1(q) * o.h) \div 100 + o.h
Ak(ob, e) ==
  LET o == ob.o
      q == ToLocal(o, e.x)
      ell == o.kind = "ell"
      P == IF ell THEN <<>> ELSE LocalShape(o)
      L == ExactLoc(o, e.x)
      free == IF ell THEN L = 1 ELSE FreeExterior(q, P)
      tight == ~ ell /\ \E i, j \in 1..Len(P) : P[i] # P[j] /\ SameDir(Sub(P[i], q), Sub(P[j], q))
      inside(k) == LET d == Sub(q, ToLocal(o, k))
                   IN IF d = <<0, 0>> THEN 0
                      ELSE IF ell THEN -EllRay(q, d, Scale(o.h, o.geo[1]))
                      ELSE IF ~ RayHits(q, P, d) THEN 1
                      ELSE IF BlockedLeft(q, P, d) /\ BlockedRight(q, P, d) THEN -1 ELSE 0
  IN IF e.k \notin {"val", "none"} THEN {"ak." \o e.k}
     ELSE IF L <= 0 THEN Req(e.k = "none", "ak.inside")
     ELSE IF ~ free THEN Req(e.k = "none" \/ tight, "ak.enclosed")
     ELSE IF e.k = "none" THEN Req(ell /\ ~ EllClear(o, q), "ak.none")
     ELSE Req(\A i \in 1..Len(e.qs) : inside(e.qs[i][1]) = 1 => e.qs[i][2] = 1, "ak.free")
          \cup Req(\A i \in 1..Len(e.qs) : inside(e.qs[i][1]) = -1 => e.qs[i][2] = 0, "ak.shadow")
          \cup Req(\A i \in 1..Len(e.qs) : inside(e.qs[i][1]) = 1 => e.qs[i][3] = -1, "ak.polygonfree")
          \cup Req(\A i \in 1..Len(e.qs) : inside(e.qs[i][1]) = -1 => e.qs[i][3] = 1, "ak.polygonshadow")

-----------------------------------------------------------------------------
(* Event hull: os: indices of the obstacles, single: given as an obstacle       *)
(* instead of a list, K: kernel points, form, holes, big, poly: the result      *)
CH(A) == \* convex hull of a set of points as a sequence of its extreme points, counter-clockwise
  LET start == CHOOSE p \in A : \A q \in A : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
      \* the next point: all others to the left, the farthest one of those in line
      next(p) == CHOOSE q \in A \ {p} : \A r \in A \ {p} :
                   Cross(p, q, r) > 0 \/ (Cross(p, q, r) = 0 /\ DotV(Sub(q, p), Sub(r, p)) > 0 /\ Dist2(p, r) <= Dist2(p, q))
      F[n \in 0..Cardinality(A)] ==
         IF n = 0 THEN <<start>>
         ELSE LET s == F[n - 1] IN IF n > 1 /\ s[Len(s)] = start THEN s ELSE Append(s, next(s[Len(s)]))
      c == F[Cardinality(A)]
  IN IF Cardinality(A) = 1 THEN <<start>> ELSE IF c[Len(c)] = start THEN SubSeq(c, 1, Len(c) - 1) ELSE c
\* Surely in / outside the convex polygon C (two vertices: a segment) with a margin of t
HullIn(q, C, t) == Len(C) > 2 /\ \A i \in 1..Len(C) : LET n == Nxt(C, i) IN Cross(C[i], C[n], q) > t * Norm1(Sub(C[n], C[i]))
HullOut(q, C, t) == IF Len(C) = 1 THEN Dist2(q, C[1]) > t * t
                    ELSE IF Len(C) = 2 THEN ~ DistLe(q, C[1], C[2], t)
                    ELSE \E i \in 1..Len(C) : LET n == Nxt(C, i) IN Cross(C[i], C[n], q) < -t * Norm1(Sub(C[n], C[i]))
Pieces(P, K) == {CH(K \cup {P[i], P[Nxt(P, i)]}) : i \in 1..Len(P)}
Hull(O, e) ==
  LET K == {Scale(Z, e.K[i]) : i \in 1..Len(e.K)}
      I == Idx(e.os)
      N == Len(e.poly)
            inn == UNION {Pieces(O[i].inn, K) : i \in I}
      out == IF HasEll(O, I) THEN UNION {Pieces(O[i].out, K) : i \in I} ELSE inn
      In(q) == (\E C \in inn : HullIn(q, C, 4)) \/ (\E i \in I : DeepIn(q, O[i].inn, 4))
      Out(q) == (\A C \in out : HullOut(q, C, 4)) /\ (\A i \in I : DeepOut(q, O[i].out, 4))
      got(q) == (\E h \in 1..N : ~ DeepOut(q, e.poly[h], 4)) \/ (\E i \in I : Loc(q, O[i].out) <= 0)
      mid(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>
      Hp == UNION {LET H == e.poly[h] IN {H[i] : i \in 1..Len(H)} \cup {mid(H[i], H[Nxt(H, i)]) : i \in 1..Len(H)} : h \in 1..N}
      Cen(C) == LET c == Sum(LAMBDA i : C[i][1], Len(C))
                    d == Sum(LAMBDA i : C[i][2], Len(C)) IN <<c \div Len(C), d \div Len(C)>>
      Samples == UNION {{C[i] : i \in 1..Len(C)} \cup {mid(C[i], C[Nxt(C, i)]) : i \in 1..Len(C)} \cup {Cen(C)} : C \in inn}
      B == LET Bs == {Box(e.poly[h]) : h \in 1..N}
           IN <<SetMin({b[1] : b \in Bs}), SetMin({b[2] : b \in Bs}), SetMax({b[3] : b \in Bs}), SetMax({b[4] : b \in Bs})>>
      G == {<<B[1] + ((B[3] - B[1]) * i) \div 8, B[2] + ((B[4] - B[2]) * j) \div 8>> : i \in 0..8, j \in 0..8}
      empty == \A i \in I : O[i].conv /\ \A j \in 1..Len(e.K) : ExactLoc(O[i].o, e.K[j]) <= 0
  IN IF e.k \notin {"val", "none"} THEN {"hull." \o e.k}
     ELSE IF e.k = "none" \/ e.form = "empty" THEN Req(empty, "hull.none") \cup Req(e.k # "none" \/ ~ e.single, "hull.single")
     \* Parts may touch in the only kernel point
     ELSE Req(e.form = "Polygon" \/ (e.form = "MultiPolygon" /\ Cardinality(K) = 1), "hull.form") \cup Req(e.holes = 0, "hull.holes")
     \cup IF e.big THEN {}
     ELSE Req(\A q \in Hp : ~ Out(q), "hull.superfluous")
          \cup Req(\A q \in Samples : got(q), "hull.missing")
          \cup Req(\A q \in G : (In(q) => got(q)) /\ (Out(q) => \A h \in 1..N : ~ DeepIn(q, e.poly[h], 4)), "hull.region")
          \cup Req(\A h \in 1..N : \A k \in K : ~ DeepOut(k, e.poly[h], 2), "hull.kernel")
          \cup Req(\A h \in 1..N : \A k \in K : StarAbout(k, e.poly[h], 3), "hull.star")

-----------------------------------------------------------------------------
(* Event graph: merging of things which intersect, until nothing does.  geos:    *)
(* lattice polygons; steps: the partitions (sequences of index sequences),       *)
(* flags: what each step reported (1: there were intersections).  A cluster of   *)
(* several obstacles is represented by the convex hull of its obstacles.         *)
GraphSteps(e) ==
  LET reg(b) == IF Len(b) = 1 THEN CCW(e.geos[b[1]]) ELSE CH(UNION {Members(e.geos[i]) : i \in Members(b)})
      meets(C) == LET R == [i \in 1..Len(C) |-> reg(C[i])] IN
                  {p \in (1..Len(C)) \X (1..Len(C)) : p[1] < p[2] /\ ~ BoxApart(Box(R[p[1]]), Box(R[p[2]]), 0) /\ PolysMeet(R[p[1]], R[p[2]])}
      N == Len(e.steps)
  IN IF e.k # "val" THEN {"graph." \o e.k}
     ELSE Req(\A i \in 1..N - 1 : SumLen(e.steps[i + 1], Len(e.steps[i + 1])) = Len(e.geos)
                                  /\ {Members(e.steps[i + 1][j]) : j \in 1..Len(e.steps[i + 1])} = MergeOf(e.steps[i], meets(e.steps[i])), "graph.components")
          \cup Req(\A i \in 1..N - 1 : (e.flags[i] = 1) = (meets(e.steps[i]) # {}), "graph.flag")
          \cup Req(N >= 2 /\ e.flags[N - 1] = 0, "graph.ends")

Step(O, e) ==
  CASE e.op = "obs" -> <<Append(O, Obstacle(e)), {}>>
    [] e.op = "pose" -> <<[O EXCEPT ![e.o] = Posed(@, e.pose)], {}>>
    [] e.op = "ak" -> <<O, IF On("p10") THEN Ak(O[e.o], e) ELSE {}>>
    [] e.op = "graph" -> <<O, IF On("p06") THEN GraphSteps(e) ELSE {}>>
    [] e.op = "hull" -> <<O, IF On("p11") THEN Hull(O, e) ELSE {}>>
=============================================================================
