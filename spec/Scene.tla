-------------------------------- MODULE Scene -------------------------------
(* Contract of the clustering of obstacles into disjoint star-shaped obstacles: *)
(* what a result must look like for a scene of obstacles, a robot position x    *)
(* and a goal position xg on the integer lattice.                              *)
(*                                                                             *)
(* Obstacles: kind "ell" | "pol" | "star", geo (lattice vertices or semi-axes   *)
(* in the obstacle frame), pose p, c, s, h (rotation by the angle with cosine   *)
(* c/h, sine s/h).  Returned regions are measured, in units of 1/Z; clauses on  *)
(* measured regions have a tolerance of a few units, clauses on the input are   *)
(* exact.                                                                      *)
EXTENDS Geom, Cluster, TLC, IOUtils

Z == 500
Req(b, name) == IF b THEN {} ELSE {name}

-----------------------------------------------------------------------------
(* Obstacles as polygons at scale Z: an inner and an outer approximation, which *)
(* are the same for polygons                                                   *)
Ring == << <<1, 0, 1>>, <<12, 5, 13>>, <<4, 3, 5>>, <<3, 4, 5>>, <<5, 12, 13>>,
           <<0, 1, 1>>, <<-5, 12, 13>>, <<-3, 4, 5>>, <<-4, 3, 5>>, <<-12, 5, 13>>,
           <<-1, 0, 1>>, <<-12, -5, 13>>, <<-4, -3, 5>>, <<-3, -4, 5>>, <<-5, -12, 13>>,
           <<0, -1, 1>>, <<5, -12, 13>>, <<3, -4, 5>>, <<4, -3, 5>>, <<12, -5, 13>> >>
ToG(o, v, num, den) ==
  <<Z * o.p[1] + RDiv(Z * num * (o.c * v[1] - o.s * v[2]), den * o.h),
    Z * o.p[2] + RDiv(Z * num * (o.s * v[1] + o.c * v[2]), den * o.h)>>
Inner(o) == IF o.kind = "ell"
            THEN [i \in 1..20 |-> ToG(o, <<o.geo[1][1] * Ring[i][1], o.geo[1][2] * Ring[i][2]>>, 1, Ring[i][3])]
            ELSE CCW([i \in 1..Len(o.geo) |-> ToG(o, o.geo[i], 1, 1)])
\* The directions of Ring are at most 22.7 degrees apart, 1/cos(11.35 deg) < 1.03
Outer(o) == IF o.kind = "ell"
            THEN [i \in 1..20 |-> ToG(o, <<o.geo[1][1] * Ring[i][1], o.geo[1][2] * Ring[i][2]>>, 103, 100 * Ring[i][3])]
            ELSE Inner(o)
Obstacle(e) ==
  LET o == [kind |-> e.kind, geo |-> e.geo, p |-> <<e.pose[1], e.pose[2]>>, c |-> e.pose[3], s |-> e.pose[4], h |-> e.pose[5]]
  IN [o |-> o, inn |-> Inner(o), out |-> Outer(o),
      conv |-> o.kind = "ell" \/ IsConvex(o.geo),
      star |-> o.kind \in {"ell", "star"} \/ IsConvex(o.geo)]
Posed(b, pose) ==
  LET o == [b.o EXCEPT !.p = <<pose[1], pose[2]>>, !.c = pose[3], !.s = pose[4], !.h = pose[5]]
  IN [b EXCEPT !.o = o, !.inn = Inner(o), !.out = Outer(o)]

\* Position of a lattice point relative to an obstacle, exactly
ToLocal(o, q) == LET d == Sub(q, o.p) IN <<o.c * d[1] + o.s * d[2], -o.s * d[1] + o.c * d[2]>>
ExactLoc(o, q) == IF o.kind = "ell" THEN EllLoc(ToLocal(o, q), Scale(o.h, o.geo[1]))
                  ELSE Loc(ToLocal(o, q), [i \in 1..Len(o.geo) |-> Scale(o.h, o.geo[i])])
ExactFree(o, q) == IF o.kind = "ell" THEN EllLoc(ToLocal(o, q), Scale(o.h, o.geo[1])) = 1
                   ELSE FreeExterior(ToLocal(o, q), [i \in 1..Len(o.geo) |-> Scale(o.h, o.geo[i])])

-----------------------------------------------------------------------------
(* Measured regions: predicates with a margin of t units                        *)
Len2(v) == ISqrt(DotV(v, v)) + 1
DistLe(q, a, b, t) ==
  LET ab == Sub(b, a)
      k == DotV(Sub(q, a), ab)
      l2 == DotV(ab, ab)
  IN IF k <= 0 \/ l2 = 0 THEN Norm1(Sub(q, a)) <= 2 * t /\ Dist2(q, a) <= t * t
     ELSE IF k >= l2 THEN Norm1(Sub(q, b)) <= 2 * t /\ Dist2(q, b) <= t * t
     ELSE Abs(Cross(a, b, q)) <= t * (ISqrt(l2) + 1)
NearBoundary(q, P, t) == \E i \in 1..Len(P) : DistLe(q, P[i], P[Nxt(P, i)], t)
DeepIn(q, P, t) == Loc(q, P) = -1 /\ ~ NearBoundary(q, P, t)
DeepOut(q, P, t) == Loc(q, P) = 1 /\ ~ NearBoundary(q, P, t)
SetMin(A) == CHOOSE a \in A : \A b \in A : a <= b
SetMax(A) == CHOOSE a \in A : \A b \in A : b <= a
Box(P) == LET X == {P[i][1] : i \in 1..Len(P)}
              Y == {P[i][2] : i \in 1..Len(P)}
          IN <<SetMin(X), SetMin(Y), SetMax(X), SetMax(Y)>>
BoxHas(b, q) == b[1] <= q[1] /\ q[1] <= b[3] /\ b[2] <= q[2] /\ q[2] <= b[4]
BoxApart(b, c, t) == b[3] + t < c[1] \/ c[3] + t < b[1] \/ b[4] + t < c[2] \/ c[4] + t < b[2]
DeepSide(a, b, c, t) == LET x == Cross(a, b, c) IN IF Abs(x) > t * Len2(Sub(b, a)) THEN Sgn(x) ELSE 0
DeepCross(a, b, c, d, t) == /\ DeepSide(a, b, c, t) * DeepSide(a, b, d, t) = -1
                            /\ DeepSide(c, d, a, t) * DeepSide(c, d, b, t) = -1
DeepMeet(P, Q, t) ==
  /\ ~ BoxApart(Box(P), Box(Q), 0)
  /\ \/ \E i \in 1..Len(P) : DeepIn(P[i], Q, t)
     \/ \E i \in 1..Len(Q) : DeepIn(Q[i], P, t)
     \/ \E i \in 1..Len(P), j \in 1..Len(Q) : DeepCross(P[i], P[Nxt(P, i)], Q[j], Q[Nxt(Q, j)], t)
ClearApart(P, Q, t) ==
  \/ BoxApart(Box(P), Box(Q), t)
  \/ /\ ~ PolysMeet(P, Q)
     /\ \A i \in 1..Len(P) : ~ NearBoundary(P[i], Q, t)
     /\ \A i \in 1..Len(Q) : ~ NearBoundary(Q[i], P, t)
\* Depth of the boundary of a CCW polygon behind k
StarAbout(k, P, t) ==
  \A i \in 1..Len(P) :
    LET x == Cross(k, P[i], P[Nxt(P, i)])
    IN \/ x >= 0
       \/ -x <= t * Max2(Len2(Sub(P[i], k)), Len2(Sub(P[Nxt(P, i)], k)))
       \* with polygons in place of ellipses: on the way to the edge there are gaps, but none as wide as t
       \/ /\ t > 3
          /\ \A m \in 0..4, j \in 1..15 :
               LET q == <<P[i][1] + RDiv((P[Nxt(P, i)][1] - P[i][1]) * m, 4), P[i][2] + RDiv((P[Nxt(P, i)][2] - P[i][2]) * m, 4)>>
                   v == <<k[1] + RDiv((q[1] - k[1]) * j, 16), k[2] + RDiv((q[2] - k[2]) * j, 16)>>
               IN Loc(v, P) # 1 \/ NearBoundary(v, P, t \div 2)
\* H is the convex hull of the vertices of P, exactly
HullOf(H, P) == /\ \A i \in 1..Len(H) : H[i] \in {P[j] : j \in 1..Len(P)}
                /\ \A i \in 1..Len(H) : \A j \in 1..Len(P) : Cross(H[i], H[Nxt(H, i)], P[j]) >= 0
\* P with hull H is convex up to dents of depth t
ConvexUpTo(P, H, t) == HullOf(H, P) /\ \A i \in 1..Len(P) : NearBoundary(P[i], H, t)
\* The same region, up to t
SameRegion(P, Q, t) == /\ \A i \in 1..Len(P) : NearBoundary(P[i], Q, t)
                       /\ \A i \in 1..Len(Q) : NearBoundary(Q[i], P, t)
\* Q with hull H is the convex hull of P, up to t
IsHullOf(Q, H, P, t) ==
  /\ ConvexUpTo(Q, H, t)
  /\ \A i \in 1..Len(P) : Loc(P[i], H) <= 0 \/ NearBoundary(P[i], H, t)
  /\ \A i \in 1..Len(Q) : \E j \in 1..Len(P) : Near(Q[i], P[j], t)

-----------------------------------------------------------------------------
(* Admissible positions: no obstacle is hit by the ray from x away from k       *)
\* The ray from x (scale Z) in direction d, which is known up to 2 units, surely hits / surely misses
RayIn(d, a, b) == LET m == 3 * (Norm1(a) + Norm1(d)) + 9
                      n == 3 * (Norm1(b) + Norm1(d)) + 9
                  IN CrossV(a, b) > 0 /\ CrossV(a, d) > m /\ CrossV(d, b) > n
RayNear(d, a, b) == LET m == 3 * (Norm1(a) + Norm1(d)) + 9
                        n == 3 * (Norm1(b) + Norm1(d)) + 9
                    IN CrossV(a, d) >= -m /\ CrossV(d, b) >= -n /\ (DotV(a, d) > 0 \/ DotV(b, d) > 0)
ClearHit(x, k, P) ==
  LET d == Sub(x, k) IN
  \E i \in 1..Len(P) : LET a == Sub(P[i], x) b == Sub(P[Nxt(P, i)], x) IN RayIn(d, a, b) \/ RayIn(d, b, a)
ClearMiss(x, k, P) ==
  LET d == Sub(x, k) IN
  \A i \in 1..Len(P) : LET a == Sub(P[i], x) b == Sub(P[Nxt(P, i)], x)
                       IN ~ (IF CrossV(a, b) >= 0 THEN RayNear(d, a, b) ELSE RayNear(d, b, a))
\* k is surely (not) admissible for the obstacles with indices I, and so is everything close to it
Admissible(O, I, x, xg, k) ==
  \A i \in I : ClearMiss(Scale(Z, x), k, O[i].out) /\ ClearMiss(Scale(Z, xg), k, O[i].out)
NotAdmissible(O, I, x, xg, k) ==
  \E i \in I : ClearHit(Scale(Z, x), k, O[i].inn) \/ ClearHit(Scale(Z, xg), k, O[i].inn)
\* Margin of positions: a disc of radius 1/20 of a lattice unit
Wiggle(k) == {k, <<k[1] + 25, k[2]>>, <<k[1] - 25, k[2]>>, <<k[1], k[2] + 25>>, <<k[1], k[2] - 25>>}
Grid(B) == {<<250 * i, 250 * j>> : i \in ((B[1] \div 250) - 2)..((B[3] \div 250) + 3), j \in ((B[2] \div 250) - 2)..((B[4] \div 250) + 3)}
HullBox(O, I) == LET Bs == {Box(O[i].inn) : i \in I}
                 IN <<SetMin({b[1] : b \in Bs}), SetMin({b[2] : b \in Bs}), SetMax({b[3] : b \in Bs}), SetMax({b[4] : b \in Bs})>>
RobustAdm(O, I, x, xg, k) == \A w \in Wiggle(k) : Admissible(O, I, x, xg, w)
SomeAdmissible(O, I, x, xg) == \E k \in Grid(HullBox(O, I)) : RobustAdm(O, I, x, xg, k)

\* Surely in the interior of every kernel of the obstacles I
InKernelOf(b, k, t) ==
  IF b.o.kind = "ell" THEN DeepIn(k, b.inn, t)
  ELSE b.star /\ \A i \in 1..Len(b.inn) :
         LET v == b.inn[i] w == b.inn[Nxt(b.inn, i)] IN v = w \/ Cross(v, w, k) > t * Len2(Sub(w, v))
InAllKernels(O, I, k, t) == \A i \in I : InKernelOf(O[i], k, t)
\* The kernels surely have no interior point in common
NoCommonKernel(O, I) ==
  \/ \E i \in I : ~ O[i].star
  \/ \E i, j \in I : i < j /\ ClearApart(O[i].out, O[j].out, 5)
InUnion(O, I, k, t) == \E i \in I : DeepIn(k, O[i].inn, t)
\* k is surely not in the kernel of b
OutKernelOf(b, k, t) ==
  IF b.o.kind = "ell" THEN DeepOut(k, b.out, t)
  ELSE b.star /\ \E i \in 1..Len(b.inn) :
         LET v == b.inn[i] w == b.inn[Nxt(b.inn, i)] IN v # w /\ Cross(v, w, k) < -t * Len2(Sub(w, v))
\* k is surely in the region the kernel triangle is preferably taken from (without workspace and exclusion)
Preferred(O, I, x, xg, k) ==
  /\ RobustAdm(O, I, x, xg, k)
  /\ \A w \in Wiggle(k) : InAllKernels(O, I, w, 3) \/ (NoCommonKernel(O, I) /\ InUnion(O, I, w, 3))

\* Workspaces: <<w, r>> a disc of radius r at <<w, w>> / 2 (approximated by a polygon), <<a, b, c, d>> a box.  Surely outside, inside
WsOut(W, k, t) ==
  IF Len(W) = 2 THEN Len2(Sub(k, <<250 * W[1], 250 * W[1]>>)) > (Z * W[2] + t + 5) * (Z * W[2] + t + 5)
  ELSE k[1] < Z * W[1] - t \/ k[2] < Z * W[2] - t \/ k[1] > Z * W[3] + t \/ k[2] > Z * W[4] + t
WsIn(W, k, t) ==
  IF Len(W) = 2 THEN LET d == (Z * W[2] * 98) \div 100 - t IN Dist2(k, <<250 * W[1], 250 * W[1]>>) < d * d
  ELSE k[1] > Z * W[1] + t /\ k[2] > Z * W[2] + t /\ k[1] < Z * W[3] - t /\ k[2] < Z * W[4] - t
\* Exclusion of other obstacles: obstacle j surely does (not) count for i
Counts(O, i, j) == IsConvex(O[i].inn) /\ \A v \in {O[j].inn[m] : m \in 1..Len(O[j].inn)} : DeepOut(v, O[i].inn, 3)
CountsNot(O, i, j) == \E m \in 1..Len(O[j].inn) : DeepIn(O[j].inn[m], O[i].inn, 3)
ExPairs(O, I) == {p \in I \X (1..Len(O)) : p[1] # p[2] /\ Counts(O, p[1], p[2])}
ExClear(O, I) == /\ \A i \in 1..Len(O) : O[i].o.kind # "ell"
                 /\ \A p \in I \X (1..Len(O)) : p[1] = p[2] \/ Counts(O, p[1], p[2]) \/ CountsNot(O, p[1], p[2])
ExHit(O, I, k) == \E p \in ExPairs(O, I) : \E m \in 1..Len(O[p[2]].inn) : ClearHit(O[p[2]].inn[m], k, O[p[1]].inn)
ExMiss(O, I, k) == \A p \in ExPairs(O, I) : \A m \in 1..Len(O[p[2]].inn) : ClearMiss(O[p[2]].inn[m], k, O[p[1]].out)

-----------------------------------------------------------------------------
(* Results.  A call event e has                                                 *)
(*  x, xg; eps: the kernel width in units of 1/Z; ws, wsb, ex, mc: workspace    *)
(*  and its shape, exclusion, convexification; maxit: 0 or the maximal number of iterations;   *)
(*  budget: 0 none, 1 used up at some point; prev, base: numbers of the call    *)
(*  whose clusters are passed on / of the same call without limit and           *)
(*  convexification, or 0                                                       *)
(*  k, flag, nit, form (length and signs of the result are right)               *)
(*  cl: clusters: obs (indices), id, form, holes, big, poly, xr, own (sign of   *)
(*  the location of x, xg, reference point by the own query), px (x, xg in the  *)
(*  polygon), kp (kernel points), kd (differences of the kernel points in units *)
(*  of eps/20000), kpos, col                                                    *)
(*  meet: pairs of clusters whose polygons intersect                            *)
(*  hist: the history: records of obs (index sequences) and meet                *)
Idx(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumLen(_, _)
SumLen(C, i) == IF i = 0 THEN 0 ELSE Len(C[i]) + SumLen(C, i - 1)
IsPartition(C, n) == UNION {Idx(C[i]) : i \in 1..Len(C)} = 1..n /\ SumLen(C, Len(C)) = n /\ \A i \in 1..Len(C) : Len(C[i]) > 0
Singles(C, n) == Len(C) = n /\ \A i \in 1..n : C[i] = <<i>>
Obs(e) == [i \in 1..Len(e.cl) |-> e.cl[i].obs]
HasEll(O, I) == \E i \in I : O[i].o.kind = "ell"
EllTol(O, I) == LET A == {Max2(O[i].o.geo[1][1], O[i].o.geo[1][2]) : i \in {j \in I : O[j].o.kind = "ell"}}
                IN IF A = {} THEN 2 ELSE 3 + (Z * SetMax(A) * 13) \div 1000

Pairs(m) == {<<m[i][1], m[i][2]>> : i \in 1..Len(m)}

Solved(e) == e.k = "val" /\ e.flag \in {1, 2}
P01(O, e) ==
  IF ~ Solved(e) THEN {}
  ELSE Req(e.meet = <<>>, "p01.meet")
       \cup Req(\A i, j \in 1..Len(e.cl) : i < j /\ ~ e.cl[i].big /\ ~ e.cl[j].big => ~ DeepMeet(e.cl[i].poly, e.cl[j].poly, 2), "p01.overlap")

Covers(O, c) ==
  LET t == EllTol(O, Idx(c.obs)) IN
  \A o \in Idx(c.obs) :
    LET P == O[o].inn IN
    /\ \A i \in 1..Len(P) : ~ DeepOut(P[i], c.poly, t) /\ ~ DeepOut(<<(P[i][1] + P[Nxt(P, i)][1]) \div 2, (P[i][2] + P[Nxt(P, i)][2]) \div 2>>, c.poly, t)
    /\ \A i \in 1..Len(c.poly) : ~ DeepIn(c.poly[i], P, t)
P02(O, e) ==
  IF e.k # "val" THEN {}
  ELSE Req(e.kept = 1, "p02.kept") \cup
       IF e.flag = 0 THEN Req(Singles(Obs(e), Len(O)), "p02.single")
  ELSE Req(IsPartition(Obs(e), Len(O)), "p02.partition")
       \cup Req(\A i \in 1..Len(e.cl) : e.cl[i].form = "Polygon" /\ ~ e.cl[i].big => Covers(O, e.cl[i]), "p02.cover")
       \cup Req(\A i \in 1..Len(e.cl) : e.cl[i].lost = 0, "p02.lost")

P03(O, e) ==
  IF ~ Solved(e) THEN {}
  ELSE Req(\A o \in 1..Len(O) : ExactFree(O[o].o, e.x) /\ ExactFree(O[o].o, e.xg), "p03.free")
       \cup Req(\A i \in 1..Len(e.cl) : e.cl[i].own[1] = 1 /\ e.cl[i].own[2] = 1, "p03.own")
       \cup Req(\A i \in 1..Len(e.cl) : e.cl[i].px = <<0, 0>>, "p03.polygon")
       \cup Req(\A i \in 1..Len(e.cl) : e.cl[i].big \/ (~ DeepIn(Scale(Z, e.x), e.cl[i].poly, 2) /\ ~ DeepIn(Scale(Z, e.xg), e.cl[i].poly, 2)), "p03.region")

Mean(kp) == <<RDiv(kp[1][1] + kp[2][1] + kp[3][1], 3), RDiv(kp[1][2] + kp[2][2] + kp[3][2], 3)>>
P04(O, res, e) ==
  IF ~ Solved(e) THEN {}
  ELSE UNION {
    LET c == e.cl[i]
        t == EllTol(O, Idx(c.obs))
        hulled == e.mc /\ e.base > 0 /\ ~ \E j \in 1..Len(res[e.base].cl) :
                    LET b == res[e.base].cl[j] IN b.obs = c.obs /\ ~ b.big /\ SameRegion(b.poly, c.poly, 2)
    IN Req(c.form = "Polygon" /\ c.holes = 0, "p04.simple")
       \cup Req(c.own[3] = -1, "p04.inside")
       \cup IF c.big \/ c.form # "Polygon" THEN {}
            ELSE Req(Loc(c.xr, c.poly) = -1 \/ NearBoundary(c.xr, c.poly, 2), "p04.interior")
                 \cup Req(StarAbout(c.xr, c.poly, t), "p04.xr")
                 \cup IF c.kp = <<>> \/ (e.mc /\ (e.base = 0 \/ hulled)) THEN {}
                      ELSE Req(\A j \in 1..3 : StarAbout(c.kp[j], c.poly, t), "p04.kernel")
                           \cup Req(Near(c.xr, Mean(c.kp), 2), "p04.centre")
    : i \in 1..Len(e.cl)}

P05(O, res, e) ==
  IF e.k # "val" THEN {}
  ELSE Req(e.form = 1, "p05.form")
       \cup Req(e.flag \in {0, 1, 2}, "p05.flag")
       \cup Req(e.flag # 2 \/ (e.mc /\ e.budget = 1), "p05.convexflag")
       \cup Req(e.maxit = 0 \/ e.nit <= e.maxit, "p05.maxit")
       \cup Req(e.flag = 0 \/ e.nit >= 1, "p05.count")
       \cup Req(e.flag = 0 \/ e.nit <= Len(O), "p05.bound")   \* every further iteration merges
       \cup (IF e.base > 0 /\ e.budget = 0 /\ res[e.base].k = "val"
             THEN LET b == res[e.base] IN
                  IF b.flag = 1 /\ (e.maxit = 0 \/ e.maxit >= b.nit)
                  THEN Req(e.flag = 1 /\ e.nit = b.nit, "p05.enough")
                  ELSE Req(e.flag = 0, "p05.limit")
             ELSE {})
       \cup (IF e.hist # <<>> /\ e.flag # 0
             THEN LET H == e.hist IN
                  Req(Len(H) = e.nit, "p05.history")
                  \cup Req(Singles(H[1].obs, Len(O)), "p05.first")
                  \cup Req(\A i \in 1..Len(H) - 1 : {Idx(H[i + 1].obs[j]) : j \in 1..Len(H[i + 1].obs)} = MergeOf(H[i].obs, Pairs(H[i].meet)), "p05.step")
                  \cup Req(H[Len(H)].meet = <<>> /\ {Idx(H[Len(H)].obs[j]) : j \in 1..Len(H[Len(H)].obs)} = {Idx(e.cl[j].obs) : j \in 1..Len(e.cl)}, "p05.last")
             ELSE {})
       \cup (IF e.flag = 0 /\ e.maxit = 0 /\ e.budget = 0 /\ e.nit > 0 /\ e.hist # <<>>
             THEN \* given up without need: every cluster asked for has admissible kernel points
                  LET C == e.hist[Len(e.hist)].obs IN
                  Req(\E i \in 1..Len(C) : ~ SomeAdmissible(O, Idx(C[i]), e.x, e.xg), "p05.reason")
             ELSE {})
       \cup (IF e.flag = 0 /\ e.maxit = 0 /\ e.budget = 0 /\ e.nit = 0
             THEN Req(\E i \in 1..Len(O) : \/ ~ ExactFree(O[i].o, e.x) \/ ~ ExactFree(O[i].o, e.xg)
                                                   \/ ~ SomeAdmissible(O, {i}, e.x, e.xg), "p05.reason0") ELSE {})

\* A step of clustering: the components of the intersection relation
P06(O, e) ==
  IF e.k # "val" \/ e.hist = <<>> \/ e.flag = 0 THEN {}
  ELSE Req(\A i \in 1..Len(e.hist) - 1 :
             /\ e.hist[i].meet # <<>>
             /\ {Idx(e.hist[i + 1].obs[j]) : j \in 1..Len(e.hist[i + 1].obs)} = MergeOf(e.hist[i].obs, Pairs(e.hist[i].meet)), "p06.components")
       \cup Req(e.hist[Len(e.hist)].meet = <<>>, "p06.stop")

P07(O, res, e) ==
  IF ~ Solved(e) \/ ~ e.mc THEN {}
  ELSE Req(P01(O, e) = {}, "p07.disjoint") \cup Req(P02(O, e) = {}, "p07.cover") \cup Req(P03(O, e) = {}, "p07.free")
    \cup IF e.base = 0 \/ res[e.base].k # "val" \/ res[e.base].flag # 1 THEN {}
         ELSE LET b == res[e.base] IN
         Req(Obs(b) = Obs(e), "p07.clusters")
         \cup IF Obs(b) # Obs(e) THEN {}
         ELSE UNION {
           LET P == b.cl[i].poly
               Q == e.cl[i].poly
               H == e.cl[i].hull
           IN IF b.cl[i].big \/ e.cl[i].big \/ e.cl[i].form # "Polygon" \/ b.cl[i].form # "Polygon" THEN {}
              ELSE IF SameRegion(P, Q, 2)
              THEN \* not convexified
                   IF e.flag = 2 \/ ConvexUpTo(Q, H, 5) THEN {}
                   ELSE Req(HullOf(H, Q), "p07.form")
                        \cup Req(~ (/\ DeepOut(Scale(Z, e.x), H, 3) /\ DeepOut(Scale(Z, e.xg), H, 3)
                                  /\ \A j \in 1..Len(e.cl) : j # i => ~ e.cl[j].big /\ ClearApart(H, e.cl[j].poly, 3)), "p07.missed")
              ELSE Req(IsHullOf(Q, H, P, 3), "p07.hull")
           : i \in 1..Len(e.cl)}

SameScene(a, e) == a.x = e.x /\ a.xg = e.xg /\ a.ver = e.ver /\ a.eps = e.eps /\ a.ws = e.ws /\ a.ex = e.ex
Centre(c) == Mean(c.kp)
P08(O, res, e) ==
  IF ~ Solved(e) \/ e.prev = 0 \/ res[e.prev].k # "val" THEN {}
  ELSE LET q == res[e.prev] IN UNION {UNION {
    LET c == e.cl[i]
        b == q.cl[j]
        I == Idx(c.obs)
        plain == ~ e.ws /\ ~ e.ex
        kept == Near(Centre(c), Centre(b), 2)
        side(k) == DeepSide(Scale(Z, e.x), Scale(Z, e.xg), k, 5)
    IN IF Idx(b.obs) # I THEN {}
       ELSE Req(Len(c.obs) = 1 \/ q.mc \/ e.mc \/ q.flag # 1 \/ c.id = b.id, "p08.id")
       \cup IF c.kp = <<>> \/ b.kp = <<>> \/ c.big \/ b.big THEN {}
       ELSE Req(~ (SameScene(q, e) /\ q.flag = 1) \/ (\A k \in 1..3 : Near(c.kp[k], b.kp[k], 2)), "p08.same")
       \cup Req(~ (SameScene(q, e) /\ q.flag = 1 /\ ~ q.mc /\ ~ e.mc) \/ SameRegion(c.poly, b.poly, 3), "p08.region")
       \cup IF kept \/ ~ plain \/ I = {} THEN {}
       ELSE Req(~ (Preferred(O, I, e.x, e.xg, Centre(b)) /\ side(Centre(b)) # 0), "p08.centre")
       \cup Req(~ (/\ side(Centre(b)) # 0 /\ side(Centre(c)) = -side(Centre(b))
                   /\ \E k \in Grid(HullBox(O, I)) : side(k) = side(Centre(b)) /\ Preferred(O, I, e.x, e.xg, k)), "p08.side")
    : j \in 1..Len(q.cl)} : i \in 1..Len(e.cl)}
    \cup Req(~ (SameScene(q, e) /\ q.flag = 1 /\ q.maxit = 0 /\ e.maxit = 0 /\ e.budget = 0) \/ (e.flag = 1 /\ {Idx(c) : c \in Idx(Obs(e))} = {Idx(c) : c \in Idx(Obs(q))}), "p08.clusters")

P09(O, res, e) ==
  IF ~ Solved(e) THEN {}
  ELSE UNION {
    LET c == e.cl[i]
        I == Idx(c.obs)
    IN Req(c.kp # <<>>, "p09.none")
       \cup IF c.kp = <<>> THEN {}
       ELSE LET u == c.kd[1]
                v == c.kd[2]
                l1 == ISqrt(DotV(u, u))
                l2 == ISqrt(DotV(v, v))
                l3 == ISqrt(Dist2(u, v))
            IN Req(Abs(l1 - l2) <= 4 /\ Abs(l1 - l3) <= 4, "p09.equilateral")
               \cup Req(l1 <= 20004 /\ l2 <= 20004 /\ l3 <= 20004, "p09.size")
               \cup Req(c.kpos = 1, "p09.positive")
               \cup Req(c.col = 0 \/ (e.prev > 0 /\ \E j \in 1..Len(res[e.prev].cl) : Idx(res[e.prev].cl[j].obs) = I) \/ e.x = e.xg, "p09.line")
               \cup Req(c.big \/ \A j \in 1..3 : ~ NotAdmissible(O, I, e.x, e.xg, c.kp[j]), "p09.admissible")
               \cup (LET k == Centre(c)
                         far == c.big /\ \A j \in 1..3 : c.kp[j] = <<0, 0>>
                         G == Grid(HullBox(O, I))
                         some(Good(_)) == \E g \in G : (\A w \in Wiggle(g) : Good(w)) /\ RobustAdm(O, I, e.x, e.xg, g)
                         inK(w) == InAllKernels(O, I, w, 3)
                         inU(w) == InUnion(O, I, w, 3)
                         outW(w) == WsOut(e.wsb, w, 3) /\ inU(w)
                         exok(w) == ExMiss(O, I, w)
                         within == ~ e.ws \/ \A o \in I : \A m \in 1..Len(O[o].out) : WsIn(e.wsb, O[o].out[m], 3)
                         free == ~ e.ex \/ Len(c.obs) = 1
                     IN (IF ~ within \/ ~ free \/ (\E o \in I : ~ O[o].star) \/ (~ far /\ \A o \in I : ~ OutKernelOf(O[o], k, 3)) THEN {}
                              ELSE Req(~ some(inK), "p09.kernel"))
                        \cup (IF ~ within \/ ~ free \/ (~ far /\ \E o \in I : ~ DeepOut(k, O[o].out, 3)) THEN {} ELSE Req(~ some(inU), "p09.inside"))
                        \cup (IF ~ e.ws \/ ~ free \/ (~ far /\ ~ WsIn(e.wsb, k, 3)) THEN {} ELSE Req(~ some(outW), "p09.workspace"))
                        \cup (IF free \/ ~ ExClear(O, I) \/ (~ far /\ \A j \in 1..3 : ~ ExHit(O, I, c.kp[j])) THEN {} ELSE Req(~ some(exok), "p09.exclude")))
    : i \in 1..Len(e.cl)}

\* The clauses of property p are asked for
On(p) == IOEnv.CLAUSES \in {p, "all"}
Call(O, res, e) ==
  Req(e.k = "val", "call." \o e.k)
  \cup (IF On("p01") THEN P01(O, e) ELSE {})
  \cup (IF On("p02") THEN P02(O, e) ELSE {})
  \cup (IF On("p03") THEN P03(O, e) ELSE {})
  \cup (IF On("p04") THEN P04(O, res, e) ELSE {})
  \cup (IF On("p05") THEN P05(O, res, e) ELSE {})
  \cup (IF On("p06") THEN P06(O, e) ELSE {})
  \cup (IF On("p07") THEN P07(O, res, e) ELSE {})
  \cup (IF On("p08") THEN P08(O, res, e) ELSE {})
  \cup (IF On("p09") THEN P09(O, res, e) ELSE {})

\* The compute budget used up at different times t (number of clock readings): seq of <<t, flag, number of iterations>>,
\* ordered by t; the last one is never used up
Rank(s) == IF s[2] = 0 THEN 0 ELSE IF s[2] = 2 THEN 1 ELSE 2
Sweep(O, res, e) ==
  LET R == e.seq
      b == res[e.base]
      zero == {R[i][3] : i \in {j \in 1..Len(R) : R[j][2] = 0}}
  IN IF e.k # "val" THEN {"call." \o e.k}
     ELSE IF ~ On("p05") THEN {}
     ELSE IF b.k # "val" \/ b.flag # 1 \/ Len(O) = 0 THEN {}
     ELSE Req(R[1][2] = 0 /\ R[1][3] = 0, "p05.budget0")
          \cup Req(\A i \in 1..Len(R) - 1 : Rank(R[i]) <= Rank(R[i + 1]) /\ R[i][3] <= R[i + 1][3], "p05.budgetorder")
          \cup Req(R[Len(R)][2] = 1 /\ R[Len(R)][3] = b.nit, "p05.budgetend")
          \cup Req(0..(b.nit - 1) \subseteq zero, "p05.budgetchecks")
          \cup Req(e.mc \/ \A i \in 1..Len(R) : R[i][2] # 2, "p05.convexflag")
-----------------------------------------------------------------------------
(* Drawings.  reg: regions drawn (v vertices, big, col number of the colour, ax  *)
(* number of the axes), mark: markers (m, p, ax), txt: texts (t, p, ax)          *)
\* Region r shows obstacle b
Shows(r, b, t) == ~ r.big /\ Len(r.v) >= 3 /\ SameRegion(r.v, b.inn, t)
ShowsTol(b) == IF b.o.kind = "ell" THEN 3 + (Z * Max2(b.o.geo[1][1], b.o.geo[1][2])) \div 50 ELSE 3
Marked(e, m, p, ax) == \E i \in 1..Len(e.mark) : e.mark[i].m = m /\ e.mark[i].ax = ax /\ Near(e.mark[i].p, Scale(Z, p), 2)
Count(e, ax) == Cardinality({i \in 1..Len(e.reg) : e.reg[i].ax = ax})
RECURSIVE SumOwn(_, _)
SumOwn(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumOwn(s, i - 1)
Drawing(O, e) ==
  LET n == Len(e.obs)
      R == 1..Len(e.reg)
      shows(i, o) == Shows(e.reg[i], O[o], ShowsTol(O[o]))
      same(i, q) == q.big \/ (~ e.reg[i].big /\ Len(e.reg[i].v) >= 3 /\ (SameRegion(e.reg[i].v, q.v, 3)))
      inside(o, P) == \A j \in 1..Len(O[o].inn) : ~ DeepOut(O[o].inn[j], P, ShowsTol(O[o]))
      markers(ax) == Marked(e, "o", e.x, ax) /\ Marked(e, "*", e.xg, ax)
      ell(c) == HasEll(O, Idx(e.obs[c]))
  IN IF e.k # "val" THEN {"draw." \o e.k}
     ELSE IF ~ On("p30") THEN {}
     ELSE IF e.what = "clustering"
     THEN Req(Len(e.reg) = SumLen(e.obs, n), "p30.count")
          \cup Req(\A c \in 1..n : \A o \in Idx(e.obs[c]) : \E i \in R : shows(i, o), "p30.obstacles")
          \* one colour for every cluster
          \cup Req(\E f \in [1..n -> {e.reg[i].col : i \in R}] :
                      /\ \A a, b \in 1..n : a # b => f[a] # f[b]
                      /\ \A c \in 1..n : \A o \in Idx(e.obs[c]) : \E i \in R : e.reg[i].col = f[c] /\ shows(i, o), "p30.colours")
          \cup Req(markers(1), "p30.markers") \cup Req(e.lim = 1, "p30.limits")
     ELSE IF e.what = "hull"
     THEN Req(\A c \in 1..n : e.own[c] = 0 \/ \E i \in R : IF ell(c) /\ Len(e.obs[c]) = 1 THEN shows(i, e.obs[c][1]) \/ same(i, e.poly[c]) ELSE same(i, e.poly[c]), "p30.hulls")
          \cup Req(\A c \in 1..n : \A o \in Idx(e.obs[c]) : \E i \in R : \/ ~ e.reg[i].big /\ Len(e.reg[i].v) >= 3 /\ inside(o, e.reg[i].v), "p30.obstacles")
          \cup Req(Len(e.reg) >= n + SumOwn(e.own, n), "p30.count")
          \cup Req(markers(1), "p30.markers") \cup Req(e.lim = 1, "p30.limits")
     ELSE IF e.what = "ker"
     THEN LET K == {c \in 1..n : e.ker[c] = 1}
              ax(c) == Cardinality({d \in K : d <= c})
          IN Req(\A c \in K : /\ \A o \in Idx(e.obs[c]) : \E i \in R : e.reg[i].ax = ax(c) /\ shows(i, o)
                             /\ Count(e, ax(c)) > Len(e.obs[c]), "p30.obstacles")
             \cup Req(\A c \in K : Cardinality({i \in 1..Len(e.txt) : e.txt[i].ax = ax(c)}) = Len(e.obs[c]), "p30.names")
             \cup Req(\A c \in K : markers(ax(c)), "p30.markers")
     ELSE IF e.what = "one"
     THEN Req(\A o \in Idx(e.obs[1]) : \E i \in R : shows(i, o), "p30.obstacles")
          \cup Req(e.own[1] = 0 \/ \E i \in R : same(i, e.poly[1]) \/ (Len(e.obs[1]) = 1 /\ shows(i, e.obs[1][1])), "p30.hulls")
     ELSE Req(Len(e.reg) = 1 /\ (same(1, e.poly[1]) \/ (Len(e.obs[1]) = 1 /\ shows(1, e.obs[1][1]))), "p30.hulls")
          \cup Req(Len(e.mark) = e.show[1] /\ (e.show[1] = 0 \/ Near(e.mark[1].p, e.xr, 2)), "p30.reference")
          \cup Req(Len(e.txt) = e.show[2] /\ (e.show[2] = 0 \/ (Near(e.txt[1].p, e.xr, 2) /\ e.txt[1].t = e.name)), "p30.name")

\* Lattice polygons polys, clipped by box unless empty
DrawPolys(e) ==
  LET P(i) == [j \in 1..Len(e.polys[i]) |-> Scale(Z, e.polys[i][j])]
      n == Len(e.polys)
      m == Len(e.reg)
      B == IF e.box = <<>> THEN <<-100000, -100000, 100000, 100000>> ELSE [i \in 1..4 |-> Z * e.box[i]]
      inB(q, t) == q[1] > B[1] + t /\ q[1] < B[3] - t /\ q[2] > B[2] + t /\ q[2] < B[4] - t
      inP(q) == \E i \in 1..n : Loc(q, P(i)) <= 0 \/ NearBoundary(q, P(i), 2)
      G == {<<250 * i + 11, 250 * j + 23>> : i \in 2 * (-7 + 0)..2 * (12 * n), j \in -14..14}
  IN IF e.k # "val" THEN {"draw." \o e.k}
     ELSE IF ~ On("p30") THEN {}
     ELSE Req(\A i \in 1..m : ~ e.reg[i].big /\ \A j \in 1..Len(e.reg[i].v) : inB(e.reg[i].v[j], -2) /\ inP(e.reg[i].v[j]), "p30.extra")
          \cup Req(\A i \in 1..n : \A j \in 1..Len(P(i)) : LET q == P(i)[j] IN
                     ~ inB(q, 3) \/ \E k \in 1..m : NearBoundary(q, e.reg[k].v, 2), "p30.vertices")
          \cup Req(\A q \in G : \A i \in 1..n :
                     ~ (BoxHas(Box(P(i)), q) /\ inB(q, 3) /\ DeepIn(q, P(i), 3)) \/ \E k \in 1..m : Len(e.reg[k].v) >= 3 /\ Loc(q, e.reg[k].v) <= 0, "p30.region")
          \cup Req(\A q \in G : \A k \in 1..m :
                     Len(e.reg[k].v) < 3 \/ ~ BoxHas(Box(e.reg[k].v), q) \/ ~ DeepIn(q, e.reg[k].v, 3) \/ inP(q), "p30.outside")
          \cup Req(e.lim = 1, "p30.limits")
=============================================================================
