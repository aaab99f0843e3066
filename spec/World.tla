-------------------------------- MODULE World -------------------------------
(* Abstract state and transitions of a world of obstacles, and the contract of  *)
(* every query in terms of that state.                                         *)
(*                                                                             *)
(* State st:                                                                   *)
(*   objs : sequence of obstacles                                              *)
(*     kind  "ell" ellipse | "pol" general polygon | "star" star-shaped polygon *)
(*     geo   lattice vertices in the obstacle frame, or <<semi-axes>>           *)
(*     pad   dilation (0: none); for ellipses dilation enlarges geo             *)
(*     xr    reference point in the obstacle frame, <<>>: none or not known     *)
(*     mm    index of the motion model, 0: none                                 *)
(*     id    identity, -1: none                                                 *)
(*     np    number of vertices of the polygon of an ellipse, 0: others         *)
(*   mms  : sequence of motion models, shared by reference                      *)
(*     p position, c, s, h: rotation by the angle with cosine c/h and sine s/h  *)
(*     ty "static" | "lin" (constant velocity v) | "fwd" (constant forward      *)
(*     speed v[1] along the heading, v[2] quarter turns per time unit)          *)
(*   idc  : last identity given                                                *)
(* Lengths are multiples of the lattice unit (the binding scales them by an     *)
(* arbitrary factor); measured lengths are integers in units of 1/S.            *)
EXTENDS Geom, TLC

S == 10000      \* fixed point scale of measured values
T == 20000      \* fixed point scale of normalised ellipse coordinates

NoPose == [p |-> <<0, 0>>, c |-> 1, s |-> 0, h |-> 1, ty |-> "static", v |-> <<0, 0>>]
PoseOf(st, o) == IF st.objs[o].mm = 0 THEN NoPose ELSE st.mms[st.objs[o].mm]

-----------------------------------------------------------------------------
(* Transitions *)
RECURSIVE QuarterTurns(_, _)
QuarterTurns(m, n) ==
  IF n % 4 = 0 THEN m ELSE QuarterTurns([m EXCEPT !.c = -m.s, !.s = m.c], n - 1)
MoveMM(m, k) ==
  IF m.ty = "static" THEN m
  ELSE IF m.ty = "lin" THEN [m EXCEPT !.p = Add(m.p, Scale(k, m.v))]
  ELSE QuarterTurns([m EXCEPT !.p = Add(m.p, <<(k * m.v[1] * m.c) \div m.h, (k * m.v[1] * m.s) \div m.h>>)],
                    (k * m.v[2]) % 4)

\* Resolve a motion model argument: <<"none">> | <<"ref", k>> | <<"new", x, y, c, s, h, ty, v1, v2>>
ArgMM(st, a) ==
  IF a[1] = "none" THEN <<st.mms, 0>>
  ELSE IF a[1] = "ref" THEN <<st.mms, a[2]>>
  ELSE <<Append(st.mms, [p |-> <<a[2], a[3]>>, c |-> a[4], s |-> a[5], h |-> a[6], ty |-> a[7], v |-> <<a[8], a[9]>>]),
         Len(st.mms) + 1>>
\* Identity for an identity argument <<kind, number>>: new counter and identity
ArgId(st, a, orig) ==
  IF a[1] \in {"new", "n"} THEN <<st.idc + 1, st.idc + 1>>
  ELSE IF a[1] \in {"duplicate", "d"} THEN <<st.idc, orig>>
  ELSE IF a[1] = "int" /\ a[2] > 0 /\ a[2] <= st.idc THEN <<st.idc, a[2]>>
  ELSE <<st.idc, -1>>

Create(st, kind, geo, xr, mma, ida, np) ==
  LET m == ArgMM(st, mma)
      i == ArgId(st, ida, -1)
  IN [objs |-> Append(st.objs, [kind |-> kind, geo |-> geo, pad |-> 0, xr |-> xr, mm |-> m[2], id |-> i[2], np |-> np]),
      mms |-> m[1], idc |-> i[1]]
\* Copies of general polygons own their motion model, the others share it
Copy(st, o, ida) ==
  LET ob == st.objs[o]
      i == ArgId(st, ida, ob.id)
      deep == ob.kind = "pol" /\ ob.mm # 0
  IN [objs |-> Append(st.objs, [ob EXCEPT !.id = i[2], !.mm = IF deep THEN Len(st.mms) + 1 ELSE ob.mm]),
      mms |-> IF deep THEN Append(st.mms, st.mms[ob.mm]) ELSE st.mms, idc |-> i[1]]
Dilate(st, o, pad, ida) ==
  LET st1 == Copy(st, o, ida)
      n == Len(st1.objs)
  IN IF st1.objs[n].kind = "ell"
     THEN [st1 EXCEPT !.objs[n].geo = <<Add(st1.objs[n].geo[1], <<pad, pad>>)>>, !.objs[n].pad = @ + pad]
     ELSE [st1 EXCEPT !.objs[n].pad = @ + pad]
SetMM(st, o, mma) == LET m == ArgMM(st, mma) IN [st EXCEPT !.mms = m[1], !.objs[o].mm = m[2]]
SetPos(st, m, p) == [st EXCEPT !.mms[m].p = p]
SetRot(st, m, r) == [st EXCEPT !.mms[m].c = r[1], !.mms[m].s = r[2], !.mms[m].h = r[3]]
Move(st, o, k) == IF st.objs[o].mm = 0 THEN st ELSE [st EXCEPT !.mms[st.objs[o].mm] = MoveMM(@, k)]
SetXr(st, o, p) == [st EXCEPT !.objs[o].xr = p]

-----------------------------------------------------------------------------
(* Frames *)
\* Measured point / vector in frame f ("G" or "O") to the obstacle frame
ToLocV(v, m) == <<RDiv(m.c * v[1] + m.s * v[2], m.h), RDiv(m.c * v[2] - m.s * v[1], m.h)>>
ToLoc(g, m, f) == IF f = "O" THEN g ELSE ToLocV(<<g[1] - S * m.p[1], g[2] - S * m.p[2]>>, m)
VToLoc(v, m, f) == IF f = "O" THEN v ELSE ToLocV(v, m)
\* Lattice point in the obstacle frame to frame f, times h
FromLocH(p, m, f) == IF f = "O" THEN Scale(m.h, p)
                     ELSE <<m.c * p[1] - m.s * p[2] + m.h * m.p[1], m.s * p[1] + m.c * p[2] + m.h * m.p[2]>>
VFromLocH(p, m, f) == IF f = "O" THEN Scale(m.h, p) ELSE <<m.c * p[1] - m.s * p[2], m.s * p[1] + m.c * p[2]>>
\* Lattice point in frame f to the obstacle frame, times h
FromGloH(p, m, f) == IF f = "O" THEN Scale(m.h, p)
                     ELSE LET d == Sub(p, m.p) IN <<m.c * d[1] + m.s * d[2], m.c * d[2] - m.s * d[1]>>
\* Measured r equals the exact q/h
IsPoint(r, qh, h, tol) == Abs(r[1] * h - S * qh[1]) <= tol * h /\ Abs(r[2] * h - S * qh[2]) <= tol * h

-----------------------------------------------------------------------------
(* Contracts of queries; each yields the set of violated clauses *)
Req(ok, name) == IF ok THEN {} ELSE {name}

\* Inputs in the obstacle frame, or in a global frame which is not rotated, are exact
Exact(m, e) == "inexact" \notin DOMAIN e /\ (e.fi = "O" \/ (m.s = 0 /\ m.c = m.h /\ m.ty # "fwd"))

\* True location: -1, 0, 1, or 2 for not decided
TrueLoc(ob, q) ==
  IF ob.kind = "ell" THEN EllLoc(q, ob.geo[1])
  ELSE IF ob.pad = 0 THEN Loc(q, ob.geo)
  ELSE IF ~ WithinDist(q, ob.geo, ob.pad * ob.pad) THEN 1
  ELSE IF WithinDistQ(q, ob.geo, 98 * ob.pad * ob.pad, 100) THEN -1     \* clearly within
  ELSE 2

\* v = <<sign, interior, boundary, exterior>> (predicates as 0/1)
QLoc(ob, m, e) ==
  LET L == TrueLoc(ob, e.p)
      v == e.x
  IN IF L = 2 \/ (L = 0 /\ ~ Exact(m, e)) THEN Req(v[2] + v[4] <= 1, "loc.exclusive")
     ELSE Req(v[1] = L, "loc.sign")
          \cup Req(L = 0 \/ v[2] = (IF L < 0 THEN 1 ELSE 0), "loc.interior")
          \cup Req(L = 0 \/ v[4] = (IF L > 0 THEN 1 ELSE 0), "loc.exterior")
          \cup Req(v[3] = (IF L = 0 THEN 1 ELSE 0), "loc.boundary")
          \cup Req(v[2] + v[4] <= 1, "loc.exclusive")
          \cup Req(L # 0 \/ ob.kind = "ell" \/ v[2] + v[4] = 0, "loc.exclusive")

\* Measured local point r near the segment from a to b
NearSeg(r, a, b, tol) ==
  LET ab == Sub(b, a)
      ar == Sub(r, Scale(S, a))
      l == Norm1(ab)
      d == DotV(ab, ar)
  IN /\ Abs(CrossV(ab, ar)) <= tol * l
     /\ d >= -tol * l
     /\ d <= S * DotV(ab, ab) + tol * l
NearRing(r, P, tol) == \E i \in 1..Len(P) : NearSeg(r, P[i], P[Nxt(P, i)], tol)
\* Normalised ellipse coordinates (scale T) of a measured local point
EllUV(r, e) == <<RDiv(r[1] * (T \div S), e[1]), RDiv(r[2] * (T \div S), e[2])>>
NearEll(r, e, tol) == LET w == EllUV(r, e) IN
  Abs(w[1]) <= T + T \div 2 /\ Abs(w[2]) <= T + T \div 2 /\ Abs(w[1] * w[1] + w[2] * w[2] - T * T) <= 2 * T * tol
\* At distance pad of the polygon P, coarse scale 1000
AtPad(r, P, pad) ==
  LET c == 100
      rr == <<RDiv(r[1], c), RDiv(r[2], c)>>
      Q == [i \in 1..Len(P) |-> Scale(S \div c, P[i])]
      lo == (pad * (S \div c) * 985) \div 1000
      hi == pad * (S \div c) + 2
      near(q, a, b, d) ==  \* dist(q, [a,b]) <= d
        LET ab == Sub(b, a)
            aq == Sub(q, a)
            l == ISqrt(Dist2(a, b) \div 4) * 2 + 1
        IN IF DotV(ab, aq) <= 0 THEN Dist2(q, a) <= d * d
           ELSE IF DotV(ab, aq) >= DotV(ab, ab) THEN Dist2(q, b) <= d * d
           ELSE Abs(CrossV(ab, aq)) <= d * l
  IN /\ \E i \in 1..Len(Q) : near(rr, Q[i], Q[Nxt(Q, i)], hi)
     /\ \A i \in 1..Len(Q) : ~ near(rr, Q[i], Q[Nxt(Q, i)], lo)
     /\ Loc(rr, Q) = 1
OnItsBoundary(ob, r, tol) ==
  IF ob.kind = "ell" THEN NearEll(r, ob.geo[1], tol)
  ELSE IF ob.pad = 0 THEN NearRing(r, ob.geo, tol)
  ELSE AtPad(r, ob.geo, ob.pad)

OnRay(r, xr, q, tol) ==
  LET d == Sub(q, xr)
      w == Sub(r, Scale(S, xr))
  IN Abs(CrossV(d, w)) <= tol * Norm1(d) /\ DotV(d, w) > 0

\* Boundary mapping, x: measured point in frame fo
QBmap(ob, m, e) ==
  IF ob.xr = <<>> \/ e.p = ob.xr THEN {}
  ELSE IF e.k # "val" THEN {"bmap.missing"}
  ELSE LET r == ToLoc(e.x, m, e.fo) IN
       Req(OnRay(r, ob.xr, e.p, 4), "bmap.ray") \cup Req(OnItsBoundary(ob, r, 5), "bmap.boundary")

UnitN(n, tol) == Abs(n[1]) <= 2 * S /\ Abs(n[2]) <= 2 * S /\ Abs(n[1] * n[1] + n[2] * n[2] - S * S) <= 2 * S * tol
Parallel(n, w, tol) == Abs(CrossV(n, w)) <= tol * Norm1(w) /\ DotV(n, w) > 0
HitEdges(P, xr, q) ==
  LET d == Sub(q, xr) IN {i \in 1..Len(P) : SectorClosed(d, Sub(P[i], xr), Sub(P[Nxt(P, i)], xr))}
Outward(a, b) == <<b[2] - a[2], a[1] - b[1]>>

\* Normal, x: measured vector in frame fo; ty "edge" | "weighted_edges"; for
\* ellipses x also has the boundary point
QNormal(ob, m, e) ==
  IF ob.xr = <<>> \/ e.p = ob.xr THEN {}
  ELSE IF e.k # "val" THEN {"normal.missing"}
  ELSE LET n == VToLoc(e.x, m, e.fo)
           P == CCW(ob.geo)
           H == HitEdges(P, ob.xr, e.p)
           atEdge(i) == Parallel(n, Outward(P[i], P[Nxt(P, i)]), 4)
       IN Req(UnitN(n, 4), "normal.unit")
          \cup IF ob.kind = "ell"
               THEN LET r == ToLoc(e.b, m, e.fo)
                        ax == ob.geo[1]
                        g0 == <<ax[2] * ax[2] * RDiv(r[1], 10), ax[1] * ax[1] * RDiv(r[2], 10)>>
                        k == Norm1(g0) \div S + 1
                        g == <<RDiv(g0[1], k), RDiv(g0[2], k)>>
                    IN Req(OnRay(r, ob.xr, e.p, 4) /\ NearEll(r, ax, 5), "normal.at")
                       \cup Req(Parallel(n, g, 30), "normal.direction")
               ELSE IF ob.pad > 0
               THEN Req(DotV(n, Sub(e.p, ob.xr)) > 0, "normal.outward")
               ELSE IF e.ty = "weighted_edges"
               THEN \* equals the edge normal on the boundary, away from vertices
                    LET at == {i \in 1..Len(P) : OnSeg(e.p, P[i], P[Nxt(P, i)])}
                    IN IF Cardinality(at) = 1 /\ Exact(m, e)
                       THEN Req(\E i \in at : Parallel(n, Outward(P[i], P[Nxt(P, i)]), 30), "normal.weighted")
                       ELSE {}
               ELSE Req(\E i \in H : atEdge(i), "normal.direction")

\* Reference direction
QRefdir(ob, m, e) ==
  IF ob.xr = <<>> \/ e.p = ob.xr THEN {}
  ELSE LET n == VToLoc(e.x, m, e.fo) IN
       Req(UnitN(n, 4), "refdir.unit") \cup Req(Parallel(n, Sub(e.p, ob.xr), 4), "refdir.direction")

\* Distance function on the points xr + k*d, k in e.ks; x: square roots, scale S, -1: too big
QDist(ob, m, e) ==
  IF ob.xr = <<>> THEN {}
  ELSE LET P == CCW(ob.geo)
           pt(j) == Add(ob.xr, Scale(e.ks[j], e.d))
           n == Len(e.ks)
           L == [j \in 1..n |-> TrueLoc(ob, pt(j))]
           H == HitEdges(P, ob.xr, Add(ob.xr, e.d))
           i == CHOOSE i \in H : TRUE
           den == Cross(ob.xr, Add(ob.xr, e.d), P[Nxt(P, i)]) - Cross(ob.xr, Add(ob.xr, e.d), P[i])
           num == Cross(P[i], P[Nxt(P, i)], ob.xr)    \* boundary point is xr + num/den * d
       IN Req(\A j \in 1..n : (e.x[j] = -1 /\ L[j] # -1) \/ L[j] = 2 \/ Sgn(e.x[j] - S) = L[j]
                              \/ (L[j] = 0 /\ Abs(e.x[j] - S) <= 3), "dist.threshold")
          \cup Req(\A j \in 1..n - 1 : e.x[j + 1] = -1 \/ (e.x[j] # -1 /\ e.x[j] < e.x[j + 1]), "dist.monotone")
          \cup IF ob.kind = "ell" \/ ob.pad > 0
               THEN \* inside the square root is proportional to the distance
                    Req(\A j, k \in 1..n : L[j] = -1 /\ L[k] = -1 =>
                          Abs(e.x[j] * e.ks[k] - e.x[k] * e.ks[j]) <= 3 * (e.ks[j] + e.ks[k]), "dist.proportional")
               ELSE Req(\A j \in 1..n : L[j] = -1 => Abs(e.x[j] * num - S * e.ks[j] * den) <= 3 * num, "dist.ratio")

\* Tangent points, x: sequence of measured points in frame fo
QTang(ob, m, e) ==
  LET r(i) == ToLoc(e.x[i], m, e.fo)
      n == Len(e.x)
      q == e.p
  IN IF ob.kind = "ell"
     THEN LET L == EllLoc(q, ob.geo[1])
              ax == ob.geo[1]
              polar(w) == Abs(ax[2] * q[1] * w[1] + ax[1] * q[2] * w[2] - ax[1] * ax[2] * T)
                          <= 6 * (ax[2] * Abs(q[1]) + ax[1] * Abs(q[2]) + ax[1] * ax[2])
              c(i) == <<RDiv(r(i)[1], 20), RDiv(r(i)[2], 20)>>
              cq == Scale(S \div 20, q)
          IN IF L = 0 THEN {}
             ELSE IF L = -1 THEN Req(n = 0, "tang.inside")
             ELSE IF n # 2 THEN {"tang.count"}
             ELSE IF \E i \in 1..2 : ~ NearEll(r(i), ax, 8) THEN {"tang.touch"}
             ELSE Req(\A i \in 1..2 : polar(EllUV(r(i), ax)), "tang.tangent")
                  \cup Req(Cross(cq, c(1), c(2)) < 0, "tang.order")
     ELSE IF ob.pad > 0
     THEN LET L == TrueLoc(ob, q)
              c(i) == <<RDiv(r(i)[1], 100), RDiv(r(i)[2], 100)>>
              cq == Scale(S \div 100, q)
              V == [i \in 1..Len(ob.geo) |-> Scale(S \div 100, ob.geo[i])]
              len(i) == ISqrt(Dist2(cq, c(i)) \div 4) * 2 + 1
              clear(i, sg) == \* no vertex closer than pad to the tangent line, one at pad
                 /\ \A j \in 1..Len(V) : sg * Cross(cq, c(i), V[j]) >= ((ob.pad * (S \div 100) * 98) \div 100) * len(i)
                 /\ \E j \in 1..Len(V) : sg * Cross(cq, c(i), V[j]) <= ((ob.pad * (S \div 100) * 102) \div 100 + 2) * len(i)
          IN IF L # 1 \/ ~ IsConvex(ob.geo) THEN Req(L # -1 \/ n = 0, "tang.inside")
             ELSE IF n # 2 THEN {"tang.count"}
             ELSE Req(\A i \in 1..2 : AtPad(r(i), ob.geo, ob.pad), "tang.touch")
                  \cup Req(clear(1, -1), "tang.left") \cup Req(clear(2, 1), "tang.right")
     ELSE LET P == ob.geo
              L == Loc(q, P)
              Lt == LeftTangents(q, P)
              Rt == RightTangents(q, P)
              tight == \E i, j \in 1..Len(P) : P[i] # P[j] /\ SameDir(Sub(P[i], q), Sub(P[j], q))
          IN IF L = 0 THEN {}
             ELSE IF L = -1 THEN Req(n = 0, "tang.inside")
             ELSE IF Lt = {} THEN Req(n = 0 \/ tight, "tang.enclosed")
             ELSE IF n # 2 THEN {"tang.count"}
             ELSE Req(\E i \in Lt : Near(r(1), Scale(S, P[i]), 4), "tang.left")
                  \cup Req(\E i \in Rt : Near(r(2), Scale(S, P[i]), 4), "tang.right")

\* Line intersections: segment p, p2 (local lattice), x: sequence of measured points
QLine(ob, m, e) ==
  LET n == Len(e.x)
      r == [i \in 1..n |-> ToLoc(e.x[i], m, e.fo)]
      a == e.p
      b == e.p2
      sound == Req(\A i \in 1..n : NearSeg(r[i], a, b, 6), "line.segment")
               \cup Req(\A i \in 1..n : OnItsBoundary(ob, r[i], 8), "line.boundary")
  IN sound \cup
     IF ob.kind = "ell"
     THEN LET k == EllRoots(a, b, ob.geo[1])
              on == EllLoc(a, ob.geo[1]) = 0 \/ EllLoc(b, ob.geo[1]) = 0
          IN Req(k = -1 \/ n = k, "line.count")
             \cup Req(k # 2 \/ n # 2 \/ ~ Near(r[1], r[2], 1), "line.distinct")
     ELSE IF ob.pad > 0
     THEN Req(TrueLoc(ob, a) = 2 \/ TrueLoc(ob, b) = 2 \/ TrueLoc(ob, a) = TrueLoc(ob, b) \/ n > 0, "line.crossing")
     ELSE LET P == ob.geo
              prop == {i \in 1..Len(P) : ProperCross(a, b, P[i], P[Nxt(P, i)])}
              meet == {i \in 1..Len(P) : SegsMeet(a, b, P[i], P[Nxt(P, i)])}
          IN Req(\A i \in prop : \E j \in 1..n : NearSeg(r[j], P[i], P[Nxt(P, i)], 8), "line.crossing")
             \cup Req(meet # {} \/ n = 0, "line.none")
             \cup Req(meet = {} \/ ~ Exact(m, e) \/ m.h # 1 \/ n > 0, "line.touch")
             \* ends of the common parts, and isolated common points: vertices on the segment (other than within a
             \* longer common part), and ends of the segment on the boundary
             \cup Req(\/ ~ Exact(m, e) \/ m.h # 1
                      \/ /\ \A i \in 1..Len(P) :
                              \/ ~ OnSeg(P[i], a, b)
                              \/ Cross(a, b, P[Nxt(P, i)]) = 0 /\ Cross(a, b, P[Prv(P, i)]) = 0
                              \/ \E j \in 1..n : Near(r[j], Scale(S, P[i]), 6)
                         /\ \A q \in {a, b} : OnBoundary(q, P) => \E j \in 1..n : Near(r[j], Scale(S, q), 6), "line.ends")

\* Transformation of points and vectors between frames
QTrans(ob, m, e) ==
  LET want == IF e.fi = e.fo THEN Scale(m.h, e.p)
              ELSE IF e.fi = "O" THEN FromLocH(e.p, m, "G") ELSE FromGloH(e.p, m, "G")
  IN Req(IsPoint(e.x, want, m.h, 3), "trans.point")
QRotv(ob, m, e) ==
  LET want == IF e.fi = e.fo THEN Scale(m.h, e.p)
              ELSE IF e.fi = "O" THEN VFromLocH(e.p, m, "G")
              ELSE <<m.c * e.p[1] + m.s * e.p[2], m.c * e.p[2] - m.s * e.p[1]>>
  IN Req(IsPoint(e.x, want, m.h, 3), "trans.vector")
QPos(ob, m, e) == Req(IsPoint(e.x, IF e.fo = "O" THEN <<0, 0>> ELSE m.p, 1, 2), "pose.pos")
QRot(ob, m, e) == Req(IsPoint(e.x, IF e.fo = "O" THEN <<m.h, 0>> ELSE <<m.c, m.s>>, m.h, 3), "pose.rot")
QXr(ob, m, e) == IF ob.xr = <<>> THEN {} ELSE Req(IsPoint(e.x, FromLocH(ob.xr, m, e.fo), m.h, 3), "xr")

\* The measured ring V (local) is the ring P up to the start and direction
SameRing(V, P, tol) ==
  /\ Len(V) = Len(P)
  /\ LET n == Len(P) IN
     \E k \in 0..n - 1 :
        \/ \A i \in 1..n : Near(V[i], Scale(S, P[((i + k - 1) % n) + 1]), tol)
        \/ \A i \in 1..n : Near(V[i], Scale(S, P[((k - i + 2 * n) % n) + 1]), tol)
\* The same region: every vertex of P which turns is in V, all of V on the ring of P
SameRegion(V, P, tol) ==
  /\ \A i \in 1..Len(P) : Cross(P[Prv(P, i)], P[i], P[Nxt(P, i)]) = 0
                          \/ \E j \in 1..Len(V) : Near(V[j], Scale(S, P[i]), tol)
  /\ \A j \in 1..Len(V) : NearRing(V[j], P, tol)

\* Corners of the kernel of P which are intersections of the lines of edges i, j:
\* <<x, y, d>> for the point (x/d, y/d), d > 0, or <<>>
KernelCorner(P, i, j) ==
  LET a == P[i] ab == Sub(P[Nxt(P, i)], a)
      b == P[j] cd == Sub(P[Nxt(P, j)], b)
      d0 == CrossV(ab, cd)
      t == CrossV(Sub(b, a), cd)        \* a + t/d0 * ab
      sg == Sgn(d0)
      pt == <<sg * (a[1] * d0 + t * ab[1]), sg * (a[2] * d0 + t * ab[2]), sg * d0>>
  IN IF d0 = 0 THEN <<>>
     ELSE IF \A k \in 1..Len(P) :
               LET u == Sub(P[Nxt(P, k)], P[k]) IN
               u[1] * (pt[2] - pt[3] * P[k][2]) - u[2] * (pt[1] - pt[3] * P[k][1]) >= 0
          THEN pt ELSE <<>>
KernelCorners(P) ==
  {KernelCorner(P, ij[1], ij[2]) : ij \in {<<i, j>> \in (1..Len(P)) \X (1..Len(P)) : i < j}} \ {<<>>}
\* V (local, measured) is the kernel of the CCW polygon P
IsKernel(V, P) ==
  LET K == KernelCorners(P) IN
  /\ \A j \in 1..Len(V) : Near(V[j], <<0, 0>>, 40 * S)
  /\ \A c \in K : \E j \in 1..Len(V) : Abs(V[j][1] * c[3] - S * c[1]) <= 6 * c[3] /\ Abs(V[j][2] * c[3] - S * c[2]) <= 6 * c[3]
  /\ \A j \in 1..Len(V) : \A k \in 1..Len(P) :
       LET u == Sub(P[Nxt(P, k)], P[k]) IN CrossV(u, Sub(V[j], Scale(S, P[k]))) >= -4 * Norm1(u)

\* Vertices of the polygon representation, x: sequence of measured points in frame fo
QPoly(ob, m, e) ==
  LET n == Len(e.x)
      V == [i \in 1..n |-> ToLoc(e.x[i], m, e.fo)]
  IN IF ob.kind = "ell"
     THEN LET ax == ob.geo[1]
              base == Sub(ax, <<ob.pad, ob.pad>>)
              tol == e.tol + (S \div 100) * ob.pad
              box(k) == LET vs == {V[i][k] : i \in 1..n} IN
                        (\E v \in vs : Abs(v - S * ax[k]) <= tol) /\ (\E v \in vs : Abs(v + S * ax[k]) <= tol)
                        /\ \A v \in vs : Abs(v) <= S * ax[k] + e.tol
          IN Req(n >= 3 /\ box(1) /\ box(2), "poly.box")
             \cup Req(IF ob.pad = 0 THEN n = ob.np ELSE n >= ob.np, "poly.number")
             \cup Req(\A i \in 1..n : LET w == EllUV(V[i], IF ob.pad = 0 THEN ax ELSE base) IN
                        IF ob.pad = 0 THEN NearEll(V[i], ax, 10 + (2 * e.tol) \div Min2(ax[1], ax[2]))
                        ELSE LET z == <<RDiv(w[1], 20), RDiv(w[2], 20)>> IN Abs(z[1]) > T \div 10 \/ Abs(z[2]) > T \div 10 \/ z[1] * z[1] + z[2] * z[2] >= ((T \div 20) - 1) * ((T \div 20) - 1), "poly.ellipse")
     ELSE IF ob.pad = 0 THEN Req(SameRing(V, Distinct(ob.geo), 4) \/ SameRegion(V, ob.geo, 4), "poly.ring")
     ELSE Req(\A i \in 1..n : AtPad(V[i], ob.geo, ob.pad), "poly.padded")
QKern(ob, m, e) ==
  LET n == Len(e.x)
      V == [i \in 1..n |-> ToLoc(e.x[i], m, e.fo)]
  IN IF ob.kind = "ell" THEN QPoly(ob, m, e)
     ELSE IF ob.pad > 0 THEN {}
     ELSE IF IsConvex(ob.geo) THEN Req(SameRegion(V, ob.geo, 4), "kernel.convex")
     ELSE Req(IsKernel(V, CCW(Distinct(ob.geo))), "kernel.exact")
QArea(ob, m, e) == Req(ob.pad > 0 \/ ob.kind = "ell" \/ Abs(2 * e.x[1] - 100 * Abs(Area2(ob.geo))) <= 10, "area")

QConv(ob, m, e) ==
  LET c == IF ob.kind = "ell" THEN TRUE ELSE IsConvex(ob.geo) IN
  Req(ob.pad > 0 \/ e.x[1] = (IF c THEN 1 ELSE 0), "convex")
  \cup Req(e.x[2] = 0 \/ ob.kind = "ell" \/ ob.kind = "star" \/ c \/ KernelCorners(CCW(ob.geo)) # {}, "starshaped.sound")
  \cup Req(ob.pad > 0 \/ e.x[2] = 1 \/ ~ (c \/ ob.kind = "star"), "starshaped.complete")

\* Pairwise intersection of the regions of two polygons
QIsect(st, e) ==
  LET A == st.objs[e.o]
      B == st.objs[e.o2]
      ma == PoseOf(st, e.o)
      mb == PoseOf(st, e.o2)
      P == [i \in 1..Len(A.geo) |-> Scale(mb.h, FromLocH(A.geo[i], ma, "G"))]
      Q == [i \in 1..Len(B.geo) |-> Scale(ma.h, FromLocH(B.geo[i], mb, "G"))]
      touch == \/ \E i \in 1..Len(P) : OnBoundary(P[i], Q)
               \/ \E i \in 1..Len(Q) : OnBoundary(Q[i], P)
      meet == PolysMeet(P, Q)
  IN IF A.kind = "ell" \/ B.kind = "ell" \/ A.pad > 0 \/ B.pad > 0 THEN {}
     ELSE Req(touch \/ e.x[1] = (IF meet THEN 1 ELSE 0), "intersects")

\* The drawing: x points of the boundary drawn (vertices of polygons, eight points of ellipses), ref, nm: the markers of
\* the reference point and the name; want: <<reference shown, name shown>>
QDraw(ob, m, e) ==
  LET n == Len(e.x)
      V == [i \in 1..n |-> ToLoc(e.x[i], m, e.fo)]
      near(r, p) == IsPoint(r, FromLocH(p, m, e.fo), m.h, 3)
  IN (IF ob.kind = "ell"
      THEN Req(n = 8 /\ (\A i \in 1..n : NearEll(V[i], ob.geo[1], 8))
               \* all around
               /\ \A sx, sy \in {-1, 1} : \E i \in 1..n : sx * V[i][1] > 0 /\ sy * V[i][2] > 0, "draw.ellipse")
      ELSE IF ob.pad = 0 THEN Req(SameRing(V, Distinct(ob.geo), 4) \/ SameRegion(V, ob.geo, 4), "draw.ring")
      ELSE Req(n >= 3 /\ \A i \in 1..n : AtPad(V[i], ob.geo, ob.pad), "draw.padded"))
     \cup Req(Len(e.ref) = e.want[1] /\ Len(e.nm) = e.want[2] /\ e.text = 1, "draw.shown")
     \cup Req(ob.xr = <<>> \/ \A i \in 1..Len(e.ref) : near(e.ref[i], ob.xr), "draw.reference")
     \cup Req(\A i \in 1..Len(e.nm) : IF ob.kind = "pol" THEN near(e.nm[i], <<0, 0>>) ELSE ob.xr = <<>> \/ near(e.nm[i], ob.xr), "draw.name")

QId(ob, m, e) == Req(e.x[1] = ob.id, "id")

Query(st, e) ==
  LET ob == st.objs[e.o]
      m == PoseOf(st, e.o)
  IN IF e.q = "tang" /\ e.k = "nan" /\ TrueLoc(ob, e.p) = 0 THEN {}    \* on the boundary: no claim
     ELSE IF e.k \notin {"val", "none"} THEN {"query." \o e.k}
     ELSE IF e.k = "none" /\ e.q \notin {"bmap", "normal"} THEN {"query.none"}
     ELSE CASE e.q = "loc" -> QLoc(ob, m, e)
            [] e.q = "bmap" -> QBmap(ob, m, e)
            [] e.q = "normal" -> QNormal(ob, m, e)
            [] e.q = "refdir" -> QRefdir(ob, m, e)
            [] e.q = "dist" -> QDist(ob, m, e)
            [] e.q = "tang" -> QTang(ob, m, e)
            [] e.q = "line" -> QLine(ob, m, e)
            [] e.q = "trans" -> QTrans(ob, m, e)
            [] e.q = "rotv" -> QRotv(ob, m, e)
            [] e.q = "pos" -> QPos(ob, m, e)
            [] e.q = "rot" -> QRot(ob, m, e)
            [] e.q = "xr" -> QXr(ob, m, e)
            [] e.q = "poly" -> QPoly(ob, m, e)
            [] e.q = "kern" -> QKern(ob, m, e)
            [] e.q = "area" -> QArea(ob, m, e)
            [] e.q = "conv" -> QConv(ob, m, e)
            [] e.q = "isect" -> QIsect(st, e)
            [] e.q = "draw" -> QDraw(ob, m, e)
            [] e.q = "id" -> QId(ob, m, e)

-----------------------------------------------------------------------------
(* Setting the reference point: p local lattice point, safe in {0, 1}; e.x is   *)
(* the reference point afterwards, measured in the obstacle frame.              *)
Kernelwise(ob, p) == \* 1 in the kernel, -1 not, 0 not decided
  IF ob.kind = "ell" THEN
     LET ax == ob.geo[1]      \* polygon approximation: clearly inside / outside
         share == CASE ob.np < 8 -> 49 [] ob.np < 12 -> 84 [] ob.np < 20 -> 92 [] OTHER -> 95     \* below 100 cos^2(pi/np)
     IN
     IF 100 * (ax[2]*ax[2]*p[1]*p[1] + ax[1]*ax[1]*p[2]*p[2]) < share * ax[1]*ax[1]*ax[2]*ax[2] THEN 1
     ELSE IF EllLoc(p, <<ax[1] + 1, ax[2] + 1>>) > 0 THEN -1 ELSE 0
  ELSE IF ob.pad > 0 THEN 0
  ELSE LET P == CCW(ob.geo) IN IF StrictInKernel(p, P) THEN 1 ELSE IF InKernel(p, P) THEN 0 ELSE -1
XrAfter(ob, e) == \* possible reference points afterwards
  IF e.safe = 0 THEN {e.p}
  ELSE LET k == Kernelwise(ob, e.p) IN IF k = 1 THEN {e.p} ELSE IF k = -1 THEN {ob.xr} ELSE {e.p, ob.xr}
=============================================================================
