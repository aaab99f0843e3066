-------------------------------- MODULE Combo --------------------------------
(* Combined obstacles: the union of obstacles and their star-shaped hull for    *)
(* kernel points K, with a reference point in the hull of K.  The region is     *)
(* known exactly as a union of convex pieces (see Hull), all queries of the     *)
(* combined obstacle are judged against it.                                     *)
EXTENDS Hull

\* State: obs, and for the combined obstacle c: os, K, inn, out (pieces), xr, ell; c.ok: there is one
None == [ok |-> FALSE]
Make(O, e) ==
  LET K == {Scale(Z, e.K[i]) : i \in 1..Len(e.K)}
      I == Idx(e.os)
      pc(P, conv) == IF conv THEN {CH(K \cup {P[i] : i \in 1..Len(P)})} ELSE Pieces(P, K)
      inn == UNION {pc(O[i].inn, O[i].conv) : i \in I}
      ell == HasEll(O, I)
  IN [ok |-> TRUE, exact |-> e.exact, os |-> I, K |-> K, cen |-> Scale(Z, e.xr), inn |-> inn, xr |-> Scale(Z, e.xr), ell |-> ell, plain |-> e.plain, hp |-> e.hp,
      out |-> IF ell THEN UNION {pc(O[i].out, O[i].conv) : i \in I} ELSE inn,
      B |-> LET Bs == {Box(C) : C \in inn}
            IN <<SetMin({b[1] : b \in Bs}), SetMin({b[2] : b \in Bs}), SetMax({b[3] : b \in Bs}), SetMax({b[4] : b \in Bs})>>]
\* Surely inside / outside
In(O, c, q, t) == (\E C \in c.inn : HullIn(q, C, t)) \/ (\E i \in c.os : ~ O[i].conv /\ DeepIn(q, O[i].inn, t))
Out(O, c, q, t) == (\A C \in c.out : HullOut(q, C, t)) /\ (\A i \in c.os : O[i].conv \/ DeepOut(q, O[i].out, t))
OnBd(O, c, q, t) == ~ In(O, c, q, t) /\ ~ Out(O, c, q, t)
\* Oriented edges of the pieces, inside to the left
Edges(O, c) == UNION ({{<<C[i], C[Nxt(C, i)]>> : i \in 1..Len(C)} : C \in c.inn}
                      \cup {{<<O[j].inn[i], O[j].inn[Nxt(O[j].inn, i)]>> : i \in 1..Len(O[j].inn)} : j \in c.os})
EllOf(O, c) == {i \in c.os : O[i].o.kind = "ell"}
Mid(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>

\* A lattice point, represented exactly, which is a vertex of the region or on an edge of an obstacle, with the exterior beside it.
\* Edges through the point are along an axis: others may be divided at points which are rounded
OnEdge(q, P) == \E i \in 1..Len(P) : LET n == Nxt(P, i) IN Cross(P[i], P[n], q) = 0 /\ DotV(Sub(q, P[i]), Sub(q, P[n])) <= 0
ExactBd(O, c, q) ==
  /\ c.exact /\ ~ c.ell
  /\ (\E C \in c.inn : q \in {C[i] : i \in 1..Len(C)}) \/ (\E i \in c.os : OnEdge(q, O[i].inn))
  /\ \A g \in Edges(O, c) : LET w == Sub(g[2], g[1]) IN
        w[1] = 0 \/ w[2] = 0 \/ Cross(g[1], g[2], q) # 0 \/ DotV(Sub(q, g[1]), Sub(q, g[2])) >= 0
  /\ \E d \in {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<4, 4>>, <<-4, 4>>, <<4, -4>>, <<-4, -4>>} : Out(O, c, Add(q, d), 2)
QLoc(O, c, e) ==
  LET q == Scale(Z, e.p)
  IN Req(e.x[1] \in {-1, 0, 1} /\ e.x[2] = (IF e.x[1] = -1 THEN 1 ELSE 0) /\ e.x[3] = (IF e.x[1] = 1 THEN 1 ELSE 0)
         /\ e.x[4] = (IF e.x[1] = 0 THEN 1 ELSE 0), "loc.consistent")
     \cup Req(In(O, c, q, 2) => e.x[1] = -1, "loc.inside")
     \cup Req(Out(O, c, q, 2) => e.x[1] = 1, "loc.outside")
     \cup Req(ExactBd(O, c, q) => e.x[1] = 0, "loc.boundary")
\* b is the boundary point on the ray from the reference point through p
Hit(O, c, e, b) ==
  LET d == Sub(b, c.xr)
      v == Sub(Scale(Z, e.p), c.xr)
      l == ISqrt(DotV(v, v))
  IN /\ OnBd(O, c, b, 4)
     /\ DotV(d, v) > 0
     /\ Abs(CrossV(d, v)) <= 2 * (l + 1)
QBm(O, c, e) == Req(Hit(O, c, e, e.b), "bmap")
QDist(O, c, e) ==
  LET q == Scale(Z, e.p)
      l1 == ISqrt(Dist2(q, c.xr))
      l2 == ISqrt(Dist2(e.b, c.xr))
  IN Req(Hit(O, c, e, e.b), "dist.bmap")
     \cup Req(In(O, c, q, 2) => e.x[1] < 10000, "dist.inside")
     \cup Req(Out(O, c, q, 2) => e.x[1] > 10000, "dist.outside")
     \cup Req(e.x[1] > 90000 \/ Abs(10000 * l1 - e.x[1] * l2) <= 2 * (10000 + e.x[1]), "dist.ratio")
QNormal(O, c, e) ==
  LET n == e.x
      b == e.b
      near == {g \in Edges(O, c) : DistLe(b, g[1], g[2], 40)}
      par(g, h) == LET u == Sub(g[2], g[1]) w == Sub(h[2], h[1]) IN CrossV(u, w) = 0 /\ DotV(u, w) > 0
      ok == near # {} /\ \A g, h \in near : par(g, h)
  IN Req(Abs(ISqrt(DotV(n, n)) - 10000) <= 3, "normal.unit")
     \cup Req(Hit(O, c, e, b), "normal.bmap")
     \cup Req(e.t = "w" \/ ~ ok \/ c.ell \/
              \A g \in near : LET u == Sub(g[2], g[1]) l == ISqrt(DotV(u, u)) IN
                 /\ Abs(n[1] * (l \div 8) - 10000 * (u[2] \div 8)) <= 60 * (l \div 8) + 20000
                 /\ Abs(n[2] * (l \div 8) + 10000 * (u[1] \div 8)) <= 60 * (l \div 8) + 20000, "normal.edge")
QLine(O, c, e) ==
  LET p == Scale(Z, e.p)
      r == Scale(Z, e.p2)
      N == Len(e.x)
      onpart(v) == \/ \E h \in 1..Len(c.hp) : NearBoundary(v, c.hp[h], 4)
                   \/ \E i \in c.os : ~ DeepIn(v, O[i].inn, 4) /\ ~ DeepOut(v, O[i].out, 4)
      steps == 12
      m == [i \in 0..steps |-> <<p[1] + RDiv((r[1] - p[1]) * i, steps), p[2] + RDiv((r[2] - p[2]) * i, steps)>>]
      bd == {i \in 1..N : ~ In(O, c, e.x[i], 4)}
      between(v, a, b) == DotV(Sub(v, a), Sub(v, b)) <= 0
  IN Req(\A i \in 1..N : DistLe(e.x[i], p, r, 3), "line.segment")
     \cup Req(\A i \in 1..N : ~ Out(O, c, e.x[i], 4), "line.boundary")
     \cup Req(\A i \in 1..N : onpart(e.x[i]), "line.part")
     \cup Req(\A i \in 0..steps - 1 : (In(O, c, m[i], 4) /\ Out(O, c, m[i + 1], 4)) \/ (Out(O, c, m[i], 4) /\ In(O, c, m[i + 1], 4))
                                       => \E j \in bd : between(e.x[j], m[i], m[i + 1]), "line.missed")
Samples(c) == UNION {{C[i] : i \in 1..Len(C)} \cup {Mid(C[i], C[Nxt(C, i)]) : i \in 1..Len(C)} : C \in c.inn}
\* Tangent points a, b as seen from x: the region is in the sector from b counter-clockwise to a.  All rays from x away
\* from the kernel are free, so that x is never enclosed.
QTangent(O, c, e) ==
  LET x == Scale(Z, e.p)
      a == Sub(e.x[1], x)
      b == Sub(e.x[2], x)
      la == ISqrt(DotV(a, a))
      lb == ISqrt(DotV(b, b))
      t == IF c.ell THEN 64 ELSE 4
      m(v, l) == (t + (3 * ISqrt(DotV(v, v))) \div l) * l
      \* Clearly in the sector from a counter-clockwise to b
      free(v) == IF CrossV(a, b) > 0 THEN CrossV(a, v) > m(v, la) /\ CrossV(v, b) > m(v, lb)
                 ELSE CrossV(b, v) < -m(v, lb) \/ CrossV(v, a) < -m(v, la)
  IN IF In(O, c, x, 2) THEN Req(e.x = <<>>, "tangent.inside")
     ELSE IF ~ Out(O, c, x, 2) THEN {}
     ELSE IF Len(e.x) # 2 THEN {"tangent.count"}
     ELSE Req(\A i \in 1..2 : ~ Out(O, c, e.x[i], 4) /\ ~ In(O, c, e.x[i], t), "tangent.touch")
          \cup IF la < 100 \/ lb < 100 \/ Abs(CrossV(a, b)) < 4 * (la + lb) THEN {}
          ELSE Req(\A s \in Samples(c) : ~ free(Sub(s, x)), "tangent.bounds")
               \cup Req(free(Sub(x, c.cen)) \/ (\E w \in {a, b} : Abs(CrossV(w, Sub(x, c.cen))) <= 2 * m(Sub(x, c.cen), ISqrt(DotV(w, w)))), "tangent.order")
QPoly(O, c, e) ==
  LET P == e.x
      G == {<<c.B[1] - 100 + ((c.B[3] - c.B[1] + 200) * i) \div 9, c.B[2] - 100 + ((c.B[4] - c.B[2] + 200) * j) \div 9>> : i \in 0..9, j \in 0..9}
  IN Req(e.form = "Polygon" /\ e.holes = 0, "polygon.form")
     \cup IF e.form # "Polygon" THEN {}
     ELSE Req(\A i \in 1..Len(P) : ~ Out(O, c, P[i], 3), "polygon.superfluous")
          \cup Req(\A i \in 1..Len(P) : ~ In(O, c, P[i], 3 + (IF c.ell THEN 60 ELSE 0)), "polygon.inner")
          \cup Req(\A s \in Samples(c) : ~ DeepOut(s, P, 3 + (IF c.ell THEN 60 ELSE 0)), "polygon.missing")
          \cup Req(\A q \in G : (In(O, c, q, 3) => (c.ell \/ ~ DeepOut(q, P, 3))) /\ (Out(O, c, q, 3) => ~ DeepIn(q, P, 3)), "polygon.region")
QKern(O, c, e) ==
  IF c.ell \/ e.x = <<>> THEN Req(c.ell, "kernel.empty")
  ELSE \* The hull of the kernel points, halved about their centre: directions of short edges may be rounding
       Req(\A k \in c.K, m \in c.K : ~ DeepOut(Mid(Mid(k, m), c.cen), CCW(e.x), 3), "kernel.contains")
       \cup Req(\A i \in 1..Len(e.x) : \A s \in Samples(c) : ~ Out(O, c, Mid(e.x[i], s), 8), "kernel.sees")
QConv(O, c, e) ==
  LET S == Samples(c) IN
  Req(e.x[1] = 0 \/ ~ \E p, q \in S : Out(O, c, Mid(p, q), 8), "convex.not")
  \cup Req(~ (c.plain /\ Cardinality(c.os) = 1 /\ \A i \in c.os : O[i].conv) \/ e.x[1] = 1, "convex")
QRefdir(O, c, e) ==
  LET v == Sub(Scale(Z, e.p), c.xr)
      l == ISqrt(DotV(v, v))
  IN Req(Abs(ISqrt(DotV(e.x, e.x)) - 10000) <= 3 /\ DotV(v, e.x) > 0
         /\ Abs((v[1] \div 4) * e.x[2] - (v[2] \div 4) * e.x[1]) <= 30 * l + 40000, "refdir")
\* Set safely: only points of the kernel are accepted
SetXr(O, c, e) ==
  LET p == Scale(Z, e.p)
      surelyin == HullIn(p, CH(c.K), 3)
      surelyout == \E s \in Samples(c) : Out(O, c, Mid(p, s), 8)
      set == Near(e.x, p, 2)
      kept == Near(e.x, c.xr, 2)
  IN <<IF set THEN [c EXCEPT !.xr = p] ELSE c,
       Req(set \/ kept, "setxr.value")
       \cup Req(~ e.safe => set, "setxr.set")
       \cup Req((e.safe /\ surelyin /\ ~ c.ell) => set, "setxr.refused")
       \cup Req((e.safe /\ surelyout /\ ~ Near(p, c.xr, 2)) => kept, "setxr.accepted")>>

CQuery(O, c, e) ==
  IF e.k # "val" THEN {e.q \o "." \o e.k}
  ELSE CASE e.q = "loc" -> QLoc(O, c, e)
         [] e.q = "bmap" -> QBm(O, c, e)
         [] e.q = "dist" -> QDist(O, c, e)
         [] e.q = "normal" -> QNormal(O, c, e)
         [] e.q = "line" -> QLine(O, c, e)
         [] e.q = "tang" -> QTangent(O, c, e)
         [] e.q = "poly" -> QPoly(O, c, e)
         [] e.q = "kern" -> QKern(O, c, e)
         [] e.q = "conv" -> QConv(O, c, e)
         [] e.q = "refdir" -> QRefdir(O, c, e)
         [] e.q = "xr" -> Req(Near(e.x, c.xr, 2), "xr")
         [] e.q = "trans" -> Req(Near(e.x, Scale(Z, e.p), 1), "transform")
CStep(s, e) ==
  CASE e.op = "comb" -> <<[s EXCEPT !.c = IF e.k = "val" THEN Make(s.obs, e) ELSE None], Req(e.k = "val", "comb." \o e.k)>>
    [] e.op = "setxr" -> LET r == SetXr(s.obs, s.c, e) IN
                         IF e.k # "val" THEN <<s, {"setxr." \o e.k}>> ELSE <<[s EXCEPT !.c = r[1]], r[2]>>
    [] e.op = "q" -> <<s, CQuery(s.obs, s.c, e)>>
    [] OTHER -> LET r == Step(s.obs, e) IN <<[s EXCEPT !.obs = r[1]], r[2]>>
=============================================================================
