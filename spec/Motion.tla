------------------------------- MODULE Motion --------------------------------
(* Laws of motion.  Time is counted in ticks (of 1/8 s, or any other length:    *)
(* velocities are per 8 ticks), positions are measured in units of 1/S, angles  *)
(* in units of 1/S rad.                                                         *)
(*                                                                             *)
(* A model m:                                                                   *)
(*  ty "static"                                                                 *)
(*     "sin"    a1, p1, a2, p2: amplitudes in tenths, periods in ticks (0:      *)
(*              constant); cart: Cartesian, or forward and turn rate            *)
(*     "int"    P: points, T: times of the intervals in ticks; u: 1 if time is  *)
(*              binary exact                                                    *)
(*     "way"    W: points, v: speed in tenths, th: threshold in hundredths      *)
(*  t: the time; I: waypoints which may be the next one                         *)
(* An observation e: pos, rot, cs (cosine and sine of rot), and velocities lin, *)
(* rv.                                                                          *)
EXTENDS Geom, TLC

S == 10000
Req(b, name) == IF b THEN {} ELSE {name}
Quarter == <<10000, 9979, 9914, 9808, 9659, 9469, 9239, 8969, 8660, 8315, 7934, 7518, 7071, 6593, 6088, 5556, 5000,
             4423, 3827, 3214, 2588, 1951, 1305, 654, 0>>
\* S cos(2 pi k / 96)
Cos96(k0) == LET k == k0 % 96
             IN IF k <= 24 THEN Quarter[k + 1]
                ELSE IF k <= 48 THEN -Quarter[49 - k]
                ELSE IF k <= 72 THEN -Quarter[k - 47]
                ELSE Quarter[97 - k]
\* Periods divide 96 ticks
Phase(t, p) == IF p = 0 THEN 0 ELSE ((t % p) * (96 \div p))
Profile(a, p, t) == RDiv(a * Cos96(Phase(t, p)), 10)

-----------------------------------------------------------------------------
(* Timed positions                                                             *)
RECURSIVE Until(_, _)
Until(T, i) == IF i = 0 THEN 0 ELSE T[i] + Until(T, i - 1)
End(m) == Until(m.T, Len(m.T))
\* Number of the interval at time t, which is not the end
Interval(m, t) == CHOOSE i \in 1..Len(m.T) : Until(m.T, i - 1) <= t /\ t < Until(m.T, i)
\* With rounded time either neighbour applies at the border of intervals
Intervals(m, t) == IF m.u = 1 THEN {Interval(m, t)}
                   ELSE {i \in 1..Len(m.T) : Until(m.T, i - 1) <= t /\ t <= Until(m.T, i)}
\* Displacement in n ticks of interval i, in units of 1/S
Leg(m, i, n) == LET d == Sub(m.P[i + 1], m.P[i]) IN <<RDiv(S * d[1] * n, m.T[i]), RDiv(S * d[2] * n, m.T[i])>>

(* Waypoints: indices i which may be the next one, at position p                *)
\* -1: closer than the threshold, 1: not, 0: undecided
Reached(m, p, i) ==
  LET d == <<RDiv(p[1] - S * m.W[i][1], 10), RDiv(p[2] - S * m.W[i][2], 10)>>   \* units of 1/1000
      r == 10 * m.th
  IN IF Abs(d[1]) > r + 5 \/ Abs(d[2]) > r + 5 THEN 1
     ELSE LET x == DotV(d, d) IN IF x < (r - 3) * (r - 3) THEN -1 ELSE IF x > (r + 3) * (r + 3) THEN 1 ELSE 0
RECURSIVE Advance(_, _, _)
Advance(m, p, i) == IF i > Len(m.W) THEN {i}
                    ELSE LET r == Reached(m, p, i)
                         IN (IF r >= 0 THEN {i} ELSE {}) \cup (IF r <= 0 THEN Advance(m, p, i + 1) ELSE {})
NextWays(m, p) == UNION {Advance(m, p, i) : i \in m.I}
\* v points from p to the point w (units of 1/S) with speed sp
Towards(v, p, w, sp) ==
  LET d == <<RDiv(w[1] - p[1], 10), RDiv(w[2] - p[2], 10)>>
      l == ISqrt(DotV(d, d))
      x == <<RDiv(d[1] * S, l), RDiv(d[2] * S, l)>>
      g == <<RDiv(x[1] * sp, S), RDiv(x[2] * sp, S)>>
      tol == 4 + sp \div 2000 + (2 * sp) \div l
  IN l > 0 => Near(v, g, tol)
WayOk(m, p, v, i) == IF i > Len(m.W) THEN v = <<0, 0>> ELSE Towards(v, p, Scale(S, m.W[i]), m.v * (S \div 10))

-----------------------------------------------------------------------------
(* Velocities at the current state, judged                                     *)
Lin(m, e) ==
  CASE m.ty = "static" -> Req(e.lin = <<0, 0>>, "motion.static")
    [] m.ty = "sin" ->
         LET v1 == Profile(m.a1, m.p1, m.t)
             v2 == Profile(m.a2, m.p2, m.t)
         IN IF m.cart THEN Req(Near(e.lin, <<v1, v2>>, 3 + (m.a1 + m.a2) \div 10), "motion.cartesian")
            ELSE Req(Near(e.lin, <<RDiv(v1 * e.cs[1], S), RDiv(v1 * e.cs[2], S)>>, 3 + m.a1 \div 5), "motion.forward")
    [] m.ty = "int" ->
         IF m.t < End(m) \/ (m.u = 0 /\ m.t = End(m))
         THEN Req((m.t = End(m) /\ m.u = 0) \/ \E i \in Intervals(m, m.t) : Near(e.lin, Leg(m, i, 8), 3), "motion.interval")
         ELSE \* towards the last position
              LET d == Sub(Scale(S \div 10, m.P[Len(m.P)]), <<RDiv(e.pos[1], 10), RDiv(e.pos[2], 10)>>)
                  l == Norm1(d) + 1
                  big == Norm1(e.lin) + 1
                  v == IF big > 600000 THEN <<e.lin[1] \div 400, e.lin[2] \div 400>>
                       ELSE <<(e.lin[1] * 3000) \div big, (e.lin[2] * 3000) \div big>>   \* |v| <= 6000
              IN IF l < 100 \/ big < 100 THEN {}   \* a direction of rounding errors
                 ELSE Req(Abs(CrossV(d, v)) <= 6 * l + 6000 + (60000 \div big) * l /\ DotV(d, v) > 0, "motion.last")
    [] m.ty = "way" -> Req(\E i \in NextWays(m, e.pos) : WayOk(m, e.pos, e.lin, i), "motion.waypoint")
Rv(m, e) ==
  IF m.ty = "sin" /\ ~ m.cart THEN Req(Abs(e.rv - Profile(m.a2, m.p2, m.t)) <= 3 + m.a2 \div 10, "motion.turn")
  ELSE Req(e.rv = 0, "motion.noturn")
\* The state after the velocities were asked for
Asked(m, e) == IF m.ty = "way" THEN [m EXCEPT !.I = {i \in NextWays(m, e.pos) : WayOk(m, e.pos, e.lin, i)}] ELSE m
\* State: last observation kept as o
Vel(m, e) ==
  <<[Asked(m, e) EXCEPT !.o = e],
    Req(e.k = "val", "vel." \o e.k) \cup IF e.k # "val" THEN {} ELSE
    Lin(m, e) \cup Rv(m, e) \cup Req(Near(e.pos, m.o.pos, 2) /\ Abs(e.rot - m.o.rot) <= 2, "motion.moved")>>
\* A step of n ticks, from the last observation (velocities at its state are known to be right)
Move(m, e) ==
  LET o == m.o
      g == <<o.pos[1] + RDiv(o.lin[1] * e.n, 8), o.pos[2] + RDiv(o.lin[2] * e.n, 8)>>
      tol == 3 + e.n \div 4
  IN <<[m EXCEPT !.t = @ + e.n, !.o = [o EXCEPT !.pos = e.pos, !.rot = e.rot]],
       Req(e.k = "val", "move." \o e.k) \cup IF e.k # "val" THEN {} ELSE
       Req(Near(e.pos, g, tol), "motion.position") \cup Req(Abs(e.rot - (o.rot + RDiv(o.rv * e.n, 8))) <= tol, "motion.rotation")>>
\* Steps of several ticks without looking: only the state after it is observed; the laws tell where it leads for
\* models which do not depend on the position
RECURSIVE SinSum(_, _, _, _, _)
SinSum(a, p, t, n, k) == IF k = 0 THEN 0 ELSE RDiv(Profile(a, p, t) * n, 8) + SinSum(a, p, t + n, n, k - 1)
RECURSIVE LegSum(_, _, _, _)
LegSum(m, t, n, k) == IF k = 0 THEN <<0, 0>> ELSE Add(Leg(m, Interval(m, t), n), LegSum(m, t + n, n, k - 1))
Run(m, e) ==   \* e.c steps of e.n ticks
  LET o == m.o
      fin == m.t + e.n * (e.c - 1)
      d == IF m.ty = "static" THEN <<0, 0>>
           ELSE IF m.ty = "sin" THEN <<SinSum(m.a1, m.p1, m.t, e.n, e.c), SinSum(m.a2, m.p2, m.t, e.n, e.c)>>
           ELSE LegSum(m, m.t, e.n, e.c)
      known == m.ty = "static" \/ (m.ty = "sin" /\ m.cart) \/ (m.ty = "int" /\ m.u = 1 /\ fin < End(m))
  IN <<[m EXCEPT !.t = @ + e.n * e.c, !.o = [o EXCEPT !.pos = e.pos, !.rot = e.rot]],
       Req(e.k = "val", "run." \o e.k) \cup IF e.k # "val" THEN {} ELSE
       Req(~ known \/ Near(e.pos, Add(o.pos, d), 3 + (e.c * (5 + e.n)) \div 2), "motion.run")
       \cup Req(m.ty # "sin" \/ m.cart \/ Abs(e.rot - o.rot - SinSum(m.a2, m.p2, m.t, e.n, e.c)) <= 3 + (e.c * (5 + e.n)) \div 2, "motion.runrot")>>
Set(m, e) ==
  <<[m EXCEPT !.o = [m.o EXCEPT !.pos = e.pos, !.rot = e.rot]],
    Req(e.k = "val", "set." \o e.k) \cup IF e.k # "val" THEN {} ELSE
    Req(IF e.what = "pos" THEN Near(e.pos, Scale(S, e.arg), 1) /\ Abs(e.rot - m.o.rot) <= 1
        ELSE Near(e.pos, m.o.pos, 1) /\ Abs(e.rot - e.arg[1]) <= 2, "motion.set")>>
\* Positions which were handed in or out before keep their value: e.was, e.now
Held(m, e) == <<m, Req(e.was = e.now, "motion.held")>>
\* The velocity of the rigid body at the lattice point e.x
Body(m, e) ==
  LET a == Sub(Scale(S, e.x), m.o.pos)
      w == RDiv(m.o.rv, 10)
      g == <<m.o.lin[1] - RDiv(w * a[2], 1000), m.o.lin[2] + RDiv(w * a[1], 1000)>>
  IN <<m, Req(e.k = "val", "body." \o e.k) \cup IF e.k # "val" THEN {} ELSE
          Req(Near(e.v, g, 4 + Norm1(a) \div 1500), "body.velocity")>>

-----------------------------------------------------------------------------
(* A combined obstacle moves at x like the obstacle hit furthest out on the ray *)
(* from the reference point xr through x.  obs: lattice vertices P or centre c  *)
(* and semi-axes ax of an ellipse, with velocities lin, rv and position pos     *)
\* Parameters t = n/d (d > 0) where q + t v meets the edge a b
EdgeHit(q, v, a, b, sure) ==
  LET w == Sub(b, a)
      den == CrossV(v, w)
      num == CrossV(Sub(a, q), w)
      sgn == Sgn(den)
      c == CrossV(Sub(a, q), v) * sgn
      onedge == IF sure THEN c > 0 /\ c < Abs(den) ELSE c >= 0 /\ c <= Abs(den)
  IN IF den # 0 /\ num * sgn >= 0 /\ onedge THEN {<<num * sgn, den * sgn>>} ELSE {}
\* Furthest hit as parameter in units of 1/1000, -1: none
Furthest(o, q, v, sure) ==
  IF o.ax = <<0, 0>>
  THEN LET H == UNION {EdgeHit(q, v, o.P[i], o.P[Nxt(o.P, i)], sure) : i \in 1..Len(o.P)}
           T == {(1000 * h[1]) \div h[2] : h \in H}
       IN IF T = {} THEN -1 ELSE CHOOSE t \in T : \A s \in T : s <= t
  ELSE LET r == Sub(q, o.c)
           A == o.ax[2] * o.ax[2] * v[1] * v[1] + o.ax[1] * o.ax[1] * v[2] * v[2]
           B == o.ax[2] * o.ax[2] * r[1] * v[1] + o.ax[1] * o.ax[1] * r[2] * v[2]
           C == EllF(r, o.ax)
           disc == B * B - A * C
           root == ISqrt(disc * 900)
       IN IF disc < 0 \/ (sure /\ disc = 0) \/ (B > 0 /\ C > 0) THEN -1 ELSE (1000 * (-B) + (1000 * root) \div 30) \div A
Comb(e) ==
  LET v == Sub(e.x, e.xr)
      T == [i \in 1..Len(e.obs) |-> Furthest(e.obs[i], e.xr, v, TRUE)]    \* crossings
      M == [i \in 1..Len(e.obs) |-> Furthest(e.obs[i], e.xr, v, FALSE)]   \* also touches
      far == CHOOSE t \in {T[i] : i \in 1..Len(T)} : \A i \in 1..Len(T) : T[i] <= t
      vel(o) == LET a == Sub(Scale(S, e.x), o.pos)
                    w == RDiv(o.rv, 10)
                IN <<o.lin[1] - RDiv(w * a[2], 1000), o.lin[2] + RDiv(w * a[1], 1000)>>
  IN Req(e.k = "val", "comb." \o e.k) \cup
     IF e.k # "val" \/ far = -1 THEN {}
     ELSE Req(\E i \in 1..Len(T) : M[i] >= far - 20 /\ Near(e.v, vel(e.obs[i]), 6 + Norm1(Sub(Scale(S, e.x), e.obs[i].pos)) \div 1500), "comb.velocity")
NewModel(e) ==
  <<[ty |-> e.ty, t |-> 0, I |-> {1}, u |-> e.u, a1 |-> e.a1, p1 |-> e.p1, a2 |-> e.a2, p2 |-> e.p2, cart |-> e.cart,
     P |-> e.P, T |-> e.T, W |-> e.P, v |-> e.a1, th |-> e.th, o |-> [pos |-> e.pos, rot |-> e.rot, lin |-> <<0, 0>>, rv |-> 0]],
    Req(e.k = "val", "new." \o e.k) \cup IF e.k # "val" THEN {} ELSE
    Req(e.pos = Scale(S, e.P[1]) /\ Abs(e.rot - e.rot0) <= 1, "motion.start")>>
=============================================================================
