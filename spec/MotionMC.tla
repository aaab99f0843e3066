------------------------------ MODULE MotionMC -------------------------------
(* All runs of small motion models under the laws of Motion: timed positions    *)
(* are met in time, every waypoint is reached in order and then the model       *)
(* rests, oscillations come back after a period.                                *)
EXTENDS Motion
CONSTANTS Big
Pts == IF Big THEN {<<0, 0>>, <<2, 0>>, <<2, 1>>, <<0, 3>>, <<-1, 2>>} ELSE {<<0, 0>>, <<2, 0>>, <<-1, 2>>}
Durations == IF Big THEN 1..4 ELSE 1..3
Seqs(A, n) == [1..n -> A]
Blank == [ty |-> "static", t |-> 0, I |-> {1}, u |-> 1, a1 |-> 0, p1 |-> 0, a2 |-> 0, p2 |-> 0, cart |-> TRUE, P |-> <<>>, T |-> <<>>, W |-> <<>>, v |-> 0, th |-> 0, pos |-> <<0, 0>>]
IntModels == UNION {{[Blank EXCEPT !.ty = "int", !.P = <<<<0, 0>>>> \o p, !.T = d] : p \in Seqs(Pts, n), d \in Seqs(Durations, n)} : n \in 1..3}
\* Waypoints at distances so that a step of 1/2 cannot jump over the threshold of 3/10
WayModels == UNION {{[Blank EXCEPT !.ty = "way", !.W = <<<<0, 0>>>> \o p, !.v = 40, !.th = 30] : p \in Seqs(Pts, n)} : n \in 1..3}
SinModels == {[Blank EXCEPT !.ty = "sin", !.a1 = a, !.p1 = p, !.a2 = 5, !.p2 = q] : a \in {0, 7, 20}, p \in {96, 48, 24, 12, 8, 3}, q \in {96, 32, 6, 4}}
VARIABLES m, n      \* the model, and the number of steps
vars == <<m, n>>
Limit == CASE m.ty = "int" -> End(m) [] m.ty = "way" -> 60 [] OTHER -> 192
\* Unit vector in units of 1/S
UnitTo(p, w) == LET d == <<RDiv(w[1] - p[1], 10), RDiv(w[2] - p[2], 10)>> l == ISqrt(DotV(d, d)) IN <<RDiv(d[1] * S, l), RDiv(d[2] * S, l)>>
\* Displacement in one tick (waypoints: velocity 40 tenths per 8 ticks = 1/2 per tick)
Disp(x, i) ==
  CASE x.ty = "int" -> Leg(x, Interval(x, x.t), 1)
    [] x.ty = "sin" -> <<RDiv(Profile(x.a1, x.p1, x.t), 8), RDiv(Profile(x.a2, x.p2, x.t), 8)>>
    [] x.ty = "way" -> IF i > Len(x.W) THEN <<0, 0>> ELSE LET g == UnitTo(x.pos, Scale(S, x.W[i])) IN <<RDiv(g[1], 2), RDiv(g[2], 2)>>
Init == m \in IntModels \cup WayModels \cup SinModels /\ n = 0
Next == /\ n < Limit
        /\ n' = n + 1
        /\ \E i \in IF m.ty = "way" THEN NextWays(m, m.pos) ELSE {0} :
             m' = [m EXCEPT !.t = @ + 1, !.pos = Add(@, Disp(m, i)), !.I = IF m.ty = "way" THEN {i} ELSE @]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Timed positions are met
InTime == m.ty = "int" => \A i \in 0..Len(m.T) : m.t = Until(m.T, i) => Near(m.pos, Scale(S, m.P[i + 1]), 4 * m.t + 1)
\* and lie between the neighbours in the meantime
Between == m.ty = "int" /\ m.t < End(m) =>
             LET i == Interval(m, m.t) a == Scale(S, m.P[i]) b == Scale(S, m.P[i + 1])
             IN \A c \in 1..2 : m.pos[c] >= Min2(a[c], b[c]) - 60 /\ m.pos[c] <= Max2(a[c], b[c]) + 60
\* After common periods an oscillation is back where it began
Back == m.ty = "sin" /\ m.t % 96 = 0 => Near(m.pos, <<0, 0>>, m.t + 1)
\* The model keeps to the waypoints in order, never undecided between two here, and stays where it is after the last
Resting == m.ty = "way" /\ \A i \in m.I : i > Len(m.W)
InOrder == [][m.ty = "way" => \A i \in m'.I : \E j \in m.I : i >= j]_vars
StayPut == [][Resting => m'.pos = m.pos]_vars
AtEnd == Resting => Reached(m, m.pos, Len(m.W)) <= 0
Arrives == <>(m.ty # "way" \/ Resting)
\* The judge accepts the law's own run
Accepts == m.ty = "int" /\ m.t < End(m) =>
  Lin(m, [pos |-> m.pos, rot |-> 0, cs |-> <<S, 0>>, lin |-> Leg(m, Interval(m, m.t), 8), rv |-> 0]) = {}
=============================================================================
