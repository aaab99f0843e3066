------------------------------ MODULE WorldGen ------------------------------
(* Every history of operations on obstacles up to a depth, by the transitions   *)
(* of World, from a single obstacle or two which share their motion model.      *)
(* Each history is printed as a string of operations, to be replayed into the   *)
(* real code (drv_replay), where it is judged by WorldTrace.  On the way TLC     *)
(* establishes that the specification keeps obstacles apart as it should: an    *)
(* operation on one changes no geometry or reference point of another, and      *)
(* moves no other than those which share its motion model.                      *)
EXTENDS World
CONSTANTS Depth, MaxObj
VARIABLES st, h, n, last
vars == <<st, h, n, last>>

Shape(kind) == IF kind = "ell" THEN <<<<2, 1>>>> ELSE <<<<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>>>
Mm(i) == <<"new", 3 * i, -i, 1, 0, 1, "lin", 1, i>>
Fresh == [objs |-> <<>>, mms |-> <<>>, idc |-> 0]
Make(s, kind, mma) == Create(s, kind, Shape(kind), IF kind = "pol" THEN <<>> ELSE <<1, 0>>, mma, <<"new", 0>>, IF kind = "ell" THEN 20 ELSE 0)
Kinds == {"ell", "star", "pol"}
Letter(kind) == CASE kind = "ell" -> "e" [] kind = "star" -> "s" [] OTHER -> "p"
Init == /\ n = 0 /\ last = 0
        /\ \E k \in Kinds :
             \/ st = Make(Fresh, k, Mm(1)) /\ h = Letter(k)
             \/ st = Make(Fresh, k, <<"none">>) /\ h = Letter(k) \o "0"
             \/ \E k2 \in Kinds : st = Make(Make(Fresh, k, Mm(1)), k2, <<"ref", 1>>) /\ h = Letter(k) \o Letter(k2)

Objs == 1..Len(st.objs)
\* The operations, with a letter each; i counts the steps, to give new values
Ops(o, i) ==
  LET m == st.objs[o].mm IN
    (IF m = 0 THEN {} ELSE {<<"P", SetPos(st, m, <<i, -7 * i>>)>>,      \* set the position of its motion model
                            <<"R", SetRot(st, m, <<3, 4, 5>>)>>,        \* its orientation
                            <<"V", Move(st, o, 1)>>})                   \* move
    \cup {<<"M", SetMM(st, o, Mm(i + 1))>>}                             \* a motion model of its own
    \cup (IF m = 0 THEN {} ELSE {<<"N", SetMM(st, o, <<"none">>)>>})    \* none
    \cup (IF Len(st.objs) < MaxObj THEN {<<"C", Copy(st, o, <<"new", 0>>)>>, <<"D", Dilate(st, o, 1, <<"new", 0>>)>>} ELSE {})
    \cup (IF st.objs[o].kind = "pol" THEN {} ELSE {<<"X", SetXr(st, o, <<0, i>>)>>})
    \cup {<<"S" \o ToString(p), SetMM(st, o, <<"ref", st.objs[p].mm>>)>> :          \* share that of another
            p \in {p \in Objs : p # o /\ st.objs[p].mm # 0 /\ st.objs[p].mm # m}}
Next == /\ n < Depth
        /\ \E o \in Objs : \E op \in Ops(o, n + 1) :
             /\ st' = op[2]
             /\ h' = h \o " " \o op[1] \o ToString(o)
             /\ last' = o
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Printed == IF n > 0 THEN PrintT(<<"HIST", h>>) ELSE TRUE

Independent ==
  [][\A p \in Objs : p # last' =>
       /\ st'.objs[p].geo = st.objs[p].geo /\ st'.objs[p].pad = st.objs[p].pad /\ st'.objs[p].xr = st.objs[p].xr
       /\ st'.objs[p].id = st.objs[p].id /\ st'.objs[p].mm = st.objs[p].mm
       /\ st.objs[p].mm # st.objs[last'].mm => PoseOf(st', p) = PoseOf(st, p)]_vars
\* New obstacles have new identities, in order
Identities == \A i, j \in Objs : i < j => st.objs[i].id < st.objs[j].id
\* Sharing moves together
Together == \A i, j \in Objs : st.objs[i].mm = st.objs[j].mm => PoseOf(st, i) = PoseOf(st, j)
=============================================================================
