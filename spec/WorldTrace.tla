----------------------------- MODULE WorldTrace -----------------------------
(* Checks recorded histories of the real code against World.  A trace is a      *)
(* sequence of events; state changing events take the corresponding transition  *)
(* of World, queries must satisfy their contract in the current state.  Every   *)
(* event is judged: violated clauses are printed, and checking goes on.         *)
EXTENDS World, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = [objs |-> <<>>, mms |-> <<>>, idc |-> 0]

\* Successor and violated clauses of one event
Created(st1, e) ==
  LET n == Len(st1.objs)
      ob == st1.objs[n]
  IN <<st1, IF e.k # "val" THEN {"op." \o e.k} ELSE Req(e.x[1] = ob.id, "id") \cup Req(e.x[2] = 1, "id.name")>>
Step(s, e) ==
  CASE e.op = "create" ->
         LET r == Created(Create(s, e.kind, e.geo, e.xr, e.mm, e.id, e.np), e)
             n == Len(r[1].objs)
         IN IF e.k = "val" /\ e.kind = "star" /\ e.xr = <<>>
            THEN <<r[1], r[2] \cup   \* the reference point chosen by default is in the kernel
                   LET P == CCW(Distinct(e.geo)) IN
                   Req(\A k \in 1..Len(P) : CrossV(Sub(P[Nxt(P, k)], P[k]), Sub(e.xrs, Scale(S, P[k]))) > 0, "xr.default")>>
            ELSE r
    [] e.op = "copy" -> Created(Copy(s, e.o, e.id), e)
    [] e.op = "dilate" -> Created(Dilate(s, e.o, e.pad, e.id), e)
    [] e.op = "setmm" -> <<SetMM(s, e.o, e.mm), Req(e.k = "val", "op." \o e.k)>>
    [] e.op = "setpos" -> <<SetPos(s, e.m, e.p), Req(e.k = "val", "op." \o e.k)>>
    [] e.op = "setrot" -> <<SetRot(s, e.m, e.r), Req(e.k = "val", "op." \o e.k)>>
    [] e.op = "move" -> <<Move(s, e.o, e.dt), Req(e.k = "val", "op." \o e.k)>>
    [] e.op = "setxr" ->
         IF e.k # "val" THEN <<SetXr(s, e.o, <<>>), {"op." \o e.k}>>
         ELSE LET A == XrAfter(s.objs[e.o], e)
                  B == {p \in A : p = <<>> \/ Near(e.x, Scale(S, p), 3)}
              IN IF B = {} THEN <<SetXr(s, e.o, <<>>), {"setxr"}>>
                 ELSE <<SetXr(s, e.o, CHOOSE p \in B : TRUE), {}>>
    [] e.op = "q" -> <<s, Query(s, e)>>

Next == /\ l <= Len(Traces[tr].ev)
        /\ LET r == Step(st, Traces[tr].ev[l]) IN
           /\ IF r[2] = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].id, l, r[2]>>)
           /\ st' = r[1]
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
