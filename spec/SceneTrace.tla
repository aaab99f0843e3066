----------------------------- MODULE SceneTrace -----------------------------
(* Judges recorded clusterings of scenes, see Scene.                            *)
EXTENDS Scene, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>
Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = [obs |-> <<>>, res |-> <<>>]
Step(s, e) ==
  CASE e.op = "draw" -> <<s, Drawing(s.obs, e)>>
    [] e.op = "drawpol" -> <<s, DrawPolys(e)>>
    [] e.op = "obs" -> <<[s EXCEPT !.obs = Append(@, Obstacle(e))], {}>>
    [] e.op = "pose" -> <<[s EXCEPT !.obs[e.o] = Posed(@, e.pose)], {}>>
    [] e.op = "call" -> <<[s EXCEPT !.res = Append(@, e)], Call(s.obs, s.res, e)>>
    [] e.op = "sweep" -> <<s, Sweep(s.obs, s.res, e)>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET r == Step(st, Traces[tr].ev[l]) IN
           /\ IF r[2] = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].id, l, r[2]>>)
           /\ st' = r[1]
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
