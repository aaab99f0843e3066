------------------------------ MODULE CgTrace -------------------------------
(* Judges recorded results of the geometric tools, see Cg.                      *)
EXTENDS Cg, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET r == Query(Traces[tr].ev[l])
           IN IF r = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].id, l, r>>)
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
