----------------------------- MODULE ComboTrace -----------------------------
(* Judges recorded queries of combined obstacles, see Combo.                   *)
EXTENDS Combo, Json
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>
Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = [obs |-> <<>>, c |-> None]
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET r == CStep(st, Traces[tr].ev[l]) IN
           /\ IF r[2] = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].id, l, r[2]>>)
           /\ st' = r[1]
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
