---------------------------- MODULE MotionTrace -----------------------------
(* Judges recorded motions, see Motion.                                         *)
EXTENDS Motion, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
vars == <<tr, l, st>>
On(p) == IOEnv.CLAUSES \in {p, "all"}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Judge(s, e) ==
  CASE e.op = "new" -> LET r == NewModel(e) IN <<Append(s, r[1]), r[2]>>
    [] e.op = "comb" -> <<s, Comb(e)>>
    [] OTHER -> LET m == s[e.m]
                    r == CASE e.op = "vel" -> Vel(m, e)
                           [] e.op = "move" -> Move(m, e)
                           [] e.op = "run" -> Run(m, e)
                           [] e.op = "set" -> Set(m, e)
                           [] e.op = "held" -> Held(m, e)
                           [] e.op = "body" -> Body(m, e)
                IN <<[s EXCEPT ![e.m] = r[1]], r[2]>>
Next == /\ l <= Len(Traces[tr].ev)
        /\ LET r == Judge(st, Traces[tr].ev[l]) IN
           /\ IF r[2] = {} THEN TRUE ELSE PrintT(<<"REJECT", Traces[tr].id, l, r[2]>>)
           /\ st' = r[1]
        /\ l' = l + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
